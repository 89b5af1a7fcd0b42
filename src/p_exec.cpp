// C01-C13 (execution, against the reference model) and C16 (parser fidelity).
#include "lock.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;
using doc::Prof;
using lock::Lock;
using lock::Ops;

typedef std::function<bool (map<string, long> &)> Rule;
static void
lockstep (Case &c, const Prof &p, const Ops &o, const Rule &nontrivial, const std::function<void (Lock &)> &pre = nullptr, const std::function<void (Lock &)> &post = nullptr)
{
  Lock l (c);
  if (pre)
    pre (l);
  if (!l.load (doc::gen (c, p)))
    return;
  if (l.begin ())
    l.run (o);
  for (auto &s : l.m.stat)
    if (s.second)
      c.cls (s.first);
  c.nontrivial = !l.discarded && nontrivial (l.m.stat);
  if (post)
    post (l);
}
static int
scale (Case &c, int lo, int hi)
{
  return lo + (hi - lo) * c.size / 100;
}
#define STAT [] (map<string, long> & s) -> bool
static Prof
prof (Case &c, int nodes, int links)
{
  Prof p;
  p.nodes = scale (c, 2 + nodes / 4, nodes);
  p.links = links ? scale (c, 1, links) : 0;
  return p;
}
static Ops
ops (Case &c, int n)
{
  Ops o;
  o.n = scale (c, n / 3, n);
  return o;
}
static const unsigned Q = 40000, TH = 600000;
static const std::vector<std::string> ASSUME = {
  "players are replaced by stand-ins: images and text are not decoded, videos not played; scripts run the real NCLua player over a recording interpreter",
  "times are multiples of 1/40 s and time-valued properties hold well-formed times",
  "documents whose links trigger one another for ever (more than 3000 actions in one step) are discarded",
};
#define EXEC(ID, RULE, ...) static RegP exec_##ID (Property{ #ID, RULE, __VA_ARGS__, Q, TH, ASSUME })

EXEC (C01, "at least three kinds of transition were carried out, one of them a pause, resume or abort", [] (Case &c) {
  Prof p = prof (c, 6, 2);
  p.area = 60;
  Ops o = ops (c, 24);
  o.wAct = 12;
  o.wTick = 2;
  o.wKey = 1;
  o.actAttr = 2;
  o.actOther = 3;
  lockstep (c, p, o, STAT {
    int k = 0;
    for (auto t : { "tr-start", "tr-stop", "tr-pause", "tr-resume", "tr-abort" })
      k += s[t] > 0;
    return k >= 3 && (s["tr-pause"] || s["tr-resume"] || s["tr-abort"]);
  });
});
EXEC (C02, "the presentation ended by itself, or was presented twice with something happening in it", [] (Case &c) {
  Prof p = prof (c, 6, 3);
  p.dur = 80;
  p.wSettings = 2;
  Ops o = ops (c, 16);
  o.wTick = 12;
  o.wAct = 2;
  o.wStop = c.size > 20 ? 1 : 0;
  o.rootAct = 60;
  o.sessions = 2;
  lockstep (c, p, o, STAT { return s["end"] || (s["restart"] && s["tr-stop"] > 2); });
});
EXEC (C03, "a context inside another one was started or ended by what happened inside it", [] (Case &c) {
  Prof p = prof (c, 10, 3);
  p.depth = 4;
  p.wCtx = 5;
  p.wSwitch = 0;
  p.portIface = 60;
  p.portProp = 25;
  p.dur = 40;
  Ops o = ops (c, 18);
  o.wTick = 5;
  lockstep (c, p, o, STAT { return s["wake-parent"] || s["context-end"]; });
});
EXEC (C04, "at least two links were triggered", [] (Case &c) {
  Prof p = prof (c, 9, 8);
  p.sharedConn = 40;
  Ops o = ops (c, 18);
  lockstep (c, p, o, STAT { return s["link"] >= 2; });
});
EXEC (C05, "an action postponed by a link was carried out", [] (Case &c) {
  Prof p = prof (c, 6, 6);
  p.delay = 85;
  p.dur = 15;
  p.maxActs = 4;
  p.abortPause = 40;
  Ops o = ops (c, 20);
  o.wTick = 9;
  o.wKey = 1;
  lockstep (c, p, o, STAT { return s["due-link"]; });
});
EXEC (C06, "a temporal anchor began or ended because of its time", [] (Case &c) {
  Prof p = prof (c, 5, 3);
  p.area = 90;
  p.label = 5;
  p.lua = 10;
  p.dur = 30;
  p.portIface = 50;
  Ops o = ops (c, 20);
  o.wTick = 9;
  o.wKey = 0;
  o.actAttr = 0;
  lockstep (c, p, o, STAT { return s["due-anchor"]; });
});
EXEC (C07, "a media ended by its duration, or time passed while something was paused", [] (Case &c) {
  Prof p = prof (c, 5, 2);
  p.dur = 100;
  p.area = 30;
  p.desc = 40;
  Ops o = ops (c, 20);
  o.wTick = 10;
  o.wKey = 0;
  lockstep (c, p, o, STAT { return s["eos"] || s["paused-tick"]; });
});
EXEC (C08, "a property was set by an action, with a duration or through a link", [] (Case &c) {
  Prof p = prof (c, 5, 6);
  p.props = 85;
  p.wAttr = 14;
  p.wPres = 6;
  p.bindParam = 60;
  p.duration = 50;
  p.wSettings = 3;
  Ops o = ops (c, 16);
  o.actAttr = 8;
  lockstep (c, p, o, STAT { return s["attribution"] && (s["attribution-timed"] || s["link"]); });
});
EXEC (C09, "a key selected an object", [] (Case &c) {
  Prof p = prof (c, 6, 6);
  p.wSel = 12;
  p.wPres = 6;
  p.focus = 60;
  p.port = 90;
  Ops o = ops (c, 16);
  o.wKey = 10;
  o.wTick = 4;
  o.wAct = 3;
  o.aim = 50;
  lockstep (c, p, o, STAT { return s["selection"]; });
});
EXEC (C10, "the focus was given by the lowest index, or moved by a cursor key or an attribution", [] (Case &c) {
  Prof p = prof (c, 7, 3);
  p.focus = 90;
  p.wSettings = 4;
  p.wCtx = 1;
  p.port = 90;
  p.wAttr = 8;
  p.wSel = 4;
  p.moves = 60;
  p.curFocus = 60;
  p.dur = 30;
  Ops o = ops (c, 18);
  o.aimFocus = 25;
  o.sessions = 1 + (unsigned) c.src.chance (1, 4);
  o.wKey = 8;
  o.wTick = 8;
  o.wAct = 3;
  lockstep (c, p, o, STAT { return s["focus-move"] || s["focus"] > 1; });
});
EXEC (C11, "a link's condition was tested with both outcomes, or a rule chose a component", [] (Case &c) {
  Prof p = prof (c, 6, 6);
  p.pred = 85;
  p.props = 85;
  p.wSwitch = 3;
  p.mustSwitch = c.src.chance (1, 2);
  p.defaultComp = 40;
  p.port = 85;
  p.wSettings = 4;
  p.wAttr = 6;
  Ops o = ops (c, 16);
  o.actAttr = 6;
  o.aim = 60;
  lockstep (c, p, o, STAT { return (s["link"] && s["link-blocked"]) || s["switch-selected"]; });
});
EXEC (C12, "a switch selected a component", [] (Case &c) {
  Prof p = prof (c, 9, 4);
  p.wSwitch = 7;
  p.wCtx = 2;
  p.wSettings = 3;
  p.mustSwitch = true;
  p.defaultComp = 80;
  p.port = 90;
  p.portIface = 60;
  p.dur = 40;
  Ops o = ops (c, 18);
  lockstep (c, p, o, STAT { return s["switch-selected"]; });
});
EXEC (C13, "a link of another context was triggered through a reference", [] (Case &c) {
  Prof p = prof (c, 9, 8);
  p.aliasCtx = true;
  p.wSettings = 3;
  p.wSwitch = 0;
  p.port = 95;
  p.alias = 60;
  p.dur = 15;
  p.area = 20;
  p.pred = 15;
  p.wRefer = 9;
  p.wMedia = 7;
  p.wCtx = 5;
  Ops o = ops (c, 18);
  o.aim = 50;
  lockstep (c, p, o, STAT { return s["link-through-alias"]; });
});

EXEC (C25, "an event posted by a script acted upon the presentation", [] (Case &c) {
  Prof p = prof (c, 6, 4);
  p.lua = 85;
  p.area = 70;
  p.label = 60;
  p.port = 90;
  p.dirs = 50;
  p.duration = 10;
  p.props = 70;
  p.focus = 40;
  Ops o = ops (c, 20);
  o.wPost = 8;
  o.wRedraw = 2;
  o.wKey = 3;
  o.wTick = 8;
  c.check (chdir (c.tmpdir.c_str ()) == 0, "harness", "chdir");
  bool moves = c.src.chance (1, 2);
  string before, after;
  lockstep (c, p, o, STAT { return s["post"] > 0; }, [&] (Lock &l) {
    l.moveDirs = moves;
    if (moves)
      before = l.changeDir ();
  }, [&] (Lock &l) {
    before = l.changeDir ();
  });
  char *q = getcwd (nullptr, 0);
  after = q;
  free (q);
  if (before != "")
    c.eq (after, before, "cwd", "current directory after the presentation");
  c.check (chdir (c.tmpdir.c_str ()) == 0, "harness", "chdir");
});

static RegP c16 (Property{ "C16", "the document has a link and at least four objects",
  [] (Case &c) {
    Prof p;
    p.nodes = scale (c, 2, 14);
    p.depth = 3;
    p.links = 5;
    p.desc = 60;
    p.regions = 60;
    p.trans = 30;
    p.focus = 30;
    p.wRefer = 2;
    p.wSwitch = 2;
    Lock l (c);
    if (!l.load (doc::gen (c, p)))
      return;
    string err;
    std::unique_ptr<ginga::Document> real (ginga::Parser::parseFile (l.path, 800, 600, &err));
    c.check (real != nullptr, "refused", "a valid document was refused: " + err);
    lock::bind (c, l.m, real.get (), true);
    size_t n = 0;
    for (auto o : l.m.objs)
      n += o->links.size ();
    c.nontrivial = n >= 1 && l.m.objs.size () >= 4;
  }, 12000, 400000 });
