#include "lock.h"
#include "Player.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace lock {
using ginga::Context;
using ginga::Media;
using ginga::MediaSettings;
using ginga::Object;
using ginga::Switch;

// Canonical forms ---------------------------------------------------------------

static string
canonN (Predicate::Type t, vector<string> kids)
{
  // kids are canonical already.
  if (t == Predicate::NEGATION)
    return kids.empty () ? "not()" : "not(" + kids[0] + ")";
  string tag = t == Predicate::CONJUNCTION ? "and(" : "or(", unit = t == Predicate::CONJUNCTION ? "true" : "false";
  vector<string> v;
  for (auto &k : kids)
    if (k != unit)
      v.push_back (k);
  if (v.empty ())
    return unit;
  if (v.size () == 1)
    return v[0];
  std::sort (v.begin (), v.end ());
  v.erase (std::unique (v.begin (), v.end ()), v.end ());
  if (v.size () == 1)
    return v[0];
  string s = tag;
  for (auto &k : v)
    s += k + ";";
  return s + ")";
}
static void
flat (const Pred &p, Predicate::Type t, vector<string> &out)
{
  for (auto &k : p.kids)
    if (k->type == t)
      flat (*k, t, out);
    else
      out.push_back (canon (*k));
}
static void
flat (Predicate *p, Predicate::Type t, vector<string> &out)
{
  for (auto k : *p->getChildren ())
    if (k->getType () == t)
      flat (k, t, out);
    else
      out.push_back (canon (k));
}
string
canon (const Pred &p)
{
  switch (p.type)
    {
    case Predicate::FALSUM: return "false";
    case Predicate::VERUM: return "true";
    case Predicate::ATOM: return p.str ();
    case Predicate::NEGATION:
      return canonN (p.type, p.kids.empty () ? vector<string>{} : vector<string>{ canon (*p.kids[0]) });
    default:
      {
        vector<string> v;
        flat (p, p.type, v);
        return canonN (p.type, v);
      }
    }
}
string
canon (Predicate *p)
{
  switch (p->getType ())
    {
    case Predicate::FALSUM: return "false";
    case Predicate::VERUM: return "true";
    case Predicate::ATOM:
      {
        Pred q;
        q.type = Predicate::ATOM;
        p->getTest (&q.left, &q.test, &q.right);
        return q.str ();
      }
    case Predicate::NEGATION:
      return canonN (Predicate::NEGATION, p->getChildren ()->empty () ? vector<string>{}
                                                                       : vector<string>{ canon (p->getChildren ()->front ()) });
    default:
      {
        vector<string> v;
        flat (p, p->getType (), v);
        return canonN (p->getType (), v);
      }
    }
}

// Binding -----------------------------------------------------------------------

static Kind
kindOf (Object *o)
{
  if (dynamic_cast<MediaSettings *> (o))
    return SETTINGS;
  if (dynamic_cast<Media *> (o))
    return MEDIA;
  if (dynamic_cast<Switch *> (o))
    return SWITCH;
  return CTX;
}
static string
actStr (const string &ev, Event::Transition tr, const string &value, const string &dur, const string &delay, const string &pred, bool attr)
{
  return string (trName (tr)) + " " + ev + (attr ? " value='" + value + "'" : "") + " dur='" + dur + "' delay='" + delay + "' if " + pred;
}
static string
actStr (const Act &a)
{
  return actStr (a.ev->full (), a.tr, a.value, a.duration, a.delay, a.pred ? canon (*a.pred) : "true", a.ev->type == Event::ATTRIBUTION);
}
static string
fullId (Event *e)
{
  Ev x;
  Obj o;
  o.id = e->getObject ()->getId ();
  x.obj = &o;
  x.type = e->getType ();
  x.id = e->getId ();
  return x.full ();
}
static string
actStr (const ginga::Action &a)
{
  return actStr (fullId (a.event), a.transition, a.value, a.duration, a.delay, a.predicate ? canon (a.predicate) : "true",
                 a.event->getType () == Event::ATTRIBUTION);
}

void
bind (pbt::Case &c, mdl::Model &m, ginga::Document *real, bool full, bool zorderToo)
{
  auto objs = real->getObjects ();
  vector<Obj *> order;
  for (auto o : *objs)
    {
      Obj *mo = m.byId (o->getId ());
      c.check (mo != nullptr, "parse-object", "object '" + o->getId () + "' is not in the document");
      c.check (!mo->real, "parse-object", "object '" + o->getId () + "' appears twice");
      c.check (mo->kind == kindOf (o), "parse-object", "object '" + o->getId () + "' has the wrong kind");
      mo->real = o;
      order.push_back (mo);
    }
  for (auto mo : m.objs)
    c.check (mo->real != nullptr, "parse-object", "object '" + mo->id + "' of the document is missing");
  m.objs = order;
  for (auto mo : m.objs)
    {
      Object *o = mo->real;
      c.check (real->getObjectById (mo->id) == o, "parse-object", "lookup of object '" + mo->id + "' by id");
      c.check (o->getDocument () == real, "parse-object", "document of object '" + mo->id + "'");
      c.check ((Object *) o->getParent () == (mo->parent ? mo->parent->real : nullptr), "parse-parent", "parent of '" + mo->id + "'");
      if (auto comp = dynamic_cast<ginga::Composition *> (o))
        {
          vector<Obj *> kids;
          for (auto k : *comp->getChildren ())
            {
              Obj *x = nullptr;
              for (auto mk : mo->kids)
                if (mk->real == k)
                  x = mk;
              c.check (x != nullptr, "parse-children", "'" + k->getId () + "' should not be a child of '" + mo->id + "'");
              kids.push_back (x);
            }
          c.eq (kids.size (), mo->kids.size (), "parse-children", "number of children of '" + mo->id + "'");
          mo->kids = kids;
        }
      vector<Ev *> evs;
      for (auto e : *o->getEvents ())
        {
          Ev *me = mo->find (e->getType (), e->getId ());
          c.check (me != nullptr, "parse-event", "event '" + fullId (e) + "' is not in the document");
          c.check (!me->real, "parse-event", "event '" + fullId (e) + "' appears twice");
          me->real = e;
          evs.push_back (me);
        }
      for (auto me : mo->evs)
        c.check (me->real != nullptr, "parse-event", "event '" + me->full () + "' of the document is missing");
      mo->evs = evs;
      c.check (mo->lambda->real == o->getLambda () && mo->lambda->real->isLambda (), "parse-event", "lambda event of '" + mo->id + "'");
    }
  if (!full)
    return;
  map<string, int> zorder; // "#k" -> value
  for (auto mo : m.objs)
    {
      Object *o = mo->real;
      for (auto e : mo->evs)
        {
          c.check (e->real->getObject () == o, "parse-event", "object of event " + e->full ());
          c.check (e->real->getState () == Event::SLEEPING, "parse-event", "event " + e->full () + " is not asleep after parsing");
          if (e->type == Event::PRESENTATION && mo->isMedia () && e != mo->lambda)
            {
              c.eq (e->real->getLabel (), e->label, "parse-area", "label of " + e->full ());
              if (e->label == "")
                {
                  T b, t;
                  e->real->getInterval (&b, &t);
                  c.eq (b, e->begin, "parse-area", "begin of " + e->full ());
                  c.eq (t, e->end, "parse-area", "end of " + e->full ());
                }
            }
          if (e->type == Event::SELECTION)
            {
              string k;
              e->real->getParameter ("key", &k);
              c.eq (k, e->key, "parse-key", "key of " + e->full ());
            }
        }
      std::set<string> names;
      for (auto &p : mo->props)
        names.insert (p.first);
      for (auto e : mo->evs)
        if (e->type == Event::ATTRIBUTION)
          names.insert (e->id);
      for (auto n : { "uri", "type", "a", "b", "n", "t", "left", "explicitDur", "zIndex" })
        names.insert (n);
      for (auto &n : names)
        {
          string want = mo->prop (n), got = o->getProperty (n);
          if (want != "" && want[0] == '#')
            {
              zorder[want] = atoi (got.c_str ());
              continue;
            }
          c.eq (got, want, "parse-property", "property '" + n + "' of '" + mo->id + "'");
        }
      vector<string> al, mal;
      for (auto &a : *o->getAliases ())
        al.push_back (a.first + "@" + (a.second ? a.second->getId () : "-"));
      for (auto &a : mo->aliases)
        mal.push_back (a.first + "@" + (a.second ? a.second->id : "-"));
      std::sort (al.begin (), al.end ());
      std::sort (mal.begin (), mal.end ());
      c.check (al == mal, "parse-alias", "aliases of '" + mo->id + "'");
      for (auto &a : mo->aliases)
        c.check (real->getObjectByIdOrAlias (a.first) == o, "parse-alias", "lookup of alias '" + a.first + "'");
      if (auto ctx = dynamic_cast<Context *> (o))
        {
          vector<string> a, b;
          for (auto e : *ctx->getPorts ())
            a.push_back (fullId (e));
          for (auto e : mo->ports)
            b.push_back (e->full ());
          string sa, sb;
          for (auto &x : a)
            sa += x + " ";
          for (auto &x : b)
            sb += x + " ";
          c.eq (sa, sb, "parse-port", "ports of '" + mo->id + "'");
          c.eq (ctx->getLinks ()->size (), mo->links.size (), "parse-link", "number of links of '" + mo->id + "'");
          size_t i = 0;
          for (auto &l : *ctx->getLinks ())
            {
              auto &ml = mo->links[i++];
              for (int k = 0; k < 2; k++)
                {
                  auto &ra = k ? l.second : l.first;
                  auto &ma = k ? ml.acts : ml.conds;
                  string x, y;
                  for (auto &q : ra)
                    x += actStr (q) + "\n";
                  for (auto &q : ma)
                    y += actStr (q) + "\n";
                  c.eq (x, y, k ? "parse-link-action" : "parse-link-condition", "link " + std::to_string (i) + " of '" + mo->id + "'");
                }
            }
        }
      if (auto sw = dynamic_cast<Switch *> (o))
        {
          string x, y;
          for (auto &r : *sw->getRules ())
            x += r.first->getId () + " if " + canon (r.second) + "\n";
          for (auto &r : mo->rules)
            y += r.first->id + " if " + canon (*r.second) + "\n";
          c.eq (x, y, "parse-rule", "rules of '" + mo->id + "'");
          x = y = "";
          for (auto &p : *sw->getSwitchPorts ())
            {
              x += p.first + ":";
              for (auto e : p.second)
                x += fullId (e) + " ";
            }
          for (auto &p : mo->sports)
            {
              y += p.first + ":";
              for (auto e : p.second)
                y += e->full () + " ";
            }
          c.eq (x, y, "parse-switchport", "switch ports of '" + mo->id + "'");
        }
    }
  // Regions are stacked in document order.
  if (zorderToo)
    for (auto &a : zorder)
    for (auto &b : zorder)
      if (atoi (a.first.c_str () + 1) < atoi (b.first.c_str () + 1))
        c.check (a.second < b.second, "parse-zorder", "z-order of regions " + a.first + " and " + b.first);
}

// Lock step ---------------------------------------------------------------------

void
discardedCase (pbt::Case &c)
{
  c.cls ("discarded-divergent");
}
Lock::~Lock ()
{
  delete f;
}
bool
Lock::load (const doc::Doc &dd)
{
  d = dd;
  string why;
  doc::writeFiles (d, c.tmpdir);
  string xml = doc::toXml (doc::toNode (d, &c.src));
  path = c.tmpdir + "/doc.ncl";
  std::ofstream (path) << xml;
  c.desc << xml;
  if (!doc::compile (d, c.tmpdir, &m, &why))
    {
      c.cls ("unresolvable:" + why.substr (0, why.find (' ')));
      return false;
    }
  if (tweak)
    tweak (m);
  return true;
}
// Called with every document parsed, if set.
static std::function<void (ginga::Document *)> onParsed;
extern "C" ginga::Document *__real__ZN5ginga6Parser9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiiPS6_ (const string &, int, int, string *);
extern "C" ginga::Document *__wrap__ZN5ginga6Parser9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiiPS6_ (const string &, int, int, string *);
extern "C" ginga::Document *
__wrap__ZN5ginga6Parser9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiiPS6_ (const string &file, int w, int h, string *err)
{
  ginga::Document *d = __real__ZN5ginga6Parser9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiiPS6_ (file, w, h, err);
  if (d && onParsed)
    {
      try
        {
          onParsed (d);
        }
      catch (...)
        {
          delete d;
          throw;
        }
    }
  return d;
}
extern "C" ginga::Document *__real__ZN5ginga9ParserLua9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPS6_ (const string &, string *);
extern "C" ginga::Document *__wrap__ZN5ginga9ParserLua9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPS6_ (const string &, string *);
extern "C" ginga::Document *
__wrap__ZN5ginga9ParserLua9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPS6_ (const string &file, string *err)
{
  ginga::Document *d = __real__ZN5ginga9ParserLua9parseFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPS6_ (file, err);
  if (d && onParsed)
    {
      try
        {
          onParsed (d);
        }
      catch (...)
        {
          delete d;
          throw;
        }
    }
  return d;
}
long transitionBound = -1;
extern "C" bool __real__ZN5ginga5Event10transitionENS0_10TransitionE (ginga::Event *, ginga::Event::Transition);
extern "C" bool
__wrap__ZN5ginga5Event10transitionENS0_10TransitionE (ginga::Event *e, ginga::Event::Transition t)
{
  if (transitionBound >= 0 && transitionBound-- == 0)
    throw Overrun ();
  return __real__ZN5ginga5Event10transitionENS0_10TransitionE (e, t);
}
bool
Lock::begin ()
{
  fakes_reset ();
  webRemote ();
  nclua_log_cycles = true;
  m.focus = m.settings->prop ("service.currentFocus");
  total = 0;
  frame = 0;
  real = nullptr;
  if (!f)
    f = new ginga::Formatter (nullptr);
  string err;
  bool ok = false, starts = false;
  // The model is bound to the document, and started, before the document is,
  // so that one whose links loop for ever is known to.
  onParsed = [&] (ginga::Document *doc) {
    real = doc;
    bind (c, m, real, false);
    for (auto o : m.objs)
      {
        objOf[o->real] = o;
        for (auto e : o->evs)
          evOf[e->real] = e;
      }
    m.budget = budget;
    m.log.clear ();
    m.rlog.clear ();
    starts = m.start ();
  };
  try
    {
      ok = f->start (path, &err);
      onParsed = nullptr;
    }
  catch (Diverged &)
    {
      onParsed = nullptr;
      discarded = true;
      discardedCase (c);
      return false;
    }
  catch (...)
    {
      onParsed = nullptr;
      throw;
    }
  if (!real)
    c.fail ("start-refused", "a valid document was refused: " + err);
  if (ok != starts)
    c.fail ("start", starts ? "the document does not start" : "the document starts, expected not to");
  if (!ok)
    return false;
  compare ("start");
  return true;
}
bool
Lock::again ()
{
  if (discarded)
    return false;
  if (playing () && !stop ())
    return false;
  map<string, long> stat = m.stat;
  m = mdl::Model ();
  objOf.clear ();
  evOf.clear ();
  string why;
  c.check (doc::compile (d, c.tmpdir, &m, &why), "harness", "the document does not compile again");
  if (tweak)
    tweak (m);
  m.stat = stat;
  m.stat["restart"]++;
  c.desc << "\n" << ++step << ". start again";
  return begin ();
}
static const char *ST[] = { "occurring", "paused", "sleeping" };
void
Lock::compare (const string &after)
{
  string at = " after " + after;
  bool rp = f->getState () == GINGA_STATE_PLAYING;
  c.check (rp == m.playing, "formatter-state", string ("the presentation is ") + (rp ? "still playing" : "stopped") + at);
  if (m.playing)
    {
      for (auto o : m.objs)
        {
          for (auto e : o->evs)
            if (e->real->getState () != e->st)
              c.fail ("state", "event " + e->full () + " is " + ST[e->real->getState ()] + at + ", expected " + ST[e->st]);
          for (auto &p : o->props)
            {
              if (p.second != "" && p.second[0] == '#')
                continue;
              string got = o->real->getProperty (p.first);
              if (got != p.second)
                c.fail ("property", o->id + "." + p.first + " is '" + got + "'" + at + ", expected '" + p.second + "'");
            }
          if (o->st_time () != o->real->getTime ())
            c.fail ("time", "time of " + o->id + " is " + std::to_string (o->real->getTime ()) + at + ", expected " + std::to_string (o->time));
        }
      string fo = m.settings->real->getProperty ("service.currentFocus");
      if (fo != m.focus)
        c.fail ("focus", "current focus is '" + fo + "'" + at + ", expected '" + m.focus + "'");
      for (auto o : m.objs)
        if (o->kind == MEDIA)
          {
            bool want = o->occ () && o->pl.exists && o->pl.focus != "" && o->pl.focus == m.focus;
            if (((Media *) o->real)->isFocused () != want)
              c.fail ("focus", "media " + o->id + (want ? " should be" : " should not be") + " focused" + at);
          }
      invariants (after);
    }
  vector<string> got;
  for (auto x : nclua_log)
    {
      if (x.kind == "open" || x.kind == "cycle")
        {
          c.check (x.cwd == x.path.substr (0, x.path.find_last_of ('/')), "script-cwd",
                   "script " + x.path + " runs in directory '" + x.cwd + "'" + at);
        }
      if (x.kind == "close")
        posted.erase (x.path);
      got.push_back (x.str ());
    }
  nclua_log.clear ();
  vector<string> rgot = webRemote ();
  if (!m.playing || (m.rlog.size () && m.rlog[0].compare (0, 4, "reg ") == 0))
    {
      std::sort (rgot.begin (), rgot.end ());
      std::sort (m.rlog.begin (), m.rlog.end ());
    }
  if (rgot != m.rlog)
    {
      string a, b;
      for (auto &s : rgot)
        a += s + "; ";
      for (auto &s : m.rlog)
        b += s + "; ";
      c.fail ("remote-log", "other devices were told [" + a + "]" + at + ", expected [" + b + "]");
    }
  m.rlog.clear ();
  if (!m.playing)
    {
      // Scripts are closed in no particular order when the document ends.
      std::sort (got.begin (), got.end ());
      std::sort (m.log.begin (), m.log.end ());
    }
  for (size_t i = 0; i < got.size () && i < m.log.size (); i++)
    if (m.log[i].find ("open(") != string::npos && m.log[i].find ('?') != string::npos
        && got[i].compare (0, got[i].find ('('), m.log[i], 0, m.log[i].find ('(')) == 0)
      got[i] = m.log[i];
  // A time in seconds may be written in several ways.
  for (auto &s : got)
    for (const char *k : { ":attribution(start,time,", ":attribution(stop,time," })
      {
        size_t i = s.find (k);
        if (i == string::npos)
          continue;
        i += strlen (k);
        char *e, b[40];
        double t = strtod (s.c_str () + i, &e);
        if (e == s.c_str () + i || (strcmp (e, ")") && strcmp (e, "s)")))
          continue;
        snprintf (b, sizeof b, "%.9f)", t);
        s.replace (i, string::npos, b);
      }
  if (got != m.log)
    {
      string a, b;
      for (auto &s : got)
        a += s + " ";
      for (auto &s : m.log)
        b += s + " ";
      c.fail ("script-log", "scripts saw [" + a + "]" + at + ", expected [" + b + "]");
    }
  m.log.clear ();
}
void
Lock::invariants (const string &after)
{
  string at = " after " + after;
  for (auto o : m.objs)
    {
      Object *r = o->real;
      if (o->kind == CTX && r->isSleeping ())
        for (auto k : o->kids)
          c.check (k->real->isSleeping (), "inv-containment", k->id + " is awake inside sleeping context " + o->id + at);
      if (o->isMedia () && r->isSleeping ())
        for (auto e : o->evs)
          if (e->type == Event::PRESENTATION)
            c.check (e->real->getState () == Event::SLEEPING, "inv-anchor", e->full () + " is awake in sleeping media" + at);
    }
}
bool
Lock::guarded (const std::function<void ()> &model, const std::function<void ()> &impl, const string &what)
{
  if (discarded)
    return false;
  c.desc << "\n" << ++step << ". " << what;
  m.budget = budget;
  m.depth = 0;
  try
    {
      model ();
    }
  catch (Diverged &)
    {
      discarded = true;
      discardedCase (c);
      return false;
    }
  string dir = moveDirs ? changeDir () : "";
  impl ();
  if (moveDirs)
    {
      char *p = getcwd (nullptr, 0);
      string now = p ? p : "";
      free (p);
      c.eq (now, dir, "cwd", "current directory after step " + std::to_string (step) + " (" + what + ")");
    }
  compare ("step " + std::to_string (step) + " (" + what + ")");
  return true;
}
// The directory the calling program is in, now and then another one.
string
Lock::changeDir ()
{
  if (c.src.chance (1, 4))
    {
      string d = c.tmpdir + "/wd" + std::to_string (c.src.draw (3));
      mkdir (d.c_str (), 0777);
      c.check (chdir (d.c_str ()) == 0, "harness", "chdir");
      c.desc << "  [in " << d.substr (d.find_last_of ('/') + 1) << "]";
    }
  char *p = getcwd (nullptr, 0);
  string s = p ? p : "";
  free (p);
  return s;
}
bool
Lock::tick (T diff)
{
  char b[60];
  snprintf (b, sizeof b, "tick %gs", diff / 1e9);
  total += diff;
  return guarded ([&] { m.tick (diff); },
                  [&] {
                    bool want = m.playing;
                    bool got = f->sendTick (total, diff, (uint64_t) frame++);
                    c.eq (got, want, "tick-result", "sendTick");
                  },
                  b);
}
bool
Lock::key (const string &k, bool press)
{
  return guarded ([&] { m.key (k, press); },
                  [&] {
                    bool want = m.playing;
                    bool got = f->sendKey (k, press);
                    c.eq (got, want, "key-result", "sendKey");
                  },
                  "key " + k + (press ? " press" : " release"));
}
bool
Lock::act (Ev *e, Event::Transition t, const string &value)
{
  int want = 0;
  return guarded ([&] { want = m.eval (e, t, value); },
                  [&] {
                    int got = real->evalAction (e->real, t, value);
                    c.eq (got, want, "action-count", "number of actions carried out by evalAction");
                  },
                  string (trName (t)) + " " + e->full () + (value != "" ? " := '" + value + "'" : ""));
}
bool
Lock::stop ()
{
  return guarded ([&] { m.stop (); },
                  [&] {
                    c.check (f->stop (), "stop-result", "stop() of a playing presentation returns false");
                    real = nullptr;
                  },
                  "formatter stop");
}
static string typed (pbt::Case &, const string &);
static bool
scriptOpen (mdl::Model &m, Obj *o)
{
  return o->kind == MEDIA && !o->sleeping () && o->pl.exists && m.mime (o) == "application/x-ginga-NCLua";
}
static string
scriptPath (Obj *o)
{
  string u = o->prop ("uri");
  return u.compare (0, 7, "file://") == 0 ? u.substr (7) : u;
}
bool
Lock::post ()
{
  vector<Obj *> v;
  for (auto o : m.objs)
    if (scriptOpen (m, o))
      v.push_back (o);
  if (v.empty ())
    return tick (SEC / 2);
  std::sort (v.begin (), v.end (), [] (Obj *a, Obj *b) { return a->id < b->id; });
  Obj *o = c.src.pick (v);
  string path = scriptPath (o);
  c.check (nclua_is_open (path), "script-closed", "the script of " + o->id + ", which is not sleeping, is not open");
  int n = 1 + (int) c.src.draw (3);
  for (int i = 0; i < n; i++)
    {
      Post p;
      p.key = c.src.chance (1, 12);
      size_t k = c.src.weighted ({ 6, 6, 1 });
      p.type = k == 0 ? "presentation" : k == 1 ? "attribution" : "selection";
      p.action = c.src.pick (vector<string>{ "start", "stop", "start", "stop", "pause", "resume", "abort", "foo" });
      if (k != 1)
        {
          vector<string> names = { "" };
          for (auto e : o->evs)
            if (e->type == Event::PRESENTATION && e != o->lambda)
              {
                if (e->label != "")
                  {
                    names.push_back (e->label);
                    names.push_back (e->label);
                  }
                else
                  names.push_back (e->id);
              }
          std::sort (names.begin (), names.end ());
          p.name = c.src.chance (1, 12) ? "zz" : c.src.pick (names);
        }
      else
        {
          vector<string> names;
          for (auto e : o->evs)
            if (e->type == Event::ATTRIBUTION && e->id.compare (0, 5, "trans") != 0 && e->id != "uri" && e->id != "type")
              names.push_back (e->id);
          std::sort (names.begin (), names.end ());
          p.name = names.empty () || c.src.chance (1, 12) ? "zz" : c.src.pick (names);
          p.value = typed (c, p.name);
        }
      posted[path].push_back (p);
      c.desc << "\n" << "   script of " << o->id << " posts " << (p.key ? "key event " : "") << p.type << " " << p.action << " '" << p.name << "' '" << p.value << "'";
      if (p.key)
        nclua_post_key (path, "press", p.action);
      else
        nclua_post (path, p.type, p.action, p.name, p.value);
    }
  return c.src.chance (1, 4) || redraw ();
}
bool
Lock::redraw ()
{
  static const map<string, Event::Transition> TR = { { "start", Event::START }, { "stop", Event::STOP }, { "pause", Event::PAUSE },
                                                     { "resume", Event::RESUME }, { "abort", Event::ABORT } };
  string cycles;
  return guarded ([&] {
    vector<string> cy;
    for (auto o : m.objs)
      if (scriptOpen (m, o))
        {
          string path = scriptPath (o);
          cy.push_back (path);
          for (auto &p : posted[path])
            {
              if (p.key || !TR.count (p.action))
                continue;
              Ev *e = nullptr;
              if (p.type == "attribution")
                e = o->find (Event::ATTRIBUTION, p.name);
              else if (p.type == "presentation")
                {
                  if (p.name == "")
                    e = o->lambda;
                  else
                    for (auto x : o->evs)
                      if (x->type == Event::PRESENTATION && x->label == p.name)
                        e = x;
                }
              if (!e)
                continue;
              m.stat["post"]++;
              m.stat["post-" + p.type]++;
              m.postDelayed (o, e, TR.at (p.action), p.value);
            }
          posted.erase (path);
        }
    std::sort (cy.begin (), cy.end ());
    for (auto &s : cy)
      cycles += s + " ";
  }, [&] {
    static cairo_surface_t *sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 800, 600);
    cairo_t *cr = cairo_create (sfc);
    f->redraw (cr);
    bool bad = cairo_status (cr) != CAIRO_STATUS_SUCCESS;
    cairo_destroy (cr);
    c.check (!bad, "cairo", "drawing leaves the canvas in error");
    vector<NcluaCall> rest;
    vector<string> cy;
    string got;
    for (auto &x : nclua_log)
      if (x.kind == "cycle")
        {
          cy.push_back (x.path);
          c.check (x.cwd == x.path.substr (0, x.path.find_last_of ('/')), "script-cwd",
                   "script " + x.path + " runs in directory '" + x.cwd + "'");
        }
      else
        rest.push_back (x);
    nclua_log = rest;
    std::sort (cy.begin (), cy.end ());
    for (auto &s : cy)
      got += s + " ";
    c.eq (got, cycles, "script-cycles", "scripts run by a redraw");
  }, "redraw");
}
static string
typed (pbt::Case &c, const string &p)
{
  if (p == "t" || p == "explicitDur" || p == "duration")
    return c.src.pick (doc::TIMES);
  if (p == "visible" || p == "freeze")
    return c.src.chance (1, 2) ? "true" : "false";
  if (p == "left" || p == "top" || p == "transparency" || p == "width" || p == "height")
    return c.src.pick (vector<string>{ "0", "10", "25%" });
  if (p == "n" || p == "zIndex" || p == "focusIndex" || p == "service.currentFocus" || p.compare (0, 4, "move") == 0)
    return c.src.pick (vector<string>{ "1", "2", "3" });
  return c.src.pick (vector<string>{ "1", "2", "x", "10" });
}
bool
Lock::op (const Ops &o)
{
  static const vector<string> keys = { "RED", "ENTER", "GREEN", "1", "CURSOR_UP", "CURSOR_DOWN", "CURSOR_LEFT", "CURSOR_RIGHT", "BLUE" };
  if (o.aimFocus && c.src.chance (o.aimFocus, 100))
    for (auto x : m.objs)
      if (x->kind == MEDIA && x->occ () && x->pl.exists && x->pl.focus != "" && x->pl.focus == m.focus)
        {
          vector<string> v;
          for (const char *k : { "UP", "DOWN", "LEFT", "RIGHT" })
            {
              string n = string ("move") + k[0] + (k + 1);
              for (size_t i = 5; i < n.size (); i++)
                n[i] = (char) tolower (n[i]);
              if (x->pl.props[n] != "")
                v.push_back (k);
            }
          if (v.size ())
            return key ("CURSOR_" + c.src.pick (v), true);
        }
  if (o.aim && c.src.chance (o.aim, 100))
    {
      // Make a condition of a link in an occurring context happen.
      vector<Act> v;
      for (auto x : m.objs)
        if (x->kind == CTX && x->occ ())
          for (auto &l : x->links)
            for (auto &cond : l.conds)
              {
                Ev *e = cond.ev;
                bool can = cond.tr == Event::START ? e->st != Event::OCCURRING
                           : cond.tr == Event::PAUSE ? e->st == Event::OCCURRING
                           : cond.tr == Event::RESUME ? e->st == Event::PAUSED : e->st != Event::SLEEPING;
                if (!can || e->obj == m.root || (e->obj == m.settings && e->type == Event::PRESENTATION)
                    || (e->type == Event::SELECTION && e->obj->sleeping ()))
                  continue;
                if (e->type == Event::ATTRIBUTION && (e->id.compare (0, 5, "trans") == 0 || e->id == "uri" || e->id == "type"))
                  continue;
                v.push_back (cond);
              }
      if (v.size ())
        {
          m.stat["aimed"]++;
          std::stable_sort (v.begin (), v.end (), [] (const Act &a, const Act &b) {
            string x = a.ev->full (), y = b.ev->full ();
            return x != y ? x < y : a.tr < b.tr;
          });
          const Act &a = c.src.pick (v);
          if (a.ev->type == Event::SELECTION && (a.tr == Event::START || a.tr == Event::STOP) && a.ev->key != "" && a.ev->key[0] != '$')
            return key (a.ev->key, a.tr == Event::START);
          return act (a.ev, a.tr, a.ev->type == Event::ATTRIBUTION && a.tr == Event::START ? typed (c, a.ev->id) : "");
        }
    }
  if (o.freeze && c.src.chance (o.freeze, 100))
    {
      // Pause something, let time pass, and let it go on.
      vector<Ev *> v, pending;
      for (auto x : m.objs)
        if (x != m.settings && x->lambda->st == Event::OCCURRING && (x != m.root || c.src.chance (1, 4)))
          {
            v.push_back (x->lambda);
            if (x->delayed.size ())
              pending.push_back (x->lambda);
          }
      if (pending.size () && c.src.chance (1, 2))
        v = pending;
      if (v.size ())
        {
          std::sort (v.begin (), v.end (), [] (Ev *a, Ev *b) { return a->full () < b->full (); });
          Ev *e = c.src.pick (v);
          static const vector<T> D = { SEC / 2, SEC / 4, SEC, 3 * SEC };
          if (!act (e, Event::PAUSE, ""))
            return false;
          for (int i = (int) c.src.draw (3); i > 0 && playing (); i--)
            if (!tick (c.src.pick (D)))
              return false;
          if (playing () && !act (e, c.src.pick (vector<Event::Transition>{ Event::RESUME, Event::RESUME, Event::START, Event::STOP }), ""))
            return false;
          return !playing () || c.src.chance (1, 2) || tick (c.src.pick (D));
        }
    }
  switch (c.src.weighted ({ o.wTick, o.wKey, o.wAct, o.wStop, o.wPost, o.wRedraw }))
    {
    case 4:
      return post ();
    case 5:
      return redraw ();
    case 0:
      {
        static const vector<T> D = { SEC / 2, SEC / 4, SEC, 2 * SEC, SEC / 8, 3 * SEC / 4, SEC / 40, 6 * SEC };
        if (c.src.chance (o.zeroTick, 100))
          return tick (0);
        return tick (c.src.pick (D));
      }
    case 1:
      {
        const string &k = c.src.pick (keys);
        if (c.src.chance (2, 5))
          return key (k, c.src.chance (1, 2));
        return key (k, true) && (!playing () || key (k, false));
      }
    case 2:
      {
        vector<Ev *> pres, attr, other;
        for (auto x : m.objs)
          for (auto e : x->evs)
            {
              if (e->type == Event::PRESENTATION)
                {
                  if (x == m.settings)
                    continue;
                  pres.push_back (e);
                }
              else if (e->type == Event::ATTRIBUTION)
                {
                  if (e->id.compare (0, 5, "trans") != 0 && e->id != "uri" && e->id != "type")
                    attr.push_back (e);
                }
              else if (x->isMedia ())
                other.push_back (e);
            }
        std::sort (pres.begin (), pres.end (), [] (Ev *a, Ev *b) { return a->full () < b->full (); });
        std::sort (attr.begin (), attr.end (), [] (Ev *a, Ev *b) { return a->full () < b->full (); });
        std::sort (other.begin (), other.end (), [] (Ev *a, Ev *b) { return a->full () < b->full (); });
        size_t w = c.src.weighted ({ o.actPres, attr.empty () ? 0 : o.actAttr, other.empty () ? 0 : o.actOther });
        auto &v = w == 0 ? pres : w == 1 ? attr : other;
        if (v.empty ())
          return tick (SEC / 2);
        Ev *e = c.src.pick (v);
        if (e->obj == m.root && w == 0 && !c.src.chance (o.rootAct, 100))
          e = c.src.pick (v);
        if (w == 0 && c.src.chance (1, 4)) // one that is paused
          {
            vector<Ev *> p;
            for (auto x : pres)
              if (x->st == Event::PAUSED && x->obj != m.root)
                p.push_back (x);
            if (p.size ())
              return act (c.src.pick (p), c.src.pick (vector<Event::Transition>{ Event::RESUME, Event::RESUME, Event::RESUME, Event::START, Event::STOP, Event::ABORT, Event::PAUSE }), "");
          }
        static const vector<Event::Transition> TR = { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT };
        if (w != 1 && c.src.chance (o.smart, 100))
          {
            // One that the state of the event allows.
            static const vector<vector<Event::Transition> > OK = { { Event::STOP, Event::PAUSE, Event::ABORT, Event::PAUSE },
              { Event::RESUME, Event::START, Event::STOP, Event::RESUME, Event::ABORT }, { Event::START } };
            return act (e, c.src.pick (OK[e->st]), "");
          }
        Event::Transition t = TR[w == 1 ? c.src.weighted ({ 8, 1, 1, 1, 1 }) : c.src.weighted ({ 4, 3, 3, 3, 1 })];
        string val = w == 1 && t == Event::START ? typed (c, e->id) : "";
        return act (e, t, val);
      }
    default:
      return stop ();
    }
}
void
Lock::run (const Ops &o)
{
  for (unsigned k = 0; k < o.sessions; k++)
    {
      if (k && !again ())
        return;
      int n = 2 + (int) c.src.draw ((uint64_t) o.n);
      for (int i = 0; i < n && playing (); i++)
        if (!op (o))
          return;
    }
  if (playing () && !stop ())
    return;
  c.check (discarded || nclua_open_count == 0, "script-open", "a script stays open after the presentation");
}
}
