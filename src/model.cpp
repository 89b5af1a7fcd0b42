#include "model.h"

namespace mdl {

const char *
trName (Event::Transition t)
{
  switch (t)
    {
    case Event::START: return "start";
    case Event::STOP: return "stop";
    case Event::ABORT: return "abort";
    case Event::PAUSE: return "pause";
    default: return "resume";
    }
}
string
Ev::full () const
{
  switch (type)
    {
    case Event::PRESENTATION: return id == "@lambda" ? obj->id + id : obj->id + "@" + id;
    case Event::ATTRIBUTION: return obj->id + "." + id;
    case Event::SELECTION: return obj->id + "<" + id + ">";
    default: return obj->id + "<look:" + id + ">";
    }
}
string
Pred::str () const
{
  static const char *T[] = { "==", "!=", "<", "<=", ">", ">=" };
  switch (type)
    {
    case Predicate::FALSUM: return "false";
    case Predicate::VERUM: return "true";
    case Predicate::ATOM:
      {
        int i = test == Predicate::EQ ? 0 : test == Predicate::NE ? 1 : test == Predicate::LT ? 2
                : test == Predicate::LE ? 3 : test == Predicate::GT ? 4 : 5;
        return "'" + left + "'" + T[i] + "'" + right + "'";
      }
    default:
      {
        string s = type == Predicate::NEGATION ? "not(" : type == Predicate::CONJUNCTION ? "and(" : "or(";
        for (auto &k : kids)
          s += k->str () + " ";
        return s + ")";
      }
    }
}
Ev *
Obj::find (Event::Type t, const string &i) const
{
  for (auto e : evs)
    if (e->type == t && e->id == i)
      return e;
  return nullptr;
}
Obj *
Model::newObj (Kind k, const string &id)
{
  own.emplace_back (new Obj);
  Obj *o = own.back ().get ();
  o->kind = k;
  o->id = id;
  ownev.emplace_back (new Ev);
  o->lambda = ownev.back ().get ();
  o->lambda->obj = o;
  o->lambda->id = "@lambda";
  o->evs.push_back (o->lambda);
  objs.push_back (o);
  return o;
}
Obj *
Model::byId (const string &id) const
{
  for (auto o : objs)
    if (o->id == id)
      return o;
  return nullptr;
}
Obj *
Model::byIdOrAlias (const string &id) const
{
  if (Obj *o = byId (id))
    return o;
  for (auto o : objs)
    for (auto &a : o->aliases)
      if (a.first == id)
        return o;
  return nullptr;
}

// Values -------------------------------------------------------------------

T
Model::ptime (const string &s)
{
  string x = s;
  int h, mi;
  double sec;
  if (sscanf (s.c_str (), "%d:%d:%lf", &h, &mi, &sec) == 3)
    return (T) ((h * 3600. + mi * 60. + sec) * (double) SEC);
  if (x.size () && x.back () == 's')
    x.pop_back ();
  return (T) (atof (x.c_str ()) * (double) SEC);
}
bool
Model::ref (const string &r, string *out)
{
  size_t i;
  if (r.empty () || r[0] != '$' || (i = r.find ('.')) == string::npos)
    return false;
  Obj *o = byIdOrAlias (r.substr (1, i - 1));
  if (!o)
    return false;
  string v = o->prop (r.substr (i + 1));
  *out = v;
  return true;
}
bool
Model::pred (const Pred &p)
{
  switch (p.type)
    {
    case Predicate::FALSUM: return false;
    case Predicate::VERUM: return true;
    case Predicate::NEGATION: return !pred (*p.kids[0]);
    case Predicate::CONJUNCTION:
      for (auto &k : p.kids)
        if (!pred (*k))
          return false;
      return true;
    case Predicate::DISJUNCTION:
      for (auto &k : p.kids)
        if (pred (*k))
          return true;
      return false;
    default: break;
    }
  string l = p.left, r = p.right;
  ref (l, &l);
  ref (r, &r);
  int c = l.compare (r);
  switch (p.test)
    {
    case Predicate::EQ: return c == 0;
    case Predicate::NE: return c != 0;
    case Predicate::LT: return c < 0;
    case Predicate::LE: return c <= 0;
    case Predicate::GT: return c > 0;
    default: return c >= 0;
    }
}

// Players ------------------------------------------------------------------

void
Model::say (Obj *o, const string &kind, const string &a, const string &b, const string &c)
{
  string u = o->prop ("uri");
  log.push_back (u.substr (u.find_last_of ('/') + 1) + ":" + kind + "(" + a + "," + b + "," + c + ")");
}
void
Model::sayRemote (Obj *o, const string &action, const string &label)
{
  if (!o->pl.exists || !o->pl.remote || o->pl.props["remotePlayerBaseURL"] == "")
    return;
  string s = o->pl.props["remotePlayerBaseURL"] + "/scene/nodes/" + (label == "" ? o->id : label) + " " + action;
  if (action == "start" && label == "")
    for (auto n : { "top", "left", "width", "height", "zOrder" })
      s += " " + o->pl.props[n];
  rlog.push_back (s);
}
string
Model::mime (Obj *o)
{
  string t = o->prop ("type"), u = o->prop ("uri");
  if (t == "" && u != "")
    {
      size_t i = u.find_last_of ('.');
      string x = i == string::npos ? "" : u.substr (i + 1);
      t = x == "lua" ? "application/x-ginga-NCLua" : x == "txt" ? "text/plain" : x == "png" ? "image/png" : x == "ncl360" ? "application/x-ncl360" : "";
    }
  return t == "" ? "application/x-ginga-timer" : t;
}
// Size in pixels, "?" if it would take rounding.
static string
pixels (const string &v, int total)
{
  if (v == "")
    return std::to_string (total);
  if (v.find_first_not_of ("0123456789") == string::npos && v.size () < 6)
    return std::to_string (atoi (v.c_str ()));
  if (v.size () > 1 && v.size () < 5 && v.find_first_not_of ("0123456789") == v.size () - 1 && v.back () == '%' && atoi (v.c_str ()) * total % 100 == 0)
    return std::to_string (atoi (v.c_str ()) * total / 100);
  return "?";
}
void
Model::plrSet (Obj *o, const string &name, const string &value)
{
  if (lua (o) && o->pl.state == 1)
    {
      say (o, "attribution", "start", name, value);
      say (o, "attribution", "stop", name, value);
    }
  if (name == "duration" || name == "explicitDur")
    o->pl.dur = value == "" || value == "indefinite" ? NONE : ptime (value);
  if (name == "focusIndex")
    o->pl.focus = value;
  o->pl.props[name] = value;
}
void
Model::setProp (Obj *o, const string &name, const string &value, T dur)
{
  if (o->kind == SETTINGS && name == "service.currentFocus")
    focus = value;
  o->props[name] = value;
  // Whatever cannot be animated changes at once.
  static const set<string> anim = { "left", "top", "width", "height", "bounds", "location", "size", "transparency", "background", "backgroundColor" };
  if (o->isMedia () && o->pl.exists && (dur == 0 || !anim.count (name)))
    plrSet (o, name, value);
}

// Objects ------------------------------------------------------------------

void
Model::delay (Obj *o, Ev *e, Event::Transition t, const string &value, T d, const string &duration)
{
  if (o->sleeping ())
    return;
  Act a;
  a.ev = e;
  a.tr = t;
  a.value = value;
  a.duration = duration;
  o->delayed.push_back ({ a, o->time + d });
}
void
Model::doStart (Obj *o)
{
  if (o->time != NONE)
    return;
  o->time = 0;
  if (o->parent && o->parent->kind == CTX)
    o->parent->awake++;
  if (o->prop ("focusIndex") != "")
    focusPending = true, focusNext = "";
}
void
Model::doStop (Obj *o)
{
  o->time = NONE;
  for (auto e : o->evs)
    e->st = Event::SLEEPING;
  o->delayed.clear ();
  if (!o->due.empty ())
    stat["due-forgotten"]++;
  o->due.clear ();
  if (o->parent && o->parent->kind == CTX)
    o->parent->awake--;
}
void
Model::mediaStop (Obj *o)
{
  if (!o->pl.exists)
    return;
  if (lua (o))
    {
      say (o, "presentation", "stop", "", "");
      say (o, "cycle", "", "", "");
      say (o, "close", "", "", "");
    }
  sayRemote (o, "stop", "");
  o->pl = Plr ();
  doStop (o);
}
void
Model::wakeParent (Obj *o)
{
  if (o->parent && o->parent->kind == CTX && o->parent->sleeping ())
    {
      o->parent->fromport = true;
      stat["wake-parent"]++;
      transition (o->parent->lambda, Event::START);
    }
}
void
Model::selectedStopped (Obj *sw, Obj *o, Event::Transition t)
{
  if (o == sw->selected && o->sleeping ())
    eval (sw->lambda, t);
}

Ev *
Model::addEv (Obj *o, Event::Type t, const string &id)
{
  if (Ev *e = o->find (t, id))
    return e;
  ownev.emplace_back (new Ev);
  Ev *e = ownev.back ().get ();
  e->obj = o;
  e->type = t;
  e->id = id;
  o->evs.push_back (e);
  return e;
}
bool
Model::transition (Ev *e, Event::Transition t)
{
  if (--budget < 0)
    throw Diverged ();
  Event::State cur = e->st, next;
  switch (t)
    {
    case Event::START:
      if (cur == Event::OCCURRING)
        return false;
      next = Event::OCCURRING;
      break;
    case Event::PAUSE:
      if (cur != Event::OCCURRING)
        return false;
      next = Event::PAUSED;
      break;
    case Event::RESUME:
      if (cur != Event::PAUSED)
        return false;
      next = Event::OCCURRING;
      break;
    default:
      if (cur == Event::SLEEPING)
        return false;
      next = Event::SLEEPING;
      break;
    }
  if (++depth > 200)
    throw Diverged ();
  // The links triggered meanwhile may have acted upon the event.
  bool ok = before (e, t) && e->st == cur;
  if (ok)
    {
      e->st = next;
      ok = after (e, t);
      if (!ok)
        e->st = cur;
    }
  depth--;
  if (ok)
    stat[string ("tr-") + trName (t)]++;
  return ok;
}

bool
Model::before (Ev *e, Event::Transition t)
{
  Obj *o = e->obj;
  if (o->kind == CTX)
    {
      if (e->type == Event::PRESENTATION)
        {
          if (t != Event::START)
            for (auto k : o->kids)
              transition (k->lambda, t);
          return true;
        }
      return e->type == Event::ATTRIBUTION && t != Event::PAUSE && t != Event::RESUME;
    }
  if (o->kind == SWITCH)
    {
      if (e->type != Event::PRESENTATION)
        return false;
      vector<Ev *> poss;
      if (e == o->lambda)
        for (auto k : o->kids)
          poss.push_back (k->lambda);
      else
        poss = o->sports[e->id];
      if (t == Event::START)
        {
          if (o->selected)
            {
              for (auto p : poss)
                if (p->obj == o->selected)
                  return transition (p, t), true;
              return false;
            }
          for (auto &r : o->rules)
            {
              Ev *sel = nullptr;
              for (auto p : poss)
                if (p->obj == r.first)
                  sel = p;
              if (!sel || !pred (*r.second))
                continue;
              if (!transition (sel, t))
                return false;
              o->selected = r.first;
              stat["switch-selected"]++;
              return true;
            }
          stat["switch-none"]++;
          return false;
        }
      for (auto p : poss)
        if (p->obj == o->selected)
          transition (p, t);
      return true;
    }
  // media
  if (e->type != Event::PRESENTATION)
    return t != Event::PAUSE && t != Event::RESUME;
  if (t == Event::START)
    {
      wakeParent (o);
      if (e == o->lambda)
        {
          if (e->st == Event::PAUSED)
            return before (e, Event::RESUME);
          o->pl = Plr ();
          o->props["type"] = mime (o);
          o->pl.exists = true;
          o->pl.remote = usesRemote (o);
          for (auto &p : map<string, string> (o->props))
            plrSet (o, p.first, p.second);
          if (lua (o))
            {
              say (o, "open", pixels (o->prop ("width"), 800), pixels (o->prop ("height"), 600), "");
              say (o, "presentation", "start", "", "");
            }
          sayRemote (o, "start", "");
          o->pl.state = 1;
          return true;
        }
      if (e->st != Event::SLEEPING || o->lambda->st != Event::SLEEPING)
        return true;
      // An anchor of a sleeping media: the media is started at that point.
      stat["anchor-starts-media"]++;
      transition (o->lambda, Event::START);
      T begin = e->begin == NONE ? 0 : e->begin, end = e->end;
      {
        char b[40];
        snprintf (b, sizeof b, "%.9f", begin / 1e9);
        plrSet (o, "time", b);
      }
      if (end != NONE)
        {
          o->pl.dur = end - begin;
          delay (o, e, Event::STOP, "", end);
        }
      vector<std::pair<Act, T> > keep;
      auto all = o->delayed;
      for (size_t i = 0; i < all.size (); i++)
        {
          auto &d = all[i];
          if (d.second == NONE || d.second < begin || (end != NONE && d.second > end))
            {
              if (d.first.tr == Event::START && d.second < begin && d.first.ev->end > begin)
                transition (d.first.ev, Event::START);
            }
          else
            keep.push_back ({ d.first, d.second - begin });
        }
      o->delayed = keep;
      return true;
    }
  if ((t == Event::PAUSE || t == Event::RESUME) && e == o->lambda)
    {
      Event::State s = e->st;
      for (auto a : o->evs)
        if (a != o->lambda && a->type == Event::PRESENTATION)
          eval (a, t);
      if (e->st != s)
        return false;
      if (lua (o))
        say (o, "presentation", t == Event::PAUSE ? "pause" : "resume", "", "");
      sayRemote (o, t == Event::PAUSE ? "pause" : "resume", "");
      o->pl.state = t == Event::PAUSE ? 2 : 1;
    }
  return true;
}

bool
Model::after (Ev *e, Event::Transition t)
{
  Obj *o = e->obj;
  if (e->type == Event::ATTRIBUTION)
    {
      if (t != Event::START)
        return true;
      string v = e->value, d = e->duration;
      ref (v, &v);
      ref (d, &d);
      T dur = ptime (d);
      setProp (o, e->id, v, dur);
      delay (o, e, Event::STOP, v, dur);
      stat["attribution"]++;
      if (dur > 0)
        stat["attribution-timed"]++;
      return true;
    }
  if (e->type != Event::PRESENTATION)
    return true;
  switch (o->kind)
    {
    case CTX:
      if (t == Event::START)
        {
          doStart (o);
          wakeParent (o);
          bool fp = o->fromport;
          o->fromport = false;
          if (!fp)
            for (auto p : o->ports)
              if (p->type == Event::PRESENTATION)
                delay (o, p, Event::START, "", 0);
        }
      else if (t == Event::STOP || t == Event::ABORT)
        doStop (o);
      return true;
    case SWITCH:
      if (t == Event::START)
        {
          if (e == o->lambda)
            {
              doStart (o);
              wakeParent (o);
            }
          else
            transition (o->lambda, Event::START);
        }
      else if (t == Event::PAUSE)
        {
          if (e != o->lambda && o->selected && o->selected->paused ())
            transition (o->lambda, t);
        }
      else if (t == Event::RESUME)
        {
          if (e != o->lambda && o->selected && o->selected->occ ())
            transition (o->lambda, t);
        }
      else if (e == o->lambda)
        {
          o->selected = nullptr;
          doStop (o);
        }
      else if (o->selected)
        selectedStopped (o, o->selected, t);
      return true;
    default:
      break;
    }
  if (t == Event::START)
    {
      if (e == o->lambda)
        {
          if (o->time != NONE)
            return true;
          doStart (o);
          for (auto a : o->evs)
            if (a != o->lambda && a->type == Event::PRESENTATION && a->label == "")
              {
                delay (o, a, Event::START, "", a->begin);
                delay (o, a, Event::STOP, "", a->end);
              }
        }
      else if (e->label != "" && lua (o))
        say (o, "presentation", "start", e->label, "");
      else if (e->label != "")
        sayRemote (o, "start", e->label);
    }
  else if (t == Event::STOP || t == Event::ABORT)
    {
      if (e == o->lambda)
        mediaStop (o);
      else if (e->label != "" && lua (o))
        say (o, "presentation", "stop", e->label, "");
      else if (e->label != "")
        sayRemote (o, "stop", e->label);
    }
  return true;
}

// Links --------------------------------------------------------------------

void
Model::inContext (const Act &act, Obj *ctx, vector<Act> &stack)
{
  for (auto &l : ctx->links)
    for (auto &c : l.conds)
      {
        if (c.ev != act.ev || c.tr != act.tr)
          continue;
        if (c.pred && !pred (*c.pred))
          {
            stat["link-blocked"]++;
            continue;
          }
        stat["link"]++;
        vector<Act> now;
        for (auto &a : l.acts)
          {
            string s = a.delay;
            ref (s, &s);
            T d = ptime (s);
            if (d == 0)
              now.push_back (a);
            else
              {
                stat["link-delayed"]++;
                size_t nd = ctx->delayed.size ();
                delay (ctx, a.ev, a.tr, a.value, d, a.duration);
                if (ctx->delayed.size () > nd)
                  ctx->delayed.back ().first.link = true;
              }
          }
        stack.insert (stack.end (), now.rbegin (), now.rend ());
      }
}

int
Model::eval (Act init)
{
  vector<Act> stack{ init };
  int n = 0;
  if (++depth > 200)
    throw Diverged ();
  while (!stack.empty ())
    {
      if (--budget < 0)
        throw Diverged ();
      Act a = stack.back ();
      stack.pop_back ();
      Ev *e = a.ev;
      e->duration = a.duration;
      if (e->type == Event::ATTRIBUTION)
        e->value = a.value;
      if (!transition (e, a.tr))
        continue;
      n++;
      Obj *o = e->obj;
      if (e->type == Event::ATTRIBUTION && a.tr == Event::START && o->sleeping ())
        {
          Act s = a;
          s.tr = Event::STOP;
          stack.push_back (s);
        }
      vector<Obj *> done;
      Obj *c = o->parent;
      if (c && c->kind == CTX && c->occ ())
        {
          inContext (a, c, stack);
          done.push_back (c);
          for (;;)
            {
              Obj *g = c->parent;
              if (!g || g->kind != CTX || !g->occ ())
                break;
              bool mapped = false;
              for (auto p : c->ports)
                mapped = mapped || p->obj == o;
              if (!mapped)
                break;
              stat["link-through-port"]++;
              inContext (a, g, stack);
              done.push_back (g);
              c = g;
            }
        }
      else if (c && c->kind == SWITCH)
        {
          for (auto &sp : c->sports)
            for (auto m : sp.second)
              if (m == e && c->parent)
                {
                  Act l = a;
                  l.ev = c->find (Event::PRESENTATION, sp.first);
                  stat["switchport-mirror"]++;
                  eval (l);
                }
          if (a.tr == Event::STOP || a.tr == Event::ABORT)
            selectedStopped (c, o, a.tr);
        }
      if (o->kind == CTX)
        inContext (a, o, stack);
      else
        for (auto &al : o->aliases)
          if (al.second && al.second->kind == CTX && al.second->occ ()
              && std::find (done.begin (), done.end (), al.second) == done.end ())
            {
              done.push_back (al.second);
              stat["link-through-alias"]++;
              inContext (a, al.second, stack);
            }
    }
  depth--;
  return n;
}

// Time and input -------------------------------------------------------------

void
Model::objTick (Obj *o, T diff)
{
  if (!o->occ ())
    return;
  o->time += diff;
  vector<std::pair<Act, T> > keep;
  for (auto &d : o->delayed)
    if (o->time >= d.second)
      o->due.push_back (d.first);
    else
      keep.push_back (d);
  o->delayed = keep;
  while (!o->due.empty ())
    {
      Act a = o->due.front ();
      o->due.pop_front ();
      stat["due"]++;
      if (a.link)
        stat["due-link"]++;
      else if (a.ev->type == Event::ATTRIBUTION)
        stat["due-attribution"]++;
      else if (o->isMedia ())
        stat["due-anchor"]++;
      eval (a);
      if (o->paused ())
        {
          for (auto &x : o->due)
            o->delayed.push_back ({ x, o->time }), stat["due-kept"]++;
          o->due.clear ();
        }
    }
}
void
Model::sendTick (Obj *o, T diff)
{
  if (o->kind == SETTINGS && focusPending)
    {
      string next = focusNext;
      if (next == "")
        for (auto m : objs)
          if (m->isMedia () && m->occ ())
            {
              string i = m->prop ("focusIndex");
              if (i != "" && (next == "" || i < next))
                next = i;
            }
      stat["focus"]++;
      focusPending = false;
      eval (o->find (Event::ATTRIBUTION, "service.currentFocus"), Event::START, next);
    }
  objTick (o, diff);
  if (o->kind == CTX)
    {
      for (auto &d : o->delayed)
        if (d.first.tr == Event::START && d.second <= o->time)
          {
            stat["restarted-in-tick"]++;
            return;
          }
      if (!o->parent && o->awake == 1)
        {
          if (!settings->sleeping ())
            eval (o->lambda, Event::STOP);
        }
      else if (o->awake == 0)
        {
          stat["context-end"]++;
          eval (o->lambda, Event::STOP);
        }
    }
  else if (o->isMedia () && o->pl.exists)
    {
      if (o->pl.eos || (o->pl.dur != NONE && o->time > o->pl.dur))
        {
          stat["eos"]++;
          eval (o->lambda, Event::STOP);
        }
    }
}
void
Model::sendKey (Obj *o, const string &k, bool press)
{
  if (!o->isMedia () || o->sleeping () || !o->pl.exists)
    return;
  if (press && k.compare (0, 7, "CURSOR_") == 0 && focused (o))
    {
      string dir = k.substr (7), name = "move" + dir.substr (0, 1);
      for (size_t i = 1; i < dir.size (); i++)
        name += (char) tolower (dir[i]);
      string next = name == "moveUp" || name == "moveDown" || name == "moveLeft" || name == "moveRight" ? o->pl.props[name] : "";
      if (next != "")
        {
          stat["focus-move"]++;
          focusPending = true;
          focusNext = next;
        }
    }
  if (focused (o) && lua (o))
    say (o, "key", press ? "press" : "release", k, "");
  vector<Ev *> buf;
  for (auto e : o->evs)
    if (e->type == Event::SELECTION)
      {
        string want = e->key;
        if (want != "" && want[0] == '$')
          want = "";
        if (want == "" ? (k == "ENTER" && focused (o)) : k == want)
          buf.push_back (e);
      }
  for (auto e : buf)
    {
      stat["selection"]++;
      eval (e, press ? Event::START : Event::STOP);
    }
}
bool
Model::start ()
{
  if (eval (root->lambda, Event::START) == 0)
    return false;
  if (settings->sleeping ())
    transition (settings->lambda, Event::START);
  playing = true;
  return true;
}
void
Model::stop ()
{
  if (!playing)
    return;
  if (!root->sleeping ())
    transition (root->lambda, Event::STOP);
  // Also those awake inside sleeping switches end with the document.
  for (auto o : objs)
    if (o->isMedia ())
      mediaStop (o);
  playing = false;
}
bool
Model::tick (T diff)
{
  if (playing && root->sleeping ())
    {
      stat["end"]++;
      stop ();
    }
  if (!playing)
    return false;
  vector<Obj *> buf;
  for (auto o : objs)
    if (o->paused () && diff > 0)
      stat["paused-tick"]++;
  for (auto o : objs)
    if (o->occ ())
      buf.push_back (o);
  for (auto o : buf)
    sendTick (o, diff);
  return true;
}
bool
Model::key (const string &k, bool press)
{
  if (playing && root->sleeping ())
    {
      stat["end"]++;
      stop ();
    }
  if (!playing)
    return false;
  vector<Obj *> buf;
  for (auto o : objs)
    if (!o->sleeping ())
      buf.push_back (o);
  for (auto o : buf)
    sendKey (o, k, press);
  return true;
}
}
