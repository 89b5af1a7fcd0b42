// C24: documents written as Lua tables (NCL-ltab).
#include "lock.h"
#include "ParserLua.h"
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace pbt;
using doc::Prof;
using lock::Lock;
using lock::Ops;
using namespace mdl;

namespace {
struct L { // a Lua value
  enum { NIL, STR, NUM, BOOL, TAB } k = NIL;
  string s;
  string role; // what it is in the document
  vector<L> pos;
  vector<std::pair<string, L> > named;
  L () {}
  L (const string &str, const string &r = "") : k (STR), s (str), role (r) {}
  static L tab (const string &r = "") { L t; t.k = TAB; t.role = r; return t; }
  static L boolean (bool b) { L t; t.k = BOOL; t.s = b ? "true" : "false"; return t; }
};

string
quoted (const string &s, Src &src)
{
  if (s.find (']') == string::npos && s.find ('\n') == string::npos && src.chance (1, 12))
    return "[[" + s + "]]";
  char q = src.chance (1, 3) ? '"' : '\'';
  string o (1, q);
  for (char ch : s)
    {
      if (ch == q || ch == '\\')
        o += '\\';
      if (ch == '\n')
        {
          o += "\\n";
          continue;
        }
      o += ch;
    }
  return o + q;
}
bool
name (const string &s)
{
  static const std::set<string> KW = { "end", "and", "or", "not", "if", "in", "do", "for", "nil", "true", "false", "local", "then", "else", "elseif", "function", "repeat", "return", "until", "while", "break", "goto" };
  if (s == "" || isdigit ((unsigned char) s[0]) || KW.count (s))
    return false;
  for (char ch : s)
    if (!isalnum ((unsigned char) ch) && ch != '_')
      return false;
  return true;
}
struct Printer {
  Src &src;
  std::ostringstream defs; // local variables
  int n = 0;
  explicit Printer (Src &s) : src (s) {}
  string str (const L &v, int depth)
  {
    switch (v.k)
      {
      case L::NIL: return "nil";
      case L::BOOL:
      case L::NUM: return v.s;
      case L::STR:
        if (v.s != "" && v.s.size () < 6 && v.s.find_first_not_of ("0123456789") == string::npos && (v.s[0] != '0' || v.s == "0") && src.chance (1, 3))
          return v.s;
        return quoted (v.s, src);
      case L::TAB:
        break;
      }
    string o = "{";
    const char *sep = src.chance (1, 4) ? "; " : ", ";
    bool first = true;
    auto item = [&] (const string &s) {
      o += (first ? "" : sep) + s;
      first = false;
    };
    size_t last = v.pos.size ();
    while (last && v.pos[last - 1].k == L::NIL)
      last--;
    // The fields of an object may be given in any order; lists may not.
    bool indexed = v.role == "object" && src.chance (1, 4);
    string ind = "\n" + string ((size_t) depth + 1, ' ');
    for (size_t i = 0; i < last; i++)
      {
        if (indexed && v.pos[i].k == L::NIL)
          continue;
        string s = str (v.pos[i], depth + 1);
        if (v.pos[i].role == "object" && src.chance (1, 8) && n < 100)
          {
            string l = "v" + std::to_string (++n);
            defs << "local " << l << " = " << s << "\n";
            s = l;
          }
        item ((v.pos[i].k == L::TAB ? ind : "") + (indexed ? "[" + std::to_string (i + 1) + "]=" : "") + s);
      }
    for (auto &p : v.named)
      item ((name (p.first) && !src.chance (1, 6) ? p.first : "[ " + quoted (p.first, src) + " ]") + "=" + str (p.second, depth + 1));
    if (!first && src.chance (1, 6))
      o += ",";
    return o + "}";
  }
  string program (const L &v)
  {
    string s = str (v, 0), d = defs.str ();
    if (src.chance (1, 3))
      return "-- a document\n" + d + "return " + s + "\n";
    return d + "ncl = " + s + "\nreturn ncl\n";
  }
};

// Reduces M to what a table can express; its events become the ones a table has.
void
reduce (mdl::Model &m)
{
  for (auto o : m.objs)
    {
      // Ports and links of a context refer to events of its children.
      auto expressible = [&] (Ev *e, bool port) {
        if (e->obj->parent != o || e->type == Event::LOOKAT || e->obj->kind == SETTINGS)
          return false;
        if (e->type == Event::PRESENTATION && e != e->obj->lambda && !e->obj->isMedia ())
          return false;
        return !port || e->type == Event::PRESENTATION;
      };
      vector<Ev *> ports;
      for (auto e : o->ports)
        if (expressible (e, true))
          ports.push_back (e);
      o->ports = ports;
      vector<Link> links;
      for (auto &l : o->links)
        {
          Link x;
          for (auto &a : l.conds)
            if (expressible (a.ev, false))
              {
                x.conds.push_back (a);
                x.conds.back ().value = x.conds.back ().duration = x.conds.back ().delay = "";
              }
          for (auto &a : l.acts)
            if (expressible (a.ev, false))
              {
                x.acts.push_back (a);
                x.acts.back ().pred = nullptr;
              }
          if (x.conds.size () && x.acts.size ())
            links.push_back (x);
        }
      o->links = links;
      o->sports.clear ();
    }
  std::set<Ev *> used;
  for (auto o : m.objs)
    for (auto &l : o->links)
      {
        for (auto &a : l.conds)
          used.insert (a.ev);
        for (auto &a : l.acts)
          used.insert (a.ev);
      }
  for (auto o : m.objs)
    {
      vector<Ev *> evs;
      for (auto e : o->evs)
        {
          if (e->type == Event::LOOKAT || (e->type == Event::SELECTION && !used.count (e)))
            continue;
          if (e->type == Event::PRESENTATION && e != o->lambda && !o->isMedia ())
            continue;
          evs.push_back (e);
        }
      o->evs = evs;
      if (o->kind == CTX || o->kind == MEDIA)
        for (auto e : o->evs)
          if (e->type == Event::ATTRIBUTION && !o->props.count (e->id))
            o->props[e->id] = "";
      if (o->kind == CTX || o->kind == MEDIA)
        for (auto &p : o->props)
          m.addEv (o, Event::ATTRIBUTION, p.first);
    }
}

L
pred (const Pred &p)
{
  L t = L::tab ("pred");
  switch (p.type)
    {
    case Predicate::FALSUM:
    case Predicate::VERUM:
      t.pos = { L::boolean (p.type == Predicate::VERUM) };
      break;
    case Predicate::ATOM:
      {
        static const std::map<Predicate::Test, string> T = { { Predicate::EQ, "==" }, { Predicate::NE, "!=" }, { Predicate::LT, "<" }, { Predicate::LE, "<=" }, { Predicate::GT, ">" }, { Predicate::GE, ">=" } };
        t.pos = { p.left, L (T.at (p.test), "operator"), p.right };
        break;
      }
    case Predicate::NEGATION:
      t.pos = { string ("not"), pred (*p.kids.at (0)) };
      break;
    default:
      {
        if (p.kids.empty ())
          {
            t.pos = { L::boolean (p.type == Predicate::CONJUNCTION) };
            break;
          }
        L l = pred (*p.kids[0]);
        for (size_t i = 1; i < p.kids.size (); i++)
          {
            L x = L::tab ("pred");
            x.pos = { string (p.type == Predicate::CONJUNCTION ? "and" : "or"), l, pred (*p.kids[i]) };
            l = x;
          }
        return l;
      }
    }
  return t;
}
string
eventRef (Ev *e, Src &src)
{
  switch (e->type)
    {
    case Event::PRESENTATION:
      return e->obj->id + "@" + (e == e->obj->lambda ? (src.chance (1, 6) ? "LAMBDA" : "lambda") : e->id);
    case Event::ATTRIBUTION:
      return e->obj->id + "." + e->id;
    default:
      return e->obj->id + "<" + e->id + ">";
    }
}
string
timeStr (T t)
{
  char b[40];
  snprintf (b, sizeof b, "%.12gs", (double) t / 1e9);
  return b;
}
L
build (Obj *o, const string &id, Src &src, const string &dir, const vector<Obj *> &order)
{
  L t = L::tab ("object");
  L props;
  if (o->props.size () || src.chance (1, 3))
    props = L::tab ("properties");
  for (auto &p : o->props)
    {
      string k = p.first, v = p.second;
      if (k == "uri")
        {
          string base = "file://" + dir + "/";
          if (v.compare (0, base.size (), base) == 0 && !src.chance (1, 6))
            {
              k = "src";
              v = src.chance (1, 4) ? v.substr (7) : v.substr (base.size ());
            }
          else if (src.chance (1, 2))
            k = "src";
        }
      props.named.push_back ({ k, L (v, "property") });
    }
  auto children = [&] {
    L l;
    for (auto x : order) // in the order of the document
      if (x->parent == o && x->kind != SETTINGS)
        {
          if (l.k == L::NIL)
            l = L::tab ("children");
          l.pos.push_back (build (x, x->id, src, dir, order));
        }
    return l;
  };
  auto act = [&] (const Act &a, bool cond) {
    L x = L::tab (cond ? "condition" : "action");
    string tr = trName (a.tr);
    for (auto &ch : tr)
      ch = (char) tolower (ch);
    if (tr == "start" && a.ev->type == Event::ATTRIBUTION && src.chance (2, 3))
      tr = src.chance (1, 6) ? "SET" : "set";
    x.pos = { L (tr, "transition"), L (eventRef (a.ev, src), "ref") };
    if (cond)
      {
        if (a.pred)
          x.pos.push_back (pred (*a.pred));
      }
    else
      {
        x.pos.push_back (a.value != "" || src.chance (1, 8) ? L (a.value) : L ());
        L q;
        if (a.delay != "" || a.duration != "" || src.chance (1, 8))
          q = L::tab ("params");
        if (a.delay != "")
          q.named.push_back ({ "delay", a.delay });
        if (a.duration != "")
          q.named.push_back ({ "duration", a.duration });
        x.pos.push_back (q);
      }
    return x;
  };
  switch (o->kind)
    {
    case CTX:
      {
        L ports, links;
        for (auto e : o->ports)
          {
            if (ports.k == L::NIL)
              ports = L::tab ("ports");
            ports.pos.push_back (L (eventRef (e, src), "ref"));
          }
        for (auto &l : o->links)
          {
            if (links.k == L::NIL)
              links = L::tab ("links");
            L x = L::tab ("link"), cs = L::tab ("conditions"), as = L::tab ("actions");
            for (auto &a : l.conds)
              cs.pos.push_back (act (a, true));
            for (auto &a : l.acts)
              as.pos.push_back (act (a, false));
            x.pos = { cs, as };
            links.pos.push_back (x);
          }
        t.pos = { L ("context", "tag"), L (id, "id"), props, ports, children (), links };
        break;
      }
    case SWITCH:
      {
        L rules;
        for (auto &r : o->rules)
          {
            if (rules.k == L::NIL)
              rules = L::tab ("rules");
            L x = L::tab ("rule");
            x.pos = { L (r.first->id, "child"), pred (*r.second) };
            rules.pos.push_back (x);
          }
        t.pos = { L ("switch", "tag"), L (id, "id"), children (), rules };
        break;
      }
    default:
      {
        L areas;
        for (auto e : o->evs)
          if (e->type == Event::PRESENTATION && e != o->lambda)
            {
              if (areas.k == L::NIL)
                areas = L::tab ("areas");
              L x = L::tab ("area");
              x.pos = { e->id, e->begin == 0 && src.chance (1, 2) ? L () : L (timeStr (e->begin), "time"), e->end == NONE ? L () : L (timeStr (e->end), "time") };
              areas.pos.push_back (x);
            }
        t.pos = { L ("media", "tag"), L (id, "id"), props, areas };
      }
    }
  return t;
}
void
find (L &t, const string &role, vector<L *> &out)
{
  if (role == "" ? true : t.role == role)
    out.push_back (&t);
  for (auto &x : t.pos)
    find (x, role, out);
  for (auto &x : t.named)
    find (x.second, role, out);
}
ginga::Document *
parse (Case &c, const string &text, bool buffer, string *err)
{
  *err = "";
  if (buffer)
    return ginga::ParserLua::parseBuffer (text.data (), text.size (), err);
  string path = c.tmpdir + "/doc.lua";
  std::ofstream (path) << text;
  return ginga::ParserLua::parseFile (path, err);
}
string
mustRefuse (L &doc, Case &c, string *what, string *program)
{
  Src &s = c.src;
  auto any = [&] (const string &role) -> L * {
    vector<L *> v;
    find (doc, role, v);
    return v.empty () ? nullptr : v[s.draw (v.size ())];
  };
  for (int tries = 0; tries < 30; tries++)
    {
      L *x = nullptr;
      int kind = (int) s.draw (22);
      if (tries == 29)
        kind = 0;
      switch (kind)
        {
        case 0:
          if ((x = any ("tag")))
            {
              *what = "unknown tag";
              return x->s = s.pick (vector<string>{ "medium", "Context", "link", "body", "" });
            }
          break;
        case 1:
          if ((x = any ("id")))
            {
              *what = "no id";
              *x = L ();
              return "";
            }
          break;
        case 2:
          {
            vector<L *> v;
            find (doc, "id", v);
            if (v.size () < 2)
              break;
            *what = "repeated id";
            size_t i = 1 + s.draw (v.size () - 1);
            return v[i]->s = v[s.draw (i)]->s;
          }
        case 3:
          if ((x = any ("ref")))
            {
              *what = "reference to an unknown object";
              return x->s = "zz" + x->s;
            }
          break;
        case 4:
          if ((x = any ("ref")) && x->s.find ('<') == string::npos)
            {
              *what = "reference to an unknown event";
              return x->s += "zz";
            }
          break;
        case 5:
          if ((x = any ("ref")))
            {
              *what = "malformed reference";
              return x->s = s.pick (vector<string>{ "", "zz", "@", ".", "<>", "<", x->s.substr (0, x->s.find_first_of ("@.<")) });
            }
          break;
        case 6:
          if ((x = any ("transition")))
            {
              *what = "unknown transition";
              return x->s = s.pick (vector<string>{ "begin", "end", "", "starts" });
            }
          break;
        case 7:
          if ((x = any ("time")))
            {
              *what = "malformed time";
              return x->s = s.pick (vector<string>{ "xx", "1sx", "1:2", "1:2:3:4" });
            }
          break;
        case 8:
          if ((x = any ("child")))
            {
              *what = "rule of an unknown child";
              return x->s = "zz" + x->s;
            }
          break;
        case 9:
          if ((x = any ("operator")))
            {
              *what = "unknown operator";
              return x->s = s.pick (vector<string>{ "=", "=~", "eq", "" });
            }
          break;
        case 10:
          if ((x = any ("pred")))
            {
              *what = "predicate without operands";
              if (x->pos[0].k == L::BOOL)
                x->pos.clear ();
              else
                x->pos.pop_back ();
              return "";
            }
          break;
        case 11:
          if ((x = any (s.chance (1, 2) ? "conditions" : "actions")))
            {
              *what = "link without " + x->role;
              if (s.chance (1, 2))
                x->pos.clear ();
              else
                *x = L ();
              return "";
            }
          break;
        case 12:
          if ((x = any ("property")))
            {
              *what = "property without text";
              *x = s.chance (1, 2) ? L::tab () : L::boolean (true);
              return "";
            }
          break;
        case 13:
          {
            static const vector<string> R = { "properties", "areas", "ports", "children", "links", "link", "conditions", "actions", "condition", "action", "rules", "rule", "pred", "object", "params", "area" };
            if (!(x = any (R[s.draw (R.size ())])) || (x == &doc && s.chance (1, 2)))
              break;
            *what = "text instead of a table: " + x->role;
            *x = s.chance (1, 3) ? L::boolean (true) : L ("xyz");
            return "";
          }
        case 14:
          {
            *what = "script with an error of syntax";
            Printer p (s);
            *program = p.program (doc) + s.pick (vector<string>{ "}", "return return", "x = ", "'" });
            return "";
          }
        case 15:
          {
            *what = "script that fails";
            Printer p (s);
            *program = "error ('qwerty')\n" + p.program (doc);
            return "qwerty";
          }
        case 16:
          *what = "script that yields no table";
          *program = s.pick (vector<string>{ "", "return nil", "return 'x'", "return 42", "x = {'context', 'ncl'}", "return true", "return function () end", "return {}" });
          return "";
        case 17:
          {
            vector<L *> v;
            find (doc, "object", v);
            vector<L *> w;
            for (auto o : v)
              if (o->pos[0].s == "media")
                w.push_back (o);
            if (w.empty ())
              break;
            *what = "malformed transition effect";
            L t = L::tab ();
            t.named.push_back ({ "dur", string ("1s") });
            if (s.chance (1, 2))
              t.named.push_back ({ "type", L::tab () });
            if (s.chance (1, 3))
              t = L ("fade");
            L &ps = w[s.draw (w.size ())]->pos[2];
            if (ps.k == L::NIL)
              ps = L::tab ("properties");
            ps.named.push_back ({ s.chance (1, 2) ? "transIn" : "transOut", t });
            return "";
          }
        case 18:
          if ((x = any ("condition")))
            {
              *what = "condition or action without event";
              x->pos.resize (1);
              return "";
            }
          break;
        case 19:
          {
            x = any ("children");
            if (!x || x->pos.empty ())
              break;
            *what = "child that is not an object";
            x->pos[s.draw (x->pos.size ())] = s.chance (1, 2) ? L ("media") : L::tab ();
            return "";
          }
        case 20:
          {
            x = any ("area");
            if (!x)
              break;
            *what = "anchor without name";
            x->pos[0] = L ();
            return "";
          }
        default:
          {
            x = any ("ports");
            if (!x)
              break;
            *what = "port that is not an event";
            x->pos[s.draw (x->pos.size ())] = s.chance (1, 2) ? L::tab () : L::boolean (false);
            return "";
          }
        }
    }
  abort ();
}

// What can be said of a document that was accepted.
void
wellFormed (Case &c, ginga::Document *d)
{
  std::set<string> ids;
  for (auto o : *d->getObjects ())
    {
      c.check (ids.insert (o->getId ()).second, "ids", "id '" + o->getId () + "' appears twice");
      c.check (o->getDocument () == d, "document", "object of another document");
      if (o != d->getRoot ())
        c.check (o->getParent () && o->getParent ()->getChildren ()->count (o), "parent", "object '" + o->getId () + "' is not in its parent");
      for (auto e : *o->getEvents ())
        c.check (e->getObject () == o, "events", "event of another object");
      if (auto x = dynamic_cast<ginga::Context *> (o))
        {
          for (auto e : *x->getPorts ())
            c.check (e && x->getChildren ()->count (e->getObject ()), "ports", "port of something else");
          for (auto &l : *x->getLinks ())
            {
              c.check (l.first.size () && l.second.size (), "links", "empty link");
              for (auto &a : l.first)
                c.check (a.event && x->getChildren ()->count (a.event->getObject ()), "links", "link of something else");
              for (auto &a : l.second)
                c.check (a.event && x->getChildren ()->count (a.event->getObject ()), "links", "link of something else");
            }
        }
      if (auto x = dynamic_cast<ginga::Switch *> (o))
        for (auto &r : *x->getRules ())
          c.check (r.first && x->getChildren ()->count (r.first), "rules", "rule of something else");
      o->toString ();
    }
}

void
ltab (Case &c)
{
  Prof p;
  p.nodes = 2 + 8 * c.size / 100;
  p.depth = 3;
  p.links = 1 + 6 * c.size / 100;
  p.wRefer = p.wSettings = 0;
  p.wLook = 0;
  p.label = 0;
  p.area = 50;
  p.wSwitch = 2;
  p.pred = 50;
  Lock l (c);
  doc::Doc d = doc::gen (c, p);
  d.nclId = "";
  if (d.bodyId == "")
    d.bodyId = "body";
  mdl::Model m;
  string why;
  if (!doc::compile (d, c.tmpdir, &m, &why))
    {
      c.cls ("unresolvable");
      return;
    }
  vector<Obj *> order = m.objs;
  reduce (m);
  size_t nlinks = 0, nrules = 0, nports = 0;
  for (auto o : m.objs)
    nlinks += o->links.size (), nrules += o->rules.size (), nports += o->ports.size ();
  L tree = build (m.root, d.bodyId, c.src, c.tmpdir, order);
  int mode = (int) c.src.weighted ({ 5, 3, 2 });
  string err, text;
  if (mode == 1)
    { // one fault
      string what;
      string word = mustRefuse (tree, c, &what, &text);
      if (what.compare (0, 6, "script") != 0)
        {
          Printer pr (c.src);
          text = pr.program (tree);
        }
      c.desc << what << "\n" << text;
      c.cls ("refused");
      ginga::Document *doc = parse (c, text, c.src.chance (1, 3), &err);
      bool ok = doc != nullptr;
      delete doc;
      c.check (!ok, "accepted", "a table with a fault is accepted: " + what);
      c.check (err != "", "message", "a table with a fault is refused without a message: " + what);
      c.check (err.find (word) != string::npos, "message", "the message '" + err + "' does not name '" + word + "': " + what);
      c.nontrivial = true;
      return;
    }
  if (mode == 2)
    { // anything
      for (int k = 1 + (int) c.src.draw (4); k > 0; k--)
        {
          vector<L *> v;
          find (tree, "", v);
          L &x = *v[c.src.draw (v.size ())], y = *v[c.src.draw (v.size ())];
          if (x.role == "property")
            continue;
          switch (c.src.draw (6))
            {
            case 0:
              x = L ();
              break;
            case 1:
              if (y.role != "property")
                x = y;
              break;
            case 2:
              if (x.pos.size ())
                x.pos.erase (x.pos.begin () + (long) c.src.draw (x.pos.size ()));
              break;
            case 3:
              if (x.pos.size ())
                {
                  L z = x.pos[c.src.draw (x.pos.size ())];
                  x.pos.insert (x.pos.begin () + (long) c.src.draw (x.pos.size ()), z);
                }
              break;
            case 4:
              if (x.pos.size () > 1)
                std::swap (x.pos[0], x.pos[x.pos.size () - 1]);
              break;
            default:
              x = c.src.chance (1, 2) ? L::boolean (c.src.chance (1, 2)) : c.src.chance (1, 2) ? L::tab () : L (c.src.pick (vector<string>{ "", "x", "lambda", "1", "not", "@", "true" }));
            }
        }
      Printer pr (c.src);
      text = pr.program (tree);
      c.desc << text;
      ginga::Document *doc = parse (c, text, c.src.chance (1, 3), &err);
      c.cls (doc ? "mutant accepted" : "mutant refused");
      c.check (doc || err != "", "message", "refused without a message");
      c.check (!doc || err == "", "message", "accepted, but with the message '" + err + "'");
      if (doc)
        wellFormed (c, doc);
      delete doc;
      c.nontrivial = true;
      return;
    }
  // Transition effects are given as tables.
  map<string, string> effect;
  string target, which = c.src.chance (1, 2) ? "transIn" : "transOut";
  {
    vector<L *> v, w;
    find (tree, "object", v);
    for (auto o : v)
      if (o->pos[0].s == "media")
        w.push_back (o);
    if (w.size () && c.src.chance (1, 6))
      {
        L &o = *w[c.src.draw (w.size ())], t = L::tab ();
        target = o.pos[1].s;
        static const vector<vector<string> > F = {
          { "type", "", "fade", "barWipe" }, { "subtype", "", "leftToRight", "x y" }, { "dur", "0", "2s", "0.5s" }, { "startProgress", "0", "0.5", "1" },
          { "endProgress", "0", "0.25", "1" }, { "direction", "forward", "reverse", "forward" }, { "fadeColor", "", "red", "rgb(255, 0, 0)" },
          { "horzRepeat", "0", "2", "1" }, { "vertRepeat", "0", "3", "1" }, { "borderWidth", "0", "7", "1" }, { "borderColor", "", "blue", "lime" } };
        for (auto &f : F)
          {
            size_t k = f[0] == "type" ? 1 + c.src.draw (2) : c.src.draw (3);
            effect[f[0]] = f[k + 1];
            if (k)
              t.named.push_back ({ f[0], L (f[k + 1]) });
          }
        if (o.pos[2].k == L::NIL)
          o.pos[2] = L::tab ("properties");
        o.pos[2].named.push_back ({ which, t });
        c.cls ("transition effect");
      }
  }
  Printer pr (c.src);
  text = pr.program (tree);
  c.desc << text;
  if (target != "")
    {
      ginga::Document *doc = parse (c, text, c.src.chance (1, 3), &err);
      c.check (doc != nullptr, "refused", "a valid table is refused: " + err);
      std::unique_ptr<ginga::Document> own (doc);
      ginga::Object *o = doc->getObjectById (target);
      c.check (o != nullptr, "transition", "no object " + target);
      map<string, string> got;
      c.check (ginga::try_parse_table (o->getProperty (which), &got), "transition", "malformed transition " + o->getProperty (which));
      for (auto &e : effect)
        c.eq (got[e.first], e.second, "transition", e.first + " of the " + which + " of " + target);
      c.check (o->getAttributionEvent (which) != nullptr, "transition", "no event");
      c.nontrivial = true;
      return;
    }
  {
    ginga::Document *doc = parse (c, text, false, &err);
    c.check (doc != nullptr, "refused", "a valid table is refused: " + err);
    c.check (err == "", "message", "accepted, but with the message '" + err + "'");
    std::unique_ptr<ginga::Document> own (doc);
    lock::bind (c, m, doc, true);
    wellFormed (c, doc);
  }
  bool relative = false; // to the file, which a buffer has not
  for (auto o : m.objs)
    relative = relative || o->prop ("uri") != "";
  if (!relative)
    {
      mdl::Model m2;
      c.check (doc::compile (d, c.tmpdir, &m2, &why), "harness", "does not compile again");
      reduce (m2);
      ginga::Document *doc = parse (c, text, true, &err);
      c.check (doc != nullptr, "refused", "a valid table is refused in a buffer: " + err);
      std::unique_ptr<ginga::Document> own (doc);
      lock::bind (c, m2, doc, true);
      c.cls ("buffer");
    }
  // presented, it behaves as what it denotes
  l.d = d;
  doc::writeFiles (d, c.tmpdir);
  l.path = c.tmpdir + "/doc.lua";
  l.tweak = reduce;
  c.check (doc::compile (d, c.tmpdir, &l.m, &why), "harness", "does not compile again");
  reduce (l.m);
  Ops o;
  o.n = 4 + 12 * c.size / 100;
  if (c.src.chance (1, 8))
    o.sessions = 2, o.wStop = 1;
  if (l.begin ())
    l.run (o);
  for (auto &s : l.m.stat)
    if (s.second)
      c.cls (s.first);
  c.nontrivial = nlinks + nrules + nports >= 2;
}
RegP c24 (Property{ "C24", "the table has at least two ports, links or rules, or a fault", ltab, 12000, 600000, {
  "ids are alphanumeric (the notation of references to events cannot tell other ones apart)",
  "predicates have at most two operands, as in the tables ginga reads" } });
}
