#include "doc.h"
#include <sys/stat.h>
#include <fstream>
#include <cmath>

namespace doc {

const vector<string> TIMES = { "1s", "0.5s", "2s", "1.5s", "0.25s", "3s", "0s", "0:0:1", "2", "4s" };

// XML ------------------------------------------------------------------------

string
escape (const string &s)
{
  string r;
  for (char c : s)
    switch (c)
      {
      case '&': r += "&amp;"; break;
      case '<': r += "&lt;"; break;
      case '>': r += "&gt;"; break;
      case '"': r += "&quot;"; break;
      case '\n': r += "&#10;"; break;
      case '\t': r += "&#9;"; break;
      default: r += c;
      }
  return r;
}
string
toXml (const XNode &n, int depth)
{
  string ind (depth, ' ');
  string s = ind + "<" + n.tag;
  for (auto &a : n.attrs)
    s += " " + a.first + "=\"" + escape (a.second) + "\"";
  if (n.kids.empty ())
    return s + "/>\n";
  s += ">\n";
  for (auto &k : n.kids)
    s += toXml (k, depth + 1);
  return s + ind + "</" + n.tag + ">\n";
}
static XNode
el (const string &tag, Attrs attrs = {})
{
  XNode n;
  n.tag = tag;
  n.attrs = attrs;
  return n;
}
// Merges lists, keeping the order within each.
static void
weave (vector<XNode> &out, vector<vector<XNode> > lists, pbt::Src *src)
{
  vector<size_t> pos (lists.size (), 0);
  for (;;)
    {
      vector<size_t> av;
      for (size_t i = 0; i < lists.size (); i++)
        if (pos[i] < lists[i].size ())
          av.push_back (i);
      if (av.empty ())
        return;
      size_t i = src ? av[src->draw (av.size ())] : av[0];
      out.push_back (lists[i][pos[i]++]);
    }
}
static const char *
opName (Predicate::Type t)
{
  return t == Predicate::NEGATION ? "not" : t == Predicate::CONJUNCTION ? "and" : "or";
}
static const char *
cmpName (Predicate::Test t)
{
  switch (t)
    {
    case Predicate::EQ: return "eq";
    case Predicate::NE: return "ne";
    case Predicate::LT: return "lt";
    case Predicate::LE: return "lte";
    case Predicate::GT: return "gt";
    default: return "gte";
    }
}
static const char *
typeName (Event::Type t)
{
  return t == Event::PRESENTATION ? "presentation" : t == Event::ATTRIBUTION ? "attribution"
         : t == Event::SELECTION ? "selection" : "lookat";
}
static XNode
ruleNode (const Rule &r)
{
  if (!r.comp)
    return el ("rule", { { "id", r.id }, { "var", r.var }, { "comparator", cmpName (r.test) }, { "value", r.value } });
  XNode n = el ("compositeRule", { { "id", r.id }, { "operator", opName (r.op) } });
  for (auto &k : r.kids)
    n.kids.push_back (ruleNode (k));
  return n;
}
static XNode
stmtNode (const Stmt &s)
{
  if (s.atom)
    {
      XNode n = el ("assessmentStatement", { { "comparator", cmpName (s.test) } });
      for (auto o : { &s.l, &s.r })
        n.kids.push_back (o->role ? el ("attributeAssessment", { { "role", o->s }, { "eventType", "attribution" } })
                                  : el ("valueAssessment", { { "value", o->s } }));
      return n;
    }
  XNode n = el ("compoundStatement", { { "operator", opName (s.op) } });
  if (s.negated)
    n.attrs.push_back ({ "isNegated", "true" });
  for (auto &k : s.kids)
    n.kids.push_back (stmtNode (k));
  return n;
}
static XNode
roleNode (const Role &r)
{
  XNode n = el (r.condition ? "simpleCondition" : "simpleAction", { { "role", r.role } });
  if (!r.reserved)
    {
      n.attrs.push_back ({ "eventType", typeName (r.type) });
      n.attrs.push_back ({ r.condition ? "transition" : "actionType", string (trName (r.tr)) + (r.condition ? "s" : "") });
    }
  if (r.type == Event::SELECTION && r.condition && r.key != "")
    n.attrs.push_back ({ "key", r.key });
  if (!r.condition)
    {
      if (r.type == Event::ATTRIBUTION)
        n.attrs.push_back ({ "value", r.value });
      if (r.duration != "")
        n.attrs.push_back ({ "duration", r.duration });
      if (r.delay != "")
        n.attrs.push_back ({ "delay", r.delay });
    }
  return n;
}
static XNode
condNode (const Cond &c, pbt::Src *src)
{
  if (c.simple)
    return roleNode (c.role);
  XNode n = el ("compoundCondition", { { "operator", "and" } });
  vector<XNode> a, b;
  for (auto &k : c.kids)
    a.push_back (condNode (k, src));
  for (auto &s : c.stmts)
    b.push_back (stmtNode (s));
  weave (n.kids, { a, b }, src);
  return n;
}
static XNode
regionNode (const Region &r)
{
  XNode n = el ("region", { { "id", r.id } });
  for (auto &a : r.attrs)
    n.attrs.push_back (a);
  for (auto &k : r.kids)
    n.kids.push_back (regionNode (k));
  return n;
}
static XNode
portNode (const char *tag, const Port &p)
{
  XNode n = el (tag);
  if (p.id != "")
    n.attrs.push_back ({ "id", p.id });
  n.attrs.push_back ({ "component", p.comp });
  if (p.iface != "")
    n.attrs.push_back ({ "interface", p.iface });
  return n;
}
static XNode
nodeNode (const Node &o, const string &tag, pbt::Src *src)
{
  XNode n = el (tag);
  if (o.id != "")
    n.attrs.push_back ({ "id", o.id });
  for (auto &a : Attrs{ { "src", o.src }, { "type", o.type }, { "refer", o.refer }, { "descriptor", o.desc } })
    if (a.second != "")
      n.attrs.push_back (a);
  vector<vector<XNode> > ls (7);
  for (auto &p : o.props)
    {
      XNode x = el ("property", { { "name", p.first } });
      if (p.second != "")
        x.attrs.push_back ({ "value", p.second });
      ls[0].push_back (x);
    }
  for (auto &a : o.areas)
    {
      XNode x = el ("area", { { "id", a.id } });
      if (a.begin != "")
        x.attrs.push_back ({ "begin", a.begin });
      if (a.end != "")
        x.attrs.push_back ({ "end", a.end });
      if (a.label != "")
        x.attrs.push_back ({ "label", a.label });
      ls[1].push_back (x);
    }
  for (auto &p : o.ports)
    ls[2].push_back (portNode ("port", p));
  for (auto &k : o.kids)
    ls[3].push_back (nodeNode (k, k.kind == CTX ? "context" : k.kind == SWITCH ? "switch" : "media", src));
  for (auto &s : o.sports)
    {
      XNode x = el ("switchPort", { { "id", s.id } });
      for (auto &m : s.maps)
        x.kids.push_back (portNode ("mapping", m));
      ls[4].push_back (x);
    }
  for (auto &r : o.rules)
    ls[5].push_back (r.def ? el ("defaultComponent", { { "component", r.comp } })
                           : el ("bindRule", { { "constituent", r.comp }, { "rule", r.rule } }));
  for (auto &l : o.links)
    {
      XNode x = el ("link", { { "xconnector", l.conn } });
      vector<XNode> ps, bs;
      for (auto &p : l.params)
        ps.push_back (el ("linkParam", { { "name", p.first }, { "value", p.second } }));
      for (auto &b : l.binds)
        {
          XNode y = el ("bind", { { "role", b.role }, { "component", b.comp } });
          if (b.iface != "")
            y.attrs.push_back ({ "interface", b.iface });
          for (auto &p : b.params)
            y.kids.push_back (el ("bindParam", { { "name", p.first }, { "value", p.second } }));
          bs.push_back (y);
        }
      weave (x.kids, { ps, bs }, src);
      ls[6].push_back (x);
    }
  weave (n.kids, ls, src);
  return n;
}
XNode
toNode (const Doc &d, pbt::Src *src)
{
  XNode ncl = el ("ncl");
  if (d.nclId != "")
    ncl.attrs.push_back ({ "id", d.nclId });
  XNode head = el ("head");
  vector<vector<XNode> > bases;
  auto base = [&] (const char *tag, vector<XNode> kids) {
    if (kids.empty ())
      return;
    XNode b = el (tag);
    b.kids = kids;
    bases.push_back ({ b });
  };
  vector<XNode> v;
  for (auto &r : d.regions)
    v.push_back (regionNode (r));
  base ("regionBase", v);
  v.clear ();
  for (auto &x : d.descs)
    {
      XNode n = el ("descriptor", { { "id", x.id } });
      for (auto &a : x.attrs)
        n.attrs.push_back (a);
      for (auto &p : x.params)
        n.kids.push_back (el ("descriptorParam", { { "name", p.first }, { "value", p.second } }));
      v.push_back (n);
    }
  base ("descriptorBase", v);
  v.clear ();
  for (auto &x : d.trans)
    {
      XNode n = el ("transition", { { "id", x.id } });
      for (auto &a : x.attrs)
        n.attrs.push_back (a);
      v.push_back (n);
    }
  base ("transitionBase", v);
  v.clear ();
  for (auto &r : d.rules)
    v.push_back (ruleNode (r));
  base ("ruleBase", v);
  v.clear ();
  for (auto &k : d.conns)
    {
      XNode n = el ("causalConnector", { { "id", k.id } });
      n.kids.push_back (condNode (k.cond, src));
      if (k.acts.size () == 1)
        n.kids.push_back (roleNode (k.acts[0]));
      else
        {
          XNode ca = el ("compoundAction", { { "operator", "seq" } });
          for (auto &a : k.acts)
            ca.kids.push_back (roleNode (a));
          n.kids.push_back (ca);
        }
      v.push_back (n);
    }
  base ("connectorBase", v);
  weave (head.kids, bases, src);
  XNode body = nodeNode (d.body, "body", src);
  body.drop ("id");
  if (d.bodyId != "")
    body.attrs.insert (body.attrs.begin (), { "id", d.bodyId });
  ncl.kids = { head, body };
  return ncl;
}

// Denotation -------------------------------------------------------------------

namespace {
struct Fail { string why; };
struct Comp {
  const Doc &d;
  string dir;
  mdl::Model &m;
  map<string, Obj *> byElem;
  std::set<string> everywhere;   // ids that resolve from any scope
  map<const Node *, Obj *> objOf;
  map<string, std::pair<Obj *, const Port *> > ports;
  map<string, const Desc *> descs;
  map<string, Attrs> descAttrs;
  map<string, PredP> rules;
  map<string, const Conn *> conns;

  Comp (const Doc &dd, const string &di, mdl::Model &mm) : d (dd), dir (di), m (mm) {}

  void create (const Node &n, Obj *self)
  {
    objOf[&n] = self;
    for (auto &k : n.kids)
      {
        if (k.refer != "")
          continue;
        if (k.kind == SETTINGS)
          {
            byElem[k.id] = m.settings;
            everywhere.insert (k.id);
            objOf[&k] = m.settings;
            continue;
          }
        Obj *o = m.newObj (k.kind, k.id);
        o->parent = self;
        self->kids.push_back (o);
        byElem[k.id] = o;
        create (k, o);
      }
  }
  static T time (const string &s)
  {
    int h, mi;
    float sec;
    if (sscanf (s.c_str (), "%d:%d:%f", &h, &mi, &sec) == 3)
      return (T) ((h * 3600. + mi * 60. + sec) * (double) SEC);
    return mdl::Model::ptime (s);
  }
  void fill (const Node &n, Obj *o)
  {
    Obj *scope = o;
    if (n.kind == MEDIA && n.refer == "")
      {
        m.setProp (o, "uri", n.src == "" ? "" : "file://" + dir + "/" + n.src, 0);
        m.setProp (o, "type", n.type, 0);
      }
    for (auto &p : n.props)
      {
        m.addEv (o, Event::ATTRIBUTION, p.first);
        if (p.second != "")
          m.setProp (o, p.first, p.second, 0);
      }
    for (auto &a : n.areas)
      {
        Ev *e = m.addEv (o, Event::PRESENTATION, a.id);
        e->label = a.label;
        if (a.label == "")
          {
            e->begin = a.begin == "" ? 0 : time (a.begin);
            e->end = a.end == "" ? NONE : time (a.end);
          }
      }
    for (auto &k : n.kids)
      {
        Obj *ko = objOf[&k];
        if (k.refer != "" || k.kind == SETTINGS)
          ko->aliases.push_back ({ k.id, scope });
        fill (k, ko);
      }
    for (auto &p : n.ports)
      ports[p.id] = { o, &p };
  }
  Obj *comp (Obj *scope, const string &c)
  {
    auto it = byElem.find (c);
    if (it == byElem.end ())
      throw Fail{ "component " + c };
    Obj *o = it->second;
    if (o == scope || o->parent == scope || everywhere.count (c))
      return o;
    throw Fail{ "component " + c + " out of scope" };
  }
  Ev *iface (Obj *scope, const string &c, const string &i)
  {
    Obj *o = comp (scope, c);
    if (i == "")
      return o->lambda;
    Ev *e = nullptr;
    if (o->isMedia ())
      {
        if (!(e = o->find (Event::PRESENTATION, i)))
          e = o->find (Event::ATTRIBUTION, i);
      }
    else if (o->kind == SWITCH)
      e = o->find (Event::PRESENTATION, i);
    else
      {
        auto p = ports.find (i);
        if (o != scope && p != ports.end ())
          {
            if (p->second.first != o)
              throw Fail{ "port " + i };
            return iface (o, p->second.second->comp, p->second.second->iface);
          }
        e = o->find (Event::ATTRIBUTION, i);
      }
    if (!e)
      throw Fail{ "interface " + c + "." + i };
    return e;
  }
  static PredP mk (Predicate::Type t)
  {
    PredP p = std::make_shared<Pred> ();
    p->type = t;
    return p;
  }
  PredP rule (const Rule &r)
  {
    PredP p;
    if (!r.comp)
      {
        p = mk (Predicate::ATOM);
        p->left = "$__settings__." + r.var;
        p->test = r.test;
        p->right = r.value;
      }
    else
      {
        p = mk (r.op);
        for (auto &k : r.kids)
          p->kids.push_back (rule (k));
        if (r.kids.empty ())
          p = mk (Predicate::FALSUM);
      }
    rules[r.id] = p;
    return p;
  }
  PredP stmt (const Stmt &s, const map<string, string> &tests)
  {
    PredP p;
    if (s.atom)
      {
        p = mk (Predicate::ATOM);
        p->test = s.test;
        auto val = [&] (const Operand &o) {
          string k = o.role ? o.s : o.s != "" && o.s[0] == '$' ? o.s.substr (1) : "";
          if (k == "" && !o.role)
            return o.s;
          auto it = tests.find (k);
          return it != tests.end () ? it->second : "$" + k;
        };
        p->left = val (s.l);
        p->right = val (s.r);
        return p;
      }
    p = mk (s.op);
    for (auto &k : s.kids)
      p->kids.push_back (stmt (k, tests));
    if (s.negated)
      {
        PredP q = mk (Predicate::NEGATION);
        q->kids.push_back (p);
        return q;
      }
    return p;
  }
  typedef vector<const Stmt *> Path;
  void collect (const Cond &c, Path path, vector<std::pair<const Role *, Path> > &out, vector<string> &tests)
  {
    if (c.simple)
      {
        out.push_back ({ &c.role, path });
        return;
      }
    for (auto &s : c.stmts)
      {
        path.push_back (&s);
        testsOf (s, tests);
      }
    for (auto &k : c.kids)
      collect (k, path, out, tests);
  }
  void testsOf (const Stmt &s, vector<string> &tests)
  {
    if (s.atom)
      {
        for (auto o : { &s.l, &s.r })
          if (o->role)
            tests.push_back (o->s);
      }
    for (auto &k : s.kids)
      testsOf (k, tests);
  }
  static const string *get (const Attrs &a, const string &n)
  {
    const string *r = nullptr;
    for (auto &p : a)
      if (p.first == n)
        r = &p.second;
    return r;
  }
  string param (const string &ref, const Attrs &bp, const Attrs &lp, const map<string, string> &ghosts)
  {
    if (ref == "" || ref[0] != '$')
      return ref;
    const string *v = get (bp, ref.substr (1));
    if (!v)
      v = get (lp, ref.substr (1));
    if (!v)
      return "";
    if (*v == "" || (*v)[0] != '$')
      return *v;
    auto g = ghosts.find (v->substr (1));
    return g == ghosts.end () ? *v : g->second;
  }
  void link (const Link_ &l, Obj *ctx)
  {
    auto k = conns.find (l.conn);
    if (k == conns.end ())
      throw Fail{ "connector " + l.conn };
    vector<std::pair<const Role *, Path> > roles;
    vector<string> tests;
    collect (k->second->cond, {}, roles, tests);
    for (auto &a : k->second->acts)
      roles.push_back ({ &a, {} });
    map<string, string> testMap, ghosts;
    Attrs testParams;
    auto roleOf = [&] (const string &r) -> std::pair<const Role *, Path> * {
      for (auto &x : roles)
        if (x.first->role == r)
          return &x;
      return nullptr;
    };
    for (auto &b : l.binds)
      {
        if (roleOf (b.role))
          continue;
        bool isTest = std::find (tests.begin (), tests.end (), b.role) != tests.end ();
        Ev *e = iface (ctx, b.comp, b.iface);
        (isTest ? testMap : ghosts)[b.role] = "$" + e->full ();
        if (isTest)
          for (auto &p : b.params)
            testParams.push_back (p);
      }
    for (auto &p : testParams)
      testMap.insert (p);
    mdl::Link out;
    for (auto &b : l.binds)
      {
        auto r = roleOf (b.role);
        if (!r)
          continue;
        const Role &ro = *r->first;
        Ev *e = iface (ctx, b.comp, b.iface);
        Act a;
        a.tr = ro.tr;
        switch (ro.type)
          {
          case Event::ATTRIBUTION:
            a.value = param (ro.value, b.params, l.params, ghosts);
          case Event::PRESENTATION:
            if (e->type != ro.type)
              throw Fail{ "event type of role " + ro.role };
            a.ev = e;
            break;
          case Event::SELECTION:
            a.value = param (ro.key, b.params, l.params, ghosts);
            a.ev = m.addEv (e->obj, Event::SELECTION, a.value);
            a.ev->key = a.value;
            break;
          default:
            a.ev = m.addEv (e->obj, Event::LOOKAT, e->id);
          }
        a.duration = param (ro.duration, b.params, l.params, ghosts);
        a.delay = param (ro.delay, b.params, l.params, ghosts);
        if (ro.condition && r->second.size ())
          {
            PredP p = mk (Predicate::CONJUNCTION);
            for (auto s : r->second)
              p->kids.push_back (stmt (*s, testMap));
            a.pred = p;
          }
        (ro.condition ? out.conds : out.acts).push_back (a);
      }
    ctx->links.push_back (out);
  }
  void walk (const Node &n, const std::function<void (const Node &)> &f)
  {
    f (n);
    for (auto &k : n.kids)
      walk (k, f);
  }
  struct R { int x, y, w, h; };
  static int pct (const string &s, int base)
  {
    double v = atof (s.c_str ());
    if (s.size () && s.back () == '%')
      v = v / 100. * base;
    v = v < 0 ? 0 : v;
    return (int) std::lround (v);
  }
  int W = 800, H = 600, zo = 0;
  map<string, Attrs> regions;
  void region (const Region &r, R par)
  {
    R x = par;
    const string *s;
    if ((s = get (r.attrs, "left")))
      x.x += pct (*s, par.w);
    if ((s = get (r.attrs, "top")))
      x.y += pct (*s, par.h);
    if ((s = get (r.attrs, "width")))
      x.w = pct (*s, par.w);
    if ((s = get (r.attrs, "height")))
      x.h = pct (*s, par.h);
    if ((s = get (r.attrs, "right")))
      x.x += par.w - x.w - pct (*s, par.w);
    if ((s = get (r.attrs, "bottom")))
      x.y += par.h - x.h - pct (*s, par.h);
    Attrs a = r.attrs;
    auto put = [&] (const char *n, int v, int of) {
      char b[40];
      snprintf (b, sizeof b, "%g%%", ((double) v / of) * 100.);
      for (auto &p : a)
        if (p.first == n)
          {
            p.second = b;
            return;
          }
      a.push_back ({ n, b });
    };
    put ("left", x.x, W);
    put ("top", x.y, H);
    put ("width", x.w, W);
    put ("height", x.h, H);
    // the sides are those of the screen
    if (get (r.attrs, "right"))
      put ("right", W - x.x - x.w, W);
    if (get (r.attrs, "bottom"))
      put ("bottom", H - x.y - x.h, H);
    a.push_back ({ "zOrder", "#" + std::to_string (zo++) });
    regions[r.id] = a;
    for (auto &k : r.kids)
      region (k, x);
  }
  void run ()
  {
    m.root = m.newObj (CTX, "__root__");
    if (d.nclId != "")
      m.root->aliases.push_back ({ d.nclId, nullptr });
    m.settings = m.newObj (SETTINGS, "__settings__");
    m.settings->parent = m.root;
    m.root->kids.push_back (m.settings);
    m.settings->props["type"] = "application/x-ginga-settings";
    m.addEv (m.settings, Event::ATTRIBUTION, "service.currentFocus");
    if (d.bodyId != "")
      m.root->aliases.push_back ({ d.bodyId, nullptr }), byElem[d.bodyId] = m.root;
    if (d.nclId != "")
      byElem[d.nclId] = m.root;
    create (d.body, m.root);
    walk (d.body, [&] (const Node &n) {
      if (n.refer == "")
        return;
      auto it = byElem.find (n.refer);
      if (it == byElem.end () || !it->second->isMedia ())
        throw Fail{ "refer " + n.refer };
      objOf[&n] = it->second;
    });
    walk (d.body, [&] (const Node &n) {
      if (n.refer != "")
        {
          byElem[n.id] = objOf[&n];
          everywhere.insert (n.id);
          everywhere.insert (n.refer);
        }
    });
    fill (d.body, m.root);
    // Descriptors.
    for (auto &r : d.regions)
      region (r, { 0, 0, W, H });
    map<string, string> trans;
    for (auto &t : d.trans)
      {
        auto g = [&] (const char *n, const char *def) {
          const string *s = get (t.attrs, n);
          return s ? *s : string (def);
        };
        trans[t.id] = "{type='" + g ("type", "") + "',subtype='" + g ("subtype", "") + "',dur='" + g ("dur", "0")
                      + "',startProgress='" + g ("startProgress", "0") + "',endProgress='" + g ("endProgress", "0")
                      + "',direction='" + g ("direction", "forward") + "',fadeColor='" + g ("fadeColor", "")
                      + "',horzRepeat='" + g ("horzRepeat", "0") + "',vertRepeat='" + g ("vertRepeat", "0")
                      + "',borderWidth='" + g ("borderWidth", "0") + "',borderColor='" + g ("borderColor", "") + "'}";
      }
    map<string, map<string, string> > dattr;
    for (auto &x : d.descs)
      {
        map<string, string> a;
        for (auto &p : x.attrs)
          a[p.first] = p.second;
        for (auto &p : x.params)
          a[p.first] = p.second;
        auto it = a.find ("region");
        if (it != a.end ())
          {
            auto r = regions.find (it->second);
            if (r == regions.end ())
              throw Fail{ "region " + it->second };
            for (auto &p : r->second)
              a[p.first] = p.second;
            a.erase ("region");
          }
        for (const char *t : { "transIn", "transOut" })
          if (a.count (t))
            {
              if (!trans.count (a[t]))
                throw Fail{ "transition " + a[t] };
              a[t] = trans[a[t]];
            }
        dattr[x.id] = a;
      }
    walk (d.body, [&] (const Node &n) {
      if (n.desc == "")
        return;
      if (!dattr.count (n.desc))
        throw Fail{ "descriptor " + n.desc };
      Obj *o = objOf[&n];
      for (auto &p : dattr[n.desc])
        if (!o->find (Event::ATTRIBUTION, p.first))
          {
            m.addEv (o, Event::ATTRIBUTION, p.first);
            m.setProp (o, p.first, p.second, 0);
          }
    });
    for (auto &r : d.rules)
      rule (r);
    for (auto &k : d.conns)
      conns[k.id] = &k;
    // Switch ports must exist before any interface is resolved.
    walk (d.body, [&] (const Node &n) {
      for (auto &s : n.sports)
        m.addEv (objOf[&n], Event::PRESENTATION, s.id);
    });
    walk (d.body, [&] (const Node &n) {
      Obj *o = objOf[&n];
      for (auto &p : n.ports)
        {
          Ev *e = iface (o, p.comp, p.iface);
          if (std::find (o->ports.begin (), o->ports.end (), e) == o->ports.end ())
            o->ports.push_back (e);
        }
      for (auto &s : n.sports)
        {
          auto &v = o->sports[s.id];
          for (auto &mp : s.maps)
            {
              Ev *e = iface (o, mp.comp, mp.iface);
              // Which of two interfaces of one object is meant is left open
              // (a port of a context may denote one of another component).
              for (auto x : v)
                if (x != e && x->obj == e->obj)
                  throw Fail{ "ambiguous mapping" };
              v.push_back (e);
            }
        }
      for (int pass = 0; pass < 2; pass++)
        for (auto &r : n.rules)
          if (r.def == (pass == 1))
            {
              PredP p = mk (Predicate::VERUM);
              if (!r.def)
                {
                  if (!rules.count (r.rule))
                    throw Fail{ "rule " + r.rule };
                  p = rules[r.rule];
                }
              o->rules.push_back ({ comp (o, r.comp), p });
            }
    });
    walk (d.body, [&] (const Node &n) {
      for (auto &l : n.links)
        link (l, objOf[&n]);
    });
  }
};
}

bool
compile (const Doc &d, const string &dir, mdl::Model *m, string *why)
{
  Comp c (d, dir, *m);
  try
    {
      c.run ();
    }
  catch (Fail &f)
    {
      *why = f.why;
      return false;
    }
  return true;
}
void
writeFiles (const Doc &d, const string &dir)
{
  std::function<void (const Node &)> w = [&] (const Node &n) {
    if (n.src.find ('/') != string::npos)
      mkdir ((dir + "/" + n.src.substr (0, n.src.find ('/'))).c_str (), 0755);
    if (n.src != "")
      std::ofstream (dir + "/" + n.src) << "-- " << n.id << "\n";
    for (auto &k : n.kids)
      w (k);
  };
  w (d.body);
}

// Generation -------------------------------------------------------------------

namespace {
typedef enum { FREE, NUM, TIME, BOOL, LEN, FOCUS, CURFOCUS, STR } PT;
PT
ptype (const string &p)
{
  if (p == "n")
    return NUM;
  if (p == "t" || p == "explicitDur" || p == "duration")
    return TIME;
  if (p == "visible" || p == "freeze")
    return BOOL;
  if (p == "left" || p == "top" || p == "width" || p == "height" || p == "transparency")
    return LEN;
  if (p == "focusIndex" || p.compare (0, 4, "move") == 0 || p == "service.currentFocus")
    return FOCUS;
  return FREE;
}
struct CompRef { string id; const Node *n; bool alias; };

struct Gen {
  pbt::Case &c;
  const Prof &p;
  Doc d;
  int ids = 0, budget;
  bool haveSettings = false;
  vector<Node *> medias; // non-refer

  Gen (pbt::Case &cc, const Prof &pp) : c (cc), p (pp) {}
  string id (const char *pre) { return pre + std::to_string (++ids); }
  bool pc (unsigned percent) { return percent && c.src.chance (percent, 100); }

  string value (PT t)
  {
    switch (t)
      {
      case NUM: return c.src.pick (vector<string>{ "1", "2", "10", "0" });
      case TIME: return c.src.pick (TIMES);
      case BOOL: return c.src.pick (vector<string>{ "true", "false" });
      case LEN: return c.src.pick (vector<string>{ "10", "0", "50", "10%", "33.3%", "100" });
      case FOCUS: return c.src.pick (vector<string>{ "1", "2", "3", "4", "10" });
      default: return c.src.pick (vector<string>{ "1", "2", "x", "10", "y z" });
      }
  }
  void genProps (Node &n)
  {
    vector<string> names;
    if (n.kind == CTX)
      names = { "a", "b", "t", "n" };
    else if (n.kind == SETTINGS)
      names = { "a", "b", "t", "n", "u", "v" };
    else
      names = { "a", "b", "t", "n", "visible", "left", "transparency", "zIndex" };
    for (auto &x : names)
      if (pc (x == "zIndex" ? p.props / 4 : p.props))
        {
          bool empty = pc (15) && (ptype (x) == FREE);
          n.props.push_back ({ x, empty ? "" : x == "zIndex" ? value (NUM) : value (ptype (x)) });
        }
    if (n.kind == MEDIA)
      {
        if (pc (p.dur))
          n.props.push_back ({ c.src.chance (1, 4) ? "duration" : "explicitDur", value (TIME) });
        if (pc (p.focus))
          {
            n.props.push_back ({ "focusIndex", value (FOCUS) });
            for (const char *mv : { "moveUp", "moveDown", "moveLeft", "moveRight" })
              if (pc (p.moves))
                n.props.push_back ({ mv, value (FOCUS) });
          }
      }
    if (n.kind == SETTINGS && pc (p.focus))
      n.props.push_back ({ "service.currentFocus", value (FOCUS) });
  }
  void genAreas (Node &n)
  {
    int k = 0;
    while (k < 3 && pc (p.area))
      {
        k++;
        Area a;
        a.id = id ("a");
        if (pc (p.label))
          {
            a.label = c.src.pick (vector<string>{ "L1", "L2", "L3" });
            for (auto &o : n.areas)
              if (o.label == a.label)
                a.label = "L" + a.id;
          }
        else
          {
            switch (c.src.draw (4))
              {
              case 0:
                a.begin = c.src.pick (TIMES);
                break;
              case 1:
                a.end = c.src.pick (TIMES);
                break;
              case 2:
                {
                  a.begin = c.src.pick (TIMES);
                  a.end = c.src.pick (TIMES);
                  if (Comp::time (a.begin) > Comp::time (a.end))
                    std::swap (a.begin, a.end);
                  break;
                }
              default:
                break;
              }
            if (a.end != "" && Comp::time (a.begin == "" ? "0s" : a.begin) >= Comp::time (a.end))
              a.end = "";
          }
        n.areas.push_back (a);
      }
  }
  void genKids (Node &n, int depth)
  {
    int k = 1 + (int) c.src.draw (4);
    if (n.kind == SWITCH)
      k = 1 + (int) c.src.draw (3);
    else if (depth == 0)
      k += (int) c.src.draw (4);
    for (int i = 0; i < k && budget > 0; i++)
      {
        budget--;
        bool deep = depth < p.depth;
        size_t w = c.src.weighted ({ p.wMedia, deep ? p.wCtx : 0, deep ? p.wSwitch : 0,
                                     n.kind == CTX ? p.wRefer : 0,
                                     n.kind == CTX && !haveSettings ? p.wSettings : 0 });
        Node o;
        switch (w)
          {
          case 0:
            o.kind = MEDIA;
            o.id = id ("m");
            if (pc (p.lua))
              {
                o.src = (pc (p.dirs) ? o.id + "d/" : "") + o.id + ".lua";
                if (pc (30))
                  o.type = "application/x-ginga-NCLua";
              }
            if (pc (p.remote))
              {
                if (pc (60))
                  {
                    o.type = "application/x-ncl360";
                    if (pc (50))
                      o.src = o.id + ".ncl360", o.type = pc (50) ? o.type : "";
                    else if (o.src != "")
                      o.src = "";
                  }
                if (o.type == "" || o.src == "" || pc (50))
                  o.props.push_back ({ "device", c.src.pick (vector<string>{ "hmd", "tv2", "hmd" }) });
              }
            genProps (o);
            genAreas (o);
            break;
          case 1:
            o.kind = CTX;
            o.id = id ("c");
            genProps (o);
            genKids (o, depth + 1);
            break;
          case 2:
            o.kind = SWITCH;
            o.id = id ("s");
            genKids (o, depth + 1);
            break;
          case 3:
            o.kind = MEDIA;
            o.id = id ("r");
            o.refer = "?";
            break;
          default:
            o.kind = SETTINGS;
            o.id = id ("z");
            o.type = pc (50) ? "application/x-ginga-settings" : "application/x-ncl-settings";
            haveSettings = true;
            genProps (o);
            break;
          }
        n.kids.push_back (o);
      }
  }
  // Every context, of which the body has one at least, has a media and most a reference.
  void keepAwake (Node &n, bool root)
  {
    auto has = [&] (bool ref) {
      return std::any_of (n.kids.begin (), n.kids.end (), [&] (const Node &k) { return k.kind == MEDIA && (k.refer != "") == ref; });
    };
    auto more = [&] (Node k) { n.kids.insert (n.kids.begin () + c.src.draw (n.kids.size () + 1), k); };
    for (auto &k : n.kids)
      if (k.kind == CTX)
        keepAwake (k, false);
    if (root && std::none_of (n.kids.begin (), n.kids.end (), [] (const Node &k) { return k.kind == CTX; }))
      {
        Node x;
        x.kind = CTX;
        x.id = id ("c");
        keepAwake (x, false);
        more (x);
      }
    if (!has (false))
      {
        Node x;
        x.kind = MEDIA;
        x.id = id ("m");
        genProps (x);
        more (x);
      }
    if (!has (true) && pc (60))
      {
        Node x;
        x.kind = MEDIA;
        x.id = id ("r");
        x.refer = "?";
        more (x);
      }
  }
  void collect (Node &n)
  {
    for (auto &k : n.kids)
      {
        if ((k.kind == MEDIA || k.kind == SETTINGS) && k.refer == "")
          medias.push_back (&k);
        collect (k);
      }
  }
  void refers (Node &n)
  {
    for (size_t i = 0; i < n.kids.size (); i++)
      {
        Node &k = n.kids[i];
        if (k.refer == "?")
          {
            if (medias.empty ())
              {
                n.kids.erase (n.kids.begin () + (long) i--);
                continue;
              }
            vector<Node *> cand = medias;
            if (pc (p.alias + p.alias / 2)) // of other contexts
              {
                cand.clear ();
                for (auto m : medias)
                  if (std::none_of (n.kids.begin (), n.kids.end (), [&] (const Node &z) { return z.id == m->id; }))
                    cand.push_back (m);
                if (cand.empty ())
                  cand = medias;
              }
            Node *t = cand[c.src.draw (cand.size ())];
            k.refer = t->id;
            if (pc (30) && t->kind == MEDIA)
              k.props.push_back ({ c.src.pick (vector<string>{ "a", "b" }), value (NUM) });
          }
        refers (k);
      }
  }
  const Node *target (const Node *n)
  {
    if (n->refer != "")
      for (auto m : medias)
        if (m->id == n->refer)
          return m;
    return n;
  }
  struct Pr { string comp, iface; PT t; bool lua; string port; };
  map<string, Pr> propPort; // the property that a port denotes
  // An interface of component N seen from its parent, that denotes a
  // presentation event.
  string presIface (const Node *n, unsigned percent)
  {
    const Node *t = target (n);
    vector<string> v;
    if (t->kind == MEDIA)
      {
        for (auto &a : t->areas)
          v.push_back (a.id);
      }
    else if (t->kind == CTX)
      {
        for (auto &q : t->ports)
          if (!propPort.count (q.id))
            v.push_back (q.id);
      }
    else if (t->kind == SWITCH)
      {
        for (auto &s : t->sports)
          v.push_back (s.id);
      }
    if (v.empty () || !pc (percent))
      return "";
    return c.src.pick (v);
  }
  void genPorts (Node &n, bool root)
  {
    for (auto &k : n.kids)
      if (k.kind == CTX || k.kind == SWITCH)
        genPorts (k, false);
    if (n.kind == CTX)
      {
        for (auto &k : n.kids)
          if (pc (k.refer != "" || k.kind == SETTINGS ? p.port / 2 : p.port))
            n.ports.push_back ({ id ("p"), k.id, presIface (&k, p.portIface) });
        for (auto &k : n.kids) // ports that map properties
          if (pc (p.portProp))
            {
              const Node *t = target (&k);
              vector<Pr> v;
              if (t->kind != SWITCH)
                for (auto &q : t->props)
                  if (q.first != "zIndex")
                    v.push_back ({ k.id, q.first, ptype (q.first), t->src != "", "" });
              if (t->kind == CTX)
                for (auto &q : t->ports)
                  if (propPort.count (q.id))
                    v.push_back ({ k.id, q.id, propPort[q.id].t, propPort[q.id].lua, "" });
              if (v.empty ())
                continue;
              Pr pr = c.src.pick (v);
              string i = id ("p");
              propPort[i] = pr;
              n.ports.insert (n.ports.begin () + c.src.draw (n.ports.size () + 1), { i, pr.comp, pr.iface });
            }
        if (root && n.ports.empty () && n.kids.size ())
          n.ports.push_back ({ id ("p"), n.kids[0].id, "" });
      }
    else
      {
        vector<const Node *> cand;
        for (auto &k : n.kids)
          cand.push_back (&k);
        int k = (int) c.src.draw (3);
        for (int i = 0; i < k; i++)
          {
            SPort s;
            s.id = id ("q");
            for (auto x : cand)
              if (pc (70))
                s.maps.push_back ({ "", x->id, presIface (x, 50) });
            n.sports.push_back (s);
          }
        for (auto x : cand)
          {
            if (d.rules.size () && pc (75))
              n.rules.push_back ({ false, x->id, d.rules[c.src.draw (d.rules.size ())].id });
            if (pc (10) && d.rules.size ())
              n.rules.push_back ({ false, x->id, d.rules[c.src.draw (d.rules.size ())].id });
          }
        // Rule order is not child order.
        for (size_t i = n.rules.size (); i > 1; i--)
          std::swap (n.rules[i - 1], n.rules[c.src.draw (i)]);
        if (pc (p.defaultComp) && cand.size ())
          n.rules.push_back ({ true, cand[c.src.draw (cand.size ())]->id, "" });
      }
  }
  Predicate::Test test () { return (Predicate::Test) c.src.draw (6); }
  Rule genRule (int depth)
  {
    Rule r;
    r.id = id ("u");
    if (depth < 2 && pc (35))
      {
        r.comp = true;
        r.op = c.src.pick (vector<Predicate::Type>{ Predicate::CONJUNCTION, Predicate::DISJUNCTION, Predicate::NEGATION });
        int k = r.op == Predicate::NEGATION ? 1 : 1 + (int) c.src.draw (3);
        for (int i = 0; i < k; i++)
          r.kids.push_back (genRule (depth + 1));
      }
    else
      {
        r.var = c.src.pick (vector<string>{ "a", "b", "n", "u", "v" });
        r.test = test ();
        r.value = value (FREE);
      }
    return r;
  }
  // Links
  vector<CompRef> scope (const Node &n)
  {
    vector<CompRef> v;
    for (auto &k : n.kids)
      v.push_back ({ k.id, target (&k), k.refer != "" || k.kind == SETTINGS });
    return v;
  }
  string selfId (const Node &n, bool root) { return root ? d.bodyId : n.id; }

  vector<Pr> propIfaces (const Node &n, bool root)
  {
    vector<Pr> v;
    auto add = [&] (const string &cid, const Node *t) {
      for (auto &q : t->props)
        v.push_back ({ cid, q.first, ptype (q.first), t->src != "", "" });
      if (t->kind == CTX && t != &n)
        for (auto &q : t->ports)
          if (propPort.count (q.id))
            v.push_back ({ cid, q.id, propPort[q.id].t, propPort[q.id].lua, q.id });
      if (t->kind == SETTINGS && p.focus > 20)
        {
          bool has = false;
          for (auto &q : t->props)
            has = has || q.first == "service.currentFocus";
          if (!has)
            v.push_back ({ cid, "service.currentFocus", FOCUS, false, "" });
        }
    };
    for (auto &k : scope (n))
      if (k.n->kind != SWITCH)
        add (k.id, k.n);
    if (selfId (n, root) != "")
      add (selfId (n, root), &n);
    for (auto it = v.begin (); it != v.end ();)
      if (it->iface == "zIndex")
        it = v.erase (it);
      else
        ++it;
    return v;
  }
  bool bindTo (const Node &n, bool root, Event::Type t, Bind &b, Pr *pr, bool action)
  {
    auto sc = scope (n);
    switch (t)
      {
      case Event::PRESENTATION:
        {
          if (selfId (n, root) != "" && pc (root ? (action ? 3 : 8) : 10))
            {
              b.comp = selfId (n, root);
              return true;
            }
          if (sc.empty ())
            return false;
          if (pc (p.alias))
            {
              vector<CompRef> al;
              for (auto &k : sc)
                if (k.alias)
                  al.push_back (k);
              if (al.size ())
                sc = al;
            }
          auto &k = c.src.pick (sc);
          b.comp = k.id;
          b.iface = presIface (k.n, 40);
          return true;
        }
      case Event::ATTRIBUTION:
        {
          auto v = propIfaces (n, root);
          if (v.empty ())
            return false;
          if (!action && pc (p.curFocus))
            {
              vector<Pr> w;
              for (auto &x : v)
                if (x.iface == "service.currentFocus")
                  w.push_back (x);
              if (w.size ())
                v = w;
            }
          *pr = c.src.pick (v);
          b.comp = pr->comp;
          b.iface = pr->iface;
          return true;
        }
      default:
        {
          vector<CompRef> m;
          bool any = t == Event::SELECTION && p.wSwitch > 5 && pc (25); // compositions refuse it
          for (auto &k : sc)
            if (k.n->kind == MEDIA || (k.n->kind == SETTINGS && t == Event::SELECTION) || any)
              m.push_back (k);
          if (m.empty ())
            return false;
          auto &k = c.src.pick (m);
          b.comp = k.id;
          if (t == Event::LOOKAT)
            b.iface = presIface (k.n, 30);
          return true;
        }
      }
  }
  Role genRole (bool cond, int i)
  {
    Role r;
    r.condition = cond;
    unsigned look = cond ? p.wLook : (p.wLook ? 1 : 0), sel = cond ? p.wSel : (p.wSel ? 1 : 0);
    r.type = vector<Event::Type>{ Event::PRESENTATION, Event::ATTRIBUTION, Event::SELECTION,
                                  Event::LOOKAT }[c.src.weighted ({ p.wPres, p.wAttr, sel, look })];
    r.tr = Event::START;
    if (r.type == Event::PRESENTATION)
      {
        if (pc (p.abortPause))
          r.tr = c.src.pick (vector<Event::Transition>{ Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT, Event::START });
        else
          r.tr = pc (35) ? Event::STOP : Event::START;
      }
    else if (pc (r.type == Event::ATTRIBUTION && !cond ? 5 : 30))
      r.tr = pc (20) ? Event::ABORT : Event::STOP;
    r.reserved = true;
    static const map<std::pair<int, int>, std::pair<string, string> > names = {
      { { Event::PRESENTATION, Event::START }, { "onBegin", "start" } },
      { { Event::PRESENTATION, Event::STOP }, { "onEnd", "stop" } },
      { { Event::PRESENTATION, Event::ABORT }, { "onAbort", "abort" } },
      { { Event::PRESENTATION, Event::PAUSE }, { "onPause", "pause" } },
      { { Event::PRESENTATION, Event::RESUME }, { "onResume", "resume" } },
      { { Event::ATTRIBUTION, Event::START }, { "onBeginAttribution", "set" } },
      { { Event::ATTRIBUTION, Event::STOP }, { "onEndAttribution", "" } },
      { { Event::SELECTION, Event::START }, { "onSelection", "" } },
      { { Event::SELECTION, Event::STOP }, { "onEndSelection", "" } },
      { { Event::LOOKAT, Event::START }, { "onLookAt", "" } },
      { { Event::LOOKAT, Event::STOP }, { "onLookAway", "" } },
    };
    auto it = names.find ({ r.type, r.tr });
    string nm = it == names.end () ? "" : cond ? it->second.first : it->second.second;
    if (nm == "onSelection" && pc (30))
      nm = "onBeginSelection";
    if (nm == "" || pc (p.custom))
      {
        r.reserved = false;
        r.role = (cond ? "cond" : "act") + std::to_string (i);
      }
    else
      r.role = nm;
    return r;
  }
  // A value of type T, maybe through parameters; for a role's attribute.
  string viaParam (PT t, const string &konst, const Node &n, bool root, Link_ &l, Bind &b, int salt, bool allowRef)
  {
    // konst | $p with a bindParam/linkParam constant, ghost or reference.
    if (!pc (p.bindParam))
      return konst;
    string pn = "p" + std::to_string (salt);
    string v = konst;
    vector<Pr> same;
    for (auto &q : propIfaces (n, root))
      if (q.t == t)
        same.push_back (q);
    if (allowRef && same.size () && pc (60))
      {
        auto &q = c.src.pick (same);
        if (q.port != "" || pc (50)) // "$object.property" is no port
          {
            Bind g;
            g.role = "g" + std::to_string (salt);
            g.comp = q.comp;
            g.iface = q.iface;
            l.binds.push_back (g);
            v = "$" + g.role;
          }
        else
          v = "$" + q.comp + "." + q.iface;
      }
    if (pc (50))
      b.params.push_back ({ pn, v });
    else
      l.params.push_back ({ pn, v });
    if (pc (10)) // bindParam overrides linkParam
      {
        bool inBind = b.params.size () && b.params.back ().first == pn;
        if (inBind)
          l.params.push_back ({ pn, konst });
      }
    return "$" + pn;
  }
  Stmt genStmt (const Node &n, bool root, Link_ &l, int depth, int &salt)
  {
    Stmt s;
    auto props = propIfaces (n, root);
    if (depth < 2 && pc (30))
      {
        s.atom = false;
        s.op = c.src.pick (vector<Predicate::Type>{ Predicate::CONJUNCTION, Predicate::DISJUNCTION, Predicate::NEGATION });
        s.negated = pc (30);
        int k = s.op == Predicate::NEGATION ? 1 : 2 + (int) c.src.draw (2);
        for (int i = 0; i < k; i++)
          s.kids.push_back (genStmt (n, root, l, depth + 1, salt));
        return s;
      }
    s.test = test ();
    auto operand = [&] () {
      Operand o;
      if (props.size () && pc (60))
        {
          o.role = true;
          o.s = "q" + std::to_string (++salt);
          auto &q = c.src.pick (props);
          Bind b;
          b.role = o.s;
          b.comp = q.comp;
          b.iface = q.iface;
          l.binds.push_back (b);
        }
      else
        o.s = value (FREE);
      return o;
    };
    s.l = operand ();
    s.r = operand ();
    // A value given by a parameter of a test's bind.
    if (s.l.role && !s.r.role && pc (30))
      {
        string pn = "w" + std::to_string (++salt);
        for (auto &b : l.binds)
          if (b.role == s.l.s)
            b.params.push_back ({ pn, s.r.s });
        s.r.s = "$" + pn;
      }
    return s;
  }
  void shuffleBinds (Link_ &l)
  {
    for (size_t i = l.binds.size (); i > 1; i--)
      std::swap (l.binds[i - 1], l.binds[c.src.draw (i)]);
  }
  void genLink (Node &n, bool root)
  {
    Link_ l;
    Conn k;
    k.id = id ("k");
    l.conn = k.id;
    int salt = 0, nc = 1 + (int) c.src.draw ((uint64_t) p.maxConds), na = 1 + (int) c.src.draw ((uint64_t) p.maxActs);
    vector<Role> conds;
    std::set<string> used;
    auto attempt = [&] (bool cond, int i) {
      Role r = genRole (cond, i);
      if (!used.insert (r.role).second)
        {
          r.reserved = false;
          r.role = (cond ? "cond" : "act") + std::to_string (i);
          used.insert (r.role);
        }
      Bind b;
      Pr pr{ "", "", FREE, false, "" };
      if (!bindTo (n, root, r.type, b, &pr, !cond))
        {
          r.type = Event::PRESENTATION;
          r.reserved = false;
          r.role = (cond ? "condp" : "actp") + std::to_string (i);
          if (!bindTo (n, root, r.type, b, &pr, !cond))
            return false;
        }
      b.role = r.role;
      if (r.type == Event::SELECTION && cond)
        {
          r.key = c.src.pick (vector<string>{ "RED", "GREEN", "", "ENTER", "1", "CURSOR_UP" });
          if (r.key != "" && pc (p.bindParam / 2))
            r.key = viaParam (STR, r.key, n, root, l, b, ++salt, false);
          else if (pc (p.bindParam / 3))
            {
              // A parameter that nothing resolves: there is no key.
              r.key = "$nokey";
              if (pc (60))
                (pc (50) ? b.params : l.params).push_back ({ "nokey", "$nothing" });
            }
        }
      if (!cond)
        {
          if (r.type == Event::ATTRIBUTION)
            {
              string v = value (pr.t);
              r.value = viaParam (pr.t, v, n, root, l, b, ++salt, !pr.lua && pr.t != LEN && pr.t != BOOL && pr.t != FOCUS);
              if (r.tr == Event::START && pc (p.duration))
                r.duration = viaParam (TIME, c.src.pick (TIMES), n, root, l, b, ++salt, true);
            }
          if (pc (p.delay))
            r.delay = viaParam (TIME, c.src.pick (TIMES), n, root, l, b, ++salt, true);
        }
      l.binds.push_back (b);
      // The same role bound again.
      if (pc (15) && (r.type == Event::PRESENTATION))
        {
          Bind b2;
          Pr pr2{ "", "", FREE, false };
          if (bindTo (n, root, r.type, b2, &pr2, !cond))
            {
              b2.role = r.role;
              b2.params = b.params;
              l.binds.push_back (b2);
            }
        }
      if (cond)
        conds.push_back (r);
      else
        k.acts.push_back (r);
      return true;
    };
    for (int i = 0; i < nc; i++)
      attempt (true, i);
    for (int i = 0; i < na; i++)
      attempt (false, i);
    if (conds.empty () || k.acts.empty ())
      return;
    auto simple = [] (const Role &r) {
      Cond x;
      x.role = r;
      return x;
    };
    if (conds.size () == 1 && !pc (p.compoundCond) && !pc (p.pred))
      k.cond = simple (conds[0]);
    else
      {
        k.cond.simple = false;
        for (auto &r : conds)
          {
            if (pc (25))
              {
                Cond in;
                in.simple = false;
                in.kids.push_back (simple (r));
                if (pc (p.pred))
                  in.stmts.push_back (genStmt (n, root, l, 0, salt));
                k.cond.kids.push_back (in);
              }
            else
              k.cond.kids.push_back (simple (r));
          }
        while (pc (p.pred) && k.cond.stmts.size () < 2)
          k.cond.stmts.push_back (genStmt (n, root, l, 0, salt));
      }
    if (pc (60))
      shuffleBinds (l);
    d.conns.push_back (k);
    n.links.push_back (l);
  }
  // A link through an existing connector made of plain presentation roles.
  bool genSharedLink (Node &n, bool root)
  {
    vector<const Conn *> v;
    for (auto &k : d.conns)
      if (k.cond.simple && k.cond.role.type == Event::PRESENTATION)
        {
          bool ok = true;
          for (auto &a : k.acts)
            ok = ok && a.type == Event::PRESENTATION && (a.delay == "" || a.delay[0] != '$');
          if (ok)
            v.push_back (&k);
        }
    if (v.empty ())
      return false;
    const Conn *k = c.src.pick (v);
    Link_ l;
    l.conn = k->id;
    Pr pr{ "", "", FREE, false, "" };
    vector<const Role *> rs{ &k->cond.role };
    for (auto &a : k->acts)
      rs.push_back (&a);
    for (auto r : rs)
      {
        Bind b;
        if (!bindTo (n, root, r->type, b, &pr, !r->condition))
          return false;
        b.role = r->role;
        l.binds.push_back (b);
      }
    n.links.push_back (l);
    return true;
  }
  void genLinks (Node &root)
  {
    vector<std::pair<Node *, bool> > ctxs;
    std::function<void (Node &)> w = [&] (Node &n) {
      if (n.kind == CTX)
        ctxs.push_back ({ &n, &n == &root });
      for (auto &k : n.kids)
        w (k);
    };
    w (root);
    int k = p.links ? 1 + (int) c.src.draw ((uint64_t) p.links) : 0;
    for (int i = 0; i < k; i++)
      {
        auto x = c.src.chance (1, 2) ? ctxs[0] : c.src.pick (ctxs);
        if (pc (p.alias))
          {
            vector<std::pair<Node *, bool> > al;
            for (auto &y : ctxs)
              for (auto &k : y.first->kids)
                if (k.refer != "" && std::none_of (y.first->kids.begin (), y.first->kids.end (), [&] (const Node &z) { return z.id == k.refer; }))
                  {
                    al.push_back (y);
                    break;
                  }
            if (al.size ())
              x = c.src.pick (al);
          }
        if (!(pc (p.sharedConn) && genSharedLink (*x.first, x.second)))
          genLink (*x.first, x.second);
      }
  }
  Attrs box ()
  {
    Attrs a;
    for (const char *s : { "left", "top", "width", "height" })
      if (pc (65))
        a.push_back ({ s, c.src.pick (vector<string>{ "10%", "50%", "25%", "100", "0", "33.3%", "200", "100%" }) });
    for (const char *s : { "right", "bottom" })
      if (pc (20))
        a.push_back ({ s, c.src.pick (vector<string>{ "10%", "0", "20", "5%" }) });
    if (pc (30))
      a.push_back ({ "zIndex", value (NUM) });
    if (pc (10))
      a.push_back ({ "title", "t" });
    return a;
  }
  Region genRegion (int depth)
  {
    Region r;
    r.id = id ("rg");
    r.attrs = box ();
    while (depth < 3 && r.kids.size () < 2 && pc (35))
      r.kids.push_back (genRegion (depth + 1));
    return r;
  }
  void regionIds (const Region &r, vector<string> &v)
  {
    v.push_back (r.id);
    for (auto &k : r.kids)
      regionIds (k, v);
  }
  void genDescs ()
  {
    if (pc (p.regions))
      for (int i = 0, k = 1 + (int) c.src.draw (3); i < k; i++)
        d.regions.push_back (genRegion (0));
    if (pc (p.trans))
      for (int i = 0, k = 1 + (int) c.src.draw (2); i < k; i++)
        {
          Trans t;
          t.id = id ("tr");
          t.attrs.push_back ({ "type", c.src.pick (vector<string>{ "fade", "barWipe", "diagonalWipe" }) });
          if (pc (50))
            t.attrs.push_back ({ "subtype", c.src.pick (vector<string>{ "leftToRight", "topToBottom", "topLeft", "crossfade" }) });
          if (pc (80))
            t.attrs.push_back ({ "dur", c.src.pick (vector<string>{ "1s", "0.5s", "2s" }) });
          for (const char *s : { "startProgress", "endProgress" })
            if (pc (20))
              t.attrs.push_back ({ s, c.src.pick (vector<string>{ "0", "0.5", "1" }) });
          if (pc (20))
            t.attrs.push_back ({ "direction", c.src.pick (vector<string>{ "forward", "reverse" }) });
          for (const char *s : { "fadeColor", "borderColor" })
            if (pc (20))
              t.attrs.push_back ({ s, c.src.pick (vector<string>{ "red", "blue", "#0f0", "rgb(1,2,3)", "rgb(10%, 20%, 30%)" }) });
          for (const char *s : { "horzRepeat", "vertRepeat", "borderWidth" })
            if (pc (20))
              t.attrs.push_back ({ s, value (NUM) });
          d.trans.push_back (t);
        }
    vector<string> rids;
    for (auto &r : d.regions)
      regionIds (r, rids);
    if (pc (p.desc))
      for (int i = 0, k = 1 + (int) c.src.draw (3); i < k; i++)
        {
          Desc x;
          x.id = id ("d");
          if (rids.size () && pc (60))
            x.attrs.push_back ({ "region", c.src.pick (rids) });
          if (pc (40))
            x.attrs.push_back ({ "explicitDur", value (TIME) });
          for (const char *s : { "focusIndex", "moveUp", "moveLeft", "moveRight", "moveDown" })
            if (pc (p.focus / 2 + 5))
              x.attrs.push_back ({ s, value (FOCUS) });
          if (pc (15))
            x.attrs.push_back ({ "freeze", value (BOOL) });
          for (const char *s : { "left", "height" })
            if (pc (15))
              x.attrs.push_back ({ s, value (LEN) });
          for (const char *s : { "transIn", "transOut" })
            if (d.trans.size () && pc (30))
              x.attrs.push_back ({ s, d.trans[c.src.draw (d.trans.size ())].id });
          for (const char *s : { "a", "n", "visible", "transparency", "explicitDur", "top" })
            if (pc (20))
              x.params.push_back ({ s, value (ptype (s)) });
          d.descs.push_back (x);
        }
  }
  void useDescs (Node &n)
  {
    for (auto &k : n.kids)
      {
        if (k.kind == MEDIA && d.descs.size () && pc (60))
          k.desc = d.descs[c.src.draw (d.descs.size ())].id;
        useDescs (k);
      }
  }
  Doc run ()
  {
    budget = 1 + (int) c.src.draw ((uint64_t) (p.nodes > 1 ? p.nodes : 1));
    if (c.src.chance (1, 3))
      budget = std::max (budget, p.nodes * 3 / 4);
    d.nclId = pc (60) ? "ncl" : "";
    d.bodyId = pc (80) ? "body" : "";
    d.body.kind = CTX;
    genDescs ();
    for (int i = 0, k = 1 + (int) c.src.draw (4); i < k && p.wSwitch; i++)
      d.rules.push_back (genRule (0));
    genProps (d.body);
    genKids (d.body, 0);
    if (p.aliasCtx)
      keepAwake (d.body, true);
    if (p.mustSwitch && std::none_of (d.body.kids.begin (), d.body.kids.end (), [] (const Node &k) { return k.kind == SWITCH; }))
      {
        Node x;
        x.kind = SWITCH;
        x.id = id ("s");
        budget += 3;
        genKids (x, 1);
        d.body.kids.insert (d.body.kids.begin () + c.src.draw (d.body.kids.size () + 1), x);
      }
    collect (d.body);
    refers (d.body);
    medias.clear ();
    collect (d.body);
    useDescs (d.body);
    genPorts (d.body, true);
    genLinks (d.body);
    return d;
  }
};
}
Doc
gen (pbt::Case &c, const Prof &p)
{
  Gen g (c, p);
  return g.run ();
}
}
