// C14 (robustness of the parser), C15 (invalid documents are refused, and why),
// C17 (imported bases).
#include "lock.h"
#include "Player.h"
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
using namespace pbt;
using doc::Attrs;
using doc::Prof;
using doc::XNode;
using lock::Lock;
using std::pair;
typedef ginga::Document Document;
typedef ginga::Parser Parser;

namespace {
// The language ------------------------------------------------------------------

enum { REQ = 1, NONEMPTY = 2, NAME = 4, ID = 8 };
struct Spec {
  vector<string> parents;
  vector<pair<string, int> > attrs;
};
const int kId = REQ | NONEMPTY | NAME | ID, kOptId = NONEMPTY | NAME | ID, kRef = REQ | NONEMPTY | NAME, kOptRef = NONEMPTY | NAME;
const map<string, Spec> LANG = {
  { "ncl", { {}, { { "id", kOptId }, { "title", 0 }, { "schemaLocation", 0 }, { "xmlns", 0 } } } },
  { "head", { { "ncl" }, {} } },
  { "regionBase", { { "head" }, { { "id", kOptId }, { "device", 0 }, { "region", 0 } } } },
  { "region", { { "region", "regionBase" }, { { "id", kId }, { "title", 0 }, { "left", 0 }, { "right", 0 }, { "top", 0 }, { "bottom", 0 }, { "height", 0 }, { "width", 0 }, { "zIndex", 0 } } } },
  { "descriptorBase", { { "head" }, { { "id", kOptId } } } },
  { "descriptor", { { "descriptorBase" }, { { "id", kId }, { "player", 0 }, { "explicitDur", 0 }, { "region", kOptRef }, { "freeze", 0 }, { "moveLeft", 0 }, { "moveRight", 0 }, { "moveUp", 0 }, { "moveDown", 0 }, { "focusIndex", 0 }, { "focusBorderColor", 0 }, { "focusBorderWidth", 0 }, { "focusBorderTransparency", 0 }, { "focusSrc", 0 }, { "focusSelSrc", 0 }, { "selBorderColor", 0 }, { "transIn", 0 }, { "transOut", 0 }, { "left", 0 }, { "right", 0 }, { "top", 0 }, { "bottom", 0 }, { "height", 0 }, { "width", 0 }, { "zIndex", 0 } } } },
  { "descriptorParam", { { "descriptor" }, { { "name", kRef }, { "value", REQ } } } },
  { "connectorBase", { { "head" }, { { "id", kOptId } } } },
  { "causalConnector", { { "connectorBase" }, { { "id", kId } } } },
  { "connectorParam", { { "causalConnector" }, { { "name", kOptRef }, { "type", 0 } } } },
  { "compoundCondition", { { "causalConnector", "compoundCondition" }, { { "operator", 0 }, { "delay", 0 } } } },
  { "simpleCondition", { { "causalConnector", "compoundCondition" }, { { "role", kRef }, { "eventType", 0 }, { "key", 0 }, { "transition", 0 }, { "delay", 0 }, { "min", 0 }, { "max", 0 }, { "qualifier", 0 } } } },
  { "compoundAction", { { "causalConnector", "compoundAction" }, { { "operator", 0 }, { "delay", 0 } } } },
  { "simpleAction", { { "causalConnector", "compoundAction" }, { { "role", kRef }, { "eventType", 0 }, { "actionType", 0 }, { "duration", 0 }, { "value", 0 }, { "delay", 0 }, { "min", 0 }, { "max", 0 }, { "qualifier", 0 }, { "repeat", 0 }, { "repeatDelay", 0 }, { "by", 0 } } } },
  { "compoundStatement", { { "compoundCondition", "compoundStatement" }, { { "operator", REQ }, { "isNegated", 0 } } } },
  { "assessmentStatement", { { "compoundCondition", "compoundStatement" }, { { "comparator", REQ } } } },
  { "attributeAssessment", { { "assessmentStatement" }, { { "role", kRef }, { "eventType", 0 }, { "key", 0 }, { "attributeType", 0 }, { "offset", 0 } } } },
  { "valueAssessment", { { "assessmentStatement" }, { { "value", REQ } } } },
  { "ruleBase", { { "head" }, { { "id", kOptId } } } },
  { "compositeRule", { { "ruleBase", "compositeRule" }, { { "id", kId }, { "operator", REQ } } } },
  { "rule", { { "ruleBase", "compositeRule" }, { { "id", kId }, { "var", kRef }, { "comparator", REQ }, { "value", REQ } } } },
  { "transitionBase", { { "head" }, { { "id", kOptId } } } },
  { "transition", { { "transitionBase" }, { { "id", kId }, { "type", kRef }, { "subtype", kOptRef }, { "dur", 0 }, { "startProgress", 0 }, { "endProgress", 0 }, { "direction", 0 }, { "fadeColor", 0 }, { "horzRepeat", 0 }, { "vertRepeat", 0 }, { "borderWidth", 0 }, { "borderColor", 0 } } } },
  { "importBase", { { "connectorBase", "descriptorBase", "regionBase", "ruleBase", "transitionBase", "fontBase" }, { { "alias", kRef }, { "documentURI", REQ }, { "region", 0 }, { "baseId", 0 } } } },
  { "fontBase", { { "head" }, {} } },
  { "font", { { "fontBase" }, { { "fontFamily", REQ }, { "src", REQ }, { "fontStyle", 0 }, { "fontWeight", 0 } } } },
  { "body", { { "ncl" }, { { "id", kOptId } } } },
  { "context", { { "body", "context", "switch" }, { { "id", kId }, { "refer", kOptRef } } } },
  { "port", { { "body", "context" }, { { "id", kId }, { "component", kRef }, { "interface", kOptRef } } } },
  { "switch", { { "body", "context", "switch" }, { { "id", kId }, { "refer", kOptRef } } } },
  { "switchPort", { { "switch" }, { { "id", kId } } } },
  { "mapping", { { "switchPort" }, { { "component", kRef }, { "interface", kOptRef } } } },
  { "bindRule", { { "switch" }, { { "constituent", kRef }, { "rule", kRef } } } },
  { "defaultComponent", { { "switch" }, { { "component", kRef } } } },
  { "media", { { "body", "context", "switch" }, { { "id", kId }, { "src", 0 }, { "type", 0 }, { "descriptor", kOptRef }, { "refer", kOptRef }, { "instance", 0 } } } },
  { "area", { { "media" }, { { "id", kId }, { "begin", 0 }, { "end", 0 }, { "label", 0 } } } },
  { "property", { { "body", "context", "media" }, { { "name", kRef }, { "value", 0 } } } },
  { "link", { { "body", "context" }, { { "id", kOptId }, { "xconnector", kRef } } } },
  { "linkParam", { { "link" }, { { "name", kRef }, { "value", REQ } } } },
  { "bind", { { "link" }, { { "role", kRef }, { "component", kRef }, { "interface", kOptRef } } } },
  { "bindParam", { { "bind" }, { { "name", kRef }, { "value", REQ } } } },
};
const vector<string> &
tags ()
{
  static vector<string> v;
  if (v.empty ())
    for (auto &p : LANG)
      v.push_back (p.first);
  return v;
}
bool
allowed (const string &parent, const string &child)
{
  auto it = LANG.find (child);
  return it != LANG.end () && std::count (it->second.parents.begin (), it->second.parents.end (), parent);
}
XNode
el (const string &tag, Attrs a = {})
{
  XNode n;
  n.tag = tag;
  n.attrs = a;
  return n;
}
// All nodes, in document order, with the line each starts at.
struct Site {
  XNode *n, *parent;
  int line;
};
int
walk (XNode &n, XNode *parent, int line, vector<Site> &out)
{
  out.push_back ({ &n, parent, line });
  if (n.kids.empty ())
    return line + 1;
  line++;
  for (auto &k : n.kids)
    line = walk (k, &n, line, out);
  return line + 1;
}
vector<Site>
sites (XNode &root, int first = 1)
{
  vector<Site> v;
  walk (root, nullptr, first, v);
  return v;
}
void
richProf (Case &c, Prof &p)
{
  p.nodes = 2 + c.size * 8 / 100;
  p.depth = 3;
  p.links = 3;
  p.desc = 60;
  p.regions = 60;
  p.trans = 40;
  p.wRefer = 2;
  p.wSwitch = 2;
  p.pred = 40;
}

// C14 -----------------------------------------------------------------------------

string
value (Case &c, const vector<string> &pool)
{
  static const vector<string> ODD = {
    "", "0", "1", "-1", "x", "__root__", "__settings__", "__unamed-0__", "__unamed-1__", "@lambda", "$x", "$", "#", "a#b", "::",
    "50%", "100%", "-50%", "1e9%", "99999999999999999999", "-99999999999999999999", "2147483647", "-2147483648", "1e308", "nan", "inf", "-inf%", "2s", "-3s", "1e30s", "1:2:3", "::s",
    " ", "\t", "a b", "\xc3\xa9", "\xe2\x82\xac", "%s%n", "true", "FALSE", "and", "or", "not", "eq", "ne", "lte", "body", "media", "onBegin", "start", "set", "onSelection", "onEndAttribution",
    "presentation", "attribution", "selection", "lookat", "starts", "stops", "aborts", "application/x-ginga-settings", "application/x-ncl-settings", "application/x-ginga-NCLua", "image/png", "video/mp4",
    "http://", "http://[::1", "file:", "file:///", "//", "/", ".", "..", ":", "c:\\x", "streambuf://a", "streambuf:", "doc.ncl", "t", "{", "}", "{a='1'}", "barWipe", "fade", "service.currentFocus",
    "/usr/share/fonts/truetype/dejavu", "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype",
  };
  switch (c.src.weighted ({ 6, 6, 1 }))
    {
    case 0: return ODD[c.src.draw (ODD.size ())];
    case 1: return pool.empty () ? "" : pool[c.src.draw (pool.size ())];
    default: return string ((size_t) c.src.draw (3000), 'a');
    }
}
XNode
randomElt (Case &c, const string &tag, const vector<string> &pool, int depth)
{
  XNode n = el (tag);
  auto it = LANG.find (tag);
  if (it != LANG.end ())
    for (auto &a : it->second.attrs)
      if (a.second & REQ ? !c.src.chance (1, 40) : c.src.chance (1, 4))
        n.attrs.push_back ({ a.first, (a.second & ID) ? "u" + std::to_string (c.src.draw (12)) : value (c, pool) });
  vector<string> poss;
  for (auto &t : tags ())
    if (allowed (tag, t))
      poss.push_back (t);
  if (depth > 0 && poss.size ())
    for (int i = (int) c.src.draw (4); i > 0; i--)
      n.kids.push_back (randomElt (c, poss[c.src.draw (poss.size ())], pool, depth - 1));
  return n;
}
void
mutate (Case &c, XNode &root, const vector<string> &pool)
{
  auto v = sites (root);
  Site &s = v[c.src.draw (v.size ())];
  XNode &n = *s.n;
  auto attr = [&] () -> string * { return n.attrs.empty () ? nullptr : &n.attrs[c.src.draw (n.attrs.size ())].second; };
  auto known = [&] {
    auto it = LANG.find (n.tag);
    if (it == LANG.end () || it->second.attrs.empty () || c.src.chance (1, 6))
      return string (c.src.chance (1, 2) ? "id" : "interface");
    return it->second.attrs[c.src.draw (it->second.attrs.size ())].first;
  };
  switch (c.src.weighted ({ 8, 6, 6, 3, 3, 3, 3, 2, 3, 2 }))
    {
    case 0: // value of an attribute
      if (string *a = attr ())
        *a = value (c, pool);
      break;
    case 1: // another attribute
      {
        string name = known (), val = value (c, pool);
        if (string *a = n.attr (name))
          *a = val;
        else
          n.attrs.push_back ({ name, val });
        break;
      }
    case 2: // one less
      if (n.attrs.size ())
        n.attrs.erase (n.attrs.begin () + c.src.draw (n.attrs.size ()));
      break;
    case 3: // duplicate
      if (s.parent)
        {
          XNode copy = n;
          if (copy.attr ("id") && c.src.chance (3, 4))
            *copy.attr ("id") += "'" + std::to_string (c.src.draw (9));
          if (auto i = copy.attr ("id"))
            std::replace (i->begin (), i->end (), '\'', '_');
          s.parent->kids.push_back (copy);
        }
      break;
    case 4: // delete
      if (s.parent)
        for (size_t i = 0; i < s.parent->kids.size (); i++)
          if (&s.parent->kids[i] == s.n)
            {
              s.parent->kids.erase (s.parent->kids.begin () + i);
              break;
            }
      break;
    case 5: // move
      if (s.parent)
        {
          XNode copy = n;
          XNode *from = s.parent;
          size_t at = 0;
          while (&from->kids[at] != s.n)
            at++;
          from->kids.erase (from->kids.begin () + at);
          auto w = sites (root);
          XNode *to = w[c.src.draw (w.size ())].n;
          to->kids.insert (to->kids.begin () + c.src.draw (to->kids.size () + 1), copy);
        }
      break;
    case 6: // new element that may occur there
      {
        vector<string> poss;
        for (auto &t : tags ())
          if (allowed (n.tag, t))
            poss.push_back (t);
        if (poss.size ())
          n.kids.insert (n.kids.begin () + c.src.draw (n.kids.size () + 1),
                         randomElt (c, poss[c.src.draw (poss.size ())], pool, 2));
        break;
      }
    case 7:
      n.tag = tags ()[c.src.draw (tags ().size ())];
      break;
    case 8: // swap the order of children
      if (n.kids.size () > 1)
        std::swap (n.kids[c.src.draw (n.kids.size ())], n.kids[c.src.draw (n.kids.size ())]);
      break;
    case 9: // wrap: the node becomes a child of a copy of itself
      {
        XNode outer = n;
        outer.kids = { n };
        if (outer.attr ("id"))
          *outer.attr ("id") += "_w";
        if (s.parent)
          n = outer;
        break;
      }
    }
}
void
mutateBytes (Case &c, string &s)
{
  static const vector<string> TOK = { "<", ">", "/>", "</", "\"", "'", "&", "&lt;", "&#0;", "&#x10ffff;", "&e;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml?>", "<?p q?>", "\xff\xfe",
                                      string (1, '\0'), "\xc3", "\xef\xbb\xbf", "<!DOCTYPE ncl [<!ENTITY e \"v\">]>", "<!DOCTYPE ncl SYSTEM \"x.dtd\">", "xmlns:a=\"b\"", "a:", "xml:id=\"q\"", "\r\n", "=", " ", "<x", "<ncl/>" };
  for (int i = 1 + (int) c.src.draw (4); i > 0; i--)
    {
      size_t at = c.src.draw (s.size () + 1), len = c.src.draw (std::min<size_t> (s.size () - at, 40) + 1);
      switch (c.src.draw (5))
        {
        case 0: s.insert (at, TOK[c.src.draw (TOK.size ())]); break;
        case 1: s.erase (at, len); break;
        case 2: s.insert (c.src.draw (s.size () + 1), s.substr (at, len)); break;
        case 3: if (at < s.size ()) s[at] = (char) c.src.draw (256); break;
        case 4: if (c.src.chance (1, 3)) s.resize (at); break;
        }
    }
}
string
digest (Case &c, Document *d)
{
  // in the order of the names, as the sets are ordered by address
  map<string, string> out;
  c.check (d->getRoot () != nullptr && d->getSettings () != nullptr, "tree", "a document without root or settings");
  for (auto o : *d->getObjects ())
    {
      c.check (o->getDocument () == d, "tree", "an object of another document");
      c.check (d->getObjectById (o->getId ()) == o, "tree", "two objects with id '" + o->getId () + "'");
      int depth = 0;
      ginga::Object *p = o;
      while (p->getParent ())
        {
          p = p->getParent ();
          c.check (++depth < 1000, "tree", "a cycle of parents");
        }
      c.check (p == d->getRoot (), "tree", "object '" + o->getId () + "' is not in the tree");
      string s = o->toString (), &r = out[o->getId ()];
      c.check (!s.empty (), "tree", "toString of '" + o->getId () + "'");
      r += o->getObjectTypeAsString () + " " + o->getId () + " in " + (o->getParent () ? o->getParent ()->getId () : "-");
      std::set<string> evs;
      for (auto e : *o->getEvents ())
        {
          c.check (e->getObject () == o, "tree", "an event of another object");
          c.check (!e->toString ().empty (), "tree", "toString of an event");
          evs.insert (e->getFullId ());
        }
      for (auto &e : evs)
        r += " " + e;
      if (auto x = dynamic_cast<ginga::Context *> (o))
        {
          for (auto e : *x->getPorts ())
            c.check (e && e->getObject ()->getDocument () == d, "tree", "a port to no event of the document");
          for (auto e : *x->getPorts ())
            r += " port " + e->getFullId ();
          for (auto &l : *x->getLinks ())
            {
              c.check (!l.first.empty () && !l.second.empty (), "tree", "a link without conditions or actions");
              for (auto part : { &l.first, &l.second })
                for (auto &a : *part)
                  {
                    c.check (a.event != nullptr && a.event->getObject ()->getDocument () == d, "tree", "an action on no event of the document");
                    r += " act " + a.event->getFullId () + "/" + std::to_string (a.transition) + a.value + a.delay + a.duration;
                    if (a.predicate)
                      r += a.predicate->toString ();
                  }
            }
        }
      if (auto x = dynamic_cast<ginga::Switch *> (o))
        for (auto &l : *x->getRules ())
          c.check (l.first && l.second && l.first->getDocument () == d, "tree", "a rule for no object of the document");
      if (auto x = dynamic_cast<ginga::Switch *> (o))
        for (auto &l : *x->getRules ())
          r += " rule " + l.first->getId () + l.second->toString ();
    }
  string all;
  for (auto &o : out)
    all += o.second + "\n";
  return all;
}
struct Answer {
  bool ok;
  string err, digest;
};
Answer
parse (Case &c, const string &text, bool file, const string &path, int w, int h)
{
  Answer a;
  Document *d = file ? Parser::parseFile (path, w, h, &a.err) : Parser::parseBuffer (text.data (), text.size (), w, h, &a.err);
  a.ok = d != nullptr;
  if (d)
    {
      try
        {
          a.digest = digest (c, d);
        }
      catch (...)
        {
          delete d;
          throw;
        }
      delete d;
    }
  else
    c.check (!a.err.empty (), "silent", "a document is refused without a message");
  return a;
}
static const vector<string> SAMPLES_SRC = { "", "x.png", "t.txt" };

RegP c14 (Property{ "C14", "the text is a well-formed document that the parser accepted, or refused because of one of its elements",
  [] (Case &c) {
    Prof p;
    richProf (c, p);
    doc::Doc d = doc::gen (c, p);
    doc::writeFiles (d, c.tmpdir);
    XNode root = doc::toNode (d, &c.src);
    vector<string> pool;
    for (auto &s : sites (root))
      for (auto &a : s.n->attrs)
        pool.push_back (a.second);
    if (c.src.chance (1, 6)) // all random
      {
        root = el ("ncl");
        vector<string> ids;
        for (int i = 0; i < 12; i++)
          ids.push_back ("u" + std::to_string (i));
        for (const char *t : { "head", "body" })
          {
            root.kids.push_back (el (t));
            for (int i = 1 + (int) c.src.draw (6); i > 0; i--)
              {
                vector<string> poss;
                for (auto &x : tags ())
                  if (allowed (t, x))
                    poss.push_back (x);
                root.kids.back ().kids.push_back (randomElt (c, poss[c.src.draw (poss.size ())], ids, 4));
              }
          }
        pool = ids;
      }
    else
      for (int n = 1 + (int) c.src.draw (1 + (c.size > 30) * 4); n > 0; n--)
        mutate (c, root, pool);
    if (c.src.chance (1, 12)) // documents that import one another, or themselves
      {
        int n = (int) c.src.draw (4);
        auto name = [] (int i) { return i == 0 ? string ("doc.ncl") : "frag" + std::to_string (i) + ".ncl"; };
        auto imports = [&] (XNode &r, bool must) {
          for (auto &s : sites (r))
            if (s.n->tag.size () > 4 && s.n->tag.substr (s.n->tag.size () - 4) == "Base" && (must || c.src.chance (3, 4)))
              {
                for (int i = 1 + (int) c.src.draw (2); i > 0; i--)
                  s.n->kids.push_back (el ("importBase", { { "alias", "imp" + std::to_string (i) }, { "documentURI", (c.src.chance (1, 4) ? "./" : "") + name ((int) c.src.draw (n + 1)) } }));
                break;
              }
        };
        XNode plain = root;
        imports (root, true);
        for (int i = 1; i <= n; i++)
          {
            XNode r = plain;
            if (c.src.chance (1, 2))
              {
                r = el ("ncl");
                r.kids = { el ("head") };
                r.kids[0].kids = { el (c.src.pick<const char *> ({ "connectorBase", "descriptorBase", "regionBase", "ruleBase", "transitionBase" })) };
              }
            imports (r, false);
            string frag = doc::toXml (r);
            if (c.src.chance (1, 4))
              mutateBytes (c, frag);
            std::ofstream (c.tmpdir + "/" + name (i)) << frag;
            c.desc << name (i) << ":\n" << frag << "\n";
          }
        c.cls ("imports");
      }
    string text = doc::toXml (root);
    bool bytes = c.src.chance (1, 5);
    if (bytes)
      mutateBytes (c, text);
    string path = c.tmpdir + "/doc.ncl";
    std::ofstream (path) << text;
    c.desc << text;
    static const vector<pair<int, int> > SIZES = { { 800, 600 }, { 1, 1 }, { 1920, 1080 }, { 3, 100000 } };
    auto wh = SIZES[c.src.draw (SIZES.size ())];
    c.desc << "\nfor a screen of " << wh.first << "x" << wh.second;
    Answer f = parse (c, text, true, path, wh.first, wh.second);
    Answer f2 = parse (c, text, true, path, wh.first, wh.second);
    c.check (f.ok == f2.ok && f.err == f2.err && f.digest == f2.digest, "repeat", "parsing the same file again gives another answer: " + f.err + " / " + f2.err);
    Answer b = parse (c, text, false, "", wh.first, wh.second);
    if (text.find ("importBase") == string::npos && text.find ("<font ") == string::npos)
      {
        c.check (f.ok == b.ok, "buffer", "file and buffer are not parsed alike: " + f.err + " / " + b.err);
        c.check (f.digest == b.digest, "buffer", "file and buffer yield different documents");
      }
    bool elt = f.err.find ("Element <") != string::npos;
    c.cls (f.ok ? "accepted" : elt ? "refused-element" : "refused-xml");
    if (bytes)
      c.cls ("bytes");
    c.nontrivial = f.ok || elt;
  }, 12000, 600000, {}, 30 });

// C30 -----------------------------------------------------------------------------

// Changes of structure, that keep the values of properties and attributes well formed.
void
restructure (Case &c, XNode &root, map<string, vector<string> > &refs)
{
  auto v = sites (root);
  Site &s = v[c.src.draw (v.size ())];
  XNode &n = *s.n;
  auto kids = [&] (XNode &p, XNode *k) {
    size_t i = 0;
    while (&p.kids[i] != k)
      i++;
    return i;
  };
  // Parameters stay where they are, as they may hold times.
  bool fixed = n.tag == "bind" || n.tag == "bindParam" || n.tag == "linkParam" || n.tag == "simpleAction" || n.tag == "head" || n.tag == "body";
  switch (c.src.weighted ({ 10, 4, 3, 4, 2 }))
    {
    case 0: // a reference to something else
      {
        vector<string *> w;
        for (auto &x : v)
          for (auto &a : x.n->attrs)
            if (a.first == "component" || a.first == "constituent" || a.first == "refer" || a.first == "descriptor" || a.first == "rule" || a.first == "interface")
              if (x.n->tag != "bind" || (a.first != "interface" && (*x.n->attr ("role"))[0] != 'g')) // the value of a property must stay a time
                w.push_back (&a.second);
        if (w.empty ())
          return;
        string *t = w[c.src.draw (w.size ())];
        for (auto &x : v)
          for (auto &a : x.n->attrs)
            if (&a.second == t)
              {
                auto &pool = refs[a.first];
                if (pool.size ())
                  *t = pool[c.src.draw (pool.size ())];
                if (c.src.chance (1, 3))
                  x.n->drop ("interface");
                return;
              }
        break;
      }
    case 1: // moved
      if (s.parent && !fixed)
        {
          XNode copy = n;
          s.parent->kids.erase (s.parent->kids.begin () + kids (*s.parent, s.n));
          auto w = sites (root);
          vector<XNode *> to;
          for (auto &x : w)
            if (allowed (x.n->tag, copy.tag))
              to.push_back (x.n);
          if (to.size ())
            {
              XNode *p = to[c.src.draw (to.size ())];
              p->kids.insert (p->kids.begin () + c.src.draw (p->kids.size () + 1), copy);
            }
        }
      break;
    case 2: // deleted
      if (s.parent && !(n.tag == "bind" && (*n.attr ("role"))[0] == 'g'))
        s.parent->kids.erase (s.parent->kids.begin () + kids (*s.parent, s.n));
      break;
    case 3: // once more
      if (s.parent && n.tag != "head" && n.tag != "body")
        {
          XNode copy = n;
          int k = (int) c.src.draw (1000);
          std::function<void (XNode &)> fresh = [&] (XNode &x) {
            if (x.attr ("id"))
              *x.attr ("id") += "_" + std::to_string (k);
            for (auto &y : x.kids)
              fresh (y);
          };
          fresh (copy);
          s.parent->kids.insert (s.parent->kids.begin () + c.src.draw (s.parent->kids.size () + 1), copy);
        }
      break;
    default: // a reference in place of a media
      if (n.tag == "media" && n.attr ("id"))
        {
          auto &pool = refs["refer"];
          n.attrs = { { "id", *n.attr ("id") }, { "refer", pool.empty () ? "x" : pool[c.src.draw (pool.size ())] } };
        }
    }
}
RegP c30 (Property{ "C30", "the document is accepted and starts, and was altered",
  [] (Case &c) {
    Prof p;
    richProf (c, p);
    p.links = 4;
    doc::Doc d = doc::gen (c, p);
    doc::writeFiles (d, c.tmpdir);
    XNode root = doc::toNode (d, &c.src);
    map<string, vector<string> > refs;
    for (auto &s : sites (root))
      if (string *id = s.n->attr ("id"))
        {
          const string &t = s.n->tag;
          if (t == "media" || t == "context" || t == "switch" || t == "body")
            for (const char *a : { "component", "constituent" })
              refs[a].push_back (*id);
          if (t == "media")
            refs["refer"].push_back (*id);
          if (t == "descriptor")
            refs["descriptor"].push_back (*id);
          if (t == "rule" || t == "compositeRule")
            refs["rule"].push_back (*id);
          if (t == "causalConnector")
            refs["xconnector"].push_back (*id);
          if (t == "port" || t == "area" || t == "switchPort")
            refs["interface"].push_back (*id);
        }
    for (int n = (int) c.src.draw (2 + (c.size > 40) * 3); n >= 0; n--)
      restructure (c, root, refs);
    string path = c.tmpdir + "/doc.ncl", text = doc::toXml (root);
    std::ofstream (path) << text;
    c.desc << text;
    fakes_reset ();
    struct Bound {
      Bound () { lock::transitionBound = 1200; }
      ~Bound () { lock::transitionBound = -1; }
    } bound;
    auto *f = new ginga::Formatter (nullptr);
    string err;
    bool links = text.find ("<link") != string::npos;
    int step = 0;
    try
      {
        if (!f->start (path, &err))
          {
            c.cls (err.find ("Element <") != string::npos ? "refused" : "not-started");
            c.check (!err.empty (), "silent", "a document is not started, without a message");
            c.check (f->getState () == GINGA_STATE_STOPPED, "state", "playing a document that was not started");
            delete f;
            return;
          }
        c.cls ("started");
        c.nontrivial = true;
        ginga::Time total = 0;
        Document *doc = f->getDocument ();
        vector<string> ids;
        for (auto o : *doc->getObjects ())
          ids.push_back (o->getId ());
        std::sort (ids.begin (), ids.end ());
        for (int n = 4 + (int) c.src.draw (12); n > 0 && f->getState () == GINGA_STATE_PLAYING; n--)
          {
            lock::transitionBound = 1200;
            c.desc << "\n" << ++step << ". ";
            switch (c.src.weighted ({ 6, 3, 3, 1 }))
              {
              case 0:
                {
                  static const vector<double> T = { 0.5, 0.25, 1, 0, 3, 10 };
                  double t = T[c.src.draw (T.size ())];
                  c.desc << "tick " << t;
                  ginga::Time diff = (ginga::Time) (t * GINGA_SECOND);
                  total += diff;
                  f->sendTick (total, diff, (uint64_t) step);
                  break;
                }
              case 1:
                {
                  static const vector<string> K = { "RED", "ENTER", "CURSOR_UP", "CURSOR_RIGHT", "GREEN", "1" };
                  string k = K[c.src.draw (K.size ())];
                  c.desc << "key " << k;
                  f->sendKey (k, true);
                  if (f->getState () == GINGA_STATE_PLAYING)
                    f->sendKey (k, false);
                  break;
                }
              case 2:
                {
                  auto o = doc->getObjectById (ids[c.src.draw (ids.size ())]);
                  vector<string> evs;
                  for (auto e : *o->getEvents ())
                    if (e->getType () == ginga::Event::PRESENTATION)
                      evs.push_back (e->getId ());
                  std::sort (evs.begin (), evs.end ());
                  auto e = o->getPresentationEvent (evs[c.src.draw (evs.size ())]);
                  auto t = (ginga::Event::Transition) c.src.draw (5);
                  if (dynamic_cast<ginga::MediaSettings *> (o))
                    break;
                  c.desc << ginga::Event::getEventTransitionAsString (t) << " " << e->getFullId ();
                  doc->evalAction (e, t);
                  break;
                }
              case 3:
                c.desc << "stop";
                f->stop ();
                break;
              }
            if (f->getState () != GINGA_STATE_PLAYING)
              break;
            for (auto o : *doc->getObjects ())
              {
                if (auto x = dynamic_cast<ginga::Context *> (o))
                  if (x->isSleeping ())
                    for (auto k : *x->getChildren ())
                      c.check (k->isSleeping (), "inv-containment", k->getId () + " is awake inside sleeping context " + o->getId ());
                if (dynamic_cast<ginga::Media *> (o) && o->isSleeping ())
                  for (auto e : *o->getEvents ())
                    if (e->getType () == ginga::Event::PRESENTATION)
                      c.check (e->getState () == ginga::Event::SLEEPING, "inv-anchor", e->getFullId () + " is awake in a sleeping media");
              }
          }
        lock::transitionBound = 1200;
        f->stop ();
      }
    catch (lock::Overrun &)
      {
        c.check (links, "divergence", "a document without links goes on for ever");
        c.cls ("discarded-divergent");
        c.nontrivial = false;
        return; // F is in no state to be used any more
      }
    delete f;
  }, 12000, 600000, {}, 30 });

// C15 -----------------------------------------------------------------------------

struct Fault {
  XNode *where = nullptr; // the element to be blamed
  string msg;             // what must be said of it (a prefix)
  string kind;
};
struct Faulty {
  Case &c;
  doc::Doc &d;
  XNode &root;
  vector<Site> all;
  Faulty (Case &cc, doc::Doc &dd, XNode &r) : c (cc), d (dd), root (r), all (sites (r)) {}
  // A random site that satisfies P, or null.
  Site *some (const std::function<bool (Site &)> &p)
  {
    vector<Site *> v;
    for (auto &s : all)
      if (p (s))
        v.push_back (&s);
    return v.empty () ? nullptr : v[c.src.draw (v.size ())];
  }
  Site *tag (const vector<string> &t)
  {
    return some ([&] (Site &s) { return std::count (t.begin (), t.end (), s.n->tag); });
  }
  static void set (XNode &n, const string &a, const string &v)
  {
    if (string *x = n.attr (a))
      *x = v;
    else
      n.attrs.push_back ({ a, v });
  }
  static string bad (const string &a, const string &v) { return "Bad value '" + v + "' for attribute '" + a + "'"; }
  static string missing (const string &a) { return "Missing attribute '" + a + "'"; }
  XNode *byId (const string &tag, const string &id)
  {
    for (auto &s : all)
      if (s.n->tag == tag && s.n->attr ("id") && *s.n->attr ("id") == id)
        return s.n;
    return nullptr;
  }
  string someId (const vector<string> &t, const string &not_)
  {
    Site *s = some ([&] (Site &x) { return std::count (t.begin (), t.end (), x.n->tag) && x.n->attr ("id") && *x.n->attr ("id") != not_; });
    return s ? *s->n->attr ("id") : "nothing";
  }
  void roles (XNode &n, vector<XNode *> &out, const string &tag)
  {
    if (n.tag == tag)
      out.push_back (&n);
    for (auto &k : n.kids)
      roles (k, out, tag);
  }
  static void strip (XNode &n, const vector<string> &t)
  {
    for (size_t i = n.kids.size (); i-- > 0;)
      if (std::count (t.begin (), t.end (), n.kids[i].tag))
        n.kids.erase (n.kids.begin () + i);
      else
        strip (n.kids[i], t);
  }
  // The definition of the role that a bind names, if there is.
  XNode *roleOf (Site &bind)
  {
    XNode *conn = byId ("causalConnector", *bind.parent->attr ("xconnector"));
    vector<XNode *> v;
    if (conn)
      for (const char *t : { "simpleCondition", "simpleAction" })
        roles (*conn, v, t);
    for (auto r : v)
      if (*r->attr ("role") == *bind.n->attr ("role"))
        return r;
    return nullptr;
  }
  static string typeOf (XNode &role)
  {
    if (role.attr ("eventType"))
      return *role.attr ("eventType");
    const string &r = *role.attr ("role");
    if (r.find ("Attribution") != string::npos || r == "set")
      return "attribution";
    if (r.find ("Selection") != string::npos)
      return "selection";
    if (r.find ("Look") != string::npos)
      return "lookat";
    return "presentation";
  }
  static bool reserved (const string &r)
  {
    static const std::set<string> R = { "onBegin", "onEnd", "onAbort", "onPause", "onResume", "onBeginAttribution", "onEndAttribution", "onSelection", "onLookAt", "onLookAway", "onBeginSelection", "onEndSelection", "start", "stop", "abort", "pause", "resume", "set" };
    return R.count (r);
  }
  bool make (Fault &f);
  bool makeKind (size_t k, Fault &f);
};
enum { NKINDS = 34 };
bool
Faulty::makeKind (size_t k, Fault &f)
{
  Site *s;
  switch (k)
    {
    case 0:
      {
        f.kind = "unknown-element";
        s = &all[c.src.draw (all.size ())];
        string t = c.src.chance (1, 2) ? "foo" : s->n->tag + "s";
        s->n->kids.insert (s->n->kids.begin () + c.src.draw (s->n->kids.size () + 1), el (t));
        f.where = s->n;
        f.msg = "Unknown child <" + t + ">";
        return true;
      }
    case 1:
      {
        f.kind = "misplaced-element";
        s = &all[c.src.draw (all.size ())];
        string t = tags ()[c.src.draw (tags ().size ())];
        if (allowed (s->n->tag, t))
          return false;
        s->n->kids.insert (s->n->kids.begin () + c.src.draw (s->n->kids.size () + 1), el (t));
        f.where = s->n;
        f.msg = "Unknown child <" + t + ">";
        return true;
      }
    case 2:
      {
        f.kind = "unknown-attribute";
        s = &all[c.src.draw (all.size ())];
        static const vector<string> N = { "foo", "name", "value", "component", "ID", "region", "role", "begin", "comparator", "src", "operator" };
        string a = N[c.src.draw (N.size ())];
        for (auto &x : LANG.at (s->n->tag).attrs)
          if (x.first == a)
            return false;
        s->n->attrs.insert (s->n->attrs.begin () + c.src.draw (s->n->attrs.size () + 1), { a, "v" });
        f.where = s->n;
        f.msg = "Unknown attribute '" + a + "'";
        return true;
      }
    case 3: // missing, empty or ill-formed
    case 4:
    case 5:
      {
        int flag = k == 3 ? REQ : k == 4 ? NONEMPTY : NAME;
        f.kind = k == 3 ? "missing-attribute" : k == 4 ? "empty-attribute" : "ill-formed-name";
        vector<pair<Site *, string> > v;
        // first the kind of element, then the element: all kinds alike
        Site *t = &all[c.src.draw (all.size ())];
        for (auto &x : all)
          if (x.n->tag == t->n->tag)
            for (auto &a : LANG.at (x.n->tag).attrs)
              if ((a.second & flag) && x.n->attr (a.first))
                v.push_back ({ &x, a.first });
        if (v.empty ())
          return false;
        auto &x = v[c.src.draw (v.size ())];
        f.where = x.first->n;
        string *val = x.first->n->attr (x.second);
        if (k == 3)
          {
            x.first->n->drop (x.second);
            f.msg = missing (x.second);
          }
        else if (k == 4)
          {
            *val = "";
            f.msg = bad (x.second, "");
          }
        else
          {
            static const vector<string> B = { " ", "/", "$", "@", "'", "%", "\\", "(", ",", "\xc3\xa9", "[", "`", "{", "!", "+", "~" };
            val->insert (c.src.draw (val->size () + 1), B[c.src.draw (B.size ())]);
            f.msg = bad (x.second, *val);
          }
        return true;
      }
    case 6:
      {
        f.kind = "duplicate-id";
        vector<Site *> v;
        for (auto &x : all)
          if (x.n->attr ("id"))
            v.push_back (&x);
        if (v.size () < 2)
          return false;
        size_t i = c.src.draw (v.size ()), j = c.src.draw (v.size ());
        string old = *v[i]->n->attr ("id");
        if (i == j || old == *v[j]->n->attr ("id"))
          return false;
        // components of switches are looked up before the end of the document
        for (auto &x : all)
          for (const char *a : { "constituent", "component" })
            if ((x.n->tag == "bindRule" || x.n->tag == "defaultComponent") && x.n->attr (a) && *x.n->attr (a) == old)
              return false;
        *v[i]->n->attr ("id") = *v[j]->n->attr ("id");
        f.where = v[std::max (i, j)]->n;
        f.msg = bad ("id", *v[j]->n->attr ("id"));
        return true;
      }
    case 7:
    case 8: // dangling, or to something of another kind
      {
        f.kind = k == 7 ? "dangling-reference" : "reference-to-other-kind";
        static const vector<pair<string, pair<string, vector<string> > > > REFS = {
          { "link", { "xconnector", { "media", "rule", "descriptor", "region", "port", "context" } } },
          { "bindRule", { "rule", { "media", "causalConnector", "descriptor", "region", "port" } } },
          { "media", { "descriptor", { "region", "media", "causalConnector", "rule" } } },
          { "media", { "refer", { "context", "causalConnector", "descriptor", "port", "switch" } } },
          { "descriptor", { "region", { "descriptor", "media", "transition" } } },
          { "descriptor", { "transIn", { "region", "media", "descriptor" } } },
          { "descriptor", { "transOut", { "region", "media", "rule" } } },
          { "port", { "component", { "causalConnector", "rule", "area", "port", "region" } } },
          { "bind", { "component", { "causalConnector", "rule", "area", "port", "region" } } },
          { "mapping", { "component", { "causalConnector", "rule", "area", "port" } } },
          { "bindRule", { "constituent", { "causalConnector", "rule", "area", "port" } } },
          { "defaultComponent", { "component", { "causalConnector", "rule", "area", "port" } } },
          { "port", { "interface", { "media", "causalConnector", "rule", "link", "region" } } },
          { "bind", { "interface", { "media", "causalConnector", "rule", "link", "region" } } },
          { "mapping", { "interface", { "media", "causalConnector", "rule", "link" } } },
        };
        auto &r = REFS[c.src.draw (REFS.size ())];
        const string &a = r.second.first;
        if (!(s = some ([&] (Site &x) { return x.n->tag == r.first && x.n->attr (a); })))
          return false;
        string id = k == 7 ? "nothing" : someId (r.second.second, "");
        if (a == "interface" && s->n->attr ("component") && id == *s->n->attr ("component"))
          return false;
        *s->n->attr (a) = id;
        f.where = s->n;
        f.msg = bad (a, id);
        return true;
      }
    case 9:
      {
        f.kind = "component-out-of-scope";
        // objects (not references, which are known everywhere) of elsewhere
        if (!(s = tag ({ "port", "bind", "bindRule", "defaultComponent", "mapping" })))
          return false;
        string a = s->n->tag == "bindRule" ? "constituent" : "component";
        XNode *scope = s->parent;
        if (s->n->tag == "bind" || s->n->tag == "mapping")
          for (auto &x : all)
            if (x.n == s->parent)
              {
                scope = x.parent;
                break;
              }
        std::set<string> referred;
        for (auto &x : all)
          if (x.n->tag == "media" && x.n->attr ("refer"))
            referred.insert (*x.n->attr ("refer"));
        Site *o = some ([&] (Site &x) {
          if (x.n->tag != "media" && x.n->tag != "context" && x.n->tag != "switch")
            return false;
          string *t = x.n->attr ("type");
          return x.n != scope && x.parent != scope && !x.n->attr ("refer") && !(t && t->find ("settings") != string::npos)
                 && !referred.count (*x.n->attr ("id"));
        });
        if (!o)
          return false;
        s->n->drop ("interface");
        set (*s->n, a, *o->n->attr ("id"));
        f.where = s->n;
        f.msg = bad (a, *o->n->attr ("id"));
        return true;
      }
    case 10:
      {
        f.kind = "interface-of-other";
        // an area, port or switch port of an object that is not the component
        if (!(s = some ([] (Site &x) { return (x.n->tag == "port" || x.n->tag == "bind" || x.n->tag == "mapping"); })))
          return false;
        const string &comp = *s->n->attr ("component");
        Site *i = some ([&] (Site &x) {
          if (x.n->tag != "area" && x.n->tag != "port" && x.n->tag != "switchPort")
            return false;
          // an area of a reference is one of what is referred to
          if (x.parent->tag == "media")
            {
              for (auto &y : all)
                if (y.n->tag == "media" && y.n->attr ("id") && *y.n->attr ("id") == comp && (y.n->attr ("refer") || (y.n->attr ("type") && y.n->attr ("type")->find ("settings") != string::npos)))
                  return false;
              return !x.parent->attr ("refer") && !(x.parent->attr ("type") && x.parent->attr ("type")->find ("settings") != string::npos) && *x.parent->attr ("id") != comp;
            }
          string id = x.parent->attr ("id") ? *x.parent->attr ("id") : "";
          return x.parent->tag != "body" && id != comp;
        });
        if (!i)
          return false;
        set (*s->n, "interface", *i->n->attr ("id"));
        f.where = s->n;
        f.msg = bad ("interface", *i->n->attr ("id"));
        return true;
      }
    case 11:
      {
        f.kind = "exclusive-attributes";
        if (c.src.chance (1, 2))
          {
            if (!(s = some ([] (Site &x) { return x.n->tag == "media" && x.n->attr ("refer"); })))
              return false;
            string a = c.src.chance (1, 2) ? "src" : "type";
            set (*s->n, a, c.src.chance (1, 3) ? "" : "text/plain");
            f.msg = "Attributes '" + a + "' and 'refer' are mutually exclusive";
          }
        else
          {
            if (!(s = tag ({ "area" })))
              return false;
            string a = c.src.chance (1, 2) ? "begin" : "end";
            for (const char *x : { "begin", "end", "label" })
              s->n->drop (x);
            set (*s->n, "label", "l");
            set (*s->n, a, "1s");
            f.msg = "Attributes 'label' and '" + a + "' are mutually exclusive";
          }
        f.where = s->n;
        return true;
      }
    case 12:
      {
        f.kind = "bad-time";
        if (!(s = tag ({ "area" })))
          return false;
        string a = c.src.chance (1, 2) ? "begin" : "end";
        static const vector<string> B = { "abc", "1x", "s", "1:2", "1:2:3:4", "1s2", "5 m", "x1s", "1:x:2", "--1s" };
        s->n->drop ("label");
        string v = B[c.src.draw (B.size ())];
        if (v == "s")
          v = "5ss";
        set (*s->n, a, v);
        f.where = s->n;
        f.msg = bad (a, v);
        return true;
      }
    case 13:
      {
        f.kind = "bad-comparator";
        if (!(s = tag ({ "rule", "assessmentStatement" })))
          return false;
        static const vector<string> B = { "", "equals", "EQ", "==", "eq ", "le", "ge", "and" };
        string v = B[c.src.draw (B.size ())];
        set (*s->n, "comparator", v);
        f.where = s->n;
        f.msg = bad ("comparator", v);
        return true;
      }
    case 14:
      {
        f.kind = "bad-operator";
        if (!(s = tag ({ "compositeRule", "compoundStatement" })))
          return false;
        static const vector<string> B = { "", "xor", "AND", "or ", "eq", "seq" };
        string v = B[c.src.draw (B.size ())];
        set (*s->n, "operator", v);
        f.where = s->n;
        f.msg = bad ("operator", v);
        return true;
      }
    case 15:
      {
        f.kind = "bad-negation";
        if (!(s = tag ({ "compoundStatement" })))
          return false;
        static const vector<string> B = { "", "yes", "1", "tru", "true x" };
        string v = B[c.src.draw (B.size ())];
        set (*s->n, "isNegated", v);
        f.where = s->n;
        f.msg = bad ("isNegated", v);
        return true;
      }
    case 16:
      {
        f.kind = "reserved-role-overwritten";
        if (!(s = some ([&] (Site &x) { return (x.n->tag == "simpleCondition" || x.n->tag == "simpleAction") && reserved (*x.n->attr ("role")); })))
          return false;
        string type = typeOf (*s->n), a, v;
        if (c.src.chance (1, 2))
          {
            a = "eventType";
            static const vector<string> B = { "presentation", "attribution", "selection", "lookat", "", "x" };
            v = B[c.src.draw (B.size ())];
            if (v == type)
              return false;
          }
        else
          {
            a = s->n->tag == "simpleCondition" ? "transition" : "actionType";
            const string &r = *s->n->attr ("role");
            static const map<string, string> T = {
              { "onBegin", "start" }, { "onEnd", "stop" }, { "onAbort", "abort" }, { "onPause", "pause" }, { "onResume", "resume" }, { "onBeginAttribution", "start" }, { "onEndAttribution", "stop" }, { "onSelection", "start" },
              { "onLookAt", "start" }, { "onLookAway", "stop" }, { "onBeginSelection", "start" }, { "onEndSelection", "stop" }, { "start", "start" }, { "stop", "stop" }, { "abort", "abort" }, { "pause", "pause" }, { "resume", "resume" }, { "set", "start" } };
            static const vector<string> B = { "start", "stops", "aborts", "pause", "resumes", "", "begin" };
            v = B[c.src.draw (B.size ())];
            if (v == T.at (r) || v == T.at (r) + "s")
              return false;
          }
        set (*s->n, a, v);
        f.where = s->n;
        f.msg = bad (a, v);
        return true;
      }
    case 17:
      {
        f.kind = "reserved-role-misused";
        static const vector<string> CO = { "onBegin", "onEnd", "onSelection", "onLookAway", "onEndAttribution", "onBeginSelection", "onAbort", "onPause", "onResume", "onLookAt", "onEndSelection", "onBeginAttribution" }, AC = { "start", "stop", "set", "pause", "resume", "abort" };
        if (!(s = tag ({ "simpleCondition", "simpleAction" })))
          return false;
        const vector<string> &v = s->n->tag == "simpleCondition" ? AC : CO;
        string r = v[c.src.draw (v.size ())];
        set (*s->n, "role", r);
        f.where = s->n;
        f.msg = bad ("role", r);
        return true;
      }
    case 18:
      {
        f.kind = "custom-role-incomplete";
        if (!(s = tag ({ "simpleCondition", "simpleAction" })))
          return false;
        string tr = s->n->tag == "simpleCondition" ? "transition" : "actionType";
        set (*s->n, "role", "custom");
        set (*s->n, "eventType", "presentation");
        set (*s->n, tr, "start");
        string a = c.src.chance (1, 2) ? "eventType" : tr;
        f.where = s->n;
        if (c.src.chance (1, 2))
          {
            s->n->drop (a);
            f.msg = missing (a);
          }
        else
          {
            static const vector<string> B = { "", "x", "Presentation", "begins", "START", "stop " };
            string v = B[c.src.draw (B.size ())];
            set (*s->n, a, v);
            f.msg = bad (a, v);
          }
        return true;
      }
    case 19:
      {
        f.kind = "attribution-without-value";
        if (!(s = some ([&] (Site &x) { return x.n->tag == "simpleAction" && typeOf (*x.n) == "attribution" && x.n->attr ("value"); })))
          return false;
        s->n->drop ("value");
        f.where = s->n;
        f.msg = missing ("value");
        return true;
      }
    case 20:
      {
        f.kind = "role-not-bound";
        if (!(s = tag ({ "link" })))
          return false;
        XNode *conn = byId ("causalConnector", *s->n->attr ("xconnector"));
        if (!conn)
          return false;
        vector<XNode *> v;
        for (const char *t : { "simpleCondition", "simpleAction", "attributeAssessment" })
          roles (*conn, v, t);
        string r = *v[c.src.draw (v.size ())]->attr ("role");
        for (size_t i = s->n->kids.size (); i-- > 0;)
          if (s->n->kids[i].tag == "bind" && *s->n->kids[i].attr ("role") == r)
            s->n->kids.erase (s->n->kids.begin () + i);
        f.where = s->n;
        f.msg = bad ("xconnector", *s->n->attr ("xconnector"));
        return true;
      }
    case 21:
      {
        f.kind = "connector-without";
        if (!(s = tag ({ "causalConnector" })))
          return false;
        bool cond = c.src.chance (1, 2);
        strip (*s->n, { cond ? "simpleCondition" : "simpleAction" });
        f.where = s->n;
        f.msg = string ("Missing child <") + (cond ? "simpleCondition" : "simpleAction") + ">";
        return true;
      }
    case 22:
      {
        f.kind = "statement-without";
        if (!(s = tag ({ "assessmentStatement", "compoundStatement" })))
          return false;
        bool at = s->n->tag == "assessmentStatement";
        size_t max = at ? 2 : s->n->attr ("operator") && *s->n->attr ("operator") == "not" ? 1 : 2;
        size_t left = c.src.draw (max);
        while (s->n->kids.size () > left)
          s->n->kids.erase (s->n->kids.begin () + c.src.draw (s->n->kids.size ()));
        f.where = s->n;
        f.msg = at ? "Missing child <attributeAssessment> or <valueAssessment>" : "Missing child <compoundStatement> or <assessmentStatement>";
        return true;
      }
    case 23:
      {
        f.kind = "too-many-children";
        if (!(s = some ([] (Site &x) {
                return x.n->tag == "assessmentStatement"
                       || ((x.n->tag == "compoundStatement" || x.n->tag == "compositeRule") && x.n->attr ("operator") && *x.n->attr ("operator") == "not" && x.n->kids.size () == 1);
              })))
          return false;
        XNode extra;
        if (s->n->tag == "assessmentStatement")
          extra = c.src.chance (1, 2) ? el ("valueAssessment", { { "value", "1" } }) : el ("attributeAssessment", { { "role", "zz" } });
        else if (s->n->tag == "compositeRule")
          extra = el ("rule", { { "id", "rr1" }, { "var", "x" }, { "comparator", "eq" }, { "value", "1" } });
        else
          {
            extra = el ("assessmentStatement", { { "comparator", "eq" } });
            extra.kids = { el ("valueAssessment", { { "value", "1" } }), el ("valueAssessment", { { "value", "1" } }) };
          }
        s->n->kids.push_back (extra);
        f.where = s->n;
        f.msg = "Bad child <" + extra.tag + ">";
        return true;
      }
    case 24:
    case 25:
    case 26:
      {
        static const vector<string> T = { "presentation", "attribution", "selection" };
        string type = T[k - 24];
        f.kind = "interface-for-" + type;
        if (!(s = some ([&] (Site &x) {
                if (x.n->tag != "bind")
                  return false;
                XNode *r = roleOf (x);
                return r && typeOf (*r) == type;
              })))
          return false;
        // an interface of the component of another kind
        string comp = *s->n->attr ("component"), want = k == 24 ? "property" : k == 25 ? "area" : c.src.chance (1, 2) ? "area" : "property";
        Site *i = nullptr;
        if (k != 25 || !c.src.chance (1, 2))
          {
            i = some ([&] (Site &x) { return x.n->tag == want && x.parent->tag == "media" && *x.parent->attr ("id") == comp; });
            if (!i)
              return false;
          }
        s->n->drop ("interface");
        string v;
        if (i)
          {
            v = *i->n->attr (want == "area" ? "id" : "name");
            set (*s->n, "interface", v);
          }
        f.where = s->n;
        f.msg = bad ("interface", k == 26 ? "" : v);
        if (k == 26)
          f.msg = "Bad value '";
        return true;
      }
    case 27:
      {
        f.kind = "reference-to-reference";
        if (!(s = some ([] (Site &x) { return x.n->tag == "media" && x.n->attr ("refer"); })))
          return false;
        string id = *s->n->attr ("id"), nid = "rr2";
        f.where = nullptr;
        s->parent->kids.push_back (el ("media", { { "id", nid }, { "refer", id } }));
        f.where = &s->parent->kids.back ();
        f.msg = bad ("refer", id);
        return true;
      }
    case 28:
      {
        f.kind = "root";
        static const vector<string> R = { "head", "body", "media", "foo", "html", "NCL", "context" };
        string r = R[c.src.draw (R.size ())];
        root.tag = r;
        root.attrs.clear ();
        f.where = &root;
        f.msg = LANG.count (r) ? "Missing parent" : "Unknown element";
        return true;
      }
    case 29:
      {
        f.kind = "import";
        if (!(s = tag ({ "regionBase", "descriptorBase", "connectorBase", "ruleBase", "transitionBase" })))
          return false;
        string uri;
        const string &t = s->n->tag;
        auto save = [&] (const string &text) { std::ofstream (c.tmpdir + "/imp.ncl") << text; };
        switch (c.src.draw (9))
          {
          case 7: // a longer circle
          case 8:
            {
              auto imp = [&] (const string &what) { return "<ncl><head><" + t + "><importBase alias='b' documentURI='" + (c.src.chance (1, 2) ? "./" : "") + what + "'/></" + t + "></head></ncl>"; };
              int n = 2 + (int) c.src.draw (3);
              save (imp ("imp2.ncl"));
              for (int i = 2; i <= n; i++)
                std::ofstream (c.tmpdir + "/imp" + std::to_string (i) + ".ncl") << imp (i < n ? "imp" + std::to_string (i + 1) + ".ncl" : c.src.pick<const char *> ({ "doc.ncl", "imp.ncl", "imp2.ncl" }));
              break;
            }
          case 0: uri = "absent.ncl"; break;
          case 1: uri = "doc.ncl"; break; // itself
          case 2: save ("<ncl><head/></ncl>"); break;
          case 3: save ("<ncl></ncl>"); break;
          case 4: save ("<ncl><head><" + t + "></head></ncl>"); break;
          case 5: save (""); break;
          default: save ("<ncl><head><" + t + "><importBase alias='b' documentURI='" + (c.src.chance (1, 2) ? "./" : "") + "imp.ncl'/></" + t + "></head></ncl>");
          }
        bool inner = uri == "doc.ncl";
        if (uri == "")
          uri = "imp.ncl";
        s->n->kids.insert (s->n->kids.begin () + c.src.draw (s->n->kids.size () + 1), el ("importBase", { { "alias", "a1" }, { "documentURI", uri } }));
        for (auto &kk : s->n->kids)
          if (kk.tag == "importBase")
            f.where = &kk;
        f.msg = "Syntax error in imported document";
        (void) inner;
        return true;
      }
    case 30:
      {
        f.kind = "missing-font";
        XNode b = el ("fontBase");
        b.kids = { el ("font", { { "fontFamily", "f" }, { "src", "absent.ttf" } }) };
        if (!(s = tag ({ "head" })))
          return false;
        s->n->kids.insert (s->n->kids.begin () + c.src.draw (s->n->kids.size () + 1), b);
        for (auto &x : s->n->kids)
          if (x.tag == "fontBase")
            f.where = &x.kids[0];
        f.msg = bad ("src", "absent.ttf");
        return true;
      }
    default:
      return false;
    }
}
bool
Faulty::make (Fault &f)
{
  // The kinds that apply depend on the document: try some.
  for (int i = 0; i < 12; i++)
    {
      XNode saved = root;
      if (makeKind (c.src.draw (31), f))
        return true;
      root = saved;
      all = sites (root);
    }
  return false;
}

RegP c15 (Property{ "C15", "exactly one fault of a known kind was put in a valid document",
  [] (Case &c) {
    Prof p;
    richProf (c, p);
    if (c.src.chance (1, 2))
      {
        p.pred = 80;
        p.custom = 50;
        p.wRefer = 4;
        p.wSwitch = 4;
      }
    Lock l (c);
    doc::Doc d = doc::gen (c, p);
    string why;
    if (!doc::compile (d, c.tmpdir, &l.m, &why))
      return;
    doc::writeFiles (d, c.tmpdir);
    XNode root = doc::toNode (d, &c.src);
    string path = c.tmpdir + "/doc.ncl";
    string err;
    if (c.src.chance (1, 12)) // not XML at all
      {
        string t = doc::toXml (root);
        string kind;
        switch (c.src.draw (7))
          {
          case 0: kind = "empty"; t = ""; break;
          case 1: kind = "blank"; t = " \n"; break;
          case 2: kind = "truncated"; t.resize (c.src.draw (t.size () - 2)); break;
          case 3: kind = "unclosed"; t.erase (t.rfind ("</")); break;
          case 4: kind = "two-roots"; t += t; break;
          case 5:
            {
              kind = "duplicate-attribute";
              auto v = sites (root);
              vector<XNode *> w;
              for (auto &s : v)
                if (s.n->attrs.size ())
                  w.push_back (s.n);
              XNode *n = w.empty () ? nullptr : w[c.src.draw (w.size ())];
              if (n)
                n->attrs.push_back (n->attrs[0]);
              else
                root.attrs = { { "id", "x" }, { "id", "x" } };
              t = doc::toXml (root);
              break;
            }
          default:
            kind = "mismatched";
            {
              size_t at = t.rfind ("</");
              t.replace (at, 2, "</x");
            }
          }
        std::ofstream (path) << t;
        c.desc << "fault: " << kind << "\n" << t;
        std::unique_ptr<Document> doc (Parser::parseFile (path, 800, 600, &err));
        c.check (!doc, "accepted", "a malformed document (" + kind + ") is accepted");
        c.check (!err.empty (), "silent", "a malformed document is refused without a message");
        std::unique_ptr<Document> buf (Parser::parseBuffer (t.data (), t.size (), 800, 600, &err));
        c.check (!buf, "accepted", "a malformed document (" + kind + ") is accepted from a buffer");
        c.cls ("malformed-" + kind);
        c.nontrivial = true;
        return;
      }
    XNode pristine = root;
    Faulty fy (c, d, root);
    Fault f;
    if (!fy.make (f))
      return;
    int line = 0;
    string ftag = f.where->tag;
    for (auto &s : sites (root))
      if (s.n == f.where)
        line = s.line;
    string t = doc::toXml (root);
    string in = path;
    XNode *base = nullptr;
    for (auto &h : root.kids)
      if (h.tag == "head")
        for (auto &b : h.kids)
          if (b.tag == "connectorBase" || b.tag == "descriptorBase" || b.tag == "regionBase" || b.tag == "ruleBase" || b.tag == "transitionBase")
            for (auto &s : sites (b))
              if (s.n == f.where)
                base = &b;
    if (base && f.kind == "duplicate-id") // of something that is imported, too
      {
        int n = 0;
        for (auto &s : sites (*base))
          n += s.n->attr ("id") && f.where->attr ("id") && *s.n->attr ("id") == *f.where->attr ("id");
        if (n < 2)
          base = nullptr;
      }
    if (base && f.kind != "import" && c.src.chance (1, 2)) // the fault is in an imported document
      {
        string tag = base->tag;
        in = c.tmpdir + "/whole.ncl";
        std::ofstream (in) << t;
        c.desc << "whole.ncl:\n" << t << "\n";
        XNode *head = nullptr, *to = nullptr;
        for (auto &h : pristine.kids)
          if (h.tag == "head")
            head = &h;
        if (!head)
          {
            pristine.kids.insert (pristine.kids.begin (), el ("head"));
            head = &pristine.kids[0];
          }
        for (auto &b : head->kids)
          if (b.tag == tag)
            to = &b;
        if (!to)
          {
            head->kids.push_back (el (tag));
            to = &head->kids.back ();
          }
        to->kids.push_back (el ("importBase", { { "alias", "whole" }, { "documentURI", c.src.chance (1, 2) ? in : "whole.ncl" } }));
        t = doc::toXml (pristine);
        c.cls ("imported-fault");
      }
    std::ofstream (path) << t;
    c.desc << "fault: " << f.kind << ": <" << ftag << "> at line " << line << ": " << f.msg << "\n" << t;
    std::unique_ptr<Document> doc (Parser::parseFile (path, 800, 600, &err));
    c.cls (f.kind);
    c.nontrivial = true;
    c.check (!doc, "accepted:" + f.kind, "an invalid document is accepted: <" + ftag + "> at line " + std::to_string (line) + ": " + f.msg);
    c.desc << "\n" << err;
    if (in != path) // ids of imported elements are shown with their alias
      for (size_t at; (at = err.find ("whole#")) != string::npos;)
        err.erase (at, 6);
    if (f.kind == "import" && err.find ("file://" + c.tmpdir + "/imp") == 0)
      {
        // the circle is found inside an imported document
        size_t at = err.find (": Element <importBase> at line 1: Syntax error in imported document");
        c.check (at != string::npos && at > 4 && err.compare (at - 4, 4, ".ncl") == 0, "message:import", "got: " + err);
        return;
      }
    string want = "Element <" + ftag + "> at line " + std::to_string (line) + ": " + f.msg;
    c.check (err.find (want) != string::npos, "message:" + f.kind, "message is '" + err + "', expected '... " + want + " ...'");
    c.check (err.find ("file://" + in + ": ") == 0, "message-file", "the message does not start with the URI of the document: " + err);
  }, 16000, 600000 });

// C17 -----------------------------------------------------------------------------

struct Imports {
  Case &c;
  XNode &root;
  int nfiles = 0, moved = 0, nested = 0;
  map<string, string> rename; // "tag-class id" -> new reference
  map<string, XNode> files;   // relative path -> document
  Imports (Case &cc, XNode &r) : c (cc), root (r) {}
  XNode *base (XNode &doc, const string &tag, bool create)
  {
    XNode *head = nullptr;
    for (auto &k : doc.kids)
      if (k.tag == "head")
        head = &k;
    for (auto &k : head->kids)
      if (k.tag == tag)
        return &k;
    if (!create)
      return nullptr;
    head->kids.push_back (el (tag));
    return &head->kids.back ();
  }
  static string dir (const string &path)
  {
    size_t i = path.rfind ('/');
    return i == string::npos ? "" : path.substr (0, i + 1);
  }
  string refTo (const string &from, const string &to)
  {
    // FROM and TO are relative to the directory of the main document.
    string fd = dir (from);
    switch (c.src.draw (4))
      {
      case 1: return c.tmpdir + "/" + to;
      case 2: return "file://" + c.tmpdir + "/" + to;
      default:
        if (fd == "")
          return to;
        if (to.compare (0, fd.size (), fd) == 0)
          return to.substr (fd.size ());
        string up;
        for (char ch : fd)
          if (ch == '/')
            up += "../";
        return up + to;
      }
  }
  static void ids (const XNode &n, vector<string> &out)
  {
    for (auto &a : n.attrs)
      if (a.first == "id")
        out.push_back (a.second);
    for (auto &k : n.kids)
      ids (k, out);
  }
  void move (const string &tag, XNode &doc, const string &path, const string &prefix, int depth);
  void run ();
};
// Moves a suffix of the elements of base TAG of DOC into a document of its own.
void
Imports::move (const string &tag, XNode &doc, const string &path, const string &prefix, int depth)
{
  XNode *b = base (doc, tag, false);
  if (!b)
    return;
  size_t own = 0;
  while (own < b->kids.size () && b->kids[own].tag != "importBase")
    own++;
  if (!own)
    return;
  size_t at = c.src.draw (own);
  string alias = "i" + std::to_string (++nfiles);
  string to = (c.src.chance (1, 3) ? "sub/" : "") + string ("imp") + std::to_string (nfiles) + ".ncl";
  XNode f = el ("ncl");
  f.kids = { el ("head") };
  XNode *nb = base (f, tag, true);
  vector<string> ids_;
  for (size_t i = at; i < own; i++)
    {
      ids (b->kids[i], ids_);
      nb->kids.push_back (b->kids[i]);
    }
  b->kids.erase (b->kids.begin () + at, b->kids.begin () + own);
  for (auto &i : ids_)
    rename[i] = prefix + alias + "#" + i;
  if (tag == "descriptorBase")
    // The regions and transitions of the descriptors come along.
    for (const char *t : { "regionBase", "transitionBase" })
      if (XNode *o = base (doc, t, false))
        {
          // copies: those left behind stay in use
          XNode *n2 = base (f, t, true);
          for (auto &k : o->kids)
            if (k.tag != "importBase")
              n2->kids.push_back (k);
        }
  XNode imp = el ("importBase", { { "alias", alias }, { "documentURI", refTo (path, to) } });
  b = base (doc, tag, true);
  b->kids.insert (b->kids.begin () + c.src.draw (b->kids.size () + 1), imp);
  moved += (int) ids_.size ();
  if (c.src.chance (1, 3)) // things that are not imported
    {
      for (const char *t : { "ruleBase", "connectorBase" })
        if (tag != t && c.src.chance (1, 2))
          {
            XNode *o = base (f, t, true);
            if (string (t) == "ruleBase")
              o->kids.push_back (el ("rule", { { "id", "zz" }, { "var", "v" }, { "comparator", "bogus" }, { "value", "1" } }));
          }
      XNode body = el ("body", { { "id", "body" } });
      body.kids = { el ("media", { { "id", "m1" } }) };
      f.kids.push_back (body);
    }
  if (depth > 0 && tag != "descriptorBase" && c.src.chance (1, 2))
    {
      nested++;
      move (tag, f, to, prefix + alias + "#", depth - 1);
    }
  files[to] = f;
}
void
Imports::run ()
{
  for (const char *t : { "descriptorBase", "connectorBase", "ruleBase", "regionBase", "transitionBase" })
    for (int i = (int) c.src.draw (3); i > 0; i--)
      move (t, root, "", "", 2);
  // References in the main document.
  vector<Site> v = sites (root);
  std::set<string> mine;
  for (auto &s : v)
    for (auto &a : s.n->attrs)
      {
        const string &t = s.n->tag;
        if ((t == "link" && a.first == "xconnector") || (t == "bindRule" && a.first == "rule") || (t == "media" && a.first == "descriptor")
            || (t == "descriptor" && (a.first == "region" || a.first == "transIn" || a.first == "transOut")))
          {
            auto it = rename.find (a.second);
            if (it != rename.end ())
              a.second = it->second;
          }
      }
}

RegP c17 (Property{ "C17", "something that the document uses is in an imported document",
  [] (Case &c) {
    Prof p;
    richProf (c, p);
    p.regions = 70;
    p.links = 4;
    Lock l (c);
    doc::Doc d = doc::gen (c, p);
    string why;
    if (!doc::compile (d, c.tmpdir, &l.m, &why))
      return;
    doc::writeFiles (d, c.tmpdir);
    mkdir ((c.tmpdir + "/sub").c_str (), 0777);
    XNode root = doc::toNode (d, &c.src);
    Imports im (c, root);
    im.run ();
    string path = c.tmpdir + "/doc.ncl", t = doc::toXml (root);
    std::ofstream (path) << t;
    c.desc << t;
    int used = 0;
    for (auto &f : im.files)
      {
        string x = doc::toXml (f.second);
        std::ofstream (c.tmpdir + "/" + f.first) << x;
        c.desc << "--- " << f.first << "\n" << x;
        c.cls (f.second.kids[0].kids.empty () ? "empty" : f.second.kids[0].kids[0].tag);
      }
    for (auto &s : sites (root))
      for (auto &a : s.n->attrs)
        if (a.second.find ('#') != string::npos)
          used++;
    string err;
    std::unique_ptr<Document> real (Parser::parseFile (path, 800, 600, &err));
    c.check (real != nullptr, "refused", "a valid document was refused: " + err);
    lock::bind (c, l.m, real.get (), true, false);
    if (im.nested)
      c.cls ("nested");
    c.nontrivial = used > 0;
  }, 8000, 300000 });
}
