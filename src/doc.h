// Documents: a typed description, its XML, what it denotes (a mdl::Model,
// computed without ginga's parser) and random generation.
#ifndef VERIF_DOC_H
#define VERIF_DOC_H
#include "model.h"
#include "pbt.h"

namespace doc {
using namespace mdl;
typedef vector<std::pair<string, string> > Attrs;

struct XNode {
  string tag;
  Attrs attrs;
  vector<XNode> kids;
  string *attr (const string &n)
  {
    for (auto &a : attrs)
      if (a.first == n)
        return &a.second;
    return nullptr;
  }
  bool drop (const string &n)
  {
    for (auto it = attrs.begin (); it != attrs.end (); ++it)
      if (it->first == n)
        return attrs.erase (it), true;
    return false;
  }
};
string toXml (const XNode &, int depth = 0);
string escape (const string &);

struct Region { string id; Attrs attrs; vector<Region> kids; };
struct Desc { string id; Attrs attrs; Attrs params; };
struct Trans { string id; Attrs attrs; };
struct Rule {
  string id;
  bool comp = false;
  Predicate::Type op = Predicate::CONJUNCTION;
  string var, value;
  Predicate::Test test = Predicate::EQ;
  vector<Rule> kids;
};
struct Operand { bool role = false; string s; };
struct Stmt {
  bool atom = true;
  Predicate::Type op = Predicate::CONJUNCTION;
  bool negated = false;
  Predicate::Test test = Predicate::EQ;
  Operand l, r;
  vector<Stmt> kids;
};
struct Role {
  string role;
  bool reserved = true, condition = true;
  Event::Type type = Event::PRESENTATION;
  Event::Transition tr = Event::START;
  string key, value, duration, delay;
};
struct Cond {
  bool simple = true;
  Role role;
  vector<Cond> kids;
  vector<Stmt> stmts;
};
struct Conn {
  string id;
  Cond cond;
  vector<Role> acts;
};
struct Bind { string role, comp, iface; Attrs params; };
struct Link_ { string conn; Attrs params; vector<Bind> binds; };
struct Area { string id, begin, end, label; };
struct Port { string id, comp, iface; };
struct SPort { string id; vector<Port> maps; };
struct BRule { bool def = false; string comp, rule; };
struct Node {
  Kind kind = MEDIA;
  string id, src, type, refer, desc;
  Attrs props;
  vector<Area> areas;
  vector<Node> kids;
  vector<Port> ports;
  vector<SPort> sports;
  vector<BRule> rules;
  vector<Link_> links;
};
struct Doc {
  string nclId, bodyId;
  vector<Region> regions;
  vector<Desc> descs;
  vector<Trans> trans;
  vector<Rule> rules;
  vector<Conn> conns;
  Node body;
};

// XML of a document. With SHUF, element order is shuffled where it means nothing.
XNode toNode (const Doc &, pbt::Src *shuf = nullptr);
// What a document denotes; media paths are relative to DIR. W,H: screen size.
// Returns false (with WHY) if a reference does not resolve.
bool compile (const Doc &, const string &dir, mdl::Model *, string *why);

// Generation profile.
struct Prof {
  int nodes = 6, depth = 2;
  unsigned wCtx = 2, wMedia = 6, wSwitch = 1, wRefer = 1, wSettings = 1;
  unsigned remote = 0;     // medias presented by other devices
  unsigned dirs = 0;       // media files in directories
  unsigned lua = 30;       // percentages
  unsigned area = 40, label = 20, dur = 50, props = 50, focus = 10, port = 70, portIface = 30, portProp = 8;
  bool mustSwitch = false; // the body has a switch
  unsigned defaultComp = 60;
  bool aliasCtx = false; // contexts with references have medias that keep them awake
  int links = 4;
  unsigned delay = 20, duration = 20, pred = 25, bindParam = 30, compoundCond = 25, sharedConn = 25;
  unsigned wPres = 10, wAttr = 3, wSel = 2, wLook = 1;
  unsigned custom = 20;    // custom roles
  unsigned desc = 0, regions = 0, trans = 0;
  unsigned abortPause = 40;  // how often pause/resume/abort among presentation roles
  int maxActs = 3, maxConds = 2;
  unsigned alias = 0;      // how often links are bound to references
  unsigned moves = 30;
  unsigned curFocus = 0;   // how often attribution conditions are on the current focus
};
Doc gen (pbt::Case &, const Prof &);
// Fills in DIR with the media files that the document names.
void writeFiles (const Doc &, const string &dir);
extern const vector<string> TIMES; // time constants in use
}
#endif
