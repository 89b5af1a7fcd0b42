// Reference model of an NCL presentation: the objects, events, links, ports
// and rules a document denotes, and an interpreter of their behaviour.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "aux-ginga.h"
#include "Document.h"
#include "Event.h"
#include "Object.h"
#include "Predicate.h"
#include <deque>
#include <memory>

namespace mdl {
using ginga::Event;
using ginga::Predicate;
using std::string;
using std::vector;
using std::map;
typedef uint64_t T;
static const T NONE = UINT64_MAX;
static const T SEC = 1000000000ull;

enum Kind { CTX, MEDIA, SETTINGS, SWITCH };
struct Obj;

struct Pred {
  Predicate::Type type = Predicate::VERUM;
  Predicate::Test test = Predicate::EQ;
  string left, right;
  vector<std::shared_ptr<Pred> > kids;
  string str () const;
};
typedef std::shared_ptr<Pred> PredP;

struct Ev {
  Obj *obj = nullptr;
  Event::Type type = Event::PRESENTATION;
  string id, label;
  T begin = 0, end = NONE;
  Event::State st = Event::SLEEPING;
  string value, duration, key;
  Event *real = nullptr;
  string full () const;
};
struct Act {
  Ev *ev = nullptr;
  Event::Transition tr = Event::START;
  string value, duration, delay;
  PredP pred;
  bool link = false; // postponed by a link
};
struct Link { vector<Act> conds, acts; };
struct Plr {
  bool exists = false;
  int state = 0; // 0 sleeping 1 occurring 2 paused
  T dur = NONE;
  string focus;
  map<string, string> props;
  bool eos = false;
  bool remote = false;  // presented by another device
};
struct Obj {
  string id;
  Kind kind = MEDIA;
  Obj *parent = nullptr;
  vector<Obj *> kids;
  vector<Ev *> evs;
  Ev *lambda = nullptr;
  map<string, string> props;
  vector<std::pair<string, Obj *> > aliases;
  T time = NONE;
  vector<std::pair<Act, T> > delayed;
  std::deque<Act> due;
  // context
  int awake = 0;
  bool fromport = false;
  vector<Ev *> ports;
  vector<Link> links;
  // switch
  vector<std::pair<Obj *, PredP> > rules;
  map<string, vector<Ev *> > sports;
  Obj *selected = nullptr;
  // media
  Plr pl;
  ginga::Object *real = nullptr;
  T st_time () const { return time; }
  bool isMedia () const { return kind == MEDIA || kind == SETTINGS; }
  bool occ () const { return lambda->st == Event::OCCURRING; }
  bool sleeping () const { return lambda->st == Event::SLEEPING; }
  bool paused () const { return lambda->st == Event::PAUSED; }
  Ev *find (Event::Type t, const string &id) const;
  string prop (const string &n) const { auto it = props.find (n); return it == props.end () ? "" : it->second; }
};

struct Diverged {};

struct Model {
  vector<std::unique_ptr<Obj> > own;
  vector<std::unique_ptr<Ev> > ownev;
  vector<Obj *> objs;
  Obj *root = nullptr, *settings = nullptr;
  // presentation state
  bool playing = false;
  string focus;
  bool focusPending = false;
  string focusNext;
  vector<string> log;   // what NCLua scripts should see
  vector<string> rlog;  // what other devices should be told
  long budget = 0;
  int depth = 0;
  // statistics
  map<string, long> stat;

  Obj *newObj (Kind k, const string &id);
  Ev *addEv (Obj *, Event::Type, const string &id);
  Obj *byId (const string &id) const;
  Obj *byIdOrAlias (const string &id) const;

  bool transition (Ev *, Event::Transition);
  int eval (Act);
  int eval (Ev *e, Event::Transition t, const string &v = "") { Act a; a.ev = e; a.tr = t; a.value = v; return eval (a); }
  bool start ();
  void stop ();
  bool tick (T diff);
  bool key (const string &k, bool press);
  bool pred (const Pred &);
  bool ref (const string &, string *);
  void setProp (Obj *, const string &, const string &, T dur);
  static T ptime (const string &);
  string mime (Obj *);
  bool usesRemote (Obj *o) { return mime (o) == "application/x-ncl360" || o->prop ("device") != ""; }
  void delay (Obj *, Ev *, Event::Transition, const string &value, T delay, const string &duration = "");
  void postDelayed (Obj *o, Ev *e, Event::Transition t, const string &v) { delay (o, e, t, v, 0); }

private:
  bool before (Ev *, Event::Transition);
  bool after (Ev *, Event::Transition);
  void doStart (Obj *);
  void doStop (Obj *);
  void mediaStop (Obj *);
  void selectedStopped (Obj *sw, Obj *o, Event::Transition t);
  void wakeParent (Obj *);
  void objTick (Obj *, T diff);
  void sendTick (Obj *, T diff);
  void sendKey (Obj *, const string &, bool);
  void inContext (const Act &, Obj *ctx, vector<Act> &stack);
  void plrSet (Obj *, const string &, const string &);
  bool focused (Obj *o) { return o->pl.focus != "" && o->pl.focus == focus; }
  bool lua (Obj *o) { return o->pl.exists && !o->pl.remote && mime (o) == "application/x-ginga-NCLua"; }
  void sayRemote (Obj *, const string &action, const string &label);
  void say (Obj *, const string &kind, const string &a, const string &b, const string &c);
};
const char *trName (Event::Transition);
}
#endif
