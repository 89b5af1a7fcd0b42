// Runs a document in ginga and in the reference model in lock step.
#ifndef VERIF_LOCK_H
#define VERIF_LOCK_H
#include "doc.h"
#include "fakes.h"
#include "pbt.h"
#include "Context.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Parser.h"
#include "Switch.h"
#include <memory>

namespace lock {
using namespace mdl;

struct Ops {
  int n = 12;
  unsigned wTick = 6, wKey = 2, wAct = 5, wStop = 0, wPost = 0, wRedraw = 0;
  unsigned actPres = 8, actAttr = 3, actOther = 1;
  unsigned rootAct = 10;  // percent of the acts aimed at the body that are kept
  unsigned zeroTick = 5;  // percentage of ticks of length 0
  unsigned smart = 50;    // percentage of the acts that suit the state
  unsigned aim = 35;      // percentage of the steps aimed at a link's condition
  unsigned freeze = 8;    // percentage of the steps that pause something for a while
  unsigned aimFocus = 0;  // percentage of the steps that move the focus, if they can
  unsigned sessions = 1;  // number of times the document is presented
};
enum { ALL = 0xff };

struct Lock {
  pbt::Case &c;
  doc::Doc d;
  mdl::Model m;
  ginga::Formatter *f = nullptr;
  ginga::Document *real = nullptr;
  string path;
  map<ginga::Event *, Ev *> evOf;
  map<ginga::Object *, Obj *> objOf;
  bool discarded = false;
  int step = 0;
  long budget = 3000;

  explicit Lock (pbt::Case &cc) : c (cc) {}
  ~Lock ();
  // Generates (or takes) the document, writes, parses, binds and starts it.
  bool load (const doc::Doc &);
  // If set, changes what the document denotes once compiled.
  std::function<void (mdl::Model &)> tweak;
  bool begin ();                       // Formatter::start and model start
  void run (const Ops &);
  bool op (const Ops &);
  bool guarded (const std::function<void ()> &model, const std::function<void ()> &impl, const string &what);
  void compare (const string &after);
  void invariants (const string &after);
  bool again ();                       // presents the document once more
  bool playing () const { return m.playing && !discarded; }
  bool tick (T diff);
  bool key (const string &, bool press);
  bool act (Ev *, Event::Transition, const string &value);
  bool stop ();
  struct Post { bool key; string type, action, name, value; };
  std::map<string, vector<Post> > posted; // by script
  bool post ();                        // a script posts events
  bool redraw ();
  bool moveDirs = false;               // the calling program changes its directory
  string changeDir ();
  T total = 0;
  long frame = 0;
};
// Takes the messages sent to other devices since the last call.
vector<string> webRemote ();
// Associates the objects and events of M with those of REAL (reordering the
// model's sets alike), and compares what they denote. Fails the case if not.
void bind (pbt::Case &, mdl::Model &, ginga::Document *, bool compareStatic, bool zorder = true);
// While a bound is set, a presentation with more transitions than that in one
// call is given up by throwing Overrun.
struct Overrun {};
extern long transitionBound;
string canon (const Pred &);
string canon (ginga::Predicate *);
void discardedCase (pbt::Case &);
}
#endif
