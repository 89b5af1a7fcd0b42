// Minimal property-based-testing engine.
//
// Every case is a deterministic function of a sequence of choices ("draws").
// A failing case is therefore a sequence of numbers: it can be replayed
// exactly and shrunk generically (delete, zero and lower draws), whatever the
// generator builds from it.  Cases run in forked workers, so that an abort, a
// sanitizer report or a hang of the code under test is a failure of the case
// and not of the harness.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string key, msg;
};

class Src {
public:
  explicit Src (uint64_t seed) : _s (seed ? seed : 0x9e3779b97f4a7c15ull), _replay (nullptr) {}
  explicit Src (const std::vector<uint64_t> *replay) : _s (1), _replay (replay) {}
  // Uniform in [0,n); 0 is the simplest value.
  uint64_t draw (uint64_t n);
  // Integer in [lo,hi], simplest is lo.
  int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) draw ((uint64_t) (hi - lo) + 1); }
  // True with probability num/den; false is simplest.
  bool chance (unsigned num, unsigned den) { return draw (den) >= den - num; }
  template <class T> const T &pick (const std::vector<T> &v) { return v[draw (v.size ())]; }
  // Index by weight; index 0 is simplest.
  size_t weighted (const std::vector<unsigned> &w);
  std::vector<uint64_t> rec;

private:
  uint64_t next ();
  uint64_t _s;
  const std::vector<uint64_t> *_replay;
  size_t _pos = 0;
};

struct Case {
  explicit Case (Src &s) : src (s) {}
  Src &src;
  int size = 30;            // 0..100, grows with the case number
  std::ostringstream desc;  // what was generated, in readable form
  bool nontrivial = false;  // by the property's stated rule
  std::set<std::string> classes;
  std::string tmpdir;       // private scratch directory
  void cls (const std::string &s) { classes.insert (s); }
  void fail [[noreturn]] (const std::string &key, const std::string &msg);
  void check (bool ok, const std::string &key, const std::string &msg) { if (!ok) fail (key, msg); }
  template <class A, class B> void eq (const A &got, const B &want, const std::string &key, const std::string &what)
  {
    if (!(got == want))
      {
        std::ostringstream o;
        o << what << ": got " << show (got) << ", expected " << show (want);
        fail (key, o.str ());
      }
  }
  static std::string show (const std::string &s) { return "'" + s + "'"; }
  static std::string show (const char *s) { return std::string ("'") + s + "'"; }
  static std::string show (bool b) { return b ? "true" : "false"; }
  template <class T> static std::string show (const T &t) { std::ostringstream o; o.precision (17); o << t; return o.str (); }
};

typedef std::function<void (Case &)> Fn;

struct Property {
  std::string id, rule;
  Fn fn;
  unsigned quick, thorough;  // number of cases
  std::vector<std::string> assumptions;
  unsigned case_timeout = 20; // seconds
};
struct Probe {
  std::string id, name;
  Fn fn;
};

std::vector<Property> &properties ();
std::vector<Probe> &probes ();

struct RegP { explicit RegP (const Property &p) { properties ().push_back (p); } };
struct RegProbe { RegProbe (const char *id, const char *name, Fn fn) { probes ().push_back ({ id, name, fn }); } };

// Probe: one fixed case of a property (a regression of a fixed defect, or the
// exact input of a known finding).
#define PROBE(ID, NAME)                                                        \
  static void probe_##ID##_##NAME (pbt::Case &);                               \
  static pbt::RegProbe reg_probe_##ID##_##NAME (#ID, #NAME, probe_##ID##_##NAME); \
  static void probe_##ID##_##NAME (pbt::Case &c)

int main_ (int argc, char **argv);

// Called by the default log handler for fatal messages.
void note_fatal (const char *msg);
}
#endif
