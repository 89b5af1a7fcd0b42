#include "pbt.h"
#include "fakes.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
extern "C" void __sanitizer_set_death_callback (void (*) (void));
extern "C" void __sanitizer_print_stack_trace (void);
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include <glib.h>

using std::string;
using std::vector;

namespace pbt {

static const size_t MAXDRAW = 1 << 15;
static const size_t MAXMSG = 4096;
struct Shared {
  volatile uint64_t ndraws;
  uint64_t draws[MAXDRAW];
  volatile uint64_t index;      // current case index
  volatile uint64_t batch_from; // first case of the worker process
  volatile double started;      // start time of the current case
  volatile int status;          // 0 running, 1 ok, 2 failed
  char key[256];
  char msg[MAXMSG];
  char fatal[512];
};
static Shared *g_sh = nullptr;

static double now ()
{
  using namespace std::chrono;
  return duration<double> (steady_clock::now ().time_since_epoch ()).count ();
}

vector<Property> &properties () { static vector<Property> v; return v; }
vector<Probe> &probes () { static vector<Probe> v; return v; }

void note_fatal (const char *msg)
{
  if (g_sh)
    {
      strncpy (g_sh->fatal, msg ? msg : "", sizeof g_sh->fatal - 1);
    }
}

uint64_t Src::next ()
{
  uint64_t z = (_s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Src::draw (uint64_t n)
{
  uint64_t v;
  if (n == 0) n = 1;
  if (_replay)
    {
      v = _pos < _replay->size () ? (*_replay)[_pos] : 0;
      _pos++;
      if (v >= n) v = n - 1;
    }
  else
    v = next () % n;
  rec.push_back (v);
  if (g_sh && rec.size () <= MAXDRAW)
    {
      g_sh->draws[rec.size () - 1] = v;
      g_sh->ndraws = rec.size ();
    }
  return v;
}
size_t Src::weighted (const vector<unsigned> &w)
{
  unsigned t = 0;
  for (auto x : w) t += x;
  uint64_t v = draw (t);
  for (size_t i = 0; i < w.size (); i++)
    {
      if (v < w[i]) return i;
      v -= w[i];
    }
  return 0;
}
void Case::fail (const string &key, const string &msg) { throw Failure{ key, msg }; }

static uint64_t fnv (const string &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
static uint64_t mix (uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static string jstr (const string &s)
{
  string o = "\"";
  for (unsigned char c : s)
    {
      char b[8];
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 0x20 || c >= 0x7f) { snprintf (b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
  return o + "\"";
}

struct Result {
  bool ok = true;
  string key, msg, log, desc;
  bool nontrivial = false;
  std::set<string> classes;
  vector<uint64_t> rec;
};

static string scratch;

// Runs the case in this process.
// Saves the description of a case that dies.
static Case *g_case;
static string g_deskfile;
static void save_desc ()
{
  if (!g_case || g_deskfile.empty ()) return;
  string s = g_case->desc.str ();
  g_case = nullptr;
  int fd = open (g_deskfile.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) return;
  if (write (fd, s.data (), s.size ()) < 0) {}
  close (fd);
}

static void on_usr1 (int)
{
  save_desc ();
  __sanitizer_print_stack_trace ();
  _exit (97);
}
static void on_abort (int sig)
{
  signal (sig, SIG_DFL);
  save_desc ();
  raise (sig);
}

static Result run_here (const Fn &fn, Src &src, int size, const string &tmp)
{
  Result r;
  Case c (src);
  c.size = size;
  c.tmpdir = tmp;
  if (chdir (tmp.c_str ())) {} // relative paths mean the same everywhere
  g_case = &c;
  try { fn (c); }
  catch (Failure &f) { r.ok = false; r.key = f.key; r.msg = f.msg; }
  catch (std::exception &e) { r.ok = false; r.key = "exception"; r.msg = string ("uncaught exception: ") + e.what (); }
  g_case = nullptr;
  r.desc = c.desc.str ();
  r.nontrivial = c.nontrivial;
  r.classes = c.classes;
  r.rec = src.rec;
  return r;
}

static string slurp (const string &p, size_t max = 1 << 20)
{
  std::ifstream f (p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf ();
  string s = o.str ();
  if (s.size () > max) s.resize (max);
  return s;
}
static void rm_rf (const string &p)
{
  if (p.find ("/tmp/gv.") != 0) return;
  pid_t k = fork ();
  if (k == 0) { execlp ("rm", "rm", "-rf", "--", p.c_str (), (char *) 0); _exit (1); }
  int st; waitpid (k, &st, 0);
}

static void log_handler (const gchar *dom, GLogLevelFlags lvl, const gchar *msg, gpointer)
{
  if (lvl & (G_LOG_FLAG_FATAL | G_LOG_LEVEL_ERROR))
    {
      string s = string ("fatal log: ") + (msg ? msg : "");
      note_fatal (s.c_str ());
      fprintf (stderr, "%s\n", s.c_str ());
      fflush (stderr);
    }
}
static GPrintFunc old_err;
static void printerr_handler (const gchar *s) { fputs (s, stderr); }

static void child_setup (const string &errfile)
{
  int fd = open (errfile.c_str (), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  dup2 (fd, 2);
  int nul = open ("/dev/null", O_RDWR);
  dup2 (nul, 1);
  dup2 (nul, 0);
  g_log_set_default_handler (log_handler, nullptr);
  g_set_printerr_handler (printerr_handler);
  signal (SIGPIPE, SIG_IGN);
}

static string crash_summary (const string &log, int st, const char *fatal)
{
  std::istringstream in (log);
  string line, best;
  while (std::getline (in, line))
    {
      if (line.find ("runtime error:") != string::npos && best.empty ()) best = line;
      if (line.find ("SUMMARY:") != string::npos && (best.empty () || best.find ("runtime error") == string::npos)) best = line;
      if (line.find ("ERROR:/") != string::npos && best.empty ()) best = line;
    }
  if (best.empty () && fatal && *fatal) best = fatal;
  if (best.empty ()) best = "no message";
  std::ostringstream o;
  if (WIFSIGNALED (st)) o << "signal " << WTERMSIG (st);
  else o << "exit " << WEXITSTATUS (st);
  return o.str () + ": " + best;
}

struct ChildOut { bool hang; };

// Runs a list of cases (each a Fn over choices) in one forked child; the last
// one is the one that is judged.
static Result run_forked (const Fn &fn, const vector<vector<uint64_t>> &seqs, const vector<int> &sizes, unsigned timeout)
{
  static int n = 0;
  string dir = scratch + "/f" + std::to_string (n++);
  mkdir (dir.c_str (), 0700);
  string err = dir + "/stderr";
  Shared *sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush (stdout);
  pid_t pid = fork ();
  if (pid == 0)
    {
      setpgid (0, 0);
      g_sh = sh;
      child_setup (err);
      g_deskfile = dir + "/desc";
      signal (SIGABRT, on_abort);
      signal (SIGTRAP, on_abort);
      signal (SIGUSR1, on_usr1);
      __sanitizer_set_death_callback (save_desc);
      Result r;
      for (size_t i = 0; i < seqs.size (); i++)
        {
          string t = dir + "/t";
          mkdir (t.c_str (), 0700);
          sh->ndraws = 0;
          sh->fatal[0] = 0;
          sh->index = i;
          Src s (&seqs[i]);
          r = run_here (fn, s, sizes[i], t);
        }
      std::ofstream d (dir + "/desc", std::ios::binary);
      d << r.desc;
      d.close ();
      strncpy (sh->key, r.key.c_str (), sizeof sh->key - 1);
      strncpy (sh->msg, r.msg.c_str (), sizeof sh->msg - 1);
      sh->status = r.ok ? 1 : 2;
      _exit (0);
    }
  double t0 = now ();
  int st = 0;
  bool hang = false;
  double limit = timeout * (double) seqs.size ();
  if (limit > 120 && seqs.size () > 1) limit = 120;
  useconds_t nap = 200;
  bool told = false;
  while (waitpid (pid, &st, WNOHANG) == 0)
    {
      if (!told && now () - t0 > limit) { told = hang = true; kill (pid, SIGUSR1); }
      if (now () - t0 > limit + 2) { kill (-pid, SIGKILL); kill (pid, SIGKILL); waitpid (pid, &st, 0); hang = true; break; }
      usleep (nap);
      if (nap < 5000) nap = nap * 3 / 2;
    }
  kill (-pid, SIGKILL);
  Result r;
  r.rec.assign (sh->draws, sh->draws + std::min<uint64_t> ((uint64_t) sh->ndraws, (uint64_t) MAXDRAW));
  r.log = slurp (err);
  if (hang) { r.ok = false; r.key = "hang"; r.msg = "case did not finish in time"; }
  else if (sh->status == 1 && WIFEXITED (st) && WEXITSTATUS (st) == 0) r.ok = true;
  else if (sh->status == 2) { r.ok = false; r.key = sh->key; r.msg = sh->msg; }
  else { r.ok = false; r.key = "crash"; r.msg = crash_summary (r.log, st, sh->fatal); }
  r.desc = slurp (dir + "/desc");
  munmap (sh, sizeof (Shared));
  rm_rf (dir);
  return r;
}

static vector<uint64_t> shrink (const Fn &fn, vector<uint64_t> best, int size, const string &key, unsigned timeout, double budget, int &tries)
{
  double t0 = now ();
  auto still = [&] (const vector<uint64_t> &cand) -> bool {
    if (now () - t0 > budget) return false;
    tries++;
    Result r = run_forked (fn, { cand }, { size }, timeout);
    return !r.ok && r.key == key;
  };
  auto better = [] (const vector<uint64_t> &a, const vector<uint64_t> &b) {
    if (a.size () != b.size ()) return a.size () < b.size ();
    return a < b;
  };
  bool changed = true;
  while (changed && now () - t0 < budget)
    {
      changed = false;
      // delete chunks
      for (size_t k = std::max<size_t> (best.size () / 2, 1); k >= 1; k /= 2)
        {
          for (size_t i = 0; i + k <= best.size ();)
            {
              vector<uint64_t> c (best);
              c.erase (c.begin () + i, c.begin () + i + k);
              if (now () - t0 > budget) break;
              if (still (c)) { best = c; changed = true; }
              else i += (k > 8 ? k / 2 : 1);
            }
          if (k == 1) break;
        }
      // zero chunks
      for (size_t k = 8; k >= 1; k /= 2)
        {
          for (size_t i = 0; i + k <= best.size (); i += k)
            {
              vector<uint64_t> c (best);
              bool nz = false;
              for (size_t j = i; j < i + k; j++) { nz |= c[j] != 0; c[j] = 0; }
              if (nz && still (c)) { best = c; changed = true; }
            }
          if (k == 1) break;
        }
      // lower values
      for (size_t i = 0; i < best.size (); i++)
        {
          if (best[i] == 0) continue;
          vector<uint64_t> c (best);
          uint64_t lo = 0, hi = best[i];
          while (lo + 1 < hi && now () - t0 < budget)
            {
              uint64_t mid = lo + (hi - lo) / 2;
              c[i] = mid;
              if (still (c)) { hi = mid; }
              else lo = mid;
            }
          c[i] = hi;
          if (hi != best[i]) { best = c; changed = true; }
        }
      (void) better;
    }
  return best;
}

static const Property *find (const string &id)
{
  for (auto &p : properties ())
    if (p.id == id) return &p;
  return nullptr;
}

struct Finding { string prop, probe, text; };
static vector<Finding> load_findings (const string &file)
{
  vector<Finding> v;
  std::ifstream f (file);
  string line;
  while (std::getline (f, line))
    {
      if (line.compare (0, 9, "finding: ") != 0) continue;
      std::istringstream in (line.substr (9));
      string a, b, rest;
      in >> a >> b;
      std::getline (in, rest);
      if (a.compare (0, 9, "property=") || b.compare (0, 6, "probe=")) continue;
      v.push_back ({ a.substr (9), b.substr (6), rest.empty () ? rest : rest.substr (1) });
    }
  return v;
}

static string verif_dir ()
{
  const char *e = getenv ("VERIF_DIR");
  return e ? e : "/verif";
}

static string write_replay (const string &id, const string &kind, const vector<vector<uint64_t>> &seqs, const vector<int> &sizes,
                            const string &key, const string &msg, const string &desc, const string &log)
{
  string dir = verif_dir () + "/replays";
  mkdir (dir.c_str (), 0755);
  std::ostringstream o;
  o << "property " << id << "\n" << "kind " << kind << "\n";
  for (size_t i = 0; i < seqs.size (); i++)
    {
      o << "case " << sizes[i];
      for (auto x : seqs[i]) o << ' ' << x;
      o << "\n";
    }
  o << "end\n# failure: " << key << ": " << msg << "\n";
  if (!desc.empty ()) o << "# ---- generated case ----\n" << desc << "\n";
  if (!log.empty ()) o << "# ---- stderr ----\n" << log.substr (0, 6000) << "\n";
  char h[32];
  snprintf (h, sizeof h, "%016llx", (unsigned long long) fnv (o.str ()));
  string path = dir + "/" + id + "-" + h + ".replay";
  std::ofstream (path, std::ios::binary) << o.str ();
  return path;
}

static int size_of (uint64_t i) { return (int) std::min<uint64_t> (100, 10 + i % 91); }

static int do_check (const Property &p, const string &tier, uint64_t seed, unsigned cases, unsigned nworkers, double cap)
{
  double t0 = now ();
  auto findings = load_findings (verif_dir () + "/known-findings.txt");
  int violations = 0, known = 0, nprobes = 0;
  uint64_t shrinks = 0;
  auto report = [&] (const string &path) {
    printf ("VIOLATION property=%s replay=%s\n", p.id.c_str (), path.c_str ());
    fflush (stdout);
    violations++;
  };
  // 1. fixed cases
  for (auto &pr : probes ())
    {
      if (pr.id != p.id) continue;
      nprobes++;
      Result r = run_forked (pr.fn, { {} }, { 30 }, p.case_timeout);
      if (r.ok) continue;
      const Finding *f = nullptr;
      for (auto &x : findings)
        if (x.prop == p.id && x.probe == pr.name) f = &x;
      if (f)
        {
          printf ("KNOWN-FINDING: property=%s %s\n", p.id.c_str (), f->text.c_str ());
          fflush (stdout);
          known++;
          continue;
        }
      bool again = true;
      for (int i = 0; i < 2 && again; i++)
        again = !run_forked (pr.fn, { {} }, { 30 }, p.case_timeout).ok;
      if (!again) { printf ("note: probe %s of %s failed once and not again: %s\n", pr.name.c_str (), p.id.c_str (), r.msg.c_str ()); continue; }
      printf ("%s: probe %s: %s: %s\n", p.id.c_str (), pr.name.c_str (), r.key.c_str (), r.msg.c_str ());
      report (write_replay (p.id, "probe " + pr.name, {}, {}, r.key, r.msg, r.desc, r.log));
    }

  // 2. generated cases
  struct W { pid_t pid = -1; Shared *sh; string dir, err, stat; uint64_t next; bool done = false; };
  vector<W> ws (nworkers);
  uint64_t evaluations = 0;
  auto spawn = [&] (unsigned w, uint64_t from) {
    W &x = ws[w];
    memset ((void *) x.sh, 0, sizeof (Shared));
    x.sh->batch_from = from;
    x.sh->index = from;
    x.sh->started = now ();
    fflush (stdout);
    pid_t pid = fork ();
    if (pid == 0)
      {
        setpgid (0, 0);
        g_sh = x.sh;
        child_setup (x.err);
        FILE *st = fopen (x.stat.c_str (), "ab");
        string t = x.dir + "/t";
        mkdir (t.c_str (), 0700);
        unsigned k = 0;
        bool sampled = from >= 4 * nworkers * 150; // samples come from the first cases
        for (uint64_t i = from; i < cases; i += nworkers, k++)
          {
            if (k >= 150) break; // a fresh process now and then
            if (now () - t0 > cap) break;
            if (ftruncate (2, 0)) {}
            x.sh->ndraws = 0;
            x.sh->fatal[0] = 0;
            x.sh->index = i;
            x.sh->started = now ();
            Src s (mix (mix (seed, fnv (p.id)), i));
            Result r = run_here (p.fn, s, size_of (i), t);
            // stats: hash nontrivial classes
            string cl;
            for (auto &c : r.classes) cl += (cl.empty () ? "" : ",") + c;
            fprintf (st, "%llu %016llx %d %s\n", (unsigned long long) i, (unsigned long long) fnv (r.desc), r.nontrivial ? 1 : 0, cl.empty () ? "-" : cl.c_str ());
            if (r.nontrivial && r.ok && !sampled)
              {
                sampled = true;
                std::ofstream d (x.dir + "/sample", std::ios::binary);
                d << r.desc.substr (0, 3000);
              }
            if (!r.ok)
              {
                strncpy (x.sh->key, r.key.c_str (), sizeof x.sh->key - 1);
                strncpy (x.sh->msg, r.msg.c_str (), sizeof x.sh->msg - 1);
                x.sh->status = 2;
                fclose (st);
                _exit (0);
              }
          }
        x.sh->status = 1;
        fclose (st);
        _exit (0);
      }
    x.pid = pid;
  };
  for (unsigned w = 0; w < nworkers; w++)
    {
      W &x = ws[w];
      x.sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      x.dir = scratch + "/w" + std::to_string (w);
      mkdir (x.dir.c_str (), 0700);
      x.err = x.dir + "/stderr";
      x.stat = x.dir + "/stat";
      if (w < cases) spawn (w, w); else x.done = true;
    }
  struct Bad { uint64_t index, from; vector<uint64_t> rec; string key, msg, log; };
  vector<Bad> bads;
  unsigned flaky = 0;
  bool stop = false;
  while (!stop)
    {
      bool alive = false;
      for (unsigned w = 0; w < nworkers; w++)
        {
          W &x = ws[w];
          if (x.done) continue;
          alive = true;
          int st;
          pid_t k = waitpid (x.pid, &st, WNOHANG);
          bool hang = false;
          if (k == 0)
            {
              if (now () - x.sh->started < p.case_timeout + 10) continue;
              kill (-x.pid, SIGKILL); kill (x.pid, SIGKILL);
              waitpid (x.pid, &st, 0);
              hang = true;
            }
          kill (-x.pid, SIGKILL);
          if (!hang && x.sh->status == 1 && WIFEXITED (st))
            {
              uint64_t nxt = x.sh->index + nworkers;
              if (nxt < cases && now () - t0 < cap) spawn (w, nxt);
              else x.done = true;
              continue;
            }
          Bad b;
          b.index = x.sh->index;
          b.from = x.sh->batch_from;
          b.rec.assign (x.sh->draws, x.sh->draws + std::min<uint64_t> ((uint64_t) x.sh->ndraws, (uint64_t) MAXDRAW));
          b.log = slurp (x.err);
          if (hang) { b.key = "hang"; b.msg = "case did not finish in time"; }
          else if (x.sh->status == 2) { b.key = x.sh->key; b.msg = x.sh->msg; }
          else { b.key = "crash"; b.msg = crash_summary (b.log, st, x.sh->fatal); }
          bads.push_back (b);
          stop = true;
          x.done = true;
        }
      if (!alive) break;
      if (stop)
        {
          for (auto &x : ws)
            if (!x.done) { kill (-x.pid, SIGKILL); kill (x.pid, SIGKILL); int st; waitpid (x.pid, &st, 0); x.done = true; }
          // Confirm.
          for (auto &b : bads)
            {
              int sz = size_of (b.index);
              auto once = [&] (const vector<uint64_t> &v) { Result r = run_forked (p.fn, { v }, { sz }, p.case_timeout); return !r.ok; };
              int n = 0;
              for (int i = 0; i < 3; i++) n += once (b.rec);
              if (n == 3)
                {
                  Result r0 = run_forked (p.fn, { b.rec }, { sz }, p.case_timeout);
                  string key = r0.ok ? b.key : r0.key;
                  int tries = 0;
                  auto sm = shrink (p.fn, b.rec, sz, key, key == "hang" ? 8 : p.case_timeout, getenv ("GV_SHRINK") ? atof (getenv ("GV_SHRINK")) : tier == "quick" ? 45 : 150, tries);
                  shrinks += tries;
                  Result r = run_forked (p.fn, { sm }, { sz }, p.case_timeout);
                  if (r.ok) { sm = b.rec; r = run_forked (p.fn, { sm }, { sz }, p.case_timeout); if (r.ok) { r.key = b.key; r.msg = b.msg; r.log = b.log; } }
                  printf ("%s: case %llu: %s: %s (%d shrink steps, %zu -> %zu choices)\n", p.id.c_str (), (unsigned long long) b.index, r.key.c_str (), r.msg.c_str (), tries, b.rec.size (), sm.size ());
                  report (write_replay (p.id, "choices", { sm }, { sz }, r.key, r.msg, r.desc, r.log));
                }
              else
                {
                  // Only in the company of the cases before it?
                  vector<vector<uint64_t>> seqs;
                  vector<int> sizes;
                  // regenerate the prefix by seed: record the draws of each
                  for (uint64_t i = b.from; i <= b.index; i += nworkers)
                    {
                      sizes.push_back (size_of (i));
                      seqs.push_back ({});
                    }
                  Fn batch = [&] (Case &c) {
                    for (uint64_t i = b.from; i <= b.index; i += nworkers)
                      {
                        Src s (mix (mix (seed, fnv (p.id)), i));
                        Case cc (s);
                        cc.size = size_of (i);
                        cc.tmpdir = c.tmpdir;
                        try
                          {
                            p.fn (cc);
                          }
                        catch (Failure &)
                          {
                            c.desc << cc.desc.str ();
                            throw;
                          }
                      }
                  };
                  int m = 0;
                  Result last;
                  for (int i = 0; i < 3; i++) { Result r = run_forked (batch, { {} }, { 30 }, 120); if (!r.ok) { m++; last = r; } }
                  if (m == 3)
                    {
                      printf ("%s: case %llu (after the cases before it): %s: %s\n", p.id.c_str (), (unsigned long long) b.index, last.key.c_str (), last.msg.c_str ());
                      std::ostringstream k;
                      k << "batch " << seed << " " << b.from << " " << b.index << " " << nworkers;
                      report (write_replay (p.id, k.str (), {}, {}, last.key, last.msg, last.desc, last.log));
                    }
                  else
                    {
                      flaky++;
                      printf ("note: %s: case %llu failed once (%s: %s) and did not fail again in %d+%d replays; not reported\n", p.id.c_str (), (unsigned long long) b.index, b.key.c_str (), b.msg.c_str (), n, m);
                      fflush (stdout);
                    }
                }
            }
          if (violations == 0 && flaky < 3)
            {
              // go on with the rest
              stop = false;
              for (auto &b : bads)
                (void) b;
              bads.clear ();
              for (unsigned w = 0; w < nworkers; w++)
                {
                  uint64_t nxt = ws[w].sh->index + nworkers;
                  if (nxt < cases && now () - t0 < cap) { ws[w].done = false; spawn (w, nxt); }
                }
            }
        }
      usleep (3000);
    }
  // 3. evidence
  std::set<string> seen;
  std::map<string, uint64_t> classes;
  uint64_t nontriv = 0;
  vector<string> samples;
  for (auto &x : ws)
    {
      std::ifstream f (x.stat);
      string line;
      while (std::getline (f, line))
        {
          std::istringstream in (line);
          string i, h, n, c;
          in >> i >> h >> n;
          std::getline (in, c);
          evaluations++;
          if (n == "1" && seen.insert (h).second) nontriv++;
          if (!c.empty () && c != " -")
            {
              std::istringstream cs (c.substr (1));
              string one;
              while (std::getline (cs, one, ',')) classes[one]++;
            }
        }
    }
  for (auto &x : ws)
    {
      string s = slurp (x.dir + "/sample");
      if (!s.empty () && samples.size () < 4) samples.push_back (s);
    }
  double wall = now () - t0;
  string ev = verif_dir () + "/evidence";
  mkdir (ev.c_str (), 0755);
  std::ofstream o (ev + "/" + p.id + ".json");
  o << "{\n \"property\": " << jstr (p.id) << ",\n \"tier\": " << jstr (tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations + nprobes
    << ",\n  \"distinct_nontrivial\": " << nontriv << ",\n  \"rule\": " << jstr (p.rule)
    << ",\n  \"fixed_cases\": " << nprobes << ",\n  \"known_findings_seen\": " << known << ",\n  \"unconfirmed_failures\": " << flaky
    << ",\n  \"classes\": {";
  bool first = true;
  for (auto &c : classes) { o << (first ? "" : ", ") << jstr (c.first) << ": " << c.second; first = false; }
  o << "},\n  \"samples\": [";
  for (size_t i = 0; i < samples.size (); i++) o << (i ? ", " : "") << jstr (samples[i]);
  o << "]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < p.assumptions.size (); i++) o << (i ? ", " : "") << jstr (p.assumptions[i]);
  o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  o.close ();
  printf ("%s %s seed=%llu: %llu cases (%llu distinct non-trivial) + %d fixed, %d violations, %.1f s\n", p.id.c_str (), tier.c_str (), (unsigned long long) seed,
          (unsigned long long) evaluations, (unsigned long long) nontriv, nprobes, violations, wall);
  return violations ? 1 : 0;
}

static int do_replay (const string &file)
{
  std::ifstream f (file);
  string line, id, kind;
  vector<vector<uint64_t>> seqs;
  vector<int> sizes;
  while (std::getline (f, line) && line != "end")
    {
      std::istringstream in (line);
      string k;
      in >> k;
      if (k == "property") in >> id;
      else if (k == "kind") { std::getline (in, kind); kind = kind.substr (1); }
      else if (k == "case")
        {
          int s; in >> s; sizes.push_back (s);
          vector<uint64_t> v; uint64_t x;
          while (in >> x) v.push_back (x);
          seqs.push_back (v);
        }
    }
  const Property *p = find (id);
  if (!p) { printf ("no property %s\n", id.c_str ()); return 2; }
  Result r;
  if (kind.compare (0, 6, "probe ") == 0)
    {
      for (auto &pr : probes ())
        if (pr.id == id && pr.name == kind.substr (6)) r = run_forked (pr.fn, { {} }, { 30 }, 60);
    }
  else if (kind.compare (0, 6, "batch ") == 0)
    {
      uint64_t seed, from, to, step;
      std::istringstream in (kind.substr (6));
      in >> seed >> from >> to >> step;
      Fn batch = [&] (Case &c) {
        for (uint64_t i = from; i <= to; i += step)
          {
            Src s (mix (mix (seed, fnv (p->id)), i));
            Case cc (s);
            cc.size = size_of (i);
            cc.tmpdir = c.tmpdir;
            p->fn (cc);
            if (i == to) c.desc << cc.desc.str ();
          }
      };
      r = run_forked (batch, { {} }, { 30 }, 120);
    }
  else
    r = run_forked (p->fn, seqs, sizes, 60);
  printf ("%s\n", r.desc.c_str ());
  if (r.ok) { printf ("replay: property %s holds on this case\n", id.c_str ()); return 0; }
  printf ("replay: %s: %s\n%s\n", r.key.c_str (), r.msg.c_str (), r.log.substr (0, 6000).c_str ());
  printf ("VIOLATION property=%s replay=%s\n", id.c_str (), file.c_str ());
  return 1;
}

int main_ (int argc, char **argv)
{
  // Same addresses in every run, where the system allows it.
  if (!getenv ("GV_NORAND"))
    {
      setenv ("GV_NORAND", "1", 1);
      int cur = personality (0xffffffff);
      if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality (cur | ADDR_NO_RANDOMIZE) != -1)
        execv ("/proc/self/exe", argv);
    }
  // The environment the code under test reads.
  setenv ("G_MESSAGES_DEBUG", "", 1);
  setenv ("GIO_USE_VFS", "local", 1);
  setenv ("GIO_USE_PROXY_RESOLVER", "dummy", 1);
  setenv ("NO_AT_BRIDGE", "1", 1);
  setenv ("LC_ALL", "C", 1);
  unsetenv ("G_DEBUG");
  unsetenv ("DISPLAY");
  std::map<string, string> opt;
  vector<string> pos;
  for (int i = 1; i < argc; i++)
    {
      string a = argv[i];
      if (a.compare (0, 2, "--") == 0 && i + 1 < argc) { opt[a.substr (2)] = argv[i + 1]; i++; }
      else pos.push_back (a);
    }
  if (pos.empty ()) { fprintf (stderr, "usage: vh check ID | replay FILE | list | one ID SEEDINDEX\n"); return 2; }
  scratch = "/tmp/gv." + std::to_string (getpid ());
  mkdir (scratch.c_str (), 0700);
  int rc = 2;
  string tier = opt.count ("tier") ? opt["tier"] : (getenv ("VERIF_TIER") ? getenv ("VERIF_TIER") : "quick");
  uint64_t seed = opt.count ("seed") ? strtoull (opt["seed"].c_str (), 0, 10) : (getenv ("VERIF_SEED") ? strtoull (getenv ("VERIF_SEED"), 0, 10) : 1);
  if (pos[0] == "list")
    {
      for (auto &p : properties ()) printf ("%s quick=%u thorough=%u\n", p.id.c_str (), p.quick, p.thorough);
      rc = 0;
    }
  else if (pos[0] == "check" && pos.size () > 1)
    {
      const Property *p = find (pos[1]);
      if (!p) fprintf (stderr, "no property %s\n", pos[1].c_str ());
      else
        {
          unsigned n = opt.count ("cases") ? atoi (opt["cases"].c_str ()) : (tier == "thorough" ? p->thorough : p->quick);
          unsigned w = opt.count ("workers") ? atoi (opt["workers"].c_str ()) : 8;
          rc = do_check (*p, tier, seed, n, w, tier == "thorough" ? 3000 : 240);
        }
    }
  else if (pos[0] == "replay" && pos.size () > 1)
    rc = do_replay (pos[1]);
  else if (pos[0] == "one" && pos.size () > 2)
    {
      const Property *p = find (pos[1]);
      uint64_t i = strtoull (pos[2].c_str (), 0, 10);
      g_log_set_default_handler (log_handler, nullptr);
      Src s (mix (mix (seed, fnv (p->id)), i));
      string t = scratch + "/t";
      mkdir (t.c_str (), 0700);
      Result r = run_here (p->fn, s, size_of (i), t);
      string cl;
      for (auto &c : r.classes) cl += " " + c;
      printf ("%s\n[nontrivial=%d classes=%s]\n%s %s: %s\n", r.desc.c_str (), r.nontrivial, cl.c_str (), r.ok ? "ok" : "FAIL", r.key.c_str (), r.msg.c_str ());
      rc = r.ok ? 0 : 1;
    }
  rm_rf (scratch);
  return rc;
}
}

extern "C" const char *__asan_default_options ()
{
  return "detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:quarantine_size_mb=8:malloc_context_size=8";
}
extern "C" const char *__ubsan_default_options () { return "print_stacktrace=1:exitcode=98"; }
