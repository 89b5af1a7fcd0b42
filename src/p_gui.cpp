// C31: the program of src/ginga.cpp (see gtk/fakegtk.cpp).
#include <gdk/gdk.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <climits>
#include <fstream>
#include "gui.h"
#include "pbt.h"
using namespace pbt;
using std::string;
using std::vector;
extern char **environ;

namespace gui {
string
slurp (const string &p)
{
  std::ifstream f (p);
  return string (std::istreambuf_iterator<char> (f), {});
}
vector<string>
lines (const string &s)
{
  vector<string> v;
  std::istringstream i (s);
  string l;
  while (std::getline (i, l))
    v.push_back (l);
  return v;
}
// What NCL calls a key.
string
keyName (unsigned k)
{
  static const std::map<guint, string> M = {
    { GDK_KEY_asterisk, "*" }, { GDK_KEY_numbersign, "#" }, { GDK_KEY_Return, "ENTER" },
    { GDK_KEY_F1, "RED" }, { GDK_KEY_F2, "GREEN" }, { GDK_KEY_F3, "YELLOW" }, { GDK_KEY_F4, "BLUE" }, { GDK_KEY_F5, "INFO" },
    { GDK_KEY_Down, "CURSOR_DOWN" }, { GDK_KEY_Up, "CURSOR_UP" }, { GDK_KEY_Left, "CURSOR_LEFT" }, { GDK_KEY_Right, "CURSOR_RIGHT" },
  };
  auto i = M.find (k);
  if (i != M.end ())
    return i->second;
  const char *n = gdk_keyval_name (k);
  if (!n)
    return "";
  string s = n;
  if (s.size () > 1)
    for (auto &c : s)
      c = (char) toupper (c);
  return s;
}
int
run (const string &prog, const vector<string> &argv, const string &op, const string &ep, const string &dir)
{
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init (&fa);
  posix_spawn_file_actions_addopen (&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen (&fa, 1, op.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen (&fa, 2, ep.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (dir != "")
    posix_spawn_file_actions_addchdir_np (&fa, dir.c_str ());
  vector<char *> av;
  for (auto &a : argv)
    av.push_back ((char *) a.c_str ());
  av.push_back (nullptr);
  pid_t pid = -1;
  int rc = posix_spawn (&pid, prog.c_str (), &fa, nullptr, av.data (), environ);
  posix_spawn_file_actions_destroy (&fa);
  if (rc != 0)
    return -1;
  int st = 0;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  return st;
}
}
using namespace gui;
namespace {
string
program ()
{
  char b[PATH_MAX];
  ssize_t n = readlink ("/proc/self/exe", b, sizeof b - 1);
  string s (b, n > 0 ? (size_t) n : 0);
  return s.substr (0, s.rfind ('/') + 1) + "gingarun";
}

void
runCase (Case &c)
{
  static const guint KEYS[] = {
    GDK_KEY_F1, GDK_KEY_F2, GDK_KEY_F3, GDK_KEY_F4, GDK_KEY_F5, GDK_KEY_Return, GDK_KEY_Up, GDK_KEY_Down, GDK_KEY_Left, GDK_KEY_Right,
    GDK_KEY_asterisk, GDK_KEY_numbersign, GDK_KEY_0, GDK_KEY_1, GDK_KEY_9, GDK_KEY_a, GDK_KEY_z, GDK_KEY_A, GDK_KEY_space, GDK_KEY_BackSpace,
    GDK_KEY_F6, GDK_KEY_F9, GDK_KEY_F12, GDK_KEY_KP_5, GDK_KEY_KP_Enter, GDK_KEY_Tab, GDK_KEY_Shift_L, GDK_KEY_eacute, GDK_KEY_Menu, 0,
    GDK_KEY_Page_Up, GDK_KEY_AudioPlay, 0x10020ac, GDK_KEY_plus, GDK_KEY_Home,
  };
  auto num = [] (long long v) { return std::to_string (v); };
  vector<string> argv = { "ginga" }, want, errs;
  std::ostringstream script;

  // Options and files
  vector<vector<string> > parts;
  int w = 800, h = 600;
  bool debug = false, full = false, ws = false, exper = false, bad = false;
  string bg;
  auto opt = [&] (const string &longn, const string &shortn, const string &val) {
    if (val == "\1")
      parts.push_back ({ c.src.chance (1, 2) ? longn : shortn });
    else
      switch (c.src.draw (3))
        {
        case 0: parts.push_back ({ longn + "=" + val }); break;
        case 1: parts.push_back ({ longn, val }); break;
        default: parts.push_back ({ shortn, val });
        }
  };
  if (c.src.chance (1, 2))
    {
      w = (int) c.src.range (1, 4000), h = (int) c.src.range (1, 4000);
      opt ("--size", "-s", num (w) + "x" + num (h));
    }
  if (c.src.chance (1, 3))
    opt ("--background", "-b", bg = c.src.pick (vector<string>{ "red", "#00ff00", "rgb(1,2,3)", "white" }));
  if (c.src.chance (1, 4))
    debug = true, opt ("--debug", "-d", "\1");
  if (c.src.chance (1, 4))
    full = true, opt ("--fullscreen", "-f", "\1");
  if (c.src.chance (1, 6))
    ws = true, opt ("--ws", "-w", "\1");
  if (c.src.chance (1, 6))
    exper = true, opt ("--experimental", "-x", "\1");
  if (c.src.chance (1, 12))
    {
      bad = true;
      if (c.src.chance (3, 4))
        opt ("--size", "-s", c.src.pick (vector<string>{ "x", "10", "10x", "x10", "0x10", "10x0", "abc", "ax10", "10,20", "10 x 20" }));
      else
        parts.push_back ({ c.src.pick (vector<string>{ "--nothing", "-q", "--siz" }) });
    }
  int nfiles = c.src.chance (1, 20) ? 0 : 1 + (int) c.src.draw (4);
  vector<string> files;
  for (int i = 0; i < nfiles; i++)
    files.push_back ((c.src.chance (1, 4) ? "bad" : "doc") + num (i) + ".ncl");
  // options anywhere among the files, which keep their order
  vector<vector<string> > all;
  size_t fi = 0;
  while (fi < files.size () || parts.size ())
    {
      if (parts.size () && (fi == files.size () || c.src.chance (2, 3)))
        {
          size_t k = c.src.draw (parts.size ());
          all.push_back (parts[k]);
          parts.erase (parts.begin () + (long) k);
        }
      else
        all.push_back ({ files[fi++] });
    }
  for (auto &a : all)
    for (auto &s : a)
      argv.push_back (s);
  if (nfiles == 0 && !ws)
    bad = true;

  // What happens, and what the player should see
  int status = 0;
  bool closed = false;
  int ticks = 0, played = 0;
  if (!bad)
    {
      want.push_back ("create " + num (w) + "x" + num (h) + " debug " + num (debug) + " ws " + num (ws) + " experimental " + num (exper) + " opengl 0 background <" + bg + ">");
      long long now = c.src.chance (1, 2) ? (long long) c.src.draw (1000000000) : 0, frame = c.src.chance (1, 4) ? (long long) c.src.draw (5) : 0;
      for (auto &f : files)
        {
          if (closed)
            break;
          want.push_back ("start " + f);
          if (f[0] == 'b')
            {
              status++;
              errs.push_back ("unplayable<" + f + ">");
              continue;
            }
          if (!played++)
            want.push_back ("show " + num (w) + "x" + num (h) + (full ? " full" : " normal"));
          long long first = -1, last = 0;
          int left = 1 + (int) c.src.draw (4 + (uint64_t) c.size / 5);
          bool over = false;
          while (!over)
            {
              bool end = --left <= 0;
              switch (c.src.weighted (end ? vector<unsigned>{ 5, 3, 0, 0, 1, 2, 1 } : vector<unsigned>{ 8, 6, 2, 1, 0, 0, 0 }))
                {
                case 0: // frame
                  {
                    now += c.src.chance (3, 4) ? 16667 : (long long) c.src.draw (3000000);
                    if (first < 0)
                      first = last = now;
                    script << "T " << now << " " << frame << " " << end << "\n";
                    want.push_back ("tick " + num ((now - first) * 1000) + " " + num ((now - last) * 1000) + " " + num (frame));
                    last = now;
                    frame += 1 + (c.src.chance (1, 8) ? 2 : 0);
                    if (!end)
                      want.push_back ("redraw");
                    over = end;
                    ticks++;
                    break;
                  }
                case 1: // key
                  {
                    bool press = c.src.chance (1, 2);
                    guint k;
                    switch (c.src.draw (8))
                      {
                      case 0:
                        if (!end && c.src.chance (1, 2))
                          {
                            script << "K " << (press ? 'p' : 'r') << " " << GDK_KEY_F10 << " 0\n";
                            if (press)
                              want.push_back ("option debug " + num (debug = !debug));
                            continue;
                          }
                        if (!end)
                          {
                            script << "K " << (press ? 'p' : 'r') << " " << GDK_KEY_F11 << " 0\n";
                            if (press)
                              want.push_back ((full = !full) ? "fullscreen" : "no fullscreen");
                            continue;
                          }
                      // fallthrough
                      case 1:
                        if (!end)
                          {
                            script << "K r " << GDK_KEY_Escape << " 0\n";
                            continue;
                          }
                      // fallthrough
                      default:
                        k = KEYS[c.src.draw (sizeof KEYS / sizeof *KEYS)];
                      }
                    if (k == 0)
                      {
                        if (end)
                          k = GDK_KEY_F1;
                        else
                          c.cls ("unnamed key");
                      }
                    script << "K " << (press ? 'p' : 'r') << " " << k << " " << end << "\n";
                    if (k)
                      want.push_back ("key " + keyName (k) + (press ? " pressed" : " released"));
                    c.cls ("key");
                    over = end;
                    break;
                  }
                case 2: // resized
                  w = (int) c.src.range (1, 3000), h = (int) c.src.range (1, 3000);
                  script << "R " << w << " " << h << "\n";
                  want.push_back ("resize " + num (w) + " " + num (h));
                  break;
                case 3: // exposed
                  script << "D\n";
                  want.push_back ("redraw");
                  break;
                case 4: // window closed
                  script << "X\n";
                  closed = over = true;
                  c.cls ("closed");
                  break;
                case 5: // quit
                  script << "K p " << GDK_KEY_Escape << " 0\n";
                  want.push_back ("quit");
                  want.push_back ("stop");
                  over = true;
                  c.cls ("quit");
                  break;
                default: // terminated
                  script << "S\n";
                  want.push_back ("stop");
                  now += 16667;
                  if (first < 0)
                    first = last = now;
                  script << "T " << now << " " << frame << " 0\n";
                  want.push_back ("tick " + num ((now - first) * 1000) + " " + num ((now - last) * 1000) + " " + num (frame));
                  frame++;
                  over = true;
                  c.cls ("terminated");
                }
            }
          if (!closed && want.back () != "stop")
            want.push_back ("quit");
          script << ".\n";
        }
      if (closed)
        status = 0;
    }
  if (played > 1)
    c.cls ("several files");
  for (auto &a : argv)
    c.desc << a << " ";
  c.desc << "\n" << script.str ();

  // Run it.
  string sp = c.tmpdir + "/script", lp = c.tmpdir + "/log", ep = c.tmpdir + "/err", op = c.tmpdir + "/out";
  std::ofstream (sp) << script.str ();
  for (auto &p : { lp, ep, op })
    unlink (p.c_str ());
  setenv ("GV_SCRIPT", sp.c_str (), 1);
  setenv ("GV_LOG", lp.c_str (), 1);
  int st = gui::run (program (), argv, op, ep);
  c.check (st != -1, "harness", "cannot run " + program ());
  string log = slurp (lp), err = slurp (ep);
  vector<string> got = lines (log);
  c.check (WIFEXITED (st) && (WEXITSTATUS (st) < 60 || WEXITSTATUS (st) == 99), "crash", "the program crashed (status " + num (st) + "): " + err.substr (0, 400));
  for (size_t i = 0; i < std::max (got.size (), want.size ()); i++)
    {
      string g = i < got.size () ? got[i] : "nothing", x = i < want.size () ? want[i] : "nothing";
      c.check (g == x, "log", "line " + num ((long long) i + 1) + " is \"" + g + "\", expected \"" + x + "\"" + (i ? " after \"" + want[i - 1] + "\"" : ""));
    }
  if (bad)
    c.check (err != "", "message", "nothing on stderr though it was refused");
  else
    c.check (WEXITSTATUS (st) == status, "status", "exit status " + num (WEXITSTATUS (st)) + ", expected " + num (status));
  for (auto &e : errs)
    c.check (err.find (e) != string::npos, "message", "stderr does not tell " + e + ": " + err.substr (0, 300));
  if (bad)
    c.cls ("refused");
  c.nontrivial = bad || (played && ticks > 1);
}
RegP c31 (Property{ "C31", "the program was given bad arguments, or played a file for two frames or more", runCase, 8000, 120000,
  { "GTK and the player are stand-ins: the events of the window come from a script" } });
}
