// C33: the window program of src/gingagui (see gtk/fakegui.cpp).
#include <gdk/gdk.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <fstream>
#include "pbt.h"
#include "gui.h"
using namespace pbt;
using std::string;
using std::vector;
extern char **environ;

namespace {
string num (long long v) { return std::to_string (v); }
string
lineOf (const string &s)
{
  string l;
  for (char c : s)
    l += c == '\n' ? string ("\\n") : string (1, c);
  return l;
}
bool
isNcl (const string &f)
{
  return f.size () >= 4 && f.compare (f.size () - 4, 4, ".ncl") == 0;
}
string
program ()
{
  char b[PATH_MAX];
  ssize_t n = readlink ("/proc/self/exe", b, sizeof b - 1);
  string s (b, n > 0 ? (size_t) n : 0);
  return s.substr (0, s.rfind ('/') + 1) + "guirun";
}

// What the settings file should hold.
struct Saved
{
  vector<string> hist;
  unsigned aspect = 0, theme = 0;
};
struct Model
{
  vector<string> want;
  Saved s, saved;
  string entry, console;
  bool playing = false, full = false, ctrl = false, conShown = false, debug = false, first = false;
  bool asSidebar = true, sidebar = false, remoteWindow = false;
  int vw = 700, vh = 525;
  long long t0 = 0, t1 = 0;
  bool tried = false;
  void say (const string &l) { want.push_back (lineOf (l)); }
  void save () { saved = s; }
  void insert (const string &f)
  {
    entry = f;
    vector<string> v = { f };
    for (auto &h : s.hist)
      if (h != f && v.size () < 6)
        v.push_back (h);
    s.hist = v;
  }
  void bar (const string &f) { want.push_back ("\1" + f); }
  void play (vector<string> &bars)
  {
    if (!isNcl (entry))
      return bars.push_back (entry);
    tried = true;
    say ("start <" + entry + ">");
    console = "";
    if (entry.find ("bad") != string::npos)
      return bars.push_back (entry);
    playing = first = true;
  }
  void state ()
  {
    string l = "entry <" + entry + "> history";
    for (auto &h : s.hist)
      l += " <" + h + ">";
    string e = playing ? "0" : "1";
    l += " enabled " + e + e + e + e + " console " + num (conShown) + " remote " + num (remoteWindow ? 2 : sidebar) + " full " + num (full) + (s.theme == 0 ? " light-theme" : " dark-theme");
    say (l);
  }
  void remote ()
  {
    if (asSidebar)
      sidebar = !sidebar;
    else
      remoteWindow = true;
  }
};

void
run (Case &c)
{
  static const guint KEYS[] = {
    GDK_KEY_F1, GDK_KEY_F2, GDK_KEY_F3, GDK_KEY_F4, GDK_KEY_F5, GDK_KEY_Return, GDK_KEY_Up, GDK_KEY_Down, GDK_KEY_Left, GDK_KEY_Right,
    GDK_KEY_asterisk, GDK_KEY_numbersign, GDK_KEY_0, GDK_KEY_5, GDK_KEY_a, GDK_KEY_Z, GDK_KEY_b, GDK_KEY_B, GDK_KEY_d, GDK_KEY_D, GDK_KEY_f, GDK_KEY_F,
    GDK_KEY_r, GDK_KEY_R, GDK_KEY_Escape, GDK_KEY_Control_L, GDK_KEY_Control_R, GDK_KEY_Meta_L, GDK_KEY_Meta_R, GDK_KEY_BackSpace, GDK_KEY_F10, GDK_KEY_eacute, GDK_KEY_ae, 0,
    GDK_KEY_Page_Up, GDK_KEY_space,
  };
  static const char *BUTTONS[] = { "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "INFO", "CURSOR_UP", "CURSOR_DOWN", "CURSOR_LEFT", "CURSOR_RIGHT", "RED", "GREEN", "YELLOW", "BLUE" };
  static const char *STEMS[] = { "a", "b", "c d", "#", "x##y", "p;q", "\\s", "\xc3\xa9t\xc3\xa9", "%41", "a&b", "'", "e.f", "bad", " ", "=", "[g]" };
  auto name = [&] () -> string {
    string s = "/d/";
    s += STEMS[c.src.draw (c.src.chance (1, 2) ? 4 : sizeof STEMS / sizeof *STEMS)];
    if (c.src.chance (1, 4))
      s += num ((long long) c.src.draw (4));
    return s + (c.src.chance (1, 8) ? c.src.pick (vector<string>{ ".xml", ".NCL", "", ".ncl.bak", ".lua" }) : string (".ncl"));
  };
  string cfg = c.tmpdir + "/cfg", file = cfg + "/ginga222.settings", sp = c.tmpdir + "/script", lp = c.tmpdir + "/log", ep = c.tmpdir + "/err";
  mkdir (cfg.c_str (), 0700);
  unlink (file.c_str ());
  Saved saved;
  // A settings file of a former version, or damaged.
  if (c.src.chance (1, 4))
    {
      std::ofstream o (file);
      switch (c.src.draw (5))
        {
        case 0: // of a former version
          o << "[ginga-gui]\nginga-ID=12\naspect-ratio=" << (saved.aspect = (unsigned) c.src.draw (5)) << "\nframe-rate=1\ngui-theme=" << (saved.theme = (unsigned) c.src.draw (2)) << "\nhistoric= ";
          for (unsigned n = (unsigned) c.src.draw (8); n--;)
            {
              string f = "/e/" + num ((long long) c.src.draw (9)) + ".ncl";
              o << "##" << f;
              saved.hist.push_back (f);
            }
          o << "\n";
          c.cls ("settings of a former version");
          break;
        case 1: // some keys only
          o << "[ginga-gui]\n";
          if (c.src.chance (1, 2))
            o << "aspect-ratio=" << (saved.aspect = (unsigned) c.src.draw (5)) << "\n";
          if (c.src.chance (1, 2))
            o << "gui-theme=" << (saved.theme = (unsigned) c.src.draw (3)) << "\n";
          if (c.src.chance (1, 3))
            o << "ginga-ID=3\n";
          c.cls ("settings with keys missing");
          break;
        case 2:
          o << "[other]\na=b\n";
          break;
        case 3:
          o << "nonsense\n[ginga-gui]\naspect-ratio=1\n";
          c.cls ("damaged settings");
          break;
        }
      c.desc << "settings file given\n";
    }
  int runs = 1 + (int) c.src.draw (3);
  bool played = false;
  for (int r = 0; r < runs; r++)
    {
      Model m;
      m.s = m.saved = saved;
      vector<string> argv = { "ginga-gui" };
      m.say ("create 700x525 debug 0 ws 0 opengl 0");
      if (m.s.hist.size ())
        m.entry = m.s.hist[0];
      if (c.src.chance (1, 3))
        {
          string f = name ();
          argv.push_back (f);
          if (isNcl (f))
            {
              m.insert (f);
              m.save ();
            }
          c.desc << "argument " << f << "\n";
        }
      m.state ();
      std::ostringstream script;
      long long now = (long long) c.src.draw (1000000000), frame = (long long) c.src.draw (100);
      bool closed = false;
      int n = 3 + (int) c.src.draw (5 + (uint64_t) c.size / 2);
      for (int i = 0; i < n && !closed; i++)
        {
          string cmd;
          vector<string> out, bars;
          std::swap (out, m.want);
          switch (c.src.weighted ({ 8, 4, 6, 4, 3, 3, 6, 4, 2, 2, 2, 2, 3, 2, 3, 2, 1, 2, 1, 2, 1, 1, 1 }))
            {
            case 0: // frame
              {
                now += c.src.chance (3, 4) ? 16667 : (long long) c.src.draw (3000000);
                frame++;
                bool end = m.playing && c.src.chance (1, 8);
                cmd = "frame\t" + num (now) + "\t" + num (frame) + "\t" + num (end);
                if (m.playing)
                  {
                    if (m.first)
                      m.t0 = m.t1 = now;
                    m.first = false;
                    m.say ("tick " + num ((now - m.t0) * 1000) + " " + num ((now - m.t1) * 1000) + " " + num (frame));
                    m.t1 = now;
                    if (end)
                      {
                        m.playing = false;
                        c.cls ("ended by itself");
                      }
                  }
                m.say ("draws");
                break;
              }
            case 1: // type
              {
                string f = name ();
                cmd = "type\t" + f;
                if (!m.playing)
                  m.entry = f;
                break;
              }
            case 2: // open
              {
                string f = c.src.chance (1, 10) ? "-" : name ();
                cmd = "open\t" + f;
                if (m.playing)
                  m.say ("the button is disabled");
                else if (f == "-")
                  ;
                else if (!isNcl (f))
                  bars.push_back (f);
                else
                  {
                    m.insert (f);
                    m.save ();
                    m.play (bars);
                  }
                break;
              }
            case 3: // play
              cmd = "play";
              if (m.playing)
                m.say ("the button is disabled");
              else
                m.play (bars);
              break;
            case 4: // stop
              cmd = "stop";
              if (m.playing)
                m.say ("stop");
              m.playing = false;
              break;
            case 5: // history
              {
                size_t k = c.src.draw (7);
                cmd = "pick\t" + num ((long long) k);
                if (m.playing)
                  m.say ("the button is disabled");
                else if (k < m.s.hist.size ())
                  {
                    string f = m.s.hist[k];
                    m.s.hist.erase (m.s.hist.begin () + (long) k);
                    m.s.hist.insert (m.s.hist.begin (), f);
                    m.entry = f;
                    m.save ();
                    m.play (bars);
                    c.cls ("picked from the history");
                  }
                break;
              }
            case 6: // key
              {
                guint k = KEYS[c.src.draw (sizeof KEYS / sizeof *KEYS)];
                bool press = c.src.chance (2, 3), pass = true;
                cmd = (press ? "press\t" : "release\t") + num (k);
                switch (k)
                  {
                  case GDK_KEY_Escape:
                    pass = m.full = false;
                    break;
                  case GDK_KEY_Control_L:
                  case GDK_KEY_Control_R:
                  case GDK_KEY_Meta_L:
                  case GDK_KEY_Meta_R:
                    m.ctrl = press;
                    pass = false;
                    break;
                  case GDK_KEY_f:
                  case GDK_KEY_F:
                    if ((pass = !m.ctrl))
                      break;
                    m.full = true;
                    break;
                  case GDK_KEY_r:
                  case GDK_KEY_R:
                    if ((pass = !m.ctrl))
                      break;
                    if (press)
                      m.remote ();
                    break;
                  case GDK_KEY_d:
                  case GDK_KEY_D:
                    if ((pass = !m.ctrl))
                      break;
                    if (press)
                      m.conShown = !m.conShown;
                    break;
                  case GDK_KEY_b:
                  case GDK_KEY_B:
                    pass = !m.ctrl;
                    break;
                  case 0:
                    pass = false;
                    c.cls ("unnamed key");
                    break;
                  }
                if (!pass && k)
                  c.cls ("key of the window");
                if (pass && m.playing)
                  m.say ("key <" + gui::keyName (k) + "> " + (press ? "pressed" : "released"));
                break;
              }
            case 7: // remote control
              if (!m.sidebar && !m.remoteWindow)
                {
                  cmd = "remote";
                  m.remote ();
                }
              else
                {
                  string b = BUTTONS[c.src.draw (sizeof BUTTONS / sizeof *BUTTONS)];
                  cmd = "button\t" + b;
                  if (m.playing)
                    {
                      m.say ("key <" + b + "> pressed");
                      m.say ("key <" + b + "> released");
                      c.cls ("remote control");
                    }
                }
              break;
            case 8:
              cmd = "fullscreen";
              m.full = true;
              c.cls ("full screen");
              break;
            case 9:
              cmd = "debug";
              m.conShown = !m.conShown;
              break;
            case 10:
              cmd = "remote";
              m.remote ();
              break;
            case 11:
              cmd = "visual";
              m.debug = !m.debug;
              m.say ("option debug " + num (m.debug));
              break;
            case 12:
              if (m.full)
                {
                  cmd = "press\t" + num (GDK_KEY_Escape);
                  m.full = false;
                }
              else
                {
                  m.vw = (int) c.src.range (1, 2000), m.vh = (int) c.src.range (1, 2000);
                  cmd = "size\t" + num (m.vw) + "\t" + num (m.vh);
                }
              break;
            case 13:
              cmd = "player";
              m.say ("player " + num (m.full ? 1920 : m.vw) + "x" + num (m.full ? 1080 : m.vh));
              break;
            case 14: // draw
              {
                int w = (int) c.src.range (1, 60), h = (int) c.src.range (1, 60);
                cmd = "draw\t" + num (w) + "\t" + num (h);
                double xx = 1, yy = 1;
                if (m.s.aspect == 0)
                  xx = 0.75;
                else if (m.s.aspect == 1)
                  yy = 0.5625;
                else if (m.s.aspect == 2)
                  yy = 0.625;
                char b[200];
                snprintf (b, sizeof b, "redraw %.4f %.4f %.4f %.4f %.4f %.4f", xx, yy, 0., 0., (w - w * xx) / 2 + 0., (h - h * yy) / 2 + 0.);
                m.say (b);
                m.say ("drawn");
                break;
              }
            case 15: // aspect
              {
                unsigned a = (unsigned) c.src.draw (4);
                cmd = "aspect\t" + num (a);
                if (a != m.s.aspect)
                  {
                    m.s.aspect = a;
                    m.save ();
                    c.cls ("aspect ratio");
                  }
                break;
              }
            case 16:
              {
                unsigned t = (unsigned) c.src.draw (2);
                cmd = "theme\t" + num (t);
                if (t != m.s.theme)
                  {
                    m.s.theme = t;
                    m.save ();
                  }
                break;
              }
            case 17: // messages
              {
                string t = c.src.pick (vector<string>{ "ginga::x", "ginga::Media::start(): \xc3\xa9t\xc3\xa9", "Gtk-Message", "gingafied", "a ginga::x", "ginga::\xe2\x82\xac" });
                cmd = "log\t" + t;
                if (t.compare (0, 7, "ginga::") == 0)
                  m.console += "[00:00] " + t + "\n";
                break;
              }
            case 18:
              cmd = "console";
              m.say ("console <" + m.console + ">");
              break;
            case 19:
              if (m.sidebar)
                {
                  if (c.src.chance (1, 2))
                    {
                      cmd = "window";
                      m.asSidebar = m.sidebar = false;
                      m.remoteWindow = true;
                    }
                  else
                    {
                      cmd = "hideremote";
                      m.sidebar = false;
                    }
                }
              else if (m.remoteWindow)
                {
                  m.remoteWindow = false;
                  if (c.src.chance (1, 2))
                    {
                      cmd = "sidebar";
                      m.asSidebar = m.sidebar = true;
                    }
                  else
                    cmd = "closeremote";
                }
              else
                {
                  cmd = "remote";
                  m.remote ();
                }
              break;
            case 20:
              cmd = m.conShown ? "hideconsole" : "debug";
              m.conShown = !m.conShown;
              break;
            case 21:
              cmd = "console";
              m.say ("console <" + m.console + ">");
              break;
            default:
              if (i < n - 1)
                {
                  cmd = "nothing";
                  break;
                }
              cmd = "close";
              if (m.playing)
                m.say ("stop");
              closed = true;
            }
          std::swap (out, m.want);
          m.say ("> " + cmd);
          for (auto &l : out)
            m.want.push_back (l);
          for (auto &b : bars)
            m.bar (b);
          if (bars.size ())
            c.cls ("not played");
          if (!closed)
            m.state ();
          script << cmd << "\n";
          played |= m.playing;
        }
      m.say (closed ? "quit" : "end of script");
      c.desc << "run " << r + 1 << "\n" << script.str ();

      std::ofstream (sp) << script.str ();
      unlink (lp.c_str ());
      setenv ("GV_SCRIPT", sp.c_str (), 1);
      setenv ("GV_LOG", lp.c_str (), 1);
      setenv ("XDG_CONFIG_HOME", cfg.c_str (), 1);
      int st = gui::run (program (), argv, "/dev/null", ep);
      c.check (st != -1, "harness", "cannot run the program");
      string err = gui::slurp (ep);
      c.check (WIFEXITED (st) && WEXITSTATUS (st) == 0, "crash", "run " + num (r + 1) + ": the program crashed (status " + num (st) + "): " + err.substr (0, 600));
      vector<string> got;
      string last, cmd;
      for (auto &l : gui::lines (gui::slurp (lp)))
        {
          // Both windows have ticks in full screen.
          if (l.compare (0, 5, "tick ") == 0 && last.compare (0, 5, "tick ") == 0)
            {
              auto a = l.find (' ', 5), b = last.find (' ', 5);
              if (l.substr (0, a) == last.substr (0, b) && l.compare (a, 3, " 0 ") == 0)
                continue;
            }
          got.push_back (last = l);
        }
      for (size_t i = 0; i < std::max (got.size (), m.want.size ()); i++)
        {
          string g = i < got.size () ? got[i] : "nothing", x = i < m.want.size () ? m.want[i] : "nothing";
          if (x.compare (0, 2, "> ") == 0)
            cmd = x;
          if (x[0] == '\1')
            {
              c.check (g.compare (0, 5, "bar <") == 0 && g.find (x.substr (1)) != string::npos, "message", "run " + num (r + 1) + ": \"" + g + "\" instead of a bar about " + x.substr (1) + " after \"" + cmd + "\"");
              continue;
            }
          c.check (g == x, "log", "run " + num (r + 1) + ": \"" + g + "\", expected \"" + x + "\" after \"" + cmd + "\"");
        }
      saved = m.saved;
    }
  if (runs > 1)
    c.cls ("several runs");
  c.nontrivial = played;
}
RegP c33 (Property{ "C33", "a file was played", run, 8000, 60000,
  { "GTK and the player are stand-ins: the acts of the user come from a script" } });
}
