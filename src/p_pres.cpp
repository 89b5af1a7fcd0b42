// C34: the presentation mode of the window program (see gtk/fakegui.cpp).
#include <cairo.h>
#include <gdk/gdk.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include "pbt.h"
#include "gui.h"
using namespace pbt;
using std::string;
using std::vector;

namespace {
string num (long long v) { return std::to_string (v); }
struct Rgb
{
  int r, g, b;
};
Rgb
colour (Case &c, int lo, int hi)
{
  return { (int) c.src.range (lo, hi), (int) c.src.range (lo, hi), (int) c.src.range (lo, hi) };
}
void
picture (const string &path, int w, int h, Rgb k)
{
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (s);
  cairo_set_source_rgb (cr, k.r / 255., k.g / 255., k.b / 255.);
  cairo_paint (cr);
  cairo_destroy (cr);
  cairo_surface_write_to_png (s, path.c_str ());
  cairo_surface_destroy (s);
}
string
escape (const string &s)
{
  string o;
  for (char ch : s)
    o += ch == '&' ? "&amp;" : ch == '<' ? "&lt;" : ch == '"' ? "&quot;" : string (1, ch);
  return o;
}
string
program ()
{
  char b[PATH_MAX];
  ssize_t n = readlink ("/proc/self/exe", b, sizeof b - 1);
  string s (b, n > 0 ? (size_t) n : 0);
  return s.substr (0, s.rfind ('/') + 1) + "guirun";
}
struct App
{
  string src, title, desc;
  Rgb thumb, cover;
};
struct Point
{
  int x, y;
  double r, g, b;
};

void
run (Case &c)
{
  static const guint KEYS[] = {
    GDK_KEY_Up, GDK_KEY_Down, GDK_KEY_F1, GDK_KEY_F4, GDK_KEY_F5, GDK_KEY_asterisk, GDK_KEY_7, GDK_KEY_x, GDK_KEY_space, GDK_KEY_BackSpace, 0,
  };
  static const char *TITLES[] = { "A", "Formula 1", "A & B", "\xc3\x89t\xc3\xa9", "<x>", "\"q\"", "" };
  string data = c.tmpdir + "/share", common = data + "/icons/common", sp = c.tmpdir + "/script", lp = c.tmpdir + "/log", ep = c.tmpdir + "/err", cfg = c.tmpdir + "/cfg";
  for (auto &d : { data, data + "/icons", common, cfg })
    mkdir (d.c_str (), 0700);
  int W = (int) c.src.pick (vector<int>{ 1920, 640, 1000, 1280 }), H = (int) c.src.pick (vector<int>{ 1080, 700, 768 });
  Rgb bg = colour (c, 0, 60), defThumb = colour (c, 100, 250), defCover = colour (c, 100, 250);
  picture (common + "/background_pattern.png", 5, 5, bg);
  picture (common + "/app_thumbnail.png", 300, 169, defThumb);
  picture (common + "/app_cover.png", 200, 150, defCover);

  // The list
  bool nolist = c.src.chance (1, 20);
  int kind = nolist ? (int) c.src.draw (3) : -1;
  vector<App> apps;
  std::ostringstream x;
  x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<" << (kind == 2 ? "apps" : "ncl-apps") << ">\n";
  int n = (int) c.src.draw (7), nth = 0;
  for (int i = 0; i < n; i++)
    {
      App a;
      switch (c.src.weighted ({ 8, 1, 1 }))
        {
        case 0:
          {
            bool src = c.src.chance (9, 10);
            a.src = "../d/" + num (++nth) + (c.src.chance (1, 6) ? "bad" : "") + (c.src.chance (1, 6) ? " &x" : "") + ".ncl";
            x << "<app";
            if (src)
              x << " src=\"" << escape (a.src) << "\"";
            a.thumb = defThumb, a.cover = defCover;
            int t = (int) c.src.draw (4);
            if (t == 1)
              x << " thumbnail=\"\"";
            else if (t == 2)
              x << " thumbnail=\"none.png\"";
            else if (t == 3)
              {
                string p = c.tmpdir + "/t" + num (i) + ".png";
                picture (p, 300, 169, a.thumb = colour (c, 100, 250));
                x << " thumbnail=\"" << p << "\"";
              }
            t = (int) c.src.draw (3);
            if (t == 1)
              x << " cover=\"none.png\"";
            else if (t == 2)
              {
                string p = c.tmpdir + "/c" + num (i) + ".png";
                picture (p, 200, 150, a.cover = colour (c, 100, 250));
                x << " cover=\"" << p << "\"";
              }
            if (c.src.chance (7, 8))
              x << " title=\"" << escape (a.title = TITLES[c.src.draw (7)]) << "\"";
            if (c.src.chance (2, 3))
              x << " description=\"" << escape (a.desc = string ("d. ") + TITLES[c.src.draw (7)]) << "\"";
            x << (c.src.chance (1, 5) ? "></app>\n" : "/>\n");
            if (src)
              apps.push_back (a);
            else
              c.cls ("without src");
            break;
          }
        case 1:
          x << "<!-- <app src=\"no.ncl\" title=\"no\"/> -->\n";
          break;
        case 2:
          x << "<other src=\"no.ncl\"/>\n";
          break;
        }
    }
  x << (kind == 1 ? "<" : "") << "</" << (kind == 2 ? "apps" : "ncl-apps") << ">\n";
  string list = data + "/ncl-apps.xml";
  unlink (list.c_str ());
  if (kind != 0)
    std::ofstream (list) << x.str ();
  c.desc << "monitor " << W << "x" << H << "\n" << (kind == 0 ? "no list" : x.str ()) << "\n";

  vector<string> want;
  vector<vector<Point> > looks;
  std::ostringstream script;
  auto say = [&] (const string &s) { want.push_back (s); };
  say ("create 700x525 debug 0 ws 0 opengl 0");
  int cur = 0, last = (int) apps.size () - 1;
  bool playing = false, first = false, ended = nolist, moved = false, played = false;
  long long now = (long long) c.src.draw (1000000), t0 = 0, t1 = 0, frame = 0;
  auto state = [&] { say ("full " + num (1 + playing)); };
  if (!nolist)
    state ();
  int steps = 3 + (int) c.src.draw (5 + (uint64_t) c.size / 2);
  for (int i = 0; i < steps && !ended; i++)
    {
      string cmd;
      vector<string> out;
      std::swap (out, want);
      switch (c.src.weighted ({ 6, 6, 4, 4, 3, 5, 3, 2, 1 }))
        {
        case 0: // look at the list
          {
            if (playing)
              {
                cmd = "nothing";
                break;
              }
            // What was chosen last may still be on its way.
            cmd = "settle\nlook";
            say ("draws");
            vector<Point> p;
            auto at = [&] (double px, double py, Rgb k, double a) {
              int ix = (int) px, iy = (int) py;
              if (ix < 0 || iy < 0 || ix >= W || iy >= H)
                return;
              p.push_back ({ ix, iy, k.r * a + bg.r * (1 - a), k.g * a + bg.g * (1 - a), k.b * a + bg.b * (1 - a) });
            };
            double mid = W / 2., y = H - 269;
            for (int k = -4; k <= 4; k++)
              {
                double pos = mid + 320 * k;
                bool is = cur + k >= 0 && cur + k <= last;
                double d = k < 0 ? pos : W - pos, a = std::max (0., std::min (1., d / (W - mid) + 0.3));
                Rgb t = is ? apps[(size_t) (cur + k)].thumb : bg;
                for (double u : { -147., 0., 147. })
                  for (double v : { 3., 84., 166. })
                    at (pos + u, y + v, t, a);
                for (double u : { -155., 155. })
                  at (pos + u, y + 84, is && k == 0 ? Rgb{ 255, 255, 255 } : bg, 1);
                for (double v : { -5., 174. })
                  at (pos, y + v, is && k == 0 ? Rgb{ 255, 255, 255 } : bg, 1);
                at (pos, y - 14, bg, 1);
                at (pos, y + 183, bg, 1);
              }
            if (last >= 0)
              {
                const App &a = apps[(size_t) cur];
                for (double u : { 3., 197. })
                  for (double v : { 3., 147. })
                    at (mid + u, H / 2 - 300 + v, a.cover, 1);
              }
            for (auto &q : p)
              cmd += "\t" + num (q.x) + "," + num (q.y);
            say ("");
            looks.push_back (p);
            vector<string> t;
            if (last >= 0)
              for (auto &s : { apps[(size_t) cur].title, apps[(size_t) cur].desc })
                if (s != "")
                  t.push_back ("text <" + s + ">");
            std::sort (t.begin (), t.end ());
            t.erase (std::unique (t.begin (), t.end ()), t.end ());
            for (auto &s : t)
              say (s);
            break;
          }
        case 1: // Left, Right
        case 2:
          {
            bool right = c.src.chance (3, 5);
            cmd = string ("press\t") + num (right ? GDK_KEY_Right : GDK_KEY_Left);
            string key = right ? "CURSOR_RIGHT" : "CURSOR_LEFT";
            if (playing)
              {
                say ("key <" + key + "> pressed");
                c.cls ("keys of the application");
              }
            script << cmd << "\n";
            state ();
            want.insert (want.begin (), "> " + cmd);
            cmd = string ("release\t") + num (right ? GDK_KEY_Right : GDK_KEY_Left);
            say ("> " + cmd);
            if (playing)
              say ("key <" + key + "> released");
            else
              {
                int b = cur;
                cur = right ? std::min (std::max (last, 0), cur + 1) : std::max (0, cur - 1);
                if (cur != b)
                  moved = true;
                else
                  c.cls ("at the end of the list");
              }
            script << cmd << "\n";
            state ();
            for (auto &l : want)
              out.push_back (l);
            want = out;
            continue;
          }
        case 3: // Return
          {
            cmd = "press\t" + num (GDK_KEY_Return);
            script << cmd << "\n";
            vector<string> w;
            w.push_back ("> " + cmd);
            if (playing)
              w.push_back ("key <ENTER> pressed");
            w.push_back ("full " + num (1 + playing));
            cmd = "release\t" + num (GDK_KEY_Return);
            script << cmd << "\n";
            w.push_back ("> " + cmd);
            if (playing)
              w.push_back ("key <ENTER> released");
            else if (last >= 0)
              {
                const string &s = apps[(size_t) cur].src;
                w.push_back ("start <" + s + ">");
                if (s.find ("bad") == string::npos)
                  {
                    playing = first = played = true;
                    if (moved)
                      c.cls ("another than the first played");
                  }
                else
                  c.cls ("does not start");
              }
            w.push_back ("full " + num (1 + playing));
            for (auto &l : w)
              out.push_back (l);
            want = out;
            continue;
          }
        case 4: // another key
          {
            guint k = KEYS[c.src.draw (sizeof KEYS / sizeof *KEYS)];
            bool press = c.src.chance (1, 2);
            cmd = (press ? "press\t" : "release\t") + num (k);
            if (playing && k)
              say ("key <" + gui::keyName (k) + "> " + (press ? "pressed" : "released"));
            break;
          }
        case 5: // frame
          {
            now += c.src.chance (3, 4) ? 16667 : (long long) c.src.draw (3000000);
            frame++;
            bool end = playing && c.src.chance (1, 10);
            cmd = "frame\t" + num (now) + "\t" + num (frame) + "\t" + num (end);
            if (playing)
              {
                if (first)
                  t0 = t1 = now;
                first = false;
                say ("tick " + num ((now - t0) * 1000) + " " + num ((now - t1) * 1000) + " " + num (frame));
                t1 = now;
                if (end)
                  {
                    ended = true;
                    c.cls ("ended by itself");
                    break;
                  }
              }
            say ("draws");
            break;
          }
        case 6: // Escape
          {
            if (!playing && !c.src.chance (1, 6))
              {
                cmd = "nothing";
                break;
              }
            cmd = "press\t" + num (GDK_KEY_Escape);
            script << cmd << "\n";
            script << "release\t" + num (GDK_KEY_Escape) << "\n";
            // It may leave when pressed or when released, but only one thing.
            say ("> " + cmd);
            state ();
            say ("> release\t" + num (GDK_KEY_Escape));
            if (playing)
              {
                say ("stop");
                c.cls ("application left");
                playing = false;
                state ();
              }
            else
              ended = true;
            for (auto &l : want)
              out.push_back (l);
            want = out;
            continue;
          }
        case 7:
          cmd = "player";
          if (playing)
            say ("player " + num (W) + "x" + num (H));
          else
            cmd = "nothing";
          break;
        default:
          cmd = "nothing";
        }
      std::swap (out, want);
      size_t p = 0, q;
      for (string r = cmd + "\n"; (q = r.find ('\n', p)) != string::npos; p = q + 1)
        {
          string one = r.substr (p, q - p);
          say ("> " + one);
          if (one == "settle")
            {
              say (out[0]);
              out.erase (out.begin ());
              state ();
            }
        }
      for (auto &l : out)
        say (l);
      if (!ended)
        state ();
      script << cmd << "\n";
    }
  if (ended)
    say ("exit");
  else
    say ("end of script");
  c.desc << script.str ();

  std::ofstream (sp) << script.str ();
  unlink (lp.c_str ());
  unlink ((cfg + "/ginga222.settings").c_str ());
  setenv ("GV_SCRIPT", sp.c_str (), 1);
  setenv ("GV_LOG", lp.c_str (), 1);
  setenv ("GV_EXIT", "1", 1);
  setenv ("GV_MONITOR", (num (W) + "x" + num (H)).c_str (), 1);
  setenv ("XDG_CONFIG_HOME", cfg.c_str (), 1);
  int st = gui::run (program (), { "ginga-gui", c.src.chance (1, 2) ? "--bigpicture" : "-b" }, "/dev/null", ep, c.tmpdir);
  unsetenv ("GV_EXIT");
  unsetenv ("GV_MONITOR");
  c.check (st != -1, "harness", "cannot run the program");
  string err = gui::slurp (ep);
  c.check (WIFEXITED (st) && err.find ("Sanitizer") == string::npos && err.find ("runtime error") == string::npos, "crash", "the program crashed (status " + num (st) + "): " + err.substr (0, 600));
  vector<string> got;
  string lastl, cmd;
  for (auto &l : gui::lines (gui::slurp (lp)))
    {
      // Several windows have ticks.
      if (l.compare (0, 5, "tick ") == 0 && lastl.compare (0, 5, "tick ") == 0)
        {
          auto a = l.find (' ', 5), b = lastl.find (' ', 5);
          if (l.substr (0, a) == lastl.substr (0, b) && l.compare (a, 3, " 0 ") == 0)
            continue;
        }
      lastl = l;
      if (l.compare (0, 7, "entry <") == 0)
        {
          size_t p = l.rfind (" full ");
          lastl = l.substr (p + 1, 6);
        }
      got.push_back (lastl);
    }
  size_t look = 0;
  for (size_t i = 0; i < std::max (got.size (), want.size ()); i++)
    {
      string g = i < got.size () ? got[i] : "nothing", x = i < want.size () ? want[i] : "nothing";
      if (x.compare (0, 2, "> ") == 0)
        cmd = x.substr (0, 60);
      if (x == "" && g.compare (0, 4, "look") == 0)
        {
          std::istringstream in (g.substr (4));
          for (auto &q : looks[look])
            {
              string s;
              int r = -1, gg = -1, b = -1;
              in >> s;
              sscanf (s.c_str (), "%d,%d,%d", &r, &gg, &b);
              auto off = [] (int u, double v) { return u < v - 4 || u > v + 4; };
              c.check (!off (r, q.r) && !off (gg, q.g) && !off (b, q.b), "picture",
                       "the point " + num (q.x) + "," + num (q.y) + " is " + s + ", expected " + num (lround (q.r)) + "," + num (lround (q.g)) + "," + num (lround (q.b)));
            }
          look++;
          continue;
        }
      c.check (g == x, "log", "\"" + g + "\", expected \"" + x + "\" after \"" + cmd + "\"");
    }
  if (nolist)
    c.cls ("no list");
  c.nontrivial = moved || played;
}
RegP c34 (Property{ "C34", "another application was chosen or one was played", run, 6000, 50000,
  { "GTK and the player are stand-ins: the acts of the user come from a script" } });
}
