// C23: the player as a whole: life cycle, options, screen, several players.
#include "fakes.h"
#include "lock.h"
#include <algorithm>
#include <cairo.h>
#include <cmath>
#include <fstream>
using namespace pbt;
using ginga::Document;
using ginga::Event;
using ginga::Formatter;
using ginga::Media;

namespace {
struct Named { const char *name; double r, g, b; };
const Named COLS[] = { { "", 0, 0, 0 }, { "black", 0, 0, 0 }, { "red", 1, 0, 0 }, { "#00ff00", 0, 1, 0 }, { "rgb(0,0,255)", 0, 0, 1 },
                       { "white", 1, 1, 1 }, { "#808000", .502, .502, 0 } };
const uint64_t SEC4 = GINGA_SECOND / 4;

// What is expected of one player.
struct P {
  Formatter *f = nullptr;
  int w, h;
  bool debug, experimental, webservices;
  string background;
  bool playing = false;
  int ticks = 0;       // since the document was started
  int doc = 0;         // which one
  Document *real = nullptr;
  uint64_t time = 0;   // of the media
  bool m1 = false, m2 = false;
  bool pend = false;   // the focus may be updated
  string next, focus;
  bool sure = true;    // whether the focus is known
};
struct World {
  Case &c;
  vector<P> ps;
  vector<string> good, bad;
  vector<double> dur;  // of m1
  vector<bool> hasFocus;
  vector<string> first; // initial focus
  string env;           // G_MESSAGES_DEBUG before debugging is on
  int step = 0;
  long starts = 0, refused = 0, sets = 0;
  explicit World (Case &cc) : c (cc) {}
  ~World ()
  {
    for (auto &p : ps)
      delete p.f;
    g_setenv ("G_MESSAGES_DEBUG", "", TRUE);
  }
  std::ostream &log (size_t i) { return c.desc << "\n" << ++step << ". player " << i + 1 << ": "; }

  void make (size_t i)
  {
    P &p = ps[i];
    p = P ();
    if (c.src.chance (1, 3))
      {
        p.w = 800, p.h = 600, p.debug = p.experimental = p.webservices = false;
        log (i) << "created without options";
        p.f = dynamic_cast<Formatter *> (Ginga::create (nullptr));
      }
    else
      {
        GingaOptions o;
        o.width = p.w = size ();
        o.height = p.h = size ();
        o.debug = p.debug = c.src.chance (1, 5);
        o.experimental = p.experimental = c.src.chance (1, 3);
        o.webservices = p.webservices = false;
        o.opengl = false;
        o.background = p.background = COLS[c.src.draw (7)].name;
        log (i) << "created " << p.w << "x" << p.h << " debug=" << p.debug << " experimental=" << p.experimental << " background='" << p.background << "'";
        p.f = dynamic_cast<Formatter *> (Ginga::create (&o));
      }
    c.check (p.f != nullptr, "create", "no player");
  }
  int size () { return c.src.chance (1, 4) ? 700 + (int) c.src.draw (200) : 8 + (int) c.src.draw (150); }

  // Compares everything that can be seen of every player.
  void compare ()
  {
    for (size_t i = 0; i < ps.size (); i++)
      {
        P &p = ps[i];
        string at = " of player " + std::to_string (i + 1);
        c.eq (p.f->getState () == GINGA_STATE_PLAYING, p.playing, "state", "whether it is playing, " + at);
        c.eq (p.f->getDocument () != nullptr, p.playing, "document", "whether there is a document" + at);
        c.check (!p.playing || p.f->getDocument () == p.real, "document", "the document changes" + at);
        const GingaOptions *o = p.f->getOptions ();
        c.eq (o->width, p.w, "option", "width" + at);
        c.eq (o->height, p.h, "option", "height" + at);
        c.eq (o->debug, p.debug, "option", "debug" + at);
        c.eq (o->experimental, p.experimental, "option", "experimental" + at);
        c.eq (o->webservices, p.webservices, "option", "webservices" + at);
        c.eq (o->opengl, false, "option", "opengl" + at);
        c.eq (o->background, p.background, "option", "background" + at);
        c.eq (p.f->getOptionInt ("width"), p.w, "option", "width by name" + at);
        c.eq (p.f->getOptionInt ("height"), p.h, "option", "height by name" + at);
        c.eq (p.f->getOptionBool ("debug"), p.debug, "option", "debug by name" + at);
        c.eq (p.f->getOptionBool ("experimental"), p.experimental, "option", "experimental by name" + at);
        c.eq (p.f->getOptionBool ("opengl"), false, "option", "opengl by name" + at);
        c.eq (p.f->getOptionBool ("webservices"), p.webservices, "option", "webservices by name" + at);
        c.eq (p.f->getOptionString ("background"), p.background, "option", "background by name" + at);
        if (p.playing)
          {
            media (p, "m1", p.m1, at);
            media (p, "m2", p.m2, at);
            string fo = p.real->getSettings ()->getProperty ("service.currentFocus");
            if (p.sure)
              c.eq (fo, p.focus, "focus", "current focus" + at);
          }
      }
    if (ps.size () == 1)
      {
        const char *e = g_getenv ("G_MESSAGES_DEBUG");
        c.eq (string (e ? e : ""), ps[0].debug ? string ("all") : env, "debug-env", "G_MESSAGES_DEBUG");
      }
  }
  void media (P &p, const string &id, bool on, const string &at)
  {
    Media *m = dynamic_cast<Media *> (p.real->getObjectById (id));
    c.check (m != nullptr, "document", "no object " + id + at);
    c.eq (m->isOccurring (), on, "media", "whether " + id + " occurs" + at);
    if (p.sure)
      c.eq (m->isFocused (), on && hasFocus[(size_t) p.doc] && p.focus == id.substr (1), "focus", "whether " + id + " is focused" + at);
  }
  void started (P &p)
  {
    p.playing = true;
    p.real = p.f->getDocument ();
    p.ticks = 0;
    p.time = 0;
    p.m1 = p.m2 = p.pend = false;
    p.next = "";
    p.focus = first[(size_t) p.doc];
    p.sure = true;
  }
  void start (size_t i)
  {
    P &p = ps[i];
    string err = "?";
    bool noErr = c.src.chance (1, 6), invalid = c.src.chance (1, 3);
    size_t k = invalid ? c.src.draw (bad.size ()) : c.src.draw (good.size ());
    const string &path = invalid ? bad[k] : good[k];
    log (i) << "start " << path.substr (c.tmpdir.size () + 1);
    bool ok = p.f->start (path, noErr ? nullptr : &err);
    bool want = !p.playing && !invalid;
    c.eq (ok, want, "start", "whether it starts");
    if (ok)
      {
        p.doc = (int) k;
        started (p);
        starts++;
      }
    else
      {
        refused++;
        if (!p.playing && !noErr)
          c.check (err != "" && err != "?", "message", "an invalid document is refused without a message");
      }
  }
  void stop (size_t i)
  {
    P &p = ps[i];
    log (i) << "stop";
    c.eq (p.f->stop (), p.playing, "stop", "whether it stops");
    if (!p.playing)
      refused++;
    p.playing = false;
  }
  // The presentation ends if the body sleeps.
  bool ends (P &p)
  {
    if (p.playing && p.real->getRoot ()->isSleeping ())
      {
        c.check (p.ticks > 0 && !p.m1 && !p.m2, "end", "the body ends before its medias");
        return true;
      }
    return false;
  }
  void tick (size_t i)
  {
    P &p = ps[i];
    static const unsigned N[] = { 1, 2, 4, 0, 3 };
    uint64_t d = N[c.src.draw (5)] * SEC4;
    log (i) << "tick " << (double) d / GINGA_SECOND;
    bool want = p.playing && !ends (p);
    c.eq (p.f->sendTick (p.time + d, d, (uint64_t) p.ticks), want, "tick", "whether the tick is taken");
    if (!want)
      {
        refused += !p.playing;
        p.playing = false;
        return;
      }
    p.ticks++;
    bool foc = hasFocus[(size_t) p.doc];
    if (p.ticks == 1)
      {
        p.m1 = p.m2 = true;
        p.pend = foc;
        p.next = "1";
        p.sure = !foc; // the settings may get the tick before the body
        return;
      }
    p.time += d;
    bool end = p.m1 && dur[(size_t) p.doc] > 0 && (double) p.time > dur[(size_t) p.doc] * (double) GINGA_SECOND;
    if (p.pend)
      {
        p.focus = p.next;
        // The medias may end before the settings look for the lowest index.
        if (end && !p.sure && p.real->getSettings ()->getProperty ("service.currentFocus") == "")
          p.focus = "";
        p.pend = false;
        p.sure = true;
      }
    if (end)
      p.m1 = p.m2 = false;
  }
  void key (size_t i)
  {
    P &p = ps[i];
    string k = c.src.pick (vector<string>{ "CURSOR_RIGHT", "CURSOR_LEFT", "ENTER", "CURSOR_UP", "RED" });
    bool press = !c.src.chance (1, 3);
    log (i) << (press ? "press " : "release ") << k;
    bool want = p.playing && !ends (p);
    bool unsure = !p.sure;
    string real = unsure && want ? p.real->getSettings ()->getProperty ("service.currentFocus") : p.focus;
    c.eq (p.f->sendKey (k, press), want, "key", "whether the key is taken");
    if (!want)
      {
        refused += !p.playing;
        p.playing = false;
        return;
      }
    if (press && hasFocus[(size_t) p.doc])
      {
        if (p.m1 && real == "1" && k == "CURSOR_RIGHT")
          p.pend = true, p.next = "2";
        else if (p.m2 && real == "2" && k == "CURSOR_LEFT")
          p.pend = true, p.next = "1";
      }
  }
  void option (size_t i)
  {
    P &p = ps[i];
    sets++;
    switch (c.src.draw (6))
      {
      case 0:
        {
          int v = size ();
          bool w = c.src.chance (1, 2);
          log (i) << (w ? "width = " : "height = ") << v;
          p.f->setOptionInt (w ? "width" : "height", v);
          (w ? p.w : p.h) = v;
          break;
        }
      case 1:
        p.w = size (), p.h = size ();
        log (i) << "resize " << p.w << "x" << p.h;
        p.f->resize (p.w, p.h);
        break;
      case 2:
        p.background = COLS[c.src.draw (7)].name;
        log (i) << "background = '" << p.background << "'";
        p.f->setOptionString ("background", p.background);
        break;
      case 3:
        p.experimental = c.src.chance (1, 2);
        log (i) << "experimental = " << p.experimental;
        p.f->setOptionBool ("experimental", p.experimental);
        break;
      case 4:
        p.debug = c.src.chance (1, 2);
        log (i) << "debug = " << p.debug;
        p.f->setOptionBool ("debug", p.debug);
        break;
      default:
        if (c.src.chance (1, 3))
          {
            p.webservices = c.src.chance (1, 2);
            log (i) << "webservices = " << p.webservices;
            p.f->setOptionBool ("webservices", p.webservices);
            break;
          }
        log (i) << "opengl = false";
        p.f->setOptionBool ("opengl", false);
      }
  }
  void redraw (size_t i)
  {
    P &p = ps[i];
    log (i) << "redraw";
    int W = p.w + 6, H = p.h + 6;
    cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, W, H);
    cairo_t *cr = cairo_create (s);
    cairo_set_source_rgb (cr, .4, .6, .2);
    cairo_paint (cr);
    p.f->redraw (cr);
    cairo_destroy (cr);
    cairo_surface_flush (s);
    const unsigned char *d = cairo_image_surface_get_data (s);
    int st = cairo_image_surface_get_stride (s);
    Named bg = { "", 0, 0, 0 };
    for (auto &k : COLS)
      if (p.background == k.name)
        bg = k;
    auto px = [&] (int x, int y, double r, double g, double b, const char *what) {
      const unsigned char *q = d + y * st + x * 4;
      bool ok = fabs (q[2] - r * 255) <= 3 && fabs (q[1] - g * 255) <= 3 && fabs (q[0] - b * 255) <= 3;
      if (!ok)
        c.fail (string ("frame-") + what, "pixel " + std::to_string (x) + "," + std::to_string (y) + " of player " + std::to_string (i + 1) + " is "
                + std::to_string (q[2]) + "," + std::to_string (q[1]) + "," + std::to_string (q[0]) + " (" + what + ")");
    };
    for (int k = 0; k < 6; k++)
      px (p.w + k, (k * 37) % H, .4, .6, .2, "outside"), (p.debug && p.playing && (p.w < 700 || p.h < 100) ? void () : px ((k * 41) % W, p.h + k, .4, .6, .2, "outside"));
    if (!p.playing)
      {
        for (int k = 0; k < 20; k++)
          px ((k * 53) % W, (k * 29) % H, .4, .6, .2, "stopped");
      }
    else
      {
        // m1 fills the left part of the lower half, m2 the right one.
        bool dbg = p.debug;
        int y = p.h - 1;
        int mid = p.h * 3 / 4;
        if (!dbg || (p.h >= 100 && p.w >= 700))
          {
            px (p.w / 2, y, bg.r, bg.g, bg.b, "background");
            if (p.w >= 100 && p.h >= 100 && p.sure)
              {
                if (p.m1 && dbg)
                  ; // covered by debugging information
                else if (p.m1)
                  px (p.w / 4, mid, 1, 0, 0, "m1");
                else
                  px (p.w / 4, mid, bg.r, bg.g, bg.b, "background");
                if (p.m2 && dbg)
                  ;
                else if (p.m2)
                  px (p.w * 3 / 4, mid, 0, 0, 1, "m2");
                else
                  px (p.w * 3 / 4, mid, bg.r, bg.g, bg.b, "background");
                // The border of the one with the focus.
                for (int k = 1; k <= 2; k++)
                  {
                    bool on = k == 1 ? p.m1 : p.m2, foc = on && hasFocus[(size_t) p.doc] && p.focus == std::to_string (k);
                    int x = k == 1 ? (int) round (p.w * .125) : (int) round (p.w * .625);
                    if (foc && !dbg)
                      px (x, mid, 1, 1, 0, "focus");
                    else if (!on)
                      px (x, mid, bg.r, bg.g, bg.b, "background");
                  }
              }
          }
        if (!dbg)
          px (0, 0, bg.r, bg.g, bg.b, "background"), px (p.w - 1, 0, bg.r, bg.g, bg.b, "background");
        else if (p.w >= 700)
          px (0, 0, bg.r * .5 + .5, bg.g * .5, bg.b * .5, "banner"), px (p.w - 1, 0, bg.r * .5 + .5, bg.g * .5, bg.b * .5, "banner");
      }
    cairo_surface_destroy (s);
  }
};
string
docText (bool focus, const string &first, double dur)
{
  auto prop = [] (const string &n, const string &v) { return "<property name='" + n + "' value='" + v + "'/>"; };
  string s = "<ncl id='n'><body>";
  if (first != "")
    s += "<media id='s' type='application/x-ginga-settings'>" + prop ("service.currentFocus", first) + "</media>";
  s += "<port id='p1' component='m1'/><port id='p2' component='m2'/>";
  for (int i = 1; i <= 2; i++)
    {
      s += "<media id='m" + std::to_string (i) + "'>" + prop ("left", i == 1 ? "12.5%" : "62.5%") + prop ("top", "62.5%") + prop ("width", "25%")
           + prop ("height", "25%") + prop ("background", i == 1 ? "red" : "blue");
      if (focus)
        s += prop ("focusIndex", std::to_string (i)) + prop (i == 1 ? "moveRight" : "moveLeft", i == 1 ? "2" : "1");
      if (dur > 0)
        s += prop ("explicitDur", std::to_string (dur) + "s");
      s += "</media>";
    }
  return s + "</body></ncl>";
}
}

static RegP c23 (Property{ "C23", "a document was presented, and an option changed or a request was refused",
  [] (Case &c) {
    World w (c);
    fakes_reset ();
    const char *e[] = { "", "none", "GINGA" };
    w.env = e[c.src.draw (3)];
    g_setenv ("G_MESSAGES_DEBUG", w.env.c_str (), TRUE);
    // Documents
    for (int i = 0; i < 3; i++)
      {
        bool foc = i == 0 || c.src.chance (1, 2);
        string first = c.src.chance (1, 3) ? c.src.pick (vector<string>{ "1", "2", "7" }) : "";
        double dur = c.src.chance (1, 2) ? .25 * (double) (1 + c.src.draw (12)) : 0;
        string path = c.tmpdir + "/good" + std::to_string (i) + ".ncl", text = docText (foc, first, dur);
        std::ofstream (path) << text;
        c.desc << (i ? "\n" : "") << path.substr (c.tmpdir.size () + 1) << ": " << text;
        w.good.push_back (path);
        w.dur.push_back (dur);
        w.hasFocus.push_back (foc);
        w.first.push_back (first);
      }
    const char *B[] = { "", "<ncl>", "<ncl id='n'><body><port id='p' component='x'/></body></ncl>", "<html/>", "<ncl id='n'><body><media id='a'/><media id='a'/></body></ncl>" };
    for (size_t i = 0; i < 5; i++)
      {
        string path = c.tmpdir + "/bad" + std::to_string (i) + ".ncl";
        std::ofstream (path) << B[i];
        w.bad.push_back (path);
      }
    w.bad.push_back (c.tmpdir + "/absent.ncl");
    w.bad.push_back (c.tmpdir + "/bad.lua");
    std::ofstream (w.bad.back ()) << "return {'context', 'c', }, 7 +";
    w.ps.resize (1 + (c.src.chance (1, 2) ? 1 + c.src.draw (2) : 0));
    for (size_t i = 0; i < w.ps.size (); i++)
      w.make (i);
    w.compare ();
    int n = 4 + (int) c.src.draw (6 + (uint64_t) c.size / 3);
    for (int k = 0; k < n; k++)
      {
        size_t i = c.src.draw (w.ps.size ());
        switch (c.src.weighted ({ 5, 9, 3, 2, 3, 4, 1 }))
          {
          case 0: w.start (i); break;
          case 1: w.tick (i); break;
          case 2: w.key (i); break;
          case 3: w.stop (i); break;
          case 4: w.option (i); break;
          case 5: w.redraw (i); break;
          default:
            {
              w.log (i) << "destroyed";
              bool dbg = w.ps[i].debug;
              delete w.ps[i].f;
              w.ps[i].f = nullptr;
              if (w.ps.size () == 1 && dbg)
                g_setenv ("G_MESSAGES_DEBUG", w.env.c_str (), TRUE);
              w.make (i);
            }
          }
        w.compare ();
      }
    c.nontrivial = w.starts > 0 && w.sets + w.refused > 0;
    c.cls (std::to_string (w.ps.size ()) + " players");
    if (w.starts > 1) c.cls ("restarted");
    if (w.refused) c.cls ("refused");
  }, 20000, 300000, { "pixels are compared at sampled points" } });
