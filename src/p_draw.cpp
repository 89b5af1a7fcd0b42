// C18 (geometry), C19 (frames), C28 (animations and transitions): presents
// documents of pictures and coloured boxes, and compares the frames drawn with
// what a painter's model expects of them.
#include "doc.h"
#include "fakegl.h"
#include "fakes.h"
#include "pbt.h"
#include "Context.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Player.h"
#include <algorithm>
#include <cairo.h>
#include <cmath>
#include <fstream>
#include <list>
#include <memory>
using namespace pbt;
using std::map;
using std::pair;
using std::string;
using std::vector;
using doc::XNode;

namespace {
struct Rgb { double r, g, b; };
struct Named { const char *name; Rgb c; };
const Named COLORS[] = { { "red", { 1, 0, 0 } }, { "lime", { 0, 1, 0 } }, { "blue", { 0, 0, 1 } }, { "white", { 1, 1, 1 } }, { "yellow", { 1, 1, 0 } }, { "#00ffff", { 0, 1, 1 } }, { "fuchsia", { 1, 0, 1 } }, { "#808080", { 128 / 255., 128 / 255., 128 / 255. } }, { "#204060", { 32 / 255., 64 / 255., 96 / 255. } }, { "black", { 0, 0, 0 } } };
const int NCOLORS = sizeof COLORS / sizeof *COLORS;
Rgb
colorOf (const string &s)
{
  for (auto &c : COLORS)
    if (s == c.name)
      return c.c;
  abort ();
}
XNode
el (const string &tag, const doc::Attrs &a = {})
{
  XNode n;
  n.tag = tag;
  n.attrs = a;
  return n;
}
struct Var { // something that can be animated
  double v = 0;
  bool anim = false, begun = false;
  double from = 0, to = 0;
  uint64_t t0 = 0, dur = 0;
};
enum Style { REGION, OWN, BOUNDS, LOCSIZE };
enum Content { BOX, PICTURE, TEXT, SCRIPT };
struct M {
  string id;
  Style style = OWN;
  Content content = BOX;
  bool right = false, bottom = false;   // anchored there (OWN only)
  int iw = 8, ih = 8;
  Rgb quad[4];
  bool painted = true; // scripts paint when they like
  string bgName = "background"; // or its alias
  map<string, string> props;
  ginga::Media *real = nullptr, *twin = nullptr;
  int state = 0; // 0 sleeping 1 occurring 2 paused
  uint64_t time = 0;
  Var x, y, w, h, alpha, r, g, b;
  bool hasBg = false;
  string halign, valign;
  // entry transition
  string wipe;
  bool amb = false; // rounding is not determined
  uint64_t wipeDur = 0, lag = 0; // the second half of a diagonal wipe begins with the frame after
  double wx = 0, wy = 0, ww = 0, wh = 0;
  int zorder = 0;
};
struct Px { double c[3]; bool known; bool same = true; }; // same: drawn alike with and without OpenGL
struct Scene {
  Case &c;
  int W, H;
  string background;
  vector<M> ms;
  ginga::Formatter *f = nullptr;
  ginga::Formatter *f2 = nullptr; // presents the same without OpenGL
  bool gl = false, debug = false;
  int frames = 0, step = 0;
  bool ambiguous = false;
  map<string, int> stat;
  explicit Scene (Case &cc) : c (cc) {}
  ~Scene () { delete f; delete f2; }

  string dim (int base, bool pct, int lo, int hi);
  double px (const string &v, int base);
  void geometry (M &);
  void reset (M &);
  void apply (M &, const string &, const string &);
  void set (M &, const string &, const string &, uint64_t dur);
  void animate (M &, Var &, bool known, double from, double to, uint64_t dur);
  void paint (vector<Px> &);
  void paintOne (M &, vector<Px> &);
  void frame ();
  void tick (uint64_t);
  bool animating ();
  string picture (M &, int);
};

// A dimension: between LO and HI percent of BASE, in pixels or as percentage.
string
Scene::dim (int base, bool pct, int lo, int hi)
{
  if (pct)
    for (int i = 0;; i++)
      {
        double p = (double) c.src.range (lo * 2, hi * 2) / 2;
        if (c.src.chance (1, 5))
          p += .25;
        double v = base * p / 100;
        if (i < 20 && fabs (v - floor (v) - .5) < .02)
          continue;
        char b[40];
        snprintf (b, sizeof b, "%g%%", p);
        return b;
      }
  return std::to_string (c.src.range (base * lo / 100, base * hi / 100));
}
double
Scene::px (const string &v, int base)
{
  double d = atof (v.c_str ());
  if (v.size () && v.back () == '%')
    d = base * d / 100;
  if (fabs (d - floor (d) - .5) < .01)
    ambiguous = true;
  d = (double) lround (d);
  return d < 0 ? 0 : d;
}
// The values of the geometry properties of M, as set.
void
Scene::geometry (M &m)
{
  auto p = [&] (const char *n) { return m.props.count (n) ? m.props[n] : string (); };
  ambiguous = false;
  string l = p ("left"), t = p ("top"), w = p ("width"), h = p ("height");
  auto side = [&] (const string &v, int base) { // may be beyond the screen
    return v[0] == '-' ? -px (v.substr (1), base) : px (v, base);
  };
  auto split = [] (const string &s) {
    vector<string> v (1);
    for (char ch : s)
      if (ch == ',')
        v.push_back ("");
      else if (ch != ' ')
        v.back () += ch;
    return v;
  };
  if (p ("bounds") != "")
    {
      auto v = split (p ("bounds"));
      l = v[0], t = v[1], w = v[2], h = v[3];
    }
  if (p ("location") != "")
    {
      auto v = split (p ("location"));
      l = v[0], t = v[1];
    }
  if (p ("size") != "")
    {
      auto v = split (p ("size"));
      w = v[0], h = v[1];
    }
  m.w.v = px (w == "" ? "100%" : w, W);
  m.h.v = px (h == "" ? "100%" : h, H);
  m.x.v = p ("right") != "" ? W - m.w.v - side (p ("right"), W) : px (l == "" ? "0" : l, W);
  m.y.v = p ("bottom") != "" ? H - m.h.v - side (p ("bottom"), H) : px (t == "" ? "0" : t, H);
  // Regions set both: they may be rounded differently.
  if (m.style == REGION && ((m.right && l[0] != '-' && m.x.v != px (l, W)) || (m.bottom && t[0] != '-' && m.y.v != px (t, H))))
    ambiguous = true;
  m.amb = ambiguous;
  ambiguous = false;
}
double
opacity (const string &transparency)
{
  return transparency == "" ? 255 : 255 - lround (255 * atof (transparency.c_str ()) / 100);
}
// State at the start of a presentation.
void
Scene::reset (M &m)
{
  for (Var *v : { &m.x, &m.y, &m.w, &m.h, &m.alpha, &m.r, &m.g, &m.b })
    *v = Var ();
  m.time = 0;
  m.wipeDur = m.lag = 0;
  geometry (m);
  if (m.content == SCRIPT) // its canvas has the size that the media has now
    {
      m.iw = std::max (1, (int) m.w.v), m.ih = std::max (1, (int) m.h.v);
      m.painted = false;
    }
  m.alpha.v = opacity (m.props["transparency"]);
  m.hasBg = m.props["background"] != "";
  Rgb k = m.hasBg ? colorOf (m.props["background"]) : Rgb{ 0, 0, 0 };
  m.r.v = k.r;
  m.g.v = k.g;
  m.b.v = k.b;
  if (m.wipe != "")
    {
      uint64_t d = 2 * GINGA_SECOND;
      if (m.wipe == "fade")
        {
          double to = m.alpha.v;
          m.alpha.v = 0;
          animate (m, m.alpha, true, 0, to, d);
        }
      else
        {
          m.wipeDur = d;
          m.wx = m.x.v, m.wy = m.y.v, m.ww = m.w.v, m.wh = m.h.v;
        }
    }
}
void
Scene::animate (M &m, Var &v, bool known, double from, double to, uint64_t dur)
{
  v.anim = true;
  v.begun = known;
  v.from = from;
  v.t0 = m.time;
  v.to = to;
  v.dur = dur;
}
void
Scene::set (M &m, const string &name, const string &value, uint64_t dur)
{
  string old = m.props[name];
  m.props[name] = value;
  m.real->setProperty (name == "background" ? m.bgName : name, value, dur);
  if (m.twin)
    m.twin->setProperty (name == "background" ? m.bgName : name, value, dur);
  if (m.state == 0)
    return;
  auto vars = [&] () -> vector<pair<Var *, int> > {
    if (name == "left" || name == "right")
      return { { &m.x, W } };
    if (name == "top" || name == "bottom")
      return { { &m.y, H } };
    if (name == "width")
      return { { &m.w, W } };
    if (name == "height")
      return { { &m.h, H } };
    if (name == "location")
      return { { &m.x, W }, { &m.y, H } };
    if (name == "size")
      return { { &m.w, W }, { &m.h, H } };
    if (name == "bounds")
      return { { &m.x, W }, { &m.y, H }, { &m.w, W }, { &m.h, H } };
    return {};
  };
  auto items = [] (const string &s) {
    vector<string> v;
    string x;
    for (char ch : s + ",")
      if (ch == ',')
        {
          v.push_back (x);
          x = "";
        }
      else if (ch != ' ')
        x += ch;
    return v;
  };
  static const std::set<string> AT_ONCE = { "visible", "zIndex", "right", "bottom" };
  if (dur && AT_ONCE.count (name))
    stat["timed-at-once"]++;
  if (dur == 0 || AT_ONCE.count (name))
    {
      if (name == "transparency")
        {
          m.alpha = Var ();
          m.alpha.v = opacity (value);
        }
      else if (name == "background")
        {
          m.r = m.g = m.b = Var ();
          m.hasBg = value != "";
          if (m.hasBg)
            {
              Rgb k = colorOf (value);
              m.r.v = k.r, m.g.v = k.g, m.b.v = k.b;
            }
        }
      else
        {
          // Only what was set changes (and the side that hangs on it).
          Var sx = m.x, sy = m.y, sw = m.w, sh = m.h;
          bool amb = m.amb;
          geometry (m);
          m.amb |= amb;
          auto v = vars ();
          auto has = [&] (Var *x) {
            for (auto &i : v)
              if (i.first == x)
                return true;
            return false;
          };
          auto keep = [&] (Var &now, const Var &before, bool changed) {
            if (!changed)
              now = before;
            else
              {
                double x = now.v;
                now = Var ();
                now.v = x;
              }
          };
          keep (m.x, sx, has (&m.x) || (m.right && has (&m.w)));
          keep (m.y, sy, has (&m.y) || (m.bottom && has (&m.h)));
          keep (m.w, sw, has (&m.w));
          keep (m.h, sh, has (&m.h));
        }
      return;
    }
  stat["animated"]++;
  if (name == "transparency")
    animate (m, m.alpha, old != "", old == "" ? 0 : opacity (old), opacity (value), dur);
  else if (name == "background")
    {
      Rgb a = old == "" ? Rgb{ 0, 0, 0 } : colorOf (old), b = colorOf (value);
      m.hasBg = true;
      animate (m, m.r, true, a.r, b.r, dur);
      animate (m, m.g, true, a.g, b.g, dur);
      animate (m, m.b, true, a.b, b.b, dur);
    }
  else
    {
      auto v = vars ();
      auto to = items (value), from = items (old);
      for (size_t i = 0; i < v.size (); i++)
        animate (m, *v[i].first, old != "", old == "" ? 0 : px (from[i], v[i].second), px (to[i], v[i].second), dur);
      m.amb |= ambiguous;
      ambiguous = false;
    }
}
bool
Scene::animating ()
{
  for (auto &m : ms)
    for (Var *v : { &m.x, &m.y, &m.w, &m.h, &m.alpha, &m.r, &m.g, &m.b })
      if (m.state && v->anim)
        return true;
  return false;
}
void
blend (vector<Px> &o, int W, int H, int x0, int y0, int x1, int y1, Rgb k, double a, bool known = true)
{
  for (int y = std::max (y0, 0); y < y1 && y < H; y++)
    for (int x = std::max (x0, 0); x < x1 && x < W; x++)
      {
        Px &p = o[(size_t) y * W + x];
        const double s[3] = { k.r, k.g, k.b };
        if (p.c[0] <= -1 && (a > 0 || !known))
          p.c[0] = p.c[1] = p.c[2] = 0;
        for (int i = 0; i < 3; i++)
          p.c[i] = p.c[i] * (1 - a) + s[i] * a;
        if (!known)
          p.known = false;
        else if (a >= 1)
          p.known = p.same = true;
      }
}
void
Scene::paintOne (M &m, vector<Px> &o)
{
  if (m.amb)
    ambiguous = true;
  // Animations
  auto upd = [&] (Var &v, bool integer, double lo, double hi) {
    if (!v.anim)
      return;
    if (!v.begun)
      {
        v.begun = true;
        v.from = v.v;
        v.t0 = m.time;
      }
    double k = v.dur == 0 ? 1 : (double) (m.time - v.t0) / (double) v.dur;
    double now = k >= 1 ? v.to : v.from + (v.to - v.from) * k;
    if (integer)
      {
        if (k < 1 && fabs (now - floor (now) - .5) < 1e-3)
          ambiguous = true;
        now = (double) lround (now);
      }
    v.v = std::min (std::max (now, lo), hi);
    if (k > 0 && k < 1)
      stat["between"]++;
    if (k >= 1 || v.from == v.to)
      v.anim = false;
  };
  upd (m.x, true, -1e9, 1e9);
  upd (m.y, true, -1e9, 1e9);
  upd (m.w, true, -1e9, 1e9);
  upd (m.h, true, -1e9, 1e9);
  upd (m.alpha, false, 0, 255);
  upd (m.r, false, 0, 1);
  upd (m.g, false, 0, 1);
  upd (m.b, false, 0, 1);
  if (m.wipe != "diagonal")
    m.lag = 0;
  if (m.wipeDur && m.time >= m.wipeDur + m.lag + 1000) // sums of steps are rounded
    m.wipeDur = 0;

  if (m.props["visible"] == "false" || m.w.v <= 0 || m.h.v <= 0)
    return;
  if (m.wipeDur && (m.wx < 0 || m.wy < 0))
    ambiguous = true;
  vector<Px> under;
  if (m.wipeDur)
    under = o;
  int x0 = (int) m.x.v, y0 = (int) m.y.v, x1 = x0 + (int) m.w.v, y1 = y0 + (int) m.h.v;
  double a = m.alpha.v / 255;
  stat["drawn"]++;
  if (m.hasBg)
    blend (o, W, H, x0, y0, x1, y1, { m.r.v, m.g.v, m.b.v }, a);
  if (m.content == PICTURE || (m.content == SCRIPT && m.painted))
    {
      int mx = (int) ceil (m.w.v / m.iw) + 2, my = (int) ceil (m.h.v / m.ih) + 2;
      int cx = (x0 + x1) / 2, cy = (y0 + y1) / 2;
      const int xs[3] = { x0, cx, x1 }, ys[3] = { y0, cy, y1 };
      for (int j = 0; j < 2; j++)
        for (int i = 0; i < 2; i++)
          blend (o, W, H, xs[i], ys[j], xs[i + 1], ys[j + 1], m.quad[j * 2 + i], a);
      for (int y = std::max (y0 - my, 0); y < y1 + my && y < H; y++)
        for (int x = std::max (x0 - mx, 0); x < x1 + mx && x < W; x++)
          if (x < x0 + mx || x >= x1 - mx || y < y0 + my || y >= y1 - my || abs (x - cx) <= mx || abs (y - cy) <= my)
            {
              Px &p = o[(size_t) y * W + x];
              p.known = p.same = false;
              p.c[0] = std::max (p.c[0], 0.);
            }
    }
  else if (m.content == TEXT)
    {
      int out = stat["animated"] ? 12 : 0; // scaled until the dimensions are final
      blend (o, W, H, x0 - out, y0 - out, x1 + out, y1 + out, { 0, 0, 0 }, 0, false);
      if (out)
        for (int y = std::max (y0 - out, 0); y < y1 + out && y < H; y++)
          for (int x = std::max (x0 - out, 0); x < x1 + out && x < W; x++)
            o[(size_t) y * W + x].same = false;
    }
  if (m.props["focusIndex"] != "" && m.props["focusIndex"] == f->getDocument ()->getSettings ()->getProperty ("service.currentFocus"))
    {
      stat["focus"]++;
      Rgb k = m.props["focusBorderColor"] == "" ? Rgb{ 1, 1, 0 } : colorOf (m.props["focusBorderColor"]);
      double fa = opacity (m.props["focusBorderTransparency"]) / 255.;
      for (int y = std::max (y0 - 5, 0); y < y1 + 5 && y < H; y++)
        for (int x = std::max (x0 - 5, 0); x < x1 + 5 && x < W; x++)
          {
            int dx = std::min (abs (x - x0), abs (x - x1)), dy = std::min (abs (y - y0), abs (y - y1));
            bool in = x > x0 + 5 && x < x1 - 6 && y > y0 + 5 && y < y1 - 6;
            if (in)
              continue;
            Px &p = o[(size_t) y * W + x];
            // what is just inside of the edges bears the colour of the border
            bool edge = ((x == x0 || x == x1 - 1) && y >= y0 && y < y1) || ((y == y0 || y == y1 - 1) && x >= x0 && x < x1);
            (void) dx, (void) dy;
            p.known = edge && (fa >= 1 || p.known);
            if (p.known)
              p.c[0] += (k.r - p.c[0]) * fa, p.c[1] += (k.g - p.c[1]) * fa, p.c[2] += (k.b - p.c[2]) * fa;
            else
              p.c[0] = p.c[1] = p.c[2] = 0;
          }
    }
  if (m.wipeDur)
    {
      // What has not been reached yet does not show the media.
      double k = std::min (1., (double) m.time / (double) m.wipeDur);
      stat["wipe"]++;
      for (int y = 0; y < H; y++)
        for (int x = 0; x < W; x++)
          {
            Px &p = o[(size_t) y * W + x];
            double pos, edge, mar, back = 0;
            if (m.wipe == "leftToRight")
              pos = x - m.wx, edge = m.ww * k, mar = 4;
            else if (m.wipe == "topToBottom")
              pos = y - m.wy, edge = m.wh * k, mar = 4;
            else
              {
                if (m.ww < 20 || m.wh < 20)
                  {
                    if (x >= m.wx - 12 && x < m.wx + m.ww + 12 && y >= m.wy - 12 && y < m.wy + m.wh + 12)
                      {
                        p.known = false;
                        p.c[0] = p.c[1] = p.c[2] = 0;
                      }
                    continue;
                  }
                pos = (x - m.wx) / m.ww + (y - m.wy) / m.wh, edge = 2 * k, mar = 5 / std::min (m.ww, m.wh) + .03, back = k > .5 ? 2. * (double) m.lag / (double) m.wipeDur : 0;
              }
            bool inside = x >= m.wx && x < m.wx + m.ww && y >= m.wy && y < m.wy + m.wh;
            int out = m.wipe == "diagonal" ? 12 : 4; // joins stick out
            bool near = x >= m.wx - out && x < m.wx + m.ww + out && y >= m.wy - out && y < m.wy + m.wh + out;
            bool rim = near && !(x >= m.wx + 4 && x < m.wx + m.ww - 4 && y >= m.wy + 4 && y < m.wy + m.wh - 4);
            if (!near)
              continue;
            if ((pos >= edge - mar - back && pos <= edge + mar) || rim)
              {
                p.known = false;
                p.c[0] = p.c[1] = p.c[2] = 0;
              }
            else if (inside && pos > edge)
              {
                p = under[(size_t) y * W + x];
                p.known = false; // whatever is there, not the media: see below
                if (m.alpha.v > 250 && m.hasBg && m.content == BOX && m.b.v + m.r.v + m.g.v > .5)
                  {
                    p.c[0] = -1 - m.r.v, p.c[1] = -1 - m.g.v, p.c[2] = -1 - m.b.v;
                  }
              }
          }
    }
}
void
Scene::paint (vector<Px> &o)
{
  o.assign ((size_t) W * H, { { 0, 0, 0 }, true });
  if (background != "")
    blend (o, W, H, 0, 0, W, H, colorOf (background), 1);
  vector<M *> v;
  for (auto &m : ms)
    if (m.state)
      v.push_back (&m);
  auto z = [] (M *m) { return atoi (m->props["zIndex"].c_str ()); };
  std::stable_sort (v.begin (), v.end (), [&] (M *a, M *b) { return z (a) != z (b) ? z (a) < z (b) : a->zorder < b->zorder; });
  for (auto m : v)
    paintOne (*m, o);
}
void
Scene::frame ()
{
  c.desc << "\n" << ++step << ". draw";
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, W, H);
  cairo_t *cr = cairo_create (s);
  (gl ? f2 : f)->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (s);
  vector<Px> o;
  paint (o);
  unsigned char *d = cairo_image_surface_get_data (s);
  int stride = cairo_image_surface_get_stride (s);
  string bad, key = "pixel";
  if (gl)
    {
      fakegl::resize (W, H);
      f->redraw (nullptr);
      c.check (fakegl::misuse () == "", "gl-misuse", "at step " + std::to_string (step) + " of OpenGL: " + fakegl::misuse ());
      auto &v = fakegl::screen ();
      for (int y = 0; y < H; y++)
        for (int x = 0; x < W; x++)
          {
            uint32_t &p = *(uint32_t *) (d + y * stride + x * 4), q = v[(size_t) y * W + x];
            bool ok = true;
            for (int i = 0; i < 24; i += 8)
              if (abs ((int) (p >> i & 255) - (int) (q >> i & 255)) > 5)
                ok = false;
            if (!ok && bad == "" && !ambiguous && o[(size_t) y * W + x].same)
              {
                char b[200];
                snprintf (b, sizeof b, "pixel (%d,%d) of frame %d at step %d is #%06x with OpenGL and #%06x without", x, y, frames + 1, step, q & 0xffffff, p & 0xffffff);
                bad = b;
                key = "gl-differs";
              }
            p = q;
          }
      if (debug) // whatever the banner covers
        for (auto &p : o)
          p.known = false, p.c[0] = std::max (p.c[0], 0.);
      if (bad == "")
        stat["alike"]++, stat["banner"] += debug;
    }
  if (!ambiguous && bad == "")
    for (int y = 0; y < H && bad == ""; y++)
      for (int x = 0; x < W && bad == ""; x++)
        {
          const Px &p = o[(size_t) y * W + x];
          uint32_t v = *(const uint32_t *) (d + y * stride + x * 4);
          double got[3] = { ((v >> 16) & 255) / 255., ((v >> 8) & 255) / 255., (v & 255) / 255. };
          bool ok = true;
          if (!p.known)
            {
              if (p.c[0] <= -1) // must not be this colour
                ok = !(fabs (got[0] + 1 + p.c[0]) < .02 && fabs (got[1] + 1 + p.c[1]) < .02 && fabs (got[2] + 1 + p.c[2]) < .02);
              else
                continue;
            }
          else
            for (int i = 0; i < 3; i++)
              if (fabs (got[i] - p.c[i]) > 4.5 / 255)
                ok = false;
          if (!ok)
            {
              std::ostringstream e;
              e << "pixel (" << x << "," << y << ") of frame " << frames + 1 << " at step " << step << " is (" << (int) (got[0] * 255 + .5) << "," << (int) (got[1] * 255 + .5) << "," << (int) (got[2] * 255 + .5) << "), expected ";
              if (p.known)
                e << "(" << (int) (p.c[0] * 255 + .5) << "," << (int) (p.c[1] * 255 + .5) << "," << (int) (p.c[2] * 255 + .5) << ")";
              else
                e << "no colour of what has not appeared yet";
              bad = e.str ();
              for (auto &m : ms)
                if (m.state)
                  {
                    std::ostringstream r;
                    r << "; " << m.id << " " << m.w.v << "x" << m.h.v << "+" << m.x.v << "+" << m.y.v << " z " << m.props["zIndex"] << "/" << m.zorder << " opacity " << m.alpha.v << " time " << m.time / 1e9;
                    bad += r.str ();
                  }
            }
        }
  // Where text is aligned to.
  if (!ambiguous && !debug && bad == "")
    for (auto &m : ms)
      {
        if (m.content != TEXT || !m.state || m.props["visible"] == "false" || !m.hasBg || m.alpha.v < 255 || m.wipeDur || stat["animated"])
          continue;
        bool covered = m.x.anim || m.y.anim || m.w.anim || m.h.anim || m.r.anim;
        for (auto &n : ms)
          if (&n != &m && n.state)
            covered = true;
        int x0 = (int) m.x.v, y0 = (int) m.y.v, w = (int) m.w.v, h = (int) m.h.v;
        if (covered || w < 40 || h < 60 || x0 < 0 || y0 < 0 || x0 + w > W || y0 + h > H)
          continue;
        double sx = 0, sy = 0;
        int n = 0;
        for (int y = y0 + 6; y < y0 + h - 6; y++)
          for (int x = x0; x < x0 + w; x++)
            {
              uint32_t v = *(const uint32_t *) (d + y * stride + x * 4);
              double got[3] = { ((v >> 16) & 255) / 255., ((v >> 8) & 255) / 255., (v & 255) / 255. };
              if (fabs (got[0] - m.r.v) + fabs (got[1] - m.g.v) + fabs (got[2] - m.b.v) > .5)
                sx += x - x0, sy += y - y0, n++;
            }
        stat["text"]++;
        if (n == 0 && m.props["focusIndex"] == "")
          {
            bad = "no text of " + m.id + " is visible";
            key = "text";
            break;
          }
        if (m.props["focusIndex"] != "")
          continue;
        sx /= n, sy /= n;
        bool ok = m.halign == "center" ? fabs (sx - w / 2.) < 6 : m.halign == "right" ? sx > w - 14 : sx < 14;
        ok = ok && (m.valign == "middle" ? fabs (sy - h / 2.) < 10 : m.valign == "bottom" ? sy > h - 24 : sy < 24);
        if (!ok)
          {
            std::ostringstream e;
            e << "the text of " << m.id << " is around (" << sx << "," << sy << ") of " << w << "x" << h << " although it is aligned " << m.halign << "/" << m.valign;
            bad = e.str ();
            key = "text";
          }
      }
  if (getenv ("GV_DUMP"))
    cairo_surface_write_to_png (s, (string (getenv ("GV_DUMP")) + std::to_string (frames) + ".png").c_str ());
  cairo_surface_destroy (s);
  c.check (bad == "", key, bad);
  if (!ambiguous)
    stat["frames"]++;
  frames++;
  ambiguous = false;
}
void
Scene::tick (uint64_t ns)
{
  c.desc << "\n" << ++step << ". tick " << ns / 1e9;
  static uint64_t total;
  total += ns;
  c.check (f->sendTick (total, ns, (uint64_t) step), "tick", "a tick is refused");
  if (f2)
    f2->sendTick (total, ns, (uint64_t) step);
  for (auto &m : ms)
    if (m.state == 1)
      {
        m.time += ns;
        m.lag = std::max (m.lag, 2 * ns);
      }
}
string
Scene::picture (M &m, int i)
{
  string path = c.tmpdir + "/pic" + std::to_string (i) + ".png";
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_RGB24, m.iw, m.ih);
  cairo_t *cr = cairo_create (s);
  for (int j = 0; j < 2; j++)
    for (int k = 0; k < 2; k++)
      {
        Rgb q = m.quad[j * 2 + k];
        cairo_set_source_rgb (cr, q.r, q.g, q.b);
        cairo_rectangle (cr, k * m.iw / 2, j * m.ih / 2, m.iw / 2, m.ih / 2);
        cairo_fill (cr);
      }
  cairo_destroy (cr);
  cairo_surface_write_to_png (s, path.c_str ());
  cairo_surface_destroy (s);
  return "pic" + std::to_string (i) + ".png";
}

struct Cfg {
  int medias = 3;
  unsigned region = 50, special = 30, picture = 25, text = 10, script = 10, bg = 85, transp = 20, z = 50, focus = 10, trans = 0, hidden = 10, anchored = 30;
  unsigned wTick = 3, wGeo = 3, wLook = 3, wState = 2, wResize = 1, wFrame = 2;
  unsigned animate = 0; // percentage
  bool gl = false;
};

struct RegionGen {
  Scene &s;
  vector<XNode> top;
  struct R { string id; double x, y, w, h; bool right = false, bottom = false; };
  vector<R> all;
  int n = 0;
  explicit RegionGen (Scene &ss) : s (ss) {}
  XNode make (double px, double py, double pw, double ph, int depth)
  {
    Case &c = s.c;
    XNode e = el ("region", { { "id", "r" + std::to_string (++n) } });
    R r;
    r.id = e.attrs[0].second, r.x = px, r.y = py, r.w = pw, r.h = ph;
    size_t at = all.size ();
    all.push_back (r);
    auto p = [&] (const string &v, double base) { return s.px (v, (int) base); };
    auto pct = [&] { return c.src.chance (1, 2); };
    string v;
    if (pw < 4 || ph < 4)
      depth = 0;
    if (c.src.chance (3, 4) && pw > 1)
      {
        v = s.dim ((int) pw, pct (), 20, 100);
        e.attrs.push_back ({ "width", v });
        r.w = p (v, pw);
        if (r.w < pw && c.src.chance (1, 3))
          {
            v = s.dim ((int) pw, pct (), 0, (int) ((pw - r.w) * 100 / pw));
            e.attrs.push_back ({ "right", v });
            r.right = true;
            r.x += pw - r.w - p (v, pw);
          }
      }
    if (!e.attr ("right") && c.src.chance (2, 3))
      {
        v = s.dim ((int) pw, pct (), 0, 60);
        e.attrs.push_back ({ "left", v });
        r.x += p (v, pw);
      }
    if (c.src.chance (3, 4) && ph > 1)
      {
        v = s.dim ((int) ph, pct (), 20, 100);
        e.attrs.push_back ({ "height", v });
        r.h = p (v, ph);
        if (r.h < ph && c.src.chance (1, 3))
          {
            v = s.dim ((int) ph, pct (), 0, (int) ((ph - r.h) * 100 / ph));
            e.attrs.push_back ({ "bottom", v });
            r.bottom = true;
            r.y += ph - r.h - p (v, ph);
          }
      }
    if (!e.attr ("bottom") && c.src.chance (2, 3))
      {
        v = s.dim ((int) ph, pct (), 0, 60);
        e.attrs.push_back ({ "top", v });
        r.y += p (v, ph);
      }
    all[at] = r;
    for (int i = depth > 0 ? (int) c.src.draw (3) : 0; i > 0; i--)
      e.kids.push_back (make (r.x, r.y, r.w, r.h, depth - 1));
    return e;
  }
};

void
scene (Case &c, const Cfg &g, const std::function<bool (map<string, int> &)> &nontrivial)
{
  Scene s (c);
  s.W = (int) c.src.range (2, 16) * 10 + (int) c.src.draw (10);
  s.H = (int) c.src.range (2, 12) * 10 + (int) c.src.draw (10);
  if (g.text && c.src.chance (1, 3))
    s.W += 60, s.H += 60;
  if (c.src.chance (1, 3))
    s.background = COLORS[c.src.draw (NCOLORS)].name;
  XNode head = el ("head"), body = el ("body", { { "id", "b" } });
  RegionGen rg (s);
  XNode rb = el ("regionBase"), db = el ("descriptorBase"), tb = el ("transitionBase");
  int n = 1 + (int) c.src.draw ((unsigned) g.medias * (unsigned) c.size / 100 + 1);
  for (int i = 0; i < 1 + n / 2; i++)
    rb.kids.push_back (rg.make (0, 0, s.W, s.H, 2));
  vector<int> free;
  for (size_t i = 0; i < rg.all.size (); i++)
    free.push_back ((int) i);
  for (int i = 0; i < n; i++)
    {
      M m;
      m.id = "m" + std::to_string (i);
      XNode e = el ("media", { { "id", m.id } });
      vector<pair<string, string> > own;
      auto P = [&] (const string &k, const string &v) {
        own.push_back ({ k, v });
        m.props[k] = v;
      };
      auto pct = [&] { return c.src.chance (2, 3); };
      if (c.src.chance (g.region, 100) && free.size ())
        {
          m.style = REGION;
          size_t k = c.src.draw (free.size ());
          auto &r = rg.all[(size_t) free[k]];
          m.zorder = 1 + free[k];
          free.erase (free.begin () + (long) k);
          XNode d = el ("descriptor", { { "id", "d" + std::to_string (i) }, { "region", r.id } });
          auto put = [&] (const char *name, double v, int base) {
            char b[60];
            snprintf (b, sizeof b, "%.12g%%", v / base * 100);
            m.props[name] = b;
          };
          put ("left", r.x, s.W);
          put ("top", r.y, s.H);
          put ("width", r.w, s.W);
          put ("height", r.h, s.H);
          if (r.right)
            put ("right", s.W - r.x - r.w, s.W);
          if (r.bottom)
            put ("bottom", s.H - r.y - r.h, s.H);
          m.right = r.right;
          m.bottom = r.bottom;
          if (!m.right && c.src.chance (1, 5))
            P ("left", s.dim (s.W, pct (), 0, 80));
          if (!m.bottom && c.src.chance (1, 5))
            P ("height", s.dim (s.H, pct (), 10, 100));
          db.kids.push_back (d);
          e.attrs.push_back ({ "descriptor", d.attrs[0].second });
        }
      else
        {
          m.zorder = -1 - i;
          P ("zOrder", std::to_string (m.zorder));
          auto lst = [&] (int k) {
            string v;
            for (int j = 0; j < k; j++)
              v += (j ? (c.src.chance (1, 3) ? ", " : ",") : "") + s.dim (j % 2 ? s.H : s.W, pct (), 5, k == 4 && j < 2 ? 60 : 90);
            return v;
          };
          if (c.src.chance (g.special, 100))
            {
              m.style = c.src.chance (1, 2) ? BOUNDS : LOCSIZE;
              if (m.style == BOUNDS)
                P ("bounds", lst (4));
              else
                {
                  if (c.src.chance (3, 4))
                    P ("location", lst (2));
                  if (c.src.chance (3, 4))
                    P ("size", lst (2));
                }
            }
          else
            {
              m.right = c.src.chance (g.anchored, 100);
              m.bottom = c.src.chance (g.anchored, 100);
              if (c.src.chance (3, 4))
                P ("width", c.src.chance (1, 16) ? "0" : s.dim (s.W, pct (), 10, 100));
              if (c.src.chance (3, 4))
                P ("height", c.src.chance (1, 16) ? "0%" : s.dim (s.H, pct (), 10, 100));
              if (m.right || c.src.chance (2, 3))
                P (m.right ? "right" : "left", s.dim (s.W, pct (), 0, 60));
              if (m.bottom || c.src.chance (2, 3))
                P (m.bottom ? "bottom" : "top", s.dim (s.H, pct (), 0, 60));
            }
        }
      bool text = c.src.chance (g.text, 100);
      if (c.src.chance (1, 5))
        m.bgName = "backgroundColor";
      if (text || c.src.chance (g.bg, 100))
        {
          P ("background", COLORS[c.src.draw (NCOLORS - (text ? 3 : 0))].name);
          own.back ().first = m.bgName;
        }
      if (c.src.chance (g.transp, 100) && (!text || g.gl))
        P ("transparency", std::to_string (c.src.range (0, 20) * 5) + "%");
      if (c.src.chance (g.z, 100))
        P ("zIndex", std::to_string (c.src.range (-2, 3)));
      if (c.src.chance (g.hidden, 100))
        P ("visible", c.src.chance (1, 2) ? "false" : "true");
      if (c.src.chance (g.focus, 100))
        {
          P ("focusIndex", std::to_string (i));
          if (c.src.chance (1, 2))
            P ("focusBorderColor", COLORS[c.src.draw (NCOLORS)].name);
          if (c.src.chance (1, 3))
            P ("focusBorderTransparency", std::to_string (c.src.range (0, 20) * 5) + "%");
        }
      if (text)
        {
          m.content = TEXT;
          std::ofstream (c.tmpdir + "/t.txt") << "I";
          e.attrs.push_back ({ "src", "t.txt" });
          P ("fontColor", g.gl && c.src.chance (1, 2) ? "#204060" : "black");
          P ("fontSize", "9");
          if (c.src.chance (3, 4))
            {
              static const vector<string> HA = { "left", "center", "right" }, VA = { "top", "middle", "bottom" };
              P ("horzAlign", m.halign = HA[c.src.draw (3)]);
              P ("vertAlign", m.valign = VA[c.src.draw (3)]);
            }
        }
      else if (c.src.chance (g.script, 100))
        {
          m.content = SCRIPT;
          m.painted = false;
          std::ofstream (c.tmpdir + "/" + m.id + ".lua") << "\n";
          e.attrs.push_back ({ "src", m.id + ".lua" });
        }
      else if (c.src.chance (g.picture, 100))
        {
          m.content = PICTURE;
          static const int SZ[] = { 8, 16, 32, 12 };
          m.iw = SZ[c.src.draw (4)], m.ih = SZ[c.src.draw (4)];
          for (auto &q : m.quad)
            q = COLORS[c.src.draw (NCOLORS)].c;
          e.attrs.push_back ({ "src", s.picture (m, i) });
        }
      if (c.src.chance (g.trans, 100))
        {
          static const vector<string> T = { "fade", "leftToRight", "topToBottom", "diagonal" };
          m.wipe = T[c.src.draw (g.gl ? 1 : 4)];
          XNode t = el ("transition", { { "id", "t" + std::to_string (i) }, { "type", m.wipe == "fade" ? "fade" : m.wipe == "diagonal" ? "diagonalWipe" : "barWipe" }, { "dur", "2s" } });
          if (m.wipe != "fade")
            t.attrs.push_back ({ "subtype", m.wipe == "diagonal" ? "topLeft" : m.wipe });
          tb.kids.push_back (t);
          XNode *d = nullptr;
          for (auto &x : db.kids)
            if (*x.attr ("id") == "d" + std::to_string (i))
              d = &x;
          if (!d)
            {
              db.kids.push_back (el ("descriptor", { { "id", "d" + std::to_string (i) } }));
              d = &db.kids.back ();
              e.attrs.push_back ({ "descriptor", "d" + std::to_string (i) });
            }
          d->attrs.push_back ({ "transIn", "t" + std::to_string (i) });
        }
      for (auto &p : own)
        e.kids.push_back (el ("property", { { "name", p.first }, { "value", p.second } }));
      body.kids.push_back (el ("port", { { "id", "p" + std::to_string (i) }, { "component", m.id } }));
      body.kids.push_back (e);
      s.ms.push_back (m);
    }
  if (tb.kids.size ())
    head.kids.push_back (tb);
  if (rb.kids.size ())
    head.kids.push_back (rb);
  if (db.kids.size ())
    head.kids.push_back (db);
  // something to keep the presentation going
  body.kids.push_back (el ("port", { { "id", "pz" }, { "component", "z" } }));
  XNode z = el ("media", { { "id", "z" } });
  z.kids.push_back (el ("property", { { "name", "visible" }, { "value", "false" } }));
  body.kids.push_back (z);
  XNode root = el ("ncl");
  root.kids = { head, body };
  string text = doc::toXml (root), path = c.tmpdir + "/doc.ncl", err;
  std::ofstream (path) << text;
  c.desc << (s.debug ? "debug, " : "") << "screen " << s.W << "x" << s.H << " background '" << s.background << "'\n" << text;

  GingaOptions o;
  o.width = s.W;
  o.height = s.H;
  o.debug = o.webservices = o.experimental = o.opengl = false;
  o.background = s.background;
  if (g.gl)
    {
      o.debug = c.src.chance (1, 10);
      s.gl = true;
      fakegl::reset (s.W, s.H);
      s.f2 = new ginga::Formatter (&o);
      if (!s.f2->start (path, &err))
        c.fail ("start", "not started: " + err);
      o.opengl = true;
    }
  s.debug = o.debug;
  s.f = new ginga::Formatter (&o);
  if (!s.f->start (path, &err))
    c.fail ("start", "not started: " + err);
  for (auto &m : s.ms)
    {
      m.real = dynamic_cast<ginga::Media *> (s.f->getDocument ()->getObjectById (m.id));
      c.check (m.real != nullptr, "start", "no media " + m.id);
      if (s.f2)
        m.twin = dynamic_cast<ginga::Media *> (s.f2->getDocument ()->getObjectById (m.id));
    }
  s.frame ();
  s.tick (GINGA_SECOND / 4); // the ports start
  for (auto &m : s.ms)
    {
      m.state = 1;
      s.reset (m);
    }
  s.tick (0);
  s.frame ();
  for (int k = 4 + (int) c.src.draw (4 + (unsigned) c.size / 8); k > 0; k--)
    {
      M &m = s.ms[c.src.draw (s.ms.size ())];
      switch (c.src.weighted ({ g.wTick, g.wGeo, g.wLook, g.wState, g.wResize, g.wFrame }))
        {
        case 0:
          {
            static const double T[] = { .25, .5, 1, .1, 2, .04, 0 };
            s.tick ((uint64_t) (T[c.src.draw (7)] * GINGA_SECOND));
            s.frame ();
            break;
          }
        case 1:
        case 2:
          {
            bool geo = c.src.chance (g.wGeo, g.wGeo + g.wLook);
            bool an = c.src.chance (g.animate, 100);
            string name, v;
            bool pct = c.src.chance (1, 2);
            auto d2 = [&] (int a, int b) { return s.dim (s.W, pct, a, b) + "," + s.dim (s.H, !pct, a, b); };
            if (geo)
              {
                if (m.style == BOUNDS)
                  name = "bounds", v = d2 (0, 60) + "," + d2 (10, 80);
                else if (m.style == LOCSIZE && c.src.chance (1, 2) && m.props["location"] != "")
                  name = "location", v = d2 (0, 70);
                else if (m.style == LOCSIZE && m.props["size"] != "")
                  name = "size", v = d2 (10, 90);
                else if (m.style == LOCSIZE)
                  break;
                else
                  {
                    switch (c.src.draw (4))
                      {
                      case 0: name = m.right ? "right" : "left"; break;
                      case 1: name = m.bottom ? "bottom" : "top"; break;
                      case 2: name = "width"; break;
                      default: name = "height";
                      }
                    if (m.style == REGION && (name == "left" || name == "right" || name == "width" ? m.right : m.bottom))
                      break; // left and right are both set
                    bool hor = name == "left" || name == "right" || name == "width";
                    v = s.dim (hor ? s.W : s.H, pct, name == "width" || name == "height" ? (c.src.chance (1, 10) ? 0 : 10) : 0, 90);
                    if (an && ((name == "width" && m.right) || (name == "height" && m.bottom)))
                      an = false;
                  }
                if (m.wipeDur || name == "" || v == "")
                  break; // wipes have the shape the media had when they began
              }
            else
              switch (c.src.chance (1, 6) ? 2 + c.src.draw (m.props["focusIndex"] != "" ? 4 : 2) : c.src.draw (an ? 2 : 4))
                {
                case 0:
                  name = "transparency";
                  v = std::to_string (c.src.range (0, 20) * 5) + "%";
                  if (m.content == TEXT && !g.gl)
                    v = "0%";
                  break;
                case 1:
                  name = "background";
                  v = COLORS[c.src.draw (NCOLORS - (m.content == TEXT ? 3 : 0))].name;
                  if (!an && m.content != TEXT && c.src.chance (1, 6))
                    v = "";
                  break;
                case 2:
                  name = "visible";
                  v = c.src.chance (1, 2) ? "false" : "true";
                  break;
                case 4:
                  name = "focusBorderTransparency";
                  v = std::to_string (c.src.range (0, 20) * 5) + "%";
                  break;
                case 5:
                  name = "focusBorderColor";
                  v = COLORS[c.src.draw (NCOLORS)].name;
                  break;
                default:
                  name = "zIndex";
                  v = std::to_string (c.src.range (-2, 3));
                }
            static const double D[] = { 1, 2, .5, 3, .1 };
            double dur = an ? D[c.src.draw (5)] : 0;
            string shown = name == "background" ? m.bgName : name;
            c.desc << "\n" << ++s.step << ". " << m.id << "." << shown << " = '" << v << "' in " << dur;
            bool known = m.props[name] != "";
            s.set (m, name, v, (uint64_t) (dur * GINGA_SECOND));
            s.stat["set"]++;
            c.check (m.real->getProperty (shown) == v, "value", "property " + shown + " is '" + m.real->getProperty (shown) + "' after it was set to '" + v + "'");
            if (an && m.state && (!known || c.src.chance (1, 3)))
              s.frame (); // without a value it begins at the next frame
            break;
          }
        case 3:
          {
            auto act = [&] (ginga::Event::Transition t) {
              m.real->getLambda ()->transition (t);
              if (m.twin)
                m.twin->getLambda ()->transition (t);
            };
            switch (m.state)
              {
              case 0:
                c.desc << "\n" << ++s.step << ". start " << m.id;
                act (ginga::Event::START);
                m.state = 1;
                s.reset (m);
                break;
              case 1:
                if (c.src.chance (1, 2))
                  {
                    c.desc << "\n" << ++s.step << ". pause " << m.id;
                    act (ginga::Event::PAUSE);
                    m.state = 2;
                    break;
                  }
              // fallthrough
              default:
                if (m.state == 2 && c.src.chance (1, 2))
                  {
                    c.desc << "\n" << ++s.step << ". resume " << m.id;
                    act (ginga::Event::RESUME);
                    m.state = 1;
                  }
                else
                  {
                    c.desc << "\n" << ++s.step << ". stop " << m.id;
                    act (ginga::Event::STOP);
                    m.state = 0;
                  }
              }
            s.stat["state"]++;
            s.tick (0);
            s.frame ();
            break;
          }
        case 4:
          {
            bool busy = s.animating ();
            for (auto &x : s.ms)
              busy = busy || x.wipeDur;
            if (busy)
              break;
            s.W = (int) c.src.range (2, 16) * 10 + (int) c.src.draw (10);
            s.H = (int) c.src.range (2, 12) * 10 + (int) c.src.draw (10);
            c.desc << "\n" << ++s.step << ". resize " << s.W << "x" << s.H;
            s.f->resize (s.W, s.H);
            if (s.f2)
              s.f2->resize (s.W, s.H);
            s.stat["resize"]++;
            for (auto &x : s.ms)
              if (x.state)
                s.geometry (x);
            s.frame ();
            break;
          }
        default:
          if (m.content == SCRIPT && m.state)
            {
              unsigned q[4];
              c.desc << "\n" << ++s.step << ". " << m.id << " paints";
              for (int j = 0; j < 4; j++)
                {
                  auto &k = COLORS[c.src.draw (NCOLORS)];
                  m.quad[j] = k.c;
                  q[j] = (unsigned) lround (k.c.r * 255) << 16 | (unsigned) lround (k.c.g * 255) << 8 | (unsigned) lround (k.c.b * 255);
                  c.desc << " " << k.name;
                }
              m.painted = true;
              c.check (nclua_paint (m.id + ".lua", q) == (s.gl ? 2 : 1), "script", "the script of " + m.id + " does not run once");
              s.stat["script"]++;
            }
          s.frame ();
        }
    }
  s.frame ();
  if (g.gl)
    {
      int shown = 0;
      for (auto &m : s.ms)
        shown += m.state && m.content != BOX;
      c.check (fakegl::textures () <= shown, "gl-textures", std::to_string (fakegl::textures ()) + " textures exist while " + std::to_string (shown) + " contents are presented");
      c.desc << "\n" << ++s.step << ". stop";
      s.f->stop ();
      c.check (fakegl::textures () == 0, "gl-textures", std::to_string (fakegl::textures ()) + " textures exist after the presentation was stopped");
      c.check (fakegl::misuse () == "", "gl-misuse", "when stopped, of OpenGL: " + fakegl::misuse ());
    }
  for (auto &x : s.stat)
    if (x.second)
      c.cls (x.first);
  c.nontrivial = nontrivial (s.stat);
}

const std::vector<std::string> ASSUME = {
  "frames are drawn with cairo on image surfaces (no OpenGL); single channel values may differ by 4 of 255",
  "pixels around the edges of scaled pictures, focus borders and wipes are not compared",
};
RegP c18 (Property{ "C18", "at least two frames were compared after the geometry or the screen was changed",
  [] (Case &c) {
    Cfg g;
    g.z = 20;
    g.transp = 5;
    g.text = 5;
    g.wGeo = 8;
    g.wLook = 1;
    g.wResize = 4;
    g.wState = 2;
    scene (c, g, [] (map<string, int> &s) { return s["frames"] > 3 && s["drawn"] && (s["set"] || s["resize"]); });
  }, 24000, 300000, ASSUME });
RegP c19 (Property{ "C19", "a frame with at least two medias was compared after something changed",
  [] (Case &c) {
    Cfg g;
    g.medias = 5;
    g.transp = 40;
    g.focus = 20;
    g.text = 15;
    g.wLook = 8;
    g.wState = 4;
    g.wGeo = 1;
    scene (c, g, [] (map<string, int> &s) { return s["drawn"] > 4 && (s["set"] || s["state"]); });
  }, 24000, 300000, ASSUME });
RegP c28 (Property{ "C28", "a frame was compared in the middle of an animation or wipe",
  [] (Case &c) {
    Cfg g;
    g.medias = 2;
    g.trans = 40;
    g.animate = 85;
    g.hidden = 0;
    g.wTick = 10;
    g.wGeo = 5;
    g.wLook = 4;
    g.wState = 3;
    scene (c, g, [] (map<string, int> &s) { return s["between"] || s["wipe"]; });
  }, 24000, 300000, ASSUME });
RegP c32 (Property{ "C32", "a frame with something drawn was compared with and without OpenGL after something changed",
  [] (Case &c) {
    Cfg g;
    g.gl = true;
    g.medias = 4;
    g.focus = 0;
    g.transp = 30;
    g.picture = 40;
    g.text = 15;
    g.trans = 10;
    g.animate = 25;
    g.wState = 4;
    scene (c, g, [] (map<string, int> &s) { return s["alike"] > 2 && s["drawn"] > 2 && (s["set"] || s["state"] || s["resize"]); });
  }, 16000, 200000, { "OpenGL is a stand-in that follows its specification, with what the shaders of the repository compute; single channel values may differ by 5 of 255", "pixels around the edges of scaled pictures are not compared; focus borders and wipes, which are not drawn with OpenGL, are not generated" } });
}
