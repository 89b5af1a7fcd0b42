// C27: the player of each type of media; videos, audios and signal generators.
#include "fakegst.h"
#include "fakes.h"
#include "lock.h"
#include "PlayerImage.h"
#include "PlayerLua.h"
#include "PlayerSigGen.h"
#include "PlayerText.h"
#include "PlayerVideo.h"
#include <cairo.h>
#include <cmath>
#include <fstream>
using namespace pbt;
using ginga::Document;
using ginga::Event;
using ginga::Formatter;
using ginga::Media;
using ginga::Player;

namespace {
const char *MIMES[][2] = {
  { "ac3", "audio/ac3" }, { "avi", "video/x-msvideo" }, { "avif", "image/avif" }, { "bmp", "image/bmp" }, { "bpg", "image/x-bpg" },
  { "class", "application/x-ginga-NCLet" }, { "css", "text/css" }, { "gif", "image/gif" }, { "htm", "text/html" }, { "html", "text/html" },
  { "heic", "image/heic" }, { "heif", "image/heic" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "lua", "application/x-ginga-NCLua" },
  { "mov", "video/quicktime" }, { "mp2", "audio/mp2" }, { "mp3", "audio/mp3" }, { "mp4", "video/mp4" }, { "mpa", "audio/mpa" },
  { "mpeg", "video/mpeg" }, { "mpg", "video/mpeg" }, { "mpv", "video/mpv" }, { "oga", "audio/ogg" }, { "ogg", "audio/ogg" },
  { "ogv", "video/ogg" }, { "opus", "audio/ogg" }, { "png", "image/png" }, { "smil", "application/smil" }, { "spx", "audio/ogg" },
  { "srt", "text/srt" }, { "ssml", "application/ssml+xml" }, { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "ts", "video/mpeg" },
  { "txt", "text/plain" }, { "wav", "audio/basic" }, { "webp", "image/x-webp" }, { "wmv", "video/x-ms-wmv" },
  { "xlet", "application/x-ginga-NCLet" }, { "xlt", "application/x-ginga-NCLet" }, { "xml", "text/xml" } };
const size_t NM = sizeof MIMES / sizeof *MIMES;
const char *WAVES[] = { "sine", "square", "saw", "triangle", "silence", "white-noise", "pink-noise", "sine-table", "ticks", "gaussian-noise", "red-noise",
                        "blue-noise", "violet-noise" };

string kind (Player *p)
{
  if (dynamic_cast<ginga::PlayerVideo *> (p)) return "video";
  if (dynamic_cast<ginga::PlayerSigGen *> (p)) return "siggen";
  if (dynamic_cast<ginga::PlayerImage *> (p)) return "image";
  if (dynamic_cast<ginga::PlayerText *> (p)) return "text";
  if (dynamic_cast<ginga::PlayerLua *> (p)) return "lua";
  return "plain";
}
string kindOf (const string &mime)
{
  auto pre = [&] (const char *s) { return mime.compare (0, strlen (s), s) == 0; };
  if (pre ("audio") || pre ("video")) return "video";
  if (mime == "application/x-ginga-siggen") return "siggen";
  if (pre ("image")) return "image";
  if (mime == "text/plain") return "text";
  if (mime == "application/x-ginga-NCLua") return "lua";
  return "plain";
}

// Which player plays what.
void types (Case &c)
{
  GingaOptions o;
  o.opengl = o.debug = o.experimental = o.webservices = false;
  o.width = 64, o.height = 48;
  o.background = "";
  std::unique_ptr<Formatter> f (dynamic_cast<Formatter *> (Ginga::create (&o)));
  string path = c.tmpdir + "/d.ncl";
  std::ofstream (path) << "<ncl><body><port id='p' component='t'/><media id='t'/><media id='m1'/><media id='m2'/><media id='m3'/></body></ncl>";
  string err;
  c.check (f->start (path, &err), "start", err);
  int n = 1 + (int) c.src.draw (3);
  bool known = false;
  for (int i = 1; i <= n; i++)
    {
      Media *m = dynamic_cast<Media *> (f->getDocument ()->getObjectById ("m" + std::to_string (i)));
      string ext, mime;
      const char **e = MIMES[c.src.draw (NM)];
      ext = e[0], mime = e[1];
      switch (c.src.draw (5))
        {
        case 3: ext[c.src.draw (ext.size ())] ^= 32; mime = ""; // letter case or another
          for (auto &x : MIMES) if (ext == x[0]) mime = x[1];
          break;
        case 4: ext += c.src.pick (vector<string>{ "x", ".", "/", "4", " ", "/f", "?q" }), mime = "";
          for (auto &x : MIMES) if (ext == x[0]) mime = x[1];
          break;
        default: break;
        }
      string stem = c.src.pick (vector<string>{ "a", "file:///a.mp4/b", "http://h.txt/x", "a.png", "/x.y/.", "a b", "" });
      string uri = stem + "." + ext, type;
      if (c.src.chance (1, 8)) uri = c.src.pick (vector<string>{ "", "noext", "mp4", "png.", "./" }), mime = "";
      if (c.src.chance (1, 3))
        type = c.src.chance (1, 3) ? c.src.pick (vector<string>{ "application/x-ginga-siggen", "application/x-ginga-timer", "text/plain", "text/plainer", "imagex", "Video/mp4",
                                                                 "application/x-ginga-nclua", "application/x-ginga-NCLua", "x/audio", "audio", "my/own" })
                                   : string (MIMES[c.src.draw (NM)][1]);
      if (type != "") mime = type;
      if (mime == "") mime = "application/x-ginga-timer";
      c.desc << (i > 1 ? "\n" : "") << "uri '" << uri << "' type '" << type << "'";
      std::unique_ptr<Player> p (Player::createPlayer (f.get (), m, uri, type));
      c.eq (kind (p.get ()), kindOf (mime), "player-kind", "kind of player");
      c.eq (m->getProperty ("type"), mime, "player-type", "property type");
      c.eq (p->getState () == Player::SLEEPING, true, "player-state", "whether a new player sleeps");
      known = known || mime != "application/x-ginga-timer";
      c.cls ("type:" + kindOf (mime));
    }
  c.nontrivial = known;
}

// Times.
const uint64_t S = GINGA_SECOND, Q = GINGA_SECOND / 4;

struct V {
  string id, uri;
  bool siggen = false;
  Media *m = nullptr;
  Event *l = nullptr, *a = nullptr;    // the whole and an anchor
  uint64_t begin = 0;
  int x, y, w, h;
  unsigned bg = 0;                     // its background
  map<string, string> props, names;    // values by canonical name; the names used
  int state = 0;                       // 0 sleeping, 1 occurring, 2 paused
  bool ready = false;                  // its content is there
  bool eos = false, atEnd = false;
  double rate = 1;
  vector<std::pair<string, string> > todo;
  vector<GstSeekRec> seeks;
  int64_t pos = 0, dur = -1;
  GstPlay *play = nullptr;
  int wave = 0;
  bool frame = false, queued = false;
  unsigned left = 0, right = 0, qleft = 0, qright = 0;
  int ended = 0;
};
struct World {
  Case &c;
  std::unique_ptr<Formatter> f;
  Document *doc = nullptr;
  vector<V> vs;
  uint64_t time = 0;
  int step = 0, frames = 0;
  long acted = 0, changed = 0, natural = 0;
  explicit World (Case &cc) : c (cc) {}
  ~World ()
  {
    if (f && f->getState () == GINGA_STATE_PLAYING)
      f->stop ();
  }
  std::ostream &log () { return c.desc << "\n" << ++step << ". "; }

  static double num (const string &s) { char *e; double d = strtod (s.c_str (), &e); return *e == '%' ? d / 100 : d; }
  static int64_t ns (const string &s)
  {
    if (s == "0:0:3") return 3 * (int64_t) S;
    return (int64_t) llround (atof (s.c_str ()) * 1e9);
  }
  string genValue (V &v, const string &p)
  {
    if (c.src.chance (1, 8) && p != "time" && p != "speed") return "";
    if (p == "volume") return c.src.pick (v.siggen ? vector<string>{ "0", "50%", "0.25", "1", "100%", "7%" } : vector<string>{ "0", "50%", "0.25", "1", "100%", "5.0", "200%" });
    if (p == "mute" || p == "freeze") return c.src.pick (vector<string>{ "true", "false", "True", "FALSE" });
    if (p == "balance") return c.src.pick (vector<string>{ "0", "-1", "0.5", "100%", "-25%", "1" });
    if (p == "bass" || p == "treble") return c.src.pick (vector<string>{ "0", "-24", "12", "3.5", "-6" });
    if (p == "freq") return c.src.pick (vector<string>{ "440", "100", "1000.5", "0", "2e3" });
    if (p == "wave") return c.src.chance (1, 6) ? string ("other") : string (WAVES[c.src.draw (13)]);
    if (p == "speed") return c.src.pick (vector<string>{ "2", "0.5", "1", "0", "1.25", "-1" });
    if (p == "time") return c.src.pick (vector<string>{ "5s", "2.5s", "7", "0", "+2s", "+0.5", "-1s", "-3", "0:0:3", "indefinite", "+60s" });
    return "";
  }
  string nameOf (V &v, const string &p)
  {
    static const map<string, string> alias = { { "volume", "soundLevel" }, { "balance", "balanceLevel" }, { "bass", "bassLevel" }, { "treble", "trebleLevel" },
                                               { "speed", "rate" }, { "time", "currentTime" } };
    if (!v.names.count (p))
      v.names[p] = alias.count (p) && c.src.chance (1, 2) ? alias.at (p) : p;
    return v.names[p];
  }

  // The model.
  bool canSeek (V &v) { return v.play && v.ready; }
  void apply (V &v, const string &p, const string &val)
  {
    if (val == "indefinite" || val == "")
      return;
    if (p == "speed")
      {
        double r = atof (val.c_str ());
        if (r == 0)
          return;
        v.rate = r;
        if (r > 0)
          v.seeks.push_back ({ r, GST_SEEK_TYPE_SET, v.pos, -1, 0 });
        else
          v.seeks.push_back ({ r, GST_SEEK_TYPE_SET, 0, GST_SEEK_TYPE_SET, v.pos });
        return;
      }
    int64_t t;
    if (val[0] == '+')
      {
        t = v.pos + ns (val.substr (1));
        if (v.dur >= 0 && t >= v.dur)
          v.eos = true;
      }
    else if (val[0] == '-')
      t = std::max<int64_t> (0, v.pos - ns (val.substr (1)));
    else
      t = ns (val);
    v.seeks.push_back ({ v.rate, GST_SEEK_TYPE_SET, t, -1, 0 });
    if (v.rate > 0)
      v.pos = t;
  }
  void set (V &v, const string &p, const string &val)
  {
    v.props[p] = val;
    if (v.state && !v.siggen && (p == "time" || p == "speed"))
      {
        if (v.ready)
          apply (v, p, val);
        else
          v.todo.push_back ({ p, val });
      }
    if (v.siggen && p == "wave" && v.state)
      wave (v);
  }
  void wave (V &v)
  {
    string w = v.props.count ("wave") ? v.props["wave"] : "";
    if (w == "")
      w = "sine";
    for (int i = 0; i < 13; i++)
      if (w == WAVES[i])
        v.wave = i;
  }
  void becameReady (V &v)
  {
    v.ready = true;
    auto l = v.todo;
    v.todo.clear ();
    for (auto &x : l)
      apply (v, x.first, x.second);
  }
  void startModel (V &v, bool anchor)
  {
    v.state = 1;
    v.eos = v.frame = v.queued = false;
    v.rate = 1;
    v.pos = 0;
    v.wave = 0;
    wave (v);
    v.seeks.clear ();
    v.todo.clear ();
    v.ready = false;
    if (!v.siggen)
      {
        // In the order of the names.
        map<string, string> byName;
        for (auto &p : v.props)
          if (p.first == "time" || p.first == "speed")
            byName[v.names[p.first]] = p.first;
        for (auto &n : byName)
          v.todo.push_back ({ n.second, v.props[n.second] });
      }
    if (anchor)
      {
        char b[64];
        snprintf (b, sizeof b, "%.9f", (double) v.begin / 1e9);
        v.todo.push_back ({ "time", b });
      }
  }
  void stopModel (V &v)
  {
    v.state = 0;
    v.ready = v.frame = v.queued = false;
    v.todo.clear ();
  }

  void act (V &v)
  {
    bool anchor = v.a && c.src.chance (1, 4);
    Event *e = anchor ? v.a : v.l;
    vector<Event::Transition> T = { Event::START, Event::STOP, Event::PAUSE, Event::RESUME, Event::ABORT };
    Event::Transition t = c.src.chance (1, 2) ? (v.state == 0 ? Event::START : v.state == 2 ? Event::RESUME : c.src.pick (vector<Event::Transition>{ Event::PAUSE, Event::STOP }))
                                              : c.src.pick (T);
    if (anchor)
      t = Event::START;
    if (anchor && v.state != 0)
      return;
    bool async = c.src.chance (1, 3);
    log () << Event::getEventTransitionAsString (t) << " " << v.id << (anchor ? "@a" : "") << (t == Event::START && !v.siggen && v.state == 0 && async ? " (content comes later)" : "");
    gst_play_async = async;
    gst_play_duration = v.dur;
    size_t n = gst_plays.size ();
    int old = v.state;
    doc->evalAction (e, t);
    switch (t)
      {
      case Event::START:
        if (old == 0)
          {
            startModel (v, anchor);
            c.eq (gst_plays.size (), n + 1, "pipeline", "number of pipelines made by the start of " + v.id);
            v.play = gst_plays.back ();
            c.eq (v.play->siggen, v.siggen, "pipeline", "whether it is a signal generator");
            fakegst_pipe (v.play);
            if (v.siggen || !async)
              becameReady (v);
          }
        else if (old == 2)
          v.state = 1, ready (v);
        break;
      case Event::PAUSE:
        if (old == 1) v.state = 2;
        break;
      case Event::RESUME:
        if (old == 2) v.state = 1, ready (v);
        break;
      default:
        if (old)
          {
            stopModel (v);
            v.ended += t == Event::STOP;
          }
      }
    acted += old != v.state;
  }
  // Resuming waits for the content.
  void ready (V &v)
  {
    if (!v.ready)
      becameReady (v);
  }
  void setProp (V &v)
  {
    string p = c.src.pick (v.siggen ? vector<string>{ "volume", "freq", "wave" } : vector<string>{ "time", "speed", "volume", "mute", "balance", "bass", "treble", "freeze" });
    string val = genValue (v, p), n = nameOf (v, p);
    if (p == "time" && v.rate < 0 && v.state)
      return;
    if (p == "speed" && val == "-1" && !v.ready)
      val = "2";
    if (p == "speed" && val == "-1" && v.state == 0)
      return;
    log () << v.id << "." << n << " = '" << val << "'";
    v.m->setProperty (n, val);
    set (v, p, val);
    changed += v.state != 0;
  }
  void tick ()
  {
    uint64_t d = (1 + c.src.draw (4)) * Q;
    log () << "tick " << (double) d / 1e9;
    time += d;
    c.check (f->sendTick (time, d, (uint64_t) frames++), "tick", "the tick is refused");
    for (auto &v : vs)
      if (v.state == 1 && v.eos)
        {
          stopModel (v);
          v.ended++;
          natural++;
        }
  }
  void content (V &v)
  {
    if (v.siggen || !v.state)
      return;
    switch (c.src.draw (6))
      {
      case 0:
      case 1:
        {
          if (v.queued || !v.play->src)
            return;
          int w = 8 + 2 * (int) c.src.draw (20), h = 10 + (int) c.src.draw (20);
          v.qleft = col (), v.qright = col ();
          log () << "frame " << w << "x" << h << " of " << v.id << std::hex << " #" << v.qleft << " #" << v.qright << std::dec;
          c.check (fakegst_frame (v.play, w, h, v.qleft, v.qright), "frame", "the frame is refused");
          v.queued = true;
          break;
        }
      case 2:
        log () << "end of the content of " << v.id;
        fakegst_message (v.play, gst_message_new_eos (GST_OBJECT (v.play->elt)));
        if (!freeze (v))
          v.eos = true;
        v.atEnd = true;
        break;
      case 3:
        {
          log () << "warning from " << v.id;
          GError *e = g_error_new_literal (GST_STREAM_ERROR, GST_STREAM_ERROR_FAILED, "odd");
          fakegst_message (v.play, gst_message_new_warning (GST_OBJECT (v.play->elt), e, "debug"));
          g_error_free (e);
          break;
        }
      case 4:
        if (v.ready)
          {
            v.pos = v.play->position = (int64_t) (c.src.draw (80) * Q);
            log () << v.id << " is at " << (double) v.pos / 1e9;
          }
        break;
      default:
        if (!v.ready)
          {
            log () << "the content of " << v.id << " is there";
            fakegst_complete (v.play);
            becameReady (v);
          }
      }
  }
  bool freeze (V &v)
  {
    string s = v.props.count ("freeze") ? v.props["freeze"] : "";
    return s == "true" || s == "True";
  }
  unsigned col () { static const unsigned C[] = { 0x000000, 0xff0000, 0x00ff00, 0x0000ff, 0xffffff, 0x804020, 0x123456 }; return C[c.src.draw (7)]; }

  void compare ()
  {
    fakegst_iterate ();
    for (auto &v : vs)
      {
        static const Event::State ST[] = { Event::SLEEPING, Event::OCCURRING, Event::PAUSED };
        c.eq (Event::getEventStateAsString (v.l->getState ()), Event::getEventStateAsString (ST[v.state]), "state", "state of " + v.id);
        if (!v.siggen)
          c.eq (doc->getObjectById (v.id + "x")->isOccurring (), v.ended > 0, "end-link", "whether the link on the end of " + v.id + " was triggered");
        if (!v.play)
          continue;
        if (!v.state)
          {
            c.check (!v.play->elt, "release", "the pipeline of " + v.id + " is left behind");
            c.check (!v.play->bus, "release", "the bus of " + v.id + " is left behind");
            continue;
          }
        c.check (v.play->elt != nullptr, "release", "the pipeline of " + v.id + " is gone while it is played");
        GstElement *pipe = fakegst_pipe (v.play);
        c.check (pipe != nullptr, "pipeline", "no pipeline for " + v.id);
        c.eq (string (gst_element_state_get_name (GST_STATE_TARGET (pipe))), string (v.state == 1 ? "PLAYING" : "PAUSED"), "pipeline-state", "state of the pipeline of " + v.id);
        auto val = [&] (const char *p, const char *d) { string s = v.props.count (p) ? v.props[p] : ""; return num (s == "" ? d : s); };
        if (v.siggen)
          {
            gdouble fr, vol;
            gint w;
            g_object_get (v.play->elt, "freq", &fr, "volume", &vol, "wave", &w, nullptr);
            c.eq (fr, val ("freq", "440"), "freq", "frequency of " + v.id);
            c.eq (vol, val ("volume", "100%"), "volume", "volume of " + v.id);
            c.eq (w, v.wave, "wave", "wave of " + v.id);
            continue;
          }
        if (v.ready)
          c.eq (v.play->uriAtPlay, v.uri, "uri", "URI played by " + v.id);
        GstElement *e = fakegst_find (v.play, "volume");
        gdouble vol = 1;
        gboolean mute = FALSE;
        if (!e)
          e = v.play->elt;
        g_object_get (e, "volume", &vol, "mute", &mute, nullptr);
        c.eq (vol, val ("volume", "1"), "volume", "volume of " + v.id);
        string ms = v.props.count ("mute") ? v.props["mute"] : "";
        c.eq (mute != FALSE, ms == "true" || ms == "True", "mute", "whether " + v.id + " is muted");
        gfloat pan = 0;
        if ((e = fakegst_find (v.play, "audiopanorama")))
          g_object_get (e, "panorama", &pan, nullptr);
        c.check (fabs (pan - val ("balance", "0")) < 1e-6, "balance", "the balance of " + v.id + " is " + std::to_string (pan));
        gdouble b0 = 0, b1 = 0, b2 = 0;
        if ((e = fakegst_find (v.play, "equalizer-3bands")))
          g_object_get (e, "band0", &b0, "band1", &b1, "band2", &b2, nullptr);
        c.eq (b0, val ("bass", "0"), "bass", "bass of " + v.id);
        c.eq (b1, val ("treble", "0"), "treble", "treble of " + v.id);
        c.eq (b2, val ("treble", "0"), "treble", "treble of " + v.id);
        c.eq (v.play->seeks.size (), v.seeks.size (), "seek", "number of changes of position or rate of " + v.id);
        for (size_t i = 0; i < v.seeks.size (); i++)
          {
            auto &g = v.play->seeks[i], &w = v.seeks[i];
            string at = " of change " + std::to_string (i + 1) + " of " + v.id;
            c.eq (g.rate, w.rate, "seek-rate", "rate" + at);
            c.eq (g.startType, w.startType, "seek-position", "kind of position" + at);
            c.check (std::llabs (g.start - w.start) < 2, "seek-position", "position" + at + ": got " + std::to_string (g.start) + ", expected " + std::to_string (w.start));
            if (w.stopType == GST_SEEK_TYPE_SET)
              c.check (g.stopType == w.stopType && g.stop == w.stop, "seek-position", "the stop" + at + " is " + std::to_string (g.stop) + ", expected " + std::to_string (w.stop));
          }
      }
  }
  void redraw ()
  {
    log () << "redraw";
    int W = 200, H = 100;
    cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, W, H);
    cairo_t *cr = cairo_create (s);
    f->redraw (cr);
    cairo_destroy (cr);
    cairo_surface_flush (s);
    const unsigned char *d = cairo_image_surface_get_data (s);
    int st = cairo_image_surface_get_stride (s);
    auto px = [&] (int x, int y, unsigned want, const string &what) {
      const unsigned char *q = d + y * st + x * 4;
      if (abs (q[2] - (int) ((want >> 16) & 255)) > 2 || abs (q[1] - (int) ((want >> 8) & 255)) > 2 || abs (q[0] - (int) (want & 255)) > 2)
        {
          char b[200];
          snprintf (b, sizeof b, "pixel %d,%d is #%02x%02x%02x, expected #%06x (%s)", x, y, q[2], q[1], q[0], want, what.c_str ());
          c.fail ("picture", b);
        }
    };
    for (auto &v : vs)
      {
        if (v.state && v.queued)
          {
            v.queued = false;
            v.frame = true;
            v.left = v.qleft, v.right = v.qright;
          }
        int y = v.y + v.h / 2, x1 = v.x + v.w / 8, x2 = v.x + v.w - 1 - v.w / 8;
        if (v.siggen)
          ;
        else if (!v.state)
          px (x1, y, 0, v.id + " sleeps"), px (x2, y, 0, v.id + " sleeps");
        else if (!v.frame)
          px (x1, y, v.bg, v.id + " has no picture yet"), px (x2, y, v.bg, v.id + " has no picture yet");
        else
          {
            px (x1, y, v.left, "left half of " + v.id);
            px (x2, y, v.right, "right half of " + v.id);
            px (v.x + v.w / 2 - v.w / 5, v.y + v.h / 4, v.left, "left half of " + v.id);
            px (v.x + v.w / 2 + v.w / 5, v.y + v.h - 1 - v.h / 4, v.right, "right half of " + v.id);
          }
        // Around it (enlarged pictures have a soft edge).
        px (v.x - 6, y, 0, "beside " + v.id), px (v.x + v.w + 5, y, 0, "beside " + v.id);
        px (v.x + v.w / 2, v.y - 6, 0, "above " + v.id), px (v.x + v.w / 2, v.y + v.h + 5, 0, "below " + v.id);
      }
    cairo_surface_destroy (s);
  }

  void run ()
  {
    GingaOptions o;
  o.opengl = o.debug = o.experimental = o.webservices = false;
    o.width = 200, o.height = 100;
    o.background = "";
    string path = c.tmpdir + "/d.ncl", t;
    t = "<ncl><head><connectorBase><causalConnector id='end'><simpleCondition role='onEnd'/><simpleAction role='start'/></causalConnector></connectorBase></head><body>"
        "<port id='p' component='t'/><media id='t'/>";
    int n = 1 + (int) c.src.draw (2);
    for (int i = 0; i < n; i++)
      {
        V v;
        v.siggen = c.src.chance (1, 12);
        v.id = "v" + std::to_string (i);
        v.x = 8 + i * 100 + (int) c.src.draw (20), v.y = 8 + (int) c.src.draw (15), v.w = 40 + (int) c.src.draw (25), v.h = 20 + (int) c.src.draw (45);
        v.bg = v.siggen ? 0 : col ();
        auto p = [&] (const string &a, const string &b) { return "<property name='" + a + "' value='" + b + "'/>"; };
        char b[16];
        snprintf (b, sizeof b, "#%06x", v.bg);
        string media = v.siggen ? string (" type='application/x-ginga-siggen'")
                                : " src='" + v.id + "." + c.src.pick (vector<string>{ "mp4", "mp3", "ogv", "wav", "mpg" }) + "'";
        if (!v.siggen && c.src.chance (1, 6))
          media = " type='video/any' src='" + v.id + ".xyz'";
        t += "<media id='" + v.id + "'" + media + ">" + p ("left", std::to_string (v.x)) + p ("top", std::to_string (v.y)) + p ("width", std::to_string (v.w))
             + p ("height", std::to_string (v.h)) + p ("background", b);
        for (const char *q : { "volume", "mute", "balance", "bass", "treble", "freeze", "speed", "time", "freq", "wave" })
          {
            bool gen = !strcmp (q, "freq") || !strcmp (q, "wave");
            if (gen != v.siggen && strcmp (q, "volume"))
              continue;
            if (!c.src.chance (1, 5))
              continue;
            string val = genValue (v, q);
            if (val == "-1" && !strcmp (q, "speed"))
              val = "3";
            t += p (nameOf (v, q), val);
            v.props[q] = val;
          }
        if (!v.siggen && c.src.chance (1, 2))
          {
            v.begin = (1 + c.src.draw (20)) * Q;
            snprintf (b, sizeof b, "%.2fs", (double) v.begin / 1e9);
            t += string ("<area id='") + v.id + "a' begin='" + b + "'/>";
          }
        t += "</media>";
        if (c.src.chance (1, 2))
          v.dur = (int64_t) ((4 + c.src.draw (60)) * Q);
        if (!v.siggen)
          t += "<media id='" + v.id + "x'/><link xconnector='end'><bind role='onEnd' component='" + v.id + "'/><bind role='start' component='" + v.id + "x'/></link>";
        vs.push_back (v);
      }
    t += "</body></ncl>";
    std::ofstream (path) << t;
    c.desc << t;
    f.reset (dynamic_cast<Formatter *> (Ginga::create (&o)));
    string err;
    c.check (f->start (path, &err), "start", err);
    doc = f->getDocument ();
    for (auto &v : vs)
      {
        v.m = dynamic_cast<Media *> (doc->getObjectById (v.id));
        v.l = v.m->getLambda ();
        v.uri = v.m->getProperty ("uri");
        if (v.begin)
          v.a = v.m->getPresentationEvent (v.id + "a");
        if (!v.siggen)
          c.check (v.uri.find ("file:///") == 0 && v.uri.find (v.id + ".") != string::npos, "uri", "URI of " + v.id + " is " + v.uri);
      }
    tick ();
    compare ();
    int k = 5 + (int) c.src.draw (8 + (uint64_t) c.size / 3);
    for (int i = 0; i < k; i++)
      {
        V &v = vs[c.src.draw (vs.size ())];
        switch (c.src.weighted ({ 6, 4, 3, 5, 3 }))
          {
          case 0: act (v); break;
          case 1: setProp (v); break;
          case 2: tick (); break;
          case 3: content (v); break;
          default: redraw ();
          }
        compare ();
      }
    c.nontrivial = acted > 0 && changed + frames > 1;
    for (auto &v : vs)
      {
        if (v.siggen) c.cls ("siggen");
        if (natural) c.cls ("natural end");
        if (v.seeks.size ()) c.cls ("seek");
        if (v.frame) c.cls ("picture");
      }
    f->stop ();
    fakegst_iterate ();
    for (auto &v : vs)
      if (v.play)
        c.check (!v.play->elt && !v.play->bus, "release", "the pipeline of " + v.id + " outlives the presentation");
  }
};
}

static RegP c27 (Property{ "C27", "a type other than the timer was told, or a media was played and changed",
  [] (Case &c) {
    fakes_reset ();
    fakegst_init (c.tmpdir + "/../gst");
    fakegst_reset ();
    if (c.src.chance (1, 4))
      return types (c);
    World w (c);
    w.run ();
  }, 6000, 100000, { "the content of videos comes from a stand-in for playbin" } });
