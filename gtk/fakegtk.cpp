// Stand-in for GTK and for the player, for the program of src/ginga.cpp: the
// window and its main loop deliver the events of a script (GV_SCRIPT), and
// what reaches the player or the window is written to a log (GV_LOG).
//
// Script: one section per main loop, ended by a line ".":
//   T time frame end   frame clock (microseconds)
//   K p|r keyval end   key pressed or released
//   R w h              window resized       D   window exposed
//   S                  SIGTERM              X   window closed
// END tells whether the presentation ends with that event.
#include <gtk/gtk.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include "ginga.h"
using std::string;

namespace {
int out = -1;
void
say (const char *fmt, ...)
{
  char b[4096];
  va_list a;
  va_start (a, fmt);
  int n = vsnprintf (b, sizeof b - 1, fmt, a);
  va_end (a);
  b[n++] = '\n';
  if (out < 0)
    out = open (getenv ("GV_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (write (out, b, (size_t) n) != n)
    abort ();
}
std::ifstream script;
bool quitting = false, endNow = false, queued = false, shown = false, full = false;
int level = 0, width = -1, height = -1;
gint64 now = 0, counter = 0;
struct Sig { gpointer obj; string name; GCallback cb; gpointer data; GConnectFlags flags; bool on; };
std::vector<Sig> sigs;
struct Tick { GtkWidget *w; GtkTickCallback cb; gpointer data; bool on; };
std::vector<Tick> ticks;
GtkWidget *win = nullptr;

void
draw ()
{
  if (!shown)
    return;
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 4, 4);
  cairo_t *cr = cairo_create (s);
  for (size_t i = 0; i < sigs.size (); i++)
    if (sigs[i].on && sigs[i].name == "draw" && ((gboolean (*) (GtkWidget *, cairo_t *, gpointer)) sigs[i].cb) ((GtkWidget *) sigs[i].obj, cr, sigs[i].data))
      break;
  cairo_destroy (cr);
  cairo_surface_destroy (s);
}
void
event (const char *name, GdkEvent *e)
{
  for (size_t i = 0; i < sigs.size (); i++)
    if (sigs[i].on && (sigs[i].name == name || sigs[i].name == "event"))
      {
        if (((gboolean (*) (GtkWidget *, GdkEvent *, gpointer)) sigs[i].cb) ((GtkWidget *) sigs[i].obj, e, sigs[i].data))
          break;
      }
}
class Fake : public Ginga
{
public:
  explicit Fake (const GingaOptions *o) : Ginga (o), opts (*o) {}
  ~Fake () {}
  GingaState getState () { return st; }
  bool start (const string &path, string *err)
  {
    say ("start %s", path.c_str ());
    if (st == GINGA_STATE_PLAYING)
      {
        say ("already playing");
        return false;
      }
    if (path.find ("bad") != string::npos)
      {
        if (err)
          *err = "unplayable<" + path + ">";
        return false;
      }
    st = GINGA_STATE_PLAYING;
    return true;
  }
  bool stop ()
  {
    if (st == GINGA_STATE_STOPPED)
      return false;
    say ("stop");
    st = GINGA_STATE_STOPPED;
    return true;
  }
  void resize (int w, int h) { say ("resize %d %d", w, h); }
  void redraw (cairo_t *cr) { say (cr ? "redraw" : "redraw without cairo"); }
  bool sendKey (const string &k, bool press)
  {
    say ("key %s %s", k.c_str (), press ? "pressed" : "released");
    return ended ();
  }
  bool sendTick (uint64_t total, uint64_t diff, uint64_t frame)
  {
    say ("tick %llu %llu %llu", (unsigned long long) total, (unsigned long long) diff, (unsigned long long) frame);
    return ended ();
  }
  const GingaOptions *getOptions () { return &opts; }
  bool getOptionBool (const string &n) { return n == "debug" ? opts.debug : n == "webservices" ? opts.webservices : n == "experimental" ? opts.experimental : opts.opengl; }
  void setOptionBool (const string &n, bool v)
  {
    say ("option %s %d", n.c_str (), v);
    if (n == "debug")
      opts.debug = v;
  }
  int getOptionInt (const string &n) { return n == "width" ? opts.width : opts.height; }
  void setOptionInt (const string &n, int v) { say ("option %s %d", n.c_str (), v); }
  string getOptionString (const string &) { return opts.background; }
  void setOptionString (const string &n, string v) { say ("option %s %s", n.c_str (), v.c_str ()); }

private:
  bool ended ()
  {
    if (st == GINGA_STATE_STOPPED)
      return false;
    if (endNow)
      st = GINGA_STATE_STOPPED;
    return !endNow;
  }
  GingaOptions opts;
  GingaState st = GINGA_STATE_STOPPED;
};
}
Ginga::Ginga (const GingaOptions *) {}
Ginga::~Ginga () {}
Ginga *
Ginga::create (const GingaOptions *o)
{
  say ("create %dx%d debug %d ws %d experimental %d opengl %d background <%s>", o->width, o->height, o->debug, o->webservices, o->experimental, o->opengl, o->background.c_str ());
  return new Fake (o);
}
string Ginga::version () { return "0"; }

extern "C" {
void gtk_init (int *, char ***) {}
gboolean gtk_init_check (int *, char ***) { return TRUE; }
GType gtk_window_get_type () { return G_TYPE_OBJECT; }
GType gtk_widget_get_type () { return G_TYPE_OBJECT; }
GType gtk_container_get_type () { return G_TYPE_OBJECT; }
GtkWidget *gtk_window_new (GtkWindowType) { return win = (GtkWidget *) g_object_new (G_TYPE_OBJECT, nullptr); }
GtkWidget *gtk_gl_area_new () { return (GtkWidget *) g_object_new (G_TYPE_OBJECT, nullptr); }
void gtk_container_add (GtkContainer *, GtkWidget *) {}
void gtk_window_set_title (GtkWindow *, const gchar *) {}
void gtk_window_set_default_size (GtkWindow *, gint w, gint h) { width = w, height = h; }
void
gtk_window_fullscreen (GtkWindow *)
{
  if (shown && !full)
    say ("fullscreen");
  full = true;
}
void
gtk_window_unfullscreen (GtkWindow *)
{
  if (shown && full)
    say ("no fullscreen");
  full = false;
}
void gtk_widget_set_app_paintable (GtkWidget *, gboolean) {}
void
gtk_widget_show_all (GtkWidget *)
{
  if (!shown)
    say ("show %dx%d %s", width, height, full ? "full" : "normal");
  shown = true;
}
void gtk_widget_show (GtkWidget *w) { gtk_widget_show_all (w); }
void gtk_window_present (GtkWindow *w) { gtk_widget_show_all ((GtkWidget *) w); }
void gtk_widget_queue_draw (GtkWidget *) { queued = true; }
void gtk_widget_queue_draw_area (GtkWidget *, gint, gint, gint, gint) { queued = true; }
void gtk_widget_queue_draw_region (GtkWidget *, const cairo_region_t *) { queued = true; }
guint
gtk_widget_add_tick_callback (GtkWidget *w, GtkTickCallback cb, gpointer data, GDestroyNotify)
{
  ticks.push_back ({ w, cb, data, true });
  return (guint) ticks.size ();
}
void gtk_widget_remove_tick_callback (GtkWidget *, guint id) { ticks[id - 1].on = false; }
GdkFrameClock *gtk_widget_get_frame_clock (GtkWidget *) { return (GdkFrameClock *) win; }
gint64 gdk_frame_clock_get_frame_time (GdkFrameClock *) { return now; }
gint64 gdk_frame_clock_get_frame_counter (GdkFrameClock *) { return counter; }
gulong
g_signal_connect_data (gpointer o, const gchar *name, GCallback cb, gpointer data, GClosureNotify, GConnectFlags f)
{
  sigs.push_back ({ o, name, cb, data, f, true });
  return sigs.size ();
}
void g_signal_handler_disconnect (gpointer, gulong id) { sigs[id - 1].on = false; }
guint gtk_main_level () { return (guint) level; }
void
gtk_main_quit ()
{
  if (!level)
    say ("quit without a main loop");
  quitting = true;
}
void
gtk_main ()
{
  quitting = false;
  level++;
  if (!script.is_open ())
    script.open (getenv ("GV_SCRIPT"));
  char k = 0;
  while (!quitting && script >> k && k != '.')
    {
      endNow = false;
      queued = false;
      switch (k)
        {
        case 'T':
          script >> now >> counter >> endNow;
          for (size_t i = 0; i < ticks.size (); i++)
            if (ticks[i].on && !ticks[i].cb (ticks[i].w, (GdkFrameClock *) win, ticks[i].data))
              ticks[i].on = false;
          break;
        case 'K':
          {
            char p;
            GdkEvent e;
            memset (&e, 0, sizeof e);
            script >> p >> e.key.keyval >> endNow;
            e.type = p == 'p' ? GDK_KEY_PRESS : GDK_KEY_RELEASE;
            event (p == 'p' ? "key-press-event" : "key-release-event", &e);
            break;
          }
        case 'R':
          {
            GdkEvent e;
            memset (&e, 0, sizeof e);
            e.type = GDK_CONFIGURE;
            script >> e.configure.width >> e.configure.height;
            event ("configure-event", &e);
            break;
          }
        case 'D':
          queued = true;
          break;
        case 'S':
          raise (SIGTERM);
          break;
        case 'X':
          for (size_t i = 0; i < sigs.size (); i++)
            if (sigs[i].on && sigs[i].name == "destroy")
              ((void (*) (GtkWidget *, gpointer)) sigs[i].cb) ((GtkWidget *) sigs[i].obj, sigs[i].data);
          break;
        }
      if (queued && !quitting)
        draw ();
    }
  if (!quitting)
    {
      say ("goes on for ever");
      _exit (99);
    }
  say ("quit");
  while (k != '.' && script >> k)
    {
      string s;
      if (k != '.')
        std::getline (script, s);
    }
  level--;
}
}
