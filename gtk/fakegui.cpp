// Stand-in for GTK and for the player, for the program of src/gingagui: its
// widgets are a tree of plain records, the user acts on them as a script
// (GV_SCRIPT) tells, and what reaches the player, and what the user sees after
// each act, is written to a log (GV_LOG).
//
// Script, one act per line (fields are separated by tabs):
//   type TEXT       the user types into the entry
//   open FILE|-     the user clicks on Open and chooses a file or cancels
//   pick N          the user opens the history and picks the Nth line
//   play, stop, fullscreen, debug, remote, window, sidebar, closeremote, visual, hideconsole, hideremote
//   aspect N, theme N
//   button NAME     of the remote control
//   press K, release K
//   frame TIME COUNTER END      a frame; END: the presentation ends with it
//   size W H        the view is resized
//   log MESSAGE     the player logs a message
//   draw W H        the view is exposed
//   close           the window is closed
//   settle          a second passes
//   look X,Y...     the presentation mode is exposed: the colours there and the texts
// GV_MONITOR: its size.
#define G_DISABLE_CAST_CHECKS 1
#include <gtk/gtk.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "ginga.h"
using std::string;
using std::vector;

namespace {
int out = -1;
void
say (const string &s)
{
  string l;
  for (char c : s)
    l += c == '\n' ? string ("\\n") : string (1, c);
  l += '\n';
  if (out < 0)
    out = open (getenv ("GV_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (write (out, l.data (), l.size ()) != (ssize_t) l.size ())
    abort ();
}
string num (long long v) { return std::to_string (v); }

struct W
{
  unsigned magic = 0x57494447;
  string type, name, text, tip, icon, dir;
  W *parent = nullptr;
  vector<W *> kids;
  vector<string> items;
  int active = -1;
  bool shown = false, sensitive = true, dead = false, dying = false, full = false;
  struct Sig { string name; GCallback cb; gpointer data; };
  vector<Sig> sigs;
  struct Tick { GtkTickCallback cb; gpointer data; };
  vector<Tick> ticks;
};
vector<W *> all;
int width = 0, height = 0;
gint64 now = 0, counter = 0;
bool endNow = false, quitting = false, queued = false;
int level = 0;
string chosen;
bool accepted = false;

W *
mk (const char *type)
{
  W *w = new W;
  w->type = type;
  all.push_back (w);
  return w;
}
W *
at (const void *p, const char *what)
{
  W *w = (W *) p;
  if (!w || w->magic != 0x57494447)
    {
      if (w)
        say (string ("misuse: ") + what + " of something that is not a widget");
      return nullptr;
    }
  if (w->dead)
    {
      say (string ("misuse: ") + what + " of a " + w->type + " that was destroyed");
      return nullptr;
    }
  return w;
}
void
add (void *p, void *k, int pos = -1)
{
  W *w = at (p, "adding to a container"), *c = at (k, "adding");
  if (!w || !c)
    return;
  if (c->parent)
    return say ("misuse: adding a " + c->type + " that has a parent");
  c->parent = w;
  if (pos < 0 || pos > (int) w->kids.size ())
    pos = (int) w->kids.size ();
  w->kids.insert (w->kids.begin () + pos, c);
}
void
emit (W *w, const char *sig, const std::function<void (const W::Sig &)> &f)
{
  vector<W::Sig> s = w->sigs;
  for (auto &i : s)
    if (i.name == sig && !w->dead)
      f (i);
}
void
destroy (W *w)
{
  if (w->dead || w->dying)
    return;
  w->dying = true;
  emit (w, "destroy", [&] (const W::Sig &s) { ((void (*) (W *, gpointer)) s.cb) (w, s.data); });
  vector<W *> k = w->kids;
  for (auto c : k)
    destroy (c);
  if (w->parent)
    {
      auto &v = w->parent->kids;
      for (size_t i = 0; i < v.size (); i++)
        if (v[i] == w)
          v.erase (v.begin () + (long) i--);
    }
  w->parent = nullptr;
  w->dead = true;
}
W *
root (W *w)
{
  while (w->parent)
    w = w->parent;
  return w;
}
bool
visible (W *w)
{
  for (; w; w = w->parent)
    if (!w->shown && w->type != "popover")
      return false;
  return true;
}
bool
enabled (W *w)
{
  for (; w; w = w->parent)
    if (!w->sensitive)
      return false;
  return true;
}
W *
find (const std::function<bool (W *)> &f)
{
  for (auto w : all)
    if (!w->dead && f (w))
      return w;
  return nullptr;
}
W *byIcon (const string &n) { return find ([&] (W *w) { return w->icon == n; }); }
W *byTip (const string &n) { return find ([&] (W *w) { return w->tip == n; }); }
W *byType (const string &n) { return find ([&] (W *w) { return w->type == n; }); }
W *
holding (const string &type, const string &label)
{
  return find ([&] (W *w) {
    if (w->type != type)
      return false;
    std::function<bool (W *)> f = [&] (W *k) {
      if (k->type == "label" && k->text.find (label) != string::npos)
        return true;
      for (auto c : k->kids)
        if (f (c))
          return true;
      return false;
    };
    return f (w) || w->text.find (label) != string::npos;
  });
}
void
click (W *w)
{
  if (!w)
    return say ("no such button");
  if (root (w)->type != "window" && root (w)->type != "popover")
    return say ("the button is nowhere");
  if (!enabled (w))
    return say ("the button is disabled");
  emit (w, "clicked", [&] (const W::Sig &s) { ((void (*) (W *, gpointer)) s.cb) (w, s.data); });
}
W *playButton () { W *w = byIcon ("play-icon.png"); return w ? w : byIcon ("pause-icon.png"); }
// The one on top.
W *
fullWindow ()
{
  W *f = nullptr;
  for (auto w : all)
    if (!w->dead && w->type == "window" && w->full)
      f = w;
  return f;
}
long long
fullWindows ()
{
  long long n = 0;
  for (auto w : all)
    n += !w->dead && w->type == "window" && w->full;
  return n;
}
struct Timeout
{
  guint tag;
  GSourceFunc f;
  gpointer data;
};
vector<Timeout> timeouts;
vector<string> texts;
int monitorW = 1920, monitorH = 1080;
W *view () { return find ([] (W *w) { return w->type == "area" && !root (w)->full; }); }
// What the user sees.
void
state ()
{
  W *list = byType ("list"), *entry = byType ("entry"), *open = byTip ("Open file"), *hist = byTip ("Historic");
  std::ostringstream o;
  o << "entry <" << (entry ? entry->text : "?") << "> history";
  if (list)
    for (auto r : list->kids)
      o << " <" << (r->kids.size () ? r->kids[0]->text : "?") << ">";
  auto en = [] (W *w) { return w ? num (enabled (w)) : "?"; };
  o << " enabled " << en (playButton ()) << en (entry) << en (open) << en (hist);
  W *con = holding ("notebook", "Console"), *rem = holding ("notebook", "Control");
  W *rw = find ([] (W *w) { return w->type == "window" && w->text == "Control"; });
  o << " console " << (con && visible (con)) << " remote " << (rw ? 2 : rem && visible (rem)) << " full " << fullWindows ();
  // The theme shows in the icons of the buttons of the main window.
  std::set<string> themes;
  for (auto w : all)
    if (!w->dead && w->type == "button" && w->dir.find ("-theme") != string::npos && root (w)->type == "window" && root (w)->text == "Ginga")
      themes.insert (w->dir);
  for (auto &t : themes)
    o << " " << t;
  say (o.str ());
}

cairo_matrix_t matrix;
class Fake : public Ginga
{
public:
  explicit Fake (const GingaOptions *o) : Ginga (o), opts (*o) {}
  ~Fake () {}
  GingaState getState () { return st; }
  bool start (const string &path, string *err)
  {
    if (st == GINGA_STATE_PLAYING)
      {
        say ("start while playing");
        return false;
      }
    say ("start <" + path + ">");
    if (path.find ("bad") != string::npos)
      {
        if (err)
          *err = "unplayable";
        return false;
      }
    st = GINGA_STATE_PLAYING;
    return true;
  }
  bool stop ()
  {
    if (st == GINGA_STATE_STOPPED)
      return false;
    say ("stop");
    st = GINGA_STATE_STOPPED;
    return true;
  }
  void resize (int w, int h) { pw = w, ph = h; }
  void redraw (cairo_t *cr)
  {
    cairo_matrix_t m;
    cairo_get_matrix (cr, &m);
    char b[200];
    snprintf (b, sizeof b, "redraw %.4f %.4f %.4f %.4f %.4f %.4f", m.xx + 0., m.yy + 0., m.xy + 0., m.yx + 0., m.x0 + 0., m.y0 + 0.);
    say (b);
    matrix = m;
    cairo_set_source_rgb (cr, 1, 1, 1);
    cairo_rectangle (cr, 0, 0, width, height);
    if (st == GINGA_STATE_PLAYING)
      cairo_fill (cr);
  }
  bool sendKey (const string &k, bool press)
  {
    if (st == GINGA_STATE_STOPPED)
      return false;
    say ("key <" + k + "> " + (press ? "pressed" : "released"));
    return true;
  }
  bool sendTick (uint64_t total, uint64_t diff, uint64_t frame)
  {
    if (st == GINGA_STATE_STOPPED)
      return false;
    say ("tick " + std::to_string (total) + " " + std::to_string (diff) + " " + std::to_string (frame));
    if (endNow)
      st = GINGA_STATE_STOPPED;
    return !endNow;
  }
  const GingaOptions *getOptions () { return &opts; }
  bool getOptionBool (const string &n) { return n == "debug" ? opts.debug : n == "webservices" ? opts.webservices : n == "experimental" ? opts.experimental : opts.opengl; }
  void setOptionBool (const string &n, bool v)
  {
    say ("option " + n + " " + num (v));
    if (n == "debug")
      opts.debug = v;
  }
  int getOptionInt (const string &n) { return n == "width" ? opts.width : opts.height; }
  void setOptionInt (const string &n, int v)
  {
    (n == "width" ? pw : ph) = v;
  }
  string getOptionString (const string &) { return opts.background; }
  void setOptionString (const string &n, string v) { say ("option " + n + " " + v); }
  int pw = 0, ph = 0;

private:
  GingaOptions opts;
  GingaState st = GINGA_STATE_STOPPED;
};
Fake *player = nullptr;
}
Ginga::Ginga (const GingaOptions *) {}
Ginga::~Ginga () {}
Ginga *
Ginga::create (const GingaOptions *o)
{
  if (const char *m = getenv ("GV_MONITOR"))
    sscanf (m, "%dx%d", &monitorW, &monitorH);
  if (getenv ("GV_EXIT"))
    atexit ([] { say ("exit"); });
  say ("create " + num (o->width) + "x" + num (o->height) + " debug " + num (o->debug) + " ws " + num (o->webservices) + " opengl " + num (o->opengl));
  player = new Fake (o);
  player->pw = o->width, player->ph = o->height;
  return player;
}
string Ginga::version () { return "0"; }


#define W_(T) ((GtkWidget *) mk (T))
extern "C" {
// Memory that lasts until the end of the program is no concern here.
const char *__asan_default_options () { return "detect_leaks=0"; }
void gtk_init (int *, char ***) {}
gboolean gtk_init_check (int *, char ***) { return TRUE; }
GtkWidget *gtk_button_new () { return W_ ("button"); }
GtkWidget *gtk_header_bar_new () { return W_ ("bar"); }
GtkWidget *gtk_drawing_area_new () { return W_ ("area"); }
GtkWidget *gtk_entry_new () { return W_ ("entry"); }
GtkWidget *gtk_list_box_new () { return W_ ("list"); }
GtkWidget *gtk_notebook_new () { return W_ ("notebook"); }
GtkWidget *gtk_fixed_new () { return W_ ("fixed"); }
GtkWidget *gtk_grid_new () { return W_ ("grid"); }
GtkWidget *gtk_combo_box_text_new () { return W_ ("combo"); }
GtkWidget *gtk_volume_button_new () { return W_ ("volume"); }
GtkWidget *gtk_about_dialog_new () { return W_ ("about"); }
GtkWidget *gtk_box_new (GtkOrientation, gint) { return W_ ("box"); }
GtkWidget *gtk_separator_new (GtkOrientation) { return W_ ("separator"); }
GtkWidget *gtk_paned_new (GtkOrientation) { return W_ ("paned"); }
GtkWidget *gtk_scrolled_window_new (GtkAdjustment *, GtkAdjustment *) { return W_ ("scrolled"); }
GtkWidget *gtk_popover_new (GtkWidget *) { return W_ ("popover"); }
GtkWidget *gtk_window_new (GtkWindowType) { return W_ ("window"); }
GtkWidget *
gtk_info_bar_new ()
{
  W *w = mk ("infobar"), *b = mk ("box");
  add (w, b);
  return (GtkWidget *) w;
}
GtkWidget *gtk_info_bar_get_content_area (GtkInfoBar *i) { return (GtkWidget *) ((W *) i)->kids[0]; }
void gtk_info_bar_set_show_close_button (GtkInfoBar *, gboolean) {}
void gtk_info_bar_set_message_type (GtkInfoBar *, GtkMessageType) {}
GtkWidget *
gtk_text_view_new ()
{
  W *w = mk ("text");
  w->kids.push_back (mk ("buffer"));
  return (GtkWidget *) w;
}
GtkTextBuffer *gtk_text_view_get_buffer (GtkTextView *t) { return (GtkTextBuffer *) ((W *) t)->kids[0]; }
void gtk_text_view_set_editable (GtkTextView *, gboolean) {}
void gtk_text_buffer_insert_at_cursor (GtkTextBuffer *b, const gchar *t, gint n) { ((W *) b)->text += n < 0 ? string (t) : string (t, (size_t) n); }
void gtk_text_buffer_set_text (GtkTextBuffer *b, const gchar *t, gint n) { ((W *) b)->text = n < 0 ? string (t) : string (t, (size_t) n); }
GtkWidget *
gtk_label_new (const gchar *t)
{
  W *w = mk ("label");
  w->text = t ? t : "";
  return (GtkWidget *) w;
}
const gchar *
gtk_label_get_text (GtkLabel *l)
{
  W *w = at (l, "reading the text");
  return w ? w->text.c_str () : "";
}
void gtk_label_set_text (GtkLabel *l, const gchar *t) { ((W *) l)->text = t; }
GtkWidget *
gtk_frame_new (const gchar *t)
{
  W *w = mk ("frame");
  w->text = t ? t : "";
  return (GtkWidget *) w;
}
void gtk_frame_set_label_align (GtkFrame *, gfloat, gfloat) {}
GtkWidget *
gtk_check_button_new_with_label (const gchar *t)
{
  W *w = mk ("check");
  w->text = t;
  return (GtkWidget *) w;
}
GtkWidget *
gtk_image_new_from_file (const gchar *f)
{
  W *w = mk ("image");
  const char *b = strrchr (f, '/');
  w->icon = b ? b + 1 : f;
  string d (f, b ? (size_t) (b - f) : 0);
  w->dir = d.substr (d.rfind ('/') + 1);
  return (GtkWidget *) w;
}
void
gtk_button_set_image (GtkButton *b, GtkWidget *i)
{
  W *w = at (b, "setting the image");
  if (w)
    {
      w->icon = ((W *) i)->icon;
      w->dir = ((W *) i)->dir;
      ((W *) i)->icon = "";
    }
}
void gtk_widget_set_name (GtkWidget *w, const gchar *n) { ((W *) w)->name = n; }
const gchar *gtk_widget_get_name (GtkWidget *w) { return ((W *) w)->name.c_str (); }
void gtk_widget_set_tooltip_text (GtkWidget *w, const gchar *t) { ((W *) w)->tip = t; }
void gtk_widget_set_has_tooltip (GtkWidget *, gboolean) {}
void gtk_widget_set_size_request (GtkWidget *, gint, gint) {}
void gtk_widget_set_can_focus (GtkWidget *, gboolean) {}
void gtk_widget_set_halign (GtkWidget *, GtkAlign) {}
void gtk_widget_set_margin_top (GtkWidget *, gint) {}
void gtk_widget_set_margin_start (GtkWidget *, gint) {}
void gtk_widget_set_app_paintable (GtkWidget *, gboolean) {}
void
gtk_widget_set_sensitive (GtkWidget *p, gboolean s)
{
  W *w = at (p, "enabling");
  if (w)
    w->sensitive = s;
}
void
gtk_widget_show (GtkWidget *p)
{
  W *w = at (p, "showing");
  if (w)
    w->shown = true;
}
void
gtk_widget_hide (GtkWidget *p)
{
  W *w = at (p, "hiding");
  if (w)
    w->shown = false;
}
void
gtk_widget_show_all (GtkWidget *p)
{
  W *w = at (p, "showing");
  if (!w)
    return;
  w->shown = true;
  for (auto k : w->kids)
    gtk_widget_show_all ((GtkWidget *) k);
}
void
gtk_widget_destroy (GtkWidget *p)
{
  W *w = (W *) p;
  if (w && w->dying)
    return;
  if ((w = at (p, "destroying")))
    destroy (w);
}
void gtk_widget_queue_draw (GtkWidget *p) { if (at (p, "drawing")) queued = true; }
int gtk_widget_get_allocated_width (GtkWidget *) { return width; }
int gtk_widget_get_allocated_height (GtkWidget *) { return height; }
GdkWindow *gtk_widget_get_window (GtkWidget *p) { return (GdkWindow *) g_object_new (G_TYPE_OBJECT, nullptr); }
guint
gtk_widget_add_tick_callback (GtkWidget *p, GtkTickCallback cb, gpointer data, GDestroyNotify)
{
  ((W *) p)->ticks.push_back ({ cb, data });
  return 1;
}
gint64 gdk_frame_clock_get_frame_time (GdkFrameClock *) { return now; }
gint64 gdk_frame_clock_get_frame_counter (GdkFrameClock *) { return counter; }
void gtk_container_add (GtkContainer *c, GtkWidget *w) { add (c, w); }
void
gtk_container_remove (GtkContainer *p, GtkWidget *k)
{
  W *w = at (p, "removing from a container"), *c = at (k, "removing");
  if (!w || !c)
    return;
  if (c->parent != w)
    return say ("misuse: removing a " + c->type + " that is not there");
  destroy (c);
}
GList *
gtk_container_get_children (GtkContainer *p)
{
  GList *l = nullptr;
  W *w = at (p, "listing the children");
  if (w)
    for (auto k : w->kids)
      l = g_list_append (l, k);
  return l;
}
void gtk_container_set_border_width (GtkContainer *, guint) {}
GtkWidget *
gtk_bin_get_child (GtkBin *b)
{
  W *w = at (b, "getting the child");
  return w && w->kids.size () ? (GtkWidget *) w->kids[0] : nullptr;
}
void gtk_box_pack_start (GtkBox *b, GtkWidget *w, gboolean, gboolean, guint) { add (b, w); }
void gtk_box_set_homogeneous (GtkBox *, gboolean) {}
void gtk_box_reorder_child (GtkBox *, GtkWidget *, gint) {}
void gtk_fixed_put (GtkFixed *f, GtkWidget *w, gint, gint) { add (f, w); }
void gtk_grid_attach (GtkGrid *f, GtkWidget *w, gint, gint, gint, gint) { add (f, w); }
void gtk_grid_set_row_spacing (GtkGrid *, guint) {}
void gtk_grid_set_column_spacing (GtkGrid *, guint) {}
void gtk_grid_set_row_homogeneous (GtkGrid *, gboolean) {}
void gtk_grid_set_column_homogeneous (GtkGrid *, gboolean) {}
void gtk_paned_pack1 (GtkPaned *p, GtkWidget *w, gboolean, gboolean) { add (p, w); }
void gtk_paned_pack2 (GtkPaned *p, GtkWidget *w, gboolean, gboolean) { add (p, w); }
gint
gtk_notebook_append_page (GtkNotebook *n, GtkWidget *w, GtkWidget *l)
{
  add (n, w);
  ((W *) n)->text = l ? ((W *) l)->text : "";
  return 0;
}
void gtk_notebook_set_show_tabs (GtkNotebook *, gboolean) {}
void gtk_header_bar_pack_start (GtkHeaderBar *b, GtkWidget *w) { add (b, w); }
void gtk_header_bar_pack_end (GtkHeaderBar *b, GtkWidget *w) { add (b, w); }
void gtk_header_bar_set_custom_title (GtkHeaderBar *b, GtkWidget *w) { add (b, w); }
void gtk_header_bar_set_title (GtkHeaderBar *, const gchar *) {}
void gtk_header_bar_set_show_close_button (GtkHeaderBar *, gboolean) {}
void gtk_header_bar_set_decoration_layout (GtkHeaderBar *, const gchar *) {}
void gtk_window_set_titlebar (GtkWindow *w, GtkWidget *b) { add (w, b); }
void gtk_window_set_title (GtkWindow *w, const gchar *t) { ((W *) w)->text = t; }
void gtk_window_set_default_size (GtkWindow *, gint, gint) {}
void gtk_window_set_position (GtkWindow *, GtkWindowPosition) {}
void gtk_window_set_resizable (GtkWindow *, gboolean) {}
void gtk_window_set_type_hint (GtkWindow *, GdkWindowTypeHint) {}
gboolean gtk_window_is_maximized (GtkWindow *) { return FALSE; }
void gtk_window_maximize (GtkWindow *) {}
void gtk_window_unmaximize (GtkWindow *) {}
void gtk_window_iconify (GtkWindow *) {}
gboolean gtk_window_set_default_icon_from_file (const gchar *, GError **) { return FALSE; }
void
gtk_window_fullscreen (GtkWindow *p)
{
  W *w = at (p, "full screen");
  if (w)
    w->full = true;
}
// Not used now, but they might as well be.
void
gtk_widget_set_visible (GtkWidget *p, gboolean v)
{
  if (v)
    gtk_widget_show (p);
  else
    gtk_widget_hide (p);
}
gboolean gtk_widget_get_visible (GtkWidget *p) { return ((W *) p)->shown; }
gboolean gtk_widget_is_visible (GtkWidget *p) { return visible ((W *) p); }
gboolean gtk_widget_get_sensitive (GtkWidget *p) { return ((W *) p)->sensitive; }
gboolean gtk_widget_is_sensitive (GtkWidget *p) { return enabled ((W *) p); }
void gtk_widget_hide_all (GtkWidget *p) { gtk_widget_hide (p); }
GtkWidget *gtk_widget_get_parent (GtkWidget *p) { return (GtkWidget *) ((W *) p)->parent; }
GtkWidget *gtk_widget_get_toplevel (GtkWidget *p) { return (GtkWidget *) root ((W *) p); }
void gtk_widget_set_valign (GtkWidget *, GtkAlign) {}
void gtk_widget_set_margin_end (GtkWidget *, gint) {}
void gtk_widget_set_margin_bottom (GtkWidget *, gint) {}
void gtk_widget_set_hexpand (GtkWidget *, gboolean) {}
void gtk_widget_set_vexpand (GtkWidget *, gboolean) {}
void gtk_widget_grab_focus (GtkWidget *) {}
void gtk_container_foreach (GtkContainer *c, GtkCallback f, gpointer data)
{
  vector<W *> k = ((W *) c)->kids;
  for (auto w : k)
    f ((GtkWidget *) w, data);
}
void gtk_box_pack_end (GtkBox *b, GtkWidget *w, gboolean, gboolean, guint) { add (b, w); }
void
gtk_window_unfullscreen (GtkWindow *p)
{
  W *w = at (p, "full screen");
  if (w)
    w->full = false;
}
void gtk_window_present (GtkWindow *p) { gtk_widget_show ((GtkWidget *) p); }
void gtk_window_close (GtkWindow *p) { gtk_widget_destroy ((GtkWidget *) p); }
gint gtk_list_box_row_get_index (GtkListBoxRow *r)
{
  W *w = (W *) r;
  for (size_t i = 0; w->parent && i < w->parent->kids.size (); i++)
    if (w->parent->kids[i] == w)
      return (gint) i;
  return -1;
}
const gchar *gtk_entry_get_text (GtkEntry *e) { return ((W *) e)->text.c_str (); }
void gtk_entry_set_text (GtkEntry *e, const gchar *t) { ((W *) e)->text = string (t); }
void
gtk_list_box_insert (GtkListBox *l, GtkWidget *p, gint pos)
{
  W *r = mk ("row");
  add (r, p);
  add (l, r, pos);
}
void gtk_list_box_prepend (GtkListBox *l, GtkWidget *p) { gtk_list_box_insert (l, p, 0); }
GtkListBoxRow *
gtk_list_box_get_row_at_index (GtkListBox *p, gint i)
{
  W *w = (W *) p;
  return i >= 0 && i < (int) w->kids.size () ? (GtkListBoxRow *) w->kids[(size_t) i] : nullptr;
}
GtkListBoxRow *gtk_list_box_get_selected_row (GtkListBox *) { return nullptr; }
void gtk_list_box_unselect_row (GtkListBox *, GtkListBoxRow *) {}
void gtk_list_box_unselect_all (GtkListBox *) {}
void gtk_list_box_set_activate_on_single_click (GtkListBox *, gboolean) {}
void gtk_popover_popup (GtkPopover *p) { ((W *) p)->shown = true; }
void gtk_popover_popdown (GtkPopover *p) { ((W *) p)->shown = false; }
void gtk_combo_box_text_insert_text (GtkComboBoxText *c, gint, const gchar *t) { ((W *) c)->items.push_back (t); }
void gtk_combo_box_set_active (GtkComboBox *c, gint i) { ((W *) c)->active = i; }
gint gtk_combo_box_get_active (GtkComboBox *c) { return ((W *) c)->active; }
GtkWidget *
gtk_message_dialog_new (GtkWindow *, GtkDialogFlags, GtkMessageType, GtkButtonsType, const gchar *, ...)
{
  return W_ ("message");
}
GtkWidget *gtk_file_chooser_dialog_new (const gchar *, GtkWindow *, GtkFileChooserAction, const gchar *, ...) { return W_ ("chooser"); }
gint gtk_dialog_run (GtkDialog *) { return accepted ? GTK_RESPONSE_ACCEPT : GTK_RESPONSE_CANCEL; }
gchar *gtk_file_chooser_get_filename (GtkFileChooser *) { return g_strdup (chosen.c_str ()); }
GtkCssProvider *gtk_css_provider_new () { return (GtkCssProvider *) mk ("css"); }
gboolean gtk_css_provider_load_from_file (GtkCssProvider *, GFile *, GError **) { return TRUE; }
void gtk_style_context_add_provider_for_screen (GdkScreen *, GtkStyleProvider *, guint) {}
void gtk_about_dialog_set_program_name (GtkAboutDialog *, const gchar *) {}
void gtk_about_dialog_set_copyright (GtkAboutDialog *, const gchar *) {}
void gtk_about_dialog_set_license (GtkAboutDialog *, const gchar *) {}
void gtk_about_dialog_set_comments (GtkAboutDialog *, const gchar *) {}
void gtk_about_dialog_set_website_label (GtkAboutDialog *, const gchar *) {}
void gtk_about_dialog_set_authors (GtkAboutDialog *, const gchar **) {}
void gtk_about_dialog_set_wrap_license (GtkAboutDialog *, gboolean) {}
void gtk_about_dialog_set_logo (GtkAboutDialog *, GdkPixbuf *) {}
GdkDisplay *gdk_display_get_default () { static GObject *o = (GObject *) g_object_new (G_TYPE_OBJECT, nullptr); return (GdkDisplay *) o; }
GdkScreen *gdk_display_get_default_screen (GdkDisplay *d) { return (GdkScreen *) d; }
GdkMonitor *gdk_display_get_monitor (GdkDisplay *d, int) { return (GdkMonitor *) d; }
GdkMonitor *
gdk_display_get_monitor_at_window (GdkDisplay *d, GdkWindow *w)
{
  if (((W *) w)->magic == 0x57494447 || ((GTypeInstance *) w)->g_class == nullptr)
    say ("misuse: the monitor of something that is not a window");
  return (GdkMonitor *) d;
}
void gdk_monitor_get_geometry (GdkMonitor *, GdkRectangle *r) { r->x = r->y = 0, r->width = monitorW, r->height = monitorH; }
void g_object_set (gpointer, const gchar *, ...) {}
gulong
g_signal_connect_data (gpointer o, const gchar *name, GCallback cb, gpointer data, GClosureNotify, GConnectFlags)
{
  W *w = at (o, "connecting a signal");
  if (w)
    w->sigs.push_back ({ name, cb, data });
  return 1;
}
guint
g_timeout_add (guint, GSourceFunc f, gpointer data)
{
  static guint tag = 0;
  timeouts.push_back ({ ++tag, f, data });
  return tag;
}
gboolean
g_source_remove (guint tag)
{
  for (size_t i = 0; i < timeouts.size (); i++)
    if (timeouts[i].tag == tag)
      {
        timeouts.erase (timeouts.begin () + (long) i);
        return TRUE;
      }
  return FALSE;
}
void __real_cairo_show_text (cairo_t *, const char *);
void
__wrap_cairo_show_text (cairo_t *cr, const char *t)
{
  texts.push_back (t ? t : "");
  __real_cairo_show_text (cr, t);
}
void __real_pango_layout_set_text (PangoLayout *, const char *, int);
void
__wrap_pango_layout_set_text (PangoLayout *l, const char *t, int n)
{
  texts.push_back (!t ? "" : n < 0 ? string (t) : string (t, (size_t) n));
  __real_pango_layout_set_text (l, t, n);
}
guint gtk_main_level () { return (guint) level; }
void gtk_main_quit () { quitting = true; }
void
gtk_main ()
{
  std::ifstream script (getenv ("GV_SCRIPT"));
  quitting = false;
  level++;
  state ();
  string line;
  while (!quitting && std::getline (script, line))
    {
      vector<string> f;
      size_t p = 0, q;
      while ((q = line.find ('\t', p)) != string::npos)
        f.push_back (line.substr (p, q - p)), p = q + 1;
      f.push_back (line.substr (p));
      const string &k = f[0];
      auto arg = [&] (size_t i) { return i < f.size () ? f[i] : string (); };
      endNow = false;
      queued = false;
      say ("> " + line);
      if (k == "type")
        {
          W *e = byType ("entry");
          if (e && enabled (e))
            e->text = arg (1);
        }
      else if (k == "open")
        {
          accepted = arg (1) != "-";
          chosen = arg (1);
          click (byTip ("Open file"));
        }
      else if (k == "pick")
        {
          W *b = byTip ("Historic"), *l = byType ("list"), *po = l ? l->parent : nullptr;
          click (b);
          size_t n = (size_t) atoi (arg (1).c_str ());
          if (l && po && po->shown && b && enabled (b) && n < l->kids.size ())
            {
              W *r = l->kids[n];
              emit (l, "row-activated", [&] (const W::Sig &s) { ((void (*) (W *, W *, gpointer)) s.cb) (l, r, s.data); });
            }
          if (po && !po->dead)
            po->shown = false;
        }
      else if (k == "play")
        click (playButton ());
      else if (k == "stop")
        click (byIcon ("stop-icon.png"));
      else if (k == "fullscreen")
        click (byIcon ("fullscreen-icon.png"));
      else if (k == "debug")
        click (byTip ("Debug"));
      else if (k == "remote")
        click (byTip ("Remote Control"));
      else if (k == "window")
        click (byIcon ("window-icon.png"));
      else if (k == "sidebar")
        click (byIcon ("sidebar-icon.png"));
      else if (k == "hideconsole")
        click (byIcon ("bottomhide-icon.png"));
      else if (k == "hideremote")
        click (byIcon ("rightride-icon.png"));
      else if (k == "closeremote")
        {
          W *w = find ([] (W *x) { return x->type == "window" && x->text == "Control"; });
          if (w)
            destroy (w);
        }
      else if (k == "visual")
        click (find ([] (W *w) { return w->type == "check" && w->text.find ("Visual Debug") == 0; }));
      else if (k == "aspect" || k == "theme")
        {
          const char *item = k == "aspect" ? "TV (4:3)" : "Light";
          W *w = find ([&] (W *x) { return x->type == "combo" && x->items.size () && x->items[0] == item; });
          int i = atoi (arg (1).c_str ());
          if (w && w->active != i)
            {
              w->active = i;
              emit (w, "changed", [&] (const W::Sig &s) { ((void (*) (W *, gpointer)) s.cb) (w, s.data); });
            }
        }
      else if (k == "button")
        click (find ([&] (W *w) { return w->type == "button" && w->name == arg (1) && root (w)->type == "window" && visible (w); }));
      else if (k == "press" || k == "release")
        {
          GdkEvent e;
          memset (&e, 0, sizeof e);
          e.key.keyval = (guint) strtoul (arg (1).c_str (), nullptr, 10);
          e.type = k == "press" ? GDK_KEY_PRESS : GDK_KEY_RELEASE;
          W *w = fullWindow ();
          if (!w)
            w = find ([] (W *x) { return x->type == "window" && x->text == "Ginga"; });
          emit (w, k == "press" ? "key-press-event" : "key-release-event", [&] (const W::Sig &s) { ((gboolean (*) (W *, GdkEvent *, gpointer)) s.cb) (w, &e, s.data); });
        }
      else if (k == "frame")
        {
          now = atoll (arg (1).c_str ());
          counter = atoll (arg (2).c_str ());
          endNow = arg (3) == "1";
          vector<W *> v = all;
          for (auto w : v)
            for (size_t i = 0; !w->dead && i < w->ticks.size (); i++)
              if (!w->ticks[i].cb ((GtkWidget *) w, (GdkFrameClock *) w, w->ticks[i].data))
                w->ticks.erase (w->ticks.begin () + (long) i--);
          say (queued ? "draws" : "does not draw");
        }
      else if (k == "size")
        {
          GdkEvent e;
          memset (&e, 0, sizeof e);
          e.type = GDK_CONFIGURE;
          e.configure.width = width = atoi (arg (1).c_str ());
          e.configure.height = height = atoi (arg (2).c_str ());
          W *w = view ();
          emit (w, "configure-event", [&] (const W::Sig &s) { ((gboolean (*) (W *, GdkEvent *, gpointer)) s.cb) (w, &e, s.data); });
        }
      else if (k == "draw")
        {
          width = atoi (arg (1).c_str ()), height = atoi (arg (2).c_str ());
          W *fw = fullWindow (), *w = fw ? find ([&] (W *x) { return x->type == "area" && root (x) == fw; }) : view ();
          cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, width, height);
          cairo_t *cr = cairo_create (s);
          cairo_set_source_rgb (cr, 1, 0, 0);
          cairo_paint (cr);
          cairo_set_source_rgb (cr, 1, 0, 0);
          if (w)
            emit (w, "draw", [&] (const W::Sig &g) { ((gboolean (*) (W *, cairo_t *, gpointer)) g.cb) (w, cr, g.data); });
          cairo_surface_flush (s);
          const unsigned char *d = cairo_image_surface_get_data (s);
          int st = cairo_image_surface_get_stride (s), bad = 0;
          bool on = player->getState () == GINGA_STATE_PLAYING;
          for (int y = 0; y < height; y++)
            for (int x = 0; x < width; x++)
              {
                double u = (x + 0.5 - matrix.x0) / matrix.xx, v = (y + 0.5 - matrix.y0) / matrix.yy;
                const unsigned char *p = d + y * st + x * 4;
                bool in = on && u > 2 && v > 2 && u < width - 2 && v < height - 2, outside = !on || u < -2 || v < -2 || u > width + 2 || v > height + 2;
                if (p[2] != p[0] || p[1] != p[0] || (in && p[0] != 255) || (outside && p[0] != 0))
                  bad++;
              }
          say (bad ? num (bad) + " wrong pixels" : "drawn");
          cairo_destroy (cr);
          cairo_surface_destroy (s);
        }
      else if (k == "settle")
        {
          for (int i = 0; i < 60; i++)
            {
              vector<Timeout> v = timeouts;
              for (auto &t : v)
                if (!t.f (t.data))
                  g_source_remove (t.tag);
            }
          say (queued ? "draws" : "does not draw");
        }
      else if (k == "look")
        {
          W *fw = fullWindow (), *w = fw ? find ([&] (W *x) { return x->type == "area" && root (x) == fw; }) : nullptr;
          width = monitorW, height = monitorH;
          cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, width, height);
          cairo_t *cr = cairo_create (s);
          texts.clear ();
          if (w)
            emit (w, "draw", [&] (const W::Sig &g) { ((gboolean (*) (W *, cairo_t *, gpointer)) g.cb) (w, cr, g.data); });
          cairo_surface_flush (s);
          const unsigned char *d = cairo_image_surface_get_data (s);
          int st = cairo_image_surface_get_stride (s);
          string o = "look";
          for (size_t i = 1; i < f.size (); i++)
            {
              int x = 0, y = 0;
              sscanf (f[i].c_str (), "%d,%d", &x, &y);
              const unsigned char *q = d + y * st + x * 4;
              o += " " + num (q[2]) + "," + num (q[1]) + "," + num (q[0]);
            }
          say (o);
          std::set<string> t (texts.begin (), texts.end ());
          for (auto &i : t)
            if (i != "")
              say ("text <" + i + ">");
          cairo_destroy (cr);
          cairo_surface_destroy (s);
        }
      else if (k == "log")
        {
          g_log ("x", G_LOG_LEVEL_MESSAGE, "%s", arg (1).c_str ());
        }
      else if (k == "console")
        {
          W *b = byType ("buffer");
          say ("console <" + (b ? b->text : "?") + ">");
        }
      else if (k == "close")
        {
          W *w = find ([] (W *x) { return x->type == "window" && x->text == "Ginga" && !x->full; });
          if (w)
            destroy (w);
        }
      else if (k == "player")
        say ("player " + num (player->pw) + "x" + num (player->ph));
      W *bar = byType ("infobar");
      if (bar)
        {
          string t;
          std::function<void (W *)> g = [&] (W *x) {
            if (x->type == "label")
              t += x->text;
            for (auto c : x->kids)
              g (c);
          };
          g (bar);
          say ("bar <" + t + ">");
          emit (bar, "response", [&] (const W::Sig &s) { ((void (*) (W *, int, gpointer)) s.cb) (bar, GTK_RESPONSE_CLOSE, s.data); });
        }
      if (!quitting)
        state ();
    }
  say (quitting ? "quit" : "end of script");
  if (!quitting)
    {
      // ended as by a kill
      _exit (0);
    }
  level--;
}
}
