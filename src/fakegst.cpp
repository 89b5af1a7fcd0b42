#include "fakegst.h"
#include <algorithm>
#include <cstring>
#include <gst/video/video.h>
#include <sys/stat.h>
#include <unistd.h>
using std::string;

std::vector<GstPlay *> gst_plays;
bool gst_play_async = false;
gint64 gst_play_duration = -1;

typedef struct { GstPipeline parent; char *uri; GstElement *vsink, *asink; double volume; gboolean mute; GstPlay *rec; } GvPlaybin;
typedef struct { GstPipelineClass parent; } GvPlaybinClass;
G_DEFINE_TYPE (GvPlaybin, gv_playbin, GST_TYPE_PIPELINE)
enum { P_0, P_URI, P_VSINK, P_ASINK, P_VOLUME, P_MUTE, P_FLAGS };

static gboolean srcEvent (GstPad *pad, GstObject *, GstEvent *e)
{
  GstPlay *r = (GstPlay *) gst_pad_get_element_private (pad);
  if (GST_EVENT_TYPE (e) == GST_EVENT_SEEK)
    {
      GstSeekRec k;
      GstFormat f;
      GstSeekFlags fl;
      GstSeekType a, b;
      gst_event_parse_seek (e, &k.rate, &f, &fl, &a, &k.start, &b, &k.stop);
      k.startType = a, k.stopType = b;
      r->seeks.push_back (k);
      if (a == GST_SEEK_TYPE_SET && k.rate > 0)
        r->position = k.start;
    }
  gst_event_unref (e);
  return TRUE;
}
static gboolean srcQuery (GstPad *pad, GstObject *, GstQuery *q)
{
  GstPlay *r = (GstPlay *) gst_pad_get_element_private (pad);
  if (GST_QUERY_TYPE (q) == GST_QUERY_POSITION)
    gst_query_set_position (q, GST_FORMAT_TIME, r->position);
  else if (GST_QUERY_TYPE (q) == GST_QUERY_DURATION && r->duration >= 0)
    gst_query_set_duration (q, GST_FORMAT_TIME, r->duration);
  else
    return FALSE;
  return TRUE;
}
static void setProp (GObject *o, guint id, const GValue *v, GParamSpec *)
{
  GvPlaybin *p = (GvPlaybin *) o;
  switch (id)
    {
    case P_URI: g_free (p->uri); p->uri = g_value_dup_string (v); break;
    case P_VSINK: if (p->vsink) gst_object_unref (p->vsink);
      p->vsink = (GstElement *) g_value_get_object (v); if (p->vsink) gst_object_ref_sink (p->vsink); break;
    case P_ASINK: if (p->asink) gst_object_unref (p->asink);
      p->asink = (GstElement *) g_value_get_object (v); if (p->asink) gst_object_ref_sink (p->asink); break;
    case P_VOLUME: p->volume = g_value_get_double (v); break;
    case P_MUTE: p->mute = g_value_get_boolean (v); break;
    }
}
static void getProp (GObject *o, guint id, GValue *v, GParamSpec *)
{
  GvPlaybin *p = (GvPlaybin *) o;
  switch (id)
    {
    case P_URI: g_value_set_string (v, p->uri); break;
    case P_VSINK: g_value_set_object (v, p->vsink); break;
    case P_ASINK: g_value_set_object (v, p->asink); break;
    case P_VOLUME: g_value_set_double (v, p->volume); break;
    case P_MUTE: g_value_set_boolean (v, p->mute); break;
    }
}
static void link (GvPlaybin *p)
{
  if (p->rec->src || !p->vsink)
    return;
  GstPad *sink = gst_element_get_static_pad (p->vsink, "sink");
  if (!sink)
    return;
  GstPad *s = gst_pad_new ("content", GST_PAD_SRC);
  gst_pad_set_element_private (s, p->rec);
  gst_pad_set_event_function (s, srcEvent);
  gst_pad_set_query_function (s, srcQuery);
  gst_object_ref_sink (s);
  gst_pad_link (s, sink);
  gst_object_unref (sink);
  gst_pad_set_active (s, TRUE);
  gst_pad_push_event (s, gst_event_new_stream_start ("content"));
  p->rec->src = s;
}
static void unlink (GvPlaybin *p)
{
  if (!p->rec->src)
    return;
  GstPad *peer = gst_pad_get_peer (p->rec->src);
  gst_pad_set_active (p->rec->src, FALSE);
  if (peer)
    {
      gst_pad_unlink (p->rec->src, peer);
      gst_object_unref (peer);
    }
  gst_object_unref (p->rec->src);
  p->rec->src = nullptr;
}
static GstStateChangeReturn changeState (GstElement *e, GstStateChange t)
{
  GvPlaybin *p = (GvPlaybin *) e;
  GstStateChangeReturn r = GST_ELEMENT_CLASS (gv_playbin_parent_class)->change_state (e, t);
  switch (t)
    {
    case GST_STATE_CHANGE_READY_TO_PAUSED:
      p->rec->uriAtPlay = p->uri ? p->uri : "";
      if (p->vsink)
        {
          gst_element_set_state (p->vsink, GST_STATE_PLAYING);
          link (p);
        }
      if (p->rec->async)
        return GST_STATE_CHANGE_ASYNC;
      break;
    case GST_STATE_CHANGE_PAUSED_TO_READY:
    case GST_STATE_CHANGE_READY_TO_NULL:
      unlink (p);
      if (p->vsink)
        gst_element_set_state (p->vsink, GST_STATE_NULL);
      if (p->asink)
        gst_element_set_state (p->asink, GST_STATE_NULL);
      p->rec->position = 0;
      break;
    default:
      break;
    }
  return r;
}
static gboolean sendEvent (GstElement *e, GstEvent *ev)
{
  GvPlaybin *p = (GvPlaybin *) e;
  if (GST_EVENT_TYPE (ev) == GST_EVENT_SEEK && p->rec->src)
    return srcEvent (p->rec->src, nullptr, ev);
  gst_event_unref (ev);
  return FALSE;
}
static gboolean query (GstElement *e, GstQuery *q)
{
  GvPlaybin *p = (GvPlaybin *) e;
  if (!p->rec->src)
    return FALSE;
  return srcQuery (p->rec->src, nullptr, q);
}
static void dispose (GObject *o)
{
  GvPlaybin *p = (GvPlaybin *) o;
  unlink (p);
  for (GstElement **s : { &p->vsink, &p->asink })
    if (*s)
      {
        gst_element_set_state (*s, GST_STATE_NULL);
        gst_object_unref (*s);
        *s = nullptr;
      }
  g_clear_pointer (&p->uri, g_free);
  G_OBJECT_CLASS (gv_playbin_parent_class)->dispose (o);
}
static void gv_playbin_class_init (GvPlaybinClass *k)
{
  GObjectClass *o = (GObjectClass *) k;
  GstElementClass *e = (GstElementClass *) k;
  o->set_property = setProp, o->get_property = getProp, o->dispose = dispose;
  e->change_state = changeState, e->send_event = sendEvent, e->query = query;
  GParamFlags rw = G_PARAM_READWRITE;
  g_object_class_install_property (o, P_URI, g_param_spec_string ("uri", "", "", nullptr, rw));
  g_object_class_install_property (o, P_VSINK, g_param_spec_object ("video-sink", "", "", GST_TYPE_ELEMENT, rw));
  g_object_class_install_property (o, P_ASINK, g_param_spec_object ("audio-sink", "", "", GST_TYPE_ELEMENT, rw));
  g_object_class_install_property (o, P_VOLUME, g_param_spec_double ("volume", "", "", 0, 10, 1, rw));
  g_object_class_install_property (o, P_MUTE, g_param_spec_boolean ("mute", "", "", FALSE, rw));
  gst_element_class_set_static_metadata (e, "playbin", "Generic", "stand-in", "verif");
}
static void gv_playbin_init (GvPlaybin *p) { p->volume = 1; }

// A signal generator that remembers its settings. (The real one may call a null
// function if its wave is changed at the wrong moment.)
typedef struct { GstBin parent; double freq, volume; int wave; } GvSigSrc;
typedef struct { GstBinClass parent; } GvSigSrcClass;
G_DEFINE_TYPE (GvSigSrc, gv_sig_src, GST_TYPE_BIN)
enum { Q_0, Q_FREQ, Q_VOLUME, Q_WAVE };
static void sigSet (GObject *o, guint id, const GValue *v, GParamSpec *)
{
  GvSigSrc *p = (GvSigSrc *) o;
  if (id == Q_FREQ) p->freq = g_value_get_double (v);
  else if (id == Q_VOLUME) p->volume = g_value_get_double (v);
  else p->wave = g_value_get_int (v);
}
static void sigGet (GObject *o, guint id, GValue *v, GParamSpec *)
{
  GvSigSrc *p = (GvSigSrc *) o;
  if (id == Q_FREQ) g_value_set_double (v, p->freq);
  else if (id == Q_VOLUME) g_value_set_double (v, p->volume);
  else g_value_set_int (v, p->wave);
}
static void gv_sig_src_class_init (GvSigSrcClass *k)
{
  GObjectClass *o = (GObjectClass *) k;
  o->set_property = sigSet, o->get_property = sigGet;
  g_object_class_install_property (o, Q_FREQ, g_param_spec_double ("freq", "", "", 0, 1e9, 440, G_PARAM_READWRITE));
  g_object_class_install_property (o, Q_VOLUME, g_param_spec_double ("volume", "", "", 0, 1, .8, G_PARAM_READWRITE));
  g_object_class_install_property (o, Q_WAVE, g_param_spec_int ("wave", "", "", 0, 12, 0, G_PARAM_READWRITE));
}
static void gv_sig_src_init (GvSigSrc *p) { p->freq = 440, p->volume = .8, p->wave = 0; }

static void gone (gpointer d, GObject *) { ((GstPlay *) d)->elt = nullptr; }
static void busGone (gpointer d, GObject *) { ((GstPlay *) d)->bus = false; }
static void watch (GstPlay *r, GstElement *pipe)
{
  r->pipe = pipe;
  GstBus *b = gst_pipeline_get_bus (GST_PIPELINE (pipe));
  g_object_weak_ref (G_OBJECT (b), busGone, r);
  gst_object_unref (b);
}
extern "C" GstElement *__real_gst_element_factory_make (const gchar *, const gchar *);
extern "C" GstStateChangeReturn __real_gst_element_get_state (GstElement *, GstState *, GstState *, GstClockTime);
extern "C" GstElement *__wrap_gst_element_factory_make (const gchar *f, const gchar *name)
{
  string s = f;
  if (s == "playbin" || s == "playbin3")
    {
      GvPlaybin *p = (GvPlaybin *) g_object_new (gv_playbin_get_type (), "name", name, nullptr);
      GstPlay *r = new GstPlay;
      p->rec = r;
      r->elt = GST_ELEMENT (p);
      r->async = gst_play_async;
      r->duration = gst_play_duration;
      g_object_weak_ref (G_OBJECT (p), gone, r);
      watch (r, r->elt);
      gst_plays.push_back (r);
      return r->elt;
    }
  if (s == "alsasink" || s == "autoaudiosink" || s == "pulsesink")
    {
      GstElement *e = __real_gst_element_factory_make ("fakesink", name);
      g_object_set (e, "async", FALSE, "sync", TRUE, nullptr);
      return e;
    }
  GstElement *e = __real_gst_element_factory_make (f, s == "audiotestsrc" ? nullptr : name);
  if (s == "audiotestsrc" && e)
    {
      GstElement *bin = (GstElement *) g_object_new (gv_sig_src_get_type (), "name", name, nullptr);
      gst_bin_add (GST_BIN (bin), e);
      GstPad *p = gst_element_get_static_pad (e, "src");
      gst_element_add_pad (bin, gst_ghost_pad_new ("src", p));
      gst_object_unref (p);
      e = bin;
      GstPlay *r = new GstPlay;
      r->siggen = true;
      r->elt = e;
      g_object_weak_ref (G_OBJECT (e), gone, r);
      gst_plays.push_back (r);
    }
  return e;
}
extern "C" GstStateChangeReturn __wrap_gst_element_get_state (GstElement *e, GstState *s, GstState *p, GstClockTime t)
{
  if (t == GST_CLOCK_TIME_NONE && e && G_TYPE_CHECK_INSTANCE_TYPE (e, gv_playbin_get_type ()))
    fakegst_complete (((GvPlaybin *) e)->rec);
  return __real_gst_element_get_state (e, s, p, t);
}

void fakegst_init (const string &dir)
{
  static bool done = false;
  if (done)
    return;
  done = true;
  string d = dir + "." + std::to_string (getpid ());
  mkdir (d.c_str (), 0700);
  for (const char *l : { "coreelements", "app", "audiofx", "equalizer", "volume", "audioconvert", "audiotestsrc", "audiovisualizers", "videoconvertscale", "videoconvert" })
    {
      string n = string ("libgst") + l + ".so", sys = "/usr/lib/x86_64-linux-gnu/gstreamer-1.0/" + n;
      if (access (sys.c_str (), R_OK) == 0 && symlink (sys.c_str (), (d + "/" + n).c_str ())) {}
    }
  g_setenv ("GST_PLUGIN_SYSTEM_PATH_1_0", d.c_str (), TRUE);
  g_setenv ("GST_PLUGIN_PATH_1_0", "", TRUE);
  g_setenv ("GST_REGISTRY_1_0", (d + "/registry").c_str (), TRUE);
  g_setenv ("GST_REGISTRY_FORK", "no", TRUE);
  g_setenv ("GST_REGISTRY_UPDATE", "yes", TRUE);
  gst_init (nullptr, nullptr);
}
void fakegst_reset ()
{
  // Records of elements that are still there are left to them.
  for (auto r : gst_plays)
    if (!r->elt && !r->bus)
      delete r;
  gst_plays.clear ();
  gst_play_async = false;
  gst_play_duration = -1;
}
bool fakegst_complete (GstPlay *r)
{
  if (!r->elt || r->siggen)
    return false;
  GST_STATE_LOCK (r->elt);
  bool pending = GST_STATE_PENDING (r->elt) != GST_STATE_VOID_PENDING && GST_STATE_RETURN (r->elt) == GST_STATE_CHANGE_ASYNC;
  if (pending)
    gst_element_continue_state (r->elt, GST_STATE_CHANGE_SUCCESS);
  GST_STATE_UNLOCK (r->elt);
  return pending;
}
bool fakegst_frame (GstPlay *r, int w, int h, unsigned left, unsigned right)
{
  if (!r->elt || !r->src)
    return false;
  GstCaps *caps = gst_caps_new_simple ("video/x-raw", "format", G_TYPE_STRING, "BGRA", "width", G_TYPE_INT, w, "height", G_TYPE_INT, h,
                                       "framerate", GST_TYPE_FRACTION, 25, 1, nullptr);
  gst_pad_push_event (r->src, gst_event_new_caps (caps));
  gst_caps_unref (caps);
  GstSegment seg;
  gst_segment_init (&seg, GST_FORMAT_TIME);
  gst_pad_push_event (r->src, gst_event_new_segment (&seg));
  GstBuffer *b = gst_buffer_new_allocate (nullptr, (gsize) (w * h * 4), nullptr);
  GstMapInfo m;
  gst_buffer_map (b, &m, GST_MAP_WRITE);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      {
        unsigned c = x < w / 2 ? left : right;
        guint8 *q = m.data + (y * w + x) * 4;
        q[0] = c & 255, q[1] = (c >> 8) & 255, q[2] = (c >> 16) & 255, q[3] = 255;
      }
  gst_buffer_unmap (b, &m);
  return gst_pad_push (r->src, b) == GST_FLOW_OK;
}
void fakegst_message (GstPlay *r, GstMessage *m)
{
  if (!r->elt)
    {
      gst_message_unref (m);
      return;
    }
  gst_element_post_message (r->elt, m);
}
void fakegst_iterate ()
{
  for (int i = 0; i < 100 && g_main_context_iteration (nullptr, FALSE); i++)
    ;
}
GstElement *fakegst_find (GstPlay *r, const string &factory)
{
  if (!r->elt)
    return nullptr;
  std::vector<GstElement *> todo;
  if (r->siggen)
    todo.push_back (r->elt);
  else
    {
      GvPlaybin *p = (GvPlaybin *) r->elt;
      todo.push_back (r->elt);
      if (p->asink)
        todo.push_back (p->asink);
      if (p->vsink)
        todo.push_back (p->vsink);
    }
  for (size_t i = 0; i < todo.size (); i++)
    {
      GstElementFactory *f = gst_element_get_factory (todo[i]);
      if (f && factory == GST_OBJECT_NAME (f))
        return todo[i];
      if (GST_IS_BIN (todo[i]))
        for (GList *l = GST_BIN_CHILDREN (todo[i]); l; l = l->next)
          todo.push_back ((GstElement *) l->data);
    }
  return nullptr;
}
GstElement *fakegst_pipe (GstPlay *r)
{
  if (!r->elt)
    return nullptr;
  if (!r->pipe)
    {
      GstObject *o = GST_OBJECT (r->elt);
      while (GST_OBJECT_PARENT (o))
        o = GST_OBJECT_PARENT (o);
      if (GST_IS_PIPELINE (o))
        watch (r, GST_ELEMENT (o));
    }
  return r->pipe;
}
