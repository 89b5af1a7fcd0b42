#include "fakes.h"
#include <cairo.h>
#include <cstdlib>
#include <cstring>
#include <list>
#include <libgssdp/gssdp.h>
#include <ncluaw.h>

using std::string;

std::vector<NcluaCall> nclua_log;
bool nclua_log_cycles = false;
int nclua_open_count = 0;
SsdpLog ssdp_log;

struct _ncluaw_t {
  string path;
  cairo_surface_t *sfc;
  std::deque<ncluaw_event_t *> posted;
};
static std::list<ncluaw_t *> live;

string NcluaCall::str () const
{
  string base = path.substr (path.find_last_of ('/') + 1);
  return base + ":" + kind + "(" + a + "," + b + "," + c + ")";
}
static void logc (ncluaw_t *nw, const char *kind, const char *a, const char *b, const char *c)
{
  nclua_log.push_back ({ nw->path, kind, a ? a : "", b ? b : "", c ? c : "" });
}
void fakes_reset ()
{
  nclua_log.clear ();
  nclua_log_cycles = false;
  ssdp_log = SsdpLog ();
}
bool nclua_is_open (const string &path)
{
  for (auto nw : live)
    if (nw->path == path)
      return true;
  return false;
}
static char *dupz (const string &s) { return strdup (s.c_str ()); }
bool nclua_post (const string &path, const string &type, const string &action,
                 const string &name, const string &value)
{
  for (auto nw : live)
    if (nw->path == path)
      {
        ncluaw_event_t *e = new ncluaw_event_t;
        e->cls = NCLUAW_EVENT_NCL;
        e->u.ncl.type = dupz (type);
        e->u.ncl.action = dupz (action);
        e->u.ncl.name = dupz (name);
        e->u.ncl.value = dupz (value);
        nw->posted.push_back (e);
        return true;
      }
  return false;
}
bool nclua_post_key (const string &path, const string &type, const string &key)
{
  for (auto nw : live)
    if (nw->path == path)
      {
        ncluaw_event_t *e = new ncluaw_event_t;
        memset (e, 0, sizeof *e);
        e->cls = NCLUAW_EVENT_KEY;
        e->u.key.type = dupz (type);
        e->u.key.key = dupz (key);
        nw->posted.push_back (e);
        return true;
      }
  return false;
}

extern "C" {
ncluaw_t *ncluaw_open (const char *path, int w, int h, char **errmsg)
{
  ncluaw_t *nw = new ncluaw_t;
  nw->path = path;
  nw->sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w > 0 ? w : 1, h > 0 ? h : 1);
  live.push_back (nw);
  nclua_open_count++;
  logc (nw, "open", std::to_string (w).c_str (), std::to_string (h).c_str (), nullptr);
  (void) errmsg;
  return nw;
}
void ncluaw_close (ncluaw_t *nw)
{
  logc (nw, "close", nullptr, nullptr, nullptr);
  for (auto e : nw->posted)
    ncluaw_event_free (e);
  cairo_surface_destroy (nw->sfc);
  live.remove (nw);
  nclua_open_count--;
  delete nw;
}
void ncluaw_cycle (ncluaw_t *nw)
{
  if (nclua_log_cycles)
    logc (nw, "cycle", nullptr, nullptr, nullptr);
}
void ncluaw_event_free (ncluaw_event_t *e)
{
  if (e->cls == NCLUAW_EVENT_NCL)
    {
      free ((void *) e->u.ncl.type);
      free ((void *) e->u.ncl.action);
      free ((void *) e->u.ncl.name);
      free ((void *) e->u.ncl.value);
    }
  else
    {
      free ((void *) e->u.key.type);
      free ((void *) e->u.key.key);
    }
  delete e;
}
ncluaw_event_t *ncluaw_receive (ncluaw_t *nw)
{
  if (nw->posted.empty ())
    return nullptr;
  auto e = nw->posted.front ();
  nw->posted.pop_front ();
  return e;
}
void ncluaw_send_key_event (ncluaw_t *nw, const char *type, const char *key)
{
  logc (nw, "key", type, key, nullptr);
}
void ncluaw_send_ncl_event (ncluaw_t *nw, const char *type, const char *action, const char *name,
                            const char *value)
{
  logc (nw, type, action, name, value);
}
void *ncluaw_debug_get_surface (ncluaw_t *nw) { return nw->sfc; }

GSSDPClient *gssdp_client_new (const char *, GError **) { return (GObject *) g_object_new (G_TYPE_OBJECT, nullptr); }
void gssdp_client_set_server_id (GSSDPClient *, const char *id) { ssdp_log.server_id = id; }
const char *gssdp_client_get_host_ip (GSSDPClient *) { return "127.0.0.1"; }
gboolean gssdp_client_get_active (GSSDPClient *) { return TRUE; }
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *) { return (GObject *) g_object_new (G_TYPE_OBJECT, nullptr); }
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *t, const char *u, const char *l)
{
  ssdp_log.targets.push_back (t);
  ssdp_log.usns.push_back (u);
  ssdp_log.locations.push_back (l);
  return 1;
}
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean b) { ssdp_log.available = b; }
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *) { return ssdp_log.available; }
}
