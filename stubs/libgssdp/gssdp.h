/* Stand-in for gssdp-1.2 (not installed): the SSDP announcement is recorded,
   nothing is sent. Implemented in src/fakes.cpp. */
#ifndef VERIF_GSSDP_H
#define VERIF_GSSDP_H
#include <glib-object.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef GObject GSSDPClient;
typedef GObject GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *iface, GError **error);
void gssdp_client_set_server_id (GSSDPClient *, const char *);
const char *gssdp_client_get_host_ip (GSSDPClient *);
gboolean gssdp_client_get_active (GSSDPClient *);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *);
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *target, const char *usn, const char *location);
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *);
#ifdef __cplusplus
}
#endif
#endif
