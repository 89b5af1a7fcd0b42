/* Stand-in for the NCLua wrapper header (the real library is not installed).
   The implementation in src/fakes.cpp records every call and lets a harness
   post events as if they came from a script. */
#ifndef VERIF_NCLUAW_H
#define VERIF_NCLUAW_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _ncluaw_t ncluaw_t;
typedef enum { NCLUAW_EVENT_NCL = 0, NCLUAW_EVENT_KEY, NCLUAW_EVENT_UNKNOWN } ncluaw_event_class_t;
typedef struct _ncluaw_event_t {
  ncluaw_event_class_t cls;
  union {
    struct { const char *type; const char *action; const char *name; const char *value; } ncl;
    struct { const char *type; const char *key; } key;
  } u;
} ncluaw_event_t;
ncluaw_t *ncluaw_open (const char *path, int width, int height, char **errmsg);
void ncluaw_close (ncluaw_t *);
void ncluaw_cycle (ncluaw_t *);
void ncluaw_event_free (ncluaw_event_t *);
ncluaw_event_t *ncluaw_receive (ncluaw_t *);
void ncluaw_send_key_event (ncluaw_t *, const char *type, const char *key);
void ncluaw_send_ncl_event (ncluaw_t *, const char *type, const char *action, const char *name, const char *value);
void *ncluaw_debug_get_surface (ncluaw_t *);
#ifdef __cplusplus
}
#endif
#endif
