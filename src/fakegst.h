// A stand-in for GStreamer's playbin, and observation points of audio pipelines.
//
// Players ask for their elements by name (gst_element_factory_make, wrapped at
// link time). "playbin" yields an empty pipeline that records what it is told
// and whose content (frames, position, end) is given by the harness; sound
// cards are replaced by sinks that drop everything; all else is GStreamer's own.
#ifndef VERIF_FAKEGST_H
#define VERIF_FAKEGST_H
#include <gst/gst.h>
#include <string>
#include <vector>

struct GstSeekRec { double rate; int startType; gint64 start; int stopType; gint64 stop; };
struct GstPlay {             // one playbin or signal generator, kept after its death
  GstElement *elt = nullptr; // null once it was disposed of
  GstElement *pipe = nullptr;// the pipeline it is in
  bool bus = true;           // whether its bus is still held
  bool siggen = false;
  std::string uriAtPlay;     // uri when it last left READY
  std::vector<GstSeekRec> seeks;
  gint64 position = 0, duration = -1;
  // How the content of a playbin behaves.
  GstPad *src = nullptr;
  bool async = false;        // whether it takes its time to start
};
extern std::vector<GstPlay *> gst_plays;
extern bool gst_play_async;      // for those made from now on
extern gint64 gst_play_duration; // likewise
void fakegst_init (const std::string &dir);
void fakegst_reset ();
// Lets a playbin that is taking its time go on.
bool fakegst_complete (GstPlay *);
// A frame of two halves (packed 0xRRGGBB).
bool fakegst_frame (GstPlay *, int w, int h, unsigned left, unsigned right);
void fakegst_message (GstPlay *, GstMessage *);
void fakegst_iterate ();
// The pipeline it is in (to be asked for first while it is alive).
GstElement *fakegst_pipe (GstPlay *);
// Finds the element of that factory in the pipeline or sinks of a playbin.
GstElement *fakegst_find (GstPlay *, const std::string &factory);
#endif
