// Observation points of the stand-ins for the two external libraries that are
// not installed (NCLua and gssdp).
#ifndef VERIF_FAKES_H
#define VERIF_FAKES_H
#include <deque>
#include <string>
#include <vector>

struct NcluaCall {
  std::string path;  // script path (identifies the media: one script per media)
  std::string kind;  // open close cycle key presentation attribution selection
  std::string a, b, c;  // action/type, name/key, value
  std::string cwd;      // working directory, for open and cycle
  std::string str () const;
};
// All calls since the last fakes_reset(), in order.
extern std::vector<NcluaCall> nclua_log;
extern bool nclua_log_cycles;
// Number of currently open scripts.
extern int nclua_open_count;
// Posts an event as if script PATH had posted it. Returns false if not open.
bool nclua_post (const std::string &path, const std::string &type, const std::string &action,
                 const std::string &name, const std::string &value);
bool nclua_post_key (const std::string &path, const std::string &type, const std::string &key);
// Paints the four quarters of the canvas of all that run the script of this
// file name, each as 0xRRGGBB, and tells how many do.
int nclua_paint (const std::string &file, const unsigned quarters[4]);
bool nclua_is_open (const std::string &path);
struct SsdpLog {
  std::string server_id;
  std::vector<std::string> targets, usns, locations;
  bool available = false;
};
extern SsdpLog ssdp_log;
void fakes_reset ();
#endif
