// Shared by the checks of the programs (p_gui.cpp, p_win.cpp).
#ifndef VERIF_GUI_H
#define VERIF_GUI_H
#include <string>
#include <vector>
namespace gui {
std::string slurp (const std::string &path);
std::vector<std::string> lines (const std::string &text);
// What NCL calls a key of GDK, "" if it has no name.
std::string keyName (unsigned keyval);
// Runs a program (in a directory); its status as of waitpid, or -1.
int run (const std::string &prog, const std::vector<std::string> &argv, const std::string &out, const std::string &err, const std::string &dir = "");
}
#endif
