#!/bin/bash
# Builds the program of src/ginga.cpp against a stand-in for GTK and for the player
# (fakegtk.cpp), runs it with the events of script and compares what reaches the
# player and the window with expected. Exit 0: the property holds in this demonstration.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC="-I$R/lib -I$R/_build $(pkg-config --cflags gtk+-3.0 glib-2.0 gio-2.0 libsoup-2.4 libxml-2.0 gdk-pixbuf-2.0 cairo pangocairo librsvg-2.0 gstreamer-1.0 gstreamer-app-1.0 gstreamer-video-1.0 jsoncpp lua5.3)"
g++ -w -g -O0 -std=c++17 $INC "$R/src/ginga.cpp" "$H/fakegtk.cpp" $(pkg-config --libs gtk+-3.0 glib-2.0 cairo) -o "$T/ginga" || exit 2
cd "$T" || exit 2
GV_SCRIPT="$H/script" GV_LOG="$T/log" NO_AT_BRIDGE=1 XDG_CACHE_HOME="$T" timeout 60 "$T/ginga" $(cat "$H/args") 2>"$T/err"
echo "exit $?" >>"$T/log"
sed 's/^[^:]*: //' "$T/err" >>"$T/log"
diff "$H/expected" "$T/log"
