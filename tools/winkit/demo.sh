#!/bin/bash
# Builds the program of src/gingagui against a stand-in for GTK and for the player
# (fakegui.cpp), runs it with the acts of script and compares what reaches the player
# and what the user sees with expected. Exit 0: the property holds in this demonstration.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
sed 's#define GINGADATADIR.*#define GINGADATADIR "share"#' "$R/_build/config.h" >"$T/config.h"
INC="-I$T -I$R/lib -I$R/_build $(pkg-config --cflags gtk+-3.0 glib-2.0 gio-2.0 libsoup-2.4 libxml-2.0 gdk-pixbuf-2.0 cairo pangocairo librsvg-2.0 gstreamer-1.0 gstreamer-app-1.0 gstreamer-video-1.0 jsoncpp lua5.3)"
for f in "$R"/src/gingagui/*.cpp "$H/fakegui.cpp"; do
  g++ -w -g0 -O0 -std=c++17 -DG_DISABLE_CAST_CHECKS=1 $INC -c "$f" -o "$T/$(basename "$f").o" &
done
wait
g++ -Wl,--wrap=cairo_show_text -Wl,--wrap=pango_layout_set_text "$T"/*.o $(pkg-config --libs gtk+-3.0 glib-2.0 cairo pangocairo libxml-2.0) -o "$T/ginga-gui" || exit 2
cd "$T" || exit 2
mkdir config share
cp -r "$R/src/gingagui/icons" share
[ -f "$H/ncl-apps.xml" ] && cp "$H/ncl-apps.xml" share
GV_SCRIPT="$H/script" GV_LOG="$T/log" NO_AT_BRIDGE=1 XDG_CACHE_HOME="$T" XDG_CONFIG_HOME="$T/config" timeout 60 "$T/ginga-gui" $(cat "$H/args") 2>"$T/err"
echo "exit $?" >>"$T/log"
diff "$H/expected" "$T/log"
