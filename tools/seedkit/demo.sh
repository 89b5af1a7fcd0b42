#!/bin/bash
# Builds the parts of libginga that the offline build leaves out (with stand-ins
# for NCLua and gssdp), links them with /repo's libginga.so and runs demo.cpp.
# Exit 0: the property holds in this demonstration.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC="-I$R/lib -I$R/_build -I$H/stubs -I$H $(pkg-config --cflags glib-2.0 gio-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 gdk-pixbuf-2.0 cairo pangocairo fontconfig librsvg-2.0 gstreamer-1.0 gstreamer-app-1.0 gstreamer-video-1.0 gtk+-3.0 jsoncpp lua5.3)"
LIBS="$(pkg-config --libs glib-2.0 gio-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 gdk-pixbuf-2.0 cairo pangocairo fontconfig librsvg-2.0 gstreamer-1.0 gstreamer-app-1.0 gstreamer-video-1.0 gtk+-3.0 jsoncpp lua5.3)"
for f in Formatter Player PlayerLua PlayerRemote WebServices PlayerImage PlayerSigGen PlayerSvg PlayerText PlayerVideo; do
  g++ -w -g0 -O0 -std=c++11 $INC -c "$R/lib/$f.cpp" -o "$T/$f.o" &
done
g++ -w -g0 -O0 -std=c++17 $INC -c "$H/fakes.cpp" -o "$T/fakes.o" &
g++ -w -g -O0 -std=c++17 $INC -c "$H/demo.cpp" -o "$T/demo.o" &
wait
g++ -rdynamic "$T"/*.o -Wl,--allow-shlib-undefined -L"$R/_build" -lginga -Wl,-rpath,"$R/_build" $LIBS -o "$T/demo" || exit 2
mkdir "$T/run"; cd "$T/run" || exit 2
G_MESSAGES_DEBUG= NO_AT_BRIDGE=1 XDG_CACHE_HOME="$T" timeout 60 "$T/demo"
