#!/usr/bin/env python3
"""tools/mkseeds.py [ID...]: writes seeded/<id>/ from tools/seeds.py and tools/seedkit."""
import difflib, json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
for s in SEEDS:
    if sys.argv[1:] and s["id"] not in sys.argv[1:]:
        continue
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    if "files" in s:
        shutil.copytree(V + "/tools/" + ("winkit" if s.get("win") else "guikit"), d)
        shutil.copy(V + "/gtk/" + ("fakegui.cpp" if s.get("win") else "fakegtk.cpp"), d)
        for n, t in s["files"].items():
            open(d + "/" + n, "w").write(t)
    else:
        shutil.copytree(V + "/tools/seedkit", d)
        if s.get("gl"): # with OpenGL
            for n in ("fakegl.h", "fakegl.cpp"):
                shutil.copy(V + "/src/" + n, d)
            t = open(d + "/demo.sh").read()
            t = t.replace("for f in Formatter Player ", "for f in aux-gl Formatter Player ").replace("-std=c++11 $INC -c", "-std=c++11 -DWITH_OPENGL=1 $INC -c")
            t = t.replace('g++ -w -g0 -O0 -std=c++17 $INC -c "$H/fakes.cpp"', 'g++ -w -g0 -O0 -std=c++17 $INC -c "$H/fakegl.cpp" -o "$T/fakegl.o" &\ng++ -w -g0 -O0 -std=c++17 $INC -c "$H/fakes.cpp"')
            open(d + "/demo.sh", "w").write(t)
        open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + s.get("pre", "") + "int main ()\n{\n" + s["demo"].strip("\n") + "\n  return bad;\n}\n")
    out = ""
    texts = {}
    for f, old, new in s["edits"]:
        t = texts.setdefault(f, [open(os.environ.get("BASE", "/repo") + "/" + f).read()] * 2)
        assert t[1].count(old) >= 1, (s["id"], "old text not found", old)
        t[1] = t[1].replace(old, new, 1)
    for f, (a, b) in texts.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
