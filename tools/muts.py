#!/usr/bin/env python3
"""tools/muts.py FILE [SLOTS]: dev tool. FILE holds a python list MUTS of
(name, file, old, new, "ID ID..."); each is made a patch and run by mut.sh."""
import subprocess, sys, os, re, concurrent.futures as cf, queue
ns = {}
exec(open(sys.argv[1]).read(), ns)
nslots = int(sys.argv[2]) if len(sys.argv) > 2 else 2
os.makedirs("/tmp/muts", exist_ok=True)
slots = queue.Queue()
for i in range(nslots):
    slots.put(i + 1)
def one(m):
    name, f, old, new, ids = m
    src = open("/repo/" + f).read()
    if src.count(old) < 1:
        return name + ": OLD TEXT NOT FOUND"
    a, b = "/tmp/muts/%s.a" % name, "/tmp/muts/%s.b" % name
    open(a, "w").write(src)
    open(b, "w").write(src.replace(old, new, 1))
    d = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, a, b], capture_output=True, text=True).stdout
    p = "/tmp/muts/%s.patch" % name
    open(p, "w").write(d)
    os.unlink(a); os.unlink(b)
    s = slots.get()
    try:
        env = dict(os.environ, W=str(8 // nslots))
        r = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.sh"), str(s), p] + ids.split(), capture_output=True, text=True, env=env)
        return "\n".join(l.replace("/tmp/muts/", "") for l in (r.stdout + r.stderr).strip().split("\n"))
    finally:
        slots.put(s)
with cf.ThreadPoolExecutor(nslots) as ex:
    for r in ex.map(one, ns["MUTS"]):
        print(r, flush=True)
