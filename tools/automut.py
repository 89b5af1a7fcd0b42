#!/usr/bin/env python3
"""tools/automut.py SEED N SLOTS [FILE...]: dev tool. Makes N random small mutants
of the library and runs the checks that concern the file, until one catches it.
Prints the survivors with their change."""
import subprocess, sys, os, re, random, concurrent.futures as cf, queue
IDS = {
 'Event': 'C01 C06 C05', 'Document': 'C04 C01 C11 C08 C12 C13 C03 C05 C14', 'Object': 'C05 C08 C13 C01 C16 C26',
 'Media': 'C06 C07 C01 C08 C09 C10 C28', 'MediaSettings': 'C10', 'Context': 'C03 C01 C02 C05 C08',
 'Switch': 'C12 C01 C03 C16', 'Composition': 'C03 C16', 'Predicate': 'C11 C24 C16', 'Parser': 'C16 C15 C14 C17 C11 C04 C05 C18',
 'ParserLua': 'C24', 'Player': 'C18 C19 C28 C32 C07 C10 C27 C30 C23', 'PlayerAnimator': 'C28', 'PlayerText': 'C19 C18 C32', 'PlayerImage': 'C19 C18 C32',
 'Formatter': 'C23 C02 C19 C18 C32', 'PlayerVideo': 'C27', 'PlayerSigGen': 'C27', '../src/ginga': 'C31', 'PlayerLua': 'C25', 'PlayerRemote': 'C26', 'WebServices': 'C26', 'aux-gl': 'C32', 'aux-ginga': 'C20 C21 C22 C29 C14'}
for f in 'MainWindow Draw SaveLoadSettings FullscreenWindow TvControlWindow gingagui'.split(): IDS['../src/gingagui/' + f] = 'C33'
seed, n, nslots = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or list(IDS)
BASE = os.environ.get('BASE', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(seed)
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'push_back', 'push_front'),
       (r'push_front', 'push_back'), (r'\bcontinue;', 'break;'), (r'\bbreak;', ';'), (r'\bSTART\b', 'STOP'), (r'\bSTOP\b', 'ABORT'), (r'\bPAUSE\b', 'RESUME'),
       (r'\bRESUME\b', 'PAUSE'), (r'\bOCCURRING\b', 'PAUSED'), (r'\bisSleeping\b', 'isPaused'), (r'\bisOccurring\b', 'isPaused'), (r'\bleft\b', 'top'), (r'\bwidth\b', 'height'),
       (r'\bbegin\b', 'end'), (r'\breturn false;', 'return true;'), (r'\breturn true;', 'return false;'), (r'if \(', 'if (!')]
def mutants(f):
    src = open('%s/lib/%s.cpp' % (BASE, f)).read().split('\n')
    out, incomment = [], False
    for i, l in enumerate(src):
        s = l.strip()
        if '/*' in s: incomment = True
        if '*/' in s: incomment = False; continue
        if incomment or not s or s.startswith(('//', '#', '*', 'g_assert', 'TRACE', '{', '}', 'case ', 'static', 'default')) or 'ERROR' in s: continue
        if any(x in s for x in ('g_assert', 'TRACE', 'WARNING', 'offSet', 'gtk_grid', '_margin_', 'icon')): continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2: continue
                nl = l[:m.start()] + b + l[m.end():]
                if a == 'if \\(':
                    if not s.endswith(')'): continue
                    nl = l.replace('if (', 'if (!(', 1) + ')'
                out.append((i, nl))
        if re.match(r'^[\w>\-\.:\(\) ]+(\(|=|\+\+|\-\-).*;$', s) and not re.match(r'^(return|const|auto|int|string|bool|double|Time|Event|list|map|set|size_t|unsigned|guint|gint|char|Context|Object|Media|Switch|Composition|xmlNode|Predicate|ParserElt|Action|GError)\b', s) and s.count('(') == s.count(')'):
            out.append((i, re.match(r'^\s*', l).group(0) + ';'))
    return src, out
pool = []
for f in files:
    src, ms = mutants(f)
    for i, nl in ms:
        pool.append((f, i, src[i], nl))
rnd.shuffle(pool)
# spread over the files
per, sel = {}, []
for p in pool:
    if per.get(p[0], 0) < max(1, n * 2 // len(files)):
        per[p[0]] = per.get(p[0], 0) + 1
        sel.append(p)
sel = sel[:n]
os.makedirs('/tmp/am', exist_ok=True)
slots = queue.Queue()
for i in range(nslots): slots.put(20 + i)
def one(kp):
    k, (f, i, old, new) = kp
    path = os.path.normpath('lib/%s.cpp' % f)
    src = open(BASE + '/' + path).read().split('\n')
    a, b, p = ['/tmp/am/%d.%d.%s' % (seed, k, x) for x in ('a', 'b', 'patch')]
    open(a, 'w').write('\n'.join(src)); src[i] = new; open(b, 'w').write('\n'.join(src))
    d = subprocess.run(['diff', '-u', '--label', 'a/' + path, '--label', 'b/' + path, a, b], capture_output=True, text=True).stdout
    open(p, 'w').write(d); os.unlink(a); os.unlink(b)
    s = slots.get()
    try:
        env = dict(os.environ, W=str(8 // nslots), FIRST='1')
        r = subprocess.run([V + '/tools/mut.sh', str(s), p] + IDS[f].split(), capture_output=True, text=True, env=env)
        o = r.stdout
    finally:
        slots.put(s)
    if 'build failed' in o or 'cannot apply' in o: return 'BUILD %d %s:%d' % (k, f, i + 1)
    if 'CAUGHT' in o:
        l = [x for x in o.split('\n') if 'CAUGHT' in x][0]
        return 'caught %d %s:%d %s | %s' % (k, f, i + 1, new.strip()[:60], l.split(' ', 1)[1][:90])
    return 'SURVIVED %d %s:%d\n   - %s\n   + %s' % (k, f, i + 1, old.strip(), new.strip())
with cf.ThreadPoolExecutor(nslots) as ex:
    for r in ex.map(one, list(enumerate(sel))):
        print(r, flush=True)
