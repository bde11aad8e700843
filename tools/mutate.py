"""Which small changes of the code under contract go unnoticed?  (an aid for finding gaps; no check uses it)
usage: VERIF_REPO=/tmp/w python3-vt tools/mutate.py OUTDIR N SEED PROP...   -> OUTDIR/PROP.mut
Mutates lines that the contracts execute, in private copies of the repository, runs the native contracts and then the prover."""
import sys, os, re, json, random, subprocess, shutil, multiprocessing.pool as mpp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
props = sys.argv[4:]
sys.argv = ["x", out]
import coverage as C
from irvc import run as R

OPS = [(r'\+=', '-='), (r'-=', '+='), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r'\*', '+'), (r'\+', '-'), (r'(?<![->])-(?![->])', '+'),
       (r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'),
       (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '1'),
       (r'\b3\b', '2'), (r'0\.5\b', '0.25'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()')]

def mutants(f, lines, rng):
    src = open(os.path.join(R.REPO, f)).read().split("\n")
    res = []
    for l in lines:
        s = src[l - 1]
        code = s.split("//")[0]
        if not code.strip() or code.strip().startswith("#") or '"' in code or "std::c" in code or "profiler" in code.lower():
            continue
        for a, b in OPS:
            for m in re.finditer(a, code):
                if "for (" in code and a in (r'\bi\b', r'\bj\b', r'\+'): continue
                if "->" in code[m.start()-1:m.end()+1] or "++" in code[m.start()-1:m.end()+1] or "--" in code[m.start()-1:m.end()+1]: continue
                res.append((f, l, s, s[:m.start()] + b + s[m.end():]))
        t = code.strip()
        if t.endswith(";") and re.match(r'[\w\.\->\(\)\[\]]+(\(| [\+\-\*/]?= )', t) and not t.startswith(("return", "for", "if", "else")):
            res.append((f, l, s, re.match(r'\s*', s).group(0) + ";"))
        m = re.match(r'(\s*(?:else )?if \()(.*)(\)[^)]*)$', code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            res.append((f, l, s, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
    return res

def covered(prop):
    tot = {}
    for c in R.contract_files(prop):
        for f, d in C.one(c, out).items():
            for k, v in d.items():
                tot.setdefault(f, {}).setdefault(k, 0)
                tot[f][k] += v[0]
    lines = {}
    for f, d in tot.items():
        n = open(os.path.join(R.REPO, f)).read().count("\n") + 1
        st = [None] * (n + 2)
        for k, v in sorted(d.items(), key=lambda x: (x[0][0], x[0][1], -x[0][2], -x[0][3])):
            for l in range(k[0], k[2] + 1):
                if l <= n: st[l] = v
        ls = [l for l in range(1, n + 1) if st[l]]
        if ls: lines[f] = ls
    return lines

def runm(a):
    k, prop, (f, l, old, new) = a
    w = copies.pop()
    try:
        p = os.path.join(w, f)
        txt = open(p).read()
        src = txt.split("\n")
        src[l - 1] = new
        open(p, "w").write("\n".join(src))
        env = dict(os.environ, VERIF_REPO=w)
        try:
            for opt in (["--native-only"], []):
                r = subprocess.run(["python3-vt", "-m", "irvc.run", prop, "--nproc", "1", "--seed-scratch", w] + opt, cwd=ROOT, env=env, capture_output=True, text=True, timeout=500)
                if "BUILD FAILED" in r.stdout: res = "nobuild"; break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = "killed-native" if opt else ("killed-sym" + ("-nofail" if "no-failing" in r.stdout else "")); break
            else:
                res = "SURVIVED rc=%d %s" % (r.returncode, " ".join(x for x in r.stdout.split("\n") if x.startswith("undecided"))[:300])
        except subprocess.TimeoutExpired:
            res = "timeout"
        open(p, "w").write(txt)
    finally:
        copies.append(w)
    return (prop, f, l, old.strip(), new.strip(), res)

NP = int(os.environ.get("NP","8"))
copies = []
for i in range(NP):
    w = "/tmp/mut%d" % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("src", "Apps", "3rdparty"):
        subprocess.run(["cp", "-a", os.path.join(R.REPO, d), w], check=True)
    copies.append(w)
for prop in props:
    rng = random.Random("%s-%d" % (prop, seed))
    cov = covered(prop)
    tus = set(t for c in R.contract_files(prop) for t in R.meta(c)["TU"])
    hd = set(os.path.splitext(t)[0] + ".h" for t in tus)
    pool = []
    extra = {"C07": ["src/LinAlg/matrix.h", "src/LinAlg/matrixnd.h"]}.get(prop, [])
    for f, ls in sorted(cov.items()):
        if f in tus or f in hd or f in extra:
            pool += mutants(f, ls, rng)
    byline = {}
    for m in pool: byline.setdefault((m[0], m[1]), []).append(m)
    ks = sorted(byline); rng.shuffle(ks)
    sel = [rng.choice(byline[k]) for k in ks[:N]]
    with mpp.ThreadPool(NP) as p:
        rs = p.map(runm, [(k, prop, m) for k, m in enumerate(sel)], chunksize=1)
    with open(os.path.join(out, prop + ".mut"), "a") as o:
        for r in rs:
            o.write("%s %s:%d\n   %s\n   %s\n" % (r[5], r[1], r[2], r[3], r[4]))
    cnt = {}
    for r in rs: cnt[r[5].split()[0]] = cnt.get(r[5].split()[0], 0) + 1
    print(prop, len(pool), cnt, flush=True)
for w in copies: shutil.rmtree(w, ignore_errors=True)
