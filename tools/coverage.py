"""Which lines of the repository do the contracts of a property execute?  (an aid for finding gaps; no check uses it)
usage: coverage.py OUTDIR PROP...   -> OUTDIR/PROP.txt, uncovered lines of the anchor files, per function"""
import sys, os, re, json, subprocess, multiprocessing.pool as mpp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irvc import run as R
B = "/usr/lib/llvm-18/bin/"

def one(cfile, out):
    w = os.path.join(out, os.path.basename(cfile)[:-4])
    os.makedirs(w, exist_ok=True)
    b = R.Build(cfile, w)
    fl = [x for x in b.fl if x not in ("-fsanitize=address", "-Xclang", "-disable-llvm-passes", "-O1")] + ["-O0", "-fprofile-instr-generate", "-fcoverage-mapping"]
    objs, js = [], []
    for t in b.m["TU"]:
        js.append((os.path.join(R.REPO, t), os.path.join(w, re.sub(r'\W', '_', t) + ".o")))
    js.append((cfile, os.path.join(w, "contract.o")))
    with mpp.ThreadPool(8) as p:
        p.map(lambda j: subprocess.run([R.CXX] + fl + ["-c", "-ffunction-sections", "-fdata-sections", j[0], "-o", j[1]], check=True), js)
    tab = os.path.join(w, "table.cpp")
    cs = b.contracts()
    with open(tab, "w") as f:
        f.write("struct Entry { const char* name; void (*f)(); };\n")
        for c in cs:
            f.write('extern "C" void %s();\n' % c)
        f.write("Entry vc_table[] = {%s{nullptr,nullptr}};\n" % "".join('{"%s",%s},' % (c, c) for c in cs))
    exe = os.path.join(w, "exe")
    pre = os.path.join(w, "pre.h")
    open(pre, "w").write('#include <unistd.h>\n#include <cstdlib>\nextern "C" int __llvm_profile_write_file(void);\n#define _exit(x) (__llvm_profile_write_file(), ::_Exit(x))\n')
    subprocess.run([R.CXX, "-O0", "-w", "-std=gnu++20", "-I" + os.path.join(R.ROOT, "include"), "-fprofile-instr-generate", "-include", pre,
                    tab, os.path.join(R.ROOT, "support/native.cpp")] + [j[1] for j in js] +
                   ["-o", exe, "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-llapack", "-lblas"], check=True)
    def go(c):
        env = dict(R.NENV, LLVM_PROFILE_FILE=os.path.join(w, c + ".profraw"))
        subprocess.run([exe, "random", c, "1", "300", os.path.join(w, c + ".dump"), "5"], env=env, capture_output=True, timeout=60)
    with mpp.ThreadPool(8) as p:
        p.map(go, cs)
    raw = [os.path.join(w, c + ".profraw") for c in cs if os.path.exists(os.path.join(w, c + ".profraw"))]
    miss = [c for c in cs if not os.path.exists(os.path.join(w, c + ".profraw"))]
    if miss: print("no profile:", miss)
    prof = os.path.join(w, "p.profdata")
    subprocess.run([B + "llvm-profdata", "merge", "-o", prof] + raw, check=True)
    j = json.loads(subprocess.run([B + "llvm-cov", "export", exe, "-instr-profile", prof], capture_output=True, text=True, check=True).stdout)
    cov = {}
    for fn in j["data"][0]["functions"]:
        for r in fn["regions"]:
            if r[7] != 0: continue
            f = fn["filenames"][r[5]]
            if not f.startswith(R.REPO): continue
            cov.setdefault(f[len(R.REPO)+1:], {}).setdefault(tuple(r[:4]), [0, fn["name"]])
            cov[f[len(R.REPO)+1:]][tuple(r[:4])][0] += r[4]
    return cov

out = sys.argv[1]
for prop in sys.argv[2:]:
    tot = {}
    for c in R.contract_files(prop):
        for f, d in one(c, out).items():
            for k, v in d.items():
                t = tot.setdefault(f, {}).setdefault(k, [0, v[1]])
                t[0] += v[0]
    with open(os.path.join(out, prop + ".txt"), "w") as o:
        for f, d in sorted(tot.items()):
            un = sorted(k for k, v in d.items() if v[0] == 0)
            hit = sum(1 for v in d.values() if v[0])
            o.write("== %s regions %d hit %d\n" % (f, len(d), hit))
            if hit == 0: continue
            src = open(os.path.join(R.REPO, f)).read().split("\n")
            last = None
            for k in un:
                fn = subprocess.run(["c++filt", d[k][1].split(":")[-1]], capture_output=True, text=True).stdout.strip()
                if fn != last:
                    o.write("  -- %s\n" % fn[:150]); last = fn
                o.write("     %d-%d: %s\n" % (k[0], k[2], src[k[0]-1].strip()[:110]))
    print(prop, "done")
