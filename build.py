#!/usr/bin/env python3
"""Builds build/simrun from /repo's current working tree and the simulator. Content-addressed object cache."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_OUT", V + "/build"); OBJ = V + "/build/obj"
os.makedirs(OUT, exist_ok=True); os.makedirs(OBJ, exist_ok=True)
lock = open(OUT + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
def pc(*a):
    return subprocess.run(["pkg-config", *a], capture_output=True, text=True).stdout.split()
INC = pc("--cflags", "volk", "libconfig", "libprotobuf-c", "libiio")
def rd(p): return open(p, "rb").read()
def hall(fs): 
    h = hashlib.sha256()
    for f in sorted(fs): h.update(f.encode()); h.update(rd(f))
    return h.hexdigest()
src = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
rh = hall(glob.glob(REPO + "/src/**/*.h", recursive=True))
sh = hall(glob.glob(V + "/sim/*.h") + glob.glob(V + "/sim/*.inc"))
fh = hall(glob.glob(V + "/sim/frozen/*.h"))
jobs = []
def job(cmd, f, hh):
    k = hashlib.sha256(("\0".join(cmd) + hh).encode() + rd(f)).hexdigest()[:32]
    o = OBJ + "/" + k + ".o"; jobs.append((cmd + ["-c", f, "-o"], o, f)); return o
objs = []
CC = ["clang", "-std=gnu99", "-g", "-fno-builtin", "-fno-omit-frame-pointer", "-fsanitize=address", "-ffp-contract=off", "-fno-pie", "-w"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
for f in src:
    rel = f[len(REPO) + 5:]
    if rel.startswith("sgpsdp/") and rel.endswith(("test.c",)): continue
    dsp = rel.startswith(("dsp/", "math/", "sgpsdp/")) or rel == "api.pb-c.c"
    cmd = CC + (["-O2", "-fsanitize-coverage=bb,trace-pc"] if dsp else ["-O1"] + COV) + (["-DSIM_MAIN_RENAMED"] if rel == "main.c" else []) + INC + ["-I" + REPO + "/src"]
    objs.append(job(cmd, f, rh))
CXX = ["clang++", "-std=c++17", "-O2", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-pie"] + INC + ["-I" + V + "/sim"]
for f in sorted(glob.glob(V + "/sim/*.cpp")):
    cmd = CXX if not f.endswith("/ref.cpp") else ["clang++", "-std=c++17", "-O2", "-g1", "-ffp-contract=off", "-fno-pie", "-I" + V + "/sim"]
    objs.append(job(cmd, f, sh + (fh if f.endswith("ref.cpp") else "")))
objs.append(job(["clang", "-std=gnu99", "-O2", "-g1", "-ffp-contract=off", "-fno-pie"] + INC, V + "/sim/volk_sim.c", sh))
for f in sorted(glob.glob(V + "/sim/frozen/*.c")):
    objs.append(job(["clang", "-std=gnu99", "-w", "-O2", "-ffp-contract=off", "-fno-pie", "-include", V + "/sim/frozen/rename.h"], f, fh))
def comp(j):
    cmd, o, f = j
    if os.path.exists(o): os.utime(o); return None
    t = o + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + [t], capture_output=True, text=True)
    if r.returncode: return f + "\n" + r.stderr
    if "-DSIM_MAIN_RENAMED" in cmd:
        r = subprocess.run(["objcopy", "--redefine-sym", "main=modem_main", t], capture_output=True, text=True)
        if r.returncode: return f + "\n" + r.stderr
    os.rename(t, o); return None
with ThreadPoolExecutor(8) as ex: errs = [e for e in ex.map(comp, jobs) if e]
if errs: sys.stderr.write("BUILD FAILED\n" + "\n".join(errs)); sys.exit(2)
wl = rd(V + "/sim/wraplist.txt").decode().split()
link = ["clang++", "-fsanitize=address", "-no-pie", "-g"] + objs + ["-Wl,--wrap=" + w for w in wl] + ["/usr/lib/x86_64-linux-gnu/libprotobuf-c.a", "-lvolk", "-lconfig", "-lm", "-ldl", "-lpthread"]
key = hashlib.sha256("\0".join(link).encode()).hexdigest()
exe = OUT + "/simrun"
if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
    r = subprocess.run(link + ["-o", exe + ".tmp"], capture_output=True, text=True)
    if r.returncode: sys.stderr.write("LINK FAILED\n" + r.stderr[-6000:]); sys.exit(2)
    os.rename(exe + ".tmp", exe); open(exe + ".key", "w").write(key)
# keep the cache small
fs = sorted(glob.glob(OBJ + "/*.o"), key=os.path.getmtime)
for f in fs[:-600]: os.unlink(f)
