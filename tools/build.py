#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree: build.py [plain|asan|tsan] -> prints the binary's path."""
import fcntl, glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HBSIM_REPO", "/repo")
flavour = sys.argv[1] if len(sys.argv) > 1 else "plain"
OUT = os.path.join(VERIF, "build", flavour if REPO == "/repo" else flavour + "-" + re.sub(r"\W", "_", REPO))
os.makedirs(OUT, exist_ok=True)
lock = open(os.path.join(OUT, ".lock"), "w")
fcntl.flock(lock, fcntl.LOCK_EX)

SRC = REPO + "/core/src"
dirs = [SRC] + sorted(d for d in glob.glob(SRC + "/**/", recursive=True) if "/app/" not in d)
core = sorted(f for f in glob.glob(SRC + "/**/*.cpp", recursive=True) if "/app/" not in f)
sim = sorted(glob.glob(VERIF + "/sim/*.cpp"))
ver = ("0", "0", "0")
try:
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(REPO + "/CMakeLists.txt").read())
    if m:
        ver = m.groups()
except OSError:
    pass
san = {"plain": "", "asan": "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g1", "tsan": "-fsanitize=thread -g1"}[flavour]
flags = ("-std=c++23 -O1 -DNDEBUG -fno-strict-aliasing -msse2 -D_GLIBCXX_ASSERTIONS -w -pthread " + san +
         " -DHYDROBRICKS_MAJOR_VERSION=%s -DHYDROBRICKS_MINOR_VERSION=%s -DHYDROBRICKS_PATCH_VERSION=%s" % ver)
wrap = "-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free nc_get_att_string nc_free_string nc_inq_attlen nc_close_memio nc_close nc_open nc_create nc_open_mem nc_create_mem".split()) + " " if flavour == "plain" else ""
inc = " ".join("-I" + d.rstrip("/") for d in dirs) + " -isystem /usr/include/eigen3 -I" + VERIF + "/sim"
n = ["builddir = " + OUT, "flags = " + flags, "inc = " + inc,
     "rule pch\n  command = g++ $flags -isystem /usr/include/eigen3 -x c++-header $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc",
     "rule cxx\n  command = g++ $flags -I%s/pchdir -include pch.h $inc -c $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc" % OUT,
     "rule plaincxx\n  command = g++ -std=c++23 -O1 -fno-strict-aliasing -w -pthread -c $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc",
     "rule link\n  command = g++ $flags " + wrap + "-rdynamic $in -o $out -lyaml-cpp -lnetcdf -ldl\n"]
os.makedirs(OUT + "/pchdir", exist_ok=True)
src_pch = OUT + "/pchdir/pch.h"
text = open(VERIF + "/sim/pch.h").read()
if not os.path.exists(src_pch) or open(src_pch).read() != text:
    open(src_pch, "w").write(text)
n.append("build %s.gch: pch %s" % (src_pch, src_pch))
objs = []
for f in core:
    o = OUT + "/core/" + os.path.relpath(f, SRC).replace("/", "_")[:-4] + ".o"
    n.append("build %s: cxx %s | %s.gch" % (o, f, src_pch))
    objs.append(o)
for f in sim:
    o = OUT + "/sim/" + os.path.basename(f)[:-4] + ".o"
    if os.path.basename(f) in ("sched.cpp", "iosim.cpp"):
        n.append("build %s: plaincxx %s" % (o, f))
    else:
        n.append("build %s: cxx %s | %s.gch" % (o, f, src_pch))
    objs.append(o)
n.append("build %s/hbsim: link %s" % (OUT, " ".join(objs)))
new = "\n".join(n) + "\n"
bn = OUT + "/build.ninja"
if not os.path.exists(bn) or open(bn).read() != new:
    open(bn, "w").write(new)
r = subprocess.run(["ninja", "-C", OUT, "-j", str(max(8, os.cpu_count() or 8))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode != 0:
    sys.stderr.write("\n".join(l[:300] for l in r.stdout.splitlines() if "error" in l or "undefined" in l)[-3000:] or r.stdout[-3000:])
    sys.exit(2)
print(OUT + "/hbsim")
