#!/usr/bin/env python3
"""Builds harness binaries from /repo's working tree plus the stand-ins in /verif/shim.

Objects are cached by content: the key is a hash of the compile command and the stored dependency list is re-hashed
before an object is reused, so what counts is the text of every header/source that went in, never a time stamp.
"""
import os, sys, re, json, glob, hashlib, subprocess, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
CXX = "g++"

BASE = ["-std=c++17", "-g1", "-pthread", "-ffunction-sections", "-fdata-sections", "-w",
        "-I", VERIF + "/shim/include", "-I", REPO + "/include", "-I", REPO + "/generated/include"] + \
       sum([["-I", REPO + "/generated/%s/include" % d] for d in ("vm", "contract", "operation", "solution")], [])

PROFILES = {
    "fast": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR"],
    "asan_ub": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,shift,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
GEN_OPT = {"fast": ["-O0"], "asan": ["-O0"], "asan_ub": ["-O0"]}       # generated glue: never sanitized, -O0

EXTRA = [  # (regex on path, flags), as in CMakeLists.txt
    (r"sha256_ni", ["-msse4.2", "-msha"]), (r"sha256_avx2", ["-mavx2"]), (r"src/pos/.*\.cpp", []),
]

class BuildError(Exception):
    pass

_hash_cache = {}
_lock = threading.Lock()

def fhash(path):
    with _lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = None
    with _lock:
        _hash_cache[path] = h
    return h

def cmake_list(name):
    """source list of an add_library() block of the repository's CMakeLists.txt"""
    txt = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"add_library\(%s\s+(?:SHARED|STATIC)\s+([^)]*)\)" % re.escape(name), txt)
    return [w for w in m.group(1).split() if w.endswith(".cpp")]

MODULE_RE = re.compile(r"^(Node|Wallet|Router|Farmer|Harvester|TimeLord|ProofServer|WebAPI)(_|Base|Client|AsyncClient)")

def gen_files():
    fs = sorted(glob.glob(REPO + "/generated/src/*.cpp") + glob.glob(REPO + "/generated/*/src/*.cpp"))
    core = [f for f in fs if not MODULE_RE.match(os.path.basename(f)) and os.path.basename(f) != "package.cpp"]
    mod = [f for f in fs if MODULE_RE.match(os.path.basename(f))]
    pkg = [f for f in fs if os.path.basename(f) == "package.cpp"]
    return core, mod, pkg

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".%d.tmp" % os.getpid()
    open(tmp, "w").write(text)
    os.replace(tmp, path)

def unity(prefix, files, n):
    bins = [[0, []] for _ in range(n)]
    for f in sorted(files, key=lambda f: (-os.path.getsize(f), f)):
        b = min(bins, key=lambda b: b[0])
        b[0] += os.path.getsize(f) + 15000
        b[1].append(f)
    out = []
    for i, b in enumerate(bins):
        p = "%s/unity/%s%d.cpp" % (BUILD, prefix, i)
        write_if_changed(p, "".join('#include "%s"\n' % f for f in sorted(b[1])))
        out.append(p)
    return out

def units(sets):
    """list of (source, is_generated) for a list of set names"""
    out = []
    gcore, gmod, gpkg = gen_files()
    for s in sets:
        if s == "shim":
            out += [(VERIF + "/shim/src/vnx.cpp", False), (VERIF + "/shim/src/bech32.cpp", False)]
        elif s == "iface":
            out += [(REPO + "/" + f, False) for f in cmake_list("mmx_iface")]
            out += [(REPO + "/src/utils.cpp", False)] if os.path.exists(REPO + "/src/utils.cpp") and "src/utils.cpp" not in cmake_list("mmx_iface") else []
        elif s == "gen_core":
            out += [(f, True) for f in unity("core", gcore, 8)]
            txt = "".join(open(f).read() for f in gpkg if f.endswith("generated/src/package.cpp"))
            drop = lambda m: "" if MODULE_RE.match(m.group(1)) else m.group(0)
            txt = re.sub(r"[ \t]*vnx::register_type_code\(::mmx::(\w+)::static_create_type_code\(\)\);\n", drop, txt)
            write_if_changed(BUILD + "/unity/package_core.cpp", txt)
            out.append((BUILD + "/unity/package_core.cpp", True))
            out += [(f, True) for f in gpkg if not f.endswith("generated/src/package.cpp")]
        elif s == "gen_all":
            out += [(f, True) for f in unity("core", gcore, 8)] + [(f, True) for f in unity("mod", gmod, 24)]
            out += [(f, True) for f in gpkg]
        elif s == "modules":
            out += [(REPO + "/" + f, False) for f in cmake_list("mmx_modules") if not re.search(r"OCL_VDF|upnp_mapper|Node_tests", f)]
        elif s.startswith("mmx_"):
            out += [(REPO + "/" + f, False) for f in cmake_list(s)]
        elif s.endswith(".cpp"):
            out.append((s if s.startswith("/") else REPO + "/" + s, False))
        else:
            raise BuildError("unknown set " + s)
    seen = set(); res = []
    for u in out:
        if u[0] not in seen:
            seen.add(u[0]); res.append(u)
    return res

def compile_one(src, flags):
    cmd = [CXX] + BASE + flags
    for rx, fl in EXTRA:
        if re.search(rx, src):
            cmd += fl
    key = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:20]
    d = BUILD + "/obj"
    obj, meta = "%s/%s.o" % (d, key), "%s/%s.json" % (d, key)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj
        except Exception:
            pass
    os.makedirs(d, exist_ok=True)
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp], capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-3000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = [os.path.normpath(os.path.join(REPO, p)) for p in txt.split(":", 1)[1].split()]
    json.dump({p: fhash(p) for p in deps if not p.startswith("/usr/")}, open(meta + ".%d.tmp" % os.getpid(), "w"))
    os.replace("%s.%d.tmp" % (meta, os.getpid()), meta)
    os.replace(tmp, obj)
    os.remove(tmp + ".d")
    return obj

def build(name, harness, sets, profile="fast", defines=(), libs=("-lsecp256k1",), quiet=True):
    """compile + link; returns the binary's path"""
    us = units(sets)
    pf = PROFILES[profile]
    # put the slow ones first
    slow = ("Compiler", "WebAPI", "Node", "Wallet", "Router", "vm_interface", "unity")
    us.sort(key=lambda u: 0 if any(s in u[0] for s in slow) else 1)
    jobs = [(VERIF + "/" + h if not h.startswith("/") else h, pf + ["-I", VERIF + "/lib", "-I", VERIF + "/harness"] + ["-D" + d for d in defines]) for h in harness]
    # the stand-ins are trusted code: built once, shared by all profiles (they only see plain memory)
    jobs += [(s, (GEN_OPT[profile] if gen else pf)) for s, gen in us]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha1(("\0".join([name, profile] + sorted(objs)) + "".join(fhash(o) or "" for o in [])).encode()).hexdigest()[:12]
    h = hashlib.sha1()
    for o in objs:
        h.update(open(o, "rb").read())
    out = "%s/bin/%s-%s-%s" % (BUILD, name, key, h.hexdigest()[:12])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD + "/bin", exist_ok=True)
    for old in glob.glob("%s/bin/%s-%s-*" % (BUILD, name, key)):
        try: os.remove(old)
        except OSError: pass
    tmp = out + ".%d.tmp" % os.getpid()
    ld = [CXX, "-fuse-ld=lld"] + (["-fsanitize=address"] if profile == "asan" else ["-fsanitize=address,undefined"] if profile == "asan_ub" else [])
    r = subprocess.run(ld + ["-o", tmp] + objs + ["-Wl,--gc-sections", "-Wl,-z,muldefs"] + list(libs) + ["-pthread", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link failed: %s\n%s" % (name, r.stderr[-6000:]))
    os.replace(tmp, out)
    return out

CORE = ["shim", "iface", "gen_core", "mmx_vm", "mmx_db", "mmx_pos", "mmx_pos_verify"]
FULL = ["shim", "iface", "gen_all", "mmx_vm", "mmx_db", "mmx_pos", "mmx_pos_verify", "modules"]

# functions of the proof of space that harness/sim.h remembers the results of
POS_WRAP = ("-lsecp256k1",) + tuple("-Wl,--wrap=_ZN3mmx3pos" + x for x in ("13calc_mem_hashEPjPhi", "13gen_mem_arrayEPjPKhj", "6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib"))

if __name__ == "__main__":
    print(build("adhoc", sys.argv[1:2], FULL if len(sys.argv) > 2 and sys.argv[2] == "full" else CORE, sys.argv[3] if len(sys.argv) > 3 else "fast"))
