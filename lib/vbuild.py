"""Builds fl from /repo's working tree, out of tree, in several variants.

    python3 lib/vbuild.py VARIANT...        (prints the installed prefix)

Nothing in /repo is read but tracked-style sources and nothing is written there.
Build products live under $VERIF_BUILD (default /verif/.build), keyed by a hash
of the sources and of the flags, so that an unchanged tree is built once.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ["-g", "-fno-omit-frame-pointer", "-fPIC", "-w", "-DDEBUG",
          "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS",
          "-DVERSION_DATE=\"verif\"", "-DFL_BINARY=1", "-DVOSS_VERIF=1"]
ASAN = ["-fsanitize=address"]
# signed overflow, shifts and alignment stay off: the arithmetic they flag in the
# unchanged tree (hash mixing, packed words) has no observable effect.
UBSAN = ["-fsanitize=bounds,null,vla-bound,integer-divide-by-zero,return,"
         "unreachable,bool,enum,object-size", "-fno-sanitize-recover=all"]
# variant: (cc, cxx, opt+flags, link flags)
VARIANTS = {
    # what a user runs: the project's own optimisation level (none)
    "plain": ("gcc", "g++", ["-O0"], []),
    # fast oracle build
    "fast": ("gcc", "g++", ["-O1", "-fwrapv"], []),
    "survey": ("gcc", "g++", ["-O1", "-fsanitize=address,undefined", "-fsanitize-recover=address,undefined"],
               ["-fsanitize=address,undefined"]),
    "asan": ("gcc", "g++", ["-O1", "-fwrapv"] + ASAN + UBSAN, ASAN + ["-fsanitize=undefined"]),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


SRC_DIRS = ["src/lib", "src/include", "src/bin/fl", "src/bin/fl/scripts",
            "src/external/minisat/minisat", "src/vosslib", "IDVII/src/fl",
            "src/bin/functor", "src/bin/ignore_signals", "src/bin/yaccfl",
            "src/external/yosys/write_pexlif"]
GENERATED = {"prefs.h", "prefs_ext.h", "abi_version.h", "language.tab.c",
             "language.tab.h", "lex.yy.c", "template"}


def sources():
    out = []
    for d in SRC_DIRS:
        top = os.path.join(REPO, d)
        if d == "src/bin/fl":
            files = [os.path.join(top, f) for f in os.listdir(top)]
        else:
            files = [os.path.join(p, f) for p, _, fs in os.walk(top) for f in fs]
        for f in files:
            b = os.path.basename(f)
            if not os.path.isfile(f) or b in GENERATED:
                continue
            if "/design/generics/" in f or "/idv_tests/" in f:
                continue
            if "/functor/tst" in f or b.endswith((".so", ".d")):
                continue
            if d in ("src/vosslib", "IDVII/src/fl", "src/bin/yaccfl") or b.endswith((".c", ".cc", ".h", ".y", ".tcl",
                                                 ".awk", ".fl", ".l")) or b in ("lexer", "Makefile"):
                out.append(f)
    return sorted(set(out))


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def objects_of(mk):
    txt = open(mk).read().replace("\\\n", " ")
    out = []
    for var in ("LOBJ", "OBJ"):
        m = re.search(r"^%s\s*=(.*)$" % var, txt, re.M)
        if m:
            out.append([o[:-2] for o in m.group(1).split()])
        else:
            out.append([])
    return out


def build(variant):
    cc, cxx, flags, lflags = VARIANTS[variant]
    files = sources()
    key = hashlib.sha256((tree_hash(files) + repr(VARIANTS[variant]) + repr(COMMON)).encode()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    prefix = os.path.join(CACHE, "%s-%s" % (variant, key))
    lock = open(os.path.join(CACHE, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(prefix + "/ok"):
            return prefix
        for old in glob.glob(os.path.join(CACHE, variant + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        _build(prefix, cc, cxx, flags, lflags, files)
        open(prefix + "/ok", "w").close()
        return prefix
    finally:
        lock.close()


def _build(prefix, cc, cxx, flags, lflags, files):
    work = prefix + "/w"
    for f in files:
        dst = os.path.join(work, os.path.relpath(f, REPO))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(f, dst)
    fl = work + "/src/bin/fl"
    scripts = fl + "/scripts"
    sh(["tclsh", "make_prefs.tcl"], cwd=fl)
    if not os.path.exists(fl + "/prefs_ext.h"):
        raise BuildError("prefs_ext.h not made")
    sh(["make", "-s", "template"], cwd=scripts)
    sh(["bison", "-d", "language.y"], cwd=fl)
    sh(["flex", "-l", "lexer"], cwd=fl)
    sh(["make", "-s", "abi_version.h"], cwd=fl)
    inc = ["-I" + work + "/src/include", "-I" + work + "/src/external/minisat",
           "-I" + fl, "-DROOT_DIR=\"%s\"" % REPO, "-DDEFAULT_PLUGIN_DIR=\"%s/vosslib\"" % prefix]
    inc += subprocess.run(["pkg-config", "--cflags", "tk"], stdout=subprocess.PIPE).stdout.decode().split()
    lobj, obj = objects_of(fl + "/Makefile")
    libo = objects_of(work + "/src/lib/Makefile")[1]
    odir = prefix + "/o"
    os.makedirs(odir)
    jobs = []

    def comp(src, out, std, extra=()):
        c = cxx if src.endswith(".cc") else cc
        cmd = [c] + COMMON + list(flags) + list(extra) + ([std] if c == cc else ["-fpermissive"]) + inc + ["-c", src, "-o", out]
        jobs.append((os.path.getsize(src), cmd, os.path.dirname(src)))
        return out

    fo, lo, mo, bo = [], [], [], []
    for o in lobj:
        fo.append(comp("%s/%s.c" % (fl, o), "%s/fl_%s.o" % (odir, o), "-std=gnu99"))
    for o in obj:
        mo.append(comp("%s/%s.cc" % (fl, o), "%s/fl_%s.o" % (odir, o), ""))
    for o in libo:
        lo.append(comp("%s/src/lib/%s.c" % (work, o), "%s/lib_%s.o" % (odir, o), "-std=gnu99"))
    ms = work + "/src/external/minisat/minisat"
    for f in ("core/Solver", "simp/SimpSolver", "utils/Options", "utils/System"):
        bo.append(comp("%s/%s.cc" % (ms, f), "%s/ms_%s.o" % (odir, f.replace("/", "_")), "",
                       ["-O2", "-DNDEBUG"]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(j[1], cwd=j[2]), jobs))
    b = prefix + "/bin"
    os.makedirs(b)
    fun = work + "/src/bin/functor"
    sh(["flex", "lexer"], cwd=fun)
    jobs2 = [[cc, "-O1", "-w", "-o", b + "/functor", "lex.yy.c"],
             [cc, "-w", "-o", b + "/ignore_signals", "../ignore_signals/ignore_signals.c"]]
    for j in jobs2:
        sh(j, cwd=fun)
    shutil.copy(work + "/src/bin/yaccfl/yaccfl", b)
    os.chmod(b + "/yaccfl", 0o755)
    os.makedirs(prefix + "/src")
    shutil.copy(work + "/src/external/yosys/write_pexlif/write_pexlif.cc", prefix + "/src/")
    sh([cc, "-shared"] + lflags + ["-o", b + "/libfl.so"] + fo)
    sh(["ar", "rcs", odir + "/lib.a"] + lo + bo)
    sh([cxx] + lflags + ["-Wl,-rpath," + b, "-o", b + "/fl"] + mo +
       [b + "/libfl.so", odir + "/lib.a", "-lz", "-lncurses", "-ldl", "-ledit", "-lX11"])
    for f in ("builtins.fl", "preamble.fl", "front_end.tcl", "utils.tcl", "prefs.tcl"):
        shutil.copy(fl + "/" + f, b)
    shutil.copytree(work + "/src/vosslib", prefix + "/vosslib")
    shutil.copy(work + "/src/bin/yaccfl/yaccfl.fl", prefix + "/vosslib/")
    shutil.copytree(work + "/IDVII", prefix + "/IDVII")
    shutil.rmtree(work)
    shutil.rmtree(odir)


def generics(prefix):
    """The generic pexlifs ste.fl's design library reads, made as its Makefile does."""
    d = prefix + "/IDVII/src/fl/design"
    lock = open(prefix + "/lock-generics", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(prefix + "/ok-generics"):
            shutil.rmtree(d + "/generics", ignore_errors=True)
            env = dict(os.environ, USER="root", HOME="/root",
                       ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0")
            subprocess.run([prefix + "/bin/fl", "-noX", "-q", "-f", "make_generic_pexlifs.fl"],
                           cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
            open(prefix + "/ok-generics", "w").close()
    finally:
        lock.close()


if __name__ == "__main__":
    for v in sys.argv[1:]:
        print(build(v))
