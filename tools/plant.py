#!/usr/bin/env python3
"""plant.py [--tests] [--nocheck] ID...: tries seeded/ID in a scratch copy of /repo: applies the
patch, builds, runs demo.sh with and without it, the property's check, and with --tests
the stable tests.  Prints one line per seed.  (A developer's tool: no check uses it.)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = "/tmp/plant"


def sh(cmd, **k):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def copy(dst):
    os.makedirs(dst)
    subprocess.run(["bash", "-c", "tar -C /repo --exclude=./.git --exclude=./_vp --exclude='*.o' -cf - . | tar -C '%s' -xf -" % dst], check=True)


def install(repo, bld):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bld)
    p = sh(["python3", V + "/lib/vbuild.py", "plain"], env=env)
    if p.returncode:
        return p.stdout.decode(errors="replace")[-1500:]
    pre = p.stdout.decode().strip().split("\n")[-1]
    for n in ("bin", "vosslib"):
        shutil.rmtree(repo + "/" + n, ignore_errors=True)
        shutil.copytree(pre + "/" + n, repo + "/" + n, symlinks=True)
    # generics as the real build has them
    shutil.copytree("/repo/IDVII/src/fl/design/generics", repo + "/IDVII/src/fl/design/generics", dirs_exist_ok=True)
    for f in ("write_pexlif.so",):
        if os.path.exists("/repo/bin/" + f):
            shutil.copy("/repo/bin/" + f, repo + "/bin/")
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    os.makedirs(TOP, exist_ok=True)
    base = TOP + "/base"
    shutil.rmtree(base, ignore_errors=True)
    copy(base)
    err = install(base, TOP + "/base.b")
    if err:
        print("base does not build", err)
        return
    for i in args:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        repo, bld = TOP + "/" + i, TOP + "/" + i + ".b"
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree(base, repo, symlinks=True)
        res = []
        p = sh(["patch", "-p1", "-i", d + "/patch.diff"], cwd=repo)
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout.decode()[-500:])
            continue
        err = install(repo, bld)
        if err:
            print(i, "DOES NOT BUILD", err)
            continue
        env = dict(os.environ, USER="root", HOME="/root")
        a = sh(["timeout", "-s", "KILL", "300", "bash", d + "/demo.sh"], cwd=base, env=env)
        b = sh(["timeout", "-s", "KILL", "300", "bash", d + "/demo.sh"], cwd=repo, env=env)
        res.append("demo base=%d patched=%d%s" % (a.returncode, b.returncode, "" if a.returncode == 0 and b.returncode else
                                                   "  <<<< BAD DEMO\n" + (a.stdout + b.stdout).decode(errors="replace")[-800:]))
        if "--nocheck" not in opts:
            cenv = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bld)
            for pid in [meta["property"]] + [o[2:] for o in opts if re.match(r"--C\d+$", o)]:
                c = sh(["timeout", "-s", "KILL", "900", "python3", V + "/checks/%s.py" % pid.lower()], cwd=V, env=cenv)
                o = c.stdout.decode(errors="replace")
                res.append("%s rc=%d %s" % (pid, c.returncode, "CAUGHT" if "VIOLATION property=" + pid in o else "missed"))
                m = re.search(r"VIOLATION.*\n(.*)", o)
                if m:
                    res.append(m.group(1)[:160])
                elif c.returncode:
                    res.append(o[-300:])
        if "--tests" in opts:
            res.append(tests(repo))
        print(i, "|", " | ".join(res))
        sys.stdout.flush()
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(bld, ignore_errors=True)


def diff(a, b):
    return sh(["diff", "-rq", a, b]).returncode


def tests(repo):
    s = open("/opt/vp/run_tests.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
    open(repo + ".rt.py", "w").write(s)
    os.makedirs(repo + "/_vp", exist_ok=True)
    env = dict(os.environ, HOME="/root", USER="root", LOGNAME="root", LANG="C.UTF-8",
               PATH=repo + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    out = repo + "/_vp/results.txt"
    sh(["python3", repo + ".rt.py", out], env=env)
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = {l.split()[1] for l in open(out) if l.startswith("PASS")}
    os.remove(repo + ".rt.py")
    if os.environ.get("KEEPLOGS"):
        shutil.copytree(repo + "/_vp/logs", "/tmp/plant/logs", dirs_exist_ok=True)
    bad = sorted(st - ok)
    return "tests ok" if not bad else "TESTS FAIL %d: %s" % (len(bad), bad[:6])


main()
