"""Common machinery of the checks: running fl, collecting what it was observed
to do, deciding it against an expectation, and reporting (see DESIGN.md)."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild  # noqa: E402

JOBS = 8
PRELUDE = r'''
let __p i f =
    ((let s = f () in
      (strlen s = (0-1)) fseq (fprintf stdout "\n@@%d=%s@!@\n" i s))
     gen_catch (\m. fprintf stdout "\n@@%d!%s@!@\n" i m));
let __b f = (f == T) => "T" | (f == F) => "F" | "?";
letrec __l pr [] = "" /\ __l pr (x:xs) = (pr x)^(empty xs => "" | (";"^(__l pr xs)));
let __L pr l = "["^(__l pr l)^"]";
let __pp p1 p2 (a,b) = "("^(p1 a)^","^(p2 b)^")";
letrec __multi [] = "" /\ __multi (f:fs) =
    ((let s = f () in (strlen s = (0-1)) fseq ("="^s)) gen_catch (\m. "!"^m))^"\n@&@\n"^(__multi fs);
let __s s = sprintf "\"%s\"" s;
'''
MARK = re.compile(r"\n@@(\d+)([=!])(.*?)@!@\n", re.S)


class Harness(Exception):
    """The check itself failed: neither held nor violated."""


class Case:
    __slots__ = ("key", "expr", "expect", "pre", "trivial", "out", "note", "whole")

    def __init__(self, key, expr, expect, pre="", trivial=False, note=""):
        self.key, self.expr, self.expect = key, expr, expect
        self.pre, self.trivial, self.out, self.note = pre, trivial, None, note


class Multi:
    """A case with several questions about the same definitions: [(key, expr, expect)]."""

    def __new__(cls, pre, parts, force=""):
        c = Case("multi", "%s(__multi [%s])" % (force, ",\n  ".join("(\\q. %s)" % p[1] for p in parts)), None, pre=pre)
        c.note = parts
        return c


class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []  # (key, text, replay text)
        self.cov = {}
        self.assumptions = []
        self.rule = ""
        self.inconclusive = 0
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="vv%s_" % pid)
        self.n = 0

    # -- sizes ---------------------------------------------------------
    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def prefix(self, variant="plain"):
        return vbuild.build(os.environ.get("VERIF_FORCE_VARIANT", variant))

    # -- evidence ------------------------------------------------------
    def saw(self, what, nontrivial=True, sample=None):
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                self.distinct.add(hashlib.blake2b(what.encode(errors="replace"), digest_size=8).digest())
            if sample is not None and (len(self.samples) < 6 or random.random() < 0.0005) and len(self.samples) < 10:
                self.samples.append(sample[:600])

    def count(self, name, n=1):
        with self.lock:
            self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, text, replay=""):
        with self.lock:
            self.violations.append((key, text, replay))

    # -- running fl ----------------------------------------------------
    def scratch(self):
        with self.lock:
            self.n += 1
            n = self.n
        d = os.path.join(self.tmp, "d%d" % n)
        os.makedirs(d)
        return d

    def fl(self, text, variant="plain", timeout=120, cwd=None, args=(), env=None, stdin=None, binary=None):
        """Run fl on a file holding text.  Returns (rc, out); rc None = timed out."""
        d = cwd or self.scratch()
        prefix = binary or self.prefix(variant)
        e = {k: v for k, v in os.environ.items() if k not in ("DISPLAY",)}
        e.update(USER="root", LOGNAME="root", HOME=d, LANG="C.UTF-8",
                 PATH=prefix + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
                 ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0",
                 UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
        if env:
            e.update(env)
        cmd = [prefix + "/bin/fl", "-noX", "-q", "-T", d + "/t"] + list(args)
        os.makedirs(d + "/t", exist_ok=True)
        if stdin is None:
            f = os.path.join(d, "case.fl")
            with open(f, "wb") as fh:
                fh.write(text if isinstance(text, bytes) else text.encode("latin-1", "replace"))
            cmd += ["-f", f]
            inp = None
        else:
            inp = stdin if isinstance(stdin, bytes) else stdin.encode("latin-1", "replace")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(inp, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if cwd is None:
            shutil.rmtree(d, ignore_errors=True)
        return rc, out.decode("latin-1") + "\n@STDERR\n" + err.decode("latin-1")

    DRIVER = "\nquit;\n"

    def _file(self, prelude, cases, base):
        parts = [PRELUDE, prelude, "\n"]
        for i, c in enumerate(cases):
            parts.append("%s\n__p %d (\\q. %s);\n" % (c.pre, base + i, c.expr))
        return "".join(parts)

    def _batch(self, cases, prelude, variant, timeout, files, per_args=(), env=None):
        """Fill in c.out for each case: '=value' '!message' '#compile-time message'
        '%crash' '~' (timed out twice, the second time alone)."""
        todo = list(cases)
        guard = 0
        while todo:
            guard += 1
            if guard > 4 * len(cases) + 20:
                raise Harness("no progress in a batch")
            d = self.scratch()
            for name, data in (files or {}).items():
                with open(os.path.join(d, name), "wb") as fh:
                    fh.write(data if isinstance(data, bytes) else data.encode("latin-1"))
            body = self._file(prelude, todo, 0)
            with open(d + "/body.fl", "wb") as fh:
                fh.write(body.encode("latin-1", "replace"))
            if os.environ.get("VERIF_KEEP"):
                shutil.copy(d + "/body.fl", os.path.join(os.environ["VERIF_KEEP"], "body-%s.fl" % os.path.basename(d)))
            drv = ('((load "body.fl") fseq ()) gen_catch (\\m. fprintf stdout "\\n@LOADERR %s\\n" m);\nquit;\n')
            rc, out = self.fl(drv, variant, timeout * (1 if len(todo) > 1 else 3), cwd=d, args=per_args, env=env)
            if os.environ.get('VERIF_KEEP'): open(os.environ['VERIF_KEEP']+'/out-'+os.path.basename(d),'w').write(str(rc)+out)
            shutil.rmtree(d, ignore_errors=True)
            n = 0
            got = {}
            for m in MARK.finditer(out):
                got[int(m.group(1))] = m.group(2) + m.group(3)
            while n < len(todo) and n in got:
                todo[n].out = got[n]
                n += 1
            rest = todo[n:]
            if not rest:
                if rc is None or rc == 0:
                    return
                # everything answered but a bad ending: charge it to the last case
                todo[-1].out = "%" + self._tail(rc, out)
                return
            if rc is None:
                if len(todo) == 1:
                    rest[0].out = "~"
                    return
                self._batch(rest[:1], prelude, variant, timeout, files, per_args, env)
            elif rc != 0:
                if len(todo) == 1 or n == 0:
                    if n == 0 and len(todo) > 1:
                        self._batch(rest[:1], prelude, variant, timeout, files, per_args, env)
                    else:
                        rest[0].out = "%" + self._tail(rc, out)
                else:
                    self._batch(rest[:1], prelude, variant, timeout, files, per_args, env)
                    if rest[0].out.startswith("=") or rest[0].out.startswith("!"):
                        # it only crashes after its predecessors: keep that fact
                        rest[0].out = "%in-sequence " + self._tail(rc, out)
            else:
                rest[0].out = "#" + self._clean(out)
            todo = rest[1:]

    @staticmethod
    def _clean(out):
        a, _, b = MARK.sub("", out).partition("@STDERR")
        return a[-200:] + b[:600]

    @staticmethod
    def _tail(rc, out):
        m = re.search(r"(==\d+==(?:ERROR: )?(?:AddressSanitizer|LeakSanitizer|Sanitizer).*?)(?:\n\n|$)|([^\n]*runtime error:.*)", out, re.S)
        if m:
            return "rc=%s %s" % (rc, m.group(0)[:1500])
        return "rc=%s %s" % (rc, MARK.sub("", out)[-500:])

    def run_cases(self, cases, prelude="", variant="plain", chunk=300, timeout=60, files=None, args=(), env=None,
                  judge=True, keep=False):
        self.prefix(variant)
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda ch: self._batch(ch, prelude, variant, timeout, files, args, env), chunks))
        if judge:
            for c in cases:
                self.judge(c, prelude, files)
        return cases

    def judge(self, c, prelude="", files=None):
        if c.out is None:
            raise Harness("no outcome for " + c.key)
        if isinstance(c.note, list):
            return self._judge_multi(c, prelude, files)
        if callable(c.expect):
            try:
                why = c.expect(c.out)
            except (ValueError, IndexError) as e:
                why = "an answer of another form (%s)" % e
        else:
            why = None if c.out == "=" + c.expect else "expected =%s" % c.expect
        self.saw(c.pre + c.expr, not c.trivial, "%s -> %s" % ((c.pre + " " + c.expr).strip(), c.out[:200]))
        if why:
            rep = "# property %s, case %s\n# %s\n# observed: %s\n# question: %s\n%s%s\n%s\n__p 0 (\\q. %s);\nquit;\n" % (
                self.pid, c.key, why.replace("\n", "\n# "), c.out.replace("\n", "\n# "), c.expr.replace("\n", "\n# "),
                PRELUDE, prelude, c.pre, getattr(c, "whole", c.expr))
            rep = re.sub(r"^#", "//", rep, flags=re.M)
            self.violation(c.key, "%s: %s; observed %s" % ((c.pre + " " + c.expr)[:300], why[:300], c.out[:300]), rep)
        return why

    def _judge_multi(self, c, prelude, files):
        outs = c.out[1:].split("\n@&@\n")[:-1] if c.out.startswith("=") else None
        if outs is None or len(outs) != len(c.note):
            key = c.note[0][0]
            self.saw(c.pre, True)
            self.violation(key, "no answers (%s of %d); observed %s; for %s %s" % (outs and len(outs), len(c.note), c.out[:500], c.pre[:300], c.note[0][1][:200]),
                           "%s\n%s\n%s\n__p 0 (\\q. %s);\nquit;\n" % (PRELUDE, prelude, c.pre, c.expr))
            return
        for (key, expr, expect), out in zip(c.note, outs):
            d = Case(key, expr, expect, pre=c.pre)
            d.out = out
            d.whole = c.expr
            self.judge(d, prelude, files)

    def pmap(self, fn, items):
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(fn, items))

    # -- the end -------------------------------------------------------
    def finish(self):
        known = known_findings(self.pid)
        new, seen = [], {}
        for v in self.violations:
            k = next((e for e in known if re.fullmatch(e[0], v[0])), None)
            if k:
                seen.setdefault(k[1], v)
            else:
                new.append(v)
        for desc, v in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, desc))
        rd = os.path.join(VERIF, "replay")
        for i, (key, text, rep) in enumerate(new[:int(os.environ.get("VERIF_MAXV", "8"))]):
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.fl" % (self.pid, i))
            with open(path, "wb") as fh:
                fh.write((rep or ("// %s\n// %s\n" % (key, text))).encode("latin-1", "replace"))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   [%s] %s" % (key, text[:1500]))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples[:10]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(path + ".tmp", path)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not new and (self.evaluations == 0 or not self.distinct):
            print("%s: nothing was observed" % self.pid)
            return 3
        print("%s: %d evaluations, %d distinct, %d violations, %.1f s" % (
            self.pid, self.evaluations, len(self.distinct), len(new), time.time() - self.t0))
        return 1 if new else 0


def known_findings(pid):
    """(key pattern, description) of the findings recorded for pid."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.escape(m.group(2)), m.group(3)))
    return out


def main(pid, fn, level="exploration"):
    ctx = Ctx(pid, level)
    try:
        fn(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        if ctx.violations:
            # what was seen before the harness failed still stands
            ctx.tmp = tempfile.mkdtemp(prefix="vv")
            rc = ctx.finish()
            if rc == 0:
                rc = 3
        else:
            rc = 3
    sys.stdout.flush()
    sys.exit(rc)


def flstr(s):
    """s as an fl string literal."""
    out = []
    for ch in s:
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


def flint(i):
    return str(i) if i >= 0 else "(0-%d)" % -i
