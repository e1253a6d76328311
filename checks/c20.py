"""C20: what is saved reloads as the same data: same session, other sessions, other variable orders, damaged files."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ckt
from stetest import PRE as STEPRE, Run
from vlib import Case, MARK, PRELUDE, main, flstr

TYPE = '''
lettype v20 = N20 int | S20 string | B20 bool | E20 bexpr | X20 float int | V20 bv | L20 {l20::v20 list} | P20 v20 v20 | T20 {t20::{int,v20} tbl} | F20 {f20::int->int} | W20 bev;
'''
PRE = r'''
letrec __bits [] f = (f == T) => "1" | "0"
    /\ __bits (v:vs) f = (__bits vs (substitute [(v,F)] f))^(__bits vs (substitute [(v,T)] f));
let __tb f = (empty ((depends f) subtract __vs)) => __bits __vs f | "foreign variables";
let __te e = __tb (base_bexpr2bdd [] e);
letrec __k (N20 i) = "N"^(int2str i)
    /\ __k (S20 s) = "S"^(int2str (length (explode s)))^":"^(__l (\c. int2str (ord c)) (explode s))
    /\ __k (B20 b) = "B"^(__tb b)
    /\ __k (E20 e) = "E"^(__te e)
    /\ __k (X20 x e) = "X"^(int2str (floor (fmul x (pow 2.0 (int2float (53-e))))))
    /\ __k (V20 v) = "V"^(__L __tb (bv2list v))
    /\ __k (W20 v) = "W"^(__L __te (bev2list v))
    /\ __k (L20 l) = "L"^(__L __k l)
    /\ __k (P20 a b) = "P("^(__k a)^","^(__k b)^")"
    /\ __k (T20 t) = "T"^(__L (\p. (int2str (fst p))^"->"^(__k (snd p))) (qsort (\a.\b. (fst a) < (fst b) => (0-1) | (fst a) = (fst b) => 0 | 1) (tbl2list t)))
    /\ __k (F20 f) = "F"^(__l (\i. int2str (f i)) [0-3,0,1,7]);
letrec __walk (P20 a b) (x:xs) = __walk (x = 0 => a | b) xs /\ __walk v xs = __k v;
letrec __same [] [] = T /\ __same (x:xs) (y:ys) = ((x == y) AND (__same xs ys)) /\ __same _ _ = F;
let twice20 x = x+x+1;
let pick20 (n:ns) = n;
letrec dag20 n v = n = 0 => v | let x = dag20 (n-1) v in P20 x x;
'''
NAMES = ["a", "b", "c", "d", "a b", " a", "x[0]", "x[1]", "\\e sc", "v'", "_u", "n/m", "n$1", "%s", "T", "0", "1 2", "{q}", "p\tq", "q\"r", "k" * 200, "\xe9\xff", "i0", "AND", "x y z", "tt;u", "-", "a[0][1]", "#"]


def name(s):
    return "(implode [%s])" % ",".join("chr %d" % ord(c) for c in s) if any(ord(c) > 126 or c in "\t\"\\%" for c in s) else flstr(s)


class G:
    def __init__(self, r):
        self.r = r
        self.names = r.sample(NAMES, r.randint(2, 4))
        self.n = len(self.names)
        self.full = (1 << (1 << self.n)) - 1

    def var(self, i):
        # position j of the printed string is the valuation whose top bit is variable 0
        return int("".join(str(j >> (self.n - 1 - i) & 1) for j in range(1 << self.n)), 2)

    def bool(self, d, e):
        r = self.r
        nots, ands, ors, xors, v, t, f = ("bNOT", "bAND", "bOR", "bXOR", "bvariable", "bT", "bF") if e else ("NOT", "AND", "OR", "XOR", "variable", "T", "F")
        if d == 0 or r.random() < 0.1:
            if r.random() < 0.12:
                return r.choice([(t, self.full), (f, 0)])
            i = r.randrange(self.n)
            return "(%s %s)" % (v, name(self.names[i])), self.var(i)
        a, x = self.bool(d - 1, e)
        if r.random() < 0.25:
            return "(%s %s)" % (nots, a), self.full & ~x
        b, y = self.bool(d - 1, e)
        o = r.choice([ands, ors, xors])
        return "(%s %s %s)" % (a, o, b), x & y if o == ands else x | y if o == ors else x ^ y

    def tt(self, x):
        return format(x, "0%db" % (1 << self.n))

    def val(self, d=3):
        """(expression, canonical text)"""
        r = self.r
        k = r.choice("NSBEXVWFC" if d == 0 else "NSBEXVWLLPPTTF")
        if k == "C":
            k = "N"
        if k == "N":
            i = r.choice([r.randint(-5, 5), r.choice([-1, 1]) * (1 << r.choice([31, 32, 61, 62, 63, 64, 65, 128, 1000])) + r.randint(-2, 2), r.getrandbits(300)])
            return "(N20 (%d))" % i, "N%d" % i
        if k == "S":
            s = "".join(chr(r.choice([r.randint(1, 255), r.randint(97, 99), 10, 32, 34, 92, 37, 13])) for _ in range(r.choice([0, 1, 2, 5, 40, r.choice([300, 1500, 4100])])))
            return "(S20 (implode [%s]))" % ",".join("chr %d" % ord(c) for c in s), "S%d:%s" % (len(s), ";".join(str(ord(c)) for c in s))
        if k in "BE":
            e, x = self.bool(r.randint(0, 4), k == "E")
            return "(%s20 %s)" % (k, e), k + self.tt(x)
        if k == "X":
            m, ex = r.choice([-1, 1]) * r.getrandbits(53), r.choice([0, 0, 1, -1, 60, -60, 900, -900])
            return "(X20 (fmul (int2float (%d)) (pow 2.0 (int2float (%d)))) (%d))" % (m, ex - 53, ex), "X%d" % m
        if k in "VW":
            bs = [self.bool(r.randint(0, 2), k == "W") for _ in range(r.randint(1, 4))]
            bs[0] = self.varnot(k == "W")    # the sign: never reducible
            if len(bs) > 1:
                bs[1] = self.other(bs[0], k == "W")
            return "(%s20 (%s [%s]))" % (k, "list2bev" if k == "W" else "list2bv", ",".join(b[0] for b in bs)), "%s[%s]" % (k, ";".join(self.tt(b[1]) for b in bs))
        if k == "L":
            vs = [self.val(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            return "(L20 [%s])" % ",".join(v[0] for v in vs), "L[%s]" % ";".join(v[1] for v in vs)
        if k == "P":
            if r.random() < 0.3:
                a = self.val(d - 1)
                return "(let s = %s in P20 s s)" % a[0], "P(%s,%s)" % (a[1], a[1])
            a, b = self.val(d - 1), self.val(d - 1)
            return "(P20 %s %s)" % (a[0], b[0]), "P(%s,%s)" % (a[1], b[1])
        if k == "T":
            ks = sorted(r.sample([0, 1, -1, 2, 77, 1 << 64, -(1 << 70)], r.choice([0, 1, 2, 4])))
            vs = [self.val(d - 1) for _ in ks]
            t = "(tbl_create 10)"
            for q, v in zip(ks, vs):
                t = "(tbl_insert %s (%d) %s)" % (t, q, v[0])
            return "(T20 %s)" % t, "T[%s]" % ";".join("%d->%s" % (q, v[1]) for q, v in zip(ks, vs))
        c = r.randint(-9, 9)
        f, g = r.choice([("(\\x. x+(%d))" % c, lambda x: x + c), ("(twice20)", lambda x: 2 * x + 1), ("(i_plus (%d))" % c, lambda x: x + c),
                         ("(\\x. x < 1 => (%d) | twice20 (x-1))" % c, lambda x: c if x < 1 else 2 * x - 1), ("(itlist (\\e.\\f.\\x. f (x+e)) [1,2,(%d)] (\\x.x*x))" % c, lambda x: (x + 3 + c) ** 2)])
        return "(F20 %s)" % f, "F%s" % ";".join(str(g(x)) for x in (-3, 0, 1, 7))

    def varnot(self, e):
        i = self.r.randrange(self.n)
        return "(%s %s)" % ("bvariable" if e else "variable", name(self.names[i])), self.var(i)

    def other(self, b, e):
        return "(%s %s)" % ("bNOT" if e else "NOT", b[0]), self.full & ~b[1]


def circuit(ctx, num, seed):
    """A pexlif, its fsm and an ste run, saved and loaded: the runs stay the same."""
    r = random.Random(seed)
    d = ctx.scratch()
    k = Run(r, num)
    wl, ant, cons = k.lists()
    ctx.count("kind: circuit")
    typ = "lettype f20 = FSM20 fsm | STE20 ste | LF20 {lf20::f20 list} | PF20 {pf20::pexlif list};\nlet unf (FSM20 x) = x;\nlet uns (STE20 x) = x;\nlet unp (PF20 [x]) = x;\nlet unl i (LF20 l) = el i l;\n"
    ste = lambda c: 'STE "-e" %s %s %s %s [] ""' % (c, wl, ant, cons)
    tr = lambda q: "__tr %s %s %s" % (k.tt(), q, k.names())
    flags = '["antOK","trajOK","consOK","checkOK","implies","strong",""]'
    res = lambda q: '__j "," (\\f. __x (%s (get_ste_result %s f))) %s' % (k.tt(), q, flags)
    info = lambda c: '(__l id (qsort strcmp (nodes %s)))^"/"^(__l id (qsort strcmp (inputs %s)))^"/"^(__l (\\n. (is_latch %s n => "L" | "-")^(__l id (fanin %s n))^(__l id (qsort strcmp (fanout %s n)))^(excitation_function %s n)) (qsort strcmp (nodes %s)))' % ((c,) * 7)
    first = {}
    hist = []

    def session(qs, binds, env):
        g = G(r)
        S = Session(ctx, d, g, r, r.sample(k.sp.names, len(k.sp.names)), STEPRE + typ + "let id x = x;\n")
        for b in binds:
            S.do(b)
        for key, q in qs:
            def same(out, what=key.split(" of ")[0]):
                if out[0] != "=":
                    return "no answer"
                if first.setdefault(what, out) != out:
                    return "it was %s before saving" % first[what][:1500]
            S.ask(key, q, same if not key.startswith("write") else "T")
        S.run(env, hist)

    def three(c, q, w):
        return [("info of the %s" % w, info(c)), ("trace of the %s" % w, tr(q)), ("result of the %s" % w, res(q))]
    wr = [("write_pexlif", 'write_pexlif "p" p => "T" | "F"'), ("write_f20 fsm", 'write_f20 "c" (FSM20 c) => "T" | "F"'), ("write_f20 ste", 'write_f20 "s" (STE20 q00) => "T" | "F"'),
          ("write_f20 list", 'write_f20 "l" (LF20 [FSM20 c, STE20 q00, PF20 [p], FSM20 c]) => "T" | "F"')]
    session(three("c", "q00", "original") + wr, ["let p = %s;" % k.c.text, "let c = pexlif2fsm p;", "let q00 = %s;" % ste("c")], environment(r))
    binds = ['let p = read_pexlif "p";', 'let c1 = unf (read_f20 "c");', "let c2 = pexlif2fsm p;", 'let q0 = uns (read_f20 "s");', "let q1 = %s;" % ste("c1"), "let q2 = %s;" % ste("c2"),
             'let l = read_f20 "l";', "let c3 = unf (unl 4 l);", "let q3 = uns (unl 2 l);", "let q4 = %s;" % ste("(pexlif2fsm (unp (unl 3 l)))")]
    if r.random() < 0.3:
        binds[:2] = binds[1::-1]
    qs = three("c1", "q1", "fsm") + three("c2", "q2", "pexlif") + three("c3", "q4", "list")[:2] + [("trace of the ste", tr("q0")), ("result of the ste", res("q0")), ("trace of the list ste", tr("q3"))]
    session(qs, binds, environment(r))


class Session:
    """One fl process in the directory of the case."""

    def __init__(self, ctx, d, g, r, order, extra=""):
        self.ctx, self.d, self.g, self.order = ctx, d, g, order
        self.text = TYPE + "let __vs = [%s];\n" % ",".join(name(n) for n in g.names)
        for i, n in enumerate(order):
            self.text += "let __w%d = variable %s;\n__w%d;\n" % (i, name(n), i)
        self.text += PRE + extra
        self.cases = []

    def do(self, s):
        self.text += s + "\n"

    def ask(self, key, expr, expect):
        self.text += "__p %d (\\q. %s);\n" % (len(self.cases), expr)
        self.cases.append(Case(key, expr, expect))

    def run(self, env, history):
        with open(self.d + "/body.fl", "wb") as fh:
            fh.write((PRELUDE + self.text).encode("latin-1"))
        rc, out = self.ctx.fl('((load "body.fl") fseq ()) gen_catch (\\m. fprintf stdout "\\n@LOADERR %s\\n" m);\nquit;\n', "plain", 60, cwd=self.d, env=env)
        got = {int(m.group(1)): m.group(2) + m.group(3) for m in MARK.finditer(out)}
        history.append(self.text)
        for i, c in enumerate(self.cases):
            c.out = got.get(i) or ("~" if rc is None else "%" + out[-300:])
            c.pre = "\n// ---- next session\n".join(history)[-6000:]
            if rc == 0 or c.out[0] in "=!" or rc is None and i == len(got):
                self.ctx.count("answers")
            self.ctx.judge(c)
            if c.out[0] in "~%":
                break


def failed(out):
    return None if out[0] == "!" or out == "=F" else "it was accepted"


def environment(r):
    env = {}
    if r.random() < 0.4:
        env["VOSS_VERIF_GC"] = "%d,%d,%d" % (r.randint(1, 3000), r.choice([3001, 5003, 20011]), r.choice([0, 0, 1]))
    if r.random() < 0.4:
        env["VOSS_VERIF_BDD"] = "%d,%d" % (r.choice([101, 503, 2003]), r.choice([0, 3]))
    return env


def one(ctx, num, seed):
    r = random.Random(seed)
    g = G(r)
    d = ctx.scratch()
    history = []
    fn = r.choice(["f", "a b", "it's", "x;y", "c:d", "-f", "p$HOME", "sub/f", "dot.tar.gz", "u*"])
    os.makedirs(d + "/sub", exist_ok=True)
    kind = r.choice(["bdd", "bexpr", "value", "value", "value", "dag"])
    perm = lambda: r.sample(g.names, len(g.names)) if r.random() < 0.8 else g.names[:r.randint(0, g.n)]
    A = Session(ctx, d, g, r, perm())
    ctx.count("kind: " + kind)
    if kind in ("bdd", "bexpr"):
        e = kind == "bexpr"
        fs = [g.bool(r.randint(0, 5), e) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        if fs and r.random() < 0.4:
            b = r.choice(fs)
            fs.append(g.other(b, e))
        if fs and r.random() < 0.3:
            fs.append(r.choice(fs))
        want = "[%s]" % ";".join(g.tt(x) for _, x in fs)
        pr = "__te" if e else "__tb"
        A.do("let dat = [%s];" % ",\n ".join(f for f, _ in fs))
        save = lambda n: '__L id [(%s_save %s dat) %s]' % (kind, flstr(n), 'fseq "T"' if e else '=> "T" | "F"')
        load = lambda n: "__L %s (%s_load %s)" % (pr, kind, flstr(n))
        good = "[T]"
        A.do('let id x = x;')
    elif kind == "value":
        e, want = g.val(r.choice([0, 1, 2, 3, 4]))
        A.do("let dat = %s;" % e)
        save = lambda n: "(write_v20 %s dat) => \"T\" | \"F\"" % flstr(n)
        load = lambda n: "__k (read_v20 %s)" % flstr(n)
        good = "T"
        if r.random() < 0.5:
            A.ask("original", "__k dat", want)          # forces every part
    else:
        e, want = g.val(1)
        depth = r.choice([20, 40, 60])
        path = "[%s]" % ",".join(str(r.randint(0, 1)) for _ in range(depth))
        A.do("let dat = dag20 %d %s;" % (depth, e))
        A.ask("original", "__walk dat %s" % path, want)
        save = lambda n: "(write_v20 %s dat) => \"T\" | \"F\"" % flstr(n)
        load = lambda n: "__walk (read_v20 %s) %s" % (flstr(n), path)
        good = "T"
    if r.random() < 0.3:
        A.do("bdd_reorder 2;")
    A.ask(kind + " save", save(fn), good)
    if r.random() < 0.5:
        A.ask(kind + " load in the same session", load(fn), want)
    if kind == "bexpr":
        A.ask("bexpr sharing", "int2str (bsize dat)", lambda out: None)
    if kind == "bdd" and r.random() < 0.7:
        A.ask("the same BDDs", 'let l = bdd_load %s in __b (__same l dat)' % flstr(fn), "T")
    # saves that cannot succeed
    bad = r.choice(["/dev/full", "no/such/dir/f", "sub"])
    A.ask(kind + " save that cannot work", save(bad), lambda out: None if out in ("=F", "=[F]") or out[0] == "!" else "saving to %s was said to work" % bad)
    A.ask(kind + " load of a missing file", load("nofile"), failed)
    A.ask(kind + " load of a directory", load("sub"), failed)
    A.run(environment(r), history)
    if not os.path.exists(d + "/" + fn):
        return
    # another session with another order; it saves again what it loaded
    B = Session(ctx, d, g, r, [n for n in perm() if r.random() < 0.8] + (["z1"] if r.random() < 0.5 else []))
    if r.random() < 0.5:
        B.do("let junk = itlist (\\v.\\a. (variable v) XOR a) __vs F; junk;")
    B.ask(kind + " load in another session", load(fn), want)
    B.do("let dat = %s %s;" % ({"bdd": "bdd_load", "bexpr": "bexpr_load"}.get(kind, "read_v20"), flstr(fn)))
    if kind in ("bdd", "bexpr"):
        B.do("let id x = x;")
    if kind == "bexpr" and A.cases:
        sz = next((c.out for c in A.cases if c.key == "bexpr sharing"), None)
        B.ask("bexpr sharing", "int2str (bsize dat)", lambda out: None if out == sz else "%s nodes after loading, %s before" % (out, sz))
    if r.random() < 0.4:
        B.do("bdd_reorder 2;")
    B.ask(kind + " save again", save("again"), good)
    B.run(environment(r), history)
    raw = open(d + "/" + fn, "rb").read()
    if os.path.exists(d + "/again"):
        n2 = os.path.getsize(d + "/again")
        ctx.saw("%d size" % num)
        if kind == "dag" and (len(raw) > 30000 or n2 > 30000):
            ctx.violation("sharing", "saving %s takes %d and then %d bytes" % (e, len(raw), n2), A.text + B.text)
    # a third one: the second file, and damaged copies of the first
    C = Session(ctx, d, g, r, perm())
    for i in range(4):
        b = bytearray(raw)
        if len(b) < 3:
            break
        k = r.randrange(len(b) - 1)
        cut = kind in ("bdd", "bexpr") or r.random() < 0.5
        if cut:
            b = b[:k]
        else:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        with open("%s/bad%d" % (d, i), "wb") as fh:
            fh.write(b)
        C.ask("%s load of a damaged file" % kind, load("bad%d" % i),
              lambda out, cut=cut, k=k: None if out[0] == "!" or out == "=" + want and not cut else "a file cut after %d of %d bytes gave a value" % (k, len(raw)) if cut else "a file with a bit changed gave other data")
    C.ask("load of what was loaded and saved", load("again"), want)
    C.run({}, history)


def run(ctx):
    ctx.level = "exploration"
    ctx.rule = ("Random lists of BDDs and bexprs over variables with all kinds of names, random values of a type with integers, strings of any bytes, BDDs, bexprs, floats, vectors, tables, functions and shared parts, saved under awkward file names and loaded "
                "in the same session, in one with another variable order (garbage collection and reordering forced at random) and, saved again, in a third; compared with truth tables and texts computed in Python. Saves to full and missing places "
                "and cut or altered files must fail. Random circuits (pexlif, fsm, ste run) are saved and loaded and give the same structure, traces and results. Non-trivial: a distinct question.")
    ctx.assumptions = ["text files of BDDs and bexprs carry no checksum: only cut ones are judged", "circuits are compared with the run made before saving (checked by C15)"]
    ctx.prefix("plain")
    n = ctx.scale(200, 3000)
    ctx.pmap(lambda i: (circuit if i % 4 == 3 else one)(ctx, i, "%d/%d" % (ctx.seed, i)), range(n))


if __name__ == "__main__":
    main("C20", run)
