"""C04: bexprs denote Boolean functions and SAT answers are right.  Oracle: truth tables."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main
from bf import Space, TTPRE, flmasks

PRE = TTPRE + r'''
let __mdl m = __l (\(n,v). n^"="^((v == bT) => "1" | (v == bF) => "0" | "?")) m;
'''
# the table of a bexpr read node by node
BT = """cletrec %(u)st be =
    let t = bget_type be in
    t = "const_1" => %(all)d |
    t = "const_0" => 0 |
    t = "variable" => assoc (bget_variable be) %(u)sm |
    t = "not-variable" => %(all)d - (assoc (bget_variable be) %(u)sm) |
    let m = val (l,r) = bget_arguments be in (%(u)st l) intAND (%(u)st r) in
    t = "and" => m |
    t = "not-and" => %(all)d - m | error ("unknown type "^t);
let %(u)sbx be = __x (%(u)st be);"""
# n pigeons in n-1 holes: out of reach of the solver within a second
PHP = """let php =
  let v p h = bvariable (sprintf "p[%%d][%%d]" p h) in
  let n = %d in let hs = 1 upto (n-1) in let ps = 1 upto n in
  letrec ba [] = bT /\\ ba (x:xs) = x bAND (ba xs) in
  letrec bo [] = bF /\\ bo (x:xs) = x bOR (bo xs) in
  (ba (map (\\p. bo (map (v p) hs)) ps)) bAND
  (ba (flat (map (\\h. flat (map (\\p. map (\\q. p < q => bNOT (v p h bAND v q h) | bT) ps) ps)) hs)));
"""
OPS = {"AND": "bAND", "OR": "bOR", "XOR": "bXOR", "XNOR": "bXNOR"}


class Session:
    def __init__(self, r, num):
        self.r, self.u = r, "s%d_" % num
        n = r.choice([1, 2, 3, 4, 5, 6, 6, 7, 8])
        # names are shared between sessions so that expressions meet again
        self.names = r.sample(["a", "b", "c", "d", "v[0]", "v[1]", "v[2]", "v[10]", "w[0][1]", "w[1][0]", "x'", "y_1"], n)
        self.sp = Space(self.names)
        self.defs, self.order, self.tabs, self.syn, self.parts = [], [], [], [], []

    def leaf(self):
        r, sp = self.r, self.sp
        x = r.random()
        if x < 0.06:
            return r.choice([("bT", sp.all, set()), ("bF", 0, set())])
        if self.tabs and x < 0.6:
            i = r.randrange(len(self.tabs))
            return "%sv%d" % (self.u, i), self.tabs[i], self.syn[i]
        v = r.choice(self.names)
        return '(bvariable "%s")' % v, sp.m[v], {v}

    def expr(self, d):
        r, sp = self.r, self.sp
        if d <= 0 or r.random() < 0.1:
            return self.leaf()
        k = r.choice(["n", "AND", "AND", "OR", "XOR", "XNOR", "ITE", "IF", "EQ"])
        a, ta, sa = self.expr(d - 1)
        if k == "n":
            return "(%s %s)" % (r.choice(["bNOT", "bNOT", "gen_bNOT"]), a), sp.neg(ta), sa
        b, tb, sb = self.expr(d - 1)
        if k in ("ITE", "IF"):
            c, tc, sc = self.expr(d - 1)
            e = "(bITE %s %s %s)" % (a, b, c) if k == "ITE" else "(IF %s THEN %s ELSE %s)" % (a, b, c)
            return e, sp.ite(ta, tb, tc), sa | sb | sc
        if k == "EQ":
            return "(bEqual %s %s)" % (a, b), sp.neg(ta ^ tb), sa | sb
        t = {"AND": ta & tb, "OR": ta | tb, "XOR": ta ^ tb, "XNOR": sp.neg(ta ^ tb)}[k]
        if k in ("AND", "OR") and r.random() < 0.15:
            return "(gen_b%s %s %s)" % (k, a, b), t, sa | sb
        return "(%s %s %s)" % (a, OPS[k], b), t, sa | sb

    def other(self, txt, t):
        """the same function written in another way"""
        r, sp = self.r, self.sp

        def shan(t, vs):
            if t == 0:
                return "bF"
            if t == sp.all:
                return "bT"
            v = vs[0]
            h, l = sp.cof(t, v, 1), sp.cof(t, v, 0)
            if h == l:
                return shan(h, vs[1:])
            x = r.random()
            if x < 0.6:
                return '(bITE (bvariable "%s") %s %s)' % (v, shan(h, vs[1:]), shan(l, vs[1:]))
            if x < 0.8:
                return '(((bvariable "%s") bAND %s) bXOR ((bNOT (bvariable "%s")) bAND %s))' % (v, shan(h, vs[1:]), v, shan(l, vs[1:]))
            return '(((bNOT (bvariable "%s")) bOR %s) bAND ((bvariable "%s") bOR %s))' % (v, shan(h, vs[1:]), v, shan(l, vs[1:]))
        vs = self.names[:]
        r.shuffle(vs)
        if sp.n <= 5:
            return shan(t, vs)
        v = r.choice(vs)
        sub = "(bsubstitute [(\"%s\",%s)] %s)"
        return '(bITE (bvariable "%s") %s %s)' % (v, sub % (v, "bT", txt), sub % (v, "bF", txt))

    def bdd(self, t, vs=None):
        sp = self.sp
        vs = self.names if vs is None else vs
        if t == 0:
            return "F"
        if t == sp.all:
            return "T"
        v = vs[0]
        return '((variable "%s") => %s | %s)' % (v, self.bdd(sp.cof(t, v, 1), vs[1:]), self.bdd(sp.cof(t, v, 0), vs[1:]))

    def put(self, txt, t, syn):
        n = "%sv%d" % (self.u, len(self.tabs))
        self.defs.append("let %s = %s;" % (n, txt))
        self.order.append(n)
        self.tabs.append(t)
        self.syn.append(set(syn))
        return n

    def define(self):
        r, sp = self.r, self.sp
        x = r.random()
        if x < 0.12 and self.tabs:
            i = r.randrange(len(self.tabs))
            return self.put(self.other("%sv%d" % (self.u, i), self.tabs[i]), self.tabs[i], set(self.names))
        if x < 0.2 and sp.n <= 5:
            t = r.getrandbits(sp.size)
            k = r.choice(["bdd2bexpr %s", "hd (bool2bexpr [%s])", "(el 2 (bool2bexpr [T,%s,F]))"])
            return self.put(k % self.bdd(t), t, set(self.names))
        if x < 0.3 and self.tabs:
            i = r.randrange(len(self.tabs))
            vs = r.sample(self.names, r.randint(1, len(self.names)))
            es = [self.expr(2) for _ in vs]
            syn = set(self.syn[i]) | set().union(*[e[2] for e in es])
            return self.put("bsubstitute [%s] %sv%d" % (",".join('("%s",%s)' % (v, e[0]) for v, e in zip(vs, es)), self.u, i),
                            sp.subst(self.tabs[i], {v: e[1] for v, e in zip(vs, es)}), syn)
        if x < 0.4:
            # a random clause set: often unsatisfiable
            cl = []
            t = sp.all
            for _ in range(r.randint(2, 5 * sp.n)):
                lits, tc = [], 0
                for v in r.sample(self.names, min(sp.n, 3)):
                    if r.random() < 0.5:
                        lits.append('(bvariable "%s")' % v)
                        tc |= sp.m[v]
                    else:
                        lits.append('(bNOT (bvariable "%s"))' % v)
                        tc |= sp.neg(sp.m[v])
                cl.append("(" + " bOR ".join(lits) + ")")
                t &= tc
            return self.put("(" + " bAND ".join(cl) + ")", t, set(self.names))
        return self.put(*self.expr(3))

    def pick(self):
        i = self.r.randrange(len(self.tabs))
        return "%sv%d" % (self.u, i), self.tabs[i]

    def sat(self):
        r, sp = self.r, self.sp
        es = [self.pick() for _ in range(r.choice([1, 1, 1, 2, 3, 4]))]
        es = [("(bNOT %s)" % n, sp.neg(t)) if r.random() < 0.3 else (n, t) for n, t in es]
        if r.random() < 0.25:
            n, t = es[0]
            es.append((self.other(n, t), t) if r.random() < 0.5 else ("(bNOT %s)" % self.other(n, t), sp.neg(t)))
        if r.random() < 0.1:
            es.append(r.choice([("bT", sp.all), ("bF", 0)]))
        r.shuffle(es)
        conj = sp.all
        for _, t in es:
            conj &= t
        if len(es) == 1 and r.random() < 0.6:
            return self.parts.append(("is_unsat", "__b (bexpr_is_unsat %s 100)" % es[0][0], "F" if conj else "T"))

        def chk(out):
            if out[0] != "=":
                return "expected a list"
            m = [p.rsplit("=", 1) for p in out[1:].split(";")] if out != "=" else []
            if not m:
                return None if conj == 0 else "expected a model: %x is satisfiable" % conj
            if conj == 0:
                return "expected no model"
            if m == [["", "1"]]:
                return None if conj == sp.all else "the dummy model, but not every valuation satisfies the expressions"
            left = sp.all
            for n, v in m:
                if n not in sp.m or v not in "01":
                    return "model over an unknown variable or with a symbolic value"
                left &= sp.m[n] if v == "1" else sp.neg(sp.m[n])
            if len({n for n, _ in m}) != len(m):
                return "a variable occurs twice in the model"
            return None if left and left & ~conj == 0 else "the model does not satisfy the expressions"
        self.parts.append(("model", "__mdl (bget_model [%s] 100)" % ",".join(e[0] for e in es), chk))

    def query(self):
        r, sp, u = self.r, self.sp, self.u
        a, ta = self.pick()
        b, tb = self.pick()
        q = r.choice(["eq", "same", "sig", "dep", "lst", "eql", "sub", "dup", "bdd2", "num", "unsat2", "iftup"])
        mm = "%d %sm" % (sp.all, u)
        bx = "%sbx" % u
        if q in ("eq", "same"):
            def chk(out):
                if out == "=T":
                    return None if ta == tb else "they are not equivalent"
                return None if out == "=F" else "expected T or F"
            if r.random() < 0.5:
                b, tb = self.other(a, ta), ta
            return self.parts.append(("equality", "__b (%s %s %s)" % (a, "==", b), chk))
        if q == "sig":
            return self.parts.append(("signature", "__b (%s = %s)" % ("(bexpr_signature %s)" % a, "(bexpr_signature (bNOT (bNOT %s)))" % a), "T"))
        if q == "dep":
            i = int(a[len(u) + 1:])
            j = int(b[len(u) + 1:])
            need, can = set(sp.depends(ta)) | set(sp.depends(tb)), self.syn[i] | self.syn[j]

            def chk(out):
                got = out[1:].split(";") if out != "=" else []
                if out[0] != "=" or len(set(got)) != len(got) or not need <= set(got) <= can:
                    return "expected a list with %s, from %s" % (sorted(need), sorted(can))
            return self.parts.append(("bdepends", "__l (\\s.s) (bdepends (%s,[%s,%s]))" % (a, b, a), chk))
        if q == "lst":
            k, f = r.choice([("gen_bAND", lambda p, q: p & q), ("gen_bOR", lambda p, q: p | q)])
            e = "(let l = %s [(%s,%s),(%s,bT)] [(%s,%s),(bF,%s)] in (\\s.s) (__l (\\(p,q). (%s p)^\",\"^(%s q)) l))" % (k, a, b, b, b, b, a, bx, bx)
            return self.parts.append(("gen", e, "%x,%x;%x,%x" % (f(ta, tb), f(tb, tb), f(tb, 0), f(sp.all, ta))))
        if q == "eql":
            c, tc = self.pick()
            e = "%s (bEqual [(%s,\"k\"),(%s,\"l\")] [(%s,\"k\"),(%s,\"%s\")])" % (bx, a, b, b, c, "l" if r.random() < 0.8 else "z")
            w = sp.neg(ta ^ tb) & sp.neg(tb ^ tc)
            return self.parts.append(("bEqual", e, "%x" % (0 if '"z"' in e else w)))
        if q == "sub":
            v = r.choice(self.names)
            e = "(let p = bsubstitute [(\"%s\",%s)] (%s,[%s]) in val (x,[y]) = p in (%s x)^\",\"^(%s y))" % (v, b, a, b, bx, bx)
            return self.parts.append(("bsubstitute", e, "%x,%x" % (sp.subst(ta, {v: tb}), sp.subst(tb, {v: tb}))))
        if q == "dup":
            v = r.choice(self.names)
            return self.parts.append(("bsubstitute", "%s (bsubstitute [(\"%s\",bT),(\"%s\",bF)] %s)" % (bx, v, v, a),
                                      lambda o: None if o[0] == "!" else "expected a failure: the variable is given twice"))
        if q == "bdd2":
            # conversion with some variables replaced
            vs = r.sample(self.names, min(len(self.names), r.randint(0, 3)))
            ts = [r.choice([0, sp.all, sp.m[r.choice(self.names)], sp.neg(sp.m[r.choice(self.names)])]) for _ in vs]
            e = "__x (__tt %s (base_bexpr2bdd [%s] %s))" % (mm, ",".join('("%s",%s)' % (v, self.bdd(t)) for v, t in zip(vs, ts)), a)
            return self.parts.append(("base_bexpr2bdd", e, "%x" % sp.subst(ta, dict(zip(vs, ts)))))
        if q == "num":
            bs = [r.choice("01") for _ in range(r.randint(1, 70))]
            return self.parts.append(("bev2num", "int2str (bev2num [%s])" % ",".join("bT" if x == "1" else "bF" for x in bs), str(int("".join(bs), 2))))
        if q == "unsat2":
            w = ta & tb
            return self.parts.append(("is_unsat", "__b (bexpr_is_unsat (%s bAND %s) 100)" % (a, b), "F" if w else "T"))
        if q == "iftup":
            c, tc = self.pick()
            e = "(let p = IF %s THEN ([%s,%s],%s) ELSE ([%s,%s],%s) in val ([x,y],z) = p in (%s x)^\",\"^(%s y)^\",\"^(%s z))" % (a, b, c, a, c, c, b, bx, bx, bx)
            return self.parts.append(("if", e, "%x,%x,%x" % (sp.ite(ta, tb, tc), tc, sp.ite(ta, ta, tb))))

    def readback(self, i):
        sp, n = self.sp, "%sv%d" % (self.u, i)
        self.parts.append(("value", "%sbx %s" % (self.u, n), "%x" % self.tabs[i]))
        if self.r.random() < 0.5:
            self.parts.append(("to bdd", "__x (__tt %d %sm (base_bexpr2bdd [] %s))" % (sp.all, self.u, n), "%x" % self.tabs[i]))


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Sessions over shared variables in one interpreter: random expression graphs (every connective, substitution, conversion from bool, clause sets), "
                "with interleaved satisfiability, model, equality, dependency and substitution queries; every expression is read back node by node and compared "
                "with its truth table. Non-trivial: a distinct expression or query.")
    ctx.assumptions = ["up to 8 variables per session; solver time limits are generous, so no query may run out of time"]
    cases = []
    for num in range(ctx.scale(700, 12000)):
        s = Session(r, num)
        for _ in range(r.randint(3, 10)):
            s.define()
            if r.random() < 0.5:
                s.sat()
        for i in range(len(s.tabs)):
            s.readback(i)
        for _ in range(r.randint(3, 8)):
            r.choice([s.query, s.sat])()
        r.shuffle(s.parts)
        s.defs.insert(0, BT % {"u": s.u, "all": s.sp.all})
        s.defs.insert(0, "let %sm = %s;" % (s.u, flmasks(s.sp)))
        cases.append(Multi("\n".join(s.defs), s.parts, "".join("%s fseq " % n for n in s.order)))
    third = len(cases) // 3
    kw = dict(prelude=PRE, chunk=50, timeout=150, variant="fast")
    ctx.run_cases(cases[:third], **kw)
    # forced graph collections and reorderings while expressions and the solver live on
    ctx.run_cases(cases[third:2 * third], env={"VOSS_VERIF_GC": "1,%d,0" % r.choice([900, 2500, 7001])}, **kw)
    ctx.run_cases(cases[2 * third:], env={"VOSS_VERIF_GC": "1,%d,1" % r.choice([3001, 5003])}, **kw)
    ctx.count("sessions", len(cases))
    # a query that runs out of time answers with a failure and does not disturb the next ones
    out = lambda o: None if o[0] == "!" and "imeout" in o else "expected a time-out"
    late = []
    for num in range(ctx.scale(2, 8)):
        n = r.randint(11, 13)
        s = Session(r, 10 ** 6 + num)
        for _ in range(4):
            s.define()
        s.parts.append(("time-out", "__mdl (bget_model [php] 1)", out))
        for _ in range(8):
            s.sat()
        s.defs.insert(0, BT % {"u": s.u, "all": s.sp.all})
        s.defs.insert(0, "let %sm = %s;" % (s.u, flmasks(s.sp)))
        late.append(Multi((PHP % n) + "\n".join(s.defs), s.parts, "".join("%s fseq " % n for n in s.order)))
    ctx.run_cases(late, prelude=PRE, chunk=1, timeout=150, variant="fast")
    ctx.count("time-outs", len(late))


if __name__ == "__main__":
    main("C04", run)
