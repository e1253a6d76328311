"""C05: symbolic bit-vectors are exact integers in every valuation.  Oracle: Python integers per valuation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from math import gcd
from vlib import Multi, main, flint
from bf import Space, rand_expr, TTPRE, flmasks

BOPS = {"AND": "bAND", "OR": "bOR", "XOR": "bXOR", "XNOR": "bXNOR"}


def bexpr(r, sp, depth):
    if depth <= 0 or r.random() < 0.15:
        if r.random() < 0.08:
            return r.choice([("bT", sp.all), ("bF", 0)])
        v = r.choice(sp.names)
        return '(bvariable "%s")' % v, sp.m[v]
    k = r.choice(["n", "AND", "OR", "XOR", "XNOR", "ITE"])
    a, ta = bexpr(r, sp, depth - 1)
    if k == "n":
        return "(bNOT %s)" % a, sp.neg(ta)
    b, tb = bexpr(r, sp, depth - 1)
    if k == "ITE":
        c, tc = bexpr(r, sp, depth - 1)
        return "(bITE %s %s %s)" % (a, b, c), sp.ite(ta, tb, tc)
    t = {"AND": ta & tb, "OR": ta | tb, "XOR": ta ^ tb, "XNOR": sp.neg(ta ^ tb)}[k]
    return "(%s %s %s)" % (a, BOPS[k], b), t


def width(vals):
    return max((v if v >= 0 else ~v).bit_length() for v in vals) + 1


def bits2vals(sp, tabs):
    out = []
    for j in range(sp.size):
        v = -(tabs[0] >> j & 1)
        for t in tabs[1:]:
            v = 2 * v + (t >> j & 1)
        out.append(v)
    return out


def vals2bits(sp, vals, n):
    return [sum((vals[j] >> (n - 1 - i) & 1) << j for j in range(sp.size)) for i in range(n)]


class S:
    def __init__(self, r, num, kind):
        self.r, self.num, self.k = r, num, kind
        self.u = "w%d_" % num
        self.vec = [("x%d" % i, r.randint(1, 3)) for i in range(r.choice([1, 2, 2, 3]))]
        while sum(w for _, w in self.vec) > 6:
            self.vec.pop()
        self.names = ["%s[%d]" % (v, i) for v, w in self.vec for i in range(w)]
        self.names += ["b"] if len(self.names) < 6 and r.random() < 0.5 else []
        self.sp = Space(self.names)
        self.defs, self.vals, self.tabs, self.parts = [], [], [], []
        self.order = []

    def f(self, i):
        return "%sv%d" % (self.u, i)

    def boolean(self, d):
        if self.k == "bev":
            return bexpr(self.r, self.sp, d)
        return rand_expr(self.r, self.sp, [('(variable "%s")' % v, self.sp.m[v]) for v in self.names], d)

    def put(self, txt, vals):
        n = self.f(len(self.vals))
        self.defs.append("let %s = %s;" % (n, txt))
        self.order.append(n)
        self.vals.append(vals)
        return len(self.vals) - 1

    def operand(self):
        r, sp, k = self.r, self.sp, self.k
        x = r.random()
        if x < 0.2:
            c = r.choice([0, 1, -1, 2, 3, -2, -4, 5, 7, -8, 13, 100, -77, 2 ** 33, -2 ** 40 + 3])
            return self.put(r.choice(["(int2%s %s)" % (k, flint(c)), "{%s%d :: %s}" % ("'" if c >= 0 else "'-", abs(c), k)]), [c] * sp.size)
        if x < 0.55:
            v, w = r.choice(self.vec)
            vals = bits2vals(sp, [sp.m["%s[%d]" % (v, i)] for i in reversed(range(w))])
            t = '(%s_variable "%s[%d:0]")' % (k, v, w - 1)
            if r.random() < 0.3:
                t, vals = "(%s_ZX %s)" % (k, t), [y % (1 << w) for y in vals]
            return self.put(t, vals)
        es = [self.boolean(2) for _ in range(r.randint(1, 5))]
        return self.put("(list2%s [%s])" % (k, ",".join(e[0] for e in es)), bits2vals(sp, [e[1] for e in es]))

    def pick(self):
        if len(self.vals) < 2 or self.r.random() < 0.15:
            return self.operand()
        return self.r.randrange(len(self.vals))

    def op(self):
        r, sp, k = self.r, self.sp, self.k
        i, j = self.pick(), self.pick()
        a, b = self.f(i), self.f(j)
        x, y = self.vals[i], self.vals[j]

        def z(f):
            return [None if p is None or q is None else f(p, q) for p, q in zip(x, y)]

        def z1(f):
            return [None if p is None else f(p) for p in x]
        big = max(abs(v) for v in x + y if v is not None) if any(v is not None for v in x + y) else 0
        o = r.choice(["add", "sub", "mul", "div", "mod", "NOT", "neg", "AND", "OR", "XOR", "XNOR", "ashr", "shl", "shr", "ashrv", "pow",
                      "abs", "ite", "gcd", "ZX", "+", "-", "*", "/", "%", "umin", "subst", "gen"])
        if big > 1 << 90:
            return
        if o in ("add", "+"):
            return self.put("(%s_add %s %s)" % (k, a, b) if o == "add" else "(%s + %s)" % (a, b), z(lambda p, q: p + q))
        if o in ("sub", "-"):
            return self.put("(%s_sub %s %s)" % (k, a, b) if o == "sub" else "(%s - %s)" % (a, b), z(lambda p, q: p - q))
        if o in ("mul", "*"):
            if big > 1 << 45:
                return
            return self.put("(%s_mul %s %s)" % (k, a, b) if o == "mul" else "(%s * %s)" % (a, b), z(lambda p, q: p * q))
        if o in ("div", "/"):
            return self.put("(%s_div %s %s)" % (k, a, b) if o == "div" else "(%s / %s)" % (a, b), z(lambda p, q: p // q if q else None))
        if o in ("mod", "%"):
            return self.put("(%s_mod %s %s)" % (k, a, b) if o == "mod" else "(%s %% %s)" % (a, b), z(lambda p, q: p % q if q else None))
        if o == "NOT":
            return self.put("(%s_NOT %s)" % (k, a), z1(lambda p: ~p))
        if o in ("neg", "umin"):
            return self.put("(%s_neg %s)" % (k, a) if o == "neg" else "(%s_unary_minus %s)" % (k, a), z1(lambda p: -p))
        if o in ("AND", "OR", "XOR", "XNOR"):
            f = {"AND": lambda p, q: p & q, "OR": lambda p, q: p | q, "XOR": lambda p, q: p ^ q, "XNOR": lambda p, q: ~(p ^ q)}[o]
            return self.put("(%s_%s %s %s)" % (k, o, a, b), z(f))
        if o == "ashr":
            n = r.choice([0, 1, 1, 2, 3, 5, 64])
            return self.put("(%s_ashr %s %d)" % (k, a, n), z1(lambda p: p >> n))
        if o in ("shl", "ashrv", "pow", "shr"):
            if any(q is None or not 0 <= q <= (5 if o == "pow" else 9) for q in y):
                m = r.choice([0, 1, 2, 3])
                b, y = "(int2%s %d)" % (k, m), [m] * sp.size
                if r.random() < 0.5:
                    v, w = r.choice(self.vec)
                    w = min(w, 2)
                    b = '(%s_ZX (%s_variable "%s[%d:0]"))' % (k, k, v, w - 1)
                    y = [p % (1 << w) for p in bits2vals(sp, [sp.m["%s[%d]" % (v, i)] for i in reversed(range(w))])]
                # evaluated before it is used inside conditionals
                j = self.put(b, y)
                b, y = self.f(j), self.vals[j]
            if o == "shl":
                return self.put("(%s_shl %s %s)" % (k, a, b), z(lambda p, q: p << q))
            if o == "ashrv":
                return self.put("(%s_ashr_%s%s %s %s)" % (k, k, k, a, b), [None if p is None else p >> q for p, q in zip(x, y)])
            if o == "pow":
                if big > 1 << 9:
                    return
                return self.put("(%s_pow %s %s)" % (k, a, b) if k == "bev" or r.random() < 0.6 else "(%s ** %s)" % (a, b), [None if p is None else p ** q for p, q in zip(x, y)])
            if any(p is None or p < 0 for p in x):
                return
            return self.put("(%s_shr %s %s)" % (k, a, b), [p >> q for p, q in zip(x, y)])
        if o == "abs":
            return self.put("(abs %s)" % a, z1(abs))
        if o == "ZX":
            if k == "bev" or None in x:
                return
            w = width(x)
            return self.put("(bv_ZX %s)" % a, z1(lambda p: p % (1 << w)))
        if o == "gcd":
            if k == "bev" or any(v is None or not 0 <= v < 64 for v in x + y):
                return
            return self.put("(bv_gcd %s %s)" % (a, b), z(gcd))
        if o == "ite":
            c, t = self.boolean(3)
            vals = [p if t >> n & 1 else q for n, (p, q) in enumerate(zip(x, y))]
            if k == "bev":
                return self.put("(IF %s THEN %s ELSE %s)" % (c, a, b), vals)
            return self.put("(%s => %s | %s)" % (c, a, b) if r.random() < 0.6 else "(IF %s THEN %s ELSE %s)" % (c, a, b), vals)
        if o == "subst" and k == "bv":
            vs = r.sample(self.names, r.randint(1, len(self.names)))
            es = [self.boolean(2) for _ in vs]
            sub = dict(zip(vs, [e[1] for e in es]))
            idx = []
            for n in range(sp.size):
                q = 0
                for m, v in enumerate(self.names):
                    if sub.get(v, sp.m[v]) >> n & 1:
                        q |= 1 << m
                idx.append(q)
            return self.put("(substitute [%s] %s)" % (",".join('("%s",%s)' % (v, e[0]) for v, e in zip(vs, es)), a), [x[q] for q in idx])
        if o == "gen" and k == "bv":
            # a vector constrained by a predicate ranges over exactly the values that satisfy it
            v, w = r.choice(self.vec)
            lo, hi = sorted([r.randint(-(1 << w - 1), (1 << w - 1) - 1) for _ in range(2)])
            n = "%sg%d" % (self.u, len(self.order))
            self.defs.append('let %s = bv_constrained_variable "%s[%d:0]" (\\v. (int2bv %s) <= v AND v <= (int2bv %s));' % (n, v, w - 1, flint(lo), flint(hi)))
            self.order.append(n)
            want = list(range(lo, hi + 1))

            def chk(out):
                if out[0] != "=":
                    return "expected %s" % want
                got = sorted(set(self.read(out[1:])))
                return None if got == want else "expected the values %s, not %s" % (want, got)
            # the vector's own variables are called NAME_n
            e = "let cm = %sm @ (map (\\(n,t). (n^\"_n\", t)) %sm) in __l (\\b. __x (__tt %d cm b)) (bv2list %s)" % (self.u, self.u, self.sp.all, n)
            self.parts.append(("constrained", e, chk))

    def show(self, n):
        if self.k == "bev":
            return "__l (\\b. __x (__tt %d %sm (base_bexpr2bdd [] b))) (bev2list %s)" % (self.sp.all, self.u, n)
        return "__l (\\b. __x (__tt %d %sm b)) (bv2list %s)" % (self.sp.all, self.u, n)

    def read(self, txt):
        return bits2vals(self.sp, [int(t, 16) for t in txt.split(";")])

    def query(self, i):
        sp = self.sp
        vals = self.vals[i]

        def chk(out):
            if out[0] != "=":
                return "expected values %s" % vals
            got = self.read(out[1:])
            for n, (g, v) in enumerate(zip(got, vals)):
                if v is not None and g != v:
                    return "expected %d, not %d, where %s" % (v, g, sp.assign(n))
            if self.k == "bv" and None not in vals and len(out.split(";")) != width(vals):
                return "expected %d bits, not %d" % (width(vals), len(out.split(";")))
        self.parts.append((self.k + " value", self.show(self.f(i)), chk))

    def others(self):
        r, sp, k = self.r, self.sp, self.k
        i, j = self.pick(), self.pick()
        a, b = self.f(i), self.f(j)
        x, y = self.vals[i], self.vals[j]
        ok = None not in x + y
        q = r.choice(["less", "leq", "greater", "geq", "eq", "neq", "<", "<=", ">", ">=", "fixed", "max", "range", "int", "sum", "size", "same", "mutex", "reduce"])
        cmp_ = {"less": "<", "leq": "<=", "greater": ">", "geq": ">=", "eq": "=", "neq": "!="}
        if q in cmp_ or q in "<=>=":
            s = cmp_.get(q, q)
            fn = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q, "=": lambda p, q: p == q, "!=": lambda p, q: p != q}[s]
            if q in ("eq", "neq") and k == "bev":
                # on a bev = is equality of the vectors as written
                e = "(bev_%s %s %s)" % (q, a, b)
                e = "(hd (bev2list %s))" % e if False else e
            elif q in cmp_:
                e = "(%s_%s %s %s)" % (k, q, a, b)
                if q in ("eq", "neq") and r.random() < 0.5:
                    e = "(%s %s %s)" % (a, s, b)
            else:
                if k == "bev":
                    return
                e = "(%s %s %s)" % (a, s, b)
            care = sum(1 << n for n in range(sp.size) if x[n] is not None and y[n] is not None)
            want = sum(1 << n for n in range(sp.size) if care >> n & 1 and fn(x[n], y[n]))

            def chk(out):
                return None if out[0] == "=" and int(out[1:], 16) & care == want else "expected %x" % want
            if k == "bev":
                e = "(base_bexpr2bdd [] %s)" % e
            return self.parts.append((k + " " + s, "__x (__tt %d %sm %s)" % (sp.all, self.u, e), chk))
        if q == "fixed" and ok:
            if k == "bev":
                return
            w = width(x)
            n = w + r.choice([-1, 0, 0, 1, 3])
            se = r.random() < 0.6
            if n < 1:
                return
            e = "__l (\\b. __x (__tt %d %sm b)) (fixed_%s2list %d %s %s)" % (sp.all, self.u, k, n, "T" if se else "F", a)
            if n < w:
                return self.parts.append(("fixed", e, lambda o: None if o[0] == "!" else "expected a failure: %d bits are too few" % n))
            tabs = vals2bits(sp, x, w)
            want = ["%x" % t for t in ([tabs[0] if se else 0] * (n - w) + tabs)]
            return self.parts.append(("fixed", e, ";".join(want)))
        if k == "bev" or not ok:
            return
        if q == "max" and (min(x) >= 0 or max(x) < 0):
            return self.parts.append(("max", "(int2str (bv_max %s))^\" \"^(int2str (bv_min %s))" % (a, a), "%d %d" % (max(x), min(x))))
        if q == "range":
            return self.parts.append(("range", "__pp int2str int2str (bv_range %s)" % a, "(%d,%d)" % (min(x), max(x))))
        if q == "int":
            e = "int2str (bv2int %s)" % a
            if len(set(x)) == 1:
                return self.parts.append(("bv2int", e, str(x[0])))
            return self.parts.append(("bv2int", e, lambda o: None if o[0] == "!" else "expected a failure: the vector is symbolic"))
        if q == "size":
            return self.parts.append(("size", "int2str (bv_size %s)" % a, str(width(x))))
        if q == "same":
            return self.parts.append(("same", "__b (%s == %s)" % (a, b), "T" if x == y else "F"))
        if q == "mutex":
            t = sum(1 << n for n in range(sp.size) if x[n] > 0 and x[n] & (x[n] - 1) == 0)
            return self.parts.append(("mutex", "__x (__tt %d %sm (mutex %s))" % (sp.all, self.u, a), "%x" % t))
        if q == "reduce":
            if 0 in x:
                return self.parts.append(("reduce", "bv2str 5 (bv_reduce %s)" % a, lambda o: None if o[0] == "!" else "expected a failure"))
            if min(x) < -300 or max(x) > 300:
                return
            g = 0
            for v in x:
                g = gcd(g, v)
            n = "%sr%d" % (self.u, len(self.order))
            self.defs.append("let %s = bv_reduce %s;" % (n, a))
            self.order.append(n)
            want = [v // g for v in x]
            return self.parts.append(("reduce", self.show(n), lambda o: None if o[0] == "=" and self.read(o[1:]) == want else "expected %s" % want))
        if q == "sum":
            vs = [v for v in self.names if r.random() < 0.7]
            tot = [0] * sp.size
            for n in range(sp.size):
                for m in range(sp.size):
                    if all((n >> p & 1) == (m >> p & 1) for p, v in enumerate(self.names) if v not in vs):
                        tot[n] += x[m]
            n = "%ss%d" % (self.u, len(self.order))
            self.defs.append("let %s = bv_sum [%s] %s;" % (n, ",".join('"%s"' % v for v in vs), a))
            self.order.append(n)
            return self.parts.append(("sum", self.show(n), lambda o: None if o[0] == "=" and self.read(o[1:]) == tot else "expected %s" % tot))


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random straight-line computations on bv and bev operands (constants to 2^40, vectors of variables, lists of random expressions; 1..6 variables), "
                "every operation of the two packages; each intermediate is read back bit by bit and compared in every valuation. Non-trivial: a distinct computation or query.")
    ctx.assumptions = ["the value of a division by zero is not specified; its valuations are ignored (and must not disturb the others)",
                       "operands are evaluated in turn (see the finding lazy-ite-context of C02)"]
    cases = []
    for num in range(ctx.scale(1000, 15000)):
        s = S(r, num, "bv" if r.random() < 0.65 else "bev")
        s.operand()
        s.operand()
        for _ in range(r.randint(2, 7)):
            s.op()
        for i in range(len(s.vals)):
            s.query(i)
        for _ in range(r.randint(2, 6)):
            s.others()
        order = s.names[:]
        r.shuffle(order)
        s.defs.insert(0, "let %sm = %s;" % (s.u, flmasks(s.sp)))
        s.defs.insert(0, "let %so = var_order [%s];" % (s.u, ",".join('"%s"' % v for v in order)))
        force = ("((%so) = []) fseq " % s.u) + "".join("%s fseq " % n for n in s.order)
        cases.append(Multi("\n".join(s.defs), s.parts, force))
    ctx.run_cases(cases, prelude=TTPRE, chunk=30, timeout=100, variant="fast")
    ctx.count("computations", len(cases))


if __name__ == "__main__":
    main("C05", run)
