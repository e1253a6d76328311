"""C02: bools are canonical Boolean functions.  Oracle: truth tables."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Case, Multi, main
from bf import Space, rand_expr, TTPRE, flmasks

POOL = ["a", "b", "c", "d", "e", "v[0]", "v[1]", "v[2]", "k_n", "top/m"]
BND = ["q1", "q2", "q3"]


class S:
    """One session: a list of fl definitions, and the table each must have."""

    def __init__(self, r, num, nv):
        self.r, self.num = r, num
        self.names = r.sample(POOL, nv)
        self.sp = Space(self.names)
        self.defs, self.tab = [], []
        self.u = "s%d_" % num
        self.lazy = r.random() < 0.25
        self.atoms = [('(variable "%s")' % v, self.sp.m[v]) for v in self.names]
        self.alist = list(self.atoms)

    def expr(self, depth):
        return rand_expr(self.r, self.sp, self.alist, depth, "noite" if self.lazy else "bdd")

    def vs(self, lo=0, hi=None):
        k = self.r.randint(lo, min(hi or self.sp.n, self.sp.n))
        return self.r.sample(self.names, k)

    def fv(self, vs):
        return "[%s]" % ",".join('"%s"' % v for v in vs)

    def qexpr(self, vs):
        """an expression that depends on exactly vs"""
        if not vs:
            return self.r.choice(["T", "F"])
        op = self.r.choice([" AND ", " OR ", " XOR "])
        return "(" + op.join('(variable "%s")' % v for v in vs) + ")"

    def define(self):
        r, sp = self.r, self.sp
        k = r.random()
        if k < 0.35 or not self.tab:
            t, v = self.expr(r.randint(1, 4))
        elif k < 0.45 and not self.lazy:
            t, v = self.expr(3)
            # the same function in another shape
            s = r.choice(self.names)
            h = "(substitute [(\"%s\",T)] %s)" % (s, t)
            l = "(substitute [(\"%s\",F)] %s)" % (s, t)
            t = "((variable \"%s\") => %s | %s)" % (s, h, l)
        elif k < 0.55:
            t, v = self.expr(3)
            q = self.vs(0, 3)
            if r.random() < 0.5:
                t, v = r.choice(["(Quant_forall %s %s)" % (self.fv(q), t), "(quant_forall %s %s)" % (self.qexpr(q), t)]), sp.forall(v, q)
            else:
                t, v = r.choice(["(Quant_thereis %s %s)" % (self.fv(q), t), "(quant_thereis %s %s)" % (self.qexpr(q), t)]), sp.exists(v, q)
        elif k < 0.63:
            # bound variables of the language; some bound names equal names of variables
            b = r.sample(BND + [n for n in self.names if n.isalpha()][:2], r.randint(1, 2))
            sp2 = Space(self.names + ["\0" + x for x in b])
            def up(t):
                for i in range(len(b)):
                    t |= t << (1 << (sp.n + i))
                return t
            at = [(n, up(x)) for n, x in self.alist] + [(x, sp2.m["\0" + x]) for x in b] * 3
            e, ve = rand_expr(r, sp2, at, 3, "noite" if self.lazy else "bdd")
            qs = ["\0" + x for x in b]
            if r.random() < 0.5:
                t, ve = "(!%s. %s)" % (" ".join(b), e), sp2.forall(ve, qs)
            else:
                t, ve = "(?%s. %s)" % (" ".join(b), e), sp2.exists(ve, qs)
            v = ve & sp.all
        elif k < 0.73:
            (t1, v1), (t2, v2) = self.expr(2), self.expr(2)
            q = self.vs(0, 4)
            if r.random() < 0.5:
                t, v = "(relprod_thereis %s %s %s)" % (self.qexpr(q), t1, t2), sp.exists(v1 & v2, q)
            else:
                t, v = "(relprod_forall %s %s %s)" % (self.qexpr(q), t1, t2), sp.forall(v1 & v2, q)
        elif k < 0.85:
            t, v = self.expr(3)
            q = self.vs(1, 4)
            sub = {}
            txt = []
            for x in q:
                e, ve = self.expr(r.randint(0, 2))
                sub[x] = ve
                txt.append('("%s",%s)' % (x, e))
            v = sp.subst(v, sub)
            if r.random() < 0.5:
                t = "(substitute [%s] %s)" % (",".join(txt), t)
            else:  # inside a structure
                o, _ = self.expr(1)
                t = "(snd (hd (tl (substitute [%s] [(1,%s),(2,%s)]))))" % (",".join(txt), o, t)
        elif k < 0.92:
            (t1, v1), (t2, v2) = self.expr(2), self.expr(2)
            op = r.choice(["AND", "OR"])
            t = "(limited%s %s %s 100000)" % (op, t1, t2)
            v = v1 & v2 if op == "AND" else v1 | v2
        else:
            es = [self.expr(2) for _ in range(r.randint(0, 4))]
            fs = [self.expr(2) for _ in es]
            t = "([%s] = [%s])" % (",".join(e[0] for e in es), ",".join(e[0] for e in fs))
            v = sp.all
            for (_, a), (_, b) in zip(es, fs):
                v &= sp.neg(a ^ b)
            if not es:
                t = "T"
        n = self.u + str(len(self.tab))
        self.defs.append("let %s = %s;" % (n, t))
        self.tab.append(v)
        self.alist.append((n, v))

    def f(self, i):
        return self.u + str(i)


def asg(txt):
    """[(v,b),...] printed by __pa"""
    return [tuple(x.split("=")) for x in txt.strip("[]").split(";") if x]


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random sessions of definitions over 1..7 BDD variables under a random variable order, using every connective, "
                "quantifier, relational product, substitution and query; sessions of one process share variables, tables and caches. "
                "Each diagram is read back by walking it and compared with a truth table. Non-trivial: a distinct definition or query.")
    ctx.assumptions = ["integers are right (C01): the walk accumulates tables as integers"]
    pre = TTPRE + r'''
let __bt b = (b == T) => "1" | (b == F) => "0" | "?";
let __ord vs = list2str F "" "," "" fst (profile (map variable vs));
let __pa l = "["^(__l (\p. (fst p)^"="^(__bt (snd p))) l)^"]";
letrec __eqs [] = "" /\ __eqs (x:xs) = (__l2 x xs)^(__eqs xs) ;
'''
    pre = pre.replace("letrec __eqs", "letrec __l2 x [] = \"\" /\\ __l2 x (y:ys) = (__bt (x == y))^(__l2 x ys);\nletrec __eqs")
    cases = []
    for num in range(ctx.scale(2500, 30000)):
        s = S(r, num, r.choice([1, 2, 3, 4, 4, 5, 5, 6, 6, 7]))
        sp = s.sp
        for _ in range(r.randint(4, 9)):
            s.define()
        n = len(s.tab)
        order = s.names[:]
        r.shuffle(order)
        first = "let %sorder = %s;\n" % (s.u, "(var_order %s)" % s.fv(order) if r.random() < 0.6 else '(var_order [])')
        # Sharing an unevaluated value between branches of symbolic conditionals is unsound in the
        # pinned tree (see known_findings.txt): sessions evaluate each definition in turn, or have no conditional.
        force = "((%sorder) = []) fseq " % s.u if r.random() < 0.7 else ""
        if not s.lazy:
            force += "".join("%s fseq " % s.f(i) for i in range(n))
        ms = "let %sm = %s;\n" % (s.u, flmasks(sp))
        lst = "[%s]" % ",".join(s.f(i) for i in range(n))
        if r.random() < 0.3:
            lst = "(rev [%s])" % ",".join(s.f(i) for i in reversed(range(n)))
        pre_txt = first + ms + "\n".join(s.defs)

        def exp(out, s=s, n=n):
            want = "=" + ",".join("%x" % t for t in s.tab) + "|"
            eqs = "".join("1" if s.tab[i] == s.tab[j] else "0" for i in range(n) for j in range(i + 1, n))
            if out == want + eqs:
                return None
            return "expected %s%s" % (want, eqs)
        parts = [("session", "(let l = %s in (list2str F \"\" \",\" \"\" (\\f. __x (__tt %d %sm f)) l)^\"|\"^(__eqs l))" % (
            lst, sp.all, s.u), exp)]

        def q(kind, expr, exp, trivial=False):
            parts.append((kind, expr, exp))
        for _ in range(r.randint(2, 6)):
            i, j = r.randrange(n), r.randrange(n)
            t = s.tab[i]
            k = r.choice(["dep", "size", "count", "fpcount", "ex", "full", "force", "param", "fparam", "limit", "sig", "cofs", "c2n", "enum", "prof", "cond", "tt2"])
            two = r.random() < 0.3
            if k == "dep":
                want = set(sp.depends(t)) | (set(sp.depends(s.tab[j])) if two else set())
                q(k, "__l id (depends %s)" % ("[%s,%s]" % (s.f(i), s.f(j)) if two else s.f(i)),
                  lambda o, want=want: None if o[0] == "=" and sorted(x for x in o[1:].split(";") if x) == sorted(want) else "expected variables %s" % sorted(want))
            elif k in ("size", "prof"):
                fs = [i, j] if two else [i]
                arg = "[%s]" % ",".join(s.f(x) for x in fs)
                e = "%s fseq (__ord %s)^\"|\"^(int2str (bdd_size %s))^\"|\"^(list2str F \"\" \",\" \"\" (\\p. (fst p)^\"=\"^(int2str (snd p))) (profile %s))" % (arg, s.fv(s.names), arg, arg)

                def chk(o, sp=sp, tabs=[s.tab[x] for x in fs]):
                    if o[0] != "=":
                        return "expected sizes"
                    od, sz, pr = o[1:].split("|")
                    od = od.split(",")
                    w = sp.nodes(tabs, od)
                    # a node stands for a function and its complement
                    cnt = {v: len({min(f, sp.neg(f)) for f in w[v]}) for v in w}
                    got = dict((p.rsplit("=", 1)[0], int(p.rsplit("=", 1)[1])) for p in pr.split(",") if p)
                    if sum(got.values()) != int(sz):
                        return "profile and size disagree"
                    # a root may be counted beside its complement
                    full = {v: cnt[v] + sum(f in w[v] for f in set(tabs)) for v in w}
                    if any(v not in got and cnt[v] or v in got and not cnt.get(v, 0) <= got[v] <= full.get(v, 0) for v in set(cnt) | set(got)):
                        return "expected between %s and %s nodes" % (cnt, full)
                    return None
                q(k, e, chk)
            elif k == "count":
                vs = sp.depends(t)
                extra = [v for v in s.names if v not in vs]
                vs = vs + r.sample(extra, r.randint(0, len(extra)))
                r.shuffle(vs)
                q(k, "int2str (%s %s %s)" % ("int_model_count", s.fv(vs), s.f(i)), str(sp.count(t, vs)))
            elif k == "fpcount":
                vs = sorted(set(sp.depends(t)) | set(sp.depends(s.tab[j])))
                if not vs:
                    vs = [s.names[0]]
                extra = [v for v in s.names if v not in vs]
                vs = vs + r.sample(extra, r.randint(0, len(extra)))
                q(k, "__l float2str (fp_model_count %s [%s,T,%s] %s)" % (s.fv(vs), s.f(i), s.f(j), s.f(j)),
                  "%.1f;%.1f;%.1f" % (sp.count(t & s.tab[j], vs), sp.count(s.tab[j], vs), sp.count(s.tab[j], vs)))
            elif k in ("ex", "full"):
                pref = r.random() < 0.5
                vs = sp.depends(t)
                vs += [v for v in s.names if v not in vs and r.random() < 0.5]
                e = "__pa (%s %s %s %s)" % ("example" if k == "ex" else "full_example", "T" if pref else "F", s.fv(vs) if k == "full" else "", s.f(i))

                def chk(o, sp=sp, t=t, k=k, vs=vs, pref=pref):
                    if t == 0:
                        return None
                    if o[0] != "=":
                        return "expected an example"
                    a = asg(o[1:])
                    if any(b not in "01" for _, b in a) or len(dict(a)) != len(a):
                        return "not an assignment"
                    if sorted(dict(a)) != sorted(sp.depends(t) if k == "ex" else vs):
                        return "assigns the wrong variables"
                    f = t
                    for v, b in a:
                        # a choice is forced only when the other value is impossible
                        o1 = sp.cof(f, v, 1 - int(b))
                        if int(b) != pref and o1 != 0:
                            return "preference ignored at %s" % v
                        f = sp.cof(f, v, int(b))
                    return None if f == sp.all else "the example does not satisfy the function"
                q(k, e, chk)
            elif k == "force":
                if t == 0:
                    continue
                want = sorted("%s=%d" % (v, b) for v in sp.depends(t) for b in (0, 1) if sp.cof(t, v, 1 - b) == 0)
                q(k, "__pa (forcing %s)" % s.f(i), lambda o, want=want: None if o[0] == "=" and sorted(x for x in o[2:-1].split(";") if x) == want else "expected %s" % want)
            elif k == "param":
                if t == 0:
                    q(k, "__pa (param %s)" % s.f(i), lambda o: None if o[0] == "!" else "expected an error")
                    continue
                vs = sp.depends(t)

                def chk(o, sp=sp, t=t, vs=vs):
                    if o[0] != "=":
                        return "expected a parametrisation"
                    d = dict(x.rsplit("=", 1) for x in o[1:].split(";") if x)
                    if sorted(d) != sorted(vs):
                        return "expected variables %s" % vs
                    d = {v: int(x, 16) for v, x in d.items()}
                    img = set()
                    for m in range(sp.size):
                        k = 0
                        for x, v in enumerate(sp.names):
                            if (d[v] if v in d else sp.m[v]) >> m & 1:
                                k |= 1 << x
                        img.add(k)
                        if not t >> k & 1:
                            return "a parameter value leaves the condition"
                    if len(img) != bin(t).count("1"):
                        return "not onto the condition"
                q(k, "__l (\\p. (fst p)^\"=\"^(__x (__tt %d %sm (snd p)))) (param %s)" % (sp.all, s.u, s.f(i)), chk)
            elif k == "fparam":
                vs = s.vs(1, 3)
                # next-state names must not clash with the session's own
                if any(v.endswith("_n") for v in s.names) or t == 0:
                    continue
                sp2 = Space(s.names + [v + "_n" for v in s.names]) if sp.n <= 4 else None
                if not sp2:
                    continue
                t2 = t
                for x in range(sp.n):
                    t2 |= t2 << (1 << (sp.n + x))

                def chk(o, sp=sp2, t=t2, vs=vs, names=s.names):
                    if o[0] != "=":
                        return "expected a parametrisation"
                    d = dict(x.rsplit("=", 1) for x in o[1:].split(";") if x)
                    if not set(vs) <= set(d):
                        return "expected variables %s" % vs
                    d = {v: int(x, 16) for v, x in d.items()}
                    for v, x in d.items():
                        if any(w in sp.depends(x) for w in vs):
                            return "solution depends on the variables solved for"
                    res = sp.subst(t, d)
                    care = sp.exists(t, vs)
                    if care & sp.neg(res):
                        return "the solution does not satisfy the function wherever it can be satisfied"
                    # onto: every solution is reached, for each value of the other variables
                    others = [v for v in names if v not in vs]
                    want, got = set(), set()
                    for m in range(sp.size):
                        env = sp.assign(m)
                        o_ = tuple(env[v] for v in others)
                        if t >> m & 1:
                            want.add((o_, tuple(env[v] for v in vs)))
                        if care >> m & 1:
                            got.add((o_, tuple(d[v] >> m & 1 for v in vs)))
                    if want != got:
                        return "not every solution is generated"
                q(k, "__l (\\p. (fst p)^\"=\"^(__x (__tt %d %s (snd p)))) (fparam %s %s)" % (sp2.all, flmasks(sp2), s.fv(vs), s.f(i)), chk)
            elif k == "limit":
                lim = r.randint(1, 12)
                op = r.choice(["AND", "OR"])
                v = t & s.tab[j] if op == "AND" else t | s.tab[j]

                def chk(o, sp=sp, v=v, lim=lim):
                    od, _, rest = o[1:].partition("|")
                    w = sp.nodes([v], od.split(","))
                    small = sum(len({min(f, sp.neg(f)) for f in w[x]}) for x in w)
                    if rest == "too big":
                        return None if lim <= small else "refused although the result has only %d nodes" % small
                    if rest != "%x" % v:
                        return "expected %x" % v
                    return None if small <= lim else "accepted although the result has %d nodes" % small
                q(k, "[%s,%s] fseq (__ord %s)^\"|\"^((__x (__tt %d %sm (limited%s %s %s %d))) catch \"too big\")" % (s.f(i), s.f(j), s.fv(s.names), sp.all, s.u, op, s.f(i), s.f(j), lim), chk)
            elif k == "sig":
                q(k, "__b ((bdd_signature %s) = (bdd_signature %s))" % (s.f(i), s.f(j)), "T" if t == s.tab[j] else "F")
            elif k == "cofs":
                if t in (0, sp.all):
                    q(k, "(top_cofactor %s) fseq \"\"" % s.f(i), lambda o: None if o[0] == "!" else "expected an error")
                    continue

                def chk(o, sp=sp, t=t):
                    if o[0] != "=":
                        return "expected cofactors"
                    v, h, l = o[1:].split(";")
                    if v not in sp.depends(t):
                        return "top variable is not in the function"
                    if int(h, 16) != sp.cof(t, v, 1) or int(l, 16) != sp.cof(t, v, 0):
                        return "expected cofactors %x %x" % (sp.cof(t, v, 1), sp.cof(t, v, 0))
                q(k, "val (v,h,l) = top_cofactor %s in v^\";\"^(__x (__tt %d %sm h))^\";\"^(__x (__tt %d %sm l))" % (s.f(i), sp.all, s.u, sp.all, s.u), chk)
            elif k == "c2n":
                if any(v.endswith("_n") for v in s.names) or sp.n > 5:
                    continue
                ren = "%s" % flmasks_renamed(sp)
                q(k, "(__x (__tt %d %s (bdd_current2next %s)))^\" \"^(__x (__tt %d %sm (bdd_next2current (bdd_current2next %s))))" % (
                    sp.all, ren, s.f(i), sp.all, s.u, s.f(i)), "%x %x" % (t, t))
            elif k == "cond" and not s.lazy:
                # if-then-else with a symbolic condition over structures of bools
                v = (sp.ite(t, s.tab[j], sp.m[s.names[0]]), sp.ite(t, sp.m[s.names[0]], s.tab[j]))
                q(k, "let p = %s => [(%s,T),(%s,F)] | [(%s,F),(%s,T)] in (__l (\\x. __x (__tt %d %sm (fst x))) p)^\";\"^(__l (\\x. __x (__tt %d %sm (snd x))) p)" % (
                    s.f(i), s.f(j), s.atoms[0][0], s.atoms[0][0], s.f(j), sp.all, s.u, sp.all, s.u), "%x;%x;%x;%x" % (v[0], v[1], t, sp.neg(t)))
            elif k == "tt2":
                # the same table through constant substitution
                m = r.randrange(sp.size)
                a = sp.assign(m)
                q(k, "__bt (substitute [%s] %s)" % (",".join('("%s",%s)' % (v, "T" if b else "F") for v, b in a.items()), s.f(i)), str(t >> m & 1))
            elif k == "enum":
                if any("[" in v or "/" in v for v in s.names):
                    continue
                vs = s.names[:]
                r.shuffle(vs)
                mx = r.choice([1, 2, 5, 100])
                # prints one line per example; captured by the marker reader below
                q(k, "(fprintf stdout \"\\n<<\") fseq (enumerate_examples %d %s %s) fseq \"done\"" % (mx, s.fv(vs), s.f(i)), lambda o: None if o == "=done" else "expected examples", trivial=True)
        if r.random() < 0.4:
            r.shuffle(parts)
        cases.append(Multi(pre_txt, parts, force))
    A, B, C = ['(variable "%s")' % v for v in "abc"]
    sp = Space("abc")
    want = "%x" % sp.ite(sp.m["a"], sp.m["b"], sp.m["c"])
    rd = "__x (__tt %d %s lz_t)" % (sp.all, flmasks(sp))
    cases.append(Multi("let lz_t = %s => %s | %s; let lz_u = %s => lz_t | F;" % (A, B, C, A),
                       [("lazy-ite-context", "lz_u fseq (%s)" % rd, want)]))
    cases.append(Multi("let lz_t = %s => %s | %s; let lz_u = %s => lz_t | F;" % (A, B, C, A),
                       [("ite-shared-evaluated", "lz_t fseq lz_u fseq (%s)" % rd, want)]))
    cases.append(Multi("", [("fpcount-no-variables", "__l float2str (fp_model_count [] [T,F] T)", "1.0;0.0")]))
    ctx.run_cases(cases, prelude=pre, chunk=30, timeout=60)
    ctx.count("sessions", len(cases))


def flmasks_renamed(sp):
    return "[%s]" % ",".join('("%s_n",%d)' % (v, sp.m[v]) for v in sp.names)


if __name__ == "__main__":
    main("C02", run)
