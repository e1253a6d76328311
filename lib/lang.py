"""Random fl programs with a call-by-need reference semantics (see DESIGN.md, C10)."""
import sys
sys.setrecursionlimit(20000)


class Err(Exception):
    """an fl failure; the reference never depends on which of several"""


class Budget(Exception):
    pass


class Ambiguous(Exception):
    """the documentation does not say"""


class W:
    """A world: counters of one reference evaluation."""

    def __init__(self, budget=6000):
        self.steps = budget
        self.ticks = {}
        self.amb = False

    def step(self):
        self.steps -= 1
        if self.steps < 0:
            raise Budget()


class Th:
    __slots__ = ("fn", "env", "w", "v", "busy")

    def __init__(self, w, fn, env):
        self.fn, self.env, self.w, self.v, self.busy = fn, env, w, None, False

    def f(self):
        if self.fn is not None:
            if self.busy:
                raise Budget()  # depends on itself: fl would not answer
            self.busy = True
            try:
                self.v = self.fn(self.env)
            finally:
                self.busy = False
            self.fn = self.env = None
        return self.v


class Val(Th):
    __slots__ = ()

    def __init__(self, v):
        self.fn, self.v = None, v


NIL = ("nil",)


def deep(w, v):
    w.step()
    if isinstance(v, tuple):
        for x in v[1:] if v[0] != "C" else v[2]:
            deep(w, x.f())


def show(w, v):
    """what the printers of the prelude write"""
    w.step()
    if v is True:
        return "T"
    if v is False:
        return "F"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if v[0] == "p":
        return "(%s,%s)" % (show(w, v[1].f()), show(w, v[2].f()))
    if v[0] in ("nil", "cons"):
        out = []
        while v[0] == "cons":
            w.step()
            out.append(show(w, v[1].f()))
            v = v[2].f()
        return "[" + ";".join(out) + "]"
    return v[1] + "".join("<%s>" % show(w, x.f()) for x in v[2])


def equal(w, a, b):
    """structural equality; which parts fl looks at when they differ is not documented"""
    t0 = sum(w.ticks.values())
    v = equal_(w, a, b)
    if not v and sum(w.ticks.values()) != t0:
        raise Ambiguous()
    return v


def idle(w, f):
    """the outcome of an operand fl may or may not evaluate"""
    t0 = sum(w.ticks.values())
    y = outcome(w, f)
    if y[0] == "err" or sum(w.ticks.values()) != t0:
        raise Ambiguous()
    return y[1]


def equal_(w, a, b):
    w.step()
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return False
        if a[0] == "C":
            xs, ys, same = a[2], b[2], a[1] == b[1]
            if not same:
                return False
        else:
            xs, ys = a[1:], b[1:]
        res = True
        for x, y in zip(xs, ys):
            try:
                if not equal_(w, x.f(), y.f()):
                    res = False
            except Err:
                if res is False or len(xs) > 1:
                    raise Ambiguous()
                raise
        return res
    return a == b


DATA = {
    # name: (parameters, constructors: (name, argument types))
    "shape": ([], [("Dot", []), ("Circle", ["int"]), ("Rect", ["int", "str"]), ("Group", [("list", ("data", "shape"))])]),
    "tree": (["a"], [("Leaf", ["a"]), ("Node", [("data", "tree", "a"), ("data", "tree", "a")]), ("Nil0", [])]),
    "expr": ([], [("Num", ["int"]), ("Add", [("data", "expr"), ("data", "expr")]), ("Iff", [("data", "cond"), ("data", "expr"), ("data", "expr")])]),
    "cond": ([], [("Less", [("data", "expr"), ("data", "expr")]), ("Both", [("data", "cond"), ("data", "cond")]), ("Yes", [])]),
    "color": ([], [("Red", []), ("Green", []), ("Blue", [])]),
}
PRELUDE = r'''
lettype shape = Dot | Circle int | Rect int string | Group (shape list);
lettype *a tree = Leaf *a | Node ({*a} tree) ({*a} tree) | Nil0;
lettype expr = Num int | Add expr expr | Iff cond expr expr
andlettype cond = Less expr expr | Both cond cond | Yes;
lettype color = Red | Green | Blue;
letrec __shape Dot = "Dot" /\ __shape (Circle i) = sprintf "Circle<%d>" i /\ __shape (Rect i s) = sprintf "Rect<%d><%s>" i (__s s)
 /\ __shape (Group l) = "Group<"^(__L __shape l)^">";
letrec __tree p (Leaf x) = "Leaf<"^(p x)^">" /\ __tree p Nil0 = "Nil0" /\ __tree p (Node a b) = "Node<"^(__tree p a)^"><"^(__tree p b)^">";
forward_declare {__cond :: cond->string};
letrec __expr (Num i) = "Num<"^(int2str i)^">" /\ __expr (Add a b) = "Add<"^(__expr a)^"><"^(__expr b)^">"
 /\ __expr (Iff c a b) = "Iff<"^(__cond c)^"><"^(__expr a)^"><"^(__expr b)^">";
letrec __cond (Less a b) = "Less<"^(__expr a)^"><"^(__expr b)^">" /\ __cond (Both a b) = "Both<"^(__cond a)^"><"^(__cond b)^">" /\ __cond Yes = "Yes";
let __color Red = "Red" /\ __color Green = "Green" /\ __color Blue = "Blue";
let __cnt = map (\i. ref 0) (0 upto 9);
let __c i = el (i+1) __cnt;
let tick i e = ((__c i) := ((deref (__c i)) + 1)) fseq e;
let __zero u = (map (\i. (__c i) := 0) (0 upto 9)) fseq ();
let __counts u = list2str F "" "," "" (\i. int2str (deref (__c i))) (0 upto 9);
let oadd_i {a::int} {b::int} = a+b+1;
let oadd_s {a::string} {b::string} = a^"+"^b;
let oadd_b {a::bool} {b::bool} = NOT (a AND b);
overload oadd oadd_i oadd_s oadd_b;
let +++ a b = a + 10 * b;
infix 4 +++;
let --> a b = a - b;
infixr 4 -->;
let ns i = 3*i;
postfix ns;
let ~~ i = 0-i;
prefix 0 ~~;
'''


def data_cons(t):
    params, cons = DATA[t[1]]
    sub = dict(zip(params, t[2:]))

    def s(x):
        if isinstance(x, str):
            return sub.get(x, x)
        return (x[0],) + tuple(x[1:2] if x[0] == "data" else ()) + tuple(s(y) for y in (x[2:] if x[0] == "data" else x[1:]))
    return [(n, [s(a) for a in args]) for n, args in cons]


def pr(t):
    if t == "int":
        return "int2str"
    if t == "bool":
        return "__b"
    if t == "str":
        return "__s"
    if t[0] == "list":
        return "(__L %s)" % pr(t[1])
    if t[0] == "pair":
        return "(__pp %s %s)" % (pr(t[1]), pr(t[2]))
    if t[1] == "tree":
        return "(__tree %s)" % pr(t[2])
    return "__" + t[1]


def ty(t):
    if t == "str":
        return "string"
    if isinstance(t, str):
        return t
    if t[0] == "list":
        return "((%s) list)" % ty(t[1])
    if t[0] == "pair":
        return "((%s)#(%s))" % (ty(t[1]), ty(t[2]))
    if t[0] == "fn":
        return "((%s)->(%s))" % (ty(t[1]), ty(t[2]))
    if t[1] == "tree":
        return "({%s} tree)" % ty(t[2])
    return t[1]


def const(v):
    return lambda env: v


class Gen:
    """Generates a program: definitions (fl text) and questions (fl text, reference)."""

    def __init__(self, r, tag, errors=True, ticks=True):
        self.r, self.tag = r, tag
        self.n = 0
        self.w = W()
        self.errors, self.ticks = errors, ticks
        self.notree = False
        self.glob = {}   # fl name -> (type, thunk)
        self.text = []
        self.tickno = 0
        self.polys = []  # (name, argument types as a function of a type parameter, python)

    def name(self, base="x"):
        self.n += 1
        return self.r.choice(["x", "y'", "acc_", "n", "foo", "B"]) + str(self.n) if base == "x" else "%s_%s%d" % (base, self.tag, self.n)

    # -- types -----------------------------------------------------------
    def rtype(self, d=2, fn=False):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.45:
            return r.choice(["int", "int", "int", "bool", "str", ("data", "color")])
        if k < 0.62:
            return ("list", self.rtype(d - 1))
        if k < 0.75:
            return ("pair", self.rtype(d - 1), self.rtype(d - 1))
        if k < 0.8 and fn:
            return ("fn", self.rtype(d - 1), self.rtype(d - 1))
        return r.choice([("data", "shape"), ("data", "expr"), ("data", "cond"),
                         ("data", "expr") if self.notree else ("data", "tree", self.rtype(d - 1)), ("data", "color")])

    # -- expressions: (text, fn(env) -> WHNF value) -------------------------
    def lit(self, t):
        r, w = self.r, self.w
        if t == "int":
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 17, 2 ** 40])
            return str(v), const(v)
        if t == "bool":
            v = r.random() < 0.5
            return ("T" if v else "F"), const(v)
        if t == "str":
            v = r.choice(["", "a", "b", "abc", "x y", "ab"])
            return '"%s"' % v, const(v)
        if t[0] == "list":
            return "[]", const(NIL)
        if t[0] == "pair":
            a, fa = self.lit(t[1])
            b, fb = self.lit(t[2])
            return "(%s,%s)" % (a, b), lambda e: ("p", Th(w, fa, e), Th(w, fb, e))
        if t[0] == "fn":
            x = self.name()
            a, fa = self.lit(t[2])
            return "(\\%s. %s)" % (x, a), lambda e: (lambda th: fa(e))
        cs = [c for c in data_cons(t) if not any(a == t or isinstance(a, tuple) for a in c[1])]
        if not cs:
            cs = data_cons(t)[:1]
        return self.cons(t, r.choice(cs), None, 0)

    def cons(self, t, c, env, d):
        name, args = c
        w = self.w
        if not args:
            return name, const(("C", name, ()))
        es = [self.expr(a, env, d - 1) if env is not None else self.lit(a) for a in args]
        fs = [e[1] for e in es]
        return "(%s %s)" % (name, " ".join(e[0] for e in es)), lambda env: ("C", name, tuple(Th(w, f, env) for f in fs))

    def vars_of(self, t, env):
        return [v for v, (tt, _) in env.items() if tt == t]

    def expr(self, t, env, d):
        """env: name -> (type, None); the run-time environment maps names to thunks"""
        r, w = self.r, self.w
        if d <= 0:
            vs = self.vars_of(t, env)
            if vs and r.random() < 0.8:
                return self.var(r.choice(vs))
            gs = [g for g, (tt, _) in self.glob.items() if tt == t]
            if gs and r.random() < 0.4:
                return self.gvar(r.choice(gs))
            return self.lit(t)
        k = r.random()
        vs = self.vars_of(t, env)
        if vs and k < 0.12:
            return self.var(r.choice(vs))
        opts = ["if", "app", "let", "match", "val", "global", "proj", "hd", "fseq", "catch", "letf", "hof"]
        if self.errors and r.random() < 0.06:
            return '(error "e%d")' % r.randint(0, 9), self.err
        if self.ticks and r.random() < 0.04 and self.tickno < 10:
            i = self.tickno
            self.tickno += 1
            a, fa = self.expr(t, env, d - 1)
            return "(tick %d %s)" % (i, a), lambda e: (w.ticks.__setitem__(i, w.ticks.get(i, 0) + 1), fa(e))[1]
        if isinstance(t, str) or r.random() < 0.5:
            opts += ["prim"] * 8
        o = r.choice(opts)
        return getattr(self, "e_" + o)(t, env, d)

    def err(self, e):
        raise Err()

    def var(self, v):
        def f(e, v=v):
            self.w.step()
            return e[v].f()
        return v, f

    def gvar(self, g):
        th = self.glob[g][1]

        def f(e):
            self.w.step()
            return th.f()
        return g, f

    def e_prim(self, t, env, d):
        r, w = self.r, self.w
        if t == "int":
            o = r.choice(["+", "-", "*", "/", "%", "~", "strlen", "+++", "-->", "ns", "~~", "oadd", "str2int", "len"])
            if o in ("strlen", "str2int"):
                a, fa = self.expr("str", env, d - 1)
                return "(strlen %s)" % a, lambda e: len(fa(e))
            if o == "len":
                a, fa = self.expr(("list", "int"), env, d - 1)

                def ln(e):
                    v, n = fa(e), 0
                    while v[0] == "cons":
                        w.step()
                        n += 1
                        v = v[2].f()
                    return n
                return "(length %s)" % a, ln
            a, fa = self.expr("int", env, d - 1)
            if o in ("~", "~~"):
                return ("(0-{%s :: int})" if o == "~" else "(~~ %s)") % a, lambda e: -fa(e)
            if o == "ns":
                return "(%s ns)" % a, lambda e: 3 * fa(e)
            if r.random() < 0.5 and o in "/%+-*" and a[0].isdigit():
                pass
            elif o in "/%+-*":
                a = "{%s :: int}" % a
            b, fb = self.expr("int", env, d - 1)
            if o in "/%":
                def dv(e):
                    x, y = fa(e), fb(e)
                    if y == 0:
                        raise Err()
                    return x // y if o == "/" else x % y
                return "(%s %s %s)" % (a, o, b), dv
            if o == "oadd":
                return "(oadd {%s :: int} %s)" % (a, b), lambda e: fa(e) + fb(e) + 1
            if o in ("+++", "-->") and r.random() < 0.5:
                c, fc = self.expr("int", env, d - 2)
                # infix 4 associates to the left, infixr to the right; * binds tighter than +++
                if o == "+++":
                    return "(%s +++ %s +++ %s * 2)" % (a, b, c), lambda e: lim(fa(e) + 10 * fb(e) + 10 * (fc(e) * 2))
                return "(%s --> %s --> %s)" % (a, b, c), lambda e: fa(e) - (fb(e) - fc(e))
            fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: lim(x * y),
                  "+++": lambda x, y: x + 10 * y, "-->": lambda x, y: x - y}[o]

            def op(e):
                w.step()
                return fn(fa(e), fb(e))
            if o in "+-*" and r.random() < 0.2:
                # precedence and association written without parentheses
                c, fc = self.expr("int", env, d - 2)
                o2 = r.choice("+-*")
                f2 = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: lim(x * y)}[o2]
                if o2 == "*" and o != "*":
                    return "(%s %s %s * %s)" % (a, o, b, c), lambda e: fn(fa(e), f2(fb(e), fc(e)))
                return "(%s %s %s %s %s)" % (a, o, b, o2, c), lambda e: f2(fn(fa(e), fb(e)), fc(e))
            return "(%s %s %s)" % (a, o, b), op
        if t == "bool":
            o = r.choice(["=", "!=", "<", "<=", ">", ">=", "AND", "OR", "NOT", "XOR", "empty", "oadd", "=="])
            if o == "NOT":
                a, fa = self.expr("bool", env, d - 1)
                return "(NOT %s)" % a, lambda e: not fa(e)
            if o == "empty":
                a, fa = self.expr(("list", self.rtype(1)), env, d - 1)
                return "(empty %s)" % a, lambda e: fa(e)[0] == "nil"
            if o in ("AND", "OR"):
                a, fa = self.expr("bool", env, d - 1)
                b, fb = self.expr("bool", env, d - 1)

                def bo(e):
                    x = fa(e)
                    if x is (o == "OR"):
                        idle(w, lambda: fb(e))
                        return x
                    return fb(e)
                return "(%s %s %s)" % (a, o, b), bo
            if o in ("XOR", "oadd"):
                a, fa = self.expr("bool", env, d - 1)
                b, fb = self.expr("bool", env, d - 1)
                if o == "XOR":
                    return "(%s XOR %s)" % (a, b), lambda e: fa(e) != fb(e)

                def nand(e):
                    x = fa(e)
                    if not x:
                        idle(w, lambda: fb(e))
                        return True
                    return not fb(e)
                return "(oadd {%s :: bool} %s)" % (a, b), nand
            if o in ("=", "!=", "=="):
                t2 = self.rtype(1) if o != "==" else "int"
                a, fa = self.expr(t2, env, d - 1)
                b, fb = self.expr(t2, env, d - 1)
                if True:
                    a = "{%s :: %s}" % (a, ty(t2))
                if o == "==":
                    return "(%s == %s)" % (a, b), lambda e: fa(e) == fb(e)

                def eq(e):
                    t0 = sum(w.ticks.values())
                    x, y = outcome(w, lambda: fa(e)), outcome(w, lambda: fb(e))
                    if x[0] == "err" or y[0] == "err":
                        if sum(w.ticks.values()) != t0:
                            raise Ambiguous()
                        raise Err()
                    v = equal(w, x[1], y[1])
                    if not v:
                        idle(w, lambda: (deep_ret(w, x[1]), deep_ret(w, y[1])))
                    return v if o == "=" else not v
                return "(%s %s %s)" % (a, o, b), eq
            a, fa = self.expr("int", env, d - 1)
            b, fb = self.expr("int", env, d - 1)
            fn = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[o]
            return "({%s :: int} %s %s)" % (a, o, b), lambda e: fn(fa(e), fb(e))
        if t == "str":
            o = r.choice(["^", "int2str", "oadd", "^", "str"])
            if o == "int2str":
                a, fa = self.expr("int", env, d - 1)
                return "(int2str %s)" % a, lambda e: str(fa(e))
            if o == "str":
                a, fa = self.expr("int", env, d - 1)
                b, fb = self.expr("str", env, d - 1)
                return '(sprintf "%%d:%%s" %s %s)' % (a, b), lambda e: lims("%d:%s" % (fa(e), fb(e)))
            a, fa = self.expr("str", env, d - 1)
            b, fb = self.expr("str", env, d - 1)
            if o == "^":
                return "(%s ^ %s)" % (a, b), lambda e: lims(fa(e) + fb(e))
            return "(oadd {%s :: string} %s)" % (a, b), lambda e: lims(fa(e) + "+" + fb(e))
        if t[0] == "list":
            if r.random() < 0.25:
                return "[]", const(NIL)
            if r.random() < 0.4:
                es = [self.expr(t[1], env, d - 1) for _ in range(r.randint(1, 3))]

                def f(e, es=es):
                    v = NIL
                    for x in reversed(es):
                        v = ("cons", Th(w, x[1], e), Val(v))
                    return v
                return "[%s]" % ",".join(x[0] for x in es), f
            a, fa = self.expr(t[1], env, d - 1)
            b, fb = self.expr(t, env, d - 1)
            return "(%s : %s)" % (a, b), lambda e: ("cons", Th(w, fa, e), Th(w, fb, e))
        if t[0] == "pair":
            a, fa = self.expr(t[1], env, d - 1)
            b, fb = self.expr(t[2], env, d - 1)
            return "(%s,%s)" % (a, b), lambda e: ("p", Th(w, fa, e), Th(w, fb, e))
        if t[0] == "fn":
            return self.lam(t, env, d)
        return self.cons(t, r.choice(data_cons(t)), env, d)

    def lam(self, t, env, d):
        w = self.w
        if self.r.random() < 0.7:
            x = self.name()
            b, fb = self.expr(t[2], dict(env, **{x: (t[1], None)}), d - 1)
            head = x if self.r.random() < 0.8 else "{%s :: %s}" % (x, ty(t[1]))

            def f(e):
                return lambda th: fb(dict(e, **{x: th}))
            return "(\\%s. %s)" % (head, b), f
        p = self.pattern(t[1], 1)
        b, fb = self.expr(t[2], dict(env, **p[1]), d - 1)

        def g(e):
            def h(th):
                m = {}
                if not p[2](th, m):
                    raise Err()
                return fb(dict(e, **m))
            return h
        # the lexer takes \_ for one token
        return "(\\%s. %s)" % (" _ " if p[0] == "_" else p[0], b), g

    def pattern(self, t, d):
        """(text, {var: (type, None)}, match(thunk, bindings) -> bool)"""
        r = self.r
        if d <= 0 or r.random() < 0.25:
            if r.random() < 0.2:
                return "_", {}, lambda th, m: True
            x = self.name()

            def mv(th, m):
                m[x] = th
                return True
            return x, {x: (t, None)}, mv
        if isinstance(t, str):
            if t == "bool" and r.random() < 0.6 or t in ("int", "str") and r.random() < 0.5:
                v = r.choice({"int": [0, 1, 2, 3], "bool": [True, False], "str": ["", "a", "abc"]}[t])
                txt = {True: "T", False: "F"}[v] if t == "bool" else (str(v) if t == "int" else '"%s"' % v)
                return txt, {}, lambda th, m: th.f() == v
            return self.pattern(t, 0)
        if t[0] == "fn":
            return self.pattern(t, 0)
        if t[0] == "list":
            k = r.random()
            if k < 0.3:
                return "[]", {}, lambda th, m: th.f()[0] == "nil"
            if k < 0.45:
                a = self.pattern(t[1], d - 1)

                def one(th, m):
                    v = th.f()
                    return v[0] == "cons" and a[2](v[1], m) and v[2].f()[0] == "nil"
                return "[%s]" % a[0], a[1], one
            a, b = self.pattern(t[1], d - 1), self.pattern(t, d - 1)

            def mc(th, m):
                v = th.f()
                return v[0] == "cons" and a[2](v[1], m) and b[2](v[2], m)
            return "(%s : %s)" % (a[0], b[0]), dict(a[1], **b[1]), mc
        if t[0] == "pair":
            a, b = self.pattern(t[1], d - 1), self.pattern(t[2], d - 1)

            def mp(th, m):
                v = th.f()
                return a[2](v[1], m) and b[2](v[2], m)
            return "(%s,%s)" % (a[0], b[0]), dict(a[1], **b[1]), mp
        name, args = r.choice(data_cons(t))
        ps = [self.pattern(a, d - 1) for a in args]
        bind = {}
        for p in ps:
            bind.update(p[1])

        def md(th, m):
            v = th.f()
            return v[1] == name and all(p[2](x, m) for p, x in zip(ps, v[2]))
        return ("(%s %s)" % (name, " ".join(p[0] for p in ps)) if ps else name), bind, md

    def clauses(self, fname, argts, rt, env, d, extra=None, complete=None):
        """multi-clause definition; returns (text, python function of (env, thunks))"""
        r, w = self.r, self.w
        cl = []
        for i in range(r.randint(1, 3)):
            last = i == 0 and False
            ps = [self.pattern(a, r.randint(0, 2)) for a in argts]
            e2 = dict(env)
            for p in ps:
                e2.update(p[1])
            g = None
            if r.random() < 0.25:
                g = self.expr("bool", e2, 1)
            b = self.expr(rt, e2, d)
            cl.append((ps, g, b))
        if complete is None:
            complete = r.random() < 0.85
        if complete:
            xs = [self.name() for _ in argts]
            b = self.expr(rt, dict(env, **{x: (a, None) for x, a in zip(xs, argts)}), d)
            ps = []
            for x, a in zip(xs, argts):
                def mv(th, m, x=x):
                    m[x] = th
                    return True
                ps.append((x, {x: (a, None)}, mv))
            cl.append((ps, None, b))
        # a clause after one that always matches can never be used; fl may warn, which is fine
        txt = "\n /\\ ".join("%s %s %s= %s" % (fname, " ".join(p[0] for p in ps), ("assuming (%s) " % g[0]) if g else "", b[0]) for ps, g, b in cl)

        def run(e, ths):
            w.step()
            for ps, g, b in cl:
                m = {}
                if all(p[2](th, m) for p, th in zip(ps, ths)):
                    e2 = dict(e, **m)
                    if g is None or g[1](e2):
                        return b[1](e2)
            raise Err()
        return txt, run

    def e_if(self, t, env, d):
        c, fc = self.expr("bool", env, d - 1)
        a, fa = self.expr(t, env, d - 1)
        b, fb = self.expr(t, env, d - 1)
        return "(%s => %s | %s)" % (c, a, b), lambda e: fa(e) if fc(e) else fb(e)

    def e_app(self, t, env, d):
        w = self.w
        at = self.rtype(1)
        fs = [v for v, (tt, _) in env.items() if tt == ("fn", at, t)]
        a, fa = self.expr(at, env, d - 1)
        f, ff = self.var(fs[0]) if fs and self.r.random() < 0.6 else self.lam(("fn", at, t), env, d - 1)
        return "(%s %s)" % (f, a), lambda e: ff(e)(Th(w, fa, e))

    def e_let(self, t, env, d):
        w = self.w
        at = self.rtype(1, fn=True)
        a, fa = self.expr(at, env, d - 1) if at[0] != "fn" else self.lam(at, env, d - 1)
        # sometimes hide an outer name
        names = [v for v in env]
        x = self.r.choice(names) if names and self.r.random() < 0.2 else self.name()
        b, fb = self.expr(t, dict(env, **{x: (at, None)}), d - 1)
        if self.r.random() < 0.1 and at[0] != "fn":
            def then(e):
                v = fa(e)
                deep(w, v)
                return fb(dict(e, **{x: Val(v)}))
            return "(let %s = %s then %s)" % (x, a, b), then
        return "(let %s = %s in %s)" % (x, a, b), lambda e: fb(dict(e, **{x: Th(w, fa, e)}))

    def e_val(self, t, env, d):
        w = self.w
        at = self.r.choice([("pair", self.rtype(1), self.rtype(1)), ("list", self.rtype(1)), self.rtype(2)])
        a, fa = self.expr(at, env, d - 1)
        p = self.pattern(at, 2)
        b, fb = self.expr(t, dict(env, **p[1]), d - 1)

        def f(e):
            m = {}
            if not p[2](Th(w, fa, e), m):
                raise Err()
            return fb(dict(e, **m))
        if p[0] == "_" or p[0] in p[1]:
            return b if p[0] == "_" and False else "(val %s = %s in %s)" % (p[0], a, b), f
        return "(val %s = %s in %s)" % (p[0], a, b), f

    def e_match(self, t, env, d):
        w = self.w
        f = self.name("lf")
        n = self.r.choice([1, 1, 2])
        ats = [self.rtype(1) for _ in range(n)]
        txt, run = self.clauses(f, ats, t, env, d - 2)
        es = [self.expr(a, env, d - 2) for a in ats]
        return "(let %s\n in %s %s)" % (txt, f, " ".join(x[0] for x in es)), lambda e: run(e, [Th(w, x[1], e) for x in es])

    def e_letf(self, t, env, d):
        """a local recursive function over a list, a number or a tree"""
        r, w = self.r, self.w
        f = self.name("lr")
        txt, run, argt = self.recfun(f, t, env, d - 1)
        a, fa = self.expr(argt, env, d - 2)
        b, fb = self.expr(t, env, d - 2)
        return "(letrec %s\n in %s %s %s)" % (txt, f, a, b), lambda e: run(e, [Th(w, fa, e), Th(w, fb, e)])

    def recfun(self, f, t, env, d, memo=False):
        """f x acc, recursive on x; (text, run(env, thunks), type of x)"""
        r, w = self.r, self.w
        acc, h, rest, me = self.name(), self.name(), self.name(), self.name()
        et = self.rtype(1)
        kind = r.choice(["list", "nat", "list" if self.notree else "tree"])
        acc2 = None
        if kind == "list":
            e0 = dict(env, **{acc: (t, None)})
            base = self.expr(t, e0, d - 1)
            e1 = dict(env, **{acc: (t, None), h: (et, None)})
            nacc = self.expr(t, e1, d - 1)
            e2 = dict(e1, **{me: (t, None)})
            body = self.expr(t, e2, d - 1)
            txt = "%s [] %s = %s\n /\\ %s (%s : %s) %s = let %s = %s %s %s in %s" % (
                f, acc, base[0], f, h, rest, acc, me, f, rest, nacc[0], body[0])
            if r.random() < 0.3:
                # clauses in the other order
                txt = "%s (%s : %s) %s = let %s = %s %s %s in %s\n /\\ %s [] %s = %s" % (
                    f, h, rest, acc, me, f, rest, nacc[0], body[0], f, acc, base[0])

            def run(e, ths):
                w.step()
                memo and look(w, ths)
                v = ths[0].f()
                if v[0] == "nil":
                    return base[1](dict(e, **{acc: ths[1]}))
                e1 = dict(e, **{acc: ths[1], h: v[1]})
                e2 = dict(e1)
                e2[me] = Th(w, lambda _: run(e, [v[2], Th(w, nacc[1], e1)]), None)
                return body[1](e2)
            return txt, run, ("list", et)
        if kind == "nat":
            n = h
            base = self.expr(t, dict(env, **{acc: (t, None)}), d - 1)
            e1 = dict(env, **{acc: (t, None), n: ("int", None)})
            nacc = self.expr(t, e1, d - 1)
            body = self.expr(t, dict(e1, **{me: (t, None)}), d - 1)
            step = r.choice([1, 2, 3])
            txt = "%s %s %s = %s <= 0 => %s | let %s = %s (%s-%d) %s in %s" % (f, n, acc, n, base[0], me, f, n, step, nacc[0], body[0])

            def run(e, ths):
                w.step()
                memo and look(w, ths)
                v = ths[0].f()
                if v <= 0:
                    return base[1](dict(e, **{acc: ths[1]}))
                if v > 60:
                    raise Budget()
                e1 = dict(e, **{acc: ths[1], n: ths[0]})
                e2 = dict(e1)
                e2[me] = Th(w, lambda _: run(e, [Val(v - step), Th(w, nacc[1], e1)]), None)
                return body[1](e2)
            return txt, run, "int"
        l, rr = rest, self.name()
        base = self.expr(t, dict(env, **{acc: (t, None), h: (et, None)}), d - 1)
        ml, mr = me, self.name()
        e2 = dict(env, **{acc: (t, None), ml: (t, None), mr: (t, None)})
        body = self.expr(t, e2, d - 1)
        e0 = self.expr(t, dict(env, **{acc: (t, None)}), d - 1)
        cs = ["%s (Leaf %s) %s = %s" % (f, h, acc, base[0]),
              "%s (Node %s %s) %s = let %s = %s %s %s in let %s = %s %s %s in %s" % (f, l, rr, acc, ml, f, l, acc, mr, f, rr, ml, body[0]),
              "%s Nil0 %s = %s" % (f, acc, e0[0])]
        r.shuffle(cs)

        def run(e, ths):
            w.step()
            memo and look(w, ths)
            v = ths[0].f()
            if v[1] == "Leaf":
                return base[1](dict(e, **{acc: ths[1], h: v[2][0]}))
            if v[1] == "Nil0":
                return e0[1](dict(e, **{acc: ths[1]}))
            tl = Th(w, lambda _: run(e, [v[2][0], ths[1]]), None)
            tr = Th(w, lambda _: run(e, [v[2][1], tl]), None)
            return body[1](dict(e, **{acc: ths[1], ml: tl, mr: tr}))
        return "\n /\\ ".join(cs), run, ("data", "tree", et)

    def e_global(self, t, env, d):
        w, r = self.w, self.r
        gs = [g for g, (tt, _) in self.glob.items() if tt == t]
        fs = []
        for g, (tt, _) in self.glob.items():
            a, x = 0, tt
            while x[0] == "fn":
                x = x[2]
                a += 1
                if x == t:
                    fs.append((g, a))
        if fs and r.random() < 0.8:
            g, a = r.choice(fs)
            f, ff = self.gvar(g)
            tt = self.glob[g][0]
            es = []
            for _ in range(a):
                es.append(self.expr(tt[1], env, d - 1) if tt[1][0] != "fn" else self.lam(tt[1], env, d - 1))
                tt = tt[2]

            def app(e):
                v = ff(e)
                for x in es:
                    v = v(Th(w, x[1], e))
                return v
            return "(%s %s)" % (f, " ".join(x[0] for x in es)), app
        if self.polys and r.random() < 0.5:
            return self.poly(t, env, d)
        if gs:
            return self.gvar(r.choice(gs))
        return self.e_if(t, env, d)

    def poly(self, t, env, d):
        w = self.w
        name, mk = self.r.choice(self.polys)
        at, rt_, call = mk(t, self.rtype(1))
        es = [self.expr(a, env, d - 1) if a[0] != "fn" else self.lam(a, env, d - 1) for a in at]
        return "(%s %s)" % (name, " ".join(x[0] for x in es)), lambda e: call([Th(w, x[1], e) for x in es])

    def e_proj(self, t, env, d):
        o = self.rtype(1)
        if self.r.random() < 0.5:
            a, fa = self.expr(("pair", t, o), env, d - 1)
            return "(fst %s)" % a, lambda e: fa(e)[1].f()
        a, fa = self.expr(("pair", o, t), env, d - 1)
        return "(snd %s)" % a, lambda e: fa(e)[2].f()

    def e_hd(self, t, env, d):
        if t[0] == "list" and self.r.random() < 0.5:
            a, fa = self.expr(t, env, d - 1)

            def tl(e):
                v = fa(e)
                if v[0] == "nil":
                    raise Err()
                return v[2].f()
            return "(tl %s)" % a, tl
        a, fa = self.expr(("list", t), env, d - 1)

        def hd(e):
            v = fa(e)
            if v[0] == "nil":
                raise Err()
            return v[1].f()
        return "(hd %s)" % a, hd

    def e_fseq(self, t, env, d):
        w = self.w
        a, fa = self.expr(self.rtype(1), env, d - 1)
        b, fb = self.expr(t, env, d - 1)

        def fs(e):
            deep(w, fa(e))
            return fb(e)
        if self.r.random() < 0.3:
            def sq(e):
                fa(e)
                return fb(e)
            return "(%s seq %s)" % (a, b), sq
        return "(%s fseq %s)" % (a, b), fs

    def e_catch(self, t, env, d):
        w = self.w
        if t[0] == "fn":
            return self.lam(t, env, d)
        a, fa = self.expr(t, env, d - 1)
        if self.r.random() < 0.5:
            i = self.r.randint(10, 99)
            a, f0 = "(%s => (error \"q%d\") | %s)" % ((c := self.expr("bool", env, 1))[0], i, a), fa
            fa = lambda e: self.err(e) if c[1](e) else f0(e)
        b, fb = self.expr(t, env, d - 1)

        def ct(e):
            k = outcome(w, lambda: deep_ret(w, fa(e)))
            if k[0] != "err":
                return k[1]
            v = fb(e)
            # whether the replacement is evaluated further than needed is not documented
            idle(w, lambda: deep_ret(w, v))
            return v
        if self.r.random() < 0.5:
            return "(%s catch %s)" % (a, b), ct
        m = self.name()
        return "(%s gen_catch (\\%s. (strlen %s) = 0 => (error \"none\") | %s))" % (a, m, m, b), ct

    def e_hof(self, t, env, d):
        w, r = self.w, self.r
        if t[0] == "list":
            at = self.rtype(1)
            f, ff = self.lam(("fn", at, t[1]), env, d - 1)
            a, fa = self.expr(("list", at), env, d - 1)

            def mp(e):
                fn = ff(e)

                def go(v):
                    w.step()
                    if v[0] == "nil":
                        return NIL
                    return ("cons", Th(w, lambda _: fn(v[1]), None), Th(w, lambda _: go(v[2].f()), None))
                return go(fa(e))
            return "(map %s %s)" % (f, a), mp
        at = self.rtype(1)
        x, y = self.name(), self.name()
        b, fb = self.expr(t, dict(env, **{x: (at, None), y: (t, None)}), d - 1)
        a, fa = self.expr(("list", at), env, d - 1)
        z, fz = self.expr(t, env, d - 1)

        def il(e):
            def go(v):
                w.step()
                if v[0] == "nil":
                    return fz(e)
                return fb(dict(e, **{x: v[1], y: Th(w, lambda _: go(v[2].f()), None)}))
            return go(fa(e))
        return "(itlist (\\%s.\\%s. %s) %s %s)" % (x, y, b, a, z), il

    # -- top level ---------------------------------------------------------
    def top(self):
        r, w = self.r, self.w
        k = r.random()
        d = r.choice([2, 3, 3, 4])
        tick, self.ticks = self.ticks, False
        if k < 0.25:
            t = self.rtype(2)
            a, fa = self.expr(t, {}, d)
            # redefining a name leaves earlier users with the earlier meaning
            olds = [g for g in self.glob]
            g = r.choice(olds) if olds and r.random() < 0.15 else self.name("g")
            txt = "let %s = %s;" % (g, a)
            self.glob.pop(g, None)
            self.glob[g] = (t, Th(w, fa, {}))
        elif k < 0.6:
            n = r.randint(1, 3)
            ats = [self.rtype(1, fn=True) for _ in range(n)]
            rt = self.rtype(1)
            g = self.name("f")
            c, run = self.clauses(g, ats, rt, {}, d)
            ft = rt
            for a in reversed(ats):
                ft = ("fn", a, ft)
            # memoisation is for pure functions of data
            memo = r.random() < 0.25 and not any(isfn(a) for a in ats)
            txt = "%s %s;" % ("clet" if memo else "let", c)
            self.glob[g] = (ft, Val(curry(memoised(w, run) if memo else run, n)))
        elif k < 0.85:
            g = self.name("h")
            rt = self.rtype(1)
            memo = r.random() < 0.3
            c, run, at = self.recfun(g, rt, {}, d, memo)
            txt = "%s %s;" % ("cletrec" if memo else "letrec", c)
            self.glob[g] = (("fn", at, ("fn", rt, rt)), Val(curry(memoised(w, run) if memo else run, 2)))
        elif k < 0.93:
            # two functions that call each other
            f, g = self.name("ma"), self.name("mb")
            rt = r.choice(["int", "str", "bool", ("data", "color"), ("data", "expr")])
            n1, n2, m1, m2 = [self.name() for _ in range(4)]
            # a tree whose leaves' type nothing fixes leaves an equality to be resolved by the caller,
            # which the declaration of the second function does not foresee
            self.notree = True
            b1 = self.expr(rt, {n1: ("int", None)}, 1)
            b2 = self.expr(rt, {n2: ("int", None)}, 1)
            c1 = self.expr(rt, {n1: ("int", None), m1: (rt, None)}, 2)
            c2 = self.expr(rt, {n2: ("int", None), m2: (rt, None)}, 2)
            self.notree = False
            b1, b2 = ("{%s :: %s}" % (b1[0], ty(rt)), b1[1]), ("{%s :: %s}" % (b2[0], ty(rt)), b2[1])
            txt = ("forward_declare {%s :: int->%s};\nletrec %s %s = %s <= 0 => %s | (\\%s. %s) (%s (%s-1));\n"
                   "letrec %s %s = %s <= 0 => %s | (\\%s. %s) (%s (%s-2));") % (
                g, ty(rt), f, n1, n1, b1[0], m1, c1[0], g, n1, g, n2, n2, b2[0], m2, c2[0], f, n2)

            def rf(e, ths):
                w.step()
                v = ths[0].f()
                if v > 60:
                    raise Budget()
                if v <= 0:
                    return b1[1]({n1: ths[0]})
                return c1[1]({n1: ths[0], m1: Th(w, lambda _: rg(None, [Val(v - 1)]), None)})

            def rg(e, ths):
                w.step()
                v = ths[0].f()
                if v > 60:
                    raise Budget()
                if v <= 0:
                    return b2[1]({n2: ths[0]})
                return c2[1]({n2: ths[0], m2: Th(w, lambda _: rf(None, [Val(v - 2)]), None)})
            self.glob[f] = (("fn", "int", rt), Val(curry(rf, 1)))
            self.glob[g] = (("fn", "int", rt), Val(curry(rg, 1)))
        else:
            g = self.name("p")
            kind = r.choice(["id", "const", "twice", "comp", "swap", "pick"])
            if kind == "id":
                txt = "let %s x = x;" % g
                mk = lambda t, o: ([t], t, lambda a: a[0].f())
            elif kind == "const":
                txt = "let %s x y = x;" % g
                mk = lambda t, o: ([t, o], t, lambda a: a[0].f())
            elif kind == "twice":
                txt = "let %s f x = f (f x);" % g
                mk = lambda t, o: ([("fn", t, t), t], t, lambda a: a[0].f()(Th(w, lambda _: a[0].f()(a[1]), None)))
            elif kind == "comp":
                txt = "let %s f g x = f (g x);" % g
                mk = lambda t, o: ([("fn", o, t), ("fn", t, o), t], t, lambda a: a[0].f()(Th(w, lambda _: a[1].f()(a[2]), None)))
            elif kind == "swap":
                txt = "let %s (a,b) = (b,a); let %ss q = fst (%s q);" % (g, g, g)
                mk = lambda t, o: ([("pair", o, t)], t, lambda a: a[0].f()[2].f())
                g = g + "s"
            else:
                txt = "let %s c x y = c => x | y;" % g
                mk = lambda t, o: (["bool", t, t], t, lambda a: a[1].f() if a[0].f() else a[2].f())
            self.polys.append((g, mk))
        self.ticks = tick
        self.text.append(txt)

    def question(self):
        """(fl expression of type string, expected) or None"""
        r, w = self.r, self.w
        t = self.rtype(2)
        self.tickno = 0
        a, fa = self.expr(t, {}, r.choice([3, 4, 4, 5]))
        w.steps, w.ticks = 6000, {}
        used = self.tickno
        try:
            k = outcome(w, lambda: show(w, fa({})))
        except (Budget, Ambiguous, RecursionError):
            return None
        txt = "%s %s" % (pr(t), a)
        if len(txt) > 6000:
            return None
        if not used:
            return txt, k[1] if k[0] == "ok" else None
        if k[0] == "ok":
            return "(__zero ()) fseq (let s = %s in s fseq (s^\"|\"^(__counts ())))" % txt, ticks(k[1], dict(w.ticks))
        return "(__zero ()) fseq (%s)" % txt, None


def ticks(val, cnt):
    """An expression is evaluated when it is needed, and at most as often as its function is entered:
    fl may share what does not depend on the arguments."""
    def chk(o):
        v, _, c = o.rpartition("|")
        if v != "=" + val:
            return "expected =%s" % val
        got = [int(x) for x in c.split(",")]
        for i, g in enumerate(got):
            want = cnt.get(i, 0)
            if not min(want, 1) <= g <= want:
                return "expected marked expression %d to be evaluated %d times" % (i, want)
    return chk


def isfn(t):
    return not isinstance(t, str) and (t[0] == "fn" or any(isfn(x) for x in t[1:] if not isinstance(x, str)))


def deep_ret(w, v):
    if callable(v):
        return v
    deep(w, v)
    return v


def curry(run, n):
    def go(ths):
        return lambda th: run({}, ths + [th]) if len(ths) + 1 == n else go(ths + [th])
    return go([])


def look(w, ths):
    for th in ths:
        idle(w, lambda: deep(w, th.f()))


def memoised(w, run):
    """A memoised function looks at its arguments, to find out whether it has seen them."""
    def f(e, ths):
        look(w, ths)
        return run(e, ths)
    return f


def outcome(w, f):
    try:
        return ("ok", f())
    except Err:
        return ("err", None)


def lim(x):
    if abs(x) > 1 << 200:
        raise Budget()
    return x


def lims(s):
    if len(s) > 400:
        raise Budget()
    return s
