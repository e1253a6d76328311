"""Random pexlif circuits with a reference semantics, shared by the STE checks."""
import itertools

BINOPS = ["AND", "OR", "ADD", "SUB", "MUL", "DIV", "MOD", "SHL", "SHR", "ASHR"]
KLEENE = {"X", "CONST", "VAR", "AND", "OR", "NOT", "EQ", "PRED", "SX", "ZX", "ITE", "SLICE", "UPD", "CAT"}


def vname(base, w):
    return base if w == 1 else "%s[%d:0]" % (base, w - 1)


def bits(base, w):
    """MSB first"""
    return [base] if w == 1 else ["%s[%d]" % (base, i) for i in reversed(range(w))]


# ---- expressions: (op, width, ...) ---------------------------------------
def gen(r, w, depth, vars, ops=None):
    """vars: [(name, width)]"""
    def leaf():
        x = r.random()
        if x < 0.08:
            return ("CONST", w, r.getrandbits(w))
        if x < 0.10:
            return ("X", w)
        n, k = r.choice(vars)
        v = ("VAR", k, n)
        return fit(v)

    def fit(e):
        k = e[1]
        if k == w:
            return e
        if k > w:
            lo = r.randrange(k - w + 1)
            idx = list(range(lo + w - 1, lo - 1, -1)) if r.random() < 0.7 else [r.randrange(k) for _ in range(w)]
            return ("SLICE", w, idx, e)
        return (r.choice(["SX", "ZX"]), w, e)
    if depth <= 0 or r.random() < 0.08:
        return leaf()
    sub = lambda k: gen(r, k, depth - 1, vars, ops)
    c = ["AND", "OR", "NOT", "ADD", "SUB", "ITE", "ITE", "SLICE", "CAT", "SX", "ZX", "UPD", "SHL", "SHR", "ASHR", "MUL", "DIV", "MOD", "MEMR", "MEMW"]
    if w == 1:
        c += ["EQ", "EQ", "GR", "GR", "PRED"]
    if ops:
        c = [o for o in c if o in ops]
    o = r.choice(c)
    if o in BINOPS:
        return (o, w, sub(w), sub(w))
    if o == "NOT":
        return (o, w, sub(w))
    if o == "PRED":
        return (o, w, sub(w))
    if o in ("EQ", "GR"):
        k = r.randint(1, 4)
        return (o, 1, sub(k), sub(k))
    if o == "ITE":
        return (o, w, sub(1), sub(w), sub(w))
    if o == "SLICE":
        k = r.randint(1, 5)
        return (o, w, [r.randrange(k) for _ in range(w)], sub(k))
    if o == "CAT":
        if w == 1:
            return (o, 1, [sub(1)])
        k = r.randint(1, w - 1)
        if r.random() < 0.3 and w >= 3:
            ks = [1, w - 2, 1]
        else:
            ks = [k, w - k]
        return (o, w, [sub(k) for k in ks])
    if o in ("SX", "ZX"):
        return (o, w, sub(r.randint(1, w)))
    if o == "UPD":
        idx = r.sample(range(w), r.randint(1, w))
        return (o, w, sub(w), idx, sub(len(idx)))
    a = r.randint(1, 2)
    lines = r.randint(1, 1 << a)
    if o == "MEMR":
        return (o, w, a, lines, sub(lines * w), sub(a))
    d = r.choice([k for k in (1, 2, 3) if w % k == 0])
    lines = w // d
    a = max(1, (lines - 1).bit_length())
    return ("MEMW", w, a, lines, d, sub(w), sub(a), sub(d))


def text(e):
    o, w = e[0], e[1]
    if o == "X":
        return "(W_X %d)" % w
    if o == "CONST":
        return "(W_CONST %d %d)" % (w, e[2]) if e[2] % 3 else '(W_NAMED_CONST "c%d" %d %d)' % (e[2], w, e[2])
    if o == "VAR":
        return '(W_VAR %d "%s")' % (w, e[2]) if len(e[2]) % 2 else '(W_EXPLICIT_VAR %d "%s")' % (w, vname(e[2], w))
    if o in BINOPS or o in ("EQ", "GR"):
        return "(W_%s %s %s)" % (o, text(e[2]), text(e[3]))
    if o == "NOT":
        return "(W_NOT %s)" % text(e[2])
    if o == "PRED":
        return '(W_PRED "p" %s)' % text(e[2])
    if o == "ITE":
        return "(W_ITE %s %s %s)" % tuple(text(x) for x in e[2:])
    if o == "SLICE":
        if len(e[2]) % 2:
            return "(W_SLICE [%s] %s)" % (",".join(map(str, e[2])), text(e[3]))
        return '(W_NAMED_SLICE "nm" [%s] %s)' % (",".join(map(str, e[2])), text(e[3]))
    if o == "CAT":
        return "(W_CAT [%s])" % ",".join(text(x) for x in e[2])
    if o in ("SX", "ZX"):
        return "(W_%s %d %s)" % (o, w, text(e[2]))
    if o == "UPD":
        return '(W_UPDATE_NAMED_SLICE %s "nm" [%s] %s)' % (text(e[2]), ",".join(map(str, e[3])), text(e[4]))
    if o == "MEMR":
        return "(W_MEM_READ (MEM %d %d %d) %s %s)" % (e[2], e[3], w, text(e[4]), text(e[5]))
    if o == "MEMW":
        return "(W_MEM_WRITE (MEM %d %d %d) %s %s %s)" % (e[2], e[3], e[4], text(e[5]), text(e[6]), text(e[7]))
    raise ValueError(o)


def subs(e):
    for x in e[2:]:
        if isinstance(x, tuple):
            yield x
        elif isinstance(x, list) and x and isinstance(x[0], tuple):
            yield from x


def kleene(e):
    return e[0] in KLEENE and all(kleene(x) for x in subs(e))


def names(e):
    s = {e[2]} if e[0] == "VAR" else set()
    for x in subs(e):
        s |= names(x)
    return s


class Undefined(Exception):
    """the operation has no defined value (division by zero, reading outside a memory, an X constant)"""


def iev(e, env):
    """exact value over binary inputs; env: name -> int"""
    o, w = e[0], e[1]
    M = (1 << w) - 1
    if o == "X":
        raise Undefined
    if o == "CONST":
        return e[2] & M
    if o == "VAR":
        return env[e[2]]
    if o in BINOPS:
        a, b = iev(e[2], env), iev(e[3], env)
        if o == "AND":
            return a & b
        if o == "OR":
            return a | b
        if o == "ADD":
            return (a + b) & M
        if o == "SUB":
            return (a - b) & M
        if o == "MUL":
            return (a * b) & M
        if o in ("DIV", "MOD"):
            if b == 0:
                raise Undefined
            return a // b if o == "DIV" else a % b
        if o == "SHL":
            return (a << b) & M
        if o == "SHR":
            return a >> b
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> b) & M
    if o == "EQ":
        return int(iev(e[2], env) == iev(e[3], env))
    if o == "GR":
        return int(iev(e[2], env) > iev(e[3], env))
    if o == "NOT":
        return M & ~iev(e[2], env)
    if o == "PRED":
        return iev(e[2], env)
    if o == "ITE":
        return iev(e[3], env) if iev(e[2], env) else iev(e[4], env)
    if o == "SLICE":
        a = iev(e[3], env)
        v = 0
        for i in e[2]:
            v = v << 1 | (a >> i & 1)
        return v
    if o == "CAT":
        v = 0
        for x in e[2]:
            v = v << x[1] | iev(x, env)
        return v
    if o == "SX":
        a, k = iev(e[2], env), e[2][1]
        return (a - (1 << k) if a >> (k - 1) else a) & M
    if o == "ZX":
        return iev(e[2], env)
    if o == "UPD":
        a, b = iev(e[2], env), iev(e[4], env)
        n = len(e[3])
        for j, i in enumerate(e[3]):
            bit = b >> (n - 1 - j) & 1
            a = a & ~(1 << i) | bit << i
        return a
    if o == "MEMR":
        m, a = iev(e[4], env), iev(e[5], env)
        if a >= e[3]:
            raise Undefined
        return m >> (a * w) & M
    if o == "MEMW":
        m, a, d = iev(e[5], env), iev(e[6], env), iev(e[7], env)
        if a >= e[3]:
            return m
        D = (1 << e[4]) - 1
        return m & ~(D << (a * e[4])) | d << (a * e[4])
    raise ValueError(o)


def kev(e, env):
    """ternary value, MSB first, of an expression of Kleene operations; env: name -> list of '01X'"""
    o, w = e[0], e[1]
    if o == "X":
        return ["X"] * w
    if o == "CONST":
        return list(format(e[2] & ((1 << w) - 1), "0%db" % w))
    if o == "VAR":
        return list(env[e[2]])
    if o in ("AND", "OR"):
        c = "0" if o == "AND" else "1"
        n = "1" if o == "AND" else "0"
        return [c if c in (a, b) else ("X" if "X" in (a, b) else n) for a, b in zip(kev(e[2], env), kev(e[3], env))]
    if o == "NOT":
        return [{"0": "1", "1": "0", "X": "X"}[a] for a in kev(e[2], env)]
    if o == "PRED":
        return kev(e[2], env)
    if o == "EQ":
        p = list(zip(kev(e[2], env), kev(e[3], env)))
        if any(a != b and "X" not in (a, b) for a, b in p):
            return ["0"]
        return ["X"] if any("X" in q for q in p) else ["1"]
    if o == "ITE":
        c = kev(e[2], env)[0]
        a, b = kev(e[3], env), kev(e[4], env)
        if c == "1":
            return a
        if c == "0":
            return b
        return [x if x == y else "X" for x, y in zip(a, b)]
    if o == "SLICE":
        a = kev(e[3], env)
        return [a[len(a) - 1 - i] for i in e[2]]
    if o == "CAT":
        return [b for x in e[2] for b in kev(x, env)]
    if o in ("SX", "ZX"):
        a = kev(e[2], env)
        return [a[0] if o == "SX" else "0"] * (w - len(a)) + a
    if o == "UPD":
        a, b = kev(e[2], env), kev(e[4], env)
        for j, i in enumerate(e[3]):
            a[w - 1 - i] = b[j]
        return a
    raise ValueError(o)


def agree(e, env, got, r=None):
    """None if got (MSB first) is a right ternary value of e under env, else what is expected."""
    used = names(e)
    if any("T" in env[n] for n in used):
        return None
    if kleene(e):
        want = kev(e, env)
        return None if want == got else "".join(want)
    xs = [(n, i) for n in sorted(used) for i, b in enumerate(env[n]) if b == "X"]
    if not xs:
        try:
            want = list(format(iev(e, {n: int("".join(env[n]), 2) for n in used}), "0%db" % e[1]))
        except Undefined:
            return None
        # an X or an undefined part may be hidden by the other operations
        return None if want == got else "".join(want)
    if "T" in got:
        return "no overconstrained value"
    k = len(xs)
    pats = itertools.product("01", repeat=k) if k <= 4 else ([(r.choice("01") if r else "01"[(j * 7 + i) % 2]) for i in range(k)] for j in range(12))
    for p in pats:
        f = {n: list(env[n]) for n in used}
        for (n, i), b in zip(xs, p):
            f[n][i] = b
        try:
            v = format(iev(e, {n: int("".join(f[n]), 2) for n in used}), "0%db" % e[1])
        except Undefined:
            continue
        for a, b in zip(got, v):
            if a != "X" and a != b:
                return "a value compatible with %s (inputs %s)" % (v, {n: "".join(f[n]) for n in used})
    return None


# ---- circuits ---------------------------------------------------------------
class Circuit:
    """Top-level nets (vectors); each driven net has one driver: a leaf instance, possibly in a subhierarchy."""

    def __init__(self, r, ops=None, big=False):
        self.r = r
        self.inputs = [("a", r.randint(1, 4)), ("b", r.randint(1, 4)), ("c1", 1), ("d", r.randint(1, 3))][:r.randint(1, 4)]
        self.nets = []      # (name, width, expr over nets, phase?)
        self.text = None
        n = r.randint(2, 9 if not big else 25)
        driven = [("n%d" % i, r.randint(1, 4) if r.random() < 0.9 else r.randint(5, 9)) for i in range(n)]
        phase = [r.random() < 0.35 for _ in driven]
        for i, (nm, w) in enumerate(driven):
            if phase[i]:
                vs = self.inputs + driven        # state may feed back
            else:
                vs = self.inputs + driven[:i] + [d for j, d in enumerate(driven) if phase[j] and j > i]
            self.nets.append((nm, w, gen(r, w, r.choice([1, 1, 2, 3]), vs, ops), phase[i]))
        outs = [x for x in self.nets if r.random() < 0.4] or [self.nets[-1]]
        self.outputs = [(x[0], x[1]) for x in outs]
        self.width = dict(self.inputs)
        self.width.update({x[0]: x[1] for x in self.nets})
        self.build()

    def actual(self, name, w):
        """a list of actual names for all of the vector"""
        r = self.r
        if w == 1:
            return [name]
        x = r.random()
        if x < 0.6:
            return [vname(name, w)]
        if x < 0.8:
            k = r.randint(1, w - 1)
            return ["%s[%d:%d]" % (name, w - 1, k) if w - 1 > k else "%s[%d]" % (name, k),
                    "%s[%d:0]" % (name, k - 1) if k > 1 else "%s[0]" % name]
        return bits(name, w)

    def ren(self, e, m):
        if e[0] == "VAR":
            return ("VAR", e[1], m[e[2]])
        return tuple(self.ren(x, m) if isinstance(x, tuple) else
                     ([self.ren(y, m) for y in x] if isinstance(x, list) and x and isinstance(x[0], tuple) else x) for x in e)

    def leafinst(self, grp, k):
        r = self.r
        ins, ups, outs, internal = {}, [], [], []
        fa_i, fa_o = [], []
        drive = {x[0] for x in grp}
        for nm, w, e, ph in grp:
            for v in sorted(names(e)):
                if v in ins:
                    continue
                if v in drive:
                    ins[v] = "o_" + v      # read back through the output formal
                else:
                    f = "%s%d" % (r.choice(["x", "yy", "in"]), len(ins))
                    ins[v] = f
                    fa_i.append('("%s",[%s])' % (vname(f, self.width[v]), ",".join('"%s"' % a for a in self.actual(v, self.width[v]))))
        for nm, w, e, ph in grp:
            f = "o_" + nm
            ins.setdefault(nm, f)
            fa_o.append('("%s",[%s])' % (vname(f, w), ",".join('"%s"' % a for a in self.actual(nm, w))))
            lhs = '(W_VAR %d "%s")' % (w, f)
            rhs = self.ren(e, ins)
            if not ph and r.random() < 0.2:
                t = "t%d" % len(internal)
                internal.append(vname(t, w))
                ups.append('W_UPDATE_FN (W_VAR %d "%s") %s' % (w, t, text(rhs)))
                rhs = ("VAR", w, t)
            ups.append("%s %s %s" % ("W_PHASE_DELAY" if ph else "W_UPDATE_FN", lhs, text(rhs)))
        r.shuffle(ups)
        return 'PINST "leaf%d" [] T [%s] [%s] [%s] (P_LEAF [%s])' % (
            k, ",".join(fa_i), ",".join(fa_o), ",".join('"%s"' % t for t in internal), ",\n      ".join(ups))

    def build(self):
        r = self.r
        # split the nets into leaf instances
        groups = []
        rest = self.nets[:]
        while rest:
            k = r.choice([1, 1, 1, 2, 3])
            groups.append(rest[:k])
            rest = rest[k:]
        items = []
        k = 0
        while groups:
            if r.random() < 0.3:
                # a level of hierarchy around some instances, with the nets passed under the same or new names
                m = r.randint(1, 3)
                sub, groups = groups[:m], groups[m:]
                inner = []
                for g in sub:
                    inner.append(self.leafinst(g, k))
                    k += 1
                drv = {x[0]: x[1] for g in sub for x in g}
                used = {v for g in sub for x in g for v in names(x[2])} - set(drv)
                fi = ['("%s",[%s])' % (vname(v, self.width[v]), ",".join('"%s"' % a for a in self.actual(v, self.width[v]))) for v in sorted(used)]
                fo = ['("%s",[%s])' % (vname(v, w), ",".join('"%s"' % a for a in self.actual(v, w))) for v, w in sorted(drv.items())]
                items.append('PINST "hier%d" [] F [%s] [%s] [] (P_HIER [%s])' % (k, ",".join(fi), ",".join(fo), ",\n    ".join(inner)))
            else:
                items.append(self.leafinst(groups.pop(0), k))
                k += 1
        r.shuffle(items)
        io = lambda l: ",".join('("%s",["%s"])' % (vname(n, w), vname(n, w)) for n, w in l)
        internal = [x for x in self.nets if (x[0], x[1]) not in self.outputs]
        self.text = 'PINST "top" [] F [%s] [%s] [%s] (P_HIER [\n  %s])' % (
            io(self.inputs), io(self.outputs), ",".join('"%s"' % vname(x[0], x[1]) for x in internal), ",\n  ".join(items))

    def allbits(self):
        return [b for n, w in list(self.inputs) + [(x[0], x[1]) for x in self.nets] for b in bits(n, w)]
