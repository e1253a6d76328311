"""Boolean functions as truth tables (Python ints), and random expressions over them."""


class Space:
    def __init__(self, names):
        self.names = list(names)
        self.n = len(self.names)
        self.size = 1 << self.n
        self.all = (1 << self.size) - 1
        self.m = {}
        for i, v in enumerate(self.names):
            t = 0
            for j in range(self.size):
                if j >> i & 1:
                    t |= 1 << j
            self.m[v] = t

    def neg(self, f):
        return self.all & ~f

    def cof(self, f, v, val):
        i = self.names.index(v)
        m = self.m[v]
        if val:
            h = f & m
            return h | (h >> (1 << i))
        l = f & ~m & self.all
        return l | (l << (1 << i))

    def ite(self, c, a, b):
        return (c & a) | (self.neg(c) & b)

    def forall(self, f, vs):
        for v in vs:
            f = self.cof(f, v, 1) & self.cof(f, v, 0)
        return f

    def exists(self, f, vs):
        for v in vs:
            f = self.cof(f, v, 1) | self.cof(f, v, 0)
        return f

    def depends(self, f):
        return [v for v in self.names if self.cof(f, v, 1) != self.cof(f, v, 0)]

    def subst(self, f, sub):
        """Simultaneous substitution; sub: name -> table."""
        res = 0
        tabs = [sub.get(v, self.m[v]) for v in self.names]
        for j in range(self.size):
            k = 0
            for i, t in enumerate(tabs):
                if t >> j & 1:
                    k |= 1 << i
            if f >> k & 1:
                res |= 1 << j
        return res

    def count(self, f, vs):
        """models of f over exactly the variables vs (a superset of its support)"""
        return bin(f).count("1") * (1 << len(vs)) // self.size if len(vs) >= 0 else 0

    def nodes(self, fs, order):
        """per-variable sets of nodes of the reduced diagrams of fs"""
        w = {v: set() for v in order}
        todo, seen = list(fs), set()
        while todo:
            f = todo.pop()
            if f in seen or f == 0 or f == self.all:
                continue
            seen.add(f)
            v = next(v for v in order if self.cof(f, v, 1) != self.cof(f, v, 0))
            w[v].add(f)
            todo += [self.cof(f, v, 1), self.cof(f, v, 0)]
        return w

    def assign(self, j):
        return {v: j >> i & 1 for i, v in enumerate(self.names)}


def rand_expr(r, sp, atoms, depth, ops="bdd"):
    """(fl text, table); atoms: list of (text, table)"""
    if depth <= 0 or r.random() < 0.12:
        k = r.random()
        if k < 0.06:
            c = r.random() < 0.5
            return ("T", sp.all) if c else ("F", 0)
        return r.choice(atoms)
    k = r.choice(["not", "and", "and", "or", "or", "xor", "xnor", "eq", "neq", "ite", "imp", "ite"])
    if k == "ite" and ops == "noite":
        k = "imp"
    a, ta = rand_expr(r, sp, atoms, depth - 1, ops)
    if k == "not":
        return "(NOT %s)" % a, sp.neg(ta)
    b, tb = rand_expr(r, sp, atoms, depth - 1, ops)
    if k == "and":
        return "(%s AND %s)" % (a, b), ta & tb
    if k == "or":
        return "(%s OR %s)" % (a, b), ta | tb
    if k == "xor":
        return "(%s XOR %s)" % (a, b), ta ^ tb
    if k == "xnor":
        return "(%s XNOR %s)" % (a, b), sp.neg(ta ^ tb)
    if k == "eq":
        return "(%s = %s)" % (a, b), sp.neg(ta ^ tb)
    if k == "neq":
        return "(%s != %s)" % (a, b), ta ^ tb
    if k == "imp":
        return "(%s ==> %s)" % (a, b), sp.neg(ta) | tb
    c, tc = rand_expr(r, sp, atoms, depth - 1, ops)
    return "(%s => %s | %s)" % (a, b, c), sp.ite(ta, tb, tc)


# fl: truth table of a bool as an int, read by walking the diagram
TTPRE = r'''
letrec __tt all ms f =
    f == T => all |
    f == F => 0 |
    val (v,h,l) = top_cofactor f in
    let m = assoc v ms in
    ((m intAND (__tt all ms h)) intOR ((all - m) intAND (__tt all ms l)));
let __x i = sprintf "%x" i;
'''


def flmasks(sp):
    return "[%s]" % ",".join('("%s",%d)' % (v, sp.m[v]) for v in sp.names)
