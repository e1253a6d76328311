"""Random STE runs over random circuits, and the judgement of their traces (C15, C16)."""
import itertools
import ckt
from bf import Space, TTPRE, flmasks, rand_expr

PRE = TTPRE + r'''
["PRINT-TIME", "NOTIFY-TRAJECTORY-FAILURES", "NOTIFY-CHECK-FAILURES", "NOTIFY-OK_A-FAILURES", "NOTIFY-OK_C-FAILURES"]
    fseq map (\o. update_vossrc o "NO") ["PRINT-TIME", "NOTIFY-TRAJECTORY-FAILURES", "NOTIFY-CHECK-FAILURES", "NOTIFY-OK_A-FAILURES", "NOTIFY-OK_C-FAILURES"] fseq 1;
letrec __j s pr [] = "" /\ __j s pr (x:xs) = (pr x)^(empty xs => "" | (s^(__j s pr xs)));
let __tr tt r ns = __j "|" (\n. n^"="^(((__j ";" (\(t,h,l). sprintf "%d:%x,%x" t (tt h) (tt l)) (get_trace r n)) gen_catch (\m. "none")))) ns;
let __btr tt r ns = __j "|" (\n. n^"="^(((__j ";" (\(t,h,l). sprintf "%d:%x,%x" t (tt h) (tt l)) (bget_trace r n)) gen_catch (\m. "none")))) ns;
'''
X = ("1", "1")
SYM = {(1, 1): "X", (1, 0): "1", (0, 1): "0", (0, 0): "T"}
RANK = {"X": 0, "0": 1, "1": 1, "T": 2}


def meet(a, b):
    if a == "X":
        return b
    if b == "X" or a == b:
        return a
    return "T"


class Run:
    def __init__(self, r, uid, c=None, ops=None, nv=None, weak=True):
        self.r, self.uid = r, uid
        self.c = c or ckt.Circuit(r, ops)
        nv = r.choice([0, 1, 2, 3, 3, 4]) if nv is None else nv
        self.sp = sp = Space(["v%d" % i for i in range(nv)])
        self.atoms = [('(variable "%s")' % v, sp.m[v]) for v in sp.names] or [("T", sp.all)]
        self.T = r.randint(2, 6)
        self.ant, self.cons, self.weak = [], [], []   # (guard, bit, value, s, t) with guard, value = (text, table)
        ins = [b for n, w in self.c.inputs for b in ckt.bits(n, w)]
        drv = [b for b in self.c.allbits() if b not in ins]
        undef = r.random()
        for b in ins:
            if undef > 0.5 and r.random() < undef - 0.5:
                continue
            t = 0
            while t < self.T:
                d = r.randint(1, self.T - t)
                if undef < 0.5 or r.random() < 0.8:
                    self.ant.append((self.guard(0.85), b, self.val(), t, t + d))
                t += d
        if r.random() < 0.35:
            # overlapping antecedents, and antecedents on driven nodes
            for _ in range(r.randint(1, 3)):
                s = r.randrange(self.T)
                self.ant.append((self.guard(0.5), r.choice(ins + drv), self.val(), s, s + r.randint(0 if r.random() < 0.1 else 1, 3)))
        if weak and r.random() < 0.3:
            for _ in range(r.randint(1, 3)):
                s = r.randrange(self.T)
                self.weak.append((self.guard(0.5), r.choice(ins + drv), None, s, s + r.randint(1, 3)))
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            s = r.randrange(self.T)
            self.cons.append((self.guard(0.4), r.choice(ins + drv), self.val(), s, s + r.randint(1, 3)))
        self.trl = []
        for _ in range(r.randint(1, 4)):
            s = r.randrange(self.T)
            self.trl.append((r.choice(ins + drv), s, s + r.randint(1, 4)))
        r.shuffle(self.ant)
        self.end = max([x[4] for x in self.ant + self.weak + self.cons if x[4] > x[3]] + [0])
        self.start = min([x[3] for x in self.ant + self.weak + self.cons if x[4] > x[3]] + [10 ** 6])

    def guard(self, p):
        if self.r.random() < p:
            return ("T", self.sp.all)
        return rand_expr(self.r, self.sp, self.atoms, 2)

    def val(self):
        x = self.r.random()
        if x < 0.4:
            return self.r.choice([("T", self.sp.all), ("F", 0)])
        if x < 0.7:
            return self.r.choice(self.atoms)
        return rand_expr(self.r, self.sp, self.atoms, 2)

    # -- fl text -------------------------------------------------------------
    def lists(self, sub=None, be=False):
        sp = self.sp

        def f(e):
            if sub is not None:
                b = e[1] >> sub & 1
                return ("bT" if b else "bF") if be else ("T" if b else "F")
            return "(bdd2bexpr %s)" % e[0] if be else e[0]
        ant = lambda l: "[%s]" % ",".join('(%s,"%s",%s,%d,%d)' % (f(g), n, f(v), s, t) for g, n, v, s, t in l)
        wl = "[%s]" % ",".join('(%s,"%s",%d,%d)' % (f(g), n, s, t) for g, n, v, s, t in self.weak)
        return wl, ant(self.ant), ant(self.cons)

    def trltext(self, l=None):
        return "[%s]" % ",".join('("%s",%d,%d)' % x for x in (self.trl if l is None else l))

    def tt(self, be=False):
        return "(__tt %d %s)" % (self.sp.all, flmasks(self.sp))

    def names(self):
        return "[%s]" % ",".join('"%s"' % b for b in self.c.allbits())

    # -- parsing ------------------------------------------------------------
    @staticmethod
    def parse(txt, lazy=False):
        """bit -> [(time, H, L)] latest first"""
        res = {}
        for p in txt.split("|"):
            n, _, ev = p.rpartition("=")
            if ev == "none":
                res[n] = None
                continue
            l = []
            for e in ev.split(";"):
                t, _, hl = e.partition(":")
                h, _, lo = hl.partition(",")
                l.append((int(t), int(h, 16), int(lo, 16)))
            res[n] = l
        return res

    @staticmethod
    def at(events, t):
        for u, h, l in events:
            if u <= t:
                return h, l
        raise ValueError("no value at %d" % t)

    def value(self, tr, n, t, j):
        h, l = self.at(tr[n], t)
        return SYM[(h >> j & 1, l >> j & 1)]

    # -- judgement --------------------------------------------------------------
    def allowed(self, e, env):
        """per bit (MSB first), the set of values the excitation may have; None: nothing is known"""
        used = ckt.names(e)
        if any("T" in env[n] for n in used):
            return None
        if ckt.kleene(e):
            return [{b} for b in ckt.kev(e, env)]
        xs = [(n, i) for n in sorted(used) for i, b in enumerate(env[n]) if b == "X"]
        if not xs:
            try:
                v = ckt.iev(e, {n: int("".join(env[n]), 2) for n in used})
            except ckt.Undefined:
                return None
            return [{b} for b in format(v, "0%db" % e[1])]
        k = len(xs)
        pats = list(itertools.product("01", repeat=k)) if k <= 4 else [["01"[(j >> (i % 5) ^ i // 5) & 1] for i in range(k)] for j in range(32)]
        vals = [set() for _ in range(e[1])]
        for p in pats:
            f = {n: list(env[n]) for n in used}
            for (n, i), b in zip(xs, p):
                f[n][i] = b
            try:
                v = ckt.iev(e, {n: int("".join(f[n]), 2) for n in used})
            except ckt.Undefined:
                continue
            for s, b in zip(vals, format(v, "0%db" % e[1])):
                s.add(b)
        return [({"X"} | s) if len(s) == 1 else ({"X"} if s else {"X", "0", "1"}) for s in vals]

    def constraint(self, b, t, j):
        """(weakened?, antecedent value, antecedent active?) of a bit"""
        w = any(x[1] == b and x[3] <= t < x[4] and x[0][1] >> j & 1 for x in self.weak)
        a, act = "X", False
        for g, n, v, s, u in self.ant:
            if n == b and s <= t < u:
                act = True
                if g[1] >> j & 1:
                    a = meet(a, "1" if v[1] >> j & 1 else "0")
        return w, a, act

    def judge(self, init, tr):
        """None or what is wrong; init: trace of the run without events; tr: of the run itself"""
        c, sp = self.c, self.sp
        for j in range(sp.size):
            env0 = {n: [self.value(init, b, 0, j) for b in ckt.bits(n, w)] for n, w in c.width.items()}
            if j == 0:
                for n, w in c.inputs:
                    if env0[n] != ["X"] * w:
                        return "initially, the input %s is not X" % n
                for nm, w, e, ph in c.nets:
                    al = self.allowed(e, env0)
                    if al and any(g not in s for g, s in zip(env0[nm], al)):
                        return "initially, %s is %s, not %s" % (nm, env0[nm], al)
            prev = env0
            for t in range(self.start, self.end + 1):
                env = {n: [self.value(tr, b, t, j) for b in ckt.bits(n, w)] for n, w in c.width.items()}
                for nm, w, e, ph in [(n, w, None, False) for n, w in c.inputs] + c.nets:
                    if e is None:
                        al = [{"X"}] * w
                    elif ph and prev is env0:
                        # nothing happened before: the value is that of the constant circuit
                        al = [{v} for v in env0[nm]]
                    else:
                        al = self.allowed(e, prev if ph else env)
                    for i, b in enumerate(ckt.bits(nm, w)):
                        wk, a, _ = self.constraint(b, t, j)
                        s = {"X"} if wk else (al[i] if al else {"X", "0", "1", "T"})
                        s = {meet(v, a) for v in s}
                        if env[nm][i] not in s:
                            src = "" if e is None else "; driver%s %s with %s" % (" one phase earlier" if ph else "", ckt.text(e), {n: "".join((prev if ph else env)[n]) for n in sorted(ckt.names(e))})
                            return "at time %d with %s, %s is %s, not one of %s (weakened %s, antecedent %s)%s" % (t, sp.assign(j), b, env[nm][i], sorted(s), wk, a, src)
                prev = env
        return None

    def results(self, tr):
        """the tables of trajOK and checkOK that the trace implies"""
        traj = chk = 0
        for j in range(self.sp.size):
            ok = True
            for b in {x[1] for x in self.ant}:
                for t in range(self.start, self.end + 1):
                    if self.constraint(b, t, j)[2] and self.value(tr, b, t, j) == "T":
                        ok = False
            traj |= ok << j
            ok = True
            for b in {x[1] for x in self.cons}:
                for t in range(self.start, self.end + 1):
                    want = "X"
                    for g, n, v, s, u in self.cons:
                        if n == b and s <= t < u and g[1] >> j & 1:
                            want = meet(want, "1" if v[1] >> j & 1 else "0")
                    got = self.value(tr, b, t, j)
                    if meet(want, got) != got:
                        ok = False
            chk |= ok << j
        return traj, chk
