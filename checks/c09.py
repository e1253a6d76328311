"""C09: tables against Python dictionaries over histories of operations, with stale versions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main
from vals import PRE, T

class Hist:
    """a history of operations on one or two tables"""

    def __init__(self, r, num, n):
        self.r, self.u = r, "h%d_" % num
        self.defs, self.parts = [], []
        self.kt = T(r, r.choice(["int", "string", "bool", "c09k", "ilist", "slist", "tup", "nest", "float", "int", "string"]))
        self.vt = T(r, r.choice(["int", "string", "ilist", "c09k", "bool", "tup"]))
        self.set = r.random() < 0.15
        if self.set:
            self.vt = self.kt
        self.pool = [self.kt.val() for _ in range(r.choice([3, 6, 12, 40]))]
        self.tabs = []
        self.listed = 0
        for i in range(r.choice([1, 1, 2])):
            self.new()
        for _ in range(n):
            self.step()

    def key(self, d, present):
        """a key that is (not) in d, if there is one"""
        r = self.r
        c = [k for k in self.pool if (k in d) == present]
        if c:
            return r.choice(c)
        if present:
            return None
        for _ in range(20):
            k = self.kt.val()
            if k not in d:
                self.pool.append(k)
                return k

    def new(self):
        r = self.r
        nm = "%st%d" % (self.u, len(self.defs))
        d = {}
        if r.random() < 0.6 or self.set:
            self.defs.append("let %s = tbl_create %d;" % (nm, r.choice([0, 1, 2, 10, 100])))
        else:
            l = []
            dup = r.random() < 0.15
            for _ in range(r.randint(0, 6)):
                k = r.choice(self.pool)
                if dup or k not in d:
                    l.append((k, self.vt.val()))
                    dup = dup and k not in d
                    if k in d:
                        # refused: another table takes its place
                        self.defs.append("let %s = list2tbl %s;" % (nm, self.kt.lst(["(%s,%s)" % (self.kt.text(a), self.vt.text(b)) for a, b in l])))
                        self.parts.append(("list2tbl", "int2str (table_size %s)" % nm, self.err))
                        return self.new()
                    d[k] = l[-1][1]
            self.defs.append("let %s = list2tbl %s;" % (nm, self.kt.lst(["(%s,%s)" % (self.kt.text(a), self.vt.text(b)) for a, b in l])))
        self.tabs.append([nm, d, []])

    @staticmethod
    def err(out):
        return None if out[0] == "!" else "an error is expected"

    def step(self):
        r = self.r
        tab = r.choice(self.tabs)
        nm, d, old = tab
        nn = "%st%d" % (self.u, len(self.defs))
        x = r.random()
        new, expr = None, None
        if x < 0.4:
            k = self.key(d, r.random() < 0.15)
            if k is None:
                return
            v = k if self.set else self.vt.val()
            expr = "tbl_insert %s %s %s" % (nm, self.kt.text(k), self.vt.text(v))
            if k not in d:
                new = dict(d)
                new[k] = v
        elif x < 0.6:
            k = self.key(d, r.random() < 0.85)
            if k is None:
                return
            expr = "tbl_delete %s %s" % (nm, self.kt.text(k))
            if k in d:
                new = {a: b for a, b in d.items() if a != k}
        elif x < 0.75:
            l, new = [], dict(d)
            for _ in range(r.randint(0, 5)):
                k = self.key(new, r.random() < 0.05)
                if k is None:
                    continue
                v = k if self.set else self.vt.val()
                l.append((k, v))
                if k in new:
                    new = None
                    break
                new[k] = v
            if self.set:
                expr = "set_tbl_insertn %s %s" % (nm, self.kt.lst([self.kt.text(a) for a, b in l]))
            else:
                expr = "tbl_insertn %s %s" % (nm, self.kt.lst(["(%s,%s)" % (self.kt.text(a), self.vt.text(b)) for a, b in l]))
        elif x < 0.79:
            expr, new = "tbl_clear %s" % nm, {}
        if expr:
            self.defs.append("let %s = %s;" % (nn, expr))
            if new is None:
                self.parts.append((expr.split()[0], "int2str (table_size %s)" % nn, self.err))
            else:
                self.parts.append((expr.split()[0], "int2str (table_size %s)" % nn, "%d" % len(new)))
                old.append(nm)
                tab[0], tab[1] = nn, new
        if r.random() < 0.6:
            self.look(tab)

    def look(self, tab):
        r = self.r
        nm, d, old = tab
        stale = old and r.random() < 0.2
        if stale:
            nm = r.choice(old)
        x = r.random()
        pk, pv = T.pr[self.kt.name], T.pr[self.vt.name]
        if x < 0.35:
            k = self.key(d, r.random() < 0.6)
            if k is None:
                return
            q = ("tbl_get", "%s (tbl_get %s %s)" % (pv, nm, self.kt.text(k)), self.vt.show(d[k]) if k in d else self.err)
        elif x < 0.6:
            k = self.key(d, r.random() < 0.5)
            if k is None:
                return
            q = ("tbl_member", "__b (tbl_member %s %s)" % (nm, self.kt.text(k)), "T" if k in d else "F")
        elif x < 0.7:
            q = ("table_size", "int2str (table_size %s)" % nm, "%d" % len(d))
        elif self.listed < 300:
            self.listed += len(d)
            f, p, w = [("tbl2list", "(__pp %s %s)" % (pk, pv), ["(%s,%s)" % (self.kt.show(k), self.vt.show(v)) for k, v in d.items()]),
                       ("tbl2keys", pk, [self.kt.show(k) for k in d]),
                       ("tbl2data", pv, [self.vt.show(v) for v in d.values()])][r.randrange(3)]

            def same(out, w=w):
                # the order is the table's own
                if out[0] == "!":
                    return "expected the entries"
                if sorted(x for x in out[1:].split("@") if x) != sorted("#" + x for x in w):
                    return "expected, in any order, %s" % sorted(w)
            q = (f, "letrec j [] = \"\" /\\ j (x:xs) = \"@#\"^(%s x)^(j xs) in j (%s %s)" % (p, f, nm), same)
        else:
            return
        if stale:
            # a superseded version says so, or answers like the present one; it never shows anything else
            w = q[2]

            def ok(out, w=w):
                if out[0] == "!" or out == "=%s" % w:
                    return None
                return (w(out) if callable(w) else "expected an error or %s" % w)
            q = (q[0] + " of an old version", q[1], ok)
        self.parts.append(q)

    def multi(self):
        return Multi("\n".join(self.defs), self.parts)


def bulk(r, num):
    """many keys: the table grows several times"""
    n, m, a, k = r.randint(50, 1500), r.choice([1, 7, 64, 65537, 1 << 40, (1 << 64) + 1]), r.randint(-100, 100), r.randint(2, 5)
    u = "g%d_" % num
    key = r.choice(["(%d+i*%d)" % (a, m), "[i,%d]" % a, "(int2str i,%d)" % a])
    defs = '''letrec %(u)si i t = i = %(n)d => t | let t2 = tbl_insert t %(key)s (i*i) in t2 fseq (%(u)si (i+1) t2);
letrec %(u)sd i t = i >= %(n)d => t | let t2 = tbl_delete t %(key)s in t2 fseq (%(u)sd (i+%(k)d) t2);
letrec %(u)sg t i s = i = %(n)d => s | %(u)sg t (i+1) (s + (tbl_member t %(key)s => (tbl_get t %(key)s)*(i+1) | 1));
let %(u)st0 = %(u)si 0 (tbl_create %(c)d);
let %(u)st1 = %(u)sd 0 %(u)st0;''' % dict(u=u, n=n, key=key, k=k, c=r.choice([0, 10, 1000]))
    d = {i: i * i for i in range(n)}
    tot = sum(v * (i + 1) for i, v in d.items())
    d2 = {i: v for i, v in d.items() if i % k}
    tot2 = sum(d2[i] * (i + 1) if i in d2 else 1 for i in range(n))
    return Multi(defs, [("tbl_insert, many", "int2str (table_size %st0)" % u, str(n)), ("tbl_get, many", "int2str (%sg %st0 0 0)" % (u, u), str(tot)),
                        ("tbl_delete, many", "int2str (table_size %st1)" % u, str(len(d2))), ("tbl_get, many", "int2str (%sg %st1 0 0)" % (u, u), str(tot2)),
                        ("tbl2data, many", "int2str (itlist (\\x.\\s.x+s) (tbl2data %st1) 0)" % u, str(sum(d2.values())))])


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random histories over one or two tables with keys of nine types (large integers, strings, Boolean functions, floats, lists, tuples, recursive data types, nested), each key "
                "built in several ways: insert, delete, insert lists, clear, refused operations, and questions to the present and to superseded versions. Non-trivial: a distinct question.")
    ctx.assumptions = ["superseded versions may answer with an error ('Trying to access a changed table') or as the present version (documented illusion); the order of listings is free"]
    cases = [Hist(r, i, r.choice([5, 15, 15, 40, 120])).multi() for i in range(ctx.scale(400, 8000))]
    cases += [bulk(r, i) for i in range(ctx.scale(30, 300))]
    r.shuffle(cases)
    third = len(cases) // 3
    ctx.run_cases(cases[:third], prelude=PRE, chunk=20, timeout=120, variant="fast")
    ctx.run_cases(cases[third:2 * third], prelude=PRE, chunk=20, timeout=120, variant="fast", env={"VOSS_VERIF_GC": "1,%d,0" % r.choice([3000, 7001])})
    ctx.run_cases(cases[2 * third:], prelude=PRE, chunk=20, timeout=120, variant="fast", env={"VOSS_VERIF_GC": "1,%d,3" % r.choice([5003, 11003])})
    ctx.count("histories", len(cases))


if __name__ == "__main__":
    main("C09", run)
