"""C08: the list library against Python lists."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main
from vals import PRE, T

BIG = [1 << 31, (1 << 32) + 1, (1 << 32) + 2, (1 << 64) + 1, 1 << 63, (1 << 128) + 1]


def fail(out):
    return None if out[0] == "!" else "expected a failure"


class Group:
    """some lists of one element type and questions about them"""

    def __init__(self, r, num, nq, names=None):
        self.r, self.u = r, "g%d_" % num
        self.t = T(r, names or r.choice(["int", "int", "int", "string", "string", "bool", "c09k", "ilist", "slist", "tup", "nest", "float"]))
        self.pr = T.pr[self.t.name]
        self.defs, self.parts, self.lists = [], [], []
        pool = [self.t.val() for _ in range(r.choice([1, 2, 3, 5, 8, 30]))]
        self.pool = pool
        self.vars = {}
        for i in range(r.choice([2, 3, 4])):
            l = self.rlist()
            nm = "%sl%d" % (self.u, i)
            self.defs.append("let %s = %s;" % (nm, self.ltext(l)))
            self.lists.append((nm, l))
        self.size = 0
        for _ in range(nq):
            self.ask()
            if self.size > 40000:  # the answers travel as one string
                break

    def rlist(self):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 10, 11, 12, 30, 101])
        if self.t.name in ("bool", "nest", "c09k"):
            n = min(n, 12)
        l = [r.choice(self.pool) for _ in range(n)]
        if r.random() < 0.3:
            # without duplicates
            l = [x for i, x in enumerate(l) if x not in l[:i]]
        return l

    def ltext(self, l):
        return self.t.lst([self.t.text(x) for x in l])

    def lst(self):
        """a list: by name mostly"""
        r = self.r
        if r.random() < 0.8:
            return r.choice(self.lists)
        l = self.rlist()
        return self.ltext(l), l

    def el(self):
        v = self.r.choice(self.pool) if self.r.random() < 0.9 else self.t.val()
        return self.t.text(v), v

    def num(self, n):
        r = self.r
        x = r.random()
        if x < 0.08:
            v = r.choice(BIG) * r.choice([1, -1])
        elif x < 0.35:
            v = r.choice([0, 1, n, n + 1, -1, n - 1])
        else:
            v = r.randint(0, n)
        return "(%d)" % v, v

    def show(self, l):
        return "[%s]" % ";".join(self.t.show(x) for x in l)

    def q(self, key, expr, expect):
        self.size += 200 if callable(expect) else len(expect)
        self.parts.append((key, expr, expect))

    def ql(self, key, expr, l):
        """a question whose answer is a list of elements, or a failure (None)"""
        self.q(key, "__L %s (%s)" % (self.pr, expr), fail if l is None else self.show(l))

    def qi(self, key, expr, v):
        self.q(key, "int2str (%s)" % expr, fail if v is None else str(v))

    def qb(self, key, expr, v):
        self.q(key, "__b (%s)" % expr, fail if v is None else "FT"[v])

    def qe(self, key, expr, ok, v=None):
        self.q(key, "%s (%s)" % (self.pr, expr), self.t.show(v) if ok else fail)

    def qp(self, key, expr, a, b):
        self.q(key, "__pp (__L %s) (__L %s) (%s)" % (self.pr, self.pr, expr),
               fail if a is None else "(%s,%s)" % (self.show(a), self.show(b)))

    def pred(self):
        """a predicate over elements: (fl text, python function)"""
        r = self.r
        x = r.random()
        if self.t.name == "int" and x < 0.5:
            k = r.randint(2, 3)
            j = r.randint(0, k - 1)
            return "(\\x. (x %% %d) = %d)" % (k, j), lambda v: v % k == j
        if x < 0.8:
            e, v = self.el()
            if r.random() < 0.5:
                return "(\\x. x == %s)" % e, lambda w: w == v
            return "(\\x. x != %s)" % e if self.t.name not in ("bool", "nest") else "(\\x. NOT (x == %s))" % e, lambda w: w != v
        s, l = self.lst()
        return "(\\x. mem x %s)" % s, lambda w: w in l

    def fun(self):
        """element -> list of elements"""
        r = self.r
        x = r.random()
        e, v = self.el()
        if x < 0.3:
            return "(\\x. [x,x])", lambda w: [w, w]
        if x < 0.5:
            return "(\\x. [x,%s])" % e, lambda w: [w, v]
        if x < 0.7:
            return "(\\x. x == %s => [] | [x])" % e, lambda w: [] if w == v else [w]
        k = r.randint(0, 3)
        return "(\\x. replicate %d x)" % k, lambda w: [w] * k

    OPS = ("length rev append hd tl last butlast firstn butfirstn lastn butlastn el mem setify union intersect overlap subtract "
           "set_eq assoc rev_assoc flat gather separate replicate zip unzip map map2 itlist filter find find_first0 find_all "
           "split partition flatmap cluster interleave transpose split_list atmost map_index accumulate foreach loop list2str gcmp qsort lazy zip3 unzip3 map3 zipn stale").split()

    def ask(self):
        r = self.r
        op = r.choice(self.OPS)
        if op in ("gcmp", "qsort") and self.t.name == "float":
            op = "setify"  # gcmp does not order floats
        s, l = self.lst()
        s2, l2 = self.lst()
        n = len(l)
        e, v = self.el()
        pr = self.pr
        S = self.show
        if op == "length":
            self.qi(op, "length %s" % s, n)
        elif op == "rev":
            self.ql(op, "rev %s" % s, l[::-1])
        elif op == "append":
            self.ql(op, r.choice(["append %s %s", "%s @ %s"]) % (s, s2), l + l2)
        elif op in ("hd", "last"):
            self.qe(op, "%s %s" % (op, s), bool(l), l[0 if op == "hd" else -1] if l else None)
        elif op == "tl":
            self.ql(op, "tl %s" % s, l[1:] if l else None)
        elif op == "butlast":
            self.ql(op, "butlast %s" % s, l[:-1] if l else None)
        elif op in ("firstn", "butfirstn", "lastn", "butlastn"):
            k, kv = self.num(n)
            c = max(kv, 0)
            self.ql(op, "%s %s %s" % (op, k, s), None if c > n else
                    {"firstn": l[:c], "butfirstn": l[c:], "lastn": l[n - c:], "butlastn": l[:n - c]}[op])
        elif op == "el":
            for _ in range(r.choice([1, 1, 4])):
                k, kv = self.num(n)
                self.qe(op, "el %s %s" % (k, s), 1 <= kv <= n, l[kv - 1] if 1 <= kv <= n else None)
        elif op == "mem":
            for _ in range(r.choice([1, 3])):
                e, v = self.el()
                self.qb(op, "%s" % r.choice(["mem %s %s", "%s mem %s" if False else "mem %s %s"]) % (e, s), v in l)
        elif op == "setify":
            self.ql(op, "setify %s" % s, [x for i, x in enumerate(l) if x not in l[:i]])
        elif op in ("union", "intersect", "subtract", "overlap"):
            # judged as sets; the order and (for an empty operand) duplicates are the implementation's own
            if op == "overlap":
                self.qb(op, "%s overlap %s" % (s, s2), any(x in l2 for x in l))
                return
            want = {"union": l + l2, "intersect": [x for x in l if x in l2], "subtract": [x for x in l if x not in l2]}[op]
            want = sorted(set(self.t.show(x) for x in want))

            def same(out, want=want):
                if out[0] != "=":
                    return "expected %s" % want
                g = [x for x in out[1:].split("@#") if x]
                if sorted(set(g)) != want:
                    return "expected the elements %s" % want
            self.q(op, "letrec j [] = \"\" /\\ j (x:xs) = \"@#\"^(%s x)^\"@#\"^(j xs) in j (%s %s %s)" % (
                pr, s, op, s2), same)
            a = [x for i, x in enumerate(l) if x not in l[:i]]
            b = [x for i, x in enumerate(l2) if x not in l2[:i]]
            want2 = {"union": a + [x for x in b if x not in a], "intersect": [x for x in a if x in b], "subtract": [x for x in a if x not in b]}[op]
            self.qi(op + " of sets, size", "length ((setify %s) %s (setify %s))" % (s, op, s2), len(want2))
        elif op == "set_eq":
            a = [x for i, x in enumerate(l) if x not in l[:i]]
            b = [x for i, x in enumerate(l2) if x not in l2[:i]]
            c = list(a)
            r.shuffle(c)
            if c and r.random() < 0.3:
                if r.random() < 0.5:
                    c.pop()
                else:
                    c[r.randrange(len(c))] = self.t.val()
                c = [x for i, x in enumerate(c) if x not in c[:i]]
            eq = lambda x, y: all(z in y for z in x) and all(z in x for z in y)
            self.qb(op, "set_eq (setify %s) %s" % (s, self.ltext(c)), eq(a, c))
            self.qb(op, "set_eq (setify %s) (setify %s)" % (s, s2), eq(a, b))
        elif op in ("assoc", "rev_assoc"):
            nm = "%sa%d" % (self.u, len(self.defs))
            m = r.choice([0, 1, 3, 8, 20])
            prs = [(r.choice(self.pool), r.randint(0, 5)) for _ in range(m)]
            key = lambda: r.choice(self.pool + [self.t.val()])
            self.defs.append("let %s = [%s];" % (nm, ",".join(
                "(%s,%d)" % (self.t.text(a), b) if op == "assoc" else "(%d,%s)" % (b, self.t.text(a)) for a, b in prs)))
            for _ in range(r.choice([1, 4])):
                k = key()
                hit = [b for a, b in prs if a == k]
                self.qi(op, "%s %s %s" % (op, self.t.text(k), nm), hit[0] if hit else None)
        elif op in ("flat", "interleave", "transpose"):
            ls = [self.lst() for _ in range(r.choice([0, 1, 2, 3, 5]))]
            tx = "[%s]" % ",".join(x for x, _ in ls)
            if op == "flat":
                self.ql(op, "flat %s" % tx, sum([y for _, y in ls], []))
            elif op == "interleave":
                w = []
                for i in range(max([len(y) for _, y in ls] + [0])):
                    w += [y[i] for _, y in ls if i < len(y)]
                self.ql(op, "interleave %s" % tx, w)
            else:
                k = r.randint(0, 6)
                rows = [[r.choice(self.pool) for _ in range(k)] for _ in range(r.randint(1, 5))]
                self.q(op, "__L (__L %s) (transpose [%s])" % (pr, ",".join(self.ltext(x) for x in rows)),
                       "[%s]" % ";".join(S([x[i] for x in rows]) for i in range(k)))
        elif op in ("gather", "separate"):
            ix = [r.randint(1, n) for _ in range(r.randint(0, 6))] if n else []
            bad = r.random() < 0.15
            if bad:
                ix.insert(r.randint(0, len(ix)), r.choice([0, -1, n + 1] + BIG))
            tx = "[%s]" % ",".join("(%d)" % i for i in ix)
            if op == "gather":
                self.ql(op, "gather %s %s" % (s, tx), None if bad else [l[i - 1] for i in ix])
            else:
                u = [i for j, i in enumerate(ix) if i not in ix[:j]]
                self.qp(op, "separate %s %s" % (s, tx), None if bad else [l[i - 1] for i in u],
                        [x for i, x in enumerate(l, 1) if i not in u])
        elif op == "replicate":
            k = r.choice([-1, 0, 1, 2, 7, 40])
            self.ql(op, "replicate (%d) %s" % (k, e), None if k < 0 else [v] * k)
        elif op in ("zip", "map2"):
            if r.random() < 0.6:
                l2 = [r.choice(self.pool) for _ in l]
                s2 = self.ltext(l2)
            ok = len(l) == len(l2)
            w = "[%s]" % ";".join("(%s,%s)" % (self.t.show(a), self.t.show(b)) for a, b in zip(l, l2))
            self.q(op, "__L (__pp %s %s) (%s)" % (pr, pr, "zip %s %s" % (s, s2) if op == "zip" else "map2 (\\a.\\b.(a,b)) %s %s" % (s, s2)), w if ok else fail)
        elif op == "unzip":
            prs = [(r.choice(self.pool), r.choice(self.pool)) for _ in range(r.choice([0, 1, 3, 15]))]
            self.qp(op, "unzip [%s]" % ",".join("(%s,%s)" % (self.t.text(a), self.t.text(b)) for a, b in prs),
                    [a for a, _ in prs], [b for _, b in prs])
        elif op in ("zip3", "map3", "unzip3"):
            k = r.choice([0, 1, 2, 5])
            c = [[r.choice(self.pool) for _ in range(k)] for _ in range(3)]
            if op != "unzip3" and r.random() < 0.3:
                i = r.randrange(3)
                c[i] = c[i] + [self.pool[0]] if r.random() < 0.5 or not k else c[i][:-1]
            a3 = "(\\p. let (a,b,c) = p in \"(\"^(%s a)^\",\"^(%s b)^\",\"^(%s c)^\")\")" % (pr, pr, pr)
            a3 = "(\\p. val (a,b,c) = p in \"(\"^(%s a)^\",\"^(%s b)^\",\"^(%s c)^\")\")" % (pr, pr, pr)
            tx = " ".join(self.ltext(x) for x in c)
            ok = len(c[0]) == len(c[1]) == len(c[2])
            w = "[%s]" % ";".join("(%s)" % ",".join(self.t.show(y) for y in x) for x in zip(*c))
            if op == "unzip3":
                self.q(op, "val (a,b,c) = unzip3 (zip3 %s) in (__L %s a)^(__L %s b)^(__L %s c)" % (tx, pr, pr, pr), "".join(S(x) for x in c))
            else:
                self.q(op, "__L %s (%s %s)" % (a3, "zip3" if op == "zip3" else "map3 (\\a.\\b.\\c.(a,b,c))", tx), w if ok else fail)
        elif op == "zipn":
            m = r.randint(4, 6)
            k = r.choice([0, 1, 3])
            c = [[r.choice(self.pool) for _ in range(k)] for _ in range(m)]
            bad = r.random() < 0.3
            if bad:
                i = r.randrange(m)
                c[i] = c[i] + [self.pool[0]]
            vs = ["x%d" % i for i in range(m)]
            self.q("map%d" % m, "__L (__L %s) (map%d (%s [%s]) %s)" % (pr, m, "".join("\\%s." % x for x in vs), ",".join(vs), " ".join(self.ltext(x) for x in c)),
                   fail if bad else "[%s]" % ";".join(S(list(x)) for x in zip(*c)))
        elif op == "map":
            f, g = self.fun()
            self.q(op, "__L (__L %s) (map %s %s)" % (pr, f, s), "[%s]" % ";".join(S(g(x)) for x in l))
        elif op == "flatmap":
            f, g = self.fun()
            self.ql(op, "flatmap %s %s" % (f, s), sum([g(x) for x in l], []))
        elif op == "itlist":
            f = r.choice(["itlist", "sitlist", "rev_itlist"])
            p, g = self.pred()
            # an order-sensitive fold: keep or reverse what has been seen
            acc = []
            for x in (l if f == "rev_itlist" else reversed(l)):
                acc = [x] + acc if g(x) else acc[::-1]
            self.ql(f, "%s (\\x.\\a. (%s x) => x:a | __rev a) %s []" % (f, p, s), acc)
            if self.t.name == "int":
                k = r.randint(-3, 3)
                acc = k
                for x in (l if f == "rev_itlist" else reversed(l)):
                    acc = x - 2 * acc
                if len(l) < 50:
                    self.qi(f, "%s (\\x.\\a. x - 2*a) %s (%d)" % (f, s, k), acc)
        elif op == "filter":
            p, g = self.pred()
            self.ql(op, "filter %s %s" % (p, s), [x for x in l if g(x)])
        elif op == "find":
            p, g = self.pred()
            w = [x for x in l if g(x)]
            self.qe(op, "find %s %s" % (p, s), bool(w), w[0] if w else None)
        elif op == "find_first0":
            p, g = self.pred()
            w = [i for i, x in enumerate(l, 1) if g(x)]
            self.qi(op, "find_first0 %s %s" % (p, s), w[0] if w else 0)
        elif op == "find_all":
            p, g = self.pred()
            self.q(op, "__L int2str (find_all %s %s)" % (p, s), "[%s]" % ";".join(str(i) for i, x in enumerate(l, 1) if g(x)))
        elif op == "split":
            p, g = self.pred()
            self.qp(op, "split %s %s" % (p, s), [x for x in l if g(x)], [x for x in l if not g(x)])
        elif op == "partition":
            p, g = self.pred()
            p2, g2 = self.pred()
            d = {}
            for x in l:
                d.setdefault((g(x), g2(x)), []).append(x)
            self.q(op, "__L (__L %s) (partition (\\x. %s) %s)" % (pr, r.choice(["(%s x, %s x)", "[%s x, %s x]"]) % (p, p2), s),
                   "[%s]" % ";".join(S(x) for x in d.values()))
        elif op == "cluster":
            k = r.choice([-1, 0, 1, 2, 3, 5, max(n, 1), n + 1])
            bad = k <= 0 or n % k
            self.q(op, "__L (__L %s) (cluster (%d) %s)" % (pr, k, s), fail if bad else "[%s]" % ";".join(S(l[i:i + k]) for i in range(0, n, k)))
        elif op == "split_list":
            k, kv = self.num(n)
            ok = 1 <= kv <= n
            self.q(op, "val (a,b,c) = split_list %s %s in (__L %s a)^(%s b)^(__L %s c)" % (k, s, pr, pr, pr),
                   S(l[:kv - 1]) + self.t.show(l[kv - 1]) + S(l[kv:]) if ok else fail)
        elif op == "atmost":
            k = r.randint(0, n + 2)
            self.ql(op, "atmost %d %s [%s]" % (k, s, e), l if n <= k else l[:k] + [v])
        elif op == "map_index":
            self.q(op, "__L (__pp int2str %s) (map_index (\\i.\\x.(i,x)) %s)" % (pr, s), "[%s]" % ";".join("(%d,%s)" % (i, self.t.show(x)) for i, x in enumerate(l, 1)))
        elif op == "accumulate":
            # a right fold from the last element
            w = [[x] for x in l]
            while len(w) > 1:
                b = w.pop()
                a = w.pop()
                w.append(b + a)
            self.ql(op, "accumulate (\\a.\\b. b@a) (map (\\x.[x]) %s)" % s, w[0] if w else None)
        elif op == "foreach":
            nm = "%sr%d" % (self.u, len(self.defs))
            self.defs.append("let %s = ref {[]::%s list};" % (nm, {"ilist": "int list", "slist": "string list", "tup": "(int#string)", "nest": "((int list)#bool) list"}.get(self.t.name, self.t.name)))
            self.ql(op, "((%s := []) fseq (foreach (\\x. %s := (x:(deref %s))) %s) fseq (deref %s))" % (nm, nm, nm, s, nm), l[::-1])
        elif op == "loop":
            k = r.randint(1, 60)
            st, stop = r.randint(-5, 5), r.randint(0, 500)
            x = st
            while x < stop:
                x += k
            self.qi(op, "loop (\\x. x+%d) (\\x. NOT (x < %d)) (%d)" % (k, stop, st), x)
        elif op == "list2str":
            emp = r.random() < 0.5
            self.q(op, "list2str %s \"<\" \";\" \">\" %s %s" % ("FT"[emp], pr, s), "<%s>" % ";".join(self.t.show(x) for x in l) if l or emp else "")
        elif op == "gcmp":
            # a total order: reflexive exactly on equal values, antisymmetric
            b = self.t.val() if r.random() < 0.7 else v
            f = "(let c = gcmp %s %s in c < 0 => \"<\" | c > 0 => \">\" | \"=\")"
            t2 = self.t.text(b)

            def ok(out, v=v, b=b):
                if out[0] != "=" or out[1:] not in ("==", "<>", "><") or (out == "===") != (v == b):
                    return "expected %s" % ("==" if v == b else "<> or ><")
            self.q(op, (f % (e, t2)) + "^" + (f % (t2, self.t.text(v))), ok)
        elif op == "qsort":
            if self.t.name == "int":
                m = [x % (1 << 20) for x in l]
                tx = "[%s]" % ",".join(map(str, m))
                if r.random() < 0.5:
                    self.q(op, "__L int2str (qsort (\\a.\\b. a-b) %s)" % tx, "[%s]" % ";".join(map(str, sorted(m))))
                else:
                    self.q(op, "__L int2str (qsort (\\a.\\b. a < b => 1 | a == b => 0 | 0-1) %s)" % s, "[%s]" % ";".join(map(str, sorted(l, reverse=True))))
            else:
                # by the generic order: a permutation in which equal values are adjacent and the order holds
                def ok(out, l=l):
                    if out[0] != "=":
                        return "expected a permutation"
                    g = [x for x in out[1:].split("@#") if x]
                    if g[0] != "T" or sorted(g[1:]) != sorted(self.t.show(x) for x in l):
                        return "expected an ordered permutation of %s" % S(l)
                self.q(op, "letrec j [] = \"\" /\\ j (x:xs) = \"@#\"^(%s x)^(j xs) in letrec o [] = T /\\ o [x] = T /\\ o (x:y:r) = (gcmp x y <= 0) AND (o (y:r)) in "
                       "let s = qsort gcmp %s in (__b (o s))^(j s)" % (pr, s), ok)
        elif op == "lazy":
            # what need not be looked at is not looked at
            x = r.randrange(6)
            bot = '(error "bottom")'
            if x == 0:
                self.ql("firstn, endless", "letrec g l = l@(g l) in firstn %d (g (%s:[]))" % (n, e), [v] * n)
            elif x == 1:
                self.qi("length, failing elements", "length [%s]" % ",".join([bot] * (n + 1)), n + 1)
            elif x == 2:
                self.qe("hd, failing tail", "hd (%s:%s)" % (e, bot), True, v)
            elif x == 3:
                self.qe("el, failing others", "el %d [%s]" % (n + 1, ",".join([bot] * n + [e, e])), True, v)
            elif x == 4:
                self.qe("find, endless", "letrec g = %s:g in find (\\x. x == %s) g" % (e, e), True, v)
            else:
                self.qe("last, failing others", "last [%s]" % ",".join([bot] * n + [e]), True, v)
        else:
            # the lists themselves are as they were
            s, l = r.choice(self.lists)
            self.ql("operand", s, l)

    def multi(self):
        for s, l in self.lists:
            self.ql("operand", s, l)
        return Multi("\n".join(self.defs), self.parts)


def ints(r, num):
    """functions over integers and sets of integers"""
    parts = []
    L = lambda l: "[%s]" % ";".join(map(str, l))
    a, b = r.choice([0, 1, -5, (1 << 62) - 3, (1 << 64) - 2, -(1 << 63) - 2]) + r.randint(-3, 3), r.randint(-2, 8)
    parts.append(("upto", "__L int2str ((%d) upto (%d))" % (a, a + b), L(range(a, a + b + 1))))
    parts.append(("downto", "__L int2str ((%d) downto (%d))" % (a + b, a), L(range(a + b, a - 1, -1))))
    parts.append(("--", "__L int2str ((%d) -- (%d))" % (a, a + b), L(range(a, a + b + 1) if b > 0 else range(a, a + b - 1, -1))))
    x, y = r.randint(-9, 9), r.randint(-9, 9)
    parts.append(("min max", "__L int2str [min (%d) (%d), max (%d) (%d)]" % (x, y, x, y), L([min(x, y), max(x, y)])))
    S = [set(r.choice([r.randint(1, 20), r.randint(1, 200), r.choice([31, 32, 33, 63, 64, 65, 128])]) for _ in range(r.choice([0, 1, 4, 30]))) for _ in range(2)]

    def tx(s):
        l = list(s) + [r.choice(list(s)) for _ in range(r.randint(0, 2)) if s]
        r.shuffle(l)
        return "(set2iset [%s])" % ",".join(map(str, l))
    A, B = S
    for f, w in (("iunion", A | B), ("iintersect", A & B), ("isubtract", A - B)):
        parts.append((f, "__L int2str (iset2set (%s %s %s))" % (tx(A), f, tx(B)), L(sorted(w))))
        parts.append(("ipop_cnt", "int2str (ipop_cnt (%s %s %s))" % (tx(A), f, tx(B)), str(len(w))))
    k = r.randint(0, 210)
    parts.append(("imem", "__b (imem %s %d)" % (tx(A), k), fail if k == 0 else "FT"[k in A]))
    n = r.choice([1, r.randint(1, 400), 2 ** r.randint(0, 12), 3 ** r.randint(0, 6) * 7, 97 * 89])
    fs, m, d = [], n, 2
    while m > 1:
        while m % d == 0:
            fs.append(d)
            m //= d
        d += 1
    parts.append(("factor", "__L int2str (factor %d)" % n, L(fs)))
    bl = [r.random() < r.choice([0.9, 0.1]) for _ in range(r.randint(0, 5))]
    bt = "[%s]" % ",".join("FT"[x] for x in bl)
    parts.append(("AND_list", "__b (AND_list %s)" % bt, "FT"[all(bl)]))
    parts.append(("OR_list", "__b (OR_list %s)" % bt, "FT"[any(bl)]))
    n, k = r.randint(0, 25), r.randint(0, 25)
    import math
    parts.append(("choose", "int2str (%d choose %d)" % (n, k), fail if k > n or not k or not n else str(math.comb(n, k))))
    parts.append(("factorial", "int2str (factorial %d)" % n, str(math.factorial(n)) if n else fail))
    return Multi("", parts)


def bulk(r, num):
    """long lists"""
    n = r.choice([1000, 2500, 4500])
    k, m = r.randint(2, 9), r.choice([10, 100, 1009])
    l = [(i * 7919 + k) % m for i in range(n)]
    u = "b%d_" % num
    defs = "letrec %sg i = i = %d => [] | ((i*7919+%d) %% %d):(%sg (i+1));\nlet %sl = %sg 0;" % (u, n, k, m, u, u, u)
    s = u + "l"
    j = r.randint(0, n)
    se = []
    seen = set()
    for x in l:
        if x not in seen:
            seen.add(x)
            se.append(x)
    sm = lambda t: "int2str (sitlist (\\x.\\a. (3*a+x) %% 1000003) (%s) 1)" % t

    def h(q):
        a = 1
        for x in reversed(q):
            a = (3 * a + x) % 1000003
        return str(a)
    p = [("sitlist, long", sm(s), h(l)), ("rev, long", sm("rev " + s), h(l[::-1])), ("qsort, long", sm("qsort (\\a.\\b. a-b) " + s), h(sorted(l))),
         ("setify, long", sm("setify " + s), h(se)), ("append, long", sm("%s @ (rev %s)" % (s, s)), h(l + l[::-1])), ("map, long", sm("map (\\x. x+1) " + s), h([x + 1 for x in l])),
         ("firstn, long", sm("firstn %d %s" % (j, s)), h(l[:j])), ("butfirstn, long", sm("butfirstn %d %s" % (j, s)), h(l[j:])), ("lastn, long", sm("lastn %d %s" % (j, s)), h(l[n - j:])),
         ("butlastn, long", sm("butlastn %d %s" % (j, s)), h(l[:n - j])), ("filter, long", sm("filter (\\x. (x %% %d) = 1) %s" % (k, s)), h([x for x in l if x % k == 1])),
         ("length, long", "int2str (length %s)" % s, str(n)), ("subtract, long", sm("%s subtract [%s]" % (s, ",".join(map(str, range(0, m, 2))))), h([x for x in l if x % 2])),
         ("find_all, long", sm("find_all (\\x. x = %d) %s" % (l[0], s)), h([i for i, x in enumerate(l, 1) if x == l[0]])),
         ("partition, long", "__L int2str (map length (partition (\\x. x %% %d) %s))" % (k, s), None)]
    d = {}
    for x in l:
        d[x % k] = d.get(x % k, 0) + 1
    p[-1] = p[-1][:2] + ("[%s]" % ";".join(map(str, d.values())),)
    r.shuffle(p)
    return Multi(defs, p)


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random lists of nine element types (0 to 101 elements, with and without duplicates, each built in several ways) and of up to 20000 integers; random questions with every list builtin and preamble "
                "list function, including refused arguments, index limits and partial evaluation, repeated on the same lists. Non-trivial: a distinct question.")
    ctx.assumptions = ["results of set operations are judged as sets, their sizes on duplicate-free operands; qsort need not be stable"]
    cases = [Group(r, i, r.choice([10, 30, 60])).multi() for i in range(ctx.scale(240, 5000))]
    cases += [ints(r, i) for i in range(ctx.scale(60, 800))]
    r.shuffle(cases)
    third = len(cases) // 3
    for part, env in ((cases[:third], None), (cases[third:2 * third], {"VOSS_VERIF_GC": "1,%d,0" % r.choice([3000, 7001])}),
                      (cases[2 * third:], {"VOSS_VERIF_GC": "1,%d,3" % r.choice([5003, 11003])})):
        ctx.run_cases(part, prelude=PRE, chunk=15, timeout=120, variant="fast", env=env)
    ctx.run_cases([bulk(r, i) for i in range(ctx.scale(8, 60))], prelude=PRE, chunk=1, timeout=120, variant="fast")
    ctx.count("groups of lists", len(cases))


if __name__ == "__main__":
    main("C08", run)
