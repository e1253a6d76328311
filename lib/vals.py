"""Random values of many types: canonical texts, and fl expressions that build them in several ways."""

PRE = r'''
lettype c09k = C09A | C09B {i::int} | C09C {s::string} {k::c09k} | C09D {l::c09k list};
letrec __k C09A = "A" /\ __k (C09B i) = "(B "^(int2str i)^")" /\ __k (C09C s k) = "(C "^(__s s)^" "^(__k k)^")" /\ __k (C09D l) = "(D "^(__L __k l)^")";
letrec __rev l = letrec f [] a = a /\ f (x:xs) a = f xs (x:a) in f l [];
letrec __same [] = T /\ __same (x:xs) = (x AND (__same xs));
let __vs = ["va", "vb", "vc"];
letrec __bits [] f = (f == T) => "1" | "0"
    /\ __bits (v:vs) f = (__bits vs (substitute [(v,F)] f))^(__bits vs (substitute [(v,T)] f));
let __tb f = __bits __vs f;

letrec __multi [] = "" /\ __multi (f:fs) =
    ((let s = f () in (strlen s = (0-1)) fseq ("="^s)) gen_catch (\m. "!"))^"\n@&@\n"^(__multi fs);
'''


class T:
    """a key or value type: random values, canonical texts and fl expressions for them"""

    def __init__(self, r, name):
        self.name, self.r = name, r

    pr = {"int": "int2str", "string": "__s", "bool": "__tb", "c09k": "__k", "ilist": "(__L int2str)", "tup": "(__pp int2str __s)",
          "slist": "(__L __s)", "nest": "(__L (__pp (__L int2str) __tb))", "float": 'float2str'}

    def val(self):
        r, n = self.r, self.name
        if n == "int":
            return r.choice([r.randint(-3, 3), r.randint(-3, 3), r.choice([-1, 1]) * (1 << r.choice([31, 32, 62, 63, 64, 65, 128])) + r.randint(-2, 2), r.getrandbits(80)])
        if n == "string":
            return "".join(r.choice("ab\\n %".replace("\\n", "c")) for _ in range(r.choice([0, 1, 2, 2, 3, 40])))
        if n == "bool":
            return r.getrandbits(8) if r.random() < 0.7 else r.choice([0, 255])
        if n == "c09k":
            return self.ck(r.randint(0, 3))
        if n == "ilist":
            return tuple(r.randint(0, 2) for _ in range(r.choice([0, 1, 2, 3, 12, 13])))
        if n == "slist":
            return tuple(r.choice(["a", "b", ""]) for _ in range(r.choice([0, 1, 2, 3])))
        if n == "tup":
            return (r.randint(0, 3), r.choice(["", "x", "yy"]))
        if n == "nest":
            return tuple((tuple(r.randint(0, 1) for _ in range(r.randint(0, 2))), r.choice([0, 255, 170, 85, 204])) for _ in range(r.randint(0, 2)))
        return r.choice([r.randint(-8, 8) * 0.25, r.randint(-8, 8) * 0.25, 1e3 * r.randint(1, 9)])

    def ck(self, d):
        r = self.r
        x = r.random()
        if d == 0 or x < 0.25:
            return r.choice([("A",), ("B", r.randint(0, 2))])
        if x < 0.65:
            return ("C", r.choice(["", "q"]), self.ck(d - 1))
        return ("D",) + tuple(self.ck(d - 1) for _ in range(r.randint(0, 2)))

    def show(self, v):
        n = self.name
        if n == "int":
            return str(v)
        if n == "string":
            return '"%s"' % v
        if n == "bool":
            # table: bit j of v is the value at valuation j (va is bit 2); the walk goes va=F first
            return "".join(str(v >> j & 1) for j in range(8))
        if n == "c09k":
            return {"A": lambda: "A", "B": lambda: "(B %d)" % v[1], "C": lambda: '(C "%s" %s)' % (v[1], self.show(v[2])),
                    "D": lambda: "(D [%s])" % ";".join(self.show(x) for x in v[1:])}[v[0]]()
        if n == "ilist":
            return "[%s]" % ";".join(map(str, v))
        if n == "slist":
            return "[%s]" % ";".join('"%s"' % x for x in v)
        if n == "tup":
            return '(%d,"%s")' % v
        if n == "nest":
            b = T(self.r, "bool")
            return "[%s]" % ";".join("([%s],%s)" % (";".join(map(str, a)), b.show(t)) for a, t in v)
        return repr(float(v))

    def text(self, v):
        r, n = self.r, self.name
        if n == "int":
            x = r.random()
            if x < 0.4:
                return "(%d)" % v
            if x < 0.7:
                k = r.choice([r.randint(-5, 5), r.getrandbits(70)])
                return "((%d)%s(%d))" % (v - k, "+", k)
            if x < 0.85:
                return "(0-(%d))" % -v
            return '(s2int "%d")' % v if v >= 0 else "(0-(s2int \"%d\"))" % -v
        if n == "string":
            x = r.random()
            if x < 0.4 or not v:
                return '"%s"' % v
            k = r.randint(0, len(v))
            return '("%s"^"%s")' % (v[:k], v[k:]) if x < 0.8 else '(implode (__rev (explode "%s")))' % v[::-1]
        if n == "bool":
            return self.bexpr(v)
        if n == "c09k":
            if v[0] == "A":
                return "C09A"
            if v[0] == "B":
                return "(C09B %s)" % T(r, "int").text(v[1])
            if v[0] == "C":
                return "(C09C %s %s)" % (T(r, "string").text(v[1]), self.text(v[2]))
            return "(C09D %s)" % self.lst([self.text(x) for x in v[1:]])
        if n == "ilist":
            return self.lst([T(r, "int").text(x) for x in v])
        if n == "slist":
            return self.lst([T(r, "string").text(x) for x in v])
        if n == "tup":
            return "(%s,%s)" % (T(r, "int").text(v[0]), T(r, "string").text(v[1]))
        if n == "nest":
            return self.lst(["(%s,%s)" % (T(r, "ilist").text(a), self.bexpr(t)) for a, t in v])
        if r.random() < 0.5:
            return '(str2float "%r")' % v
        k = r.randint(-4, 4) * 0.25
        return '((str2float "%r") + (str2float "%r"))' % (v - k, k)

    def lst(self, l):
        x = self.r.random()
        if x < 0.4:
            return "[%s]" % ",".join(l)
        if x < 0.6:
            return "(__rev [%s])" % ",".join(reversed(l))
        if x < 0.8:
            k = self.r.randint(0, len(l))
            return "([%s]@[%s])" % (",".join(l[:k]), ",".join(l[k:]))
        return "(" + ":".join(l + ["[]"]) + ")"

    def bexpr(self, v):
        """an expression for the truth table v over va (bit 2), vb, vc"""
        r = self.r
        M = [240, 204, 170]
        if v in (0, 255):
            return "T" if v else "F"
        x = r.random()
        if x < 0.3:
            return "(NOT %s)" % self.bexpr(255 & ~v)
        if x < 0.5:
            k = r.getrandbits(8)
            if k not in (0, 255) and (v ^ k) not in (0, 255) and r.random() < 0.7:
                return "(%s XOR %s)" % (self.shan(v ^ k), self.shan(k))
        return self.shan(v)

    def shan(self, v):
        r = self.r
        order = [0, 1, 2]
        r.shuffle(order)

        def f(v, o):
            if v == 0:
                return "F"
            if v == 255:
                return "T"
            i = o[0]
            m = [240, 204, 170][i]
            s = [4, 2, 1][i]
            h, l = v & m, v & (255 & ~m)
            return '((variable "%s") => %s | %s)' % (["va", "vb", "vc"][i], f(h | h >> s, o[1:]), f(l | l << s & 255, o[1:]))
        return f(v, order)
