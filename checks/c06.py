"""C06: string functions against Python models."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main, flstr

PRE = r'''
letrec __multi [] = "" /\ __multi (f:fs) =
    ((let s = f () in (strlen s = (0-1)) fseq ("="^s)) gen_catch (\m. "!"))^"\n@&@\n"^(__multi fs);
// printable: everything but letters, digits and blanks by number
let __hex = map (\i. let s = chr i in (((i > 47) AND (i < 58)) OR ((i > 96) AND (i < 123)) OR ((i > 64) AND (i < 91)) OR (i = 32)) => s | sprintf "%%%d;" i) (0 upto 255);
let __e s = "'"^(implode (map (\c. el ((ord c)+1) __hex) (explode s)))^"'";
let __sg i = i < 0 => "-" | i > 0 => "+" | "0";
'''
BIG = [1 << 31, (1 << 31) - 1, (1 << 32) + 1, (1 << 64) + 1, 1 << 63, (1 << 128) + 1]


def enc(s):
    return "'" + "".join(c if (c.isascii() and c.isalnum()) or c == " " else "%%%d;" % ord(c) for c in s) + "'"


def lst(l):
    return "[%s]" % ";".join(enc(x) for x in l)


def fail(out):
    return None if out[0] == "!" else "expected a failure"


def lit(r, s):
    """an fl expression for s"""
    if any(ord(c) > 126 or (ord(c) < 32 and c not in "\n\t") for c in s):
        return '(implode [%s])' % ",".join("chr %d" % ord(c) for c in s)
    x = r.random()
    if x < 0.55 or not s:
        return flstr(s)
    k = r.randint(0, len(s))
    if x < 0.8:
        return "(%s^%s)" % (flstr(s[:k]), flstr(s[k:]))
    if x < 0.9:
        return "(implode (explode %s))" % flstr(s)
    return '(sprintf "%%s%%s" %s %s)' % (flstr(s[:k]), flstr(s[k:]))


def glob(p, s):
    """POSIX fnmatch without flags"""
    if not p:
        return not s
    c = p[0]
    if c == "*":
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if c == "?":
        return glob(p[1:], s[1:])
    if c == "[":
        j = p.index("]", 2 if p[1] != "!" else 3)
        body = p[1:j]
        neg = body[0] == "!"
        body = body[1:] if neg else body
        ok, i = False, 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == "-":
                ok |= body[i] <= s[0] <= body[i + 2]
                i += 3
            else:
                ok |= s[0] == body[i]
                i += 1
        return ok != neg and glob(p[j + 1:], s[1:])
    if c == "\\":
        return s[0] == p[1] and glob(p[2:], s[1:])
    return s[0] == c and glob(p[1:], s[1:])


def rglob(r, al):
    return "".join(r.choice(["*", "?", "[%s]" % r.choice(["ab", "!a", "a-c", "!a-b", "bc"]), "\\" + r.choice("*?a"),
                             r.choice(al), r.choice(al), r.choice(al)]) for _ in range(r.randint(0, 6)))


def rere(r, d, al):
    x = r.random()
    if d == 0 or x < 0.3:
        return r.choice([r.choice(al), r.choice(al), ".", "[%s]" % r.choice(["ab", "^a", "a-c", "^a-b"])])
    if x < 0.6:
        return rere(r, d - 1, al) + rere(r, d - 1, al)
    if x < 0.75:
        return "(%s|%s)" % (rere(r, d - 1, al), rere(r, d - 1, al))
    return "(%s)%s" % (rere(r, d - 1, al), r.choice(["*", "+", "?", "{2}", "{1,2}", "{0,3}", "{2,}"]))


class Group:
    def __init__(self, r, num, nq):
        self.r, self.parts, self.defs, self.u = r, [], [], "g%d_" % num
        self.al = r.choice(["ab", "abc", "aA bB", "a,", "xyz \t\n", "ab\"\\{}[]$:* ", "".join(chr(i) for i in (1, 9, 31, 127, 128, 200, 233, 255)) + "a", "0123456789."])
        self.pool = [self.rs() for _ in range(r.choice([2, 4, 8]))]
        self.pats = []
        self.size = 0
        for _ in range(nq):
            self.ask()
            if self.size > 40000:
                break

    def rs(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 13, 40, 200])
        if r.random() < 0.15 and n > 1:
            return (r.choice(self.al) + r.choice(self.al)) * (n // 2)
        return "".join(r.choice(self.al) for _ in range(n))

    def s(self):
        """a string, related to the others"""
        r = self.r
        x = r.random()
        v = r.choice(self.pool)
        if x < 0.15:
            v = self.rs()
        elif x < 0.3 and v:
            i = r.randrange(len(v))
            v = v[i:i + r.randint(0, 6)]
        elif x < 0.4:
            v = v + self.rs(r.randint(0, 2))
        elif x < 0.45:
            v = v.swapcase() if v.isascii() else v
        return lit(r, v), v

    def q(self, key, expr, want):
        self.size += 100 if callable(want) else len(want)
        self.parts.append((key, expr, want))

    def qs(self, key, expr, v):
        self.q(key, "__e (%s)" % expr, fail if v is None else enc(v))

    def ql(self, key, expr, l):
        self.q(key, "__L __e (%s)" % expr, fail if l is None else lst(l))

    def qi(self, key, expr, v):
        self.q(key, "int2str (%s)" % expr, fail if v is None else str(v))

    def qb(self, key, expr, v):
        self.q(key, "__b (%s)" % expr, fail if v is None else "FT"[v])

    def num(self, n):
        r = self.r
        x = r.random()
        v = r.choice(BIG) * r.choice([1, -1]) if x < 0.1 else r.choice([0, 1, n, n + 1, -1, n - 1]) if x < 0.4 else r.randint(0, n)
        return "(%d)" % v, v

    OPS = ("strlen cat strcmp strcasecmp prefix suffix issub split match reg regx tcl implode lastn butlastn butfirstn strstr substr "
           "gen_trim trim cluster ord chr eq tcl_protect again").split()

    def ask(self):
        r = self.r
        op = r.choice(self.OPS)
        (t, s), (t2, s2) = self.s(), self.s()
        n = len(s)
        if op == "strlen":
            self.qi(op, "strlen %s" % t, n)
        elif op == "cat":
            self.qs(op, "%s ^ %s ^ %s" % (t, t2, t), s + s2 + s)
        elif op in ("strcmp", "strcasecmp"):
            a, b = (s, s2) if op == "strcmp" else (s.lower() if s.isascii() else s, s2.lower() if s2.isascii() else s2)
            if op == "strcasecmp" and not (s + s2).isascii():
                return
            self.q(op, "__sg (%s %s %s)" % (op, t, t2), "0" if a == b else "-" if a < b else "+")
        elif op == "prefix":
            self.qb("str_is_prefix", "str_is_prefix %s %s" % (t2, t), s.startswith(s2))
        elif op == "suffix":
            self.qb("str_is_suffix", "str_is_suffix %s %s" % (t2, t), s.endswith(s2))
        elif op == "issub":
            self.qb("str_is_substr", "str_is_substr %s %s" % (t2, t), s2 in s)
        elif op == "strstr":
            self.qi(op, "strstr %s %s" % (t, t2), s.find(s2) + 1)
        elif op == "split":
            sep = r.choice([s2[:3], r.choice(self.al), r.choice(self.al), self.rs(2)])
            w = list(s) if not sep else s.split(sep) if s else []
            self.ql("str_split", "str_split %s %s" % (t, lit(r, sep)), w)
        elif op == "match":
            if not set(self.al) <= set("abcABxyz ,0123456789."):
                return
            p = rglob(r, self.al)
            v = self.rs(r.randint(0, 7))
            self.qb("str_match", "str_match %s %s" % (flstr(p), lit(r, v)), glob(p, v))
        elif op in ("reg", "regx"):
            if r.random() < 0.1:
                self.q("str_reg_match, malformed", "__b (str_reg_match %s %s)" % (flstr(r.choice(["(", "[a", "a{2", "(a|b", "[b-a]"])), t), fail)
                return
            if self.pats and r.random() < 0.5:
                b, a, z = r.choice(self.pats)
            else:
                b, a, z = rere(r, r.randint(0, 3), "abc"), r.random() < 0.3, r.random() < 0.3
                self.pats.append((b, a, z))
            p = ("^" if a else "") + b + ("$" if z else "")
            v = "".join(r.choice("abc") for _ in range(r.randint(0, 9)))
            hit = None
            if not (r.random() < 0.1):
                c = re.compile("(?s:%s)" % b)
                for i in range(len(v) + 1):
                    if a and i:
                        break
                    for j in range(len(v), i - 1, -1):
                        if z and j < len(v):
                            break
                        if c.fullmatch(v[i:j]):
                            hit = v[i:j]
                            break
                    if hit is not None:
                        break
                if op == "reg":
                    self.qb("str_reg_match", "str_reg_match %s %s" % (flstr(p), lit(r, v)), hit is not None)
                else:
                    self.qs("str_reg_extract", "hd (str_reg_extract %s %s)" % (flstr(p), lit(r, v)), hit)
            else:
                # groups of an unambiguous pattern; groups that take no part are left out
                x, y, w = (self.rs2("ab", 0), self.rs2("01", 1), r.choice(["", "z", "zz"]))
                self.ql("str_reg_extract, groups", 'str_reg_extract "^([ab]*)=(([01])[01]*)(z+)?$" %s' % lit(r, x + "=" + y + w),
                        [x + "=" + y + w, x, y, y[0]] + ([w] if w else []))
        elif op == "tcl":
            ws = []
            for _ in range(r.randint(0, 5)):
                ws.append("".join(r.choice("abc {}" if r.random() < 0.3 else "ab01_") for _ in range(r.randint(0, 6))))

            def word(w):
                d = 0
                for c in w:
                    d += (c == "{") - (c == "}")
                    if d < 0:
                        return None
                if d:
                    return None
                return w if w and not set(w) & set(" {}") and r.random() < 0.7 else "{%s}" % w
            ts = [word(w) for w in ws]
            ws = [w for w, x in zip(ws, ts) if x is not None]
            self.ql("tcl2list", "tcl2list %s" % flstr(" ".join(x for x in ts if x is not None)), ws)
        elif op == "implode":
            ps = [self.s() for _ in range(r.randint(0, 5))]
            self.qs("implode", "implode [%s]" % ",".join(a for a, _ in ps), "".join(b for _, b in ps))
            self.ql("explode", "explode %s" % t, list(s))
        elif op in ("lastn", "butlastn", "butfirstn"):
            k, v = self.num(n)
            c = max(v, 0)
            w = {"lastn": s[max(n - c, 0):], "butlastn": s[:max(n - c, 0)], "butfirstn": None if c > n else s[c:]}[op]
            self.qs("string_" + op, "string_%s %s %s" % (op, t, k), w)
        elif op == "substr":
            (k, kv), (c, cv) = self.num(n), self.num(n)
            w = None if kv < 1 else "" if kv > n else s[kv - 1:] if cv < 0 else None if kv + cv - 1 > n else s[kv - 1:kv - 1 + cv]
            self.qs("substr", "substr %s %s %s" % (t, k, c), w)
        elif op == "gen_trim":
            i, j = sorted([r.randint(0, n), r.randint(0, n)])
            a, b = (s[i:i + r.randint(0, 2)], s[j:j + r.randint(0, 2)]) if r.random() < 0.8 else (self.rs(1), self.rs(1))
            w = None
            k = s.find(a)
            if k >= 0:
                u = s[k + len(a):]
                k = u.rfind(b)
                w = u[:k] if k >= 0 else None
            self.qs("gen_trim", "gen_trim %s %s %s" % (lit(r, a), lit(r, b), t), w)
        elif op == "trim":
            v = self.rs(r.choice([0, 1, 3])) if r.random() < 0.3 else "".join(r.choice(" \t\n") for _ in range(r.randint(0, 3))) + s + "".join(r.choice(" \t\n") for _ in range(r.randint(0, 3)))
            self.qs("trim", "trim %s" % lit(r, v), v.strip(" \t\n\r\v\f"))
        elif op == "cluster":
            k = r.choice([-1, 0, 1, 2, 3, 4, max(n, 1), n + 1] + BIG)
            self.ql("str_cluster", "str_cluster %s (%d)" % (t, k), [s[i:i + k] for i in range(0, n, k)] if k > 0 and n % k == 0 else None)
        elif op == "ord":
            self.qi("ord", "ord %s" % t, ord(s) if n == 1 else None)
        elif op == "chr":
            c = r.choice([-1, 0, 1, 65, 127, 128, 255, 256, 300, 1 << 32, (1 << 64) + 65])
            self.qs("chr", "chr (%d)" % c, (chr(c) if c else "") if 0 <= c < 256 else None)
        elif op == "eq":
            self.qb("=", "%s = %s" % (t, t2), s == s2)
            self.qb("==", "%s == %s" % (t, t2), s == s2)
            self.qb("!=", "%s != %s" % (t, lit(r, s)), False)
        elif op == "tcl_protect":
            self.qs("tcl_protect", "tcl_protect %s" % t, "".join("\\" + c if c in '[]:${} "' else c for c in s))
        else:
            # strings defined earlier are still what they were
            if r.random() < 0.3 or not self.defs:
                nm = "%ss%d" % (self.u, len(self.defs))
                self.defs.append("let %s = %s;" % (nm, t))
                self.pool_defs = getattr(self, "pool_defs", []) + [(nm, s)]
            nm, s = r.choice(self.pool_defs)
            self.qs("string", nm, s)

    def rs2(self, al, lo):
        return "".join(self.r.choice(al) for _ in range(self.r.randint(lo, 5)))

    def multi(self):
        return Multi("\n".join(self.defs), self.parts)


def long(r, num):
    """long strings, up to the limit of 130000 characters"""
    u = "w%d_" % num
    unit = r.choice(["a", "ab", "abc", "xyzw 0"])
    n = r.choice([1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 32749, 32751, 65535, 65536, 99991, 129990]) + r.randint(-1, 1)
    s = (unit * (n // len(unit) + 1))[:n]
    t = r.choice(["Q", "QR", "Q!"])
    k = r.randint(1, n)
    # build by concatenating pieces
    pieces, m, base = [], n, 1
    defs = 'let %sp0 = "%s";\n' % (u, unit)
    i = 0
    while len(unit) << (i + 1) <= min(n, 65000):
        defs += "let %sp%d = %sp%d^%sp%d;\n" % (u, i + 1, u, i, u, i)
        i += 1
    while m > 0:
        while (len(unit) << i) > m and i > 0:
            i -= 1
        if (len(unit) << i) <= m:
            pieces.append("%sp%d" % (u, i))
            m -= len(unit) << i
        else:
            pieces.append('"%s"' % unit[:m])
            m = 0
    defs += "let %ss = %s;\n" % (u, "^".join("(%s)" % p for p in pieces) if r.random() < 0.5 else "implode [%s]" % ",".join(pieces))
    S = u + "s"
    e = enc
    p = [("strlen, long", "int2str (strlen %s)" % S, str(n)),
         ("substr, long", "__e (substr %s %d %d)" % (S, k, min(7, n - k + 1)), e(s[k - 1:k - 1 + 7])),
         ("string_lastn, long", "__e (string_lastn %s 9)" % S, e(s[-9:])),
         ("string_butfirstn, long", "__e (string_butfirstn %s %d)" % (S, n - 8), e(s[n - 8:])),
         ("string_butlastn, long", "__e (string_butlastn %s %d)" % (S, n - 8), e(s[:8])),
         ("cat, long", "__e (string_lastn (%s^\"%s\") 5)" % (S, t), e((s + t)[-5:])),
         ("cat, long", "int2str (strlen (\"%s\"^%s))" % (t, S), str(n + len(t))),
         ("strstr, long", "int2str (strstr (%s^\"%s\") \"%s\")" % (S, t, t), str(n + 1)),
         ("str_is_suffix, long", "__b (str_is_suffix \"%s\" (%s^\"%s\"))" % (t, S, t), "T"),
         ("str_is_prefix, long", "__b (str_is_prefix %s (%s^\"%s\"))" % (S, S, t), "T"),
         ("eq, long", "__b (((string_butlastn %s %d)^(string_lastn %s %d)) == %s)" % (S, k, S, k, S), "T"),
         ("eq, long", "__b ((string_butlastn %s 1) == %s)" % (S, S), "F"),
         ("trim, long", "int2str (strlen (trim (\"  \"^%s^\"x \")))" % S, str(len(s.lstrip()) + 1)),
         ("gen_trim, long", "int2str (strlen (gen_trim \"Z\" \"%s\" (\"Z\"^%s^\"%s\")))" % (t, S, t), str(n)),
         ("str_split, long", "__L (\\x. int2str (strlen x)) (str_split ((substr %s 1 %d)^\"%s\"^(string_butfirstn %s %d)) \"%s\")" % (S, k, t, S, k, t), "[%d;%d]" % (k, n - k)),
         ("str_reg_match, long", "__b (str_reg_match \"%s$\" (%s^\"%s\"))" % (t, S, t), "T"),
         ("str_cluster, long", "int2str (length (str_cluster %s %d))" % (S, n), "1"),
         ("sprintf, long", "int2str (strlen (sprintf \"<%%s>\" %s))" % S, str(n + 2)),
         ("strcmp, long", "__sg (strcmp %s (%s^\"a\"))" % (S, S), "-")]
    if n < 9000:
        p.append(("explode, long", "int2str (length (explode %s))" % S, str(n)))
        p.append(("implode, long", "__b ((implode (explode %s)) == %s)" % (S, S), "T"))
    r.shuffle(p)
    return Multi(defs, p)


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random strings over eight alphabets (letters, blanks and newlines, quotes/braces/brackets, control and high bytes) with related operands, all counts and positions including negative and huge ones, "
                "random glob and extended regular expressions (also malformed) interleaved so that the pattern cache turns over, strings up to the length limit. Non-trivial: a distinct question.")
    ctx.assumptions = ["strings of more than 130000 characters, the implementation's limit, are not judged",
                       "sub-groups of a regular expression are only judged for an unambiguous pattern; the whole match is the leftmost longest one"]
    cases = [Group(r, i, r.choice([20, 60])).multi() for i in range(ctx.scale(900, 12000))]
    half = len(cases) // 2
    ctx.run_cases(cases[:half], prelude=PRE, chunk=16, timeout=120, variant="fast")
    ctx.run_cases(cases[half:], prelude=PRE, chunk=16, timeout=120, variant="fast", env={"VOSS_VERIF_GC": "1,%d,0" % r.choice([3000, 7001])})
    ctx.run_cases([long(r, i) for i in range(ctx.scale(24, 200))], prelude=PRE, chunk=3, timeout=120, variant="fast")
    ctx.count("groups", len(cases))


if __name__ == "__main__":
    main("C06", run)
