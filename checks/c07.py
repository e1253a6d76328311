"""C07: vector names against a Python model of their expansion."""
import functools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main, flstr

PRE = r'''
load "vector_names.fl";
letrec __multi [] = "" /\ __multi (f:fs) =
    ((let s = f () in (strlen s = (0-1)) fseq ("="^s)) gen_catch (\m. "!"^m))^"\n@&@\n"^(__multi fs);
letrec __nl [] = "" /\ __nl (x:xs) = x^(empty xs => "" | "\t"^(__nl xs));
let __pt (TXT s) = s /\ __pt (RANGES l) = __nl (map (\p. sprintf "%d:%d" (fst p) (snd p)) l);
let __sg i = i < 0 => "-" | i > 0 => "+" | "0";
'''
BASES = ["a", "b", "ab", "clk", "x1", "x10", "x2", "u1/y", "top/u2/q_0", "_abs[1_0]", "s.f", "mem", "a_b", "v[", "w]x", "A"]
ESC = ["\\e ", "\\e[3:0] ", "\\a+b ", "\\x[2] ", "u1/\\q[1:0] ", "u1/\\r-s "]
IDX = re.compile(r"-?\d+(:-?\d+)?(, *-?\d+(:-?\d+)?)*(?=\])")


def parse(s):
    """[text or [(upper, lower)...]]"""
    out, i = [], 0
    if re.fullmatch("0b[01x]+", s):
        return [s]
    while i < len(s):
        m = IDX.match(s, i) if i and s[i - 1] == "[" else None
        if m:
            out.append([tuple(int(x) for x in (r.split(":") * 2)[:2]) for r in m.group(0).split(",")])
            i = m.end()
        elif s[i] == "\\" and " " in s[i:]:
            j = s.index(" ", i) + 1
            out.append(s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return out


def values(rs):
    return [v for u, l in rs for v in (range(u, l - 1, -1) if u >= l else range(u, l + 1))]


def expand(s):
    if re.fullmatch("0b[01x]+", s):
        return ["0b" + c for c in s[2:]]
    res = [""]
    for p in parse(s):
        res = [x + y for x in res for y in ([p] if isinstance(p, str) else map(str, values(p)))]
    return res


def expands(l):
    return [n for s in l for n in expand(s)]


def sig(s):
    return "".join(p if isinstance(p, str) else "*" for p in parse(s))


def tok(s):
    return [int(x) if x.isdigit() else x for x in re.findall(r"\d+|[^\d]", s)]


def namecmp(a, b):
    for x, y in zip(tok(a), tok(b)):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return "-" if x < y else "+"
        elif x != y:
            x, y = (str(z) for z in (x, y))
            return "-" if x[0] < y[0] else "+"
    return "0" if len(tok(a)) == len(tok(b)) else "-" if len(tok(a)) < len(tok(b)) else "+"


def answer(out):
    if out[0] != "=":
        raise ValueError("failed: " + out[1:200])
    return out[1:].split("\t") if len(out) > 1 else []


class Group:
    def __init__(self, r, num, nq):
        self.r, self.parts, self.size = r, [], 0
        self.bases = r.sample(BASES, r.choice([1, 2, 4])) + (r.sample(ESC, 1) if r.random() < 0.3 else [])
        self.wide = r.random() < 0.1
        for _ in range(nq):
            if self.size < 30000:
                self.ask()

    def rng(self, m):
        r = self.r
        u = r.randint(0, m)
        x = r.random()
        if x < 0.4:
            return (u, u)
        l = r.randint(0, m)
        return (max(u, l), min(u, l)) if x < 0.85 else (u, l)

    def idx(self, m, single=False, neg=False):
        r = self.r
        rs = [self.rng(m)] if single or r.random() < 0.7 else [self.rng(m) for _ in range(r.randint(2, 4))]
        if neg and r.random() < 0.05:
            k = -r.randint(2, 5)
            rs[0] = (k, k)
        if r.random() < 0.02:
            k = r.choice([1 << 20, 1000000000, 2147483640])
            rs[0] = (k + 3, k)
        out = []
        for u, l in rs:
            out.append("%d" % u if u == l else "%d:%d" % (u, l))
        return "[%s]" % (", " if r.random() < 0.05 else ",").join(out)

    def vec(self, neg=False, dims=None):
        r = self.r
        b = r.choice(self.bases)
        if dims is None:
            dims = r.choice([0, 1, 1, 1, 2, 2, 3])
        s = b
        for i in range(dims):
            s += self.idx(200 if self.wide and dims == 1 else 7 if dims == 1 else 3, neg=neg)
            if r.random() < 0.1:
                s += ".f"
        return s

    def vecs(self, const=False, neg=False):
        """a list of vectors and nodes with things to merge in it"""
        r = self.r
        out = []
        for _ in range(r.randint(0, 5)):
            x = r.random()
            if const and x < 0.15:
                out.append("0b" + "".join(r.choice("01x") for _ in range(r.randint(1, 6))))
                continue
            v = self.vec(neg)
            if x < 0.5:
                e = expand(v)
                if r.random() < 0.3:
                    e.reverse()
                if r.random() < 0.3:
                    r.shuffle(e)
                if r.random() < 0.3:
                    e = e[:r.randint(0, len(e))]
                if r.random() < 0.2:
                    k = r.randint(0, len(e))
                    e = e[k:] + e[:k]
                if r.random() < 0.15:
                    e = e + e[:2]
                out += e[:300]
            else:
                out.append(v)
        if r.random() < 0.15:
            r.shuffle(out)
        return out

    def q(self, key, expr, want):
        self.size += len(expr)
        self.parts.append((key, expr, want))

    def ask(self):
        r = self.r
        op = r.choice("expand expands size sizes merge merge merge merge1 merge1 extract extract extract1 sig split cmp canon inter subtr overlap zip zip assoc vars".split())
        L = lambda l: "[%s]" % ",".join(map(flstr, l))
        if op == "expand":
            v = self.vec(True) if r.random() < 0.9 else "0b" + "".join(r.choice("01x") for _ in range(r.randint(1, 6)))
            self.q("md_expand_vector", "__nl (md_expand_vector %s)" % flstr(v), "\t".join(expand(v)))
        elif op == "expands":
            l = self.vecs(True, True)
            self.q("md_expand_vectors", "__nl (md_expand_vectors %s)" % L(l), "\t".join(expands(l)))
        elif op == "size":
            v = self.vec(True) if r.random() < 0.9 else "0b" + "".join(r.choice("01x") for _ in range(r.randint(1, 6)))
            self.q("md_size", "int2str (md_size %s)" % flstr(v), str(len(expand(v))))
        elif op == "sizes":
            l = self.vecs(True, True)
            self.q("md_sizes", "int2str (md_sizes %s)" % L(l), str(len(expands(l))))
        elif op in ("merge", "merge1"):
            l = self.vecs(True, True)
            f = "md_merge_vectors" if op == "merge" else "merge_vectors"

            def same(out, l=l, contig=op == "merge1"):
                g = answer(out)
                if expands(g) != expands(l):
                    return "names other bits, or in another order, than %s" % expands(l)
                if contig and any("," in x for v in g for x in IDX.findall(v) for x in x):
                    return "a vector that is not contiguous"
            self.q(f, "__nl (%s %s)" % (f, L(l)), same)
        elif op == "canon":
            # the bits of one vector, in order, are that vector again
            u, l = sorted([r.randint(0, 40), r.randint(0, 40)])
            if u == l:
                return
            v = "%s[%d:%d]" % ((r.choice(self.bases),) + ((l, u) if r.random() < 0.7 else (u, l)))
            self.q("md_merge_vectors, one vector", "__nl (md_merge_vectors %s)" % L(expand(v)), v)
            if r.random() < 0.5:
                e = expand(v)
                r.shuffle(e)
                self.q("md_extract_vectors, one vector", "__nl (md_extract_vectors %s)" % L(e), v if l < u and False else "%s[%d:%d]" % (v[:v.rindex("[")], l, u))
        elif op in ("extract", "extract1"):
            l = self.vecs()
            f = "md_extract_vectors" if op == "extract" else "extract_vectors"

            def sset(out, l=l, contig=op == "extract1"):
                g = answer(out)
                e = expands(g)
                if set(e) != set(expands(l)):
                    return "names other bits than %s" % sorted(set(expands(l)))
                if len(set(e)) != len(e) and all(v.count("[") < 2 for v in l):
                    return "a bit is named twice"
                if contig and any("," in x for v in g for x in IDX.findall(v) for x in x):
                    return "a vector that is not contiguous"
            self.q(f, "__nl (%s %s)" % (f, L(l)), sset)
        elif op == "sig":
            v = self.vec(True)
            self.q("get_vector_signature", "get_vector_signature %s" % flstr(v), sig(v))
        elif op == "split":
            v = self.vec(True)

            def parts(out, v=v):
                g = "".join(x.replace("\t", ",") for x in answer_parts(out))
                if expand(g) != expand(v):
                    return "the parts are not those of %s" % v
            self.q("md_split_vector", '__pt2 %s' % flstr(v), parts)
        elif op == "cmp":
            a, b = self.vec(dims=r.randint(0, 2)), self.vec(dims=r.randint(0, 2))
            if r.random() < 0.3:
                a, b = (r.choice(BASES) + str(r.choice([0, 1, 2, 9, 10, 11, 99, 100])) + r.choice(["", "_q", "x7"]) for _ in "ab")
            self.q("node_name_cmp", "__sg (node_name_cmp %s %s)" % (flstr(a), flstr(b)), namecmp(a, b))
            l = expands([self.vec() for _ in range(3)])[:30]
            l = list(dict.fromkeys(l))
            r.shuffle(l)
            self.q("qsort node_name_cmp", "__nl (qsort node_name_cmp %s)" % L(l),
                   "\t".join(sorted(l, key=functools.cmp_to_key(lambda a, b: {"-": -1, "0": 0, "+": 1}[namecmp(a, b)]))))
        elif op in ("inter", "subtr", "overlap"):
            a, b = self.vecs(), self.vecs()
            if r.random() < 0.3:
                b = b + r.sample(a, min(len(a), 2))
            A, B = set(expands(a)), set(expands(b))
            if op == "overlap":
                self.q("vec_overlap", "__b (%s vec_overlap %s)" % (L(a), L(b)), "FT"[bool(A & B)])
                return
            w = A & B if op == "inter" else A - B
            f = "vec_intersect" if op == "inter" else "vec_subtract"

            def sset(out, w=w):
                if set(expands(answer(out))) != w:
                    return "names other bits than %s" % sorted(w)
            self.q(f, "__nl (%s %s %s)" % (L(a), f, L(b)), sset)
        elif op == "zip":
            a, b = [self.vec() for _ in range(r.randint(1, 4))], [self.vec() for _ in range(r.randint(1, 4))]
            ea, eb = expands(a), expands(b)
            # make the lengths equal
            if len(ea) > len(eb):
                b.append("z[%d:0]" % (len(ea) - len(eb) - 1) if r.random() < 0.7 else "z[0:%d]" % (len(ea) - len(eb) - 1))
            elif len(eb) > len(ea):
                a.append("z[%d:1]" % (len(eb) - len(ea)))
            z = list(zip(expands(a), expands(b)))

            def pairs(out, z=z):
                g = [tuple(p.split("|")) for p in answer(out)]
                h = []
                for p, q in g:
                    if len(expand(p)) != len(expand(q)):
                        return "%s and %s have different sizes" % (p, q)
                    h += zip(expand(p), expand(q))
                if h != z:
                    return "the bits are not paired as %s" % z
            self.q("vec_zip", "__nl (map (\\p. (fst p)^\"|\"^(snd p)) (vec_zip %s %s))" % (L(a), L(b)), pairs)
        elif op == "assoc":
            m, used = [], set()
            for i in range(r.randint(1, 5)):
                k = self.vec(dims=r.choice([0, 1, 1, 2]))
                e = expand(k)
                if used & set(e) or len(set(e)) != len(e):
                    continue
                used |= set(e)
                m.append((k, "n%d[%d:0]" % (i, len(e) - 1) if len(e) > 1 else "n%d" % i))
            if not m:
                return
            d = dict(zip(expands([k for k, _ in m]), expands([v for _, v in m])))
            v = r.choice(m)[0]
            e = expand(v)
            if r.random() < 0.5 and len(e) > 1:
                e = [r.choice(e)]
                v = e[0]
            elif r.random() < 0.3:
                v = self.vec()
                e = expand(v)
            w = [d.get(x) for x in e]

            def mapped(out, w=w):
                if None in w:
                    return None if out[0] == "!" else "expected a failure"
                if expands(answer(out)) != w:
                    return "expected the bits %s" % w
            self.q("vec_assoc", "__nl (vec_assoc %s [%s])" % (flstr(v), ",".join("(%s,%s)" % (flstr(k), flstr(x)) for k, x in m)), mapped)
        else:
            v = self.vec()
            e = expand(v)
            if len(e) > 24 or len(set(e)) != len(e):
                return
            self.q("bv_variable", "__nl (map (\\b. hd (depends b)) (bv2list (bv_variable %s)))" % flstr(v), "\t".join(e))

    def multi(self):
        return Multi("", self.parts)


def answer_parts(out):
    if out[0] != "=":
        raise ValueError("failed: " + out[1:200])
    return out[1:].split("\n")


PRE += 'let __pt2 v = letrec j [] = "" /\\ j (x:xs) = x^(empty xs => "" | "\\n"^(j xs)) in j (map __pt (md_split_vector v));\n'


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random vector names: plain, hierarchical and escaped bases, names with brackets that are no indices, up to three dimensions, ascending, descending, single, repeated and overlapping ranges, "
                "large and negative indices, constants; lists of whole vectors mixed with bits in order, reversed, rotated, shuffled, cut short and repeated. Non-trivial: a distinct question.")
    ctx.assumptions = ["negative indices are not used in extraction (a[-1:0] stands for an empty array there)",
                       "bits left named twice by an extraction are only an error for names of one dimension"]
    cases = [Group(r, i, 30).multi() for i in range(ctx.scale(700, 12000))]
    half = len(cases) // 2
    ctx.run_cases(cases[:half], prelude=PRE, chunk=20, timeout=120, variant="fast")
    ctx.run_cases(cases[half:], prelude=PRE, chunk=20, timeout=120, variant="fast", env={"VOSS_VERIF_GC": "1,%d,0" % r.choice([3000, 7001])})
    ctx.count("groups", len(cases))


if __name__ == "__main__":
    main("C07", run)
