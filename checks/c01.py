"""C01: integers are exact.  Oracle: Python's integers."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Case, main, flstr

PRE = r'''
let __j l = __l id l;
let __i i = int2str i;
let __ar a b = __j [__i (a+b), __i (a-b), __i (b-a), __i (a*b), __i (a-a+b), __i ((a+b)*(a-b))];
let __dv a b = __j [__i (a/b), __i (a%b), __i (((a/b)*b)+(a%b))];
let __bw a b = __j [__i (a intAND b), __i (a intOR b), __i (a intXOR b), __i (intNOT a)];
let __cm a b = __j [__b (a<b), __b (a<=b), __b (a>b), __b (a>=b), __b (a=b), __b (a==b), __b (a!=b), __i (max a b), __i (min a b)];
let __md a b = __j [__i (gcd a b), __i (gcd b a)];
let __tx a = __j [sprintf "%d" a, sprintf "%x" a, sprintf "%o" a, __i (iabs a), __i (-a)];
let __rt a = __j [__i (sscanf "%d" (sprintf "%d" a)), __i (s2int (int2str a)), __i (sscanf "%x" (sprintf "%x" (iabs a)))];
let __bin a = sprintf "%b" a;
'''


def edge(rng):
    k = rng.random()
    if k < 0.25:
        v = (1 << rng.choice([0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 47, 61, 62, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 256, 320, 512])) + rng.randint(-3, 3)
    elif k < 0.45:
        v = rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 62, 63, 64, 65, 126, 128, 130, 192, 260, 500, 1000]))
    elif k < 0.6:  # runs of ones and zeroes
        v = 0
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([1, 3, 16, 31, 32, 33, 60, 63, 64, 65, 100])
            v = (v << n) | (rng.choice([0, (1 << n) - 1, rng.getrandbits(n)]))
    elif k < 0.7:
        v = rng.randint(-20, 20)
    elif k < 0.8:
        v = 10 ** rng.randint(0, 60) + rng.randint(-2, 2)
    elif k < 0.9:  # words that are all ones, minimal, maximal
        v = 0
        for _ in range(rng.randint(1, 5)):
            v = (v << 64) | rng.choice([0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, (1 << 32) - 1, 1 << 32, rng.getrandbits(64)])
    else:
        v = rng.randint(1, 1000) * (1 << rng.randint(0, 130))
    return -v if rng.random() < 0.45 else v


def lit(rng, v):
    a = abs(v)
    k = rng.random()
    if k < 0.7:
        s = str(a)
    elif k < 0.85:
        s = "0x%x" % a if rng.random() < 0.5 else "0x%X" % a
    else:
        s = "0b" + bin(a)[2:]
    if v >= 0:
        return s
    return "(-%s)" % s if rng.random() < 0.5 else "(0-%s)" % s


def sgn8(v):
    return ("-" if v < 0 else "") + "%o" % abs(v)


def B(x):
    return "T" if x else "F"


def cls(v):
    return "%s%dw" % ("-" if v < 0 else "+", (abs(v).bit_length() + 63) // 64)


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random operand pairs biased to word boundaries, runs of ones/zeros and signs, written as decimal, hex or "
                "binary literals and run through every integer operation in the interpreter; compared with Python integers. "
                "Non-trivial: an expression not seen before.")
    cases = []
    seen = set()

    def add(key, expr, exp):
        cases.append(Case(key, expr, exp))

    pairs = []
    fixed = [0, 1, -1, 2, -2, 2**31, -2**31, 2**32, 2**62, -2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1, -2**63 + 1,
             2**64 - 1, 2**64, -2**64, 2**127, -2**127, -2**128]
    for a in fixed:
        for b in fixed:
            pairs.append((a, b))
    for _ in range(ctx.scale(3000, 40000)):
        a, b = edge(r), edge(r)
        k = r.random()
        if k < 0.1:
            b = a
        elif k < 0.2:
            b = -a
        elif k < 0.35 and b:  # close to a multiple of b
            a = b * edge(r) + r.choice([-1, 0, 1, abs(b) - 1, 1 - abs(b)])
        pairs.append((a, b))
    for n, (a, b) in enumerate(pairs):
        A, Bq = lit(r, a), lit(r, b)
        seen.add((cls(a), cls(b)))
        add("arith", "__ar %s %s" % (A, Bq), ";".join(map(str, [a + b, a - b, b - a, a * b, b, (a + b) * (a - b)])))
        if b:
            add("divmod", "__dv %s %s" % (A, Bq), ";".join(map(str, [a // b, a % b, a])))
        else:
            add("divzero", "__i (%s/%s)" % (A, Bq), lambda o: None if o[0] == "!" and "zero" in o else "division by zero must raise")
            add("divzero", "__i (%s%%%s)" % (A, Bq), lambda o: None if o[0] == "!" and "zero" in o else "modulo zero must raise")
        add("bitwise", "__bw %s %s" % (A, Bq), ";".join(map(str, [a & b, a | b, a ^ b, ~a])))
        add("compare", "__cm %s %s" % (A, Bq), ";".join([B(a < b), B(a <= b), B(a > b), B(a >= b), B(a == b), B(a == b), B(a != b), str(max(a, b)), str(min(a, b))]))
        add("gcd", "__md %s %s" % (A, Bq), "%d;%d" % (math.gcd(a, b), math.gcd(a, b)))
        add("text", "__tx %s" % A, ";".join([str(a), ("-" if a < 0 else "") + "%x" % abs(a), sgn8(a), str(abs(a)), str(-a)]))
        add("roundtrip", "__rt %s" % A, "%d;%d;%d" % (a, a, abs(a)))
        if n % 3 == 0:
            add("binary", "__bin %s" % A, lambda o, a=a: None if o[0] == "=" and set(o[1:]) <= set("01") and len(o) > 1 and
                int(o[1:], 2) - (1 << (len(o) - 1) if o[1] == "1" else 0) == a else "not the two's complement text of %d" % a)
            w = abs(a).bit_length() + r.randint(1, 6)
            add("binary-width", 'sprintf "%%0*b" %d %s' % (w, A), "".join("1" if (a >> i) & 1 else "0" for i in reversed(range(w))))
    # library functions over integers
    for _ in range(ctx.scale(250, 2500)):
        n = r.randint(0, 40) if r.random() < 0.6 else r.randint(0, 700)
        b = r.randint(-40, 40) if n > 45 else edge(r) % (1 << 128) * r.choice([1, -1])
        add("ipow", "__i (ipow %s %d)" % (lit(r, b), n), str(b ** n))
        add("pow", "__i (%s**%d)" % (lit(r, b), n), str(b ** n))
        v = abs(edge(r)) + 1
        add("log2", "__i (log2 %s)" % lit(r, v), str(v.bit_length() - 1))
        w = edge(r)
        add("sbits", "__i (sbits_needed %s)" % lit(r, w), str((w.bit_length() if w >= 0 else (-w - 1).bit_length()) + 1))
        add("ubits", "__i (ubits_needed %s)" % lit(r, v), str(v.bit_length()))
        u = edge(r)
        if u:
            add("lcm", "__i (lcm %s %s)" % (lit(r, abs(u)), lit(r, v)), str(abs(u) * v // math.gcd(u, v)))
        bits = w.bit_length() + r.randint(1, 9)
        add("int2bl", "__L __b (int2bl %d %s)" % (bits, lit(r, w)), "[" + ";".join("T" if (w >> i) & 1 else "F" for i in reversed(range(bits))) + "]")
        add("bl2int", "__i (bl2int (int2bl %d %s))" % (bits, lit(r, w)), str(w))
        f = r.randint(1, 200)
        add("factorial", "__i (factorial %d)" % f, str(math.factorial(f)))
        k = r.randint(1, max(1, f))
        if f:
            add("choose", "__i (%d choose %d)" % (f, k), str(math.comb(f, k)))
        q = r.randint(1, 4000)
        fs, m, p = [], q, 2
        while m > 1:
            while m % p == 0:
                fs.append(p)
                m //= p
            p += 1
        add("factor", "__L int2str (factor %d)" % q, "[" + ";".join(map(str, fs)) + "]")
        lo, hi = r.randint(-10, 10), r.randint(-10, 10)
        base = r.choice([0, 2**63 - 3, -2**63, 2**64])
        lo, hi = lo + base, hi + base
        add("upto", "__L int2str (%s -- %s)" % (lit(r, lo), lit(r, hi)), "[" + ";".join(str(x) for x in (range(lo, hi + 1) if lo < hi else range(lo, hi - 1, -1))) + "]")
    # long products and sums evaluated inside one expression
    for _ in range(ctx.scale(150, 1500)):
        vs = [edge(r) for _ in range(r.randint(3, 8))]
        e, v = lit(r, vs[0]), vs[0]
        for x in vs[1:]:
            op = r.choice("+-*")
            e = "(%s%s%s)" % (e, op, lit(r, x))
            v = v + x if op == "+" else v - x if op == "-" else v * x
        d = edge(r) or 7
        add("expr", "__i ((%s)/%s)" % (e, lit(r, d)), str(v // d))
        add("expr", "__i ((%s)%%%s)" % (e, lit(r, d)), str(v % d))
    ctx.run_cases(cases, PRE, chunk=400)
    ctx.cov["sign_and_length_classes"] = len(seen)


main("C01", run)
