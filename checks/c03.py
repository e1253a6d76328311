"""C03: reordering and collection never change a held BDD.  Oracle: truth tables before and after."""
import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c02 import S
from vlib import Case, Multi, main, Harness
from bf import Space, TTPRE, flmasks

PRE = TTPRE + r'''
let __bt b = (b == T) => "1" | (b == F) => "0" | "?";
let __ord vs = list2str F "" "," "" fst (profile (map variable vs));
letrec __l2 x [] = "" /\ __l2 x (y:ys) = (__bt (x == y))^(__l2 x ys);
letrec __eqs [] = "" /\ __eqs (x:xs) = (__l2 x xs)^(__eqs xs) ;
letrec __junk i n acc = i > n => acc |
    let v = variable (sprintf "junk%d" (i%7)) in
    let w = variable (sprintf "junk%d" ((i*3+1)%7)) in
    let acc2 = ((acc XOR v) AND (NOT w)) OR (v AND acc) OR (w XOR acc) in
    acc2 fseq (__junk (i+1) n acc2);
let __j n = ((__junk 1 n (variable "junk0")) == T) => "" | "";
let __mulj a b = let p = bv_mul (bv_variable (sprintf "jv%d[3:0]" a)) (bv_variable (sprintf "jw%d[3:0]" b)) in
    ((bdd_size [bv_leq p (int2bv 21)]) = 0) => "" | "";
let __ro n = ((fst (bdd_reorder n)) < 0) => "x" | "";
let __vo l = (length (var_order l) < 0) => "x" | "";
let __rc k v = (strlen (update_vossrc k v) < 0) => "x" | "";
letrec __cy n = n = 0 => "" | ((length (map (\x. x+1) (1 upto 300)) = 0) => "" | __cy (n-1));
'''
HOLD = ["global", "list", "closure", "table", "bddkey", "ref", "memo", "bv", "partial", "record"]


def session(ctx, r, num, reorders):
    s = S(r, num, r.choice([3, 4, 5, 5, 6, 6, 7]))
    s.lazy = False
    sp, u = s.sp, s.u
    for _ in range(r.randint(4, 9)):
        s.define()
    n = len(s.tab)
    f = [s.f(i) for i in range(n)]
    order = s.names[:]
    r.shuffle(order)
    pre = ["let %sm = %s;" % (u, flmasks(sp))] + s.defs
    pre.append("%s;" % " fseq ".join((["__vo %s" % s.fv(order)] if r.random() < 0.8 else []) + f + ['""']))
    # holders: an expression that answers the i:th value again, later
    get = []
    pre.append("let %slst = [%s];" % (u, ",".join("(%s,%d)" % (f[i], i) for i in range(n))))
    pre.append("let %sclo = \\i. el (i+1) [%s];" % (u, ",".join(f)))
    pre.append("let %stbl = itlist (\\p.\\t. tbl_insert t (snd p) (fst p)) %slst (tbl_create 10);" % (u, u))
    pre.append("let %skey = itlist (\\p.\\t. tbl_insert t p p) [%s] (tbl_create 10);" % (
        u, ",".join(f[i] for i in range(n) if s.tab[i] not in s.tab[:i])))
    pre.append("let %sref = ref (fst (hd %slst));" % (u, u))
    pre.append("cletrec %smem i x = i = 0 => x | (%smem (i-1) (x XOR (el (1+(i%%%d)) [%s])));" % (u, u, n, ",".join(f)))
    pre.append("let %sbv = %s;" % (u, "list2bv [%s]" % ",".join(f)))
    pre.append("lettype %srt = %sC {b::bool} {i::int} {c::bool};" % (u, u))
    pre.append("let %spk (%sC a i b) = (a,b);" % (u, u))
    pre.append("let %srec = map (\\p. %sC (fst p) (snd p) (NOT (fst p))) %slst;" % (u, u, u))
    pre.append("let %spap = map (\\p. (defix AND) (fst p)) %slst;" % (u, u))
    k = r.randrange(n)
    pre.append("(%sref := %s);" % (u, f[k]))
    force = "(%slst fseq %stbl fseq %skey fseq %sbv fseq %srec fseq %spap fseq %s fseq \"\") fseq " % (
        u, u, u, u, u, u, " fseq ".join(f))
    memo = []
    for i in range(n + 1):
        v = s.tab[k]
        for j in range(i, 0, -1):
            v ^= s.tab[j % n]
        memo.append(v)
    tt = lambda e: "(__x (__tt %d %sm %s))" % (sp.all, u, e)

    def look():
        h = r.choice(HOLD)
        i = r.randrange(n)
        t = s.tab[i]
        if h == "global":
            return h, tt(f[i]), "%x" % t
        if h == "list":
            return h, tt("(fst (el %d %slst))" % (i + 1, u)), "%x" % t
        if h == "closure":
            return h, tt("(%sclo %d)" % (u, i)), "%x" % t
        if h == "table":
            return h, tt("(tbl_get %stbl %d)" % (u, i)), "%x" % t
        if h == "bddkey":
            return h, tt("(tbl_get %skey (NOT (NOT (%s AND T))))" % (u, f[i])), "%x" % t
        if h == "ref":
            return h, tt("(deref %sref)" % u), "%x" % s.tab[k]
        if h == "memo":
            j = r.randint(0, n)
            return h, tt("(%smem %d %s)" % (u, j, f[k])), "%x" % memo[j]
        if h == "bv":
            return h, "__l (\\b. %s) (bv2list %sbv)" % (tt("b"), u), None
        if h == "partial":
            return h, tt("((el %d %spap) %s)" % (i + 1, u, f[k])), "%x" % (t & s.tab[k])
        if h == "record":
            return h, "val (a,b) = %spk (el %d %srec) in %s^%s" % (u, i + 1, u, tt("a"), tt("b")), "%x%x" % (t, sp.neg(t))

    def looks(m):
        out = []
        for _ in range(m):
            h, e, w = look()
            if h == "bv":
                # the most significant copies of the sign may have been dropped
                l = s.tab[:]
                while len(l) > 1 and l[0] == l[1]:
                    l = l[1:]

                def ck(o, l=l):
                    got = [x for x in o[1:].split(";") if x]
                    while len(got) > 1 and got[0] == got[1]:
                        got = got[1:]
                    return None if o[0] == "=" and got == ["%x" % x for x in l] else "expected bits %s" % ["%x" % x for x in l]
                out.append(("held-bv", e, ck))
            else:
                out.append(("held-" + h, e, w))
        return out

    def full():
        want = ",".join("%x" % t for t in s.tab) + "|" + "".join(
            "1" if s.tab[i] == s.tab[j] else "0" for i in range(n) for j in range(i + 1, n))
        return ("held-all", "(let l = [%s] in (list2str F \"\" \",\" \"\" (\\f. __x (__tt %d %sm f)) l)^\"|\"^(__eqs l))" % (
            ",".join(f), sp.all, u), want)

    def rebuilt():
        # the same function built afresh must be the held one
        i = r.randrange(n)
        t = s.tab[i]
        vs = s.names[:]
        r.shuffle(vs)

        def sh(g, vs):
            if g == 0:
                return "F"
            if g == sp.all:
                return "T"
            for j, v in enumerate(vs):
                if sp.cof(g, v, 0) != sp.cof(g, v, 1):
                    h, l = sh(sp.cof(g, v, 1), vs[j + 1:]), sh(sp.cof(g, v, 0), vs[j + 1:])
                    return '(((variable "%s") AND %s) OR ((NOT (variable "%s")) AND %s))' % (v, h, v, l)
        return ("canonical", "(__bt (%s == %s))^(__bt (%s = (NOT (NOT %s))))" % (sh(t, vs), f[i], f[i], f[i]), "11")

    def size():
        fs = r.sample(range(n), r.randint(1, min(3, n)))
        arg = "[%s]" % ",".join(f[i] for i in fs)
        # no reordering between the questions about one order
        e = "(__rc \"DYNAMIC-ORDERING\" \"NO\") fseq %s fseq (let a = (__ord %s)^\"|\"^(int2str (bdd_size %s))^\"|\"^(list2str F \"\" \",\" \"\" (\\p. (fst p)^\"=\"^(int2str (snd p))) (profile %s)) in a fseq (__rc \"DYNAMIC-ORDERING\" \"YES\") fseq a)" % (arg, s.fv(s.names), arg, arg)

        def chk(o, tabs=[s.tab[x] for x in fs]):
            if o[0] != "=":
                return "expected sizes"
            od, sz, pr = o[1:].split("|")
            od = od.split(",")
            if sorted(od) != sorted(s.names):
                return "the order does not list each variable once"
            w = sp.nodes(tabs, od)
            cnt = {v: len({min(g, sp.neg(g)) for g in w[v]}) for v in w}
            got = dict((p.rsplit("=", 1)[0], int(p.rsplit("=", 1)[1])) for p in pr.split(",") if p)
            if sum(got.values()) != int(sz):
                return "profile and size disagree"
            fl = {v: cnt[v] + sum(g in w[v] for g in set(tabs)) for v in w}
            if any(v not in got and cnt[v] or v in got and not cnt.get(v, 0) <= got[v] <= fl.get(v, 0) for v in set(cnt) | set(got)):
                return "expected between %s and %s nodes" % (cnt, fl)
        return ("size-in-order", e, chk)

    def action():
        a = r.random()
        if a < 0.3 and reorders:
            return ("reorder", "__ro %d" % r.randint(0, 3), "")
        if a < 0.6 and reorders:
            vs = s.vs(0)
            if r.random() < 0.3:
                vs = vs + ["fresh%d" % num]
            return ("var_order", "__vo %s" % s.fv(vs), "")
        if a < 0.75:
            return ("junk", "__j %d" % r.randint(5, 60), "")
        if a < 0.85:
            return ("junk", "__mulj %d %d" % (r.randint(0, 1), r.randint(0, 2)), "")
        if a < 0.93 and reorders:
            return ("rc", '__rc "DYNAMIC-ORDERING-THRESHOLD" "%d"' % r.choice([1, 50, 200]), "")
        return ("junk", "__cy %d" % r.randint(1, 4), "")

    def midway():
        # a running computation, interrupted by reorderings between and inside its steps
        seq = [(r.randrange(n), r.choice(["AND", "OR", "XOR"])) for _ in range(r.randint(2, 6))]
        t, e = s.tab[k], f[k]
        for i, op in seq:
            t = {"AND": t & s.tab[i], "OR": t | s.tab[i], "XOR": t ^ s.tab[i]}[op]
            act = r.choice(["__ro 1", "__vo %s" % s.fv(s.vs(1)), "__j 9"]) if reorders else "__j 9"
            e = "(let x = %s in x fseq (%s) fseq (x %s %s))" % (e, act, op, f[i])
        if r.random() < 0.5:
            return ("midway", tt(e), "%x" % t)
        i, j = r.randrange(n), r.randrange(n)
        act = r.choice(["(__ro 1)", "(__vo %s)" % s.fv(s.vs(1))]) if reorders else "(__j 7)"
        return ("inside-conditional", tt("(%s => (%s fseq (%s AND %s)) | ((__j 5) fseq %s))" % (f[i], act, f[j], f[k], f[k])),
                "%x" % sp.ite(s.tab[i], s.tab[j] & s.tab[k], s.tab[k]))

    def quant():
        i = r.randrange(n)
        q = s.vs(1, 3)
        return ("quantify", tt("(Quant_thereis %s %s)" % (s.fv(q), f[i])), "%x" % sp.exists(s.tab[i], q))

    def subst():
        i, j = r.randrange(n), r.randrange(n)
        v = r.choice(s.names)
        return ("substitute", tt('(substitute [("%s",%s)] %s)' % (v, f[j], f[i])), "%x" % sp.subst(s.tab[i], {v: s.tab[j]}))
    parts = []
    for _ in range(r.randint(3, 7)):
        parts.append(action())
        parts += looks(r.randint(1, 3))
        for g in r.sample([full, rebuilt, size, midway, quant, subst], 2):
            parts.append(g())
    parts.append(full())
    return Multi("\n".join(pre), parts, force)


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Sessions of random BDD definitions held in globals, lists, closures, tables (as values and as keys), references, memo caches, "
                "bit-vectors, records and partial applications; between questions the session reorders, sets orders, makes garbage, and (hook) "
                "is made to collect and reorder every few reductions, with small node tables that grow. Every held value is read back by walking it "
                "and compared with its truth table. Non-trivial: a distinct question.")
    ctx.assumptions = ["the forced collections happen where the evaluator itself may collect", "symbolic conditionals are entered with evaluated operands (see known finding of C02)"]
    base = base_points(ctx)
    num = 0
    jobs = []
    for per, reo, size, mode in [(0, 0, 20, 1), (0, 0, 12, 1), (400, 3, 13, 1), (1500, 2, 14, 1), (97, 7, 12, 1), (700, 0, 12, 0), (40, 0, 12, 0)]:
        tt0 = time.time()
        k = ctx.scale(40, 700)
        if per and per < 100:
            k //= 4
        cases = []
        for _ in range(k):
            cases.append(session(ctx, r, num, mode))
            num += 1
        st = os.path.join(ctx.tmp, "stats-%d-%d" % (per, size))
        env = {"VOSS_VERIF_STATS": st}
        if per:
            env["VOSS_VERIF_GC"] = "%d,%d,%d" % (base + r.randint(0, 2000), per + r.randint(0, per // 8), reo)
        ctx.run_cases(cases, prelude=PRE, chunk=2 if 0 < per < 200 else 6, timeout=90, args=["-s", str(size)], env=env, variant="fast")
        tot = {}
        for line in open(st) if os.path.exists(st) else []:
            for kv in line.split():
                a, b = kv.split("=")
                tot[a] = tot.get(a, 0) + int(b)
        if not tot.get("gcs") or (reo and not tot.get("reorders")) or (per and not tot.get("forced")):
            raise Harness("the hook did not act: %s" % tot)
        for a, b in tot.items():
            ctx.count("observed_" + a, b)
        ctx.count("sessions", len(cases))
        if os.environ.get("VERIF_TIMES"):
            print(env.get("VOSS_VERIF_GC"), per, reo, size, mode, time.time() - tt0, tot)
    ctx.inconclusive = 0


def base_points(ctx):
    st = os.path.join(ctx.tmp, "base")
    ctx.fl("quit;\n", variant="fast", env={"VOSS_VERIF_STATS": st})
    m = re.search(r"points=(\d+)", open(st).read() if os.path.exists(st) else "")
    if not m:
        raise Harness("no hook in this build")
    return int(m.group(1))


if __name__ == "__main__":
    main("C03", run)
