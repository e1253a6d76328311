"""C16: the bexpr-based STE engine against the BDD-based one, and both against the scalar runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main
import ckt
from stetest import PRE, Run


def case(r, num):
    k = Run(r, num, ops=ckt.KLEENE if r.random() < 0.3 else None)
    u, sp = "s%d_" % num, k.sp
    wl, ant, cons = k.lists()
    bwl, bant, bcons = k.lists(be=True)
    opts = r.choice(["-e", "-e", "-e -s"])
    runs = ['let %sr = STE "%s" %sc %s %s %s [] "";' % (u, opts, u, wl, ant, cons),
            'let %sb = bSTE "%s" %sc %s %s %s [] "";' % (u, opts, u, bwl, bant, bcons),
            'let %st = bSTE "" %sc %s %s %s %s "";' % (u, u, bwl, bant, bcons, k.trltext())]
    order = ["%sr" % u, "%sb" % u, "%st" % u]
    if r.random() < 0.5:
        runs[0], runs[1] = runs[1], runs[0]
        order[0], order[1] = order[1], order[0]
    defs = ["let %sp = %s;" % (u, k.c.text), "let %sc = pexlif2fsm %sp;" % (u, u)] + runs
    order = ["%sc" % u] + order
    tr = {}
    btt = "(\\e. %s (base_bexpr2bdd [] e))" % k.tt()

    def full(out):
        tr["r"] = k.parse(out[1:])
        if any(v is None for v in tr["r"].values()):
            return "a node without a trace"

    def bfull(out):
        t2 = tr["b"] = k.parse(out[1:])
        if any(v is None for v in t2.values()):
            return "a node without a trace"
        for t in range(0, k.end + 1):
            for b in k.c.allbits():
                if k.at(t2[b], t) != k.at(tr["r"][b], t):
                    return "%s at %d is %x,%x with bexprs and %x,%x with BDDs" % ((b, t) + k.at(t2[b], t) + k.at(tr["r"][b], t))

    parts = [("trace", "__tr %s %sr %s" % (k.tt(), u, k.names()), full),
             ("bexpr trace", "__btr %s %sb %s" % (btt, u, k.names()), bfull)]
    flags = '["antOK","trajOK","consOK","checkOK","implies","strong",""]'

    def res(out):
        tr["res"] = out

    def bres(out):
        if out != tr.get("res"):
            return "the BDD engine says %s" % tr.get("res")
    parts.append(("result", '__j "," (\\f. __x (%s (get_ste_result %sr f))) %s' % (k.tt(), u, flags), res))
    parts.append(("bexpr result", '__j "," (\\f. __x (%s (bget_ste_result %sb f))) %s' % (btt, u, flags), bres))
    # the two decide the same
    parts.append(("decision", '(__b (get_ste_result %sr "strong"))^(bexpr_is_unsat (bNOT (bget_ste_result %sb "strong")) 100 => "T" | "F")' % (u, u),
                  lambda out: None if out[1] == "?" or out[1] == out[2] else "the two engines decide differently"))
    if k.end:
        for _ in range(2):
            b, t = r.choice(k.c.allbits()), r.randint(0, k.end)

            def val(out, b=b, t=t):
                if "r" in tr and out != "=%x,%x" % k.at(tr["r"][b], t):
                    return "not the value of the BDD trace, %x,%x" % k.at(tr["r"][b], t)
            parts.append(("bget_trace_val", 'let v = bget_trace_val %sb "%s" %d in (__x (%s (fst v)))^","^(__x (%s (snd v)))' % (u, b, t, btt, btt), val))
        b, t0 = r.choice(k.c.allbits()), r.randint(0, k.end)
        t1 = t0 + r.randint(1, 4)

        def window(out, b=b, t0=t0, t1=t1):
            if "r" in tr:
                l = k.parse("x=" + out[1:])["x"]
                for t in range(max(t0, k.start), t1):
                    if t <= k.end and k.at(l, t) != k.at(tr["r"][b], t):
                        return "at %d it is %x,%x in the whole trace" % ((t,) + k.at(tr["r"][b], t))
        parts.append(("limited_bget_trace", '__j ";" (\\(t,h,l). sprintf "%%d:%%x,%%x" t (%s h) (%s l)) (limited_bget_trace %sb %d %d "%s")' % (btt, btt, u, t0, t1, b), window))
        nodes = sorted({x[0] for x in k.trl})

        def part(out):
            t2 = k.parse(out[1:])
            for b in nodes:
                for t in range(k.start, k.end + 1):
                    if any(x[0] == b and x[1] <= t < x[2] for x in k.trl):
                        if t2[b] is None or k.at(t2[b], t) != k.at(tr["r"][b], t):
                            return "%s at %d differs from the BDD run with all nodes traced: %x,%x" % ((b, t) + k.at(tr["r"][b], t))
        parts.append(("traced", "__btr %s %st [%s]" % (btt, u, ",".join('"%s"' % b for b in nodes)), part))
        # the same run with constants
        for j in r.sample(range(sp.size), min(sp.size, 2)):
            w, a, c = k.lists(j, be=True)
            n = "%sk%d" % (u, j)
            defs.append('let %s = bSTE "-e" %sc %s %s %s [] "";' % (n, u, w, a, c))
            order.append(n)

            def scal(out, j=j):
                t2 = k.parse(out[1:])
                for b in k.c.allbits():
                    for t in range(k.start, k.end + 1):
                        h, l = k.at(tr["r"][b], t)
                        if k.at(t2[b], t) != ((h >> j & 1) * sp.all, (l >> j & 1) * sp.all):
                            return "%s at %d differs from the symbolic BDD run at %s" % (b, t, sp.assign(j))
            parts.append(("scalar", "__btr %s %s %s" % (btt, n, k.names()), scal))
    # a handle is not usable with the other engine
    parts.append(("other engine", '"%s"' % "" if r.random() < 0.7 else '__l (\\(t,h,l). "x") (get_trace %sb "%s")' % (u, k.c.allbits()[0]),
                  lambda out: None if out == "=" or out[0] == "!" else "an error is expected"))
    return Multi("\n".join(defs), parts, "".join("%s fseq " % n for n in order))


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random circuits and assertions as for C15, run on the BDD engine and on the bexpr engine in either order; all traces, the seven results, single values, "
                "windows, partial traces and the decision (BDD constant against SAT answer) are compared in every valuation. Non-trivial: a distinct question about a distinct run.")
    ctx.assumptions = ["the values of bexprs are compared through base_bexpr2bdd (checked by C04)"]
    cases = [case(r, i) for i in range(ctx.scale(300, 6000))]
    half = len(cases) // 2
    ctx.run_cases(cases[:half], prelude=PRE, chunk=20, timeout=120, variant="fast")
    ctx.run_cases(cases[half:], prelude=PRE, chunk=20, timeout=120, variant="fast", env={"VOSS_VERIF_BDD": "%d,%d" % (r.choice([7, 23, 61]), r.choice([0, 4]))})
    ctx.count("runs", len(cases))


if __name__ == "__main__":
    main("C16", run)
