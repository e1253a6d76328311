"""C15: symbolic trajectory evaluation against a ternary simulation of the same circuit."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Multi, main
from bf import flmasks
import ckt
from stetest import PRE, Run


def case(r, num):
    k = Run(r, num, ops=ckt.KLEENE if r.random() < 0.3 else None)
    u, sp = "s%d_" % num, k.sp
    wl, ant, cons = k.lists()
    opts = r.choice(["-e", "-e", "-e -s"])
    defs = ["let %sp = %s;" % (u, k.c.text), "let %sc = pexlif2fsm %sp;" % (u, u),
            'let %s0 = STE "-e" %sc [] [] [] [];' % (u, u),
            'let %sr = STE "%s" %sc %s %s %s [];' % (u, opts, u, wl, ant, cons)]
    order = ["%sc" % u, "%s0" % u, "%sr" % u]
    tr = {}

    def init(out):
        tr["0"] = k.parse(out[1:])
        if any(v is None for v in tr["0"].values()):
            return "a node without a trace"

    def full(out):
        tr["r"] = k.parse(out[1:])
        if any(v is None for v in tr["r"].values()):
            return "a node without a trace"
        if k.end == 0:
            return
        tr["ok"] = True
        return k.judge(tr["0"], tr["r"])

    parts = [("initial", "__tr %s %s0 %s" % (k.tt(), u, k.names()), init),
             ("trace", "__tr %s %sr %s" % (k.tt(), u, k.names()), full)]

    def res(out):
        if "ok" not in tr:
            return
        t, c = k.results(tr["r"])
        al = sp.all
        want = [al, t, al, c, (al & ~t) | c, t & c, t & c]
        got = [int(x, 16) for x in out[1:].split(",")]
        if got != want:
            return "expected %s" % ",".join("%x" % x for x in want)
    parts.append(("result", '__j "," (\\f. __x (%s (get_ste_result %sr f))) ["antOK","trajOK","consOK","checkOK","implies","strong",""]' % (k.tt(), u), res))
    if k.end:
        # single values
        for _ in range(2):
            b, t = r.choice(k.c.allbits()), r.randint(0, k.end)

            def val(out, b=b, t=t):
                if "ok" in tr and out != "=%x,%x" % k.at(tr["r"][b], t):
                    return "not the value of the trace, %x,%x" % k.at(tr["r"][b], t)
            parts.append(("get_trace_val", 'let v = get_trace_val %sr "%s" %d in (__x (%s (fst v)))^","^(__x (%s (snd v)))' % (u, b, t, k.tt(), k.tt()), val))
        b, t0 = r.choice(k.c.allbits()), r.randint(0, k.end)
        t1 = t0 + r.randint(1, 4)

        def window(out, b=b, t0=t0, t1=t1):
            if "ok" in tr:
                l = k.parse("x=" + out[1:])["x"]
                for t in range(max(t0, k.start), t1):
                    if t <= k.end and k.at(l, t) != k.at(tr["r"][b], t):
                        return "at %d it is %x,%x in the whole trace" % ((t,) + k.at(tr["r"][b], t))
        parts.append(("limited_get_trace", '__j ";" (\\(t,h,l). sprintf "%%d:%%x,%%x" t (%s h) (%s l)) (limited_get_trace %sr %d %d "%s")' % (k.tt(), k.tt(), u, t0, t1, b), window))
        b, t = [r.choice(k.c.allbits()) for _ in range(4)], r.randint(0, k.end)

        def nonx(out):
            if "ok" in tr:
                w = [x for x in b if k.at(tr["r"][x], t) != (sp.all, sp.all)]
                if out[1:] != ";".join(w):
                    return "expected %s" % w
        parts.append(("get_nonX_entries", "__l id (get_nonX_entries %sr [%s] %d)" % (u, ",".join('"%s"' % x for x in b), t), nonx))
        # only some nodes are traced
        defs.append('let %st = STE "" %sc %s %s %s %s;' % (u, u, wl, ant, cons, k.trltext()))
        order.append("%st" % u)
        nodes = sorted({x[0] for x in k.trl})

        def part(out):
            t2 = k.parse(out[1:])
            if "ok" not in tr:
                return
            for b in nodes:
                for t in range(k.start, k.end + 1):
                    if any(x[0] == b and x[1] <= t < x[2] for x in k.trl):
                        if t2[b] is None or k.at(t2[b], t) != k.at(tr["r"][b], t):
                            return "%s at %d differs from the run with all nodes traced: %x,%x" % ((b, t) + k.at(tr["r"][b], t))
                    elif any(x[0] == b and x[2] == t for x in k.trl) and k.at(t2[b], t) != (sp.all, sp.all):
                        return "%s is not X at %d, where its trace has ended" % (b, t)
        parts.append(("traced", "__tr %s %st [%s]" % (k.tt(), u, ",".join('"%s"' % b for b in nodes)), part))
        # the same runs with constants
        for j in r.sample(range(sp.size), min(sp.size, 2)):
            w, a, c = k.lists(j)
            n = "%sk%d" % (u, j)
            defs.append('let %s = STE "-e" %sc %s %s %s [];' % (n, u, w, a, c))
            order.append(n)

            def scal(out, j=j):
                t2 = k.parse(out[1:])
                if "ok" not in tr:
                    return
                for b in k.c.allbits():
                    for t in range(k.start, k.end + 1):
                        h, l = k.at(tr["r"][b], t)
                        if k.at(t2[b], t) != ((h >> j & 1) * sp.all, (l >> j & 1) * sp.all):
                            return "%s at %d differs from the symbolic run at %s" % (b, t, sp.assign(j))
            parts.append(("scalar", "__tr %s %s %s" % (k.tt(), n, k.names()), scal))
    return Multi("\n".join(defs), parts, "".join("%s fseq " % n for n in order))


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random hierarchical circuits (all word operators, phase delays with feedback, split and permuted connections) under random antecedents (guarded, "
                "overlapping, on inputs and driven nodes), weakenings and consequents over up to 4 Boolean variables. For every valuation, time and node the traced "
                "value is checked against the node's driver applied to the traced inputs; the results, partial traces and constant runs against the trace. "
                "Non-trivial: a distinct question about a distinct run.")
    ctx.assumptions = ["an arithmetic operator with X inputs may answer X or the value that all completions share; operators over overconstrained inputs are not judged"]
    cases = [case(r, i) for i in range(ctx.scale(400, 8000))]
    half = len(cases) // 2
    ctx.run_cases(cases[:half], prelude=PRE, chunk=25, timeout=120, variant="fast")
    # with collections and reorderings in the middle of the simulations
    ctx.run_cases(cases[half:], prelude=PRE, chunk=25, timeout=120, variant="fast", env={"VOSS_VERIF_BDD": "%d,%d" % (r.choice([7, 23, 61]), r.choice([0, 4]))})
    ctx.count("runs", len(cases))


if __name__ == "__main__":
    main("C15", run)
