"""C10: programs evaluate as the language defines.  Oracle: a call-by-need reference interpreter."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Case, Multi, main
import lang


def program(r, tag):
    g = lang.Gen(r, tag, errors=r.random() < 0.6)
    for _ in range(r.randint(1, 6)):
        g.top()
    parts = []
    for _ in range(r.randint(2, 6)):
        q = g.question()
        if q is None:
            continue
        txt, want = q
        parts.append(("program", txt, want if want is not None else (lambda o: None if o[0] == "!" else "expected a failure")))
    return g, parts


def run(ctx):
    r = ctx.rng
    ctx.rule = ("Random well-typed programs: top-level, local, recursive, mutually recursive and memoised functions by clauses with patterns and guards, "
                "polymorphic and overloaded functions, data types, laziness, failures and catches, strict operators, user fixities, "
                "with counters of how often marked expressions are evaluated. Non-trivial: a distinct question.")
    ctx.assumptions = ["programs whose result the documentation leaves open (which operand of = or AND is looked at first when one fails) are not asked"]
    cases = []
    want = ctx.scale(2500, 40000)
    i = 0
    while len(cases) < want:
        i += 1
        g, parts = program(r, "%d_" % i)
        if not parts:
            continue
        cases.append(Multi("\n".join(g.text), parts))
    ctx.count("programs", len(cases))
    base, open_ = ctx.judge, []

    def judge(c, *a, **k):
        # an expression whose overloaded operators nothing resolves is a function of them: no question was asked
        if c.out is not None and isinstance(c.note, list) and re.fullmatch(r"#[-\s]*", c.out):
            open_.append(c)
            if len(open_) <= len(cases) // 100:
                return
        base(c, *a, **k)
    ctx.judge = judge
    ctx.run_cases(cases, prelude=lang.PRELUDE, chunk=100, timeout=60)
    ctx.count("programs left unresolved", len(open_))


if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(100000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main, args=("C10", run))
    rc = []
    def go():
        try:
            main("C10", run)
        except SystemExit as e:
            rc.append(e.code)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
