#!/usr/bin/env python3
"""chaos.py [seed ...] - soundness test of the analyser itself.

Takes knowledge away from the analyser at random (models of library functions, solved recurrences,
contracts) and runs the checks on the unchanged tree.  With less knowledge an obligation may become
undecided, but none may become violated."""
import os
import random
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(seed, prop):
    sys.path.insert(0, os.path.join(V, "engine"))
    sys.argv = ["check.py", prop, "quick"]
    import builtins_rs
    import interp
    import loops
    import registry
    import check
    import hooks
    import term
    rnd = random.Random(seed)
    registry.CASES, registry.LIMIT = 6, 120
    keys = sorted(builtins_rs.B)
    for k in rnd.sample(keys, len(keys) * rnd.choice((0, 3, 10)) // 100):
        del builtins_rs.B[k]
    m = rnd.choice((0, 0, 3, 8))
    if m:
        old = interp.Interp.closed_form
        r = rnd.randrange(m)

        def cf(self, h, N, x0, k, *a):
            s = term.show(h)
            if sum(map(ord, s)) % m == r:
                return None
            return old(self, h, N, x0, k, *a)
        interp.Interp.closed_form = cf
    hk = hooks.hooks
    names = sorted(hk())
    gone = set(rnd.sample(names, rnd.choice((0, 1, 2, len(names)))))

    def less(*without, **kw):
        return dict((k, v) for k, v in hk(*without, **kw).items() if k not in gone)
    hooks.hooks = less
    check.main()


if __name__ == "__main__":
    if sys.argv[1] == "-c":
        child(int(sys.argv[2]), sys.argv[3])
    else:
        sys.path.insert(0, os.path.join(V, "engine"))
        import registry
        props = [p for p in sorted(registry.PROPS) if p not in ("P08", "P15")]
        for s in map(int, sys.argv[1:]):
            rnd = random.Random(s * 7919)
            for p in rnd.sample(props, 3):
                try:
                    r = subprocess.run([sys.executable, __file__, "-c", str(s), p], capture_output=True, text=True, timeout=700)
                except subprocess.TimeoutExpired:
                    print(s, p, "TIMEOUT", flush=True)
                    continue
                last = [l for l in r.stdout.splitlines() if l.startswith(p + " quick")]
                bad = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print(s, p, r.returncode, (last or [r.stdout[-300:] + r.stderr[-500:]])[0][:150], bad[:1], flush=True)
