"""P16: the order in which concurrently produced values are combined is total.

The sequence that is sorted and the sort key of its symbolic element are taken
from the value-flow analysis of the backward passes; two values that arrive in
any order and have one key, but differ, would be combined in arrival order."""
import random
import evalt
from evalt import Undef, TooBig
from term import *
from obl import Verdict
from ob_grad import contraction_ops, leaf, run_backward, grads


def free_vars(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "var":
            out.add(x)
        st.extend(x.args)
    return out


def duplicates(env, src, keys, op, tries=200):
    """-> (None | witness, number of valuations with at least two values)"""
    free = list(free_vars(src) | free_vars(keys))
    used = 0
    for seed in range(evalt.BASE, evalt.BASE + tries * evalt.EFFORT):
        rng = random.Random(evalt.hsh("keys", seed))
        assign = dict(op.sampler(rng) if op.sampler else {})
        for x in free:
            assign.setdefault(x, rng.choice((0, 0, 0, 1)))
        try:
            w = evalt.Val(seed, assign)
            if not all(w.ev(f) for f in op.facts):
                continue
            ks, ms = w.ev(keys), w.ev(src)
        except (Undef, TooBig):
            continue
        if len(ms) < 2 or len(ks) != len(ms):
            continue
        used += 1
        seen = {}
        for k, m in zip(ks, ms):
            k, m = evalt.frz(k), evalt.frz(m)
            # values for different places (first component) are never combined
            slot = m[1] if isinstance(m, tuple) and len(m) > 1 and isinstance(m[1], int) else None
            if seen.setdefault((k, slot), m) != m:
                return (w, k, seen[(k, slot)], m), used
        if used >= 40 * evalt.EFFORT:
            break
    return None, used


def sort_keys(env):
    for op in contraction_ops(env):
        it = env.interp()
        it.rec_limit = 8
        it.sorts = []
        xs = op.leaves(env, it)

        def body():
            r = op.call(env, it, xs)
            run_backward(env, it, r, op.out, {}, False)
            return grads(env, it, xs)
        env.run_py(it, body)
        for n, (src, keys, where) in enumerate(it.sorts):
            name = "P16 order of concurrent values/%s, sort %d" % (op.name, n)
            if keys is None or keys.unk or src.unk:
                env.verdicts.append(Verdict(name, "UNKNOWN", where, "the sort key could not be determined"))
                continue
            try:
                w, used = duplicates(env, src, keys, op)
            except RecursionError:
                w, used = None, 0
            env.valuations += used
            if w is not None:
                env.verdicts.append(Verdict(name, "VIOLATED", where, "two values with one sort key are combined in the order in which they arrive: key %s for %s and %s, e.g. for %s" % (
                    str(w[1])[:80], str(w[2])[:80], str(w[3])[:80], w[0].describe()[:200])))
            else:
                env.verdicts.append(Verdict(name, "AGREE" if used >= 8 else "UNKNOWN", where, "the keys of all values are different under %d valuations" % used))
