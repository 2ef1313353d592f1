"""P18-P20: layers, parameters, optimiser steps."""
from ob_grad import *


def adt_t(env, name, *a):
    return ("adt", env.adt(name), (T,) + a)


def act(env, it, kind, tag):
    """an activation of layer `tag`: None, one of the library's, or a user's function that depends on element and position"""
    if kind is None:
        return NONE, lambda s: s, None
    if kind == "user":
        def spec(s):
            p = fresh("p")
            x = nth(s, atom(p))
            return smap(length(s), p, add(mul(x, x), scale(add(x, atom(p)), tag + 2)))

        def run(it, args):
            x = args[0]
            return fresh_tensor(env, it, spec(it.getf(x, "array")), it.getf(x, "shape"))
        return some(mk("pyfn", run)), spec, None
    f = env.fn(kind)
    if f is None:
        return None
    d = {"tanh": th, "relu": lambda x: ite(elt0(x), ZERO, x), "abs": lambda x: ite(elt0(x), neg(x), x)}[kind]

    def spec(s):
        p = fresh("p")
        return smap(length(s), p, d(nth(s, atom(p))))
    return some(mk("pyfn", lambda it, args: method(env, it, f, [args[0]]))), spec, kind


def fresh_tensor(env, it, A, S):
    f = env.fn("RcTensor::new")
    return method(env, it, f, [A, S])


def linear(env, it, w, b, a):
    return method(env, it, "Linear::new", [w, b, a])


def affine(x, w, m, k, n, b, SB, S):
    """x w + b with b repeated to the shape S"""
    p, j = fresh("p"), fresh("j")
    i, c = divmod_(atom(p), n)
    xw = smap(mul(m, n), p, bigsum(k, j, mul(nth(x, add(mul(i, k), atom(j))), nth(w, add(mul(atom(j), n), c)))))
    q = fresh("q")
    return xw, (lambda SP: smap(prod(S), q, add(nth(xw, flat(unflat(atom(q), S), SP)), nth(b, flat(unflat(atom(q), S), SB)))))


def dims(n):
    return [atom(mk("sym", mk("tag", "d%d" % i))) for i in range(n)]


def nn_sampler(n, extra=None):
    def f(rng):
        order = list(range(n))
        rng.shuffle(order)
        a = {mk("sym", mk("tag", "d%d" % i)): rng.choice((1, 2, 3)) for i in order}
        if extra:
            extra(rng, a)
        return a
    return f


def pos_(ds):
    return tuple(bnot(eq0(d)) for d in ds)


def fwd(env, k):
    return env.fn(k + "::forward", trait="Module")


def tens(env, it, name, S):
    x = leaf(env, it, name, shape=S)
    return x, it.getf(x, "array")


def p18(env):
    f = fwd(env, "Linear")
    if f is not None and env.fn("Linear::new") is not None:
        for rank in (2, 3):
            for bias in ("vector", "row", "full"):
                for kind in (None, "tanh", "relu", "user"):
                    if rank == 3 and (kind == "relu" or bias == "row"):
                        continue
                    linear_forward(env, f, rank, bias, kind)
        linear_backward(env, f, None)
    f = fwd(env, "Mlp")
    if f is not None and env.fn("Mlp::new") is not None:
        for N in range(0, 5):
            for kinds in ((None,) * N, ("user",) * N, ("tanh", None, "user", "relu")[:N], ("relu", "user", "tanh", None)[:N]):
                mlp_forward(env, f, N, kinds)
                if N == 0:
                    break
        for N in (9, 20):
            mlp_forward(env, f, N, (None,) * N)
        mlp_wide(env, f)
        for N in (1, 2, 3):
            for kinds in ((None,) * N, ("tanh",) * N):
                mlp_backward(env, f, N, kinds)


def bias_shape(bias, S, n):
    return {"vector": seqlit(n), "row": seqlit(ONE, n), "full": S}[bias]


def linear_forward(env, f, rank, bias, kind):
    it = env.interp()
    d = dims(4)
    bt, m, k, n = d
    x, X = tens(env, it, "x", seqlit(m, k) if rank == 2 else seqlit(bt, m, k))
    S = seqlit(m, n) if rank == 2 else seqlit(bt, m, n)
    rows_ = m if rank == 2 else mul(bt, m)
    SB = bias_shape(bias, S, n)
    w, Wt = tens(env, it, "w", seqlit(k, n))
    b, B = tens(env, it, "b", SB)
    a = act(env, it, kind, 0)
    if a is None:
        return

    def body():
        l = linear(env, it, w, b, a[0])
        r = method(env, it, f, [ref(l), x])
        return tup(it.getf(r, "array"), it.getf(r, "shape"))
    r = env.run_py(it, body)
    z = affine(X, Wt, rows_, k, n, B, SB, S)[1](S)
    env.result("P18/Linear forward, batch of rank %d, %s bias, activation %s" % (rank, bias, kind), f, r, [
        ("elements", lambda v: v.args[0], a[1](z)), ("shape", lambda v: v.args[1], S)], facts=pos_(d), accept=TRUE, sampler=nn_sampler(4))


def linear_backward(env, f, kind):
    it = env.interp()
    it.rec_limit = 8
    d = dims(3)
    m, k, n = d
    x, X = tens(env, it, "x", seqlit(m, k))
    w, Wt = tens(env, it, "w", seqlit(k, n))
    b, B = tens(env, it, "b", seqlit(n))
    a = act(env, it, kind, 0)
    if a is None:
        return
    box = {}

    def body():
        l = linear(env, it, w, b, a[0])
        r = method(env, it, f, [ref(l), x])
        run_backward(env, it, r, seqlit(m, n), box, False)
        return grads(env, it, [x, w, b])
    r = env.run_py(it, body)
    env.result("P18/Linear backward, activation %s" % kind, f, r, [
        ("%s receives a gradient" % nm, lambda v, i=i: has(it, v, i), TRUE) for i, nm in enumerate(("the input", "the weights", "the bias"))],
        facts=pos_(d), accept=None, sampler=nn_sampler(3))


def mlp(env, it, layers):
    return method(env, it, "Mlp::new", [seqlit(*layers)])


def tiny(env, it, N, kinds):
    """N layers with 1x1 weights and one-element biases"""
    ls, ps, sp = [], [], []
    for i in range(N):
        w, Wt = tens(env, it, "w%d" % i, seqlit(ONE, ONE))
        b, B = tens(env, it, "b%d" % i, seqlit(ONE))
        a = act(env, it, kinds[i], i)
        if a is None:
            return None
        ls.append(linear(env, it, w, b, a[0]))
        ps += [w, b]
        sp.append((Wt, B, a[1], kinds[i]))
    return ls, ps, sp


def tiny_value(X, sp):
    v = X
    for Wt, B, a, _ in sp:
        v = a(seqlit(add(mul(nth(v, ZERO), nth(Wt, ZERO)), nth(B, ZERO))))
    return v


def mlp_forward(env, f, N, kinds):
    it = env.interp()
    x, X = tens(env, it, "x", seqlit(ONE, ONE))
    box = {}

    def body():
        t = tiny(env, it, N, kinds)
        box["t"] = t
        m = mlp(env, it, t[0])
        r = method(env, it, f, [ref(m), x])
        return tup(it.getf(r, "array"), it.getf(r, "shape"))
    r = env.run_py(it, body)
    env.result("P18/Mlp forward, layers with activations (%s)" % ", ".join(map(str, kinds)), f, r, [
        ("elements", lambda v: v.args[0], lambda v: tiny_value(X, box["t"][2])), ("shape", lambda v: v.args[1], seqlit(ONE, ONE))],
        accept=TRUE, sampler=lambda rng: {})


def mlp_wide(env, f):
    """layers of any width, without activation"""
    it = env.interp()
    d = dims(4)
    m, k, n, o = d
    x, X = tens(env, it, "x", seqlit(m, k))
    w0, W0 = tens(env, it, "w0", seqlit(k, n))
    b0, B0 = tens(env, it, "b0", seqlit(n))
    w1, W1 = tens(env, it, "w1", seqlit(n, o))
    b1, B1 = tens(env, it, "b1", seqlit(o))

    def body():
        mm = mlp(env, it, [linear(env, it, w0, b0, NONE), linear(env, it, w1, b1, NONE)])
        r = method(env, it, f, [ref(mm), x])
        return tup(it.getf(r, "array"), it.getf(r, "shape"))
    r = env.run_py(it, body)
    h = affine(X, W0, m, k, n, B0, seqlit(n), seqlit(m, n))[1](seqlit(m, n))
    y = affine(h, W1, m, n, o, B1, seqlit(o), seqlit(m, o))[1](seqlit(m, o))
    env.result("P18/Mlp forward, two layers of any width", f, r, [
        ("elements", lambda v: v.args[0], y), ("shape", lambda v: v.args[1], seqlit(m, o))], facts=pos_(d), accept=TRUE, sampler=nn_sampler(4))


def mlp_backward(env, f, N, kinds):
    it = env.interp()
    it.rec_limit = 4 * N + 6
    x, X = tens(env, it, "x", seqlit(ONE, ONE))
    box = {}
    t = tiny(env, it, N, kinds)
    if t is None:
        return

    def body():
        m = mlp(env, it, t[0])
        r = method(env, it, f, [ref(m), x])
        method(env, it, "RcTensor::backward", [ref(r)])
        return grads(env, it, t[1] + [x])
    r = env.run_py(it, body)
    # derivatives by the chain rule, from the last layer
    hs, v = [], X
    for Wt, B, a, kd in t[2]:
        z = add(mul(nth(v, ZERO), nth(Wt, ZERO)), nth(B, ZERO))
        hs.append((v, z))
        v = a(seqlit(z))
    up, want = ONE, []
    for (h, z), (Wt, B, a, kd) in reversed(list(zip(hs, t[2]))):
        dz = mul(up, dth(z)) if kd == "tanh" else up
        want = [seqlit(mul(dz, nth(h, ZERO))), seqlit(dz)] + want
        up = mul(dz, nth(Wt, ZERO))
    want.append(seqlit(up))
    checks = []
    for i, wv in enumerate(want):
        nm = "the input" if i == 2 * N else "the %s of layer %d" % ("bias" if i % 2 else "weights", i // 2)
        checks.append(("%s receives a gradient" % nm, lambda v, i=i: has(it, v, i), TRUE))
        checks.append(("gradient of %s" % nm, lambda v, i=i: garr(it, v, i), wv))
    env.result("P18/Mlp backward, layers with activations (%s)" % ", ".join(map(str, kinds)), f, r, checks, accept=TRUE, sampler=lambda rng: {})


# ---------------------------------------------------------------- P19
def lockid(it, x):
    return lock_of(it, x).args[0]


def same_tensor(it, x, y):
    """are these handles to one tensor?"""
    try:
        a, b = lockid(it, x), lockid(it, y)
    except Exception:
        return unk("identity")
    return ids_equal(a, b)


def ids_equal(a, b):
    if a.op == "ite":
        return ite(a.args[0], ids_equal(a.args[1], b), ids_equal(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], ids_equal(a, b.args[1]), ids_equal(a, b.args[2]))
    return TRUE if a is b else FALSE


def listing(it, v, xs):
    """index of the tensor in xs at each position of the list v (-1: none of them)"""
    n = const_val(length(v))
    if n is None:
        return unk("length of the list")
    out = []
    for j in range(n):
        e = nth(v, const(j))
        t = const(-1)
        for i, x in reversed(list(enumerate(xs))):
            t = ite(same_tensor(it, e, x), const(i), t)
        out.append(t)
    return seqlit(*out)


def fresh_list(env, it, sizes):
    return [leaf(env, it, "n%d" % i, shape=S) for i, S in enumerate(sizes)]


def modules(env, it):
    """(name, kind, build() -> module, its tensors)"""
    out = []
    S2, S1 = idx("a.S"), idx("b.S")
    if env.fn("Linear::new") is not None:
        out.append(("Linear", 1))
        if env.fn("Mlp::new") is not None:
            for N in range(0, 7):
                out.append(("Mlp", N))
    return out


def build(env, it, kind, N):
    ts, ls = [], []
    for i in range(N):
        w = leaf(env, it, "w%d" % i, shape=seqlit(ONE, ONE))
        b = leaf(env, it, "b%d" % i, shape=seqlit(ONE))
        ts += [w, b]
        ls.append(linear(env, it, w, b, NONE))
    return (ls[0] if kind == "Linear" else mlp(env, it, ls)), ts


def p19(env):
    for kind, N in modules(env, None):
        fp = env.fn(kind + "::params", trait="Module")
        fu = env.fn(kind + "::update_params", trait="Module")
        ff = fwd(env, kind)
        nm = "Linear" if kind == "Linear" else "Mlp of %d layers" % N
        if fp is None:
            continue
        it = env.interp()
        box = {}

        def body():
            m, ts = build(env, it, kind, N)
            v = method(env, it, fp, [ref(m)])
            return listing(it, v, ts)
        r = env.run_py(it, body)
        # layers in order, each of the two parameters of a layer once, in either order
        checks = [("number of parameters", lambda v: length(v), const(2 * N))]
        for i in range(N):
            def ok_pair(v, i=i):
                a, b = nth(v, const(2 * i)), nth(v, const(2 * i + 1))
                A, B = const(2 * i), const(2 * i + 1)
                return bor(band(eq0(sub(a, A)), eq0(sub(b, B))), band(eq0(sub(a, B)), eq0(sub(b, A))))
            checks.append(("the parameters of layer %d, each once and in place" % i, ok_pair, TRUE))
        env.result("P19/parameters of a %s" % nm, fp, r, checks, accept=TRUE, sampler=lambda rng: {})
        if kind == "Linear":
            for f in env.byq.get("Linear::params", []):
                if env.p.defs[f["def"]].get("impl_trait"):
                    continue
                it = env.interp()

                def body():
                    m, ts = build(env, it, kind, N)
                    c = it.cell(m)
                    v = method(env, it, f, [mk("mref", c)])
                    v = it.to_seq(it.to_iter(v))
                    return listing(it, v, ts)
                r = env.run_py(it, body)
                env.result("P19/parameters of a Linear (own method)", f, r, [(c[0], c[1], c[2]) for c in checks], accept=TRUE, sampler=lambda rng: {})
        if fu is None:
            continue
        # replace them, and look where they went
        it2 = env.interp()

        def body2():
            m, ts = build(env, it2, kind, N)
            old = listing(it2, method(env, it2, fp, [ref(m)]), ts)
            new = [leaf(env, it2, "n%d" % i, shape=it2.getf(t, "shape")) for i, t in enumerate(ts)]
            # the entry for each slot, in the order in which the slots were listed
            order = [const_val(nth(old, const(j))) for j in range(2 * N)]
            L = [new[o] if o is not None and 0 <= o < len(new) else unk("listing") for o in order]
            c = it2.cell(m)
            method(env, it2, fu, [mk("mref", c), seqlit(*L)])
            m2 = it2.read_mref(mk("mref", c))
            again = listing(it2, method(env, it2, fp, [ref(m2)]), new)
            x = leaf(env, it2, "x", shape=seqlit(ONE, ONE))
            v = it2.getf(x, "array")
            y = it2.getf(method(env, it2, ff, [ref(m2), x]), "array") if ff is not None else seqlit()
            for i in range(N):
                v = seqlit(add(mul(nth(v, ZERO), nth(it2.getf(new[2 * i], "array"), ZERO)), nth(it2.getf(new[2 * i + 1], "array"), ZERO)))
            return tup(old, again, y, v if ff is not None else seqlit())
        r = env.run_py(it2, body2)
        env.result("P19/replacing the parameters of a %s" % nm, fu, r, [
            ("listing after replacing", lambda v: v.args[1], lambda v: v.args[0]),
            ("output with every entry in the slot it was listed from", lambda v: v.args[2], lambda v: v.args[3])], accept=TRUE, sampler=lambda rng: {})
        if N > 2:
            continue
        # entries of any shape: refusing some would be a matter of taste, dropping them is not
        it3 = env.interp()
        nn = []

        def body3():
            m, ts = build(env, it3, kind, N)
            old = listing(it3, method(env, it3, fp, [ref(m)]), ts)
            new = [leaf(env, it3, "n%d" % i) for i, t in enumerate(ts)]
            nn.extend(new)
            order = [const_val(nth(old, const(j))) for j in range(2 * N)]
            L = [new[o] if o is not None and 0 <= o < len(new) else unk("listing") for o in order]
            c = it3.cell(m)
            method(env, it3, fu, [mk("mref", c), seqlit(*L)])
            m2 = it3.read_mref(mk("mref", c))
            out = method(env, it3, fp, [ref(m2)])
            return tup(seqlit(*[it3.getf(x, "shape") for x in L]), seqlit(*[it3.getf(nth(out, const(j)), "shape") for j in range(2 * N)]),
                       old, listing(it3, out, new))
        r = env.run_py(it3, body3)
        env.result("P19/replacing the parameters of a %s by tensors of any shape" % nm, fu, r, [
            ("shapes listed after replacing", lambda v: v.args[1], lambda v: v.args[0])], accept=None,
            sampler=ops_sampler(["n%d" % i for i in range(2 * N)], {}))


# ---------------------------------------------------------------- P20
def p20(env):
    f = env.fn("sgd_step")
    if f is None:
        return
    SW, SB = idx("a.S"), idx("b.S")
    smp = ops_sampler(("a", "b"), {})
    facts = (bnot(eq0(prod(SW))), bnot(eq0(prod(SB))))
    mods = [(kind, N, False) for kind, N in modules(env, None)]
    # the last layer may share its tensors with the first
    mods += [(kind, N, True) for kind, N, _ in mods if kind == "Mlp" and N in (2, 3)]
    for kind, N, tied in mods:
        fp = env.fn(kind + "::params", trait="Module")
        if fp is None:
            continue
        nm = "Linear" if kind == "Linear" else "Mlp of %d layers" % N + (", the last one sharing the tensors of the first" if tied else "")
        it = env.interp()
        ts, gs, ls = [], [], []
        for i in range(N):
            for q, S in (("w", SW), ("b", SB)):
                g = leaf(env, it, "g%s%d" % (q, i), shape=S)
                gs.append(g)
                ts.append(leaf(env, it, "%s%d" % (q, i), shape=S, grad=some(g), grad_fn=it.getf(it.opaque(mk("tag", "hist%s%d" % (q, i)), env.ty("RcTensor")), "grad_fn")))
        U = ("adt", env.adt("Linear"), (T,)) if kind == "Linear" else ("adt", env.adt("Mlp"), (T,))
        s = leaf(env, it, "s", shape=EMPTY)
        sv = nth(it.getf(s, "array"), ZERO)
        box = {}

        def body():
            for i in range(N):
                o = 0 if tied and i == N - 1 else i
                ls.append(linear(env, it, ts[2 * o], ts[2 * o + 1], NONE))
            m = ls[0] if kind == "Linear" else mlp(env, it, ls)
            old = listing(it, method(env, it, fp, [ref(m)]), ts)
            c = it.cell(m)
            method(env, it, f, [mk("mref", c), s], tenv={"U": U})
            new = method(env, it, fp, [ref(it.read_mref(mk("mref", c)))])
            return tup(old, new)
        r = env.run_py(it, body)
        checks = []
        for j in range(2 * N):
            def at(v, j=j):
                return nth(v.args[1], const(j))

            def was(v, j=j):
                return const_val(nth(v.args[0], const(j)))

            def el(v, j=j):
                o = was(v, j)
                return ew(length(it.getf(ts[o], "array")), lambda x, g: sub(x, mul(sv, g)), it.getf(ts[o], "array"), it.getf(gs[o], "array"))
            checks += [
                ("elements of parameter %d" % j, lambda v, j=j: it.getf(at(v, j), "array"), lambda v, j=j: el(v, j)),
                ("shape of parameter %d" % j, lambda v, j=j: it.getf(at(v, j), "shape"), lambda v, j=j: it.getf(ts[was(v, j)], "shape")),
                ("parameter %d has a gradient" % j, lambda v, j=j: it.variant_cond(it.lock_content(lock_of(it, at(v, j))), OPTION, 1), FALSE),
                ("parameter %d has a history" % j, lambda v, j=j: it.variant_cond(it.getf(at(v, j), "grad_fn"), OPTION, 1), FALSE),
                ("parameter %d is the old tensor" % j, lambda v, j=j: same_tensor(it, at(v, j), ts[was(v, j)]), FALSE)]
        checks.append(("number of parameters", lambda v: length(v.args[1]), const(2 * N)))
        env.result("P20/sgd_step on a %s" % nm, f, r, checks, facts=facts, accept=TRUE, sampler=smp)


if __name__ == "__main__":
    main(globals())
