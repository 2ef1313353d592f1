"""P10-P13: what a backward pass deposits, as closed forms."""
from ob_basic import *
import obligations as O
from obl import SKIP


def leaf(env, it, name, shape=None, grad=None, grad_fn=None, tag=None):
    """an opaque tensor without history whose accumulated gradient is `grad` (default: none)"""
    x = it.opaque(mk("tag", name), env.ty("RcTensor"))
    S = shape if shape is not None else idx(name + ".S")
    x = set_fields(env, x, {"shape": S, "array": sseq(mk("tag", name + ".A"), prod(S), "elem"), "grad_fn": NONE if grad_fn is None else grad_fn})
    lk = lock_of(it, x)
    it.st.cells[lk.args[0]] = NONE if grad is None else grad
    return x


def past(env, it):
    """some recorded operation"""
    r = it.opaque(mk("tag", "hist"), env.ty("RcTensor"))
    h = it.getf(r, "grad_fn")
    it.assume_variant(h, OPTION, 1) if hasattr(it, "assume_variant") else None
    return h


def lock_of(it, x):
    return it.lock_term(it.getf(x, "grad"))


def method(env, it, q, args, trait=None, tenv=None, name=None):
    f = env.fn(q, trait=trait) if not isinstance(q, dict) else q
    if f is None:
        raise LookupError(q)
    d = env.p.defs[f["def"]]
    tv = dict((g, ("param", g)) for g in d["generics"] if not g.startswith("'"))
    tv.update(tenv or {})
    env.ncall = getattr(env, "ncall", 0) + 1
    v = it.run_body(f, args, tv, {}, site="#%d" % env.ncall)
    return it.read_mref(v) if v.op == "mref" else v


RC = "RcTensor"


def upstream(env, it, r, W):
    """a scalar made from r whose derivative with respect to r is W, and its backward pass"""
    l = method(env, it, "RcTensor::dot", [ref(r), ref(W)], trait="TensorLike", tenv={"U": rty(env.ty(RC)), "V": env.ty(RC)})
    method(env, it, "RcTensor::backward", [ref(l)])


def grads(env, it, xs):
    return tup(*[it.lock_content(lock_of(it, x)) for x in xs])


def garr(it, v, i):
    """elements of the gradient deposited on operand i"""
    g = v.args[i]
    return it.getf(it.field(g, 1, 0), "array")


def gshape(it, v, i):
    return it.getf(it.field(v.args[i], 1, 0), "shape")


def has(it, v, i):
    return it.variant_cond(v.args[i], "core::option::Option", 1)


def run_backward(env, it, r, W_shape, box, root):
    """a backward pass with an arbitrary incoming gradient W, or directly from a single-element result"""
    if root:
        box["W"] = seqlit(ONE)
        method(env, it, "RcTensor::backward", [ref(r)])
    else:
        W = leaf(env, it, "W", shape=it.getf(r, "shape") if W_shape is None else W_shape)
        box["W"] = it.getf(W, "array")
        upstream(env, it, r, W)


class Op:
    """a differentiable operation on opaque operands of any shape"""

    def __init__(self, name, kind, f, e, shapes, modes, specs, out, facts=(), sampler=None, post=None, same=False):
        self.name, self.kind, self.f, self.e, self.shapes, self.modes = name, kind, f, e, shapes, modes
        self.specs, self.out, self.facts, self.sampler, self.post, self.same = specs, out, tuple(facts), sampler, post, same

    def names(self):
        return ("a",) if self.same else ("a", "b")[:len(self.modes)]

    def leaves(self, env, it):
        return [leaf(env, it, n, shape=S) for n, S in zip(self.names(), self.shapes)]

    def call(self, env, it, xs):
        xs = xs * 2 if self.same else xs
        return method(env, it, self.f, [ref(x) if m == "r" else x for x, m in zip(xs, self.modes)], tenv=self.e)


def elementwise(d):
    def f(W, As, Ss):
        p = fresh("p")
        return [smap(prod(Ss[0]), p, mul(nth(W, atom(p)), d(nth(As[0], atom(p)))))]
    return f


def kink_post(dl, dr):
    def post(g, W, A, n):
        """one of the one-sided derivatives: (g - w l)(g - w r) = 0"""
        p = fresh("p")
        x, w = nth(A, atom(p)), nth(W, atom(p))
        if g is None:
            return smap(n, p, ZERO)
        y = nth(g, atom(p))
        return ite(eq0(sub(length(g), n)), smap(n, p, mul(sub(y, mul(w, dl(x))), sub(y, mul(w, dr(x))))), seqlit(ONE))
    return post


def ele0(x):
    return bor(elt0(x), eq0(x))


ONE_SIDED = {
    "abs": (lambda x: ite(ele0(x), const(-1), ONE), lambda x: ite(elt0(x), const(-1), ONE)),
    "relu": (lambda x: ite(ele0(x), ZERO, ONE), lambda x: ite(elt0(x), ZERO, ONE)),
}
SMOOTH = {"neg": lambda x: const(-1), "tanh": lambda x: sub(ONE, mul(efn("tanh", x), efn("tanh", x)))}


def kink_sampler(rng):
    a = ops_sampler(("a",), {})(rng)
    n = 1
    for d in a[mk("tag", "a.S")]:
        n *= d
    if rng.random() < .5:
        a[mk("tag", "a.A")] = [rng.choice((-2, -1, 0, 0, 1, 3)) for _ in range(n)]
    return a


def scatter_spec(W, S, SX, sg):
    """sum over the result positions that read position p of an operand of shape SX"""
    p, q = fresh("p"), fresh("q")
    return smap(prod(SX), p, bigsum(prod(S), q, mul(scale(ind(eq0(sub(flat(unflat(atom(q), S), SX), atom(p)))), sg), nth(W, atom(q)))))


def elementwise_ops(env):
    SA, SB = idx("a.S"), idx("b.S")
    for f, e, k, m, op in unary_sites(env):
        if k != RC:
            continue
        nm = "%s(%sRcTensor) by %s" % (op, "&" if m == "r" else "", env.it0.qual(f))
        if op in ONE_SIDED:
            yield Op(nm, op, f, e, (SA,), m, None, SA, sampler=kink_sampler, post=kink_post(*ONE_SIDED[op]))
        else:
            yield Op(nm, op, f, e, (SA,), m, elementwise(SMOOTH[op]), SA, sampler=ops_sampler(("a",), {}))
    for trait, meth, sg in (("Add", "add", 1), ("Sub", "sub", -1)):
        for m in ("rr", "vv", "vr"):
            at = rty(env.ty(RC)) if m[0] == "r" else env.ty(RC)
            bt = rty(env.ty(RC)) if m[1] == "r" else env.ty(RC)
            fs = find_op(env, trait, meth, at, bt)
            if len(fs) != 1:
                continue
            f, e = fs[0]
            nm = "%sRcTensor %s %sRcTensor" % ("&" * (m[0] == "r"), meth, "&" * (m[1] == "r"))
            S = bshape(SA, SB)
            yield Op(nm, meth, f, e, (SA, SB), m, lambda W, As, Ss, S=S, sg=sg: [scatter_spec(W, S, SA, 1), scatter_spec(W, S, SB, sg)], S,
                     facts=(bnot(eq0(prod(SA))), bnot(eq0(prod(SB))), broadcastable(SA, SB)), sampler=ops_sampler(("a", "b"), {}))

            def both(W, As, Ss, sg=sg):
                p = fresh("p")
                return [smap(prod(SA), p, scale(nth(W, atom(p)), 1 + sg))]
            yield Op(nm + " (the same tensor)", meth, f, e, (SA,), m, both, SA, facts=(bnot(eq0(prod(SA))),), sampler=ops_sampler(("a",), {}), same=True)


def contraction_ops(env):
    SA = idx("a.S")
    for nm, f, e in dot_sites(env):
        def one(W, As, Ss):
            p = fresh("p")
            return [smap(prod(SA), p, mul(nth(W, ZERO), nth(As[1 - i], atom(p)))) for i in (0, 1)]

        def two(W, As, Ss):
            p = fresh("p")
            return [smap(prod(SA), p, scale(mul(nth(W, ZERO), nth(As[0], atom(p))), 2))]
        yield Op(nm, "dot", f, e, (SA, SA), "rr", one, None, sampler=ops_sampler(("a",), {}))
        yield Op(nm + " (the same tensor)", "dot", f, e, (SA,), "rr", two, None, sampler=ops_sampler(("a",), {}), same=True)
    f = env.fn("RcTensor::sum", trait="TensorLike")
    if f is not None:
        def total(W, As, Ss):
            p = fresh("p")
            return [smap(prod(SA), p, nth(W, ZERO))]
        yield Op("sum", "sum", f, {}, (SA,), "r", total, None, sampler=ops_sampler(("a",), {}))
    for meth in ("bmm", "bmm_rc"):
        f = env.fn("RcTensor::" + meth, trait="TensorLike")
        if f is None:
            continue
        for rank in (2, 3):
            b_, m, k, n = [atom(mk("sym", mk("tag", "d%d" % i))) for i in range(4)]
            rows_ = m if rank == 2 else mul(b_, m)
            yield Op("%s, rank %d" % (meth, rank), "bmm", f, {"U": env.ty(RC)}, (seqlit(m, k) if rank == 2 else seqlit(b_, m, k), seqlit(k, n)), "rr",
                     lambda W, As, Ss, d=(rows_, k, n): [bmm_left(W, As[1], *d), bmm_right(W, As[0], *d)],
                     seqlit(m, n) if rank == 2 else seqlit(b_, m, n), sampler=bmm_sampler(rank))
        d = atom(mk("sym", mk("tag", "d")))

        def both(W, As, Ss, d=d):
            p = fresh("p")
            x, y = bmm_left(W, As[0], d, d, d), bmm_right(W, As[0], d, d, d)
            return [smap(mul(d, d), p, add(nth(x, atom(p)), nth(y, atom(p))))]
        yield Op("%s (the same tensor)" % meth, "bmm", f, {"U": env.ty(RC)}, (seqlit(d, d),), "rr", both, seqlit(d, d),
                 sampler=lambda rng: {mk("sym", mk("tag", "d")): rng.choice((1, 2, 3))}, same=True)


def dot_sites(env):
    out = []
    f = env.fn("RcTensor::dot", trait="TensorLike")
    if f is not None:
        out.append(("RcTensor::dot", f, {"U": rty(env.ty(RC)), "V": env.ty(RC)}))
    f = env.fn("dot")
    if f is not None:
        out.append(("functional::dot", f, {"U1": rty(env.ty(RC)), "V1": env.ty(RC), "U2": rty(env.ty(RC)), "V2": env.ty(RC)}))
    return out


def judged(env, name, op, root=False, facts=()):
    """the gradients that a backward pass through op deposits on its operands, against the rule of the operation"""
    it = env.interp()
    it.rec_limit = 8
    xs = op.leaves(env, it)
    As = [it.getf(x, "array") for x in xs]
    box = {}

    def body():
        r = op.call(env, it, xs)
        run_backward(env, it, r, op.out, box, root)
        return grads(env, it, xs)
    r = env.run_py(it, body)
    checks = []
    for i, S in enumerate(op.shapes):
        checks.append(("operand %d receives a gradient" % i, lambda v, i=i: has(it, v, i), TRUE))
        checks.append(("shape of the gradient of operand %d" % i, lambda v, i=i: gshape(it, v, i), S))
        if op.post is not None:
            checks.append(("gradient of operand %d" % i, lambda v, i=i: op.post(garr(it, v, i), box["W"], As[i], prod(op.shapes[i])),
                           lambda v, i=i: op.post(None, box["W"], As[i], prod(op.shapes[i]))))
        else:
            checks.append(("gradient of operand %d" % i, lambda v, i=i: garr(it, v, i), lambda v, i=i: op.specs(box["W"], As, op.shapes)[i]))
    env.result(name, op.f, r, checks, facts=op.facts + tuple(facts), accept=TRUE, sampler=op.sampler)


def p11(env):
    for op in elementwise_ops(env):
        judged(env, "P11/" + op.name, op)


def p12(env):
    for op in contraction_ops(env):
        judged(env, "P12/" + op.name, op)


def all_ops(env):
    yield from elementwise_ops(env)
    yield from contraction_ops(env)


# ---------------------------------------------------------------- P10
def same_seq(x, y):
    i = fresh("i")
    return band(eq0(sub(length(x), length(y))), forall(length(x), i, eeq0(sub(nth(x, atom(i)), nth(y, atom(i))))))


def p10(env):
    for op in all_ops(env):
        it = env.interp()
        it.rec_limit = 8
        xs = op.leaves(env, it)
        As = [it.getf(x, "array") for x in xs]
        box = {}

        def body():
            r = op.call(env, it, xs)
            run_backward(env, it, r, op.out, box, False)
            return grads(env, it, xs)
        r = env.run_py(it, body)
        checks = [("operand %d receives a gradient" % i, lambda v, i=i: has(it, v, i), TRUE) for i in range(len(xs))]
        if len(xs) == 2:
            def swapped(v):
                g, w = [garr(it, v, 0), garr(it, v, 1)], op.specs(box["W"], As, op.shapes)
                return band(same_seq(g[0], w[1]), same_seq(g[1], w[0]), bnot(band(same_seq(g[0], w[0]), same_seq(g[1], w[1]))))
            checks.append(("contributions exchanged between the operands", swapped, FALSE))
        if op.same:
            # both occurrences count
            checks.append(("both occurrences of the operand contribute", lambda v: garr(it, v, 0), lambda v: op.specs(box["W"], As, op.shapes)[0]))
        env.result("P10/" + op.name, op.f, r, checks, facts=op.facts, accept=None, sampler=op.sampler)


# ---------------------------------------------------------------- P13
def kit(env, it):
    """the differentiable operations by name"""
    k = {}
    for f, e, kind, m, op in unary_sites(env):
        if kind == RC:
            k.setdefault(op, lambda x, f=f, e=e, m=m: method(env, it, f, [ref(x) if m == "r" else x], tenv=e))
    for trait, meth in (("Add", "add"), ("Sub", "sub")):
        fs = find_op(env, trait, meth, rty(env.ty(RC)), rty(env.ty(RC)))
        if len(fs) == 1:
            k[meth] = lambda x, y, f=fs[0]: method(env, it, f[0], [ref(x), ref(y)], tenv=f[1])
    k["sum"] = lambda x: method(env, it, "RcTensor::sum", [ref(x)], trait="TensorLike")
    k["dot"] = lambda x, y: method(env, it, "RcTensor::dot", [ref(x), ref(y)], trait="TensorLike", tenv={"U": rty(env.ty(RC)), "V": env.ty(RC)})
    k["bmm"] = lambda x, y: method(env, it, "RcTensor::bmm", [ref(x), ref(y)], trait="TensorLike", tenv={"U": env.ty(RC)})
    return k


def ew(n, f, *seqs):
    p = fresh("p")
    return smap(n, p, f(*[nth(s, atom(p)) for s in seqs]))


def th(x):
    return efn("tanh", x)


def dth(x):
    return sub(ONE, mul(th(x), th(x)))


def pass_bounds(env):
    """functions that drive the backward pass (they lie between RcTensor::backward and the call of a recorded
    operation's gradient function) and contain an integer literal of eight or more.  A pass has to treat graphs
    of every size alike, so no such number may decide what it does; to see in graphs of a few operations what a
    number like 1000 would do to one of a thousand, these literals are read as 3."""
    from structural import flow
    F = flow(env)
    start = env.fn("RcTensor::backward")
    if start is None:
        return ()
    kids, hit = {}, set()
    for b in F.bodies.values():
        ks = kids.setdefault(b.id, set())
        for c in b.calls:
            ks |= set(F.runs(c))
            t = b.P.types[b.opty(c.t.get("f") or {})] if b.opty(c.t.get("f") or {}) is not None else ["?"]
            if c.did is None and t[0] == "fnptr" and any("rc_tensor::RcTensor" in str(b.P.ct(x)) for x in t[1]):
                hit.add(b.id)
    down, todo = set(), [start["id"]]
    while todo:
        x = todo.pop()
        if x not in down and x in kids:
            down.add(x)
            # what a recorded operation does is not part of the pass
            todo += [y for y in kids[x] if not (x in hit and y in F.address_taken)]
    up = set(hit)
    while True:
        n = {x for x in kids if x not in up and kids[x] & up}
        if not n:
            break
        up |= n
    fs = up & down
    consts = {c["id"]: c for c in env.p.consts}

    def big(x):
        if isinstance(x, dict):
            if x.get("k") == "Lit" and isinstance(x.get("v"), (int, str)) and not isinstance(x.get("v"), bool) and str(x["v"]).isdigit() and int(x["v"]) >= 8:
                return True
            if x.get("k") == "Const" and env.p.defs[x["def"]]["id"] in consts:
                if big(consts[env.p.defs[x["def"]]["id"]].get("thir")):
                    return True
            return any(big(v) for v in x.values())
        return any(big(v) for v in x) if isinstance(x, list) else False
    return tuple(sorted(fs)) if any(big(env.p.fns[x].get("thir")) for x in fs if x in env.p.fns) else ()


def graph(env, name, build, facts=(), sampler=None, accept=TRUE, scaled=()):
    """build(it, kit) -> (result, [(label, tensor, specified gradient of W or None)], shape of W, passes)"""
    f = env.fn("RcTensor::backward")
    if f is None:
        return
    it = env.interp()
    it.rec_limit = 16
    it.scaled = scaled
    box = {}

    def body():
        k = kit(env, it)
        r, nodes, passes = build(it, k)
        box["nodes"] = nodes
        if passes == "root":
            run_backward(env, it, r, None, box, True)
        else:
            l = None
            W = leaf(env, it, "W", shape=it.getf(r, "shape"))
            box["W"] = it.getf(W, "array")
            l = k["dot"](r, W)
            for _ in range(passes):
                method(env, it, "RcTensor::backward", [ref(l)])
        return grads(env, it, [x for _, x, _, _ in nodes])
    r = env.run_py(it, body)
    checks = []
    for i, (lb, x, S, sp) in enumerate(box.get("nodes", ())):
        checks.append(("%s receives a gradient" % lb, lambda v, i=i: has(it, v, i), TRUE))
        checks.append(("shape of the gradient of %s" % lb, lambda v, i=i: gshape(it, v, i), S))
        checks.append(("gradient of %s" % lb, lambda v, i=i: garr(it, v, i), lambda v, sp=sp: sp(box["W"])))
    env.result("P13/" + name, f, r, checks, facts=facts, accept=accept, sampler=sampler)


def p13(env):
    SA = idx("a.S")
    n = prod(SA)
    smp = ops_sampler(("a",), {})

    def A(it, x):
        return it.getf(x, "array")

    # every operation passes its gradient on to the operation that made its operand
    for op in all_ops(env):
        it = env.interp()
        it.rec_limit = 16
        xs = op.leaves(env, it)
        box = {}

        def body():
            k = kit(env, it)
            ys = [k["neg"](x) for x in xs]
            r = op.call(env, it, ys)
            run_backward(env, it, r, op.out, box, False)
            return grads(env, it, xs + ys)
        r = env.run_py(it, body)
        checks = []
        m = len(xs)
        for i, S in enumerate(op.shapes):
            checks.append(("operand %d's own operand receives a gradient" % i, lambda v, i=i: has(it, v, i), TRUE))
            checks.append(("shape of the gradient of operand %d's own operand" % i, lambda v, i=i: gshape(it, v, i), S))
            checks.append(("gradient of operand %d's own operand" % i, lambda v, i=i: garr(it, v, i),
                           lambda v, i=i, S=S: ew(prod(S), neg, garr(it, v, m + i))))
        env.result("P13/through " + op.name, op.f, r, checks, facts=op.facts, accept=TRUE, sampler=op.sampler)
        # started directly from a single-element result
        if op.out is not None and op.kind not in ("dot", "sum"):
            judged(env, "P13/started at " + op.name, op, root=True, facts=(eq0(sub(prod(op.out), ONE)),))
        elif op.out is None:
            judged(env, "P13/started at " + op.name, op, root=True)
        # more than one element: refused
        if op.out is not None:
            it2 = env.interp()
            it2.rec_limit = 8
            ys = op.leaves(env, it2)
            r = env.run_py(it2, lambda: method(env, it2, "RcTensor::backward", [ref(op.call(env, it2, ys))]))
            env.result("P13/started at a result of several elements: " + op.name, op.f, r, [], accept=FALSE,
                       facts=op.facts + (elt0(sub(ONE, prod(op.out))),), sampler=op.sampler)
    # no history: refused
    f = env.fn("RcTensor::backward")
    if f is not None:
        it = env.interp()
        x = leaf(env, it, "a")
        r = env.run(it, f, [ref(x)], {})
        env.result("P13/started at a tensor without history", f, r, [], accept=FALSE, sampler=smp)

    def chain(it, k):
        a = leaf(env, it, "a")
        x = A(it, a)
        b = k["neg"](a)
        c = k["tanh"](b)
        d = k["neg"](c)
        tx = lambda w, v: mul(w, dth(neg(v)))
        return d, [("the last operand", c, SA, lambda W: ew(n, neg, W)), ("the middle operand", b, SA, lambda W: ew(n, lambda w, v: neg(tx(w, v)), W, x)),
                   ("the first operand", a, SA, lambda W: ew(n, tx, W, x))], 1
    graph(env, "a chain of operations", chain, sampler=smp)

    def long(it, k):
        a = leaf(env, it, "a")
        r = a
        for i in range(9):
            r = k["neg"](r)
        return r, [("the operand", a, SA, lambda W: ew(n, neg, W))], 1
    graph(env, "a chain of nine operations", long, sampler=smp)
    bounds = pass_bounds(env)
    if bounds:
        graph(env, "a chain longer than any number the pass compares with", long, sampler=smp, scaled=bounds)

    def diamond(it, k):
        a = leaf(env, it, "a")
        x = A(it, a)
        b = k["tanh"](a)
        c = k["add"](a, b)
        return c, [("the shared operand", a, SA, lambda W: ew(n, lambda w, v: mul(w, add(ONE, dth(v))), W, x)),
                   ("the intermediate", b, SA, lambda W: W)], 1
    graph(env, "two paths to one operand", diamond, facts=(bnot(eq0(n)),), sampler=smp)

    def fan(it, k):
        a = leaf(env, it, "a")
        b = k["neg"](a)
        c = k["add"](b, b)
        d = k["add"](c, b)
        return d, [("the operand", a, SA, lambda W: ew(n, lambda w: scale(w, -3), W)), ("the shared intermediate", b, SA, lambda W: ew(n, lambda w: scale(w, 3), W)),
                   ("the other intermediate", c, SA, lambda W: W)], 1
    graph(env, "an intermediate used three times", fan, facts=(bnot(eq0(n)),), sampler=smp)

    def broad(it, k):
        a, b = leaf(env, it, "a"), leaf(env, it, "b", shape=SA)
        r = k["add"](a, b)
        for i in range(5):
            r = k["add"](r, k["neg"](a) if i % 2 else a)
        return r, [("the operand", a, SA, lambda W: ew(n, lambda w: scale(w, 2), W)), ("the operand used first", b, SA, lambda W: W)], 1
    graph(env, "an operand used six times", broad, facts=(bnot(eq0(n)),), sampler=smp)
    if bounds:
        graph(env, "more uses of an operand than any number the pass compares with", broad, facts=(bnot(eq0(n)),), sampler=smp, scaled=bounds)

    def existing(it, k):
        g, h = leaf(env, it, "g", shape=SA), leaf(env, it, "h", shape=SA)
        a = leaf(env, it, "a", grad=some(g))
        b = k["neg"](a)
        it.st.cells[lock_of(it, b).args[0]] = some(h)
        c = k["neg"](b)
        G, Hh = A(it, g), A(it, h)
        return c, [("the operand with a gradient", a, SA, lambda W: ew(n, add, G, W)), ("the intermediate with a gradient", b, SA, lambda W: ew(n, sub, Hh, W))], 1
    graph(env, "operands that already have a gradient", existing, facts=(bnot(eq0(n)),), sampler=smp)

    def twice(it, k):
        a = leaf(env, it, "a")
        b = k["neg"](a)
        c = k["neg"](b)
        return c, [("the operand", a, SA, lambda W: ew(n, lambda w: scale(w, 2), W)), ("the intermediate", b, SA, lambda W: ew(n, lambda w: scale(w, -2), W))], 2
    graph(env, "a second pass", twice, facts=(bnot(eq0(n)),), sampler=smp)

    def layer(it, k):
        # tanh(x + b) with b repeated along the rows, then summed
        d = [atom(mk("sym", mk("tag", "d%d" % i))) for i in range(2)]
        m_, nn = d
        a, b = leaf(env, it, "a", shape=seqlit(m_, nn)), leaf(env, it, "b", shape=seqlit(nn))
        x, y = A(it, a), A(it, b)
        r = k["sum"](k["tanh"](k["add"](a, b)))
        z = smap2(mul(m_, nn), lambda p: dth(add(nth(x, p), nth(y, divmod_(p, nn)[1]))))

        def bias(W):
            j, i = fresh("j"), fresh("i")
            return smap(nn, j, bigsum(m_, i, nth(z, add(mul(atom(i), nn), atom(j)))))
        return r, [("the input", a, seqlit(m_, nn), lambda W: z), ("the bias", b, seqlit(nn), bias)], "root"
    pos = tuple(bnot(eq0(atom(mk("sym", mk("tag", "d%d" % i))))) for i in range(2))
    graph(env, "sum(tanh(x + b))", layer, facts=pos,
          sampler=lambda rng: {mk("sym", mk("tag", "d%d" % i)): rng.choice((1, 2, 3, 4)) for i in range(4)})

    def product(it, k):
        # a product of a difference with a matrix used in it
        d = atom(mk("sym", mk("tag", "d")))
        a, b = leaf(env, it, "a", shape=seqlit(d, d)), leaf(env, it, "b", shape=seqlit(d, d))
        x, y = A(it, a), A(it, b)
        r = k["bmm"](k["neg"](a), b)
        r = k["add"](r, b)
        return r, [("the left matrix", a, seqlit(d, d), lambda W: ew(mul(d, d), neg, bmm_left(W, y, d, d, d))),
                   ("the matrix used twice", b, seqlit(d, d), lambda W: ew(mul(d, d), sub, W, bmm_right(W, x, d, d, d)))], 1
    graph(env, "-a b + b", product, facts=(bnot(eq0(atom(mk("sym", mk("tag", "d"))))),),
          sampler=lambda rng: {mk("sym", mk("tag", "d")): rng.choice((1, 2, 3))})


def smap2(n, f):
    p = fresh("p")
    return smap(n, p, f(atom(p)))


# ---------------------------------------------------------------- P14
def contents(env, it, S):
    """what other threads may leave in the lock of a tensor of shape S: a gradient of that shape, or none"""
    def c(lid, mode, k):
        g = leaf(env, it, "c%d" % k, shape=S)
        return ite(mk("boolsym", mk("tag", "some%d" % k)), some(g), NONE)
    return c


def value_of(it, c, n):
    """the gradient that a lock content stands for; none counts as zero"""
    p = fresh("p")
    if c.op == "ite":
        return ite(c.args[0], value_of(it, c.args[1], n), value_of(it, c.args[2], n))
    h = it.variant_cond(c, OPTION, 1)
    if h is FALSE:
        return smap(n, p, ZERO)
    return smap(n, p, ite(h, nth(it.getf(it.field(c, 1, 0), "array"), atom(p)), ZERO))


OPTION = "core::option::Option"


def deposits(env, it, x, S):
    """make every acquisition of x's lock find an arbitrary content, and add up what each acquisition changes"""
    lid = lock_of(it, x).args[0]
    n = prod(S)
    make = contents(env, it, S)
    D = ("ghost", "change")

    def total(it):
        c0, cur = it.st.cells[("ghost", "found")], it.st.cells[lid]
        a, b = value_of(it, cur, n), value_of(it, c0, n)
        p = fresh("p")
        return smap(n, p, add(nth(it.st.cells[D], atom(p)), sub(nth(a, atom(p)), nth(b, atom(p)))))

    def acq(l, mode, k):
        if l is not lid:
            return None
        it.st.cells[D] = total(it)
        c = make(l, mode, k)
        it.st.cells[("ghost", "found")] = c
        return c
    it.st.cells[lid] = NONE
    it.st.cells[("ghost", "found")] = NONE
    p = fresh("p")
    it.st.cells[D] = smap(n, p, ZERO)
    it.havoc_locks = acq
    return total


def p14(env):
    SA = idx("a.S")
    n = prod(SA)
    smp = ops_sampler(("a",), {})
    pos = (bnot(eq0(n)),)
    for k in ("RcTensor", "RawTensor"):
        f = env.fn(k + "::update_grad", trait="TensorLike")
        if f is None:
            continue
        for before, hist in ((False, False), (True, False), (False, True), (True, True)):
            it = env.interp()
            g0, g = leaf(env, it, "g", shape=SA), leaf(env, it, "h", shape=SA)
            a = leaf(env, it, "a", grad=some(g0) if before else None, grad_fn=past(env, it) if hist else None)
            x = self_of(it, a, k)

            def body():
                method(env, it, f, [x, g], tenv={"Self": env.ty(k)})
                return grads(env, it, [a])
            r = env.run_py(it, body)
            G, Hh = it.getf(g0, "array"), it.getf(g, "array")
            env.result("P14/%s::update_grad, %s%s" % (k, "a gradient present" if before else "no gradient yet", ", a computed tensor" if hist else ""), f, r, [
                ("gradient present", lambda v: has(it, v, 0), TRUE),
                ("shape", lambda v: gshape(it, v, 0), SA),
                ("elements", lambda v: garr(it, v, 0), ew(n, add, G, Hh) if before else Hh)], facts=pos, accept=TRUE, sampler=smp)
        # other threads deposit at the same time
        it = env.interp()
        g = leaf(env, it, "h", shape=SA)
        a = leaf(env, it, "a")
        x = self_of(it, a, k)
        tot = deposits(env, it, a, SA)

        def body():
            method(env, it, f, [x, g], tenv={"Self": env.ty(k)})
            return tup(tot(it), grads(env, it, [a]))
        r = env.run_py(it, body)
        env.result("P14/%s::update_grad among concurrent deposits" % k, f, r, [
            ("change of the accumulated gradient", lambda v: v.args[0], it.getf(g, "array")),
            ("gradient present", lambda v: has(it, v.args[1], 0), TRUE)], facts=pos, accept=TRUE, sampler=smp)
        f = env.fn(k + "::zero_grad", trait="TensorLike")
        if f is None:
            continue
        for before, hist in ((False, False), (True, False), (True, True)):
            it = env.interp()
            g0 = leaf(env, it, "g", shape=SA)
            a = leaf(env, it, "a", grad=some(g0) if before else None, grad_fn=past(env, it) if hist else None)
            x = self_of(it, a, k)

            def body():
                method(env, it, f, [x], tenv={"Self": env.ty(k)})
                return grads(env, it, [a])
            r = env.run_py(it, body)
            env.result("P14/%s::zero_grad, %s%s" % (k, "a gradient present" if before else "no gradient", ", a computed tensor" if hist else ""), f, r, [
                ("gradient present", lambda v: has(it, v, 0), FALSE)], accept=TRUE, sampler=smp)
        it = env.interp()
        a = leaf(env, it, "a")
        x = self_of(it, a, k)
        deposits(env, it, a, SA)

        def body():
            method(env, it, f, [x], tenv={"Self": env.ty(k)})
            return grads(env, it, [a])
        r = env.run_py(it, body)
        env.result("P14/%s::zero_grad among concurrent deposits" % k, f, r, [("gradient present", lambda v: has(it, v, 0), FALSE)], accept=TRUE, sampler=smp)
    # reading the gradient
    for q in ("RcTensor::grad", "RcTensor::get_grad"):
        f = env.fn(q)
        if f is None:
            continue
        for before, hist in ((True, False), (False, False), (True, True), (False, True)):
            it = env.interp()
            g0 = leaf(env, it, "g", shape=SA)
            a = leaf(env, it, "a", grad=some(g0) if before else None, grad_fn=past(env, it) if hist else None)
            r = env.run(it, f, [ref(a)], {})
            hs = " of a computed tensor" if hist else ""

            def body(v):
                return v if q.endswith("::grad") else it.field(v, 1, 0)
            if q.endswith("::get_grad"):
                env.result("P14/%s%s, %s" % (q, hs, "a gradient present" if before else "no gradient"), f, r,
                           [("gradient present", lambda v: it.variant_cond(v, OPTION, 1), TRUE if before else FALSE)], accept=TRUE, sampler=smp)
            if before:
                env.result("P14/%s%s, elements" % (q, hs), f, r, [("elements", lambda v: it.getf(body(v), "array"), it.getf(g0, "array")), ("shape", lambda v: it.getf(body(v), "shape"), SA)],
                           accept=TRUE, sampler=smp)
            elif q.endswith("::grad"):
                env.result("P14/%s%s, no gradient" % (q, hs), f, r, [], accept=FALSE, sampler=smp)
    # a backward pass while other threads deposit on the same operand
    for op in all_ops(env):
        if op.specs is None or op.kind == "bmm" and "rank 3" in op.name:
            continue
        for who in range(len(op.shapes)):
            it = env.interp()
            it.rec_limit = 8
            xs = op.leaves(env, it)
            As = [it.getf(x, "array") for x in xs]
            box = {}
            tot = deposits(env, it, xs[who], op.shapes[who])

            def body():
                r = op.call(env, it, xs)
                run_backward(env, it, r, op.out, box, False)
                return tup(tot(it), grads(env, it, [xs[who]]))
            r = env.run_py(it, body)
            env.result("P14/backward through %s among concurrent deposits on operand %d" % (op.name, who), op.f, r, [
                ("change of the accumulated gradient", lambda v: v.args[0], lambda v: op.specs(box["W"], As, op.shapes)[who])],
                facts=op.facts + (bnot(eq0(prod(op.shapes[who]))),), accept=None, sampler=op.sampler)


def self_of(it, a, k):
    if k == "RcTensor":
        return ref(a)
    v = a
    while v.op != "struct" or not v.args[0].endswith("::RawTensor"):
        v = it.deref(v) if v.op in ("arc", "ref") else v.args[2]
    return ref(v)


# ---------------------------------------------------------------- P17
def p17(env):
    res = env.result

    def no_grad(it, v):
        return it.variant_cond(it.lid_content(*it.lock_term(it.getf(v, "grad")).args), OPTION, 1)

    def history(it, v):
        return it.variant_cond(it.getf(v, "grad_fn"), OPTION, 1)

    def spy(name, f, run, checks, facts=(), accept=TRUE, sampler=None, accept_facts=None):
        if run.why is SKIP or run.dead or run.why:
            return
        it = run.it
        nm = name.split("/", 1)[1]
        if "to_tensor" in nm:
            return
        try:
            if it.lock_term(it.getf(run.value, "grad")) is None:
                return
        except Exception:
            return
        cs = [("has a gradient", lambda v: no_grad(it, v), FALSE)]
        if name.startswith("P01/"):
            cs.append(("has a history", lambda v: history(it, v), FALSE))
        res("P17/" + nm, f, run, cs, facts=tuple(facts) + ((accept,) if accept is not None else ()), accept=None, sampler=sampler)
    env.result = spy
    try:
        for fam in (p01, O.p02, O.p03, p04):
            fam(env)
    finally:
        env.result = res
    SA = idx("a.S")
    n = prod(SA)
    pos = (bnot(eq0(n)),)
    # copies share nothing
    for k in ("RcTensor", "RawTensor"):
        f = env.fn(k + "::deep_clone", trait="TensorLike") or env.fn("TensorLike::deep_clone")
        if f is None:
            continue
        for before, hist in ((True, True), (True, False), (False, True), (False, False)):
            it = env.interp()
            g0, g = leaf(env, it, "g", shape=SA), leaf(env, it, "h", shape=SA)
            a = leaf(env, it, "a", grad=some(g0) if before else None, grad_fn=past(env, it) if hist else None)
            x = self_of(it, a, k)
            A = it.getf(a, "array")
            up = env.fn("RcTensor::update_grad", trait="TensorLike")

            def body():
                c = method(env, it, f, [x], tenv={"Self": env.ty(k)})
                first = tup(no_grad(it, c), history(it, c), it.getf(c, "array"), it.getf(c, "shape"))
                method(env, it, up, [ref(c), g])
                return tup(first, grads(env, it, [a]), grads(env, it, [c]))
            r = env.run_py(it, body)
            env.result("P17/deep_clone of a %s %s gradient %s history" % (k, ("without", "with")[before], ("without", "with")[hist]), f, r, [
                ("the copy has a gradient", lambda v: v.args[0].args[0], FALSE), ("the copy has a history", lambda v: v.args[0].args[1], FALSE),
                ("elements of the copy", lambda v: v.args[0].args[2], A), ("shape of the copy", lambda v: v.args[0].args[3], SA),
                ("the original's gradient after a deposit on the copy", (lambda v: garr(it, v.args[1], 0)) if before else (lambda v: has(it, v.args[1], 0)), it.getf(g0, "array") if before else FALSE),
                ("the copy's gradient after a deposit on it", lambda v: garr(it, v.args[2], 0), it.getf(g, "array"))],
                accept=TRUE, sampler=ops_sampler(("a",), {}))
    # gradients carry no history, also when they are added up
    for op in all_ops(env):
        it = env.interp()
        it.rec_limit = 8
        xs = op.leaves(env, it)
        box = {}

        def body():
            r = op.call(env, it, xs)
            W = leaf(env, it, "W", shape=it.getf(r, "shape") if op.out is None else op.out)
            l = kit(env, it)["dot"](r, W)
            method(env, it, "RcTensor::backward", [ref(l)])
            if op.kind != "bmm":
                method(env, it, "RcTensor::backward", [ref(l)])
            return grads(env, it, xs)
        r = env.run_py(it, body)
        checks = []
        for i in range(len(xs)):
            checks.append(("the gradient of operand %d has a history" % i, lambda v, i=i: history(it, it.field(v.args[i], 1, 0)), FALSE))
            checks.append(("the gradient of operand %d has a gradient" % i, lambda v, i=i: no_grad(it, it.field(v.args[i], 1, 0)), FALSE))
        env.result("P17/gradients through %s" % op.name, op.f, r, checks, facts=op.facts, accept=None, sampler=op.sampler)


def bmm_sampler(rank):
    def f(rng):
        if rng.random() < .1:
            return {mk("sym", mk("tag", "d%d" % i)): rng.choice((1, 1, 2)) if i == 2 else 1 for i in range(4)}
        if rng.random() < .15:
            # operands of more than 32 elements: filled by more than one task
            d = rng.choice(((1, 6, 7, 1), (2, 3, 6, 2), (1, 2, 9, 5), (1, 5, 2, 9)))
            return {mk("sym", mk("tag", "d%d" % i)): d[i] for i in range(4)}
        order = [i for i in range(4) if rank == 3 or i]
        rng.shuffle(order)
        return {mk("sym", mk("tag", "d%d" % i)): rng.choice((1, 2, 3, 2)) if rng.random() > .05 else 0 for i in order}
    return f


def bmm_left(W, B, r, k, n):
    p, j = fresh("p"), fresh("j")
    i, kk = divmod_(atom(p), k)
    return smap(mul(r, k), p, bigsum(n, j, mul(nth(W, add(mul(i, n), atom(j))), nth(B, add(mul(kk, n), atom(j))))))


def bmm_right(W, A, r, k, n):
    p, i = fresh("p"), fresh("i")
    kk, j = divmod_(atom(p), n)
    return smap(mul(k, n), p, bigsum(r, i, mul(nth(A, add(mul(atom(i), k), kk)), nth(W, add(mul(atom(i), n), j)))))


if __name__ == "__main__":
    main(globals())
