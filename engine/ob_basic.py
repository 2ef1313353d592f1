"""P01 (constructors), P04 (sums), P07 (views), P09 (equality)."""
from obligations import *


def X(name="c"):
    return atom(mk("esym", mk("tag", name)))


def new_sampler(rng):
    r = rng.randint(0, 3)
    S = [rng.choice((1, 2, 3, 2)) if rng.random() > .1 else 0 for _ in range(r)]
    p = 1
    for x in S:
        p *= x
    n = p if rng.random() < .6 else rng.randint(0, 5)
    return {mk("tag", "S"): S, mk("len", mk("tag", "S")): r, mk("len", mk("tag", "A")): n}


def vec_of(c):
    return ("adt", "alloc::vec::Vec", (c,))


def wrap(env, it, kind, v):
    return v


def p01(env):
    A = sseq(mk("tag", "A"), atom(mk("len", mk("tag", "A"))), "elem")
    S = idx("S")
    c = X()
    for k in ("RawTensor", "RcTensor"):
        it = env.interp()

        def el(v, it=it):
            return it.getf(v, "array")

        def sh(v, it=it):
            return it.getf(v, "shape")
        f = env.fn(k + "::new")
        if f is not None:
            r = env.run(it, f, [A, S])
            env.result("P01/%s::new" % k, f, r, [("elements", el, A), ("shape", sh, S)], accept=eq0(sub(prod(S), length(A))), sampler=new_sampler)
        f = env.fn(k + "::new_with_filler")
        if f is not None:
            it = env.interp()
            r = env.run(it, f, [S, c])
            p = fresh("p")
            env.result("P01/%s::new_with_filler" % k, f, r, [("elements", lambda v: it.getf(v, "array"), smap(prod(S), p, c)), ("shape", lambda v: it.getf(v, "shape"), S)], sampler=new_sampler)
        f = env.fn(k + "::scalar")
        if f is not None:
            it = env.interp()
            r = env.run(it, f, [c])
            env.result("P01/%s::scalar" % k, f, r, [("elements", lambda v: it.getf(v, "array"), seqlit(c)), ("shape", lambda v: it.getf(v, "shape"), seqlit())])
        for f, e in find_op(env, "From", "from", env.ty(k), T):
            it = env.interp()
            r = env.run(it, f, [c], e)
            env.result("P01/%s::from(element)" % k, f, r, [("elements", lambda v: it.getf(v, "array"), seqlit(c)), ("shape", lambda v: it.getf(v, "shape"), seqlit())])
        for f, e in find_op(env, "Default", "default", env.ty(k)):
            it = env.interp()
            r = env.run(it, f, [], e)
            env.result("P01/%s::default" % k, f, r, [("number of elements", lambda v: length(it.getf(v, "array")), lambda v: prod(it.getf(v, "shape")))])
        # a vector of elements, and rows of rows
        n = atom(mk("len", mk("tag", "A")))
        for arr in (False, True):
            src = A
            for f, e in from_sites(env, k, T, arr):
                it = env.interp()
                r = env.run(it, f, [src], e)
                env.result("P01/%s::from(%s)" % (k, "array" if arr else "vector"), f, r, [
                    ("elements", lambda v: it.getf(v, "array"), A), ("shape", lambda v: it.getf(v, "shape"), seqlit(n))],
                    facts=(lt(ZERO, n),), sampler=lambda rng: {mk("len", mk("tag", "A")): rng.randint(1, 4)})
            R = rows(env)
            i, j = fresh("i"), fresh("j")
            m = length(R)
            w = length(nth(R, ZERO))
            same = forall(m, j, eq0(sub(length(nth(R, atom(j))), w)))
            for f, e in from_sites(env, k, vec_of(T), arr):
                it = env.interp()
                r = env.run(it, f, [R], e)
                p = fresh("p")
                env.result("P01/%s::from(rows as %s)" % (k, "array" if arr else "vector"), f, r, [
                    ("elements", lambda v: it.getf(v, "array"), smap(mul(m, w), p, nth(nth(R, divmod_(atom(p), w)[0]), divmod_(atom(p), w)[1]))),
                    ("shape", lambda v: it.getf(v, "shape"), seqlit(m, w))],
                    facts=(lt(ZERO, m), lt(ZERO, w)), accept=same, sampler=rows_sampler)
    for k in ("RawTensor", "RcTensor", "TensorView"):
        for q, fields in (("TensorLike::to_tensor", 1), ("TensorLike::deep_clone", 1)):
            f = env.fn(k + "::" + q.split("::")[1], trait="TensorLike") or env.fn(q)
            if f is None:
                continue
            it = env.interp()
            x = operand(env, it, "a", k)
            if x is None:
                continue
            r = env.run(it, f, [ref(x[0])], {"Self": env.ty(k)})
            env.result("P01/%s of %s" % (q.split("::")[1], k), f, r, [
                ("elements", lambda v: it.getf(v, "array"), x[1]), ("shape", lambda v: it.getf(v, "shape"), x[2])],
                facts=x[3], sampler=ops_sampler(("a",), {"a": x[4]}))


def from_sites(env, kind, inner, arr):
    """the From impls that take a vector (array) of `inner`"""
    out = []
    for f, e in find_op(env, "From", "from", env.ty(kind)):
        ps = env.params(f)
        if len(ps) != 1 or ps[0] is None:
            continue
        c = ps[0]
        if arr and c[0] == "adt" and c[1].endswith("::array"):
            u = c[2][0]
        elif not arr and c[0] == "adt" and c[1].endswith("::Vec"):
            u = c[2][0]
        else:
            continue
        if u[0] == "param":
            e = dict(e)
            e[u[1]] = inner
            out.append((f, e))
        elif u == inner:
            out.append((f, e))
    return out


def rows(env):
    it = env.it0
    return it.opaque(mk("tag", "R"), vec_of(vec_of(T)))


def rows_sampler(rng):
    m = rng.randint(1, 3)
    w = rng.randint(1, 3)
    L = [w] * m
    if rng.random() < .4:
        L[rng.randrange(m)] = rng.randint(1, 3)
    return {mk("len", mk("tag", "R")): m, "rowlens": L}


def ranked(env, it, name, kind, rank):
    """an operand of known rank, with the terms of its extents"""
    if kind == "TensorView":
        v = mkview(env, it, name, rank=rank)
        if v is None:
            return None
        return v["value"], v["els"], v["vs"], v["facts"], v
    S = seqlit(*[atom(mk("sym", mk("tag", name + "." + d))) for d in ("d0", "d1", "d2")[:rank]])
    x = it.opaque(mk("tag", name), env.ty(kind))
    x = set_fields(env, x, {"shape": S, "array": sseq(mk("tag", name + ".A"), prod(S), "elem")})
    return x, it.getf(x, "array"), it.getf(x, "shape"), (), None


def ranked_sampler(ops):
    """ops: [(name, rank, is view)]; extents of the shared dimension mostly agree"""
    def f(rng):
        a = {}
        dims = [[rng.choice((1, 2, 3, 2)) if rng.random() > .07 else 0 for _ in range(r)] for n, r, v in ops]
        if len(ops) == 2 and dims[0] and dims[1] and rng.random() < .8:
            dims[1][0] = dims[0][-1]
        for (n, r, v), S in zip(ops, dims):
            if v:
                a[mk("tag", n + ".w")] = S
                a[mk("tag", n + ".st")] = [rng.randint(0, 2) for _ in S]
                a[mk("tag", n + ".re")] = [rng.randint(0, 1) for _ in S]
                for s in (".w", ".st", ".re"):
                    a[mk("len", mk("tag", n + s))] = r
            else:
                for d, x in zip(("d0", "d1", "d2"), S):
                    a[mk("sym", mk("tag", n + "." + d))] = x
        return a
    return f


def bmm_spec(A, SA, B, SB, rank):
    b = nth(SA, ZERO) if rank == 3 else ONE
    m, k, n = nth(SA, const(rank - 2)), nth(SA, const(rank - 1)), nth(SB, ONE)
    p, q = fresh("p"), fresh("q")
    row, col = divmod_(atom(p), n)
    els = smap(mul(b, mul(m, n)) if rank == 3 else mul(m, n), p,
               bigsum(k, q, mul(nth(A, add(mul(row, k), atom(q))), nth(B, add(mul(atom(q), n), col)))))
    shape = seqlit(b, m, n) if rank == 3 else seqlit(m, n)
    return els, shape, eq0(sub(k, nth(SB, ZERO)))


def dot_spec(A, B):
    q = fresh("q")
    return bigsum(length(A), q, mul(nth(A, atom(q)), nth(B, atom(q))))


def sum_spec(A):
    q = fresh("q")
    return bigsum(length(A), q, nth(A, atom(q)))


KINDS = ("RawTensor", "RcTensor", "TensorView")


def p04(env):
    for a in KINDS:
        for meth in ("bmm", "bmm_rc"):
            f = env.fn(a + "::" + meth, trait="TensorLike")
            if f is None:
                continue
            for b in KINDS:
                for rank in (2, 3):
                    it = env.interp()
                    x, y = ranked(env, it, "a", a, rank), ranked(env, it, "b", b, 2)
                    if x is None or y is None:
                        continue
                    els, shape, acc = bmm_spec(x[1], x[2], y[1], y[2], rank)
                    r = env.run(it, f, [ref(x[0]), ref(y[0])], {"U": env.ty(b)})
                    env.result("P04/%s::%s(%s), rank %d" % (a, meth, b, rank), f, r, [
                        ("shape", lambda v: it.getf(v, "shape"), shape), ("elements", lambda v: it.getf(v, "array"), els)],
                        facts=x[3] + y[3], accept=acc, sampler=ranked_sampler([("a", rank, a == "TensorView"), ("b", 2, b == "TensorView")]))
    for a in KINDS:
        f = env.fn(a + "::sum", trait="TensorLike")
        if f is not None:
            it = env.interp()
            x = operand(env, it, "a", a)
            r = env.run(it, f, [ref(x[0])])
            env.result("P04/%s::sum" % a, f, r, [("total", lambda v: nth(it.getf(v, "array"), ZERO), sum_spec(x[1])),
                       ("number of elements", lambda v: length(it.getf(v, "array")), ONE)], facts=x[3], sampler=ops_sampler(("a",), {"a": x[4]}))
        f = env.fn(a + "::dot", trait="TensorLike")
        if f is not None:
            for b in KINDS:
                it = env.interp()
                x, y = operand(env, it, "a", a), operand(env, it, "b", b)
                if x is None or y is None:
                    continue
                r = env.run(it, f, [ref(x[0]), ref(y[0])], {"U": rty(env.ty(b)), "V": env.ty(b)})
                dot_result(env, "P04/%s::dot(%s)" % (a, b), f, r, it, x, y)
    for q in ("dot", "dot_no_derivative"):
        f = env.fn(q)
        if f is None:
            continue
        for a in KINDS if q != "dot" else ("RcTensor",):
            for b in KINDS if q != "dot" else ("RcTensor",):
                it = env.interp()
                x, y = operand(env, it, "a", a), operand(env, it, "b", b)
                if x is None or y is None:
                    continue
                r = env.run(it, f, [ref(x[0]), ref(y[0])], {"U1": rty(env.ty(a)), "V1": env.ty(a), "U2": rty(env.ty(b)), "V2": env.ty(b)})
                dot_result(env, "P04/%s(%s, %s)" % (q, a, b), f, r, it, x, y)


def dot_result(env, name, f, r, it, x, y):
    env.result(name, f, r, [("total", lambda v: nth(it.getf(v, "array"), ZERO), dot_spec(x[1], y[1])),
               ("number of elements", lambda v: length(it.getf(v, "array")), ONE)],
               facts=x[3] + y[3], accept=eq(x[2], y[2]), sampler=ops_sampler(("a", "b"), {"a": x[4], "b": y[4]}, "same"))


def ranges(env, name="o"):
    """a list of ranges as callers can build them: start <= end"""
    n = atom(mk("len", mk("tag", name + ".w")))
    st = sseq(mk("tag", name + ".st"), n, "int")
    w = sseq(mk("tag", name + ".w"), n, "int")
    i = fresh("i")
    return smap(n, i, slicerange(env, nth(st, atom(i)), add(nth(st, atom(i)), nth(w, atom(i))))), st, w


def fits(st, w, S):
    n = length(w)
    i = fresh("i")
    return band(eq0(sub(n, length(S))), forall(n, i, le(add(nth(st, atom(i)), nth(w, atom(i))), nth(S, atom(i)))))


def slice_sampler(base, view=None):
    """a window, mostly inside the sliced tensor"""
    vs = view_sampler(view) if view is not None else None

    def f(rng):
        if vs is not None:
            a = vs(rng)
            S = a.get(mk("tag", view["name"] + ".vs")) if view["reshaped"] else a[mk("tag", view["name"] + ".w")]
        else:
            r = rng.randint(0, 3)
            S = [rng.choice((1, 2, 3, 4)) for _ in range(r)]
            a = {mk("tag", base + ".S"): S, mk("len", mk("tag", base + ".S")): r}
        n = len(S)
        if rng.random() < .12:
            n = max(0, n + rng.choice((-1, 1)))
        st, w = [], []
        for i in range(n):
            d = S[i] if i < len(S) else 2
            s = rng.randint(0, d)
            e = rng.randint(s, d)
            if rng.random() < .7 and d:
                s = rng.randrange(d)
                e = rng.randint(s + 1, d)
            if rng.random() < .06:
                e = d + 1
            st.append(s)
            w.append(e - s)
        a.update({mk("tag", "o.st"): st, mk("tag", "o.w"): w, mk("len", mk("tag", "o.w")): n, mk("len", mk("tag", "o.st")): n})
        return a
    return f


def p07(env):
    f = env.fn("SliceRange::new")
    if f is not None:
        it = env.interp()
        a, b = atom(mk("sym", mk("tag", "s"))), atom(mk("sym", mk("tag", "e")))
        r = env.run(it, f, [a, b])
        env.result("P07/SliceRange::new", f, r, [("start", lambda v: it.getf(v, "start"), a), ("end", lambda v: it.getf(v, "end"), b)], accept=le(a, b))
    off, st, w = ranges(env)

    def window(name, f, r, it, A, S, facts, sampler, tensor=None):
        env.result(name, f, r, [
            ("shape", lambda v: H.view_parts(it, v)[3], w),
            ("elements", lambda v: H.velems(it, v), sseq(mk("velems", A, S, st, w), prod(w), "elem"))],
            facts=facts, accept=fits(st, w, S), sampler=sampler)
    f = env.fn("TensorView::new")
    if f is not None:
        it = env.interp()
        x = operand(env, it, "a", "RcTensor")
        window("P07/TensorView::new", f, env.run(it, f, [x[0], off]), it, x[1], x[2], (), slice_sampler("a"))
    f = env.fn("RcTensor::view")
    if f is not None:
        it = env.interp()
        x = operand(env, it, "a", "RcTensor")
        window("P07/RcTensor::view", f, env.run(it, f, [ref(x[0]), off]), it, x[1], x[2], (), slice_sampler("a"))
    for k in ("RawTensor", "RcTensor"):
        f = env.fn(k + "::slice", trait="TensorLike")
        if f is not None:
            it = env.interp()
            x = operand(env, it, "a", k)
            window("P07/%s::slice" % k, f, env.run(it, f, [ref(x[0]), off]), it, x[1], x[2], (), slice_sampler("a"))
    f = env.fn("TensorView::slice", trait="TensorLike")
    for resh in (False, True):
        if f is not None:
            it = env.interp()
            v = mkview(env, it, reshaped=resh)
            if v is not None:
                window("P07/TensorView::slice" + (" of a reshaped view" if resh else ""), f, env.run(it, f, [ref(v["value"]), off]), it, v["els"], v["vs"], v["facts"], slice_sampler(None, v))
    f = env.fn("TensorView::reshape")
    N = idx("N")
    for resh in (False, True):
        if f is not None:
            it = env.interp()
            v = mkview(env, it, reshaped=resh)
            if v is None:
                continue
            r = env.run(it, f, [ref(v["value"]), N])

            def smp(rng, v=v):
                a = view_sampler(v)(rng)
                p = 1
                for x in a[mk("tag", "v.w")]:
                    p *= x
                L = [d for d in (1, 2, 3, p) if d and p % d == 0] if p else [0]
                n = []
                q = p
                while q > 1 and len(n) < 2:
                    d = rng.choice([d for d in range(1, q + 1) if q % d == 0])
                    n.append(d)
                    q //= d
                n.append(q)
                if rng.random() < .3:
                    n.insert(0, 1)
                if rng.random() < .3:
                    n[rng.randrange(len(n))] += 1
                if p == 1 and rng.random() < .4:
                    n = []
                a.update({mk("tag", "N"): n, mk("len", mk("tag", "N")): len(n)})
                return a
            env.result("P07/TensorView::reshape" + ("(reshaped)" if resh else ""), f, r, [
                ("shape", lambda x: H.view_parts(it, x)[3], N),
                ("elements", lambda x: H.velems(it, x), sseq(v["els"].args[0], prod(N), "elem"))],
                facts=v["facts"], accept=eq0(sub(prod(N), prod(v["w"]))), sampler=smp)
    # everything that reads a view
    for resh in (False, True):
        tag = " of a reshaped view" if resh else ""

        def view():
            it = env.interp()
            return it, mkview(env, it, reshaped=resh)
        f = env.fn("TensorView::to_tensor", trait="TensorLike")
        it, v = view()
        if f is not None and v is not None:
            r = env.run(it, f, [ref(v["value"])])
            env.result("P07/to_tensor" + tag, f, r, [("shape", lambda x: it.getf(x, "shape"), v["vs"]), ("elements", lambda x: it.getf(x, "array"), v["els"])],
                       facts=v["facts"], sampler=view_sampler(v))
        f = env.fn("TensorView::sum", trait="TensorLike")
        it, v = view()
        if f is not None and v is not None:
            r = env.run(it, f, [ref(v["value"])])
            env.result("P07/sum" + tag, f, r, [("total", lambda x: nth(it.getf(x, "array"), ZERO), sum_spec(v["els"]))],
                       facts=v["facts"], sampler=view_sampler(v))
        f = env.fn("TensorView::count", trait="TensorLike")
        it, v = view()
        if f is not None and v is not None:
            r = env.run(it, f, [ref(v["value"])])
            env.result("P07/count" + tag, f, r, [("number of elements", lambda x: x, prod(v["vs"]))], facts=v["facts"], sampler=view_sampler(v))
        f = env.fn("TensorView::shape", trait="TensorLike")
        it, v = view()
        if f is not None and v is not None:
            r = env.run(it, f, [ref(v["value"])])
            env.result("P07/shape" + tag, f, r, [("shape", lambda x: refv(x), v["vs"])], facts=v["facts"], sampler=view_sampler(v))


def eq_spec(x, y):
    i = fresh("i")
    return band(eq(x[2], y[2]), forall(prod(x[2]), i, eq(nth(x[1], atom(i)), nth(y[1], atom(i)))))


def eq_sampler(names, views, arrays):
    """operands with equal elements, one element off, or another shape"""
    base = ops_sampler(names, views, "same")

    def f(rng):
        a = base(rng)
        u = rng.random()
        if u < .75:
            m = {}
            if u < .55:
                # equal shapes: only elements may differ
                S = [a[mk("tag", nm + (".S" if views.get(nm) is None else ".w"))] for nm in names]
                for nm, old in zip(names, S):
                    if len(old) != len(S[0]) and views.get(nm) is not None:
                        for s in (".st", ".re"):
                            a[mk("tag", nm + s)] = [0] * len(S[0])
                            a[mk("len", mk("tag", nm + s))] = len(S[0])
                    tg = mk("tag", nm + (".S" if views.get(nm) is None else ".w"))
                    a[tg] = list(S[0])
                    a[mk("len", tg)] = len(S[0])
            for nm, arr in arrays:
                if views.get(nm) is None:
                    S = a[mk("tag", nm + ".S")]
                    p = 1
                    for d in S:
                        p *= d
                    m[nm] = [3] * p
                    if p and nm == names[-1] and u < .4:
                        w = rng.random()  # (not choice: a guide steers the choice of numbers)
                        m[nm][p - 1 if w < .4 else p // 2 if w < .55 else int(rng.random() * p)] = 2
                    a[mk("tag", nm + ".A")] = m[nm]
                else:
                    bs = 1
                    for x, y, z in zip(a[mk("tag", nm + ".w")], a[mk("tag", nm + ".st")], a[mk("tag", nm + ".re")]):
                        bs *= x + y + z
                    a[mk("tag", nm + ".array")] = [3] * bs
                    if bs and nm == names[-1] and u < .4:
                        a[mk("tag", nm + ".array")][bs - 1 if rng.random() < .3 else int(rng.random() * bs)] = 2
        return a
    f.effort = f.steps = 8
    return f


def p09(env):
    pairs = [("RawTensor", "RawTensor"), ("RcTensor", "RcTensor")] + [("TensorView", k) for k in KINDS]
    for a, b in pairs:
        for f, e in find_op(env, "PartialEq", "eq", env.ty(a), env.ty(b)):
            it = env.interp()
            x, y = operand(env, it, "a", a), operand(env, it, "b", b)
            if x is None or y is None:
                continue
            r = env.run(it, f, [ref(x[0]), ref(y[0])], e)
            env.result("P09/%s == %s" % (a, b), f, r, [("outcome", lambda v: v, eq_spec(x, y))], facts=x[3] + y[3],
                       sampler=eq_sampler(("a", "b"), {"a": x[4], "b": y[4]}, (("a", x[1]), ("b", y[1]))))


if __name__ == "__main__":
    main(globals())
