"""The specified closed forms, per property."""
import os
import sys
from obl import *
import obl


def refv(v):
    while v.op in ("ref",):
        v = v.args[0]
    return v


def spec_get(arr, S, I):
    return ite(in_range(I, S), ok(nth(arr, flat(I, S))), err(STR))


def strip_res(it, v):
    """Result<&T> with the reference removed"""
    if v.op == "ite":
        return ite(v.args[0], strip_res(it, v.args[1]), strip_res(it, v.args[2]))
    if v.op == "struct" and len(v.args) == 3:
        return mk("struct", v.args[0], v.args[1], refv(v.args[2]))
    return refv(v)


def idx(name="I"):
    return sseq(mk("tag", name), atom(mk("len", mk("tag", name))), "int")


def mkview(env, it, name="v", reshaped=False, rank=None):
    """a well-formed view: its parts, and the facts that make it one"""
    n = atom(mk("len", mk("tag", name + ".st"))) if rank is None else const(rank)
    st = sseq(mk("tag", name + ".st"), n, "int")
    w = sseq(mk("tag", name + ".w"), n, "int")
    re = sseq(mk("tag", name + ".re"), n, "int")
    i = fresh("i")
    bs = smap(n, i, add(nth(st, atom(i)), nth(w, atom(i)), nth(re, atom(i))))
    arr = sseq(mk("tag", name + ".array"), prod(bs), "elem")
    i = fresh("i")
    off = smap(n, i, slicerange(env, nth(st, atom(i)), add(nth(st, atom(i)), nth(w, atom(i)))))
    if reshaped:
        vs = sseq(mk("tag", name + ".vs"), atom(mk("len", mk("tag", name + ".vs"))), "int")
        facts = (eq0(sub(prod(vs), prod(w))),)
    else:
        vs = w
        facts = ()
    v = it.opaque(mk("tag", name), env.ty("TensorView"))
    v = set_fields(env, v, {"shape": bs, "array": arr})
    v = set_fields(env, v, {"shape": vs, "offset": off}, "View")
    base = it.getf(v, "tensor")
    if H.view_parts(it, v) is None or H.view_parts(it, v)[1] is not bs or H.view_parts(it, v)[3] is not vs:
        return None
    els = sseq(mk("velems", arr, bs, st, w), prod(vs), "elem")
    return dict(value=v, base=base, arr=arr, bs=bs, st=st, w=w, vs=vs, els=els, facts=facts, name=name, reshaped=reshaped)


def slicerange(env, start, end):
    f = env.fn("SliceRange::new")
    it = Interp(env.p)
    return it.run_body(f, [start, end], {}, {})


def set_fields(env, v, vals, name="RawTensor"):
    """replace fields of the structs called `name` inside a value"""
    if v.op == "ref":
        return ref(set_fields(env, v.args[0], vals, name))
    if v.op == "arc":
        return mk("arc", v.args[0], set_fields(env, v.args[1], vals, name))
    if v.op == "struct" and v.args[0].endswith("::" + name):
        fs = [f["name"] for f in env.p.adts[v.args[0]]["variants"][0]["fields"]]
        return mk("struct", v.args[0], v.args[1], *[vals.get(n, x) for n, x in zip(fs, v.args[2:])])
    if v.op == "struct":
        return mk("struct", v.args[0], v.args[1], *[set_fields(env, x, vals, name) for x in v.args[2:]])
    return v


def view_sampler(*views, idxs=()):
    def f(rng):
        a = {}
        for v in views:
            r = rng.randint(0, 3)
            nm = v["name"]
            w = [rng.choice((1, 2, 2, 3, 1)) if rng.random() > .08 else 0 for _ in range(r)]
            a[mk("tag", nm + ".w")] = w
            a[mk("tag", nm + ".st")] = [rng.randint(0, 2) for _ in range(r)]
            a[mk("tag", nm + ".re")] = [rng.randint(0, 1) for _ in range(r)]
            for s in (".w", ".st", ".re"):
                a[mk("len", mk("tag", nm + s))] = r
            if v["reshaped"]:
                vs = [x for x in w if rng.random() > .3 or x != 1]
                rng.shuffle(vs)
                if rng.random() < .6 and len(vs) > 1:
                    y = vs.pop()
                    vs[0] *= y
                if rng.random() < .5:
                    vs.insert(rng.randint(0, len(vs)), 1)
                a[mk("tag", nm + ".vs")] = vs
                a[mk("len", mk("tag", nm + ".vs"))] = len(vs)
                last = vs
            else:
                last = w
            for j in idxs:
                n = max(0, len(last) + rng.choice((0, 0, 0, -1, 1)))
                I = [rng.randint(0, 3) for _ in range(n)]
                if rng.random() < .6:
                    for k in range(1, min(n, len(last)) + 1):
                        if last[-k]:
                            I[-k] = rng.randrange(last[-k])
                a[mk("tag", j)] = I
                a[mk("len", mk("tag", j))] = n
        return a
    return f


def p05(env):
    I = idx()
    for name in ("RawTensor", "RcTensor"):
        f = env.fn(name + "::get", trait="TensorLike")
        if f is None:
            continue
        for without in ((),):
            it = env.interp()
            x = it.opaque(mk("tag", "x"), env.ty(name))
            arr, S = it.getf(x, "array"), it.getf(x, "shape")
            r = env.run(it, f, [ref(x), ref(I)])
            env.result("P05/%s::get" % name, f, r, [("element or error", lambda v: strip_res(it, v), spec_get(arr, S, I))])
    f = env.fn("TensorView::get", trait="TensorLike")
    for resh in (False, True):
        it = env.interp("TensorView::get")
        v = mkview(env, it, reshaped=resh)
        if f is None or v is None:
            continue
        r = env.run(it, f, [ref(v["value"]), ref(I)])
        env.result("P05/TensorView::get" + ("(reshaped)" if resh else ""), f, r,
                   [("element or error", lambda x: strip_res(it, x), spec_get(v["els"], v["vs"], I))],
                   facts=v["facts"], sampler=view_sampler(v, idxs=("I",)))


def contract_global_index(env):
    f = env.fn("global_index")
    if f is None:
        return
    I, S = idx("I"), idx("S")
    it = env.interp("global_index")
    r = env.run(it, f, [ref(I), ref(S), NONE])
    env.result("contract/global_index", f, r, [("position or error", lambda v: v, ite(in_range(I, S), ok(flat(I, S)), err(STR)))])


def call_then(env, it, f, args, then, tenv=None):
    """evaluate f(args) and continue with `then` on the value, as one run"""
    class Seq:
        pass
    g = dict(f)
    r0 = {}

    def body():
        d = env.p.defs[f["def"]]
        tv = dict((x, ("param", x)) for x in d["generics"] if not x.startswith("'"))
        tv.update(tenv or {})
        v = it.run_body(f, args, tv, {})
        return then(v)
    return env.run_py(it, body)


def contract_increment_index(env):
    f = env.fn("increment_index")
    if f is None:
        return
    it = env.interp("increment_index")
    S = idx("S")
    I = sseq(mk("tag", "I"), length(S), "int")
    k = fresh("k")
    facts = (bor(forall(length(S), k, lt(nth(I, atom(k)), nth(S, atom(k)))),),)
    c = it.cell(I)
    r = env.run(it, f, [mk("mref", c), ref(S)], {"V": ("ref", False, H.VECU)})
    env.result("contract/increment_index", f, r, [
        ("returned flag", lambda v: v, incok(I, S)),
        ("next index", lambda v: it.st.cells[c], ite(incok(I, S), inc(I, S), I))], facts=facts, sampler=index_sampler("I", "S"))


def index_sampler(i, s, exact=True):
    def f(rng):
        r = rng.randint(0, 3)
        S = [rng.choice((1, 2, 3, 2)) for _ in range(r)]
        I = [rng.randrange(x) for x in S]
        if rng.random() < .2:
            I = [x - 1 for x in S]
        if r and rng.random() < .5:
            k = min(rng.randrange(r), rng.randrange(r) + 1)
            I[k:] = [x - 1 for x in S[k:]]
            if k:
                I[k - 1] = 0
        return {mk("tag", i): I, mk("tag", s): S, mk("len", mk("tag", s)): r, mk("len", mk("tag", i)): r}
    return f


def contract_tensor_index(env):
    f = env.fn("tensor_index")
    if f is None:
        return
    it = env.interp("tensor_index")
    S, k = idx("S"), atom(mk("sym", "k"))
    r = env.run(it, f, [k, ref(S)])

    def smp(rng):
        n = rng.randint(0, 3)
        S = [rng.choice((1, 2, 3, 2)) for _ in range(n)]
        p = 1
        for x in S:
            p *= x
        return {mk("tag", "S"): S, mk("len", mk("tag", "S")): n, mk("sym", "k"): rng.randrange(p + 2)}
    env.result("contract/tensor_index", f, r, [("index or error", lambda v: v, ite(lt(k, prod(S)), ok(unflat(k, S)), err(STR)))],
               facts=(bnot(eq0(prod(S))),), sampler=smp)


def contract_max_shape(env):
    f = env.fn("max_shape")
    if f is None:
        return
    it = env.interp("max_shape")
    a, b = idx("A"), idx("B")
    r = env.run(it, f, [ref(a), ref(b)])
    env.result("contract/max_shape", f, r, [("shape", lambda v: v, mk("bshape", a, b))], sampler=shapes_sampler("A", "B"))


def shapes_sampler(*names, zero=False, compatible=None):
    def f(rng):
        a = {}
        for nm in names:
            n = rng.randint(0, 3)
            S = [rng.choice((1, 2, 3)) if not zero or rng.random() > .1 else 0 for _ in range(n)]
            a[mk("tag", nm)] = S
            a[mk("len", mk("tag", nm))] = n
        return a
    return f


def p06(env):
    f = env.fn("IndexIterator::new")
    if f is not None:
        for hk in ((), ("increment_index",)):
            it = env.interp("IndexIterator::new", *hk)
            S = idx("S")
            v = fresh("u")
            want = smap(prod(S), v, unflat(atom(v), S))
            r = call_then(env, it, f, [S], lambda x: it.to_seq(x))
            env.result("P06/IndexIterator", f, r, [("sequence of indices", lambda v: v, want)], sampler=shapes_sampler("S", zero=True))
            if all(x.status in ("PROVED", "AGREE", "VIOLATED") for x in env.verdicts[-2:]):
                break
    f = env.fn("ElementIterator::new")
    if f is not None:
        for name in ("RawTensor", "RcTensor"):
            it = env.interp("ElementIterator::new")
            x = it.opaque(mk("tag", "x"), env.ty(name))
            r = call_then(env, it, f, [ref(x)], lambda x: it.to_seq(x), {"T": T, "U": ("ref", False, env.ty(name)), "V": env.ty(name)})
            env.result("P06/ElementIterator of " + name, f, r, [("sequence of elements", lambda v: v, it.getf(x, "array"))])
        it = env.interp("ElementIterator::new")
        for resh in (False, True):
            v = mkview(env, it, reshaped=resh)
            if v is None:
                continue
            r = call_then(env, it, f, [ref(v["value"])], lambda x: it.to_seq(x), {"T": T, "U": ("ref", False, env.ty("TensorView")), "V": env.ty("TensorView")})
            env.result("P06/ElementIterator of TensorView", f, r, [("sequence of elements", lambda v: v, v["els"])], facts=v["facts"], sampler=view_sampler(v))
    overrides(env)


def overrides(env):
    """provided methods of Iterator that the enumeration of indices replaces by its own"""
    f = env.fn("IndexIterator::new")
    if f is None:
        return
    n = atom(mk("sym", "n"))

    def smp(rng):
        a = shapes_sampler("S", zero=True)(rng)
        p = 1
        for d in a[mk("tag", "S")]:
            p *= d
        a[mk("sym", "n")] = int(rng.random() * (p + 4))
        return a
    for name in ("nth", "count", "last", "size_hint"):
        g = env.fn("IndexIterator::" + name, trait="Iterator")
        if g is None:
            continue
        it = env.interp("IndexIterator::new", "increment_index")
        S = idx("S")
        N = prod(S)

        def at(k):
            return ite(lt(k, N), some(unflat(k, S)), NONE)

        def then(x):
            c = it.cell(x)
            m = mk("mref", c)
            own = name in ("count", "last")
            v = it.run_body(g, [x if own else m if name == "nth" else ref(x)] + ([n] if name == "nth" else []), {}, {})
            if name == "nth":
                h = env.fn("IndexIterator::next", trait="Iterator")
                return tup(v, it.run_body(h, [m], {}, {}))
            return tup(v, UNIT)
        r = call_then(env, it, f, [S], then)
        nm = "P06/IndexIterator, own `%s`" % name
        if name == "nth":
            env.result(nm, f, r, [("index", lambda v: v.args[0], at(n)), ("next index", lambda v: v.args[1], at(add(n, ONE)))], sampler=smp)
        elif name == "count":
            env.result(nm, f, r, [("number", lambda v: v.args[0], N)], sampler=smp)
        elif name == "last":
            env.result(nm, f, r, [("index", lambda v: v.args[0], ite(eq0(N), NONE, some(unflat(sub(N, ONE), S))))], sampler=smp)
        else:
            env.result(nm, f, r, [("lower bound holds", lambda v: le(it.field(v.args[0], 0, 0), N), TRUE)], sampler=smp)


def broadcastable(A, B):
    n = imin(length(A), length(B))
    i = fresh("i")
    k = atom(i)
    x = nth(A, sub(sub(length(A), ONE), k))
    y = nth(B, sub(sub(length(B), ONE), k))
    return forall(n, i, bor(eq0(sub(x, y)), eq0(sub(x, ONE)), eq0(sub(y, ONE))))


def operand(env, it, name, kind):
    """(value, elements, shape, facts, view) of an opaque well-formed tensor"""
    if kind == "TensorView":
        v = mkview(env, it, name)
        if v is None:
            return None
        return v["value"], v["els"], v["vs"], v["facts"], v
    x = it.opaque(mk("tag", name), env.ty(kind))
    x = set_fields(env, x, {"shape": idx(name + ".S"), "array": sseq(mk("tag", name + ".A"), prod(idx(name + ".S")), "elem")})
    return x, it.getf(x, "array"), it.getf(x, "shape"), (), None


def same_count(rng, full):
    """another shape, mostly with the same number of elements"""
    S = list(full)
    k = rng.randrange(5)
    if k == 0:
        S.insert(rng.randint(0, len(S)), 1)
    elif k == 1:
        S.reverse()
    elif k == 2 and len(S) > 1:
        j = rng.randrange(len(S) - 1)
        S[j:j + 2] = [S[j] * S[j + 1]]
    elif k == 3 and 1 in S:
        S.remove(1)
    else:
        S.append(1)
    return S


def ops_sampler(names, views, mode="broadcast"):
    """shapes of the operands: mostly compatible, sometimes not, sometimes scalar"""
    def f(rng):
        a = {}
        r = rng.randint(0, 3)
        full = [rng.choice((1, 2, 3)) for _ in range(r)]
        for nm in names:
            u = rng.random()
            if mode == "same" and u < .6:
                S = list(full)
            elif mode == "same" and u < .85:
                S = same_count(rng, full)
            elif mode == "same":
                S = [rng.choice((1, 2, 3)) for _ in range(rng.randint(0, 3))] if rng.random() < .6 else []
            else:
                S = [x if rng.random() < .7 else 1 for x in full[rng.choice((0, 0, 0, 1, 2)):]]
                if rng.random() < .12:
                    S = [rng.choice((1, 2, 3)) for _ in range(rng.randint(0, 3))]
            n = len(S)
            v = views.get(nm)
            if v is not None:
                a[mk("tag", nm + ".w")] = S
                a[mk("tag", nm + ".st")] = [rng.randint(0, 2) for _ in S]
                a[mk("tag", nm + ".re")] = [rng.randint(0, 1) for _ in S]
                for s in (".w", ".st", ".re"):
                    a[mk("len", mk("tag", nm + s))] = n
            else:
                a[mk("tag", nm + ".S")] = S
                a[mk("len", mk("tag", nm + ".S"))] = n
        return a
    return f


def find_op(env, trait, method, aty, bty=None):
    out = []
    for t, imps in env.p.impl_by_trait.items():
        if t.rsplit("::", 1)[-1] != trait:
            continue
        for imp in imps:
            e = {}
            if not env.p.unify(imp["self"], aty, e):
                continue
            if bty is not None and len(imp["targs"]) > 1 and not env.p.unify(imp["targs"][1], bty, e):
                continue
            f = env.p.fn_of_impl(imp, method)
            if f is None:
                continue
            for g in env.p.defs[f["def"]]["generics"]:
                if g == "V" and "V" not in e and bty is not None:
                    e["V"] = bty[2] if bty[0] == "ref" else bty
            out.append((f, e))
    return out


def rty(c):
    return ("ref", False, c)


def zip_spec(A, SA, B, SB, op):
    S = bshape(SA, SB)
    v = fresh("p")
    I = unflat(atom(v), S)
    return smap(prod(S), v, op(nth(A, flat(I, SA)), nth(B, flat(I, SB))))


def p02(env):
    combos = [("RawTensor", "RawTensor", "rr"), ("RawTensor", "RcTensor", "rr"), ("RawTensor", "TensorView", "rr"),
              ("RcTensor", "RcTensor", "rr"), ("RcTensor", "RcTensor", "vv"), ("RcTensor", "RcTensor", "vr")]
    for trait, method, op in (("Add", "add", lambda x, y: add(x, y)), ("Sub", "sub", lambda x, y: sub(x, y))):
        for a, b, m in combos:
            it = env.interp()
            x = operand(env, it, "a", a)
            y = operand(env, it, "b", b)
            if x is None or y is None:
                continue
            at = rty(env.ty(a)) if m[0] == "r" else env.ty(a)
            bt = rty(env.ty(b)) if m[1] == "r" else env.ty(b)
            fs = find_op(env, trait, method, at, bt)
            if len(fs) != 1 or (trait == "Sub" and b == "TensorView"):
                continue
            f, e = fs[0]
            r = env.run(it, f, [ref(x[0]) if m[0] == "r" else x[0], ref(y[0]) if m[1] == "r" else y[0]], e)
            facts = (bnot(eq0(prod(x[2]))), bnot(eq0(prod(y[2])))) + x[3] + y[3]
            env.result("P02/%s%s %s %s%s" % ("&" if m[0] == "r" else "", a, method, "&" if m[1] == "r" else "", b), f, r, [
                ("shape", lambda v: it.getf(v, "shape"), mk("bshape", x[2], y[2])),
                ("elements", lambda v: it.getf(v, "array"), zip_spec(x[1], x[2], y[1], y[2], op))],
                facts=facts, accept=broadcastable(x[2], y[2]), sampler=ops_sampler(("a", "b"), {"a": x[4], "b": y[4]}))


def map_spec(A, op):
    v = fresh("p")
    return smap(length(A), v, op(nth(A, atom(v))))


def efn(n, *a):
    return atom(mk("efn", n, *a))


def relu_spec(x):
    return ite(elt0(x), ZERO, x)


UNARY = {
    "neg": lambda x: neg(x),
    "abs": lambda x: efn("abs", x),
    "tanh": lambda x: efn("tanh", x),
    "relu": relu_spec,
}


def unary_sites(env):
    """(function, operand kind, by reference?, operation) for every public element-wise operation"""
    out = []
    for a in ("RawTensor", "RcTensor"):
        for m in ("r", "v"):
            at = rty(env.ty(a)) if m == "r" else env.ty(a)
            for f, e in find_op(env, "Neg", "neg", at):
                out.append((f, e, a, m, "neg"))
    for q, op in (("RcTensor::abs", "abs"),):
        f = env.fn(q)
        if f is not None:
            out.append((f, {}, "RcTensor", "r", op))
    for q in ("abs", "tanh", "relu"):
        f = env.fn(q)
        if f is None:
            continue
        ps = env.params(f)
        if len(ps) == 1 and ps[0] is not None:
            m = "r" if ps[0][0] == "ref" else "v"
            c = ps[0][2] if m == "r" else ps[0]
            if c == env.ty("RcTensor"):
                out.append((f, {}, "RcTensor", m, q))
    return out


def p03(env):
    for f, e, a, m, op in unary_sites(env):
        it = env.interp()
        x = operand(env, it, "a", a)
        r = env.run(it, f, [ref(x[0]) if m == "r" else x[0]], e)
        env.result("P03/%s of %s%s" % (op, "&" if m == "r" else "", a), f, r, [
            ("shape", lambda v: it.getf(v, "shape"), x[2]),
            ("elements", lambda v: it.getf(v, "array"), map_spec(x[1], UNARY[op]))], sampler=ops_sampler(("a",), {}))
    f = env.fn("generic_unary_op")
    if f is not None:
        for kind in ("RawTensor", "RcTensor", "TensorView"):
            it = env.interp()
            x = operand(env, it, "a", kind)
            op = mk("fnsym", mk("tag", "op"), ("fnptr", (T,), T))
            r = env.run(it, f, [ref(x[0]), op], {"U": rty(env.ty(kind)), "V": env.ty(kind)})
            env.result("P03/generic_unary_op of " + kind, f, r, [
                ("shape", lambda v: it.getf(v, "shape"), x[2]),
                ("elements", lambda v: it.getf(v, "array"), map_spec(x[1], lambda y: it.call_value(op, [y], T)))],
                sampler=ops_sampler(("a",), {"a": x[4]}))
    # scalar multiplication and element-wise product
    kinds = ("RawTensor", "RcTensor", "TensorView")
    f = env.fn("element_wise_multiplication")
    if f is not None:
        for a in kinds:
            for b in kinds:
                it = env.interp()
                x, y = operand(env, it, "a", a), operand(env, it, "b", b)
                if x is None or y is None:
                    continue
                r = env.run(it, f, [ref(x[0]), ref(y[0])], {"U1": rty(env.ty(a)), "V1": env.ty(a), "U2": rty(env.ty(b)), "V2": env.ty(b)})
                product_result(env, "P03/element_wise_multiplication %s %s" % (a, b), f, r, it, x, y, False)
    for a, b, m in (("RawTensor", "RawTensor", "rr"), ("RawTensor", "RcTensor", "rr"), ("RawTensor", "TensorView", "rr"),
                    ("RcTensor", "RcTensor", "rr"), ("RcTensor", "RcTensor", "vr"), ("RcTensor", "RawTensor", "rr"), ("RcTensor", "TensorView", "rr")):
        it = env.interp()
        x, y = operand(env, it, "a", a), operand(env, it, "b", b)
        at = rty(env.ty(a)) if m[0] == "r" else env.ty(a)
        bt = rty(env.ty(b)) if m[1] == "r" else env.ty(b)
        fs = find_op(env, "Mul", "mul", at, bt)
        if len(fs) != 1 or x is None or y is None:
            continue
        f, e = fs[0]
        r = env.run(it, f, [ref(x[0]) if m[0] == "r" else x[0], ref(y[0]) if m[1] == "r" else y[0]], e)
        product_result(env, "P03/%s%s mul %s%s" % ("&" if m[0] == "r" else "", a, "&" if m[1] == "r" else "", b), f, r, it, x, y, True)
    for q, left in (("TensorLike::left_scalar_multiplication", True), ("TensorLike::right_scalar_multiplication", False)):
        f = env.fn(q)
        if f is None:
            continue
        for a in kinds:
            it = env.interp()
            x = operand(env, it, "a", a)
            if x is None:
                continue
            c = atom(mk("esym", mk("tag", "c")))
            r = env.run(it, f, [ref(x[0]), ref(c)], {"Self": env.ty(a)})
            env.result("P03/%s of %s" % (q, a), f, r, [
                ("shape", lambda v: it.getf(v, "shape"), x[2]),
                ("elements", lambda v: it.getf(v, "array"), map_spec(x[1], lambda y: mul(c, y)))], sampler=ops_sampler(("a",), {"a": x[4]}))


def product_result(env, name, f, r, it, x, y, scalars):
    (xv, A, SA, fa, va), (yv, B, SB, fb, vb) = x, y
    same = eq(SA, SB)
    p = fresh("p")
    ew = smap(prod(SA), p, mul(nth(A, atom(p)), nth(B, atom(p))))
    if scalars:
        sa, sb = eq0(length(SA)), eq0(length(SB))
        p2, p3 = fresh("p"), fresh("p")
        shape = ite(sa, SB, SA)
        els = ite(sa, smap(prod(SB), p2, mul(nth(A, ZERO), nth(B, atom(p2)))),
                  ite(sb, smap(prod(SA), p3, mul(nth(A, atom(p3)), nth(B, ZERO))), ew))
        acc = bor(sa, sb, same)
    else:
        shape, els, acc = SA, ew, same
    env.result(name, f, r, [("shape", lambda v: it.getf(v, "shape"), shape), ("elements", lambda v: it.getf(v, "array"), els)],
               facts=fa + fb, accept=acc, sampler=ops_sampler(("a", "b"), {"a": va, "b": vb}, "same"))


def main(ns):
    import prog
    P = prog.Prog(os.environ.get("RL_JSON", "/verif/build/out/rust_light-lib.json"))
    e = Env(P)
    for n in sys.argv[1:]:
        if n.startswith("-"):
            continue
        ns[n](e)
    from collections import Counter
    print(Counter(v.status for v in e.verdicts))
    for v in e.verdicts:
        if "-q" in sys.argv and v.status in ("PROVED", "AGREE"):
            continue
        if "-q" in sys.argv:
            print(v.status, v.name, "|", v.detail[:170])
        else:
            print(v.status, v.name, v.where, v.notes.get("secs"), "\n      ", v.detail[:1900])


if __name__ == "__main__":
    main(globals())
