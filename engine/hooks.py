"""Contracts of the index primitives.

Callers of a primitive are analysed against its contract; the primitive itself
is analysed against the same contract by an obligation of its own, so nothing
here is assumed that is not checked on the current source (see obligations.py:
a contract whose obligation does not hold is withdrawn)."""
import term as TM
from term import *
from interp import ok, err, ref, STR, NONE, tup, some


def sig(it, f):
    """concrete parameter and result types of a function (generic names kept)"""
    d = it.p.defs[f["def"]]
    th = f["thir"]
    tv = tuple((g, ("param", g)) for g in d["generics"] if not g.startswith("'"))
    return [it.p.ct(p["ty"], tv) if p.get("ty") is not None else None for p in th["params"]]


VECU = ("adt", "alloc::vec::Vec", (("prim", "usize"),))


def is_ref_seq(c):
    return c is not None and c[0] == "ref" and (c[2] == VECU or c[2][0] == "param")


def tstrip(it, v):
    while v.op in ("ref", "mref", "arc", "guard"):
        v = it.deref(v)
    return v


def seqarg(it, v):
    s = it.to_seq(tstrip(it, v)) if not is_seq(tstrip(it, v)) else tstrip(it, v)
    return s


def none_cond(v):
    while v.op == "ref":
        v = v.args[0]
    if v.op == "struct" and v.args[0].endswith("Option"):
        return v.args[1] == 0
    return None


def h_global_index(it, f, args, rty):
    s = sig(it, f)
    if len(args) != 3 or not is_ref_seq(s[0]) or not is_ref_seq(s[1]):
        return NotImplemented
    if none_cond(args[2]) is not True:
        return NotImplemented
    I, S = seqarg(it, args[0]), seqarg(it, args[1])
    if not (is_seq(I) and is_seq(S)):
        return NotImplemented
    c = it.sbool(in_range(I, S, it.dec))
    return ite(c, ok(flat(I, S, it.dec)), err(STR))


def h_increment_index(it, f, args, rty):
    s = sig(it, f)
    if len(args) != 2 or args[0].op != "mref" or rty != ("prim", "bool"):
        return NotImplemented
    I, S = it.read_mref(args[0]), seqarg(it, args[1])
    if not (is_seq(I) and is_seq(S)) or I.unk or S.unk:
        return NotImplemented
    c = incok(I, S)
    c = it.sbool(c)
    # on failure the index keeps its value
    it.write_mref(args[0], ite(c, inc(I, S), I))
    return c


def h_tensor_index(it, f, args, rty):
    s = sig(it, f)
    if len(args) != 2 or s[0] != ("prim", "usize") or not is_ref_seq(s[1]):
        return NotImplemented
    k, S = args[0], seqarg(it, args[1])
    if not is_seq(S) or k.op != "poly":
        return NotImplemented
    P = prod(S)
    it.require(bnot(eq0(P)), "division by an empty dimension")
    c = it.sbool(lt(k, P))
    return ite(c, ok(unflat(k, S, it.dec)), err(STR))


def h_max_shape(it, f, args, rty):
    s = sig(it, f)
    if len(args) != 2 or not is_ref_seq(s[0]) or not is_ref_seq(s[1]):
        return NotImplemented
    a, b = seqarg(it, args[0]), seqarg(it, args[1])
    if not (is_seq(a) and is_seq(b)):
        return NotImplemented
    return bshape(a, b)


def h_index_iterator_new(it, f, args, rty):
    if len(args) != 1:
        return NotImplemented
    S = seqarg(it, args[0])
    if not is_seq(S) or S.unk:
        return NotImplemented
    n = prod(S)
    v = fresh("u")
    return mk("itseq", smap(n, v, unflat(atom(v), S)), ZERO, n)


def base_of(it, x):
    """(array, shape) of a RawTensor/RcTensor value, else None"""
    x = it.strip(x)
    if x.op == "struct" and x.args[0].endswith("::RawTensor"):
        return it.getf(x, "array"), it.getf(x, "shape")
    return None


def view_parts(it, x):
    x = it.strip(x)
    if x.op == "struct" and x.args[0].endswith("::TensorView"):
        b = base_of(it, it.getf(x, "tensor"))
        view = it.getf(x, "view")
        if b is None:
            return None
        off, vs = it.getf(view, "offset"), it.getf(view, "shape")
        if not (is_seq(off) and is_seq(vs)):
            return None
        return b[0], b[1], off, vs
    return None


def velems(it, x):
    """the elements a view shows, in row-major order (definition: see evalt.v_velems)"""
    p = view_parts(it, x)
    if p is None:
        return None
    arr, bs, off, vs = p
    return sseq(mk("velems", arr, bs, off_starts(it, off), off_widths(it, off)), prod(vs), "elem")


def mapseq(s, f):
    if s.op == "seqlit":
        return seqlit(*[f(x) for x in s.args])
    v = fresh("o")
    return smap(length(s), v, f(nth(s, atom(v))))


def off_starts(it, off):
    return mapseq(off, lambda r: it.getf(r, "start"))


def off_widths(it, off):
    return mapseq(off, lambda r: sub(it.getf(r, "end"), it.getf(r, "start")))


def h_element_iterator_new(it, f, args, rty):
    if len(args) != 1:
        return NotImplemented
    b = base_of(it, args[0])
    if b is not None:
        arr, sh = b
    else:
        arr = velems(it, args[0])
        if arr is None:
            return NotImplemented
    if arr.unk or not is_seq(arr):
        return NotImplemented
    return mk("itseq", arr, ZERO, length(arr))


def h_view_get(it, f, args, rty):
    if len(args) != 2:
        return NotImplemented
    p = view_parts(it, args[0])
    if p is None:
        return NotImplemented
    I = seqarg(it, args[1])
    if not is_seq(I):
        return NotImplemented
    vs = p[3]
    c = it.sbool(in_range(I, vs, it.dec))
    return ite(c, ok(ref(nth(velems(it, args[0]), flat(I, vs, it.dec)))), err(STR))


ALL = {
    "global_index": h_global_index,
    "increment_index": h_increment_index,
    "tensor_index": h_tensor_index,
    "max_shape": h_max_shape,
    "IndexIterator::new": h_index_iterator_new,
    "ElementIterator::new": h_element_iterator_new,
    "TensorView::get": h_view_get,
}


def hooks(*without):
    return {k: v for k, v in ALL.items() if k not in without}
