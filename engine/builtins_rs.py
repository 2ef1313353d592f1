"""Semantics of the library functions the crate (or a rewrite of it) calls."""
import term as TM
from term import *
from decide import simp
import loops as L
from loops import itseq, adaptor, map_seq, UNITT

B = {}


def reg(*names):
    def deco(f):
        for n in names:
            B[n] = f
        return f
    return deco


def key_of(self, d):
    name = d["name"]
    if d.get("trait"):
        return d["trait"].rsplit("::", 1)[-1] + "::" + name
    if "impl_self" in d:
        c = self.p.types[d["impl_self"]]
        while c[0] == "ref":
            c = self.p.types[c[2]]
        st = self.p.defs[c[1]]["name"] if c[0] == "adt" else c[1] if c[0] == "prim" else c[0]
        if st in ("usize", "u8", "u32", "u64", "i32", "i64", "isize", "i8", "u128", "i128", "u16", "i16"):
            st = "int"
        if st in ("f32", "f64"):
            st = "float"
        return st + "::" + name
    return name


def builtin(self, d, targs, args, rty, e):
    if rty == ("never",):
        from interp import Dead
        self.require(FALSE, "panic")
        raise Dead()
    k = key_of(self, d)
    f = B.get(k)
    if f is None and (d["id"].startswith("core::fmt") or d["id"].startswith("alloc::fmt") or d["id"].startswith("std::io")):
        return fmt_result(self, rty)
    if f is None:
        f = B.get("*::" + d["name"])
    if f is None:
        if hides_mut(self, args, e):
            self.poison("unmodelled %s" % k)
        else:
            havoc_refs(self, args, "unmodelled %s" % k)
        return self.unknown("unmodelled library function %s" % d["id"])
    for a in args:
        if a.op == "unk" and k not in LAZY:
            # mutable arguments of a call with an unknown argument become unknown
            if hides_mut(self, args, e):
                self.poison("unknown argument of %s: %s" % (k, a.args[0]))
                return a
            havoc_refs(self, args, "unknown argument of %s: %s" % (k, a.args[0]))
            return a
    c = Ctx(self, d, targs, rty, e)
    r = f(c, *args)
    if r is not None and r.op == "unk" and k not in PURE and any(a.op in ("mref", "closure", "it", "fnval", "fnsym") for a in args):
        # not followed: whatever it could have written is unknown from here
        if hides_mut(self, args, e):
            self.poison(r.args[0])
        else:
            havoc_refs(self, args, r.args[0])
    return UNITT if r is None else r


def may_mut(P, t, depth=0):
    """can a value of this type give write access to a place?"""
    if isinstance(t, int):
        t = P.ct(t)
    if not isinstance(t, (list, tuple)) or not t or depth > 8:
        return True
    k = t[0]
    if k in ("prim", "param", "never", "fndef", "str", "const", "lt"):
        return False
    if k == "ref":
        return bool(t[1]) or may_mut(P, t[2], depth + 1)
    if k == "adt":
        if any(w in t[1] for w in ("Mut", "Drain", "Guard", "mpsc", "Sender", "Cell")):
            return True
        return any(may_mut(P, x, depth + 1) for x in t[2])
    if k == "tuple":
        return any(may_mut(P, x, depth + 1) for x in t[1])
    if k in ("array", "slice"):
        return may_mut(P, t[1], depth + 1)
    return True


def calls_out(args):
    """could a closure or function among the arguments reach a lock?"""
    fn = lock = False
    seen, st = set(), list(args)
    while st and not (fn and lock):
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            fn = fn or t.op in ("closure", "fnval", "fnsym")
            lock = lock or t.op in ("lock", "guard", "arc", "osym", "unk", "send", "sender")
            st.extend(t.args)
    return fn and lock


def hides_mut(self, args, e):
    """an argument that is unknown may be, or hold, a reference for writing"""
    if calls_out(args):
        return True
    tys = [x.get("ty") for x in (e or {}).get("args", ()) if isinstance(x, dict)]
    for i, a in enumerate(args):
        if a.unk and (i >= len(tys) or tys[i] is None or may_mut(self.p, tys[i])):
            return True
    return False


def havoc_refs(self, args, why):
    """whatever is reachable for writing from `args` (also through closures and iterators) becomes unknown"""
    seen, refs = set(), []
    st = list(args)
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
            continue
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op == "mref":
            refs.append(t)
        elif t.op == "send":
            self.st.cells[chan_cell(self, t.args[0])] = unk(why)
        st.extend(t.args)
    for m in refs:
        self.unknowns[why] = 1
        self.write_mref(m, unk(why))


PURE = {"Clone::clone", "Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "AsMut::as_mut", "Index::index", "IndexMut::index_mut",
        "Vec::len", "slice::len", "Into::into", "From::from", "Iterator::cloned", "Iterator::copied", "IntoIterator::into_iter"}
LAZY = {"drop", "forget", "Result::unwrap", "Clone::clone", "Vec::push", "send", "black_box", "must_use"}


class Ctx:
    __slots__ = ("i", "d", "targs", "rty", "e")

    def __init__(self, i, d, targs, rty, e):
        self.i, self.d, self.targs, self.rty, self.e = i, d, targs, rty, e


def fmt_result(self, rty):
    from interp import ok, STR
    if rty and rty[0] == "adt" and rty[1].endswith("Result"):
        return ok(UNITT)
    if rty == ("tuple", ()):
        return UNITT
    return STR


def deep(c, v):
    """value behind references"""
    while v.op in ("ref", "mref", "arc", "guard"):
        v = c.i.deref(v)
    if v.op == "ite" and v.args[1].op in ("ref", "mref", "arc", "guard"):
        return ite(v.args[0], deep(c, v.args[1]), deep(c, v.args[2]))
    return v


def seqv(c, v):
    s = deep(c, v)
    if s.op == "itseq":
        return c.i.to_seq(s)
    return s


def bylift(c, v, adt, f0, f1):
    """dispatch on the two variants of v: f(payload)"""
    i = c.i
    if v.op == "ite" and v.args[1].op == "struct" and v.args[2].op == "struct":
        return i.branch(v.args[0], lambda: bylift(c, v.args[1], adt, f0, f1), lambda: bylift(c, v.args[2], adt, f0, f1))
    cond = i.variant_cond(v, adt, 1)
    t = v.args[1] if v.op == "osym" else None

    def p(k):
        r = i.field(v, k, 0)
        return r if r is not None else UNITT
    return i.branch(cond, lambda: f1(p(1)), lambda: f0(p(0)))


OPT = "core::option::Option"
RES = "core::result::Result"


def I():
    import interp
    return interp


# ------------------------------------------------------------------ numbers
@reg("One::one")
def one(c):
    return ONE


@reg("Zero::zero")
def zero(c):
    return ZERO


@reg("Zero::is_zero")
def is_zero(c, x):
    return c.i.cmp("Eq", deep(c, x), ZERO, False)


@reg("One::is_one")
def is_one(c, x):
    return c.i.cmp("Eq", deep(c, x), ONE, False)


def arith(op):
    def f(c, a, b):
        a, b = deep(c, a), deep(c, b)
        ct = c.targs[0] if c.targs else ("param", "T")
        while ct[0] == "ref":
            ct = ct[2]
        return c.i.arith(op, a, b, ct)
    return f


for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
    B["%s::%s" % (op, nm)] = arith(op)


def arith_assign(op):
    def f(c, a, b):
        old = deep(c, a)
        b = deep(c, b)
        ct = c.targs[0] if c.targs else ("param", "T")
        c.i.write_mref(a, c.i.arith(op, old, b, ct))
    return f


for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
    B["%sAssign::%s_assign" % (op, nm)] = arith_assign(op)


@reg("Neg::neg")
def neg_(c, a):
    return neg(deep(c, a))


@reg("Not::not")
def not_(c, a):
    return bnot(deep(c, a))


@reg("Real::abs", "Float::abs", "float::abs", "Signed::abs", "int::abs")
def abs_(c, x):
    x = deep(c, x)
    return ite(elt0(x), neg(x), x)


@reg("Real::powi", "Float::powi", "float::powi", "int::pow", "pow", "Pow::pow")
def powi(c, x, n):
    k = const_val(deep(c, n))
    x = deep(c, x)
    if k is not None and 0 <= k <= 8:
        return power(x, k)
    return atom(mk("efn", "pow", x, deep(c, n)))


def efn(name):
    def f(c, x, *r):
        return atom(mk("efn", name, deep(c, x), *[deep(c, y) for y in r]))
    return f


for nm in ("tanh", "exp", "ln", "sqrt", "sin", "cos", "tan", "sinh", "cosh", "recip", "exp_m1", "ln_1p", "powf", "log", "atan",
           "floor", "ceil", "round", "trunc", "asin", "acos", "exp2", "log2", "log10", "cbrt", "atanh"):
    for t in ("Real", "Float", "float"):
        B["%s::%s" % (t, nm)] = efn(nm)


@reg("Real::max", "Float::max", "float::max")
def fmax(c, a, b):
    a, b = deep(c, a), deep(c, b)
    return ite(elt0(sub(a, b)), b, a)


@reg("Real::min", "Float::min", "float::min")
def fmin(c, a, b):
    a, b = deep(c, a), deep(c, b)
    return ite(elt0(sub(a, b)), a, b)


@reg("Real::signum", "Float::signum", "float::signum")
def signum(c, x):
    x = deep(c, x)
    return ite(elt0(x), const(-1), ONE)


@reg("Real::mul_add", "Float::mul_add", "float::mul_add")
def mul_add(c, x, a, b):
    return add(mul(deep(c, x), deep(c, a)), deep(c, b))


@reg("max", "Ord::max")
def max_(c, a, b):
    r = c.i.sbool(le(a, b)) if not (is_elem(a) or is_elem(b)) else elt0(sub(a, b))
    return ite(r, b, a)


@reg("min", "Ord::min")
def min_(c, a, b):
    r = c.i.sbool(le(a, b)) if not (is_elem(a) or is_elem(b)) else elt0(sub(a, b))
    return ite(r, a, b)


@reg("int::checked_sub")
def checked_sub(c, a, b):
    return I().option(c.i.sbool(le(b, a)), sub(a, b))


@reg("int::checked_add")
def checked_add(c, a, b):
    return I().some(add(a, b))


@reg("int::checked_mul")
def checked_mul(c, a, b):
    return I().some(mul(a, b))


@reg("int::checked_div")
def checked_div(c, a, b):
    q, r = divmod_(a, b, c.i.dec)
    return I().option(c.i.sbool(bnot(eq0(b))), q)


@reg("int::checked_rem")
def checked_rem(c, a, b):
    q, r = divmod_(a, b, c.i.dec)
    return I().option(c.i.sbool(bnot(eq0(b))), r)


@reg("int::saturating_sub")
def saturating_sub(c, a, b):
    return ite(c.i.sbool(le(b, a)), sub(a, b), ZERO)


@reg("int::saturating_add", "int::wrapping_add")
def saturating_add(c, a, b):
    return add(a, b)


@reg("int::saturating_mul", "int::wrapping_mul")
def saturating_mul(c, a, b):
    return mul(a, b)


@reg("int::abs_diff")
def abs_diff(c, a, b):
    k = c.i.sbool(le(b, a))
    return ite(k, sub(a, b), sub(b, a))


@reg("int::div_ceil")
def div_ceil(c, a, b):
    c.i.require(bnot(eq0(b)), "divisor is not zero")
    return divmod_(add(a, sub(b, ONE)), b, c.i.dec)[0]


@reg("int::rem_euclid")
def rem_euclid(c, a, b):
    return c.i.arith("Rem", a, b, ("prim", "usize"))


@reg("int::div_euclid")
def div_euclid(c, a, b):
    return c.i.arith("Div", a, b, ("prim", "usize"))


@reg("int::is_power_of_two")
def ispow(c, a):
    return unk("is_power_of_two")


# ------------------------------------------------------------------ comparison
@reg("PartialEq::eq")
def eq_(c, a, b):
    return c.i.call_eq(a, b)


@reg("PartialEq::ne")
def ne_(c, a, b):
    return bnot(c.i.call_eq(a, b))


def cmpf(op):
    def f(c, a, b):
        a, b = deep(c, a), deep(c, b)
        t = c.targs[0] if c.targs else ("param", "T")
        while t[0] == "ref":
            t = t[2]
        return c.i.cmp(op, a, b, c.i.is_int(t))
    return f


for nm, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    B["PartialOrd::" + nm] = cmpf(op)

ORD = "core::cmp::Ordering"


def ordering(c, a, b):
    a, b = deep(c, a), deep(c, b)
    if a.op != "poly" or b.op != "poly":
        return unk("ordering")
    t = c.targs[0] if c.targs else ("param", "T")
    while t[0] == "ref":
        t = t[2]
    isint = c.i.is_int(t)
    l = c.i.sbool(c.i.cmp("Lt", a, b, isint))
    e = c.i.sbool(c.i.cmp("Eq", a, b, isint))
    return ite(l, mk("struct", ORD, 0), ite(e, mk("struct", ORD, 1), mk("struct", ORD, 2)))


@reg("Ord::cmp")
def cmp_(c, a, b):
    return ordering(c, a, b)


@reg("PartialOrd::partial_cmp")
def pcmp(c, a, b):
    o = ordering(c, a, b)
    return o if o.op == "unk" else I().some(o)


# ------------------------------------------------------------------ memory
@reg("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "slice::into_vec", "Vec::into_boxed_slice")
def clone(c, v):
    if v.op in ("ref", "mref"):
        v = c.i.deref(v)
    if v.op == "guard":
        v = c.i.deref(v)
    return c.i.clone_value(v)


@reg("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "Vec::as_slice", "array::as_slice", "Vec::as_ref")
def deref(c, v):
    x = v
    if v.op == "mref":
        x = I().ref(c.i.read_mref(v))
    if x.op == "ref":
        y = x.args[0]
        if y.op in ("ref",):
            return y
        if y.op == "mref":
            return I().ref(c.i.read_mref(y))
        if y.op in ("arc", "guard"):
            return I().ref(c.i.deref(y))
        if y.op == "ite" and y.args[1].op in ("arc", "guard", "ref"):
            return I().ref(c.i.deref(y))
        return x
    if v.op in ("arc", "guard"):
        return I().ref(c.i.deref(v))
    return x


@reg("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "RwLock::get_mut_x")
def deref_mut(c, v):
    if v.op == "mref":
        return target_of(c, v, c.i.read_mref(v))
    if v.op == "ite":
        return ite(v.args[0], deref_mut(c, v.args[1]), deref_mut(c, v.args[2]))
    return v


def target_of(c, v, x):
    """the place a mutable dereference of place v, now holding x, leads to"""
    if x.op == "mref":
        return x
    if x.op == "guard":
        c.i.lock_term(x.args[0])
        return mk("mref", x.args[0].args[0])
    if x.op == "ite":
        return ite(x.args[0], target_of(c, v, x.args[1]), target_of(c, v, x.args[2]))
    if x.op == "unk" and not (c.targs and c.targs[0][0] == "adt" and c.targs[0][1].rsplit("::", 1)[-1] in ("Vec", "Box", "String")):
        return x
    return v


@reg("Arc::new", "Rc::new")
def arc_new(c, v):
    return mk("arc", c.i.alloc_id("arc"), v)


@reg("Box::new", "Pin::new", "hint::black_box", "black_box", "must_use", "Cow::into_owned", "identity")
def ident(c, v):
    return v


@reg("Box::new_uninit", "MaybeUninit::uninit")
def uninit(c):
    return mk("uninit")


@reg("write_box_via_move")
def wbox(c, b, v):
    return v


@reg("box_assume_init_into_vec_unsafe", "Box::assume_init", "box_new")
def wbox2(c, v):
    return v


@reg("Arc::ptr_eq", "Rc::ptr_eq")
def ptr_eq(c, a, b):
    a, b = a.args[0] if a.op == "ref" else a, b.args[0] if b.op == "ref" else b
    if a.op == "arc" and b.op == "arc":
        return same_id(a.args[0], b.args[0])
    return unk("ptr_eq")


def same_id(a, b):
    """are two allocations the same one? Allocations of different sites never are; two executions of one site
    may be told apart by nothing here"""
    if a is b:
        return TRUE
    if single(a) and single(b):
        return FALSE
    return unk("ptr_eq")


def single(a):
    """one particular allocation: made at a site outside loops, or an operand under analysis (operands of
    different names are different tensors; the same tensor twice is a case of its own)"""
    if a.op == "alloc":
        return not a.args[1]
    return a.op in ("arcid", "lockid") and plain(a.args[0])


def plain(n):
    return n.op == "tag" and len(n.args) == 1 and isinstance(n.args[0], str) or \
        n.op in ("fld", "field") and all(plain(x) if isinstance(x, Term) else isinstance(x, (str, int)) for x in n.args)


def lock_ids(v):
    """identities of the locks stored directly in a struct value: a place that holds one is nowhere else"""
    if v.op == "lock":
        return [v.args[0]]
    if v.op == "struct":
        return [x for f in v.args[2:] for x in lock_ids(f)]
    return []


@reg("ptr::eq", "ptr::addr_eq", "eq", "addr_eq")
def raw_eq(c, a, b):
    while a.op in ("ref", "mref") and b.op in ("ref", "mref"):
        a, b = c.i.deref(a), c.i.deref(b)
    p, q = lock_ids(a), lock_ids(b)
    if p and q and len(p) == len(q):
        return same_id(p[0], q[0])
    return unk("ptr::eq")


@reg("RwLock::new", "Mutex::new", "RefCell::new", "Cell::new")
def lock_new(c, v):
    return mk("lock", c.i.alloc_id("lock"), v)


@reg("RwLock::read")
def rw_read(c, v):
    return c.i.acquire(v, "r")


@reg("RwLock::write", "Mutex::lock")
def rw_write(c, v):
    return c.i.acquire(v, "w")


@reg("RwLock::try_read", "RwLock::try_write", "Mutex::try_lock")
def rw_try(c, v):
    g = c.i.acquire(v, "t")
    if c.i.havoc_locks:
        # another thread may hold the lock
        return ite(mk("boolsym", mk("tag", "held%d" % c.i.nacq)), I().err(unk("lock held")), g)
    return g


@reg("RwLock::get_mut", "Mutex::get_mut")
def rw_get_mut(c, v):
    # exclusive access without locking
    l = c.i.lock_term(v)
    if l is None:
        return unk("get_mut")
    lid = l.args[0]
    if c.i.log:
        c.i.effect("excl", lid)
    return I().ok(mk("mref", lid))


@reg("RwLock::into_inner", "Mutex::into_inner")
def rw_into(c, v):
    l = c.i.lock_term(v)
    if l is None:
        return unk("into_inner")
    return I().ok(c.i.lock_content(l))


@reg("drop", "forget")
def drop(c, v):
    if c.i.log and v.op == "guard":
        c.i.effect("rel", v.args[0].args[0])
    return UNITT


@reg("swap")
def swap(c, a, b):
    x, y = c.i.deref(a), c.i.deref(b)
    c.i.write_mref(a, y)
    c.i.write_mref(b, x)


@reg("replace")
def replace(c, a, b):
    x = c.i.deref(a)
    c.i.write_mref(a, b)
    return x


@reg("take")
def take_mem(c, a):
    x = c.i.deref(a)
    if x.op == "struct" and x.args[0] == OPT:
        c.i.write_mref(a, I().NONE)
    elif is_seq(x):
        c.i.write_mref(a, EMPTY)
    elif x.op == "osym" and x.args[1] and x.args[1][:2] == ("adt", OPT):
        c.i.write_mref(a, I().NONE)
    elif x.op == "poly":
        c.i.write_mref(a, ZERO)
    elif is_bool(x):
        c.i.write_mref(a, FALSE)
    else:
        c.i.write_mref(a, unk("take"))
    return x


@reg("bool::then")
def bool_then(c, v, f):
    return c.i.branch(v, lambda: I().some(c.i.call_value(f, [], None)), lambda: I().NONE)


@reg("bool::then_some")
def bool_then_some(c, v, x):
    return I().option(v, x)


@reg("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains")
def range_contains(c, r, x):
    r, x = deep(c, r), deep(c, x)
    if r.op != "struct":
        return unk("contains")
    nm, a = r.args[0].rsplit("::", 1)[-1], r.args[2:]
    if nm == "Range":
        return band(le(a[0], x), lt(x, a[1]))
    if nm == "RangeInclusive":
        return band(le(a[0], x), le(x, a[1]))
    return le(a[0], x) if nm == "RangeFrom" else lt(x, a[0])


@reg("Range::is_empty")
def range_is_empty(c, r):
    r = deep(c, r)
    return bnot(lt(r.args[2], r.args[3])) if r.op == "struct" else unk("is_empty")


@reg("Ord::clamp", "clamp")
def clamp(c, x, a, b):
    c.i.require(le(a, b), "clamp bounds")
    return imin(imax(x, a), b) if not is_elem(x) else unk("clamp")


@reg("Iterator::try_for_each")
def try_for_each(c, it, f):
    return unk("try_for_each")


@reg("array::map")
def array_map(c, a, f):
    it = B["Iterator::map"](c, c.i.to_iter(a), f)
    return c.i.to_seq(it)


@reg("Iterator::rfold")
def rfold(c, it, init, f):
    return fold(c, B["Iterator::rev"](c, it), init, f)


@reg("slice::first_mut", "slice::last_mut")
def first_mut(c, v):
    if v.op != "mref":
        return unk("first_mut")
    s = c.i.read_mref(v)
    if s.op == "mref":
        v, s = s, c.i.read_mref(s)
    if not is_seq(s):
        return unk("first_mut")
    n = length(s)
    return I().option(bnot(eq0(n)), c.i.mkmref(v.args[0], v.args[1:] + (mk("p_i", ZERO if c.d["name"] == "first_mut" else sub(n, ONE)),)))


@reg("slice::split_first_mut", "slice::split_last_mut")
def split_first_mut(c, v):
    if v.op != "mref":
        return unk("split_mut")
    s = c.i.read_mref(v)
    if s.op == "mref":
        v, s = s, c.i.read_mref(s)
    if not is_seq(s):
        return unk("split_mut")
    n = length(s)
    m = sub(n, ONE)
    at = lambda *p: c.i.mkmref(v.args[0], v.args[1:] + p)
    if c.d["name"] == "split_first_mut":
        t = I().tup(at(mk("p_i", ZERO)), at(mk("p_s", ONE, m)))
    else:
        t = I().tup(at(mk("p_i", m)), at(mk("p_s", ZERO, m)))
    return I().option(bnot(eq0(n)), t)


@reg("Option::is_none_or")
def is_none_or(c, v, f):
    return bylift(c, v, OPT, lambda x: TRUE, lambda x: c.i.call_value(f, [x], ("prim", "bool")))


@reg("Result::is_ok_and")
def is_ok_and(c, v, f):
    return bylift(c, v, RES, lambda x: c.i.call_value(f, [x], ("prim", "bool")), lambda x: FALSE)


@reg("Vec::resize_with")
def resize_with(c, v, n, f):
    return unk("resize_with")


# ------------------------------------------------------------------ conversion
@reg("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def into(c, v):
    t = c.rty
    i = c.i
    if c.d["name"].startswith("try_"):
        return unk("try_into")
    if t is None:
        return v
    if t[0] == "adt":
        if t[1].endswith("::Arc") or t[1].endswith("::Rc"):
            if v.op == "arc":
                return v
            return mk("arc", i.alloc_id("arc"), v)
        if t[1].endswith("::RwLock") or t[1].endswith("::Mutex"):
            return mk("lock", i.alloc_id("lock"), v)
        if t[1] == "alloc::string::String":
            return I().STR
        if t[1] == OPT:
            vt = i.ctype_of(v)
            if v.op == "struct" and v.args[0] == OPT:
                return v
            return I().some(v)
        if t[1] == "alloc::vec::Vec":
            x = deep(c, v)
            return x if is_seq(x) else unk("into Vec")
        if t[1] in i.p.adts:
            if v.op == "struct" and v.args[0] == t[1]:
                return v
            vt = i.ctype_of(v)
            for imp in i.p.impl_by_trait.get("core::convert::From", []):
                env = {}
                if i.p.unify(imp["self"], t, env) and len(imp["targs"]) > 1 and i.p.unify(imp["targs"][1], vt, env):
                    f = i.p.fn_of_impl(imp, "from")
                    if f is not None:
                        return i.call_fn(f, [v], tuple(sorted(env.items())), t, c.e)
    if v.op == "poly":
        return v
    if is_seq(v):
        return v
    return v if t[0] == "param" else unk("conversion")


@reg("Default::default")
def default(c):
    t = c.rty
    if t is None:
        return unk("default")
    if t[0] == "prim":
        if t[1] == "bool":
            return FALSE
        if t[1] == "str":
            return I().STR
        return ZERO
    if t[0] == "adt":
        if t[1] == OPT:
            return I().NONE
        if t[1] == "alloc::vec::Vec":
            return EMPTY
        if t[1] == "alloc::string::String":
            return I().STR
        if t[1].endswith("RwLock") or t[1].endswith("Mutex"):
            inner = t[2][0]
            if inner[0] == "adt" and inner[1] == OPT:
                return mk("lock", c.i.alloc_id("lock"), I().NONE)
    return unk("default")


@reg("ToString::to_string", "String::new", "String::from", "format", "String::clone", "str::to_string", "str::to_owned",
     "*::as_str", "String::with_capacity", "str::join", "slice::join")
def tostr(c, *a):
    return I().STR


@reg("NumCast::from", "FromPrimitive::from_usize", "FromPrimitive::from_u64", "FromPrimitive::from_i64", "FromPrimitive::from_i32",
     "FromPrimitive::from_u32", "FromPrimitive::from_f64", "FromPrimitive::from_f32")
def numcast(c, a):
    a = deep(c, a)
    if a.op != "poly":
        return unk("numeric cast of %s" % a.op)
    return I().some(a)


@reg("ToPrimitive::to_usize", "ToPrimitive::to_f64", "ToPrimitive::to_f32")
def toprim(c, a):
    return unk("to primitive")


# ------------------------------------------------------------------ Option / Result
def otype(c, v):
    return RES if (v.op == "struct" and v.args[0] == RES) or (v.op == "osym" and v.args[1] and v.args[1][1] == RES) else OPT


def good(v, adt):
    """(condition, variant) under which v carries a value"""
    return 1 if adt == OPT else 0


def unwrap_like(c, v):
    i = c.i
    while v.op in ("ref", "mref"):
        v = i.deref(v)
    if v.op == "unk":
        return v
    adt = RES if c.d["id"].startswith("core::result") else OPT
    k = good(v, adt)
    cond = i.variant_cond(v, adt, k)
    i.require(cond, "%s on the empty variant" % c.d["name"])
    r = i.field(v, k, 0)
    return r if r is not None else unk("unwrap")


@reg("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def unwrap(c, v, *m):
    return unwrap_like(c, v)


@reg("Option::unwrap_or", "Result::unwrap_or")
def unwrap_or(c, v, d):
    adt = OPT if "option" in c.d["id"] else RES
    if adt == OPT:
        return bylift(c, v, adt, lambda x: d, lambda x: x)
    return bylift(c, v, adt, lambda x: x, lambda x: d)


@reg("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or_else(c, v, f):
    adt = OPT if "option" in c.d["id"] else RES
    if adt == OPT:
        return bylift(c, v, adt, lambda x: c.i.call_value(f, [], c.rty), lambda x: x)
    return bylift(c, v, adt, lambda x: x, lambda x: c.i.call_value(f, [x], c.rty))


@reg("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(c, v):
    d = default(c)
    return unwrap_or(c, v, d)


@reg("Option::map")
def omap(c, v, f):
    return bylift(c, v, OPT, lambda x: I().NONE, lambda x: I().some(c.i.call_value(f, [x], None)))


@reg("Option::and_then")
def oand_then(c, v, f):
    return bylift(c, v, OPT, lambda x: I().NONE, lambda x: c.i.call_value(f, [x], c.rty))


@reg("Option::or_else")
def oor_else(c, v, f):
    return bylift(c, v, OPT, lambda x: c.i.call_value(f, [], c.rty), lambda x: I().some(x))


@reg("Option::or")
def oor(c, v, w):
    return bylift(c, v, OPT, lambda x: w, lambda x: I().some(x))


@reg("Option::map_or")
def omap_or(c, v, d, f):
    return bylift(c, v, OPT, lambda x: d, lambda x: c.i.call_value(f, [x], c.rty))


@reg("Option::map_or_else")
def omap_or_else(c, v, d, f):
    return bylift(c, v, OPT, lambda x: c.i.call_value(d, [], c.rty), lambda x: c.i.call_value(f, [x], c.rty))


@reg("Option::is_some_and")
def is_some_and(c, v, f):
    return bylift(c, v, OPT, lambda x: FALSE, lambda x: c.i.call_value(f, [x], c.rty))


@reg("Option::filter")
def ofilter(c, v, f):
    def keep(x):
        k = c.i.call_value(f, [I().ref(x)], None)
        return ite(k, I().some(x), I().NONE)
    return bylift(c, v, OPT, lambda x: I().NONE, keep)


@reg("Option::ok_or")
def ok_or(c, v, e):
    return bylift(c, v, OPT, lambda x: I().err(e), lambda x: I().ok(x))


@reg("Option::ok_or_else")
def ok_or_else(c, v, f):
    return bylift(c, v, OPT, lambda x: I().err(c.i.call_value(f, [], None)), lambda x: I().ok(x))


@reg("Option::is_some")
def is_some(c, v):
    return c.i.variant_cond(deep(c, v), OPT, 1)


@reg("Option::is_none")
def is_none(c, v):
    return bnot(c.i.variant_cond(deep(c, v), OPT, 1))


@reg("Result::is_ok")
def is_ok(c, v):
    return bnot(c.i.variant_cond(deep(c, v), RES, 1))


@reg("Result::is_err")
def is_err(c, v):
    return c.i.variant_cond(deep(c, v), RES, 1)


@reg("Option::as_ref", "Option::as_deref", "Result::as_ref")
def as_ref(c, v):
    x = deep1(c, v)
    adt = OPT if "option" in c.d["id"] else RES
    wrap = (lambda y: y) if c.d["name"] == "as_deref" and False else I().ref
    if adt == OPT:
        return lift_opt(c, x, wrap)
    return bylift(c, x, RES, lambda y: I().ok(I().ref(y)), lambda y: I().err(I().ref(y)))


def deep1(c, v):
    while v.op in ("ref", "mref", "guard"):
        v = c.i.deref(v)
    return v


def lift_opt(c, x, f):
    """Some(y) -> Some(f y) without evaluating anything"""
    i = c.i
    if x.op == "struct":
        return x if x.args[1] == 0 else I().some(f(x.args[2]))
    if x.op == "ite":
        return ite(x.args[0], lift_opt(c, x.args[1], f), lift_opt(c, x.args[2], f))
    if x.op == "unk":
        return x
    return ite(i.variant_cond(x, OPT, 1), I().some(f(i.field(x, 1, 0))), I().NONE)


@reg("Option::as_mut", "Option::as_deref_mut")
def as_mut(c, v):
    i = c.i
    if v.op != "mref":
        return unk("as_mut")
    x = i.read_mref(v)
    cond = i.variant_cond(x, OPT, 1)
    return I().option(cond, i.mkmref(v.args[0], v.args[1:] + (mk("p_f", 1, 0),)))


@reg("Option::take")
def otake(c, v):
    x = c.i.deref(v)
    c.i.write_mref(v, I().NONE)
    return x


@reg("Option::replace")
def oreplace(c, v, y):
    x = c.i.deref(v)
    c.i.write_mref(v, I().some(y))
    return x


@reg("Option::insert")
def oinsert(c, v, y):
    c.i.write_mref(v, I().some(y))
    return c.i.mkmref(v.args[0], v.args[1:] + (mk("p_f", 1, 0),))


@reg("Option::get_or_insert_with")
def get_or_insert_with(c, v, f):
    x = c.i.deref(v)
    n = bylift(c, x, OPT, lambda y: I().some(c.i.call_value(f, [], None)), lambda y: I().some(y))
    c.i.write_mref(v, n)
    return c.i.mkmref(v.args[0], v.args[1:] + (mk("p_f", 1, 0),))


@reg("Option::cloned", "Option::copied")
def ocloned(c, v):
    return lift_opt(c, v, lambda y: c.i.clone_value(c.i.deref(y)))


@reg("Option::zip")
def ozip(c, a, b):
    return bylift(c, a, OPT, lambda x: I().NONE, lambda x: bylift(c, b, OPT, lambda y: I().NONE, lambda y: I().some(I().tup(x, y))))


@reg("Result::map")
def rmap(c, v, f):
    return bylift(c, v, RES, lambda x: I().ok(c.i.call_value(f, [x], None)), lambda x: I().err(x))


@reg("Result::map_err")
def rmap_err(c, v, f):
    return bylift(c, v, RES, lambda x: I().ok(x), lambda x: I().err(c.i.call_value(f, [x], None)))


@reg("Result::and_then")
def rand_then(c, v, f):
    return bylift(c, v, RES, lambda x: c.i.call_value(f, [x], c.rty), lambda x: I().err(x))


@reg("Result::map_or", "Result::map_or_else")
def rmap_or(c, v, d, f):
    if c.d["name"] == "map_or":
        return bylift(c, v, RES, lambda x: c.i.call_value(f, [x], c.rty), lambda x: d)
    return bylift(c, v, RES, lambda x: c.i.call_value(f, [x], c.rty), lambda x: c.i.call_value(d, [x], c.rty))


@reg("Result::ok")
def rok(c, v):
    return bylift(c, v, RES, lambda x: I().some(x), lambda x: I().NONE)


@reg("Result::err")
def rerr(c, v):
    return bylift(c, v, RES, lambda x: I().NONE, lambda x: I().some(x))


@reg("Result::unwrap_err", "Result::expect_err")
def unwrap_err(c, v, *m):
    c.i.require(c.i.variant_cond(v, RES, 1), "unwrap_err")
    return c.i.field(v, 1, 0)


CFL = "core::ops::control_flow::ControlFlow"


@reg("Try::branch")
def try_branch(c, v):
    adt = c.targs[0][1] if c.targs and c.targs[0][0] == "adt" else otype(c, v)
    if adt == OPT:
        return bylift(c, v, OPT, lambda x: mk("struct", CFL, 1, I().NONE), lambda x: mk("struct", CFL, 0, x))
    return bylift(c, v, RES, lambda x: mk("struct", CFL, 0, x), lambda x: mk("struct", CFL, 1, I().err(x)))


@reg("FromResidual::from_residual")
def from_residual(c, v):
    return v


@reg("Try::from_output")
def from_output(c, v):
    if c.rty and c.rty[0] == "adt" and c.rty[1] == OPT:
        return I().some(v)
    return I().ok(v)


# ------------------------------------------------------------------ Vec and slices
@reg("Vec::new", "VecDeque::new")
def vnew(c):
    return EMPTY


@reg("Vec::with_capacity", "VecDeque::with_capacity")
def vcap(c, n):
    return EMPTY


@reg("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def vres(c, v, *a):
    return UNITT


@reg("Vec::capacity")
def vcapacity(c, v):
    return atom(mk("var", "capacity"))


@reg("from_elem")
def from_elem(c, x, n):
    return smap(n, fresh(), x)


@reg("Vec::len", "slice::len", "array::len", "ExactSizeIterator::len", "VecDeque::len")
def vlen(c, v):
    s = deep(c, v)
    if s.op in ("itseq", "it"):
        s = c.i.to_seq(s)
    if s.op == "recv":
        return unk("len of receiver")
    return length(s)


@reg("Vec::is_empty", "slice::is_empty")
def vempty(c, v):
    return eq0(length(seqv(c, v)))


@reg("Vec::clear", "VecDeque::clear")
def vclear(c, v):
    c.i.write_mref(v, EMPTY)


@reg("Vec::push", "VecDeque::push_back")
def vpush(c, v, x):
    s = c.i.deref(v)
    if s.op == "unk":
        return UNITT
    c.i.write_mref(v, concat(s, seqlit(x)))


@reg("VecDeque::push_front")
def vpushf(c, v, x):
    c.i.write_mref(v, concat(seqlit(x), c.i.deref(v)))


@reg("Vec::pop", "VecDeque::pop_back")
def vpop(c, v):
    s = c.i.deref(v)
    n = length(s)
    e = c.i.sbool(eq0(n))
    if e is TRUE:
        return I().NONE
    last = nth(s, sub(n, ONE), c.i.dec)
    init = sslice(s, ZERO, sub(n, ONE))
    if s.op == "concat" and s.args[-1].op == "seqlit":
        init = concat(*s.args[:-1], seqlit(*s.args[-1].args[:-1]))
    c.i.write_mref(v, init if e is FALSE else ite(e, s, init))
    return I().option(bnot(e), last)


@reg("VecDeque::pop_front")
def vpopf(c, v):
    s = c.i.deref(v)
    n = length(s)
    e = c.i.sbool(eq0(n))
    if e is TRUE:
        return I().NONE
    c.i.write_mref(v, ite(e, s, sslice(s, ONE, sub(n, ONE))))
    return I().option(bnot(e), nth(s, ZERO, c.i.dec))


@reg("Vec::remove", "Vec::swap_remove")
def vremove(c, v, i):
    s = c.i.deref(v)
    n = length(s)
    c.i.require(lt(i, n), "remove index in bounds")
    x = nth(s, i, c.i.dec)
    if c.d["name"] == "swap_remove":
        t = sslice(upd(s, i, nth(s, sub(n, ONE), c.i.dec)), ZERO, sub(n, ONE))
    else:
        t = concat(sslice(s, ZERO, i), sslice(s, add(i, ONE), sub(sub(n, i), ONE)))
    c.i.write_mref(v, t)
    return x


@reg("Vec::insert")
def vinsert(c, v, i, x):
    s = c.i.deref(v)
    n = length(s)
    c.i.require(le(i, n), "insert index in bounds")
    c.i.write_mref(v, concat(sslice(s, ZERO, i), seqlit(x), sslice(s, i, sub(n, i))))


@reg("Vec::truncate")
def vtruncate(c, v, n):
    s = c.i.deref(v)
    l = length(s)
    k = c.i.sbool(le(n, l))
    c.i.write_mref(v, sslice(s, ZERO, ite(k, n, l)))


@reg("Vec::resize")
def vresize(c, v, n, x):
    s = c.i.deref(v)
    l = length(s)
    k = c.i.sbool(le(n, l))
    if k is TRUE:
        r = sslice(s, ZERO, n)
    else:
        r = concat(s, smap(sub(n, l), fresh(), x))
        if k is not FALSE:
            r = ite(k, sslice(s, ZERO, n), r)
    c.i.write_mref(v, r)


@reg("Vec::extend_from_slice", "Extend::extend", "Vec::append")
def vextend(c, v, w):
    s = c.i.deref(v)
    if c.d["name"] == "append":
        t = c.i.deref(w)
        c.i.write_mref(w, EMPTY)
    elif c.d["name"] == "extend":
        t = c.i.to_seq(c.i.to_iter(w))
        if t.op != "unk" and s is not None:
            t = map_seq(t, lambda x: c.i.clone_value(c.i.deref(x)) if x.op == "ref" else x)
        s = c.i.deref(v)
    else:
        t = deep(c, w)
    c.i.write_mref(v, concat(s, t) if t.op != "unk" else t)


@reg("Vec::drain")
def vdrain(c, v, r):
    s = c.i.deref(v)
    a, n = range_bounds(c, r, length(s))
    if a is None:
        return unk("drain")
    c.i.write_mref(v, concat(sslice(s, ZERO, a), sslice(s, add(a, n), sub(sub(length(s), a), n))))
    return itseq(sslice(s, a, n))


@reg("Vec::split_off")
def vsplit_off(c, v, at):
    s = c.i.deref(v)
    c.i.require(le(at, length(s)), "split_off in bounds")
    c.i.write_mref(v, sslice(s, ZERO, at))
    return sslice(s, at, sub(length(s), at))


@reg("slice::iter", "Vec::iter", "array::iter", "VecDeque::iter")
def siter(c, v):
    x = v
    while x.op in ("mref",):
        x = I().ref(c.i.read_mref(x))
    return c.i.iter_ref(x)


@reg("slice::iter_mut", "Vec::iter_mut")
def siter_mut(c, v):
    return c.i.iter_mut(v)


@reg("IntoIterator::into_iter")
def into_iter(c, v):
    return c.i.to_iter(v)


@reg("slice::first", "slice::last")
def sfirst(c, v):
    s = deep(c, v)
    n = length(s)
    e = c.i.sbool(eq0(n))
    if e is TRUE:
        return I().NONE
    x = nth(s, ZERO if c.d["name"] == "first" else sub(n, ONE), c.i.dec)
    return I().option(bnot(e), I().ref(x))


@reg("slice::get")
def sget(c, v, i):
    s = deep(c, v)
    if i.op == "poly":
        k = c.i.sbool(lt(i, length(s)))
        if k is FALSE:
            return I().NONE
        return I().option(k, I().ref(nth(s, i, c.i.dec)))
    a, n = range_bounds(c, i, length(s))
    if a is None:
        return unk("get range")
    k = c.i.sbool(le(add(a, n), length(s)))
    return I().option(k, I().ref(sslice(s, a, n)))


@reg("slice::get_mut")
def sget_mut(c, v, i):
    s = deep(c, v)
    if v.op != "mref" or i.op != "poly":
        return unk("get_mut")
    k = c.i.sbool(lt(i, length(s)))
    return I().option(k, c.i.mkmref(v.args[0], v.args[1:] + (mk("p_i", i),)))


def range_bounds(c, r, n):
    """(start, length) of a range index on a sequence of length n"""
    if r.op == "ref":
        r = r.args[0]
    if r.op != "struct":
        return None, None
    nm = r.args[0].rsplit("::", 1)[-1]
    a = r.args[2:]
    if nm == "Range":
        return a[0], sub(a[1], a[0])
    if nm == "RangeFrom":
        return a[0], sub(n, a[0])
    if nm == "RangeTo":
        return ZERO, a[0]
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return a[0], sub(add(a[1], ONE), a[0])
    if nm == "RangeToInclusive":
        return ZERO, add(a[0], ONE)
    return None, None


@reg("Index::index")
def index(c, v, i):
    s = v
    while s.op in ("ref", "mref", "arc", "guard"):
        s = c.i.deref(s)
    if not is_seq(s):
        return unk("index of %s" % s.op)
    if i.op == "poly":
        c.i.require(lt(i, length(s)), "index in bounds")
        return I().ref(nth(s, i, c.i.dec))
    a, n = range_bounds(c, i, length(s))
    if a is None:
        return unk("index")
    c.i.require(le(ZERO, n) if TM._may_neg(n) else TRUE, "slice start <= end")
    c.i.require(le(add(a, n), length(s)), "slice end in bounds")
    return I().ref(sslice(s, a, n))


@reg("IndexMut::index_mut")
def index_mut(c, v, i):
    if v.op != "mref":
        return unk("index_mut of %s" % v.op)
    s = c.i.read_mref(v)
    if s.op == "mref":
        v = s
        s = c.i.read_mref(v)
    if not is_seq(s):
        return unk("index_mut of %s" % s.op)
    if i.op == "poly":
        c.i.require(lt(i, length(s)), "index in bounds")
        return c.i.mkmref(v.args[0], v.args[1:] + (mk("p_i", i),))
    a, n = range_bounds(c, i, length(s))
    if a is None:
        return unk("index_mut")
    if a is ZERO and n is length(s):
        return v
    c.i.require(le(ZERO, n) if TM._may_neg(n) else TRUE, "slice start <= end")
    c.i.require(le(add(a, n), length(s)), "slice end in bounds")
    return c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", a, n),))


@reg("slice::split_at_mut")
def split_at_mut(c, v, mid):
    if v.op != "mref":
        return unk("split_at_mut")
    s = c.i.read_mref(v)
    if s.op == "mref":
        v = s
        s = c.i.read_mref(v)
    n = length(s)
    c.i.require(le(mid, n), "split in bounds")
    return I().tup(c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", ZERO, mid),)),
                   c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", mid, sub(n, mid)),)))


@reg("slice::split_at")
def split_at(c, v, mid):
    s = deep(c, v)
    n = length(s)
    c.i.require(le(mid, n), "split in bounds")
    return I().tup(I().ref(sslice(s, ZERO, mid)), I().ref(sslice(s, mid, sub(n, mid))))


@reg("slice::split_last", "slice::split_first")
def split_last(c, v):
    s = deep(c, v)
    n = length(s)
    e = c.i.sbool(eq0(n))
    if e is TRUE:
        return I().NONE
    m = sub(n, ONE)
    if c.d["name"] == "split_last":
        t = I().tup(I().ref(nth(s, m, c.i.dec)), I().ref(sslice(s, ZERO, m)))
    else:
        t = I().tup(I().ref(nth(s, ZERO, c.i.dec)), I().ref(sslice(s, ONE, m)))
    return I().option(bnot(e), t)


def chunk_geom(c, n, w):
    c.i.require(bnot(eq0(w)), "chunk size is not zero")
    q, _ = divmod_(add(n, sub(w, ONE)), w, c.i.dec)
    return q


@reg("slice::chunks_mut", "slice::chunks_exact_mut")
def chunks_mut(c, v, w):
    if v.op != "mref":
        return unk("chunks_mut")
    s = c.i.read_mref(v)
    if s.op == "mref":
        v = s
        s = c.i.read_mref(v)
    n = length(s)
    x = fresh()
    X = atom(x)
    if "exact" in c.d["name"]:
        c.i.require(bnot(eq0(w)), "chunk size is not zero")
        q, _ = divmod_(n, w, c.i.dec)
        return itseq(smap(q, x, c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", mul(w, X), w),))))
    q = chunk_geom(c, n, w)
    q2, rem = divmod_(n, w, c.i.dec)
    ln = w if rem is ZERO else imin(w, sub(n, mul(w, X)))
    return itseq(smap(q, x, c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", mul(w, X), ln),))))


@reg("slice::chunks", "slice::chunks_exact")
def chunks(c, v, w):
    s = deep(c, v)
    n = length(s)
    x = fresh()
    X = atom(x)
    if "exact" in c.d["name"]:
        c.i.require(bnot(eq0(w)), "chunk size is not zero")
        q, _ = divmod_(n, w, c.i.dec)
        return itseq(smap(q, x, I().ref(sslice(s, mul(w, X), w))))
    q = chunk_geom(c, n, w)
    q2, rem = divmod_(n, w, c.i.dec)
    ln = w if rem is ZERO else imin(w, sub(n, mul(w, X)))
    return itseq(smap(q, x, I().ref(sslice(s, mul(w, X), ln))))


@reg("slice::rchunks_mut")
def rchunks_mut(c, v, w):
    if v.op != "mref":
        return unk("rchunks_mut")
    s = c.i.read_mref(v)
    if s.op == "mref":
        v = s
        s = c.i.read_mref(v)
    n = length(s)
    x = fresh()
    X = atom(x)
    q = chunk_geom(c, n, w)
    end = sub(n, mul(w, X))
    st = ite(le(w, end), sub(end, w), ZERO)
    return itseq(smap(q, x, c.i.mkmref(v.args[0], v.args[1:] + (mk("p_s", st, imin(w, end)),))))


@reg("slice::windows")
def windows(c, v, w):
    s = deep(c, v)
    n = length(s)
    x = fresh()
    k = c.i.sbool(le(w, n))
    m = ite(k, add(sub(n, w), ONE), ZERO)
    return itseq(smap(m, x, I().ref(sslice(s, atom(x), w))))


@reg("slice::contains")
def contains(c, v, x):
    s = deep(c, v)
    y = deep(c, x)
    if s.op == "unk":
        return s
    w = fresh()
    return exists(length(s), w, c.i.call_eq(nth(s, atom(w)), y))


@reg("slice::swap", "Vec::swap")
def sswap(c, v, i, j):
    s = c.i.deref(v)
    n = length(s)
    c.i.require(band(lt(i, n), lt(j, n)), "swap in bounds")
    a, b = nth(s, i, c.i.dec), nth(s, j, c.i.dec)
    c.i.write_mref(v, upd(upd(s, i, b), j, a))


@reg("slice::reverse")
def sreverse(c, v):
    c.i.write_mref(v, rev(c.i.deref(v)))


@reg("slice::fill")
def sfill(c, v, x):
    n = length(c.i.deref(v))
    c.i.write_mref(v, smap(n, fresh(), x))


@reg("slice::copy_from_slice", "slice::clone_from_slice")
def copy_from(c, v, w):
    t = deep(c, w)
    s = c.i.deref(v)
    c.i.require(eq0(sub(length(s), length(t))), "same length")
    if v.op == "mref" and length(s) is not length(t) and v.args[1:] and v.args[-1].op == "p_s":
        pass
    c.i.write_mref(v, t)


@reg("slice::concat")
def sconcat(c, v):
    s = deep(c, v)
    if s.op == "seqlit":
        return concat(*[deep(c, x) for x in s.args])
    x = fresh()
    return flatten(length(s), x, deep(c, nth(s, atom(x))))


@reg("slice::repeat")
def srepeat(c, v, n):
    s = deep(c, v)
    return flatten(n, fresh(), s)


@reg("slice::starts_with", "slice::ends_with")
def starts_with(c, v, w):
    s, t = deep(c, v), deep(c, w)
    n, m = length(s), length(t)
    st = ZERO if c.d["name"] == "starts_with" else sub(n, m)
    return band(le(m, n), c.i.call_eq(sslice(s, st, m), t))


@reg("slice::as_ptr", "Vec::as_ptr")
def asptr(c, v):
    return unk("pointer")


# ------------------------------------------------------------------ iterators
PY = {}


def pyfn(name, f):
    t = PY.get(name)
    if t is None:
        t = PY[name] = mk("pyfn", f)
    return t


def lazy(kind):
    def f(c, it, *a):
        it = c.i.to_iter(it)
        if it.op == "unk":
            return it
        return adaptor(kind, it, *a)
    return f


for nm in ("map", "filter", "flat_map", "filter_map", "inspect"):
    B["Iterator::" + nm] = lazy(nm)
for nm in ("flatten", "rev", "enumerate"):
    B["Iterator::" + nm] = lazy(nm)


def pure(kind):
    """adaptors over pure sequences are computed at once"""
    def f(c, it, *a):
        it = c.i.to_iter(it)
        if it.op == "unk":
            return it
        r = adaptor(kind, it, *a)
        if it.op == "itseq":
            s = c.i.to_seq(r)
            return itseq(s) if s.op != "unk" else s
        return r
    return f


for nm in ("rev", "enumerate", "skip", "take", "step_by"):
    B["Iterator::" + nm] = pure(nm)


@reg("Iterator::zip", "zip", "IndexedParallelIterator::zip", "Itertools::zip_eq")
def zip_(c, a, b):
    a, b = c.i.to_iter(a), c.i.to_iter(b)
    if a.op == "unk" or b.op == "unk":
        return unk("zip")
    r = adaptor("zip", a, b)
    if a.op == "itseq" and b.op == "itseq":
        return itseq(c.i.to_seq(r))
    return r


@reg("Iterator::chain", "chain")
def chain(c, a, b):
    a, b = c.i.to_iter(a), c.i.to_iter(b)
    if a.op == "itseq" and b.op == "itseq":
        return itseq(concat(c.i.to_seq(a), c.i.to_seq(b)))
    return adaptor("chain", a, b)


@reg("Itertools::zip_longest")
def zip_longest(c, a, b):
    a, b = c.i.to_iter(a), c.i.to_iter(b)
    return itseq(c.i.to_seq(adaptor("zip_longest", a, b, mk("tag", "either::EitherOrBoth"))))


@reg("Itertools::cartesian_product", "cartesian_product")
def cart(c, a, b):
    sa, sb = c.i.to_seq(c.i.to_iter(a)), c.i.to_seq(c.i.to_iter(b))
    if sa.op == "unk" or sb.op == "unk":
        return unk("cartesian")
    x, y = fresh(), fresh()
    return itseq(flatten(length(sa), x, smap(length(sb), y, I().tup(nth(sa, atom(x)), nth(sb, atom(y))))))


@reg("Iterator::copied", "Iterator::cloned")
def copied(c, it):
    it = c.i.to_iter(it)
    g = lambda x: c.i.clone_value(c.i.deref(x))
    if it.op == "itseq":
        s = c.i.to_seq(it)
        return itseq(map_seq(s, g)) if s.op != "unk" else s
    return adaptor("map", it, pyfn("copied", lambda i, a: i.clone_value(i.deref(a[0]))))


@reg("Iterator::by_ref")
def by_ref(c, it):
    return it


@reg("Iterator::peekable", "Iterator::fuse", "IntoParallelIterator::into_par_iter", "Vec::into_par_iter")
def same(c, it):
    return c.i.to_iter(it)


@reg("IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut")
def par_iter(c, v):
    return c.i.iter_mut(v) if v.op == "mref" else c.i.iter_ref(v)


for nm in ("map", "filter", "flat_map", "filter_map", "flat_map_iter"):
    B["ParallelIterator::" + nm] = lazy(nm.replace("_iter", ""))
for nm in ("rev", "enumerate", "skip", "take"):
    B["IndexedParallelIterator::" + nm] = pure(nm)


@reg("repeat_with")
def repeat_with(c, f):
    return adaptor("repeat_with", f)


@reg("repeat")
def repeat(c, x):
    return adaptor("repeat", x)


@reg("repeat_n")
def repeat_n(c, x, n):
    return itseq(smap(n, fresh(), x))


@reg("once")
def once(c, x):
    return itseq(seqlit(x))


@reg("empty")
def empty(c):
    return itseq(EMPTY)


@reg("Iterator::next")
def next_(c, it):
    return c.i.it_next(it)


@reg("DoubleEndedIterator::next_back")
def next_back(c, it):
    return c.i.it_next(it, True)


def consumed(c, it, early=False):
    """iterator behind self (by value or &mut); early: it may be left before its end"""
    if it.op == "mref":
        x = c.i.read_mref(it)
        if x.op == "struct" and x.args[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive", "RangeFrom"):
            x = c.i.to_iter(x)
        if early and x.op in ("itseq", "it"):
            # what is left of it afterwards is not followed
            c.i.write_mref(it, unk("the rest of an iterator"))
            return x
        if x.op == "itseq":
            s, i, n = x.args
            c.i.write_mref(it, mk("itseq", s, n, n))
            return x
    return c.i.to_iter(it)


@reg("Iterator::for_each", "ParallelIterator::for_each")
def for_each(c, it, f):
    cl = c.i.cell(f)
    c.i.drive(consumed(c, it), lambda x: c.i.call_value(mk("mref", cl), [x], None))


@reg("Iterator::fold")
def fold(c, it, init, f):
    acc = c.i.cell(init)

    def step(x):
        v = c.i.call_value(f, [c.i.st.cells[acc], x], c.rty)
        c.i.st.cells[acc] = v
    c.i.drive(consumed(c, it), step)
    return c.i.st.cells.get(acc, unk("fold"))


@reg("Iterator::try_fold")
def try_fold(c, it, init, f):
    i = c.i
    t = c.rty
    if t is None or t[0] != "adt" or t[1] not in (OPT, RES):
        return unk("try_fold")
    adt = t[1]
    acc = i.cell(init)
    res = i.cell(UNITT)

    def g(x, leave):
        o = i.call_value(f, [i.st.cells[acc], x], t)
        k = i.variant_cond(o, adt, 1 if adt == OPT else 0)

        def go_on():
            i.st.cells[acc] = i.field(o, 1 if adt == OPT else 0, 0)
            return UNITT

        def stop():
            i.st.cells[res] = o
            return leave()
        i.branch(k, go_on, stop)
        i.st.cells[res] = I().some(i.st.cells[acc]) if adt == OPT else I().ok(i.st.cells[acc])
    i.st.cells[res] = I().some(init) if adt == OPT else I().ok(init)
    L.drive_until(i, consumed(c, it, True), g)
    return i.st.cells.get(res, unk("try_fold"))


@reg("Iterator::reduce")
def reduce(c, it, f):
    s = c.i.to_seq(consumed(c, it))
    if s.op == "unk":
        return s
    n = length(s)
    e = c.i.sbool(eq0(n))
    if e is TRUE:
        return I().NONE
    acc = c.i.cell(nth(s, ZERO, c.i.dec))

    def go():
        c.i.counted(sub(n, ONE), lambda k: c.i.st.cells.__setitem__(
            acc, c.i.call_value(f, [c.i.st.cells[acc], nth(s, add(k, ONE), c.i.dec)], None)))
        return I().some(c.i.st.cells[acc])
    return c.i.branch(bnot(e), go, lambda: I().NONE)


@reg("Iterator::sum", "Iterator::product", "Sum::sum", "Product::product", "ParallelIterator::sum")
def sum_(c, it):
    isum = c.d["name"] == "sum"
    s = c.i.to_seq(consumed(c, it))
    if s.op == "unk":
        return s
    if isum:
        return seqsum(c, s)
    return prod(map_seq(s, lambda x: deep(c, x)))


def seqsum(c, s):
    if s.op == "seqlit":
        return add(ZERO, *[deep(c, x) for x in s.args])
    if s.op == "concat":
        return add(*[seqsum(c, p) for p in s.args])
    if s.op == "flatten":
        v = fresh()
        return bigsum(s.args[0], v, seqsum(c, open_(s.args[1], atom(v))))
    if s.op == "ite":
        return ite(s.args[0], seqsum(c, s.args[1]), seqsum(c, s.args[2]))
    v = fresh()
    return bigsum(length(s), v, deep(c, nth(s, atom(v))))


@reg("Iterator::count", "ParallelIterator::count")
def count(c, it):
    s = c.i.to_seq(consumed(c, it))
    return s if s.op == "unk" else length(s)


@reg("Iterator::collect", "FromIterator::from_iter", "ParallelIterator::collect", "Itertools::collect_vec")
def collect(c, it):
    t = c.rty
    s = c.i.to_seq(consumed(c, it))
    if s.op == "unk" or t is None:
        return s
    if t[0] == "adt" and t[1] in (OPT, RES):
        adt = t[1]
        w = fresh()
        x = nth(s, atom(w))
        badc = c.i.variant_cond(x, adt, 0 if adt == OPT else 1)
        ex = exists(length(s), w, badc)
        good_ = map_seq(s, lambda y: c.i.field(y, good(None, adt), 0) or unk("collect"))
        if adt == OPT:
            return ite(ex, I().NONE, I().some(good_))
        fe = c.i.field(x, 1, 0)
        e = fe if fe is not None and w not in fe.fv else mk("osym", mk("first_err", s), None)
        return ite(ex, I().err(e), I().ok(good_))
    if t[0] == "adt" and t[1] == "alloc::string::String":
        return I().STR
    if t[0] == "adt" and (t[1] == "alloc::vec::Vec" or t[1].endswith("VecDeque") or t[1].endswith("::Arc")):
        return s
    if t[0] in ("param", "alias", "other"):
        return s
    return unk("collect into %s" % (t[1],))


@reg("Iterator::unzip")
def unzip(c, it):
    s = c.i.to_seq(consumed(c, it))
    if s.op == "unk":
        return I().tup(s, s)
    return I().tup(map_seq(s, lambda x: c.i.field(x, 0, 0)), map_seq(s, lambda x: c.i.field(x, 0, 1)))


@reg("Iterator::all", "Iterator::any", "ParallelIterator::all", "ParallelIterator::any")
def all_(c, it, f):
    isall = c.d["name"] == "all"
    acc = c.i.cell(TRUE if isall else FALSE)
    i = c.i

    def step(x):
        a = i.st.cells[acc]
        if isall:
            v = i.branch(a, lambda: i.call_value(f, [x], ("prim", "bool")), lambda: FALSE)
        else:
            v = i.branch(a, lambda: TRUE, lambda: i.call_value(f, [x], ("prim", "bool")))
        i.st.cells[acc] = v
    i.drive(consumed(c, it, True), step)
    return i.st.cells.get(acc, unk("all"))


def search(c, it, pred, val, default):
    i = c.i
    Dead = I().Dead
    lab = ("brk", object())
    saved, i.exits = i.exits, []
    base, live0 = i.st.facts, i.st.live
    cnt = i.cell(ZERO)

    def step(x):
        k = i.st.cells[cnt]
        cond = pred(x)

        def leave():
            i.exits.append((lab, i.st.live, val(x, k), i.st.copy()))
            raise Dead()
        i.branch(cond, leave, lambda: UNITT)
        i.st.cells[cnt] = add(k, ONE)
    try:
        i.drive(it, step)
        ends = [(i.st.live, default, i.st)]
    except Dead:
        ends = []
    mine = [(x[1], x[2], x[3]) for x in i.exits if x[0] == lab]
    i.exits = saved + [x for x in i.exits if x[0] != lab]
    if not mine:
        if not ends:
            raise Dead()
        return ends[0][1]
    return i.join(mine + ends, base, live0)


@reg("Iterator::position", "Iterator::find", "Iterator::find_map", "Iterator::rposition")
def position(c, it, f):
    n = c.d["name"]
    it = consumed(c, it, True)
    if n == "position":
        return search(c, it, lambda x: c.i.call_value(f, [x], None), lambda x, k: I().some(k), I().NONE)
    if n == "rposition":
        # the first from the end; its number is counted from the front
        total = vlen(c, it)
        if total.op == "unk":
            return unk(n)
        return search(c, B["Iterator::rev"](c, it), lambda x: c.i.call_value(f, [x], None), lambda x, k: I().some(sub(sub(total, ONE), k)), I().NONE)
    if n == "find":
        return search(c, it, lambda x: c.i.call_value(f, [I().ref(x)], None), lambda x, k: I().some(x), I().NONE)
    if n == "find_map":
        box = {}

        def pred(x):
            box["o"] = c.i.call_value(f, [x], None)
            return c.i.variant_cond(box["o"], OPT, 1)
        return search(c, it, pred, lambda x, k: I().some(c.i.field(box["o"], 1, 0)), I().NONE)
    return unk(n)


@reg("Iterator::last", "Iterator::nth")
def ilast(c, it, *a):
    if a and it.op == "mref":
        x = c.i.read_mref(it)
        s = c.i.to_seq(consumed(c, it))
        if x.op == "itseq":
            q, i, n = x.args
            c.i.write_mref(it, mk("itseq", q, imin(add(add(i, a[0]), ONE), n), n))
        else:
            c.i.write_mref(it, unk("the rest of an iterator"))
    else:
        s = c.i.to_seq(consumed(c, it))
    if s.op == "unk":
        return s
    n = length(s)
    j = a[0] if a else sub(n, ONE)
    k = c.i.sbool(lt(j, n)) if a else c.i.sbool(bnot(eq0(n)))
    if k is FALSE:
        return I().NONE
    return I().option(k, nth(s, j, c.i.dec))


@reg("Iterator::take_while", "Iterator::skip_while", "Iterator::map_while")
def take_while(c, it, f):
    return adaptor(c.d["name"], consumed(c, it, True), f)


@reg("RangeInclusive::new")
def range_inclusive(c, a, b):
    return mk("struct", "core::ops::range::RangeInclusive", 0, a, b)


@reg("Iterator::scan")
def scan(c, it, init, f):
    return adaptor("scan", consumed(c, it, True), f, init)


@reg("Iterator::max", "Iterator::min")
def imaxmin(c, it):
    s = c.i.to_seq(consumed(c, it))
    if s.op == "seqlit" and s.args:
        r = deep(c, s.args[0])
        for x in s.args[1:]:
            y = deep(c, x)
            r = imax(r, y) if c.d["name"] == "max" else imin(r, y)
        return I().some(r)
    return unk("max of sequence")


@reg("Iterator::eq", "Iterator::ne")
def ieq(c, a, b):
    sa, sb = c.i.to_seq(c.i.to_iter(a)), c.i.to_seq(c.i.to_iter(b))
    r = c.i.call_eq(map_seq(sa, lambda x: deep(c, x)), map_seq(sb, lambda x: deep(c, x)))
    return r if c.d["name"] == "eq" else bnot(r)


@reg("Iterator::size_hint")
def size_hint(c, it):
    return unk("size_hint")


# ------------------------------------------------------------------ functions
@reg("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fn_call(c, f, args):
    a = args
    if a.op != "tup":
        return unk("call arguments")
    return c.i.call_value(f, list(a.args), c.rty, c.e)


# ------------------------------------------------------------------ threads
SCOPE = mk("scope")


@reg("in_place_scope", "scope", "in_place_scope_fifo", "scope_fifo")
def scope(c, f):
    return c.i.call_value(f, [SCOPE], c.rty)


@reg("Scope::spawn", "Scope::spawn_fifo", "ScopeFifo::spawn_fifo")
def spawn(c, s, f):
    t = c.i.p
    nparams = None
    if f.op == "closure":
        nparams = len(c.i.p.fns[f.args[0]]["thir"]["params"]) - 1
    r = c.i.call_value(f, [I().ref(SCOPE)] if nparams != 0 else [], None)
    return UNITT if c.rty == ("tuple", ()) else mk("struct", "std::thread::JoinHandle", 0, r)


@reg("join")
def rjoin(c, a, b):
    x = c.i.call_value(a, [], None)
    return I().tup(x, c.i.call_value(b, [], None))


@reg("ScopedJoinHandle::join", "JoinHandle::join")
def hjoin(c, h):
    return I().ok(h.args[2]) if h.op == "struct" else unk("join")


@reg("ThreadPool::install")
def install(c, p, f):
    return c.i.call_value(f, [], c.rty)


# channels: one cell per allocation site holds the messages of the whole family
def chan_cell(i, alloc):
    key = mk("chan", alloc.args[0])
    if key not in i.st.cells:
        i.st.cells[key] = EMPTY
    i.chankeys[key] = 1
    return key


@reg("unbounded", "channel")
def unbounded(c):
    a = c.i.alloc_id("chan")
    chan_cell(c.i, a)
    return I().tup(mk("send", a), mk("recv", a))


def over(s, f):
    """the sequence of f(x) for the elements x of s"""
    if s.op == "seqlit":
        return seqlit(*[f(x) for x in s.args])
    if s.op == "concat":
        return concat(*[over(x, f) for x in s.args])
    if s.op == "flatten":
        v = fresh()
        return flatten(s.args[0], v, over(open_(s.args[1], atom(v)), f))
    if s.op == "smap":
        v = fresh()
        return smap(s.args[0], v, f(open_(s.args[1], atom(v))))
    if s.op == "ite":
        return ite(s.args[0], over(s.args[1], f), over(s.args[2], f))
    return unk("elements of %s" % s.op)


@reg("slice::sort_by_key", "slice::sort_by", "slice::sort_unstable_by_key", "slice::sort_unstable_by", "slice::sort", "slice::sort_unstable", "slice::sort_by_cached_key")
def sort_(c, m, *f):
    if m.op != "mref":
        return unk("sort of %s" % m.op)
    s = c.i.read_mref(m)
    s = c.i.to_seq(s) if s.op in ("itseq", "it") else s
    if c.i.sorts is not None and is_seq(s):
        key = None
        if not f:
            def key(x):
                return x
        elif c.d["name"].endswith(("by_key", "by_cached_key")):
            def key(x):
                return c.i.call_value(f[0], [I().ref(x)], None)
        src = s.args[0] if s.op == "perm" else s
        if s.op == "perm" and src not in [x[0] for x in c.i.sorts]:
            c.i.sorts.append((src, key and over(src, key), "%s %s" % (c.i.where(), (c.e or {}).get("sp", ""))))
    c.i.write_mref(m, permuted(s))
    return UNITT


@reg("bounded", "sync_channel")
def bounded(c, n):
    a = c.i.alloc_id("chan")
    chan_cell(c.i, a)
    return I().tup(mk("send", a), mk("recv", a))


@reg("Sender::send")
def send(c, s, v):
    s = deep(c, s)
    if s.op != "send":
        c.i.poison("send on %s" % s.op)
        return unk("send on %s" % s.op)
    a = s.args[0]
    key = chan_cell(c.i, a)
    c.i.st.cells[key] = concat(c.i.st.cells[key], seqlit(I().tup(mk("tup", *a.args[1]), v)))
    return I().ok(UNITT)


@reg("Receiver::iter", "Receiver::into_iter", "Receiver::try_iter")
def rx_iter(c, r):
    r = deep(c, r)
    if r.op != "recv":
        return unk("iter on %s" % r.op)
    # concurrent senders: the order of arrival is not known
    return itseq(permuted(c.i.chan_msgs(r)))


def permuted(s):
    return mk("perm", s) if is_seq(s) and s.op != "perm" and (const_val(length(s)) is None or const_val(length(s)) > 1) else s


@reg("Receiver::recv", "Receiver::try_recv")
def rx_recv(c, r):
    return unk("recv")


def chan_msgs(self, r):
    a = r.args[0]
    key = chan_cell(self, a)
    M = self.st.cells.get(key)
    me = mk("tup", *a.args[1])

    def pick(M):
        if M.op == "seqlit":
            out = []
            for m in M.args:
                cnd = eq(m.args[0], me) if me.args else TRUE
                out.append(ite(cnd, seqlit(m.args[1]), EMPTY))
            return concat(*out)
        if M.op == "concat":
            return concat(*[pick(x) for x in M.args])
        if M.op == "flatten":
            v = fresh()
            return flatten(M.args[0], v, pick(open_(M.args[1], atom(v))))
        if M.op == "smap":
            v = fresh()
            return flatten(M.args[0], v, pick(seqlit(open_(M.args[1], atom(v)))))
        if M.op == "ite":
            return ite(M.args[0], pick(M.args[1]), pick(M.args[2]))
        if M.op == "unk":
            return M
        return unk("messages")
    return pick(M)
