"""Loops: every loop is replaced by the closed form of its recurrences.

The body is evaluated for one arbitrary iteration k from a state in which all
places it may change hold arbitrary values; the resulting next-iteration terms
are recurrences, which are solved symbolically (sums, products, conjunctions,
appends, scatters, overwrites, odometer steps).  What cannot be solved becomes
`unk` and everything computed from it is reported as undecided."""
import term as TM
from term import *
from decide import decide, simp

LEAFCON = {"struct", "tup", "itseq", "it", "mref", "ref", "p_s", "p_i", "seqlit"}


# ------------------------------------------------------------------ iterators
def itseq(seq, i=ZERO, n=None):
    return mk("itseq", seq, i, length(seq) if n is None else n)


def adaptor(kind, *a):
    return mk("it", mk("tag", kind), *a)


def map_seq(s, f):
    """elementwise image of a sequence under a pure python function"""
    if s.op == "unk":
        return s
    if s.op == "seqlit":
        return seqlit(*[f(x) for x in s.args])
    if s.op == "ite":
        return ite(s.args[0], map_seq(s.args[1], f), map_seq(s.args[2], f))
    v = fresh()
    return smap(length(s), v, f(nth(s, atom(v))))


def fail(self, why):
    """control cannot be followed any further: everything is unknown from here"""
    self.poison(why)
    if self.frames:
        # whatever leaves from inside it (return, break, ?) is a possible outcome too
        s = self.st.copy()
        s.live = band(self.st.live, unk("control lost: " + why))
        self.exits.append((self.frames[-1].ret, s.live, unk(why), s))
    return unk(why)


def to_iter(self, v):
    """the iterator that IntoIterator::into_iter yields for a value"""
    from interp import ref
    op = v.op
    if op in ("itseq", "it", "unk"):
        return v
    if is_seq(v):
        return itseq(v)
    if op == "ref":
        x = v.args[0]
        if x.op in ("itseq", "it"):
            return x
        return self.iter_ref(v)
    if op == "mref":
        x = self.read_mref(v)
        if x.op == "struct" and x.args[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive", "RangeFrom"):
            x = self.to_iter(x)
            self.write_mref(v, x)
        if x.op in ("itseq", "it") or (x.op == "struct" and self.has_next(x)):
            return mk("it", mk("tag", "by_ref"), v)
        return self.iter_mut(v)
    if op == "struct":
        name = v.args[0].rsplit("::", 1)[-1]
        if name == "Range":
            a, b = v.args[2:4]
            n = sub(b, a)
            c = self.sbool(le(a, b))
            n = n if c is TRUE else ite(c, n, ZERO)
            w = fresh()
            return itseq(smap(n, w, add(a, atom(w))))
        if name == "RangeInclusive":
            a, b = v.args[2:4]
            c = self.sbool(le(a, add(b, ONE)))
            n = add(sub(b, a), ONE)
            n = n if c is TRUE else ite(c, n, ZERO)
            w = fresh()
            return itseq(smap(n, w, add(a, atom(w))))
        if name == "RangeFrom":
            return adaptor("from", v.args[2])
        if name == "Option":
            return itseq(seqlit(v.args[2]) if v.args[1] == 1 else EMPTY)
        if self.has_next(v):
            return v
    if op == "recv":
        return itseq(self.chan_msgs(v))
    if op == "ite":
        return ite(v.args[0], self.to_iter(v.args[1]), self.to_iter(v.args[2]))
    if op == "isome":
        pass
    return self.unknown("iteration over %s" % op)


def has_next(self, v):
    return self.next_impl(v) is not None


def next_impl(self, v):
    t = self.ctype_of(v)
    for imp in self.p.impl_by_trait.get("core::iter::traits::iterator::Iterator", []):
        if self.p.unify(imp["self"], t, {}):
            return self.p.fn_of_impl(imp, "next")
    return None


def iter_ref(self, v):
    """elements by shared reference"""
    from interp import ref
    x = v
    while x.op in ("ref", "mref", "arc", "guard"):
        x = self.deref(x)
    if not is_seq(x):
        if x.op == "unk":
            return x
        return self.unknown("iteration over &%s" % x.op)
    return itseq(map_seq(x, ref))


def iter_mut(self, v):
    if v.op == "mref":
        x = self.read_mref(v)
        if x.op == "mref":
            return self.iter_mut(x)
        if is_seq(x):
            w = fresh()
            return itseq(smap(length(x), w, self.mkmref(v.args[0], v.args[1:] + (mk("p_i", atom(w)),))))
    return self.unknown("iter_mut on %s" % v.op)


def to_seq(self, it):
    """the whole remaining sequence of an iterator"""
    op = it.op
    if op == "unk":
        return it
    if op == "itseq":
        s, i, n = it.args
        if i is ZERO and n is length(s):
            return s
        return sslice(s, i, sub(n, i))
    if op == "ite":
        return ite(it.args[0], self.to_seq(it.args[1]), self.to_seq(it.args[2]))
    kind = it.args[0].args[0] if op == "it" else None
    if kind == "zip":
        a, b = self.to_iter(it.args[1]), self.to_iter(it.args[2])
        from interp import tup
        fa, fb = self.is_from(a), self.is_from(b)
        if fa is not None and fb is None:
            sb = self.to_seq(b)
            if sb.op == "unk":
                return sb
            v = fresh()
            return smap(length(sb), v, tup(add(fa, atom(v)), nth(sb, atom(v), self.dec)))
        if fb is not None and fa is None:
            sa = self.to_seq(a)
            if sa.op == "unk":
                return sa
            v = fresh()
            return smap(length(sa), v, tup(nth(sa, atom(v), self.dec), add(fb, atom(v))))
        sa, sb = self.to_seq(a), self.to_seq(b)
        if sa.op == "unk" or sb.op == "unk":
            return unk("zip")
        return self.zip_seq(sa, sb, tup)
    if kind == "enumerate":
        from interp import tup
        s = self.to_seq(self.to_iter(it.args[1]))
        if s.op == "unk":
            return s
        if s.op == "seqlit":
            return seqlit(*[tup(const(i), x) for i, x in enumerate(s.args)])
        v = fresh()
        return smap(length(s), v, tup(atom(v), nth(s, atom(v), self.dec)))
    if kind == "rev":
        s = self.to_seq(self.to_iter(it.args[1]))
        return s if s.op == "unk" else rev(s)
    if kind == "skip":
        s = self.to_seq(self.to_iter(it.args[1]))
        if s.op == "unk":
            return s
        n, l = it.args[2], length(s)
        c = self.sbool(le(n, l))
        st = n if c is TRUE else ite(c, n, l)
        return sslice(s, st, sub(l, st))
    if kind == "take":
        inner = self.to_iter(it.args[1])
        n = it.args[2]
        f0 = self.is_from(inner)
        if f0 is not None:
            v = fresh()
            return smap(n, v, add(f0, atom(v)))
        if inner.op == "it" and inner.args[0].args[0] in ("repeat", "repeat_with"):
            return self.gen_seq(inner, n)
        s = self.to_seq(inner)
        if s.op == "unk":
            return s
        l = length(s)
        c = self.sbool(le(n, l))
        m = n if c is TRUE else ite(c, n, l)
        return sslice(s, ZERO, m)
    if kind == "step_by":
        s = self.to_seq(self.to_iter(it.args[1]))
        if s.op == "unk":
            return s
        st = it.args[2]
        q, _ = divmod_(add(length(s), sub(st, ONE)), st, self.dec)
        v = fresh()
        return smap(q, v, nth(s, mul(st, atom(v)), self.dec))
    if kind == "chain":
        a, b = self.to_seq(self.to_iter(it.args[1])), self.to_seq(self.to_iter(it.args[2]))
        return concat(a, b)
    if kind == "zip_longest":
        sa, sb = self.to_seq(self.to_iter(it.args[1])), self.to_seq(self.to_iter(it.args[2]))
        if sa.op == "unk" or sb.op == "unk":
            return unk("zip_longest")
        return self.zip_longest_seq(sa, sb, it.args[3].args[0])
    if kind == "chunks":
        return self.to_seq(it.args[1])
    # anything else: run the pipeline, appending every element it yields
    c = self.cell(EMPTY)

    def push(x):
        self.st.cells[c] = concat(self.st.cells[c], seqlit(x))
    try:
        self.drive(it, push)
    finally:
        pass
    r = self.st.cells.pop(c, None)
    return r if r is not None else unk("to_seq")


def is_from(self, it):
    if it.op == "it" and it.args[0].args[0] == "from":
        return it.args[1]
    return None


def gen_seq(self, it, n):
    """first n elements of an endless generator"""
    kind = it.args[0].args[0]
    if kind == "repeat":
        return smap(n, fresh(), it.args[1])
    c = self.cell(EMPTY)

    def step(k):
        x = self.call_value(it.args[1], [], None)
        self.st.cells[c] = concat(self.st.cells[c], seqlit(x))
    self.counted(n, step)
    return self.st.cells.pop(c)


def zip_seq(self, a, b, tup):
    la, lb = length(a), length(b)
    if a.op == "seqlit" and b.op == "seqlit":
        return seqlit(*[tup(x, y) for x, y in zip(a.args, b.args)])
    c = self.sbool(le(la, lb))
    n = la if c is TRUE else lb if c is FALSE else ite(c, la, lb)
    v = fresh()
    old = self.st.facts
    self.st.facts = old + (lt(atom(v), n),)
    r = smap(n, v, tup(nth(a, atom(v), self.dec), nth(b, atom(v), self.dec)))
    self.st.facts = old
    return r


def zip_longest_seq(self, a, b, adt):
    """EitherOrBoth: Both(l, r) = 0, Left = 1, Right = 2"""
    la, lb = length(a), length(b)
    v = fresh()
    i = atom(v)
    inl, inr = lt(i, la), lt(i, lb)
    n = imax(la, lb)
    both = mk("struct", adt, 0, nth(a, i), nth(b, i))
    left = mk("struct", adt, 1, nth(a, i))
    right = mk("struct", adt, 2, nth(b, i))
    cn = const_val(n)
    if cn is not None:
        out = []
        for k in range(cn):
            x = const(k)
            l, r = lt(x, la), lt(x, lb)
            t = mk("struct", adt, 0, nth(a, x), nth(b, x)) if (l, r) == (TRUE, TRUE) else \
                mk("struct", adt, 1, nth(a, x)) if l is TRUE else mk("struct", adt, 2, nth(b, x))
            out.append(t)
        return seqlit(*out)
    return smap(n, v, ite(band(inl, inr), both, ite(inl, left, right)))


def drive(self, it, f):
    """evaluate f on every element the iterator yields, in order"""
    from interp import Dead, ref, tup
    op = it.op
    if op == "unk":
        return fail(self, "iteration over unknown")
    if op == "ite":
        c = it.args[0]
        return self.branch(c, lambda: self.drive(it.args[1], f) and UNITT or UNITT, lambda: self.drive(it.args[2], f) and UNITT or UNITT)
    if op == "itseq":
        s, i, n = it.args
        if i is ZERO and n is length(s):
            return self.drive_seq(s, f)
        return self.counted(sub(n, i), lambda k: f(nth(s, add(i, k), self.dec)))
    if op == "struct":
        return self.drive_user(it, f)
    if op != "it":
        return fail(self, "iteration over %s" % op)
    kind = it.args[0].args[0]
    if kind == "map":
        return self.drive(self.to_iter(it.args[1]), lambda x: f(self.call_value(it.args[2], [x], None)))
    if kind == "inspect":
        def g(x):
            self.call_value(it.args[2], [ref(x)], None)
            f(x)
        return self.drive(self.to_iter(it.args[1]), g)
    if kind == "filter":
        def g(x):
            c = self.call_value(it.args[2], [ref(x)], None)
            self.branch(c, lambda: (f(x), UNITT)[1], lambda: UNITT)
        return self.drive(self.to_iter(it.args[1]), g)
    if kind == "filter_map":
        def g(x):
            o = self.call_value(it.args[2], [x], None)
            c = self.variant_cond(o, "core::option::Option", 1)
            self.branch(c, lambda: (f(self.field(o, 1, 0)), UNITT)[1], lambda: UNITT)
        return self.drive(self.to_iter(it.args[1]), g)
    if kind == "skip_while":
        on = self.cell(TRUE)

        def g(x):
            def test():
                c = self.call_value(it.args[2], [ref(x)], None)
                self.st.cells[on] = self.sbool(c)
                return UNITT
            self.branch(self.st.cells[on], test, lambda: UNITT)
            self.branch(self.st.cells[on], lambda: UNITT, lambda: (f(x), UNITT)[1])
        return self.drive(self.to_iter(it.args[1]), g)
    if kind == "take_while":
        def g(x, leave):
            c = self.call_value(it.args[2], [ref(x)], None)
            self.branch(c, lambda: (f(x), UNITT)[1], leave)
        return drive_until(self, it.args[1], g)
    if kind in ("map_while", "scan"):
        state = [mk("mref", self.cell(it.args[3]))] if kind == "scan" else []

        def g(x, leave):
            o = self.call_value(it.args[2], state + [x], None)
            c = self.variant_cond(o, "core::option::Option", 1)
            self.branch(c, lambda: (f(self.field(o, 1, 0)), UNITT)[1], leave)
        return drive_until(self, it.args[1], g)
    if kind == "flat_map":
        return self.drive(self.to_iter(it.args[1]),
                          lambda x: self.drive(self.to_iter(self.call_value(it.args[2], [x], None)), f))
    if kind == "flatten":
        return self.drive(self.to_iter(it.args[1]), lambda x: self.drive(self.to_iter(x), f))
    if kind == "chain":
        self.drive(self.to_iter(it.args[1]), f)
        return self.drive(self.to_iter(it.args[2]), f)
    if kind == "by_ref":
        m = it.args[1]
        inner = self.read_mref(m)
        if inner.op == "itseq":
            s, i, n = inner.args
            self.write_mref(m, mk("itseq", s, n, n))
            return self.drive(inner, f)
        return self.drive_user_ref(m, f)
    if kind in ("zip", "enumerate", "rev", "skip", "take", "step_by", "zip_longest", "chunks"):
        return self.drive_seq(self.to_seq(it), f)
    return fail(self, "iterator %s" % kind)


UNITT = mk("tup")


def drive_until(self, it, g):
    """evaluate g on the elements of an iterator, in order, until g leaves"""
    from interp import Dead
    lab = ("brk", object())
    saved, self.exits = self.exits, []
    base, live0 = self.st.facts, self.st.live

    def leave():
        self.exits.append((lab, self.st.live, UNITT, self.st.copy()))
        raise Dead()
    try:
        self.drive(self.to_iter(it), lambda x: g(x, leave))
        ends = [(self.st.live, UNITT, self.st)]
    except Dead:
        ends = []
    mine = [(x[1], x[2], x[3]) for x in self.exits if x[0] == lab]
    self.exits = saved + [x for x in self.exits if x[0] != lab]
    if not mine:
        if not ends:
            raise Dead()
        return
    self.join(mine + ends, base, live0)


def drive_seq(self, s, f):
    op = s.op
    if op == "unk":
        return fail(self, "iteration over unknown")
    if op == "seqlit":
        for x in s.args:
            f(x)
        return
    if op == "concat":
        for p in s.args:
            self.drive_seq(p, f)
        return
    if op == "flatten":
        n, lam = s.args
        return self.counted(n, lambda k: self.drive_seq(open_(lam, k), f))
    if op == "perm":
        # in some order: what the loop does must not depend on it
        before = dict(self.st.cells)
        nex = len(self.exits)
        self.drive_seq(s.args[0], f)
        for c, v in list(self.st.cells.items()):
            if c in before and v is not before[c] and not commutes(before[c], v):
                self.st.cells[c] = self.unknown("order of a rearranged sequence")
        if len(self.exits) > nex:
            return fail(self, "leaving a loop over a rearranged sequence")
        return
    if op == "filt":
        base, cond, val = s.args

        def g(k):
            x = open_(cond, k)
            self.branch(x, lambda: (f(open_(val, k)), UNITT)[1], lambda: UNITT)
        return self.counted(base, g)
    if op == "ite":
        return self.branch(s.args[0], lambda: (self.drive_seq(s.args[1], f), UNITT)[1],
                           lambda: (self.drive_seq(s.args[2], f), UNITT)[1])
    return self.counted(length(s), lambda k: f(nth(s, k, self.dec)))


def commutes(old, new):
    """new is old with contributions added, in whatever order"""
    while new.op == "scat" and new.args[1] == "add" or new.op == "scat" and isinstance(new.args[1], Term) and new.args[1].args == ("add",):
        if new is old:
            return True
        new = new.args[0]
    return new is old


def drive_user(self, v, f):
    """an iterator implemented in the crate: call its next until it says None"""
    c = self.cell(v)
    r = self.drive_user_ref(mk("mref", c), f)
    return r


def drive_user_ref(self, m, f):
    lab = ("brk", object())

    def body(k):
        o = self.it_next(m)
        c = self.variant_cond(o, "core::option::Option", 1)

        def some_():
            f(self.field(o, 1, 0))
            return UNITT

        def none_():
            from interp import Dead
            self.exits.append((lab, self.st.live, UNITT, self.st.copy()))
            raise Dead()
        self.branch(c, some_, none_)
    self.breakable(lab, lambda: self.summarise(None, body))


def breakable(self, lab, run):
    from interp import Dead
    saved, self.exits = self.exits, []
    base, live0 = self.st.facts, self.st.live
    try:
        run()
        ends = [(self.st.live, UNITT, self.st)]
    except Dead:
        ends = []
    mine = [(x[1], x[2], x[3]) for x in self.exits if x[0] == lab]
    self.exits = saved + [x for x in self.exits if x[0] != lab]
    if not mine:
        if not ends:
            raise Dead()
        return ends[0][1]
    return self.join(mine + ends, base, live0)


def it_next(self, m, back=False):
    """Iterator::next on a mutable reference to an iterator value"""
    from interp import option, some, NONE, tup
    if m.op != "mref":
        self.poison("next on %s" % m.op)
        return self.unknown("next on %s" % m.op)
    v = self.read_mref(m)
    if v.op == "mref":
        return self.it_next(v, back)
    if is_seq(v):
        v = itseq(v)
    if v.op == "struct":
        nm = v.args[0].rsplit("::", 1)[-1]
        if nm == "Range":
            a, b = v.args[2:4]
            c = self.sbool(lt(a, b))
            if back:
                l = sub(b, ONE)
                self.write_mref(m, mk("struct", v.args[0], v.args[1], a, ite(c, l, b)))
                return option(c, l)
            self.write_mref(m, mk("struct", v.args[0], v.args[1], ite(c, add(a, ONE), a), b))
            return option(c, a)
        if nm in ("RangeInclusive", "RangeFrom"):
            v = self.to_iter(v)
            self.write_mref(m, v)
    if v.op == "struct":
        f = self.next_impl(v) if not back else None
        if f is not None:
            return self.call_fn(f, [m], (), None, None)
    if v.op == "it":
        kind = v.args[0].args[0]
        if kind == "from":
            self.write_mref(m, mk("it", v.args[0], add(v.args[1], ONE)))
            return some(v.args[1])
        if kind == "map" and v.args[1].op in ("itseq",):
            c = self.cell(v.args[1])
            o = self.it_next(mk("mref", c), back)
            self.write_mref(m, mk("it", v.args[0], self.st.cells[c], v.args[2]))
            cnd = self.variant_cond(o, "core::option::Option", 1)
            return self.branch(cnd, lambda: some(self.call_value(v.args[2], [self.field(o, 1, 0)], None)), lambda: NONE)
        if kind == "by_ref":
            return self.it_next(v.args[1], back)
        s = self.to_seq(v)
        v = itseq(s) if s.op != "unk" else s
    if v.op == "ite":
        c, a, b = v.args
        ca, cb = self.cell(a), self.cell(b)
        oa = self.it_next(mk("mref", ca), back)
        ob = self.it_next(mk("mref", cb), back)
        self.write_mref(m, ite(c, self.st.cells[ca], self.st.cells[cb]))
        return ite(c, oa, ob)
    if v.op != "itseq":
        if v.op != "unk" and not back:
            f = self.next_impl(v)
            if f is not None:
                return self.call_fn(f, [m], (), None, None)
        self.write_mref(m, self.unknown("next on %s" % v.op))
        if v.op not in ("osym", "it"):
            self.poison("next on %s" % v.op)
        return self.unknown("next on %s" % v.op)
    s, i, n = v.args
    c = self.sbool(lt(i, n))
    if back:
        self.write_mref(m, mk("itseq", s, i, ite(c, sub(n, ONE), n)))
        if c is FALSE:
            return NONE
        return option(c, nth(s, sub(n, ONE), self.dec))
    self.write_mref(m, mk("itseq", s, ite(c, add(i, ONE), i), n))
    if c is FALSE:
        return NONE
    return option(c, nth(s, i, self.dec))


# ------------------------------------------------------------------ for / loop
def for_loop(self, e):
    try:
        arm = e["arms"][0]
        sc = arm["body"]
        if sc["k"] != "Scope" or sc["v"]["k"] != "Loop":
            return None
        label = sc["scope"]
        blk = sc["v"]["body"]["b"]
        inner = blk["stmts"][0]["e"] if blk["stmts"] else blk["e"]
        while inner["k"] == "Scope":
            inner = inner["v"]
        some_arm = [a for a in inner["arms"] if a["pat"]["k"] == "Variant" and a["pat"]["variant"] == 1][0]
    except (KeyError, IndexError):
        return None
    call = e["v"]
    x = self.ev(call["args"][0])
    it = None
    t = self.ctype_of(x)
    if x.op == "struct" or (x.op in ("ref", "mref") and t[2][0] == "adt" and t[2][1] in self.p.adts):
        # a user type: its own IntoIterator / Iterator implementation decides
        r = self.call(call["callee"], [x], call)
        it = self.to_iter(r)
    else:
        it = self.to_iter(x)
    pat = some_arm["pat"]["fs"][0][1]
    lab_b, lab_c = ("brk", label), ("cont", label)

    def f(v):
        def run():
            binds = []
            self.pat(pat, ("v", v), binds)
            self.do_binds(binds)
            self.ev(some_arm["body"])
        self.breakable(lab_c, run)
    self.breakable(lab_b, lambda: self.drive(it, f))
    return UNITT


def loop_expr(self, v, scope):
    lab_b, lab_c = ("brk", scope), ("cont", scope)

    def body(k):
        self.breakable(lab_c, lambda: self.ev(v["body"]))
    return self.breakable(lab_b, lambda: self.summarise(None, body))


# ------------------------------------------------------------------ counted
UNROLL = 6


def counted(self, n, body):
    self.loops += 1
    if n.op != "poly":
        return fail(self, "loop bound")
    cn = const_val(n)
    if cn is None:
        # is the bound decided by the facts?
        n2 = simp(n, self.st.facts)
        cn = const_val(n2)
        if cn is not None:
            n = n2
    if cn is not None and cn <= UNROLL:
        for i in range(cn):
            self.loopvars.append(const(i))
            try:
                body(const(i))
            finally:
                self.loopvars.pop()
        return
    return self.summarise(n, body)


# ------------------------------------------------------------------ leaves
def diff(a, b, path, out):
    """places (paths) where constructor terms a and b differ"""
    if a is b:
        return
    if a.op == b.op and a.op in LEAFCON and len(a.args) == len(b.args):
        if a.op == "struct" and a.args[:2] == b.args[:2]:
            for i in range(2, len(a.args)):
                diff(a.args[i], b.args[i], path + (i,), out)
            return
        if a.op == "mref" and a.args[0] == b.args[0] and all(x.op == y.op for x, y in zip(a.args[1:], b.args[1:])):
            for i in range(1, len(a.args)):
                diff(a.args[i], b.args[i], path + (i,), out)
            return
        if a.op == "it" and a.args[0] is b.args[0]:
            for i in range(1, len(a.args)):
                diff(a.args[i], b.args[i], path + (i,), out)
            return
        if a.op in ("tup", "p_s", "p_i", "ref", "seqlit"):
            for i in range(len(a.args)):
                diff(a.args[i], b.args[i], path + (i,), out)
            return
        if a.op == "itseq":
            if a.args[0] is b.args[0]:
                for i in range(1, 3):
                    diff(a.args[i], b.args[i], path + (i,), out)
                return
    # a sequence with one element replaced is a different leaf than its length
    out.append((path, a, b))


def leaf_get(t, path):
    for i in path:
        if i >= len(t.args):
            return None
        t = t.args[i]
    return t


def leaf_set(t, path, v):
    if not path:
        return v
    a = list(t.args)
    a[path[0]] = leaf_set(a[path[0]], path[1:], v)
    return mk(t.op, *a)


def seq_kind(self, s):
    op = s.op
    if op == "sseq":
        return s.args[2]
    if op == "seqlit":
        if not s.args:
            return None
        return "elem" if is_elem(s.args[0]) else "int" if s.args[0].op == "poly" else self.ctype_of(s.args[0])
    if op in ("unflat", "inc"):
        return "int"
    if op in ("smap",):
        b = open_(s.args[1], atom(fresh()))
        return "elem" if is_elem(b) else "int" if b.op == "poly" else self.ctype_of(b)
    if op in ("concat",):
        for x in s.args:
            k = self.seq_kind(x)
            if k is not None:
                return k
        return None
    if op in ("upd", "scat", "sslice"):
        k = self.seq_kind(s.args[0])
        if op == "upd" and k != "elem" and is_elem(s.args[2]):
            return "elem"
        return k
    if op == "ite":
        return self.seq_kind(s.args[1]) or self.seq_kind(s.args[2])
    if op == "flatten":
        return self.seq_kind(open_(s.args[1], atom(fresh())))
    return "int"


def havoc_leaf(self, name, a, b):
    """an arbitrary value of the type of leaf a (which becomes b)"""
    if a.op in ("unk", "mref") or b.op in ("unk", "mref"):
        return unk("loop-carried")
    v = mk("var", name)
    if a.op == "poly":
        if is_elem(a) or is_elem(b) or a in self.elemzero:
            return atom(mk("esym", v))
        return atom(v)
    if is_bool(a) or is_bool(b):
        return mk("boolsym", v)
    if is_seq(a) or is_seq(b):
        k = None
        if a.op != "unk":
            k = self.seq_kind(a)
        kb = self.seq_kind(b) if b.op != "unk" else None
        if k is None or kb == "elem":
            k = kb
        return sseq(v, atom(mk("len", v)), k or "int")
    t = self.ctype_of(a)
    if t[0] == "param":
        t = self.ctype_of(b)
    return mk("osym", v, t)


# ------------------------------------------------------------------ recurrences
def inv_conds(N, hv, k, seen, out):
    """loop-invariant conditions on which a recurrence depends"""
    if not isinstance(N, Term) or N in seen or len(out) > 4:
        return
    seen.add(N)
    c = None
    if N.op in ("ind", "ite"):
        c = N.args[0]
        if hv not in c.fv and k not in c.fv and c.h == 0:
            if c not in out:
                out.append(c)
            if N.op == "ind":
                return
    if N.op == "poly":
        for m, _ in N.args[0]:
            for a, e in m:
                inv_conds(a, hv, k, seen, out)
        return
    if N.op == "lam":
        return
    for a in N.args:
        if isinstance(a, Term):
            inv_conds(a, hv, k, seen, out)


def closed_form(self, h, N, x0, k, isint=True, depth=0):
    r = self.closed_form1(h, N, x0, k, isint)
    if r is not None or N.unk or depth > 2:
        return r
    hv = single_var(h)
    cs = []
    inv_conds(N, hv, k, set(), cs)
    for c in cs:
        ff = self.st.facts
        out = []
        for cc in (c, bnot(c)):
            self.st.facts = ff + (cc,)
            Nc = simp(N, self.st.facts)
            out.append(None if Nc is N else self.closed_form(h, Nc, x0, k, isint, depth + 1))
            self.st.facts = ff
            if out[-1] is None:
                break
        if None not in out:
            return ite(c, *out)
    return None


def closed_form1(self, h, N, x0, k, isint=True):
    """lam k. value at the start of iteration k, or None"""
    hv = single_var(h)
    K = atom(k)
    if N.unk:
        return None

    def at(t, i):
        return subst(t, {k: i})

    if hv not in N.fv:
        # overwritten in every iteration
        if k not in N.fv and N is x0:
            return x0
        if N.op == "poly" and x0.op == "poly":
            d = at(N, ZERO)
            # affine in k and consistent with the start value: no case split
            prev = at(N, sub(K, ONE))
            if at(prev, ZERO) is x0:
                return prev
        return ite(eq0(K), x0, at(N, sub(K, ONE)))
    if N is h:
        return x0
    if h.op == "poly" and N.op == "poly":
        a = single_atom(h)
        d = {0: ZERO, 1: ZERO}
        for m, c in N.args[0]:
            deg = 0
            rest = []
            for x, e in m:
                if x is a:
                    deg = e
                else:
                    if hv in x.fv:
                        return self.closed_special(h, N, x0, k)
                    rest.append((x, e))
            if deg > 1:
                return None
            d[deg] = add(d[deg], mk("poly", ((tuple(rest), c),)))
        A, g = d[1], d[0]
        v = fresh()
        if A is ONE:
            return add(x0, bigsum(K, v, subst(g, {k: atom(v)})))
        if g is ZERO:
            return mul(x0, bigprod(K, v, subst(A, {k: atom(v)})))
        return self.closed_special(h, N, x0, k)
    if is_bool(h):
        v = fresh()
        if N.op == "and" and h in N.args:
            c = band(*[x for x in N.args if x is not h])
            if hv not in c.fv:
                return band(x0, forall(K, v, subst(c, {k: atom(v)})))
        if N.op == "or" and h in N.args:
            c = bor(*[x for x in N.args if x is not h])
            if hv not in c.fv:
                return bor(x0, exists(K, v, subst(c, {k: atom(v)})))
        return None
    if is_seq(h):
        return self.closed_seq(h, hv, N, x0, k)
    return None


def closed_special(self, h, N, x0, k):
    a = single_atom(h)
    K = atom(k)
    # x -> x div g(k)
    n = single_atom(N)
    if n is not None and n.op == "div" and n.args[0] is h and not occurs(a, n.args[1]):
        v = fresh()
        return divmod_(x0, bigprod(K, v, subst(n.args[1], {k: atom(v)})), self.dec)[0]
    # max / min accumulation: x -> [c(x)] ...
    return None


def seq_ops(h, hv, N, g=TRUE):
    """operations that turn h into N, innermost first: list of (kind, guard, ...)"""
    if N is h:
        return []
    op = N.op
    if op == "upd":
        o = seq_ops(h, hv, N.args[0], g)
        return None if o is None else o + [("upd", TRUE, N.args[1], N.args[2])]
    if op == "scat":
        o = seq_ops(h, hv, N.args[0], g)
        return None if o is None else o + [("scat", TRUE, N.args[1], N.args[2])]
    if op == "concat":
        for j, x in enumerate(N.args):
            if hv in x.fv:
                o = seq_ops(h, hv, x, g)
                if o is None:
                    return None
                pre, post = concat(*N.args[:j]), concat(*N.args[j + 1:])
                if hv in pre.fv or hv in post.fv:
                    return None
                if pre is not EMPTY:
                    o = o + [("pre", TRUE, pre)]
                if post is not EMPTY:
                    o = o + [("app", TRUE, post)]
                return o
        return None
    if op == "inc" and N.args[0] is h:
        return [("inc", TRUE, N.args[1])]
    if op == "ite":
        c, a, b = N.args
        if hv in c.fv:
            # saturating odometer step
            if c.op == "incok" and c.args[0] is h and a.op == "inc" and a.args[0] is h and b is h:
                return [("incsat", TRUE, a.args[1])]
            return None
        oa, ob = seq_ops(h, hv, a), seq_ops(h, hv, b)
        if oa is None or ob is None:
            return None
        # shared prefix of operations
        out = []
        while oa and ob and oa[0] == ob[0]:
            out.append(oa.pop(0))
            ob.pop(0)
        if oa and ob and (len(oa) > 1 or len(ob) > 1) and any(x[0] in ("pre",) for x in oa + ob):
            return None
        out += [(x[0], band(c, x[1])) + tuple(x[2:]) for x in oa]
        out += [(x[0], band(bnot(c), x[1])) + tuple(x[2:]) for x in ob]
        return out
    return None


def closed_seq(self, h, hv, N, x0, k):
    K = atom(k)
    ops = seq_ops(h, hv, N)
    if ops is None:
        return None
    if any(o[0] == "dummy" for o in ops):
        return None
    kinds = {o[0] for o in ops}
    v = fresh()
    V = atom(v)
    if any(hv in o[1].fv for o in ops):
        return None

    def at(t, i):
        return subst(t, {k: i})
    if kinds == {"inc"} and len(ops) == 1 and k not in ops[0][2].fv and ops[0][1] is TRUE:
        S = ops[0][2]
        p0 = as_unflat(x0, S, self.dec)
        if p0 is not None:
            return unflat(add(p0, K), S)
        return None
    if kinds == {"incsat"} and len(ops) == 1 and k not in ops[0][2].fv:
        S = ops[0][2]
        p0 = as_unflat(x0, S, self.dec)
        if p0 is not None:
            P = prod(S)
            pos = add(p0, K)
            c = self.sbool(lt(pos, P))
            if c is TRUE:
                return unflat(pos, S)
            if p0 is ZERO:
                # once every index has been visited it stays at the last one
                return ite(bor(c, eq0(K)), unflat(pos, S), unflat(sub(P, ONE), S))
        return None
    if kinds <= {"app"}:
        tail = concat(*[ite(o[1], o[2], EMPTY) for o in ops])
        if hv in tail.fv:
            return None
        return concat(x0, flatten(K, v, at(tail, V)))
    if kinds <= {"pre"}:
        if len(ops) != 1:
            return None
        head = ite(ops[0][1], ops[0][2], EMPTY)
        if hv in head.fv:
            return None
        return concat(flatten(K, v, at(head, sub(sub(K, ONE), V))), x0)
    if kinds <= {"upd", "scat"}:
        doms = []
        for o in ops:
            if o[0] == "upd":
                _, g, pos, val = o
                if hv in pos.fv:
                    return None
                kind = "set"
                if hv in val.fv:
                    # val = old + d ?
                    old = [h]
                    d = sub(val, nth(h, pos)) if val.op == "poly" else unk("")
                    if d.unk or hv in d.fv:
                        return None
                    kind, val = "add", d
                doms.append((kind, pv(g, pos, val), pos))
            else:
                _, g, kind, d = o
                if hv in d.fv:
                    return None
                doms.append((kind, guard_dom(g, d), None))
        ks = {d[0] for d in doms}
        if len(doms) == 1:
            kind, d, pos = doms[0]
            if kind == "set" and pos is not None and k not in pos.fv and k not in d.args[0].fv:
                # the same element overwritten in every iteration
                return ite(bor(eq0(K), bnot(d.args[0])), x0, upd(x0, pos, at(d.args[2], sub(K, ONE))))
            return scat(x0, kind, dom(K, v, at(d, V)))
        if ks == {"add"}:
            r = x0
            for kind, d, pos in doms:
                r = scat(r, "add", dom(K, v, at(d, V)))
            return r
        if ks == {"set"}:
            # several writes per iteration: only if their positions never meet
            # or are the same in every iteration (the last one decides)
            if all(d[2] is not None and k not in d[2].fv and k not in d[1].args[0].fv for d in doms):
                r = x0
                for kind, d, pos in doms:
                    r = ite(d.args[0], upd(r, pos, at(d.args[2], sub(K, ONE))), r)
                return ite(eq0(K), x0, r)
            return None
        return None
    return None


def guard_dom(g, d):
    if g is TRUE:
        return d
    if d.op == "dom":
        w = fresh()
        return dom(d.args[0], w, guard_dom(g, open_(d.args[1], atom(w))))
    if d.op == "pv":
        return pv(band(g, d.args[0]), d.args[1], d.args[2])
    return d


def as_unflat(x, S, dec=None):
    """p such that x == unflat(p, S)"""
    if x.op == "unflat" and x.args[1] is S:
        return x.args[0]
    l = length(x)
    if l is not length(S) and not (dec is not None and dec(eq(l, length(S))) is True):
        return None
    if x.op == "smap" and open_(x.args[1], atom(fresh())) is ZERO:
        return ZERO
    if x.op == "seqlit" and all(y is ZERO for y in x.args):
        return ZERO
    if x.op == "seqlit" and S.op == "seqlit":
        return None
    return None


def single_var(h):
    if h.op == "poly":
        a = single_atom(h)
        return a.args[0] if a.op == "esym" else a
    return h.args[0]


# ------------------------------------------------------------------ summary
WIDEN = True


class Peel(Exception):
    pass


def summarise(self, n, body, peeled=False):
    """a loop with trip bound n (None: until an exit is taken)"""
    st, unks, nreq, nstuck, nc = self.st.copy(), dict(self.unknowns), len(self.reqs), len(self.stuck), self.ncell
    ex = list(self.exits)
    try:
        return self.summarise1(n, body, peeled)
    except Peel:
        # the first iteration differs from the others
        self.st, self.unknowns, self.ncell, self.exits = st, unks, nc, ex
        del self.reqs[nreq:], self.stuck[nstuck:]

    def first():
        self.loopvars.append(ZERO)
        try:
            body(ZERO)
        finally:
            self.loopvars.pop()
        self.summarise(None if n is None else sub(n, ONE), lambda k: body(add(k, ONE)), True)
        return UNITT
    if n is None:
        first()
        return
    self.branch(lt(ZERO, n), first, lambda: UNITT)


def summarise1(self, n, body, peeled):
    from interp import Dead, State
    if n is not None and n.unk:
        return fail(self, "loop bound")
    if n is not None:
        z = self.sbool(eq0(n))
        if z is TRUE:
            return
    st0 = self.st
    depth = len(self.loopvars)
    site = "%s|%d" % (">".join(self.site[-3:]), depth)
    k = mk("var", "k%d" % depth + "@" + site)
    K = atom(k)
    for c in self.chankeys:
        st0.cells.setdefault(c, EMPTY)
    cells0 = st0.cells
    saved_exits = self.exits
    nreq, unks = len(self.reqs), dict(self.unknowns)
    ncell0 = self.ncell
    havoc = {}      # (cell, path) -> (x0, hvar)
    closed = {}     # (cell, path) -> term in k
    bad = set()
    self.outer.append(st0.live)
    self.loopvars.append(K)
    eff0 = cells0.get("eff")
    try:
        solved_phase = False
        for rnd in range(14):
            start = {}
            st = State(dict(cells0), TRUE, st0.facts)
            for (c, path), t in closed.items():
                st.cells[c] = leaf_set(st.cells[c], path, t)
            for (c, path), (x0, h) in havoc.items():
                st.cells[c] = leaf_set(st.cells[c], path, h)
            if eff0 is not None:
                st.cells["eff"] = EMPTY
            start = dict(st.cells)
            if n is not None and lt(K, n) is not TRUE:
                st.facts = st.facts + (lt(K, n),)
            self.st = st
            self.exits = []
            del self.reqs[nreq:]
            self.unknowns = dict(unks)
            self.ncell = ncell0
            lv0, ou0, si0, fr0 = len(self.loopvars), len(self.outer), len(self.site), len(self.frames)
            try:
                body(K)
                end = self.st
            except Dead:
                end = None
            del self.loopvars[lv0:], self.outer[ou0:], self.site[si0:], self.frames[fr0:]
            if end is None:
                # the body never comes back for another iteration
                nxt = {}
                break
            new = False
            nxt = {}
            for c in cells0:
                if c == "eff":
                    continue
                a, b = start[c], end.cells.get(c)
                if b is None or a is b:
                    continue
                out = []
                diff(a, b, (), out)
                for path, x, y in out:
                    key = (c, path)
                    if WIDEN and x.op == y.op == "mref" and len(y.args) == len(x.args) + 1 and y.args[:len(x.args)] == x.args \
                            and y.args[-1].op == "p_s" and key not in havoc and key not in closed:
                        # a reference to a whole sequence that is narrowed: make its range explicit
                        w = self.get_path(st0.cells[x.args[0]], x.args[1:])
                        if is_seq(w):
                            cells0[c] = leaf_set(cells0[c], path, mk("mref", *x.args, mk("p_s", ZERO, length(w))))
                            new = True
                            continue
                    if key in havoc or key in closed:
                        nxt[key] = y
                        continue
                    # a part of a leaf that is already solved for (or unknown) as a whole
                    if any((c, path[:i]) in havoc or (c, path[:i]) in closed for i in range(len(path))):
                        continue
                    x0 = leaf_get(cells0[c], path)
                    # a leaf below/above an existing one: widen to the common ancestor
                    rel = [q for q in list(havoc) + list(closed) if q[0] == c and (q[1][:len(path)] == path)]
                    for q in rel:
                        havoc.pop(q, None)
                        closed.pop(q, None)
                    if x0 is None:
                        x0 = unk("leaf")
                    h = self.havoc_leaf("h%s.%s@%s" % (cellname(c), ".".join(map(str, path)), site), x0, y)
                    havoc[key] = (x0, h)
                    if h.op == "unk":
                        bad.add(key)
                    new = True
            if new:
                for key in list(closed):
                    x0 = leaf_get(cells0[key[0]], key[1])
                    h = self.havoc_leaf("h%s.%s@%s" % (cellname(key[0]), ".".join(map(str, key[1])), site), x0, closed[key])
                    havoc[key] = (x0, h)
                    if h.op == "unk":
                        bad.add(key)
                closed = {}
                continue
            # solve what depends only on itself
            prog = False
            hvars = {single_var(h): key for key, (x0, h) in havoc.items()}
            for key in list(havoc):
                if key in bad:
                    continue
                x0, h = havoc[key]
                N = leaf_get(end.cells[key[0]], key[1])
                if N is None:
                    continue
                me = single_var(h)
                if end.facts != st0.facts and not N.unk:
                    N = simp(N, end.facts)
                if not peeled and me not in N.fv and k not in N.fv and (is_bool(h) or N in (TRUE, FALSE)) and N is not x0 \
                        and not N.unk and not any(v in N.fv for v in hvars):
                    raise Peel()
                if any(v in N.fv for v in hvars if v is not me):
                    continue
                ff = self.st.facts
                self.st.facts = st0.facts
                if is_seq(x0) and x0.op == "ite":
                    x0 = simp(x0, st0.facts)
                cf = self.closed_form(h, N, x0, k)
                self.st.facts = ff
                if cf is not None and not cf.unk:
                    del havoc[key]
                    closed[key] = cf
                    prog = True
            if prog:
                continue
            if havoc:
                # give up on the rest
                ch = False
                for key in list(havoc):
                    x0, h = havoc[key]
                    if key not in bad:
                        N = leaf_get(end.cells[key[0]], key[1])
                        self.stuck = getattr(self, "stuck", [])
                        self.stuck.append((site, key, h, N))
                        bad.add(key)
                        havoc[key] = (x0, mk_unk_like(h))
                        unks["loop recurrence not solved at %s" % site] = 1
                        ch = True
                if ch:
                    continue
            break
        else:
            self.st = st0
            return fail(self, "loop did not stabilise at %s" % site)
        exits = self.exits
        reqs = self.reqs[nreq:]
        del self.reqs[nreq:]
        end_eff = end.cells.get("eff") if end is not None else None
        end_live = end.live if end is not None else FALSE
    finally:
        self.loopvars.pop()
        self.outer.pop()
        self.exits = saved_exits
    self.close_loop(n, k, st0, closed, havoc, exits, reqs, end, end_live)


def cellname(c):
    return c if isinstance(c, str) else "t%d" % c.ser if isinstance(c, Term) else "".join(ch for ch in str(c) if ch.isalnum())


def mk_unk_like(h):
    if h.op == "poly":
        return unk_scalar("unsolved recurrence")
    return unk("unsolved recurrence")


def linear_in(p, k):
    """(a, b) with p == a*k + b, a an integer constant, else None"""
    a = 0
    d = {}
    for m, c in p.args[0]:
        if m == ((k, 1),):
            a = c
        elif any(k in x.fv for x, e in m):
            return None
        else:
            d[m] = c
    return a, TM._poly(d)


def trip(self, E, k):
    """smallest k >= 0 with E(k), as a term, if E is a counting condition"""
    from term import _poly
    if E.op == "le0":
        r = linear_in(E.args[0], k)
        if r is None or r[0] >= 0:
            return None
        a, b = r
        if a == -1:
            c = self.sbool(le0(b))     # already at k = 0
            return ZERO if c is TRUE else b if c is FALSE else ite(c, ZERO, b)
        # a*k >= b -> k = ceil(b/a)
        q, _ = divmod_(add(b, const(-a - 1)), const(-a), self.dec)
        c = self.sbool(le0(b))
        return ZERO if c is TRUE else q if c is FALSE else ite(c, ZERO, q)
    if E.op == "eq0":
        r = linear_in(E.args[0], k)
        if r is None or r[0] not in (1, -1):
            return None
        t = scale(r[1], -r[0])
        if self.sbool(le(ZERO, t)) is TRUE:
            return t
        return None
    if E.op == "not" and E.args[0].op == "eq0":
        # leaves as soon as k != c: at 0 if c != 0, else at 1
        r = linear_in(E.args[0].args[0], k)
        if r is None or r[0] == 0:
            return None
        return ind(eq0(r[1]))
    if E.op == "or":
        free = [x for x in E.args if k not in x.fv]
        rest = [x for x in E.args if k in x.fv]
        if free and rest:
            t = self.trip(bor(*rest), k)
            if t is None:
                return None
            return ite(bor(*free), ZERO, t)
        # a way out that implies another one adds nothing
        for x in list(rest):
            fs = self.st.facts + (x.args if x.op == "and" else (x,))
            if any(y is not x and decide(y, fs) is True for y in rest):
                rest.remove(x)
        ts = [self.trip(x, k) for x in rest]
        if any(t is None for t in ts):
            return None
        r = ts[0]
        for t in ts[1:]:
            c = self.sbool(le(r, t))
            r = r if c is TRUE else t if c is FALSE else ite(c, r, t)
        return r
    return None


def mentions(s, k):
    return k in s.fv


def close_loop(self, n, k, st0, closed, havoc, exits, reqs, end, end_live):
    from interp import Dead, State
    K = atom(k)
    E = bor(*[x[1] for x in exits]) if exits else FALSE
    self.st = st0
    facts0 = st0.facts
    # path conditions of the exits as functions of k
    if exits:
        saved = self.st.facts
        self.st.facts = facts0 + ((lt(K, n),) if n is not None and lt(K, n) is not TRUE else ())
        E = self.sbool(E)
        self.st.facts = saved
    T = None
    if E is FALSE:
        exits = []
        if n is None:
            # an endless loop
            self.require(FALSE, "loop terminates")
            raise Dead()
        T = n
    elif end is None:
        T = ZERO
    elif E.unk:
        T = None
    elif k not in E.fv and n is None and E is TRUE:
        T = ZERO
    else:
        if E is TRUE:
            T = ZERO
        else:
            T = self.trip(E, k)
    # requirements of the body, for every iteration that is reached
    v = fresh()
    V = atom(v)
    for c, what, where in reqs:
        if n is not None and not exits:
            rng = n
        elif T is not None:
            rng = add(T, ONE)
            if n is not None:
                rng = imin(rng, n)
        elif n is not None:
            rng = n
        else:
            rng = None
        if c.unk or rng is None:
            if k in c.fv and rng is None:
                self.reqs.append((unk("requirement in unbounded loop"), what, where))
            else:
                self.reqs.append((c, what, where))
            continue
        cv = subst(c, {k: V})
        if exits and T is None and not E.unk:
            u = fresh()
            cv = bor(cv, exists(V, u, subst(E, {k: atom(u)})))
        self.reqs.append((forall(rng, v, cv), what, where))
    if havoc:
        self.unknowns["loop recurrence not solved"] = 1

    def cells_at(cells, i, state=None):
        out = {}
        m = {k: i}
        for c, t in cells.items():
            out[c] = subst(t, m) if k in t.fv else t
        return out

    def closed_at(i):
        cells = dict(st0.cells)
        for (c, path), t in closed.items():
            cells[c] = leaf_set(cells[c], path, subst(t, {k: i}))
        for (c, path), (x0, h) in havoc.items():
            cells[c] = leaf_set(cells[c], path, mk_unk_like(h) if not h.unk else h)
        return cells

    # locks and channels first touched inside the loop
    for s in [x[3] for x in exits] + ([end] if end is not None else []):
        if "lost" in s.cells:
            st0.cells.setdefault("lost", s.cells["lost"])
        for c, t in s.cells.items():
            if isinstance(c, Term) and c not in st0.cells and c.op != "t":
                if c.op == "chan":
                    if t is not EMPTY:
                        st0.cells[c] = self.unknown("messages of a channel made in a loop")
                elif c in self.lock_init and t is not self.lock_init[c]:
                    if k in c.fv:
                        self.lost_locks = True
                        self.unknowns["locks written in a loop"] = 1
                    else:
                        st0.cells[c] = self.unknown("lock written in a loop")
    eff = "eff" in st0.cells
    end_eff = end.cells.get("eff") if (eff and end is not None) else None

    def eff_upto(i):
        if end_eff is None or end_eff is EMPTY:
            return st0.cells["eff"]
        w = fresh()
        return concat(st0.cells["eff"], flatten(i, w, subst(end_eff, {k: atom(w)})))

    if not exits:
        cells = closed_at(n)
        if eff:
            cells["eff"] = eff_upto(n)
        live = st0.live
        facts = facts0
        self.st = State(cells, live, facts)
        return
    # leaving through exits
    if E.unk:
        # every way out is possible: nothing is known about which
        u = unk("exit condition")
        self.unknowns["loop exit condition unknown"] = 1
        for lab, c, val, s in exits:
            cells = {q: (unk("exit") if k in t.fv else t) for q, t in s.cells.items()}
            self.exits.append((lab, band(st0.live, u), unk("exit") if k in val.fv else val,
                               State(cells, band(st0.live, u), facts0)))
        if n is None:
            raise Dead()
        self.st = State({q: (unk("exit") if t is not st0.cells.get(q) else t) for q, t in closed_at(n).items()},
                        band(st0.live, u), facts0)
        return
    if T is not None:
        # left in iteration T unless the bound comes first
        if n is None:
            reach = TRUE
        else:
            reach = self.sbool(lt(T, n))
        at = T
        none_cond = bnot(reach)
    else:
        if n is None:
            self.unknowns["trip count of loop"] = 1
            self.stuck.append(("trip", "", K, E))
            for lab, c, val, s in exits:
                u = unk("trip count")
                cells = {q: (unk("exit") if k in t.fv else t) for q, t in s.cells.items()}
                self.exits.append((lab, st0.live if len(exits) == 1 else band(st0.live, u),
                                   unk("exit") if k in val.fv else val, State(cells, st0.live, facts0)))
            raise Dead()
        reach = exists(n, v, subst(E, {k: V}))
        need = len(exits) > 1 or any(k in x[2].fv or any(k in t.fv for t in x[3].cells.values()) for x in exits)
        at = atom(mk("first", n, bind(v, subst(E, {k: V})))) if need else K
        none_cond = bnot(reach)
    for lab, c, val, s in exits:
        if len(exits) == 1:
            cond = reach
        else:
            cond = band(reach, subst(c, {k: at}))
        cond = self.sbool(cond)
        if cond is FALSE:
            continue
        if at is K:
            # nothing mentions the iteration
            cells = dict(s.cells)
            v2 = val
        else:
            cells = cells_at(s.cells, at)
            v2 = subst(val, {k: at}) if k in val.fv else val
        if eff:
            ex = s.cells.get("eff", EMPTY)
            pre = eff_upto(at) if at is not K else st0.cells["eff"]
            if at is K and end_eff is not None and end_eff is not EMPTY:
                pre = unk("effects before exit")
            cells["eff"] = concat(pre, subst(ex, {k: at}) if at is not K else ex)
        lv = band(st0.live, cond)
        fs = facts0
        if cond is not TRUE:
            fs = fs + (cond,)
        self.exits.append((lab, lv, v2, State(cells, lv, fs)))
    if n is None or none_cond is FALSE:
        raise Dead()
    cells = closed_at(n)
    if eff:
        cells["eff"] = eff_upto(n)
    st = State(cells, band(st0.live, none_cond), facts0)
    if none_cond is not TRUE:
        st.facts = st.facts + (none_cond,)
    self.st = st
