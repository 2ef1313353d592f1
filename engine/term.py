"""Hash-consed terms of the value-flow domain.

Scalars (machine integers and tensor elements alike) are polynomials with
integer coefficients over atoms; conditionals on scalars are polynomials over
indicator atoms [c].  Sequences are comprehensions; everything else is a
constructor term.  Terms with binders are locally nameless: alpha-equivalent
terms are the same object.
"""
import itertools

_tab = {}
_serial = itertools.count()


class Term:
    __slots__ = ("op", "args", "ser", "h", "unk", "fv")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.ser = next(_serial)
        h = 0
        unk = op == "unk"
        fv = _EMPTY
        if op == "bv":
            h = args[0]
        elif op == "var":
            fv = frozenset((t,))
        if op == "lam":
            h = args[0]
        for a in _subterms(args):
            if a.h > h:
                h = a.h
            unk = unk or a.unk
            if a.fv:
                fv = fv | a.fv if fv else a.fv
        t.h = h
        t.unk = unk
        t.fv = fv
        _tab[key] = t
    return t


_EMPTY = frozenset()


def _subterms(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _subterms(a)


# ---------------------------------------------------------------- variables
_fresh = itertools.count()


def fresh(hint="v", **kw):
    return mk("var", "%s#%d" % (hint, next(_fresh)))


def pvar(hint="v"):
    """a fresh scalar variable (poly)"""
    return atom(fresh(hint))


# ---------------------------------------------------------------- polynomials
def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: (len(mc[0]), [(a.ser, e) for a, e in mc[0]]))
    return mk("poly", tuple(items))


def const(n):
    return mk("poly", (((), n),)) if n != 0 else mk("poly", ())


ZERO = const(0)
ONE = const(1)


def atom(t):
    return mk("poly", ((((t, 1),), 1),))


def is_scalar(t):
    return t.op == "poly"


def const_val(t):
    """integer value of a constant polynomial, else None"""
    if t.op != "poly":
        return None
    if not t.args[0]:
        return 0
    if len(t.args[0]) == 1 and t.args[0][0][0] == ():
        return t.args[0][0][1]
    return None


def single_atom(t):
    """the atom a if t == 1*a^1, else None"""
    if t.op == "poly" and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def add(*ts):
    d = {}
    for t in ts:
        if t.op != "poly":
            return unk("add of non-scalar %s" % t.op)
        for m, c in t.args[0]:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(t, n):
    if t.op != "poly":
        return unk("scale of non-scalar")
    return _poly({m: c * n for m, c in t.args[0]})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _norm_mono(d):
    """normalise a monomial with indicator atoms -> poly"""
    inds = [a for a in d if a.op == "ind"]
    for a in inds:
        d[a] = 1
    # contradictory indicators
    conds = [a.args[0] for a in inds]
    if len(conds) > 1:
        c = band(*conds)
        if c is FALSE:
            return ZERO
        for a in inds:
            del d[a]
        i = ind(c)
        if const_val(i) is not None:
            v = const_val(i)
            if v == 0:
                return ZERO
        else:
            if len(i.args[0]) == 1:
                (m, cc), = i.args[0]
                for a, e in m:
                    d[a] = e
                if cc != 1:
                    m = tuple(sorted(d.items(), key=lambda ae: ae[0].ser))
                    return mk("poly", ((m, cc),))
            else:
                m = tuple(sorted(d.items(), key=lambda ae: ae[0].ser))
                return mul(mk("poly", ((m, 1),)), i)
        inds = [a for a in d if a.op == "ind"]
        conds = [a.args[0] for a in inds]
    # [x == e] * x  ->  [x == e] * e
    for c in conds:
        for lit in _conjuncts(c):
            s = _eq_subst(lit)
            if s is not None:
                x, e = s
                if x in d:
                    p = d.pop(x)
                    m = tuple(sorted(d.items(), key=lambda ae: ae[0].ser))
                    return mul(mk("poly", ((m, 1),)) if m else ONE, power(e, p))
    m = tuple(sorted(d.items(), key=lambda ae: ae[0].ser))
    return mk("poly", ((m, 1),)) if m else ONE


def _conjuncts(c):
    if c.op == "and":
        return c.args
    return (c,)


def _eq_subst(lit):
    """x, e if the literal is x == e with x an atom not occurring in e"""
    if lit.op == "eq0":
        p = lit.args[0]
        best = None
        for m, c in p.args[0]:
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                a = m[0][0]
                rest = _poly({mm: cc for mm, cc in p.args[0] if mm != m})
                if occurs(a, rest):
                    continue
                e = scale(rest, -c)
                if best is None or const_val(e) is not None:
                    best = (a, e)
        return best
    return None


def power(t, n):
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def mul(a, b):
    if a.op != "poly" or b.op != "poly":
        return unk("mul of non-scalar")
    if len(a.args[0]) * len(b.args[0]) > 4000:
        return atom(mk("bigmul", a, b))
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            dd = _mono_mul(m1, m2)
            if any(x.op == "ind" for x in dd):
                p = _norm_mono(dd)
                for m, c in p.args[0]:
                    d[m] = d.get(m, 0) + c * c1 * c2
            else:
                m = tuple(sorted(dd.items(), key=lambda ae: ae[0].ser))
                d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)


def unk(why):
    # every unknown is its own: two of them never cancel or contradict
    global _nunk
    _nunk += 1
    return mk("unk", why, _nunk)


_nunk = 0


def unk_scalar(why):
    return atom(unk(why))


# ---------------------------------------------------------------- integer ops
def monomials(p):
    return p.args[0]


def exact_div(p, q):
    """p / q if q is a single monomial dividing every monomial of p, else None"""
    if len(q.args[0]) != 1:
        return None
    (mq, cq), = q.args[0]
    d = {}
    for m, c in p.args[0]:
        dd = dict(m)
        if c % cq:
            return None
        for a, e in mq:
            if dd.get(a, 0) < e:
                return None
            dd[a] -= e
            if dd[a] == 0:
                del dd[a]
        mm = tuple(sorted(dd.items(), key=lambda ae: ae[0].ser))
        d[mm] = d.get(mm, 0) + c // cq
    return _poly(d)


def divmod_(p, q, decide=None):
    """floor division of nonnegative integers; `decide` proves ranges"""
    cp, cq = const_val(p), const_val(q)
    if cq is not None and cq != 0 and cp is not None:
        return const(cp // cq), const(cp % cq)
    if cq == 1:
        return p, ZERO
    if q.op != "poly" or p.op != "poly":
        return unk_scalar("div"), unk_scalar("mod")
    if len(q.args[0]) == 1:
        # split p = quot*q + rest
        quot, rest = {}, {}
        for m, c in p.args[0]:
            e = exact_div(mk("poly", ((m, c),)), q)
            if e is None:
                rest[m] = c
            else:
                for mm, cc in e.args[0]:
                    quot[mm] = quot.get(mm, 0) + cc
        quot, rest = _poly(quot), _poly(rest)
        if rest is ZERO:
            return quot, ZERO
        if decide is not None and decide(le(ZERO, rest)) is True and decide(lt(rest, q)) is True:
            return quot, rest
        if quot is not ZERO:
            a = atom(mk("div", rest, q))
            return add(quot, a), sub(rest, mul(a, q))
    a = atom(mk("div", p, q))
    return a, sub(p, mul(a, q))


def imax(a, b):
    if a is b:
        return a
    c = le(a, b)
    return ite(c, b, a)


def imin(a, b):
    if a is b:
        return a
    return ite(le(a, b), a, b)


def _cached(f):
    tab = {}

    def g(*a):
        r = tab.get(a)
        if r is None:
            r = tab[a] = f(*a)
        return r
    return g


# ---------------------------------------------------------------- booleans
TRUE = mk("true")
FALSE = mk("false")


def boolc(b):
    return TRUE if b else FALSE


@_cached
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return bor(*[bnot(x) for x in c.args])
    if c.op == "or":
        return band(*[bnot(x) for x in c.args])
    if c.op == "le0":
        return le0(sub(ONE, c.args[0]))
    return mk("not", c)


def _flat(op, cs):
    out = {}
    for c in cs:
        if c.op == op:
            for x in c.args:
                out[x] = 1
        else:
            out[c] = 1
    return sorted(out, key=lambda t: t.ser)


@_cached
def band(*cs):
    out = _flat("and", cs)
    if FALSE in out:
        return FALSE
    out = [c for c in out if c is not TRUE]
    if not out:
        return TRUE
    s = set(out)
    for c in out:
        if bnot(c) in s:
            return FALSE
    if any(c.unk and c.op == "unk" for c in out):
        pass
    # linear strengthening: eq0(p) makes other literals decidable
    for c in out:
        if c.op == "eq0":
            sb = _eq_subst(c)
            if sb is not None:
                x, e = sb
                new = []
                ch = False
                for o in out:
                    if o is not c and occurs(x, o) and x.op != "ind":
                        n = subst(o, {x: e})
                        if n is not o:
                            ch = True
                            o = n
                    new.append(o)
                if ch:
                    return band(*new)
    # le0(p) and le0(q) with p - q constant: keep the stronger
    les = [c for c in out if c.op == "le0"]
    if len(les) > 1:
        drop = set()
        for a in les:
            for b in les:
                if a is b or a in drop or b in drop:
                    continue
                dd = const_val(sub(a.args[0], b.args[0]))
                if dd is not None:
                    drop.add(b if dd >= 0 else a)
                s2 = const_val(add(a.args[0], b.args[0]))
                if s2 is not None:
                    if s2 > 0:
                        return FALSE
                    if s2 == 0:
                        rest = [c for c in out if c not in (a, b)]
                        return band(eq0(a.args[0]), *rest)
        if drop:
            out = [c for c in out if c not in drop]
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    s = set(out)
    new = []
    ch = False
    for c in out:
        if c.op == "or":
            if any(x in s for x in c.args):
                ch = True
                continue
            keep = [x for x in c.args if bnot(x) not in s]
            if len(keep) != len(c.args):
                ch = True
                new.append(bor(*keep))
                continue
        new.append(c)
    if ch:
        return band(*new)
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


@_cached
def bor(*cs):
    out = _flat("or", cs)
    if TRUE in out:
        return TRUE
    out = [c for c in out if c is not FALSE]
    if not out:
        return FALSE
    s = set(out)
    for c in out:
        if bnot(c) in s:
            return TRUE
    les = [c for c in out if c.op == "le0"]
    if len(les) > 1:
        drop = set()
        for a in les:
            for b in les:
                if a is b or a in drop or b in drop:
                    continue
                dd = const_val(sub(a.args[0], b.args[0]))
                if dd is not None:
                    drop.add(a if dd >= 0 else b)
                s2 = const_val(add(a.args[0], b.args[0]))
                if s2 is not None and s2 <= 1:
                    return TRUE
        if drop:
            out = [c for c in out if c not in drop]
    s = set(out)
    new = []
    ch = False
    for c in out:
        if c.op == "and":
            if any(x in s for x in c.args):
                ch = True
                continue
            keep = [x for x in c.args if bnot(x) not in s]
            if len(keep) != len(c.args):
                ch = True
                new.append(band(*keep))
                continue
        new.append(c)
    if ch:
        return bor(*new)
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def _content(p):
    from math import gcd
    g = 0
    for m, c in p.args[0]:
        if m != ():
            g = gcd(g, abs(c))
    return g


SIGNED = set()  # atoms that may be negative

_ek = {}


def is_elem_atom(a):
    """atom of the tensor element type (an ordered ring, not usize)"""
    r = _ek.get(a)
    if r is None:
        op = a.op
        if op in ("efn", "esym"):
            r = True
        elif op == "nth":
            r = seq_is_elem(a.args[0])
        elif op in ("bigsum", "bigprod"):
            b = a.args[1].args[1]
            r = is_elem(b)
        elif op == "bigmul":
            r = is_elem(a.args[0]) or is_elem(a.args[1])
        else:
            r = False
        _ek[a] = r
    return r


def is_elem(p):
    return p.op == "poly" and any(is_elem_atom(a) for m, c in p.args[0] for a, e in m if a.op != "ind")


def seq_is_elem(s):
    r = _ek.get(s)
    if r is not None:
        return r
    op = s.op
    r = False
    if op == "sseq":
        r = s.args[2] == "elem"
    elif op == "seqlit":
        r = any(is_elem(x) for x in s.args)
    elif op in ("smap", "flatten"):
        b = s.args[1].args[1]
        r = is_elem(b) if op == "smap" else seq_is_elem(b)
    elif op in ("upd",):
        r = seq_is_elem(s.args[0]) or is_elem(s.args[2])
    elif op in ("sslice", "filt"):
        r = seq_is_elem(s.args[0])
    elif op == "scat":
        o = s.args[2]
        while o.op == "dom":
            o = o.args[1].args[1]
        r = seq_is_elem(s.args[0]) or (o.op == "pv" and is_elem(o.args[2]))
    elif op == "concat":
        r = any(seq_is_elem(x) for x in s.args)
    elif op == "ite":
        r = seq_is_elem(s.args[1]) or seq_is_elem(s.args[2])
    _ek[s] = r
    return r


def nonneg_atom(a):
    """integer atoms are usize unless marked"""
    return a not in SIGNED and not is_elem_atom(a)


@_cached
def le0(p):
    """p <= 0 over the integers"""
    if p.op != "poly":
        return unk("le0")
    v = const_val(p)
    if v is not None:
        return boolc(v <= 0)
    # divide by gcd of the coefficients, rounding the constant
    g = _content(p)
    if g > 1:
        d = {}
        for m, c in p.args[0]:
            d[m] = c // g if m != () else -((-c) // g)
        p = _poly(d)
    cs = [(m, c) for m, c in p.args[0]]
    c0 = dict(cs).get((), 0)
    if all(nonneg_atom(a) for m, c in cs for a, e in m):
        if all(c <= 0 for m, c in cs):
            return TRUE
        if all(c >= 0 for m, c in cs):
            if c0 > 0:
                return FALSE
            # sum of nonnegatives <= 0
            return band(*[_mono_zero(m) for m, c in cs]) if all(m != () for m, c in cs) else mk("le0", p)
        # x >= 1 for a single atom x: canonical as x != 0
        if len(cs) == 2 and c0 == 1:
            m, c = [x for x in cs if x[0] != ()][0]
            if c == -1:
                return bnot(_mono_zero(m))
    inds = [a for m, c in cs for a, e in m if a.op == "ind"]
    if inds:
        # case split on one indicator: keeps conditions free of indicators
        a = inds[0]
        return bor(band(a.args[0], le0(assume_ind(p, a, 1))), band(bnot(a.args[0]), le0(assume_ind(p, a, 0))))
    return mk("le0", p)


def _mono_zero(m):
    return bor(*[eq0(atom(a)) for a, e in m])


def assume_ind(p, a, v):
    d = ZERO
    for m, c in p.args[0]:
        if any(x is a for x, e in m):
            if v == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        d = add(d, mk("poly", ((m, c),)))
    return d


@_cached
def eq0(p):
    """p == 0"""
    if p.op != "poly":
        return unk("eq0")
    v = const_val(p)
    if v is not None:
        return boolc(v == 0)
    g = _content(p)
    c0 = dict(p.args[0]).get((), 0)
    if g > 1:
        if c0 % g:
            return FALSE
        p = _poly({m: c // g for m, c in p.args[0]})
    if p.args[0][-1][1] < 0:
        p = neg(p)
    cs = p.args[0]
    if all(nonneg_atom(a) for m, c in cs for a, e in m):
        c0 = dict(cs).get((), 0)
        rest = [(m, c) for m, c in cs if m != ()]
        if c0 and (all(c > 0 for m, c in rest) and c0 > 0 or all(c < 0 for m, c in rest) and c0 < 0):
            return FALSE
        if not c0 and (all(c > 0 for m, c in rest) or all(c < 0 for m, c in rest)):
            if len(rest) > 1:
                return band(*[_mono_zero(m) for m, c in rest])
            m = rest[0][0]
            if len(m) > 1 or m[0][1] > 1:
                return bor(*[eq0(atom(a)) for a, e in m])
    inds = [a for m, c in cs for a, e in m if a.op == "ind"]
    if inds:
        a = inds[0]
        return bor(band(a.args[0], eq0(assume_ind(p, a, 1))), band(bnot(a.args[0]), eq0(assume_ind(p, a, 0))))
    return mk("eq0", p)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


# element-type comparisons (no integrality, sign unknown)
@_cached
def elt0(p):
    v = const_val(p)
    if v is not None:
        return boolc(v < 0)
    inds = [a for m, c in p.args[0] for a, e in m if a.op == "ind"]
    if inds:
        a = inds[0]
        return bor(band(a.args[0], elt0(assume_ind(p, a, 1))), band(bnot(a.args[0]), elt0(assume_ind(p, a, 0))))
    return mk("elt0", p)


def eeq0(p):
    v = const_val(p)
    if v is not None:
        return boolc(v == 0)
    if p.args[0][-1][1] < 0:
        p = neg(p)
    return mk("eeq0", p)


@_cached
def ind(c):
    """indicator of a condition, as a polynomial"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op in ("not", "or"):
        return sub(ONE, ind(bnot(c)))
    if c.op == "and":
        # products of indicators of negations are expanded, positives kept
        pos = [x for x in c.args if x.op not in ("not", "or")]
        negs = [x for x in c.args if x.op in ("not", "or")]
        if not negs:
            return atom(mk("ind", c))
        r = ind(band(*pos)) if pos else ONE
        for x in negs:
            r = mul(r, ind(x))
        return r
    if c.op == "le0":
        # one polarity only: prefer the literal whose leading coefficient is positive
        p = c.args[0]
        q = sub(ONE, p)
        if p.args[0][-1][1] < 0 and q.args[0] and q.args[0][-1][1] > 0:
            return sub(ONE, atom(mk("ind", mk("le0", q))))
    return atom(mk("ind", c))


@_cached
def eq(a, b):
    """equality of arbitrary values"""
    if a is b:
        return TRUE
    if a.op == "poly" and b.op == "poly":
        d = sub(a, b)
        return eeq0(d) if is_elem(d) else eq0(d)
    if a.unk or b.unk:
        return unk("eq")
    if a.op in ("true", "false") and b.op in ("true", "false"):
        return FALSE
    if is_bool(a) and is_bool(b):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return band(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "ref" and b.op == "ref":
        return eq(a.args[0], b.args[0])
    if a.op == "ite":
        c, x, y = a.args
        return bor(band(c, eq(x, b)), band(bnot(c), eq(y, b)))
    if b.op == "ite":
        return eq(b, a)
    if is_seq(a) and is_seq(b):
        la, lb = length(a), length(b)
        ca, cb = const_val(la), const_val(lb)
        if ca is not None and cb is not None:
            if ca != cb:
                return FALSE
            if ca <= 8:
                return band(*[eq(nth(a, const(i)), nth(b, const(i))) for i in range(ca)])
        if seq_is_elem(a) and seq_is_elem(b):
            v = fresh()
            return band(eq(la, lb), forall(la, v, eq(nth(a, atom(v)), nth(b, atom(v)))))
        if a.ser > b.ser:
            a, b = b, a
        return mk("eqs", a, b)
    if a.ser > b.ser:
        a, b = b, a
    return mk("eqv", a, b)


BOOLOPS = {"true", "false", "not", "and", "or", "le0", "eq0", "elt0", "eeq0", "eqs", "eqv", "exists",
           "isvar", "boolsym", "bapp"}


def is_bool(t):
    return t.op in BOOLOPS


def exists(n, v, body):
    """exists v < n. body   (v a var term, body may mention it)"""
    if body is FALSE or const_val(n) == 0:
        return FALSE
    if v not in body.fv:
        return band(body, bnot(eq0(n)))
    cn = const_val(n)
    if cn is not None and cn <= 8:
        return bor(*[subst(body, {v: const(i)}) for i in range(cn)])
    if body.op == "or":
        return bor(*[exists(n, v, x) for x in body.args])
    if body.op == "and":
        out = [x for x in body.args if v not in x.fv]
        if out:
            return band(*out, exists(n, v, band(*[x for x in body.args if v in x.fv])))
    if body.op == "eq0":
        # an element that is zero: the product is zero
        a = single_atom(body.args[0])
        if a is not None and a.op == "nth" and a.args[1] is atom(v) and v not in a.args[0].fv and n is length(a.args[0]):
            return eq0(prod(a.args[0]))
    return mk("exists", n, bind(v, body))


def forall(n, v, body):
    return bnot(exists(n, v, bnot(body)))


# ---------------------------------------------------------------- conditionals
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "unk":
        return mk("ite", c, a, b)
    if a.op == "poly" and b.op == "poly":
        i = ind(c)
        return add(b, mul(i, sub(a, b)))
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "struct" and b.op == "struct" and a.args[:2] == b.args[:2]:
        return mk("struct", a.args[0], a.args[1], *[ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return mk("tup", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "ref" and b.op == "ref":
        return mk("ref", ite(c, a.args[0], b.args[0]))
    if a.op == "seqlit" and b.op == "seqlit" and len(a.args) == len(b.args):
        return mk("seqlit", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "smap" and b.op == "smap" and a.args[0] is b.args[0]:
        v = fresh()
        return smap(a.args[0], v, ite(c, open_(a.args[1], atom(v)), open_(b.args[1], atom(v))))
    if a.op == "mref" and b.op == "mref" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        ok = True
        new = []
        for x, y in zip(a.args[1:], b.args[1:]):
            if x is y:
                new.append(x)
            elif x.op == y.op == "p_s":
                new.append(mk("p_s", ite(c, x.args[0], y.args[0]), ite(c, x.args[1], y.args[1])))
            elif x.op == y.op == "p_i":
                new.append(mk("p_i", ite(c, x.args[0], y.args[0])))
            else:
                ok = False
        if ok:
            return mk("mref", a.args[0], *new)
    if a.op == "upd" and b.op == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return upd(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    # simplify nested conditionals on the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", c, a, b) if a is not b else a


# ---------------------------------------------------------------- binders
def bind(v, body):
    """lam v. body; binders carry *scalar* index variables"""
    if v not in body.fv:
        return mk("lam", body.h + 1, body)
    b = mk("bv", body.h + 1)
    return mk("lam", body.h + 1, subst(body, {v: b}, raw=True))


def open_(lam, t):
    """lam applied to the scalar t"""
    h, body = lam.args
    if body.h < h:
        return body
    return subst(body, {mk("bv", h): t})


def occurs(x, t):
    if isinstance(t, tuple):
        return any(occurs(x, y) for y in t if isinstance(y, (Term, tuple)))
    if t is x:
        return True
    if x.op == "var":
        return x in t.fv
    if t.h == 0 and False:
        return False
    memo = _occ.get((x, t))
    if memo is None:
        memo = any(occurs(x, y) for y in t.args if isinstance(y, (Term, tuple)))
        _occ[(x, t)] = memo
    return memo


_occ = {}


def subst(t, m, raw=False):
    """replace atoms (vars / bvs / arbitrary atoms) by terms, renormalising.

    Values for atoms inside polynomials must be scalars (polys), except that
    `raw` maps an atom to an atom."""
    if raw:
        m = {k: (atom(v) if v.op != "poly" else v) for k, v in m.items()}
    onlyvars = all(k.op == "var" for k in m)
    keys = frozenset(m)
    memo = {}

    def go(t):
        if isinstance(t, tuple):
            return tuple(go(x) if isinstance(x, (Term, tuple)) else x for x in t)
        if onlyvars and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
            # a non-poly occurrence of an index variable
            memo[t] = r
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, go):
    op = t.op
    a = t.args
    if op == "poly":
        r = ZERO
        changed = False
        for mono, c in a[0]:
            p = None
            same = []
            for x, e in mono:
                y = go(x)
                if y is x:
                    same.append((x, e))
                else:
                    changed = True
                    if y.op != "poly":
                        y = coerce_atom(y)
                    p = power(y, e) if p is None else mul(p, power(y, e))
            q = mk("poly", ((tuple(same), c),)) if same else const(c)
            r = add(r, q if p is None else mul(q, p))
            if r.op != "poly":
                return r
        return r if changed else t
    if op == "lam":
        h, body = a
        if body.h < h:
            return mk("lam", *(lambda b: (b.h + 1, b))(go(body)))
        v = fresh()
        nb = go(subst(body, {mk("bv", h): v}, raw=True))
        return bind(v, nb)
    if op in ("var", "bv", "true", "false", "sym", "unk", "str", "fn", "alloc"):
        if not a or not any(isinstance(x, (Term, tuple)) for x in a):
            return t
    na = tuple(go(x) if isinstance(x, (Term, tuple)) else x for x in a)
    if na == a:
        return t
    f = CONS.get(op)
    if f is not None:
        return f(*na)
    return mk(op, *na)


def coerce_atom(y):
    """turn a non-poly term into a scalar (an opaque atom)"""
    return atom(y)


# ---------------------------------------------------------------- sums/products
def bigsum(n, v, body):
    """sum_{v<n} body"""
    if body.op != "poly" or n.op != "poly":
        return unk_scalar("bigsum")
    if body is ZERO:
        return ZERO
    cn = const_val(n)
    if cn is not None and cn <= 8:
        r = ZERO
        for i in range(max(cn, 0)):
            r = add(r, subst(body, {v: const(i)}))
        return r
    # linearity; pull out factors not depending on v
    r = ZERO
    for m, c in body.args[0]:
        dep = tuple((a, e) for a, e in m if v in a.fv)
        ind_ = tuple((a, e) for a, e in m if v not in a.fv)
        coef = mk("poly", ((ind_, c),)) if ind_ else const(c)
        if not dep:
            s = n
        elif len(dep) == 1 and dep[0][1] == 1 and dep[0][0].op == "ind":
            s = _sum_ind(n, v, dep[0][0])
        else:
            s = atom(mk("bigsum", n, bind(v, mk("poly", ((dep, 1),)))))
        r = add(r, mul(coef, s))
    return r


def _sum_ind(n, v, a):
    return atom(mk("bigsum", n, bind(v, atom(a))))


def bigprod(n, v, body):
    if body.op != "poly":
        return unk_scalar("bigprod")
    cn = const_val(n)
    if cn is not None and cn <= 8:
        r = ONE
        for i in range(max(cn, 0)):
            r = mul(r, subst(body, {v: const(i)}))
        return r
    if body is ONE:
        return ONE
    # product over a whole sequence: prod(S)
    if v in body.fv:
        s = _whole_seq(n, v, body)
        if s is not None:
            return prod(s)
    return atom(mk("bigprod", n, bind(v, body)))


def _whole_seq(n, v, body):
    """S if body == nth(S, v) or nth(S, n-1-v), with n == len S"""
    a = single_atom(body)
    if a is None or a.op != "nth":
        return None
    s, i = a.args
    if v in s.fv or length(s) is not n:
        return None
    if i is atom(v) or i is sub(sub(n, ONE), atom(v)):
        return s
    return None


# ---------------------------------------------------------------- sequences
SEQOPS = {"seqlit", "smap", "sseq", "concat", "flatten", "sslice", "upd", "scat", "unflat", "filt", "seqof", "perm"}


def is_seq(t):
    if t.op == "ite":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    return t.op in SEQOPS


def seqlit(*xs):
    return mk("seqlit", *xs)


EMPTY = seqlit()


def smap(n, v, body):
    """[body | v < n]"""
    cn = const_val(n)
    if cn is not None and cn <= 8:
        return seqlit(*[subst(body, {v: const(i)}) for i in range(max(cn, 0))])
    # eta: [S[v] | v < len S] = S
    s = _eta(n, v, body)
    if s is not None:
        return s
    return mk("smap", n, bind(v, body))


def _eta(n, v, body):
    a = single_atom(body) if body.op == "poly" else None
    if a is not None and a.op == "nth" and a.args[1] is atom(v) and v not in a.args[0].fv:
        s = a.args[0]
        if length(s) is n:
            return s
    return None


def sseq(name, n, kind="int"):
    """an opaque sequence of n elements; kind tells how elements expand"""
    if isinstance(name, Term) and name.op == "sseq" and kind == name.args[2]:
        return name
    return mk("sseq", name, n, kind)


def length(s):
    op = s.op
    if op == "seqlit":
        return const(len(s.args))
    if op == "smap":
        return s.args[0]
    if op == "sseq":
        return s.args[1]
    if op == "concat":
        return add(*[length(x) for x in s.args])
    if op == "flatten":
        n, lam = s.args
        v = fresh()
        l = length(open_(lam, atom(v)))
        if l.op != "poly":
            return unk_scalar("len")
        return bigsum(n, v, l)
    if op == "sslice":
        return s.args[2]
    if op in ("upd", "scat"):
        return length(s.args[0])
    if op == "unflat":
        return length(s.args[1])
    if op == "inc":
        return length(s.args[0])
    if op == "filt":
        return atom(mk("len", s))
    if op == "ite":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if op == "perm":
        return length(s.args[0])
    if op == "unk":
        return unk_scalar("len")
    return atom(mk("len", s))


EXPAND = None  # hook: expand an opaque element of kind k  (set by interp)


def nth(s, i, decide=None):
    op = s.op
    ci = const_val(i)
    if op == "seqlit":
        if ci is not None:
            if 0 <= ci < len(s.args):
                return s.args[ci]
            return unk("index out of range")
        if len(set(s.args)) == 1:
            return s.args[0]
        if s.args and all(x.op == "poly" for x in s.args) and len(s.args) <= 4 and all(const_val(x) is not None for x in s.args):
            r = s.args[-1]
            for k in range(len(s.args) - 2, -1, -1):
                r = ite(eq0(sub(i, const(k))), s.args[k], r)
            return r
        if s.args and s.args[0].op == "poly":
            return atom(mk("nth", s, i))
        return mk("nth", s, i)
    if op == "smap":
        return open_(s.args[1], i)
    if op == "sseq":
        k = s.args[2]
        if k in ("int", "elem"):
            return atom(mk("nth", s, i))
        return EXPAND(k, mk("nth", s, i))
    if op in ("unflat", "inc", "bshape"):
        return atom(mk("nth", s, i))
    if op == "concat":
        off = ZERO
        r = None
        parts = s.args
        conds = []
        for p in parts[:-1]:
            l = length(p)
            c = lt(i, add(off, l))
            if decide is not None and c not in (TRUE, FALSE):
                d = decide(c)
                if d is not None:
                    c = boolc(d)
            conds.append((c, p, off))
            off = add(off, l)
        r = ("last", parts[-1], off)
        out = None
        for c, p, o in conds:
            if c is TRUE:
                r = ("t", p, o)
                conds = conds[: [x[1] for x in conds].index(p)]
                break
        out = nth(r[1], sub(i, r[2]), decide)
        for c, p, o in reversed(conds):
            if c is FALSE:
                continue
            out = ite(c, nth(p, sub(i, o), decide), out)
        return out
    if op == "flatten":
        n, lam = s.args
        v = fresh()
        body = open_(lam, atom(v))
        l = length(body)
        if v not in l.fv:
            q, r = divmod_(i, l, decide)
            return nth(open_(lam, q), r, decide)
        return mk_nth_opaque(s, i)
    if op == "sslice":
        return nth(s.args[0], add(s.args[1], i), decide)
    if op == "upd":
        b, j, x = s.args
        c = eq0(sub(i, j))
        if decide is not None and c not in (TRUE, FALSE):
            d = decide(c)
            if d is not None:
                c = boolc(d)
        if c is TRUE:
            return x
        if c is FALSE:
            return nth(b, i, decide)
        return ite(c, x, nth(b, i, decide))
    if op == "scat":
        r = scat_nth(s, i, decide)
        if r is not None:
            return r
        return mk_nth_opaque(s, i)
    if op == "ite":
        return ite(s.args[0], nth(s.args[1], i, decide), nth(s.args[2], i, decide))
    if op == "unk":
        return s
    if op == "perm":
        # some arrangement of the elements
        return unk("element of a rearranged sequence")
    return mk_nth_opaque(s, i)


def mk_nth_opaque(s, i):
    if elem_is_scalar(s):
        return atom(mk("nth", s, i))
    return mk("nth", s, i)


def elem_is_scalar(s):
    if s.op == "seqlit":
        return bool(s.args) and s.args[0].op == "poly"
    if s.op == "smap":
        return open_(s.args[1], atom(fresh())).op == "poly"
    if s.op == "sseq":
        return s.args[2] in ("int", "elem")
    if s.op in ("upd", "scat", "sslice"):
        return elem_is_scalar(s.args[0])
    if s.op == "concat":
        return any(elem_is_scalar(x) for x in s.args)
    if s.op == "flatten":
        return elem_is_scalar(open_(s.args[1], atom(fresh())))
    if s.op == "unflat":
        return True
    if s.op == "filt":
        return open_(s.args[2], atom(fresh())).op == "poly"
    return True


def concat(*ss):
    out = []
    for s in ss:
        if s.op == "concat":
            out.extend(s.args)
        elif s is EMPTY:
            continue
        else:
            out.append(s)
    # merge adjacent literals
    new = []
    for s in out:
        if new and new[-1].op == "seqlit" and s.op == "seqlit":
            new[-1] = seqlit(*(new[-1].args + s.args))
        else:
            new.append(s)
    if not new:
        return EMPTY
    if len(new) == 1:
        return new[0]
    if any(s.op == "unk" for s in new):
        return unk("concat")
    return mk("concat", *new)


def flatten(n, v, body):
    """concatenation of body(v) for v < n"""
    if body.op == "unk":
        return body
    cn = const_val(n)
    if cn is not None and cn <= 8:
        return concat(*[subst(body, {v: const(i)}) for i in range(max(cn, 0))])
    if body.op == "seqlit" and len(body.args) == 1:
        return smap(n, v, body.args[0])
    if body is EMPTY:
        return EMPTY
    return mk("flatten", n, bind(v, body))


def sslice(s, start, n):
    if start is ZERO and length(s) is n:
        return s
    if s.op == "sslice":
        return sslice(s.args[0], add(s.args[1], start), n)
    cs, cn = const_val(start), const_val(n)
    if s.op == "seqlit" and cs is not None and cn is not None:
        if cs + cn <= len(s.args) and cs >= 0 and cn >= 0:
            return seqlit(*s.args[cs:cs + cn])
        return unk("slice out of range")
    if cn is not None and cn <= 4 and cn >= 0 and s.op != "unk":
        return seqlit(*[nth(s, add(start, const(i))) for i in range(cn)])
    if s.op == "smap":
        v = fresh()
        return smap(n, v, open_(s.args[1], add(atom(v), start)))
    if s.op == "unk":
        return s
    return mk("sslice", s, start, n)


def upd(s, i, x):
    if s.op == "unk":
        return s
    ci = const_val(i)
    if s.op == "seqlit" and ci is not None:
        if 0 <= ci < len(s.args):
            return seqlit(*(s.args[:ci] + (x,) + s.args[ci + 1:]))
        return unk("index out of range")
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, x)
    if s.op in ("sseq", "smap", "unflat", "upd", "seqlit") and not x.unk:
        if nth(s, i) is x:
            return s
    return mk("upd", s, i, x)


def rev(s):
    if s.op == "seqlit":
        return seqlit(*reversed(s.args))
    n = length(s)
    v = fresh()
    return smap(n, v, nth(s, sub(sub(n, ONE), atom(v))))


# --- scatters: base updated at pos(v..) with val(v..) for all v.. in a domain
# dom  ::=  dom(n, lam dom) | pv(guard, pos, val)
def pv(guard, pos, val):
    return mk("pv", guard, pos, val)


def dom(n, v, d):
    cn = const_val(n)
    if cn == 0:
        return mk("nodom")
    if d.op == "nodom":
        return d
    if cn == 1:
        return subst(d, {v: ZERO})
    return mk("dom", n, bind(v, d))


def dom_open(d):
    """-> ([(var, n)], guard, pos, val)"""
    vs = []
    while d.op == "dom":
        v = fresh("d")
        vs.append((v, d.args[0]))
        d = open_(d.args[1], atom(v))
    if d.op == "nodom":
        return None
    g, p, x = d.args
    return vs, g, p, x


def scat(base, kind, d):
    """kind: 'set' (last write wins) or 'add'"""
    if d.op == "nodom":
        return base
    if d.op == "pv" and d.args[0] is TRUE:
        if kind == "set":
            return upd(base, d.args[1], d.args[2])
        return upd(base, d.args[1], add(nth(base, d.args[1]), d.args[2]))
    return mk("scat", base, kind, d)


def solve_affine(v, pos, target):
    """w with pos[v:=w] == target, for pos = +-v + rest"""
    d = {}
    coef = 0
    for m, c in pos.args[0]:
        if m == ((v, 1),):
            coef = c
        else:
            if any(v in a.fv for a, e in m):
                return None
            d[m] = c
    if coef not in (1, -1):
        return None
    return scale(sub(target, _poly(d)), coef)


def scat_nth(s, i, decide):
    base, kind, d = s.args
    o = dom_open(d)
    if o is None:
        return nth(base, i, decide)
    vs, g, pos, val = o
    if g is not TRUE or kind != "set":
        if kind == "add" and g is TRUE and len(vs) == 1:
            pass
        else:
            return None
    if len(vs) == 1:
        v, n = vs[0]
        w = solve_affine(v, pos, i)
        if w is None:
            return None
        x = subst(val, {v: w})
        c1 = le0(neg(w)) if _may_neg(w) else TRUE
        c2 = lt(w, n)
        cs = []
        for c in (c1, c2):
            if decide is not None and c not in (TRUE, FALSE):
                dd = decide(c)
                if dd is not None:
                    c = boolc(dd)
            cs.append(c)
        c = band(*cs)
        b = nth(base, i, decide)
        if kind == "set":
            return ite(c, x, b)
        return add(b, mul(ind(c), x))
    return None


def _may_neg(p):
    return any(c < 0 for m, c in p.args[0])


# ---------------------------------------------------------------- shapes
def prod(s):
    """product of the elements of an integer sequence"""
    if s.op == "seqlit":
        r = ONE
        for x in s.args:
            r = mul(r, x)
        return r
    if s.op == "concat":
        r = ONE
        for x in s.args:
            r = mul(r, prod(x))
        return r
    if s.op == "ite":
        return ite(s.args[0], prod(s.args[1]), prod(s.args[2]))
    if s.op == "unk":
        return unk_scalar("prod")
    if s.op == "smap":
        # reversal does not change the product
        n, lam = s.args
        v = fresh()
        b = open_(lam, atom(v))
        a = single_atom(b)
        if a is not None and a.op == "nth" and length(a.args[0]) is n and v not in a.args[0].fv \
                and a.args[1] is sub(sub(n, ONE), atom(v)):
            return prod(a.args[0])
        cv = const_val(b)
        if cv == 1:
            return ONE
    return atom(mk("prod", s))


def flat(I, S, decide=None):
    """row-major position of multi-index I in shape S, broadcasting like
    global_index: a dimension of extent one contributes nothing and surplus
    leading coordinates are ignored"""
    if I.unk or S.unk:
        return unk_scalar("flat")
    if I.op == "unflat" and I.args[1] is S:
        return I.args[0]
    if I.op == "ite":
        return ite(I.args[0], flat(I.args[1], S, decide), flat(I.args[2], S, decide))
    lS = const_val(length(S))
    lI = const_val(length(I))
    if lS is not None and (lI is not None or I.op in ("unflat", "sseq", "smap")):
        if lS == 0:
            return ZERO
        r = ZERO
        mult = ONE
        for k in range(lS):
            p = lS - 1 - k
            if lI is not None:
                if k >= lI:
                    break
                ix = nth(I, const(lI - 1 - k), decide)
            else:
                ix = nth(I, sub(length(I), const(k + 1)), decide)
            d = nth(S, const(p), decide)
            if d.op != "poly" or ix.op != "poly":
                return unk_scalar("flat")
            if const_val(d) == 1:
                continue
            c1 = eq0(sub(d, ONE))
            if decide is not None and (c1 is FALSE or decide(lt(ix, d)) is True):
                contrib = ix  # ix < d, so d == 1 forces ix == 0
            else:
                contrib = ite(c1, ZERO, ix)
            r = add(r, mul(contrib, mult))
            mult = mul(mult, d)
        return r
    # all-zero index
    if I.op == "smap" and open_(I.args[1], atom(fresh())) is ZERO:
        return ZERO
    if I.op == "seqlit" and all(x is ZERO for x in I.args):
        return ZERO
    return atom(mk("flat", I, S))


def unflat(k, S, decide=None):
    """the k-th multi-index of shape S in row-major order"""
    if k is ZERO:
        n = length(S)
        return smap(n, fresh(), ZERO)
    if S.op == "seqlit":
        # leading dimensions of extent 1 contribute nothing
        dims = S.args
        if len(dims) == 0:
            return EMPTY
        big = [d for d in dims if const_val(d) != 1]
        if len(big) <= 1 and (not big or decide is None or True):
            out = []
            for d in dims:
                if const_val(d) == 1:
                    out.append(ZERO)
                else:
                    out.append(k)
            # only valid while k < prod S; callers guarantee it
            return seqlit(*out)
        # k = mixed radix polynomial?
        out = []
        rest = k
        ok = True
        for d in reversed(dims[1:]):
            q, r = divmod_(rest, d, decide)
            out.append(r)
            rest = q
        out.append(rest)
        out.reverse()
        if not any(a.op == "div" for x in out for m, c in x.args[0] for a, e in m):
            return seqlit(*out)
    if k.op == "poly":
        a = single_atom(k)
        if a is not None and a.op == "flat" and a.args[1] is S and a.args[0].op == "unflat":
            pass
    return mk("unflat", k, S)


def in_range(I, S, decide=None):
    """condition under which global_index(I, S) succeeds"""
    if I.unk or S.unk:
        return unk("in_range")
    if I.op == "unflat" and I.args[1] is S:
        return lt(I.args[0], prod(S))
    if I.op == "ite":
        return ite(I.args[0], in_range(I.args[1], S, decide), in_range(I.args[2], S, decide))
    if I.op == "smap" and length(I) is length(S) and open_(I.args[1], atom(fresh())) is ZERO:
        # all-zero index: fails only when some dimension is empty
        return bnot(eq0(prod(S)))
    lS = const_val(length(S))
    lI = const_val(length(I))
    if lS is not None and lI is not None:
        cs = []
        for k in range(lS):
            d = nth(S, const(lS - 1 - k))
            if k >= lI:
                cs.append(eq0(sub(d, ONE)))
            else:
                ix = nth(I, const(lI - 1 - k))
                cs.append(bor(eq0(sub(d, ONE)), lt(ix, d)))
        return band(*cs)
    if I.op == "unflat":
        T = I.args[1]
        # an index of a broadcast shape is valid in the shapes it came from
        if T.op == "bshape" and S in T.args:
            return bor(lt(I.args[0], prod(T)))
    return mk("bapp", "in_range", I, S)


def bshape(a, b):
    """broadcast of two shapes (elementwise maximum, aligned at the right)"""
    if a is b:
        return a
    la, lb = const_val(length(a)), const_val(length(b))
    if la is not None and lb is not None:
        n = max(la, lb)
        out = []
        for k in range(n):
            xs = []
            if k < la:
                xs.append(nth(a, const(la - 1 - k)))
            if k < lb:
                xs.append(nth(b, const(lb - 1 - k)))
            out.append(xs[0] if len(xs) == 1 else imax(xs[0], xs[1]))
        return seqlit(*reversed(out))
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.ser > b.ser:
        a, b = b, a
    return mk("bshape", a, b)


SEQOPS.add("bshape")


def inc(I, S):
    """the next multi-index of shape S (contract of the odometer step)"""
    if I.op == "unflat" and I.args[1] is S:
        return unflat(add(I.args[0], ONE), S)
    if all_zero(I) and length(I) is length(S):
        return unflat(ONE, S)
    if I.op == "ite":
        return ite(I.args[0], inc(I.args[1], S), inc(I.args[2], S))
    if I.op == "unk" or S.op == "unk":
        return unk("inc")
    return mk("inc", I, S)


def incok(I, S):
    if I.op == "unflat" and I.args[1] is S:
        return lt(add(I.args[0], ONE), prod(S))
    if all_zero(I) and length(I) is length(S):
        return lt(ONE, prod(S))
    if I.op == "ite":
        return ite(I.args[0], incok(I.args[1], S), incok(I.args[2], S))
    if I.op == "unk" or S.op == "unk":
        return unk("incok")
    return mk("incok", I, S)


def all_zero(I):
    return I.op == "smap" and open_(I.args[1], atom(fresh())) is ZERO or \
        I.op == "seqlit" and len(I.args) > 0 and all(x is ZERO for x in I.args)


SEQOPS.add("inc")
BOOLOPS.add("incok")


CONS = {
    "poly": None,
    "and": band,
    "or": bor,
    "not": bnot,
    "le0": le0,
    "eq0": eq0,
    "elt0": elt0,
    "eeq0": eeq0,
    "eqs": eq,
    "eqv": eq,
    "ite": ite,
    "ind": ind,
    "upd": upd,
    "concat": concat,
    "sslice": sslice,
    "scat": scat,
    "nth": nth,
    "prod": prod,
    "flat": flat,
    "unflat": unflat,
    "bshape": bshape,
    "inc": inc,
    "incok": incok,
}


def _re_lam(f):
    def g(n, lam):
        v = fresh()
        return f(n, v, open_(lam, atom(v)))

    return g


CONS["smap"] = _re_lam(smap)
CONS["flatten"] = _re_lam(flatten)
CONS["bigsum"] = _re_lam(bigsum)
CONS["bigprod"] = _re_lam(bigprod)
CONS["exists"] = _re_lam(exists)
CONS["dom"] = _re_lam(dom)
CONS["div"] = lambda p, q: divmod_(p, q)[0]
CONS["len"] = length
CONS["sseq"] = sseq


def _bapp(name, *a):
    if name == "in_range":
        return in_range(*a)
    return mk("bapp", name, *a)


CONS["bapp"] = _bapp
del CONS["poly"]


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    op, a = t.op, t.args
    if op == "poly":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d + 1) + ("^%d" % e if e > 1 else "") for x, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%d*%s" % (c, s)
            out.append(s)
        return out[0] if len(out) == 1 else "(" + " + ".join(out) + ")"
    if op == "var":
        return a[0]
    if op == "bv":
        return "b%d" % a[0]
    if op == "lam":
        return "λb%d. %s" % (a[0], show(a[1], d + 1))
    if op == "nth":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "sseq":
        return show(a[0], d + 1)
    if op == "sym":
        return show(a[0], d + 1)
    if op == "seqlit":
        return "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if op == "struct":
        n = a[0].split("::")[-1]
        return "%s%s{%s}" % (n, "#%d" % a[1] if a[1] else "", ", ".join(show(x, d + 1) for x in a[2:]))
    if op == "ind":
        return "[%s]" % show(a[0], d + 1)
    if op == "le0":
        return "%s≤0" % show(a[0], d + 1)
    if op in ("eq0", "eeq0"):
        return "%s=0" % show(a[0], d + 1)
    if op == "elt0":
        return "%s<0" % show(a[0], d + 1)
    if op == "not":
        return "¬" + show(a[0], d + 1)
    if op == "and":
        return "(" + " ∧ ".join(show(x, d + 1) for x in a) + ")"
    if op == "or":
        return "(" + " ∨ ".join(show(x, d + 1) for x in a) + ")"
    if op == "ref":
        return "&" + show(a[0], d + 1)
    if not a:
        return op
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))
