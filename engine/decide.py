"""Deciding conditions from known facts (linear integer arithmetic, equality
substitution and instantiation of universally quantified facts), and
simplifying terms under facts.  Always sound, deliberately incomplete."""
from fractions import Fraction
from term import *
import term as TM

_cache = {}


def flatten_facts(facts):
    out = []
    seen = set()
    work = list(facts)
    while work:
        f = work.pop(0)
        if f.op == "and":
            work = list(f.args) + work
        elif f is not TRUE and f not in seen:
            seen.add(f)
            out.append(f)
    return out


def _mono_map(p):
    return {m: Fraction(c) for m, c in p.args[0]}


def _lin_facts(facts):
    """list of (dict mono->coef) each meaning  sum <= 0"""
    out = []
    for f in facts:
        if f.op == "le0" and not has_ind(f.args[0]):
            out.append(_mono_map(f.args[0]))
        elif f.op == "eq0" and not has_ind(f.args[0]):
            out.append(_mono_map(f.args[0]))
            out.append(_mono_map(neg(f.args[0])))
        elif f.op == "not" and f.args[0].op == "eq0":
            p = f.args[0].args[0]
            if all(nonneg_atom(a) for m, c in p.args[0] for a, e in m) and len(p.args[0]) == 1 and p.args[0][0][1] == 1:
                d = {p.args[0][0][0]: Fraction(-1), (): Fraction(1)}
                out.append(d)
    return out


def has_ind(p):
    return any(a.op == "ind" for m, c in p.args[0] for a, e in m)


def _contradiction(cons, limit=220):
    """Fourier-Motzkin over monomials: is the system  all(c <= 0)  infeasible?"""
    cons = [dict(c) for c in cons]
    seen = set()

    def norm(c):
        c = {m: v for m, v in c.items() if v != 0}
        if not c:
            return None
        vs = [abs(v) for m, v in c.items() if m != ()]
        if vs:
            g = max(vs)
            c = {m: v / g for m, v in c.items()}
        return c

    work = []
    for c in cons:
        c = norm(c)
        if c is None:
            continue
        if set(c) == {()}:
            if c[()] > 0:
                return True
            continue
        k = frozenset(c.items())
        if k not in seen:
            seen.add(k)
            work.append(c)
    while True:
        vars_ = {}
        for c in work:
            for m in c:
                if m != ():
                    vars_.setdefault(m, [0, 0])
                    vars_[m][0 if c[m] > 0 else 1] += 1
        if not vars_:
            return False
        # eliminate the cheapest variable
        m = min(vars_, key=lambda m: vars_[m][0] * vars_[m][1] - vars_[m][0] - vars_[m][1])
        pos = [c for c in work if c.get(m, 0) > 0]
        negs = [c for c in work if c.get(m, 0) < 0]
        rest = [c for c in work if m not in c or c[m] == 0]
        new = []
        for p in pos:
            for q in negs:
                d = {}
                for mm, v in p.items():
                    d[mm] = d.get(mm, 0) + v / p[m]
                for mm, v in q.items():
                    d[mm] = d.get(mm, 0) + v / -q[m]
                d.pop(m, None)
                d = norm(d)
                if d is None:
                    continue
                if set(d) == {()}:
                    if d[()] > 0:
                        return True
                    continue
                k = frozenset(d.items())
                if k not in seen:
                    seen.add(k)
                    new.append(d)
        work = rest + new
        if len(work) > limit:
            return False


def _atoms_of(p):
    return {a for m, c in p.args[0] for a, e in m}


def _prove_le0(p, facts):
    if has_ind(p):
        return False
    lin = _lin_facts(facts)
    goal = _mono_map(sub(ONE, p))
    monos = set(goal)
    # products of facts with atoms occurring in non-linear monomials of the goal
    atoms = set()
    for m in list(monos):
        if len(m) > 1 or (m and m[0][1] > 1):
            for a, e in m:
                atoms.add(a)
    # relevant facts: connected through monomials / atoms
    cons = [goal]
    rel = set(monos)
    ratoms = {a for m in monos for a, e in m}
    prods = []
    for f in lin:
        for a in atoms:
            if not nonneg_atom(a):
                continue
            d = {}
            ok = True
            for m, v in f.items():
                dd = dict(m)
                dd[a] = dd.get(a, 0) + 1
                mm = tuple(sorted(dd.items(), key=lambda ae: ae[0].ser))
                d[mm] = d.get(mm, 0) + v
            if any(mm in monos for mm in d):
                prods.append(d)
    cand = lin + prods[:30]
    changed = True
    used = [False] * len(cand)
    while changed:
        changed = False
        for i, f in enumerate(cand):
            if not used[i] and any(m in rel for m in f if m != ()):
                used[i] = True
                cons.append(f)
                rel.update(m for m in f if m != ())
                changed = True
        if len(cons) > 40:
            break
    for m in list(rel):
        if m != () and all(nonneg_atom(a) for a, e in m):
            cons.append({m: Fraction(-1)})
    # div atoms: q*(p/q) <= p ; p <= q*(p/q) + q-1 for constant q
    for m in list(rel):
        for a, e in m:
            if a.op == "div":
                pp, qq = a.args
                r = sub(pp, mul(atom(a), qq))
                cons.append(_mono_map(neg(r)))
                cons.append(_mono_map(sub(add(r, ONE), qq)))
    return _contradiction(cons)


def _index_candidates(t, acc, depth=0):
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (Term, tuple)):
                _index_candidates(x, acc, depth)
        return
    if t.op == "nth" and t.args[1].h == 0:
        acc[t.args[1]] = 1
    if depth < 8:
        for x in t.args:
            if isinstance(x, (Term, tuple)):
                _index_candidates(x, acc, depth + 1)


def _instances(goal, facts):
    out = []
    fas = [f for f in facts if f.op == "not" and f.args[0].op == "exists"]
    if not fas:
        return out
    acc = {}
    _index_candidates(goal, acc)
    cands = list(acc)[:6]
    for f in fas[:12]:
        n, lam = f.args[0].args
        extra = []
        for i in cands:
            extra.append(i)
            extra.append(sub(sub(n, ONE), i))
        seen = set()
        for i in extra:
            if i in seen:
                continue
            seen.add(i)
            if decide(lt(i, n), facts, inst=False) is True and decide(le(ZERO, i), facts, inst=False) is True:
                out.append(bnot(open_(lam, i)))
    return flatten_facts(out)


def decide(c, facts, inst=True):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    key = (c, tuple(facts), inst)
    r = _cache.get(key, 0)
    if r == 0:
        _cache[key] = None
        r = _decide(c, flatten_facts(facts), inst)
        _cache[key] = r
    return r


_dcache = {}
_sizes = {}


def size(t, cap=2000):
    r = _sizes.get(t)
    if r is None:
        r = 1
        for a in TM._subterms(t.args):
            r += size(a, cap)
            if r > cap:
                break
        _sizes[t] = r
    return r


def _decide(c, facts, inst=True):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    key = (c, tuple(facts), inst)
    r = _dcache.get(key, 0)
    if r == 0:
        _dcache[key] = None
        r = _dcache[key] = _decide1(c, facts, inst) if size(c) <= 400 else None
    return r


def _decide1(c, facts, inst=True):
    if c in facts:
        return True
    nc = bnot(c)
    if nc in facts:
        return False
    op = c.op
    if op == "and":
        rs = [_decide(x, facts, inst) for x in c.args]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if op == "or":
        rs = [_decide(x, facts, inst) for x in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if op == "not":
        r = _decide(c.args[0], facts, inst)
        return None if r is None else not r
    # disjunctive facts with all but one literal refuted
    for f in facts:
        if f.op == "or" and (c in f.args or nc in f.args) and len(f.args) <= 4:
            rest = [x for x in f.args if x is not c and x is not nc]
            fs = [g for g in facts if g is not f]
            if all(_decide(x, fs, False) is False for x in rest):
                return c in f.args
    if op == "le0":
        if _prove_le0(c.args[0], facts):
            return True
        if _prove_le0(sub(ONE, c.args[0]), facts):
            return False
    if op == "eq0":
        p = c.args[0]
        if not has_ind(p):
            if _prove_le0(add(p, ONE), facts) or _prove_le0(sub(ONE, p), facts):
                return False
            if _prove_le0(p, facts) and _prove_le0(neg(p), facts):
                return True
    if op in ("le0", "eq0", "eqs", "bapp", "eeq0", "elt0") and inst:
        more = _instances(c, facts)
        if more:
            return _decide(c, facts + more, False)
    if op == "eqs":
        a, b = c.args
        # transitivity through equality facts
        cls = {a}
        for _ in range(3):
            for f in facts:
                if f.op == "eqs":
                    if f.args[0] in cls:
                        cls.add(f.args[1])
                    if f.args[1] in cls:
                        cls.add(f.args[0])
        if b in cls:
            return True
        la, lb = length(a), length(b)
        if _decide(eq(la, lb), facts, False) is False:
            return False
    if op == "exists":
        n, lam = c.args
        if _decide(eq0(n), facts, False) is True:
            return False
        v = fresh()
        b = open_(lam, atom(v))
        r = _decide(b, facts + [lt(atom(v), n)], inst)
        if r is False:
            return False
        if r is True and _decide(eq0(n), facts, False) is False:
            return True
    if op == "bapp" and c.args[0] == "in_range":
        I, S = c.args[1], c.args[2]
        if I.op == "unflat":
            T = I.args[1]
            if _covers(T, S, facts) and _decide(lt(I.args[0], prod(T)), facts, inst) is True:
                return True
    return None


def bcast(a, b):
    """numpy broadcastability of two shapes"""
    la, lb = length(a), length(b)
    n = imin(la, lb)
    v = fresh()
    x = nth(a, sub(sub(la, ONE), atom(v)))
    y = nth(b, sub(sub(lb, ONE), atom(v)))
    return bnot(exists(n, v, band(bnot(eq(x, y)), bnot(eq(x, ONE)), bnot(eq(y, ONE)))))


def _covers(T, S, facts):
    """every index of T is a valid broadcasting index of S"""
    if T is S:
        return True
    if T.op == "bshape":
        a, b = T.args
        if S in (a, b):
            return _decide(bcast(a, b), facts, False) is True or _decide(bcast(b, a), facts, False) is True
    return False


# ---------------------------------------------------------------- simplify
LIT = {"le0", "eq0", "elt0", "eeq0", "eqs", "eqv", "exists", "isvar", "boolsym", "bapp"}
_scache = {}


def simp(t, facts):
    facts = tuple(facts)
    key = (t, facts)
    r = _scache.get(key)
    if r is None:
        r = _simp(t, facts)
        _scache[key] = r
    return r


def eq_map(facts):
    """orient sequence equalities: later symbol -> earlier symbol"""
    m = {}
    for f in flatten_facts(facts):
        if f.op == "eqs":
            a, b = f.args
            if a.op == "sseq" and not occurs(a, b):
                pass
            if b.op == "sseq" and not occurs(b, a):
                m[b] = a
            elif a.op == "sseq" and not occurs(a, b):
                m[a] = b
    # resolve chains
    for _ in range(3):
        for k in list(m):
            v = m[k]
            if v in m and m[v] is not k:
                m[k] = m[v]
    return m


def _simp(t, facts):
    em = eq_map(facts)
    ff = flatten_facts(facts)
    memo = {}

    def go(t, extra):
        if isinstance(t, tuple):
            return tuple(go(x, extra) if isinstance(x, (Term, tuple)) else x for x in t)
        key = (t, extra)
        r = memo.get(key)
        if r is not None:
            return r
        op = t.op
        if t in em:
            r = em[t]
        elif op in LIT:
            r = None
            d = decide(t, facts + extra)
            if d is not None:
                r = boolc(d)
            else:
                r = descend(t, extra)
                if r is not t and r.op in LIT:
                    d = decide(r, facts + extra)
                    if d is not None:
                        r = boolc(d)
        elif op == "ite":
            c = go(t.args[0], extra)
            if c is TRUE:
                r = go(t.args[1], extra)
            elif c is FALSE:
                r = go(t.args[2], extra)
            else:
                r = TM.ite(c, go(t.args[1], extra + (c,)), go(t.args[2], extra + (bnot(c),)))
        else:
            r = descend(t, extra)
        memo[key] = r
        return r

    def descend(t, extra):
        op = t.op
        if op in ("smap", "flatten", "bigsum", "bigprod", "exists", "dom"):
            n = go(t.args[0], extra)
            v = fresh()
            b = open_(t.args[1], atom(v))
            nb = go(b, extra + (lt(atom(v), n),))
            if n is t.args[0] and nb is b:
                return t
            f = {"smap": smap, "flatten": flatten, "bigsum": bigsum, "bigprod": bigprod, "exists": exists,
                 "dom": dom}[op]
            return f(n, v, nb)
        if op == "in_range" or op == "bapp":
            pass
        if op == "pv":
            g = go(t.args[0], extra)
            if g is FALSE:
                return mk("nodom")
            ex = extra + (g,) if g is not TRUE else extra
            return pv(g, go(t.args[1], ex), go(t.args[2], ex))
        if op == "poly":
            # keep a case split local: [c]*x is simplified under c
            r = ZERO
            changed = False
            for mono, c in t.args[0]:
                inds = [a for a, e in mono if a.op == "ind"]
                ex = extra
                if inds:
                    ex = extra + tuple(a.args[0] for a in inds)
                term = const(c)
                mchg = False
                for a, e in mono:
                    if a.op == "ind":
                        y = ind(go(a.args[0], extra))
                    else:
                        y = go(a, ex)
                        if y.op != "poly":
                            y = atom(y)
                    if single_atom(y) is not a:
                        mchg = True
                    term = mul(term, power(y, e))
                changed = changed or mchg
                r = add(r, term)
                if r.op != "poly":
                    return r
            return r if changed else t
        if op == "nth":
            s = go(t.args[0], extra)
            i = go(t.args[1], extra)
            return nth(s, i, lambda c: decide(c, facts + extra))
        if op == "flat":
            return flat(go(t.args[0], extra), go(t.args[1], extra), lambda c: decide(c, facts + extra))
        return rebuild(t, lambda x: go(x, extra))

    return go(t, ())
