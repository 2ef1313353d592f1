"""Separating closed-form terms: two normal forms that differ are reported as
different only when some valuation of their atoms (extents, elements, opaque
results) that satisfies the assumptions gives them different values.  This
interprets the terms of the domain, never the program."""
import hashlib
import random
import time
from fractions import Fraction
import term as TM
from term import Term, mk, length


class Undef(Exception):
    pass


class TooBig(Exception):
    pass


def whole(v):
    """one representation for each number"""
    return int(v) if isinstance(v, Fraction) and v.denominator == 1 else type(v)(whole(x) for x in v) if type(v) in (tuple, list) else v


def hsh(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


class Val:
    """a valuation: assigned values by atom name, the rest derived from the seed"""

    def __init__(self, seed, assign=None, dims=(1, 2, 3), maxlen=3):
        self.seed = seed
        self.assign = dict(assign or {})
        self.dims = dims
        self.maxlen = maxlen
        self.bv = {}
        self.memo = {}
        self.fuel = 400000
        self.seqs = {}
        self.extra = ()
        self.cap = 600

    def key(self, t):
        """canonical run-to-run stable key of an opaque name, with evaluated arguments"""
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self.key(x) for x in t)
            return t
        if t.op in ("tag", "var", "sym", "fld", "content", "lockid", "arcid", "app", "fnsym", "osym", "esym", "alloc", "content_at", "fn", "first_err", "lam", "fnval", "closure", "chan", "send", "recv", "velems"):
            return (t.op,) + tuple(self.key(x) for x in t.args)
        return whole(self.ev(t))

    def elem(self, k):
        """an element of the ordered ring"""
        h = hsh(self.seed, "e", k)
        m = h % 11
        if self.extra and (h >> 20) % 4 == 0:
            return self.extra[(h >> 24) % len(self.extra)]
        if self.seed % 3 == 1 and (h >> 36) % 3 < 2:
            # values between the integers, mostly small
            return Fraction(m - 5, 8 if (h >> 40) % 2 else 2)
        return m - 5

    def dim(self, k):
        h = hsh(self.seed, "d", k)
        return self.dims[h % len(self.dims)]

    # ------------------------------------------------------------
    def ev(self, t):
        if t.h == 0 or not self.bv:
            r = self.memo.get(t)
            if r is not None:
                if r is Undef:
                    raise Undef()
                return r
            try:
                r = self._ev(t)
            except Undef:
                self.memo[t] = Undef
                raise
            self.memo[t] = r
            return r
        return self._ev(t)

    def _ev(self, t):
        self.fuel -= 1
        if self.fuel < 0:
            raise TooBig()
        f = getattr(self, "v_" + t.op, None)
        if f is None:
            if t.op in self.assign:
                return self.assign[t.op]
            return self.opaque(t)
        return f(*t.args)

    def opaque(self, t):
        if t.unk:
            raise TooBig()
        if t in self.assign:
            return self.assign[t]
        return (t.op,) + tuple(self.ev(x) if isinstance(x, Term) else self.evt(x) for x in t.args)

    def evt(self, x):
        if isinstance(x, tuple):
            return tuple(self.ev(y) if isinstance(y, Term) else self.evt(y) for y in x)
        return x

    def v_unk(self, *a):
        raise TooBig()

    def v_bv(self, h):
        if h not in self.bv:
            raise Undef()
        return self.bv[h]

    def v_var(self, n):
        t = mk("var", n)
        if t in self.assign:
            return self.assign[t]
        return self.dim(n)

    def under(self, lam, i):
        h, body = lam.args
        if body.h < h:
            return self.ev(body)
        old = self.bv.get(h)
        self.bv[h] = i
        try:
            return self.ev(body)
        finally:
            if old is None:
                del self.bv[h]
            else:
                self.bv[h] = old

    # ------------------------------------------------------------ scalars
    def v_poly(self, monos):
        s = 0
        for m, c in monos:
            p = c
            z = False
            for a, e in m:
                if a.op == "ind":
                    if not self.ev(a.args[0]):
                        z = True
                        break
            if z:
                continue
            und = None
            for a, e in m:
                if a.op == "ind":
                    continue
                try:
                    x = self.ev(a)
                except Undef as u:
                    und = u
                    continue
                if isinstance(x, tuple):
                    x = self.num(x)
                if isinstance(x, list):
                    raise Undef()
                p = p * x ** e
                if p == 0:
                    break
            else:
                if und is not None:
                    raise und
            s += p
        return s

    def num(self, x):
        return hsh(self.seed, "num", x) % 7

    def v_ind(self, c):
        return 1 if self.ev(c) else 0

    def v_esym(self, name):
        t = mk("esym", name)
        if t in self.assign:
            return self.assign[t]
        return self.elem(self.key(name))

    def v_efn(self, name, *args):
        vs = [whole(self.ev(a)) for a in args]
        if name == "abs":
            return abs(vs[0])
        if name == "recip":
            if vs[0] == 0:
                raise Undef()
            return Fraction(1) / vs[0]
        if name == "pow":
            if isinstance(vs[1], int) and 0 <= vs[1] < 20:
                return vs[0] ** vs[1]
        if name == "signum" and len(vs) == 1:
            return (vs[0] > 0) - (vs[0] < 0)
        return self.elem(("efn", name, tuple(vs)))

    def v_sym(self, *n):
        t = mk("sym", *n)
        if t in self.assign:
            return self.assign[t]
        return self.dim(self.key(t))

    def v_fld(self, *n):
        t = mk("fld", *n)
        if t in self.assign:
            return self.assign[t]
        return self.dim(self.key(t))

    def v_tag(self, *n):
        t = mk("tag", *n)
        if t in self.assign:
            return self.assign[t]
        return self.dim(self.key(t))

    def v_len(self, s):
        k = mk("len", s)
        if k in self.assign:
            return self.assign[k]
        if TM.is_seq(s) and s.op != "sseq":
            return len(self.ev(s))
        if s in self.seqs:
            return len(self.seqs[s])
        if s in self.assign:
            return len(self.assign[s])
        return hsh(self.seed, "len", self.key(s)) % (self.maxlen + 1)

    def v_nth(self, s, i):
        x = self.ev(s)
        j = self.ev(i)
        if isinstance(x, tuple) and x and x[0] == "LAZY":
            if not 0 <= j < x[2]:
                raise Undef()
            return self.lazy(x, j)
        if not isinstance(x, list):
            raise Undef()
        if not (isinstance(j, int) and 0 <= j < len(x)):
            raise Undef()
        return x[j]

    def at(self, t, i):
        """element i of the sequence t, without evaluating the others where that is possible"""
        if t in self.memo:
            x = self.ev(t)
        elif t.op == "smap":
            return self.under(t.args[1], i)
        elif t.op == "ite":
            return self.at(t.args[1] if self.ev(t.args[0]) else t.args[2], i)
        elif t.op == "concat":
            for s in t.args:
                n = self.ev(length(s))
                if i < n:
                    return self.at(s, i)
                i -= n
            raise Undef()
        elif t.op == "sslice":
            return self.at(t.args[0], self.ev(t.args[1]) + i)
        else:
            x = self.ev(t)
        if not isinstance(x, list) or not 0 <= i < len(x):
            raise Undef()
        return x[i]

    def probe(self, t, rng, c):
        """length and some elements of a long sequence"""
        n = self.ev(length(t))
        if not isinstance(n, int) or n <= 64:
            return self.ev(t)
        near = {0, 1, n - 2, n - 1, n // 2, n // 3, 2 * n // 3, c - 1, c, c + 1, 31, 32, 63, 64}
        pos = [i for i in sorted(near | {rng.randrange(n) for _ in range(16)}) if 0 <= i < n]
        while t.op == "ite":
            t = t.args[1] if self.ev(t.args[0]) else t.args[2]
        if t.op == "scat" and t.args[1] == "add":
            t = self.v_scat(*t.args, wanted=set(pos))
            return [n] + [t[i] for i in pos]
        return [n] + [self.at(t, i) for i in pos]

    def v_velems(self, arr, bs, st, w):
        """elements of the base in the window [st, st+w) in row-major order"""
        A, B, ST, W = self.ev(arr), self.ev(bs), self.ev(st), self.ev(w)
        if not isinstance(A, list) or len(ST) != len(B):
            raise Undef()
        n = 1
        for x in W:
            if x < 0:
                raise Undef()
            n *= x
        if n > 2000:
            raise TooBig()
        if not len(W) == len(ST) == len(B):
            raise Undef()
        out = []
        for k in range(n):
            r, q, pos = k, 1, 0
            for i in reversed(range(len(W))):
                pos += (ST[i] + r % W[i]) * q
                q *= B[i]
                r //= W[i]
            if not 0 <= pos < len(A):
                raise Undef()
            out.append(A[pos])
        return out

    def describe(self):
        out = []
        for k, v in list(self.assign.items())[:8]:
            out.append("%s=%s" % (TM.show(k) if isinstance(k, Term) else k, short(v)))
        for t, v in self.memo.items():
            if len(out) > 9:
                break
            if t.op == "sseq" and t.args[2] == "int" and v is not Undef:
                out.append("%s=%s" % (TM.show(t.args[0])[:60], short(v)))
            elif t.op in ("tag", "fld", "sym", "len") and isinstance(v, int):
                out.append("%s=%s" % (TM.show(t)[:60], v))
        return "{" + ", ".join(out) + "}"

    def v_sseq(self, name, n, kind):
        if isinstance(name, Term) and name.op == "velems":
            r = self.v_velems(*name.args)
            if self.ev(n) != len(r):
                raise Undef()
            return r
        if name in self.assign:
            return self.assign[name]
        ln = self.ev(n)
        if ln < 0 or ln > self.cap:
            raise TooBig()
        k = self.key(name)
        if kind == "elem":
            mode = hsh(self.seed, "mode", k) % 14
            if mode == 0:
                return [0] * ln
            if mode == 1:
                return [self.elem(k)] * ln
            xs = [self.elem((k, i)) for i in range(ln)]
            return [abs(x) for x in xs] if mode == 2 else [-1 - abs(x) for x in xs] if mode == 3 else [x if i % 2 else 0 for i, x in enumerate(xs)] if mode == 4 else xs
        if kind == "int":
            return [self.dim((k, i)) for i in range(ln)]
        return [("elemof", k, i) for i in range(ln)]

    def v_div(self, p, q):
        a, b = self.ev(p), self.ev(q)
        if b == 0:
            raise Undef()
        return a // b

    def rng(self, n):
        k = self.ev(n)
        if not isinstance(k, int):
            raise Undef()
        if k > max(5000, self.cap):
            raise TooBig()
        return range(max(k, 0))

    def v_bigsum(self, n, lam):
        return sum(self.under(lam, i) for i in self.rng(n))

    def v_bigprod(self, n, lam):
        r = 1
        for i in self.rng(n):
            r *= self.under(lam, i)
        return r

    def v_bigmul(self, a, b):
        return self.ev(a) * self.ev(b)

    def v_first(self, n, lam):
        for i in self.rng(n):
            if self.under(lam, i):
                return i
        raise Undef()

    # ------------------------------------------------------------ booleans
    def v_true(self):
        return True

    def v_false(self):
        return False

    def v_not(self, c):
        return not self.ev(c)

    def v_and(self, *cs):
        u = None
        for c in cs:
            try:
                if not self.ev(c):
                    return False
            except Undef as e:
                u = e
        if u is not None:
            raise u
        return True

    def v_or(self, *cs):
        u = None
        for c in cs:
            try:
                if self.ev(c):
                    return True
            except Undef as e:
                u = e
        if u is not None:
            raise u
        return False

    def v_le0(self, p):
        return self.ev(p) <= 0

    def v_eq0(self, p):
        return self.ev(p) == 0

    def v_elt0(self, p):
        return self.ev(p) < 0

    def v_eeq0(self, p):
        return self.ev(p) == 0

    def v_eqs(self, a, b):
        return self.ev(a) == self.ev(b)

    v_eqv = v_eqs

    def v_exists(self, n, lam):
        plan = EXP.get((n, lam))
        if plan is None:
            plan = EXP[n, lam] = search_plan(n, lam)
        nest, stages, fixed, sols = plan
        lens = {}
        for h, m in nest:
            lens[h] = self.rng(m)
            if not lens[h]:
                return False
        bv = self.bv
        saved = [(h, bv.get(h)) for h, _ in nest]
        state = [None]

        def run(k, und):
            if k == len(stages):
                if und is not None:
                    state[0] = und
                    return False
                return True
            h, conds = stages[k]
            vals = lens[h]
            if h == fixed:
                try:
                    vals = sorted(x for x in {e[0] * self.ev(e[1]) for e in sols} if x in vals)
                except Undef:
                    pass
            for i in vals:
                bv[h] = i
                u, ok = und, True
                for c in conds:
                    try:
                        if not self.ev(c):
                            ok = False
                            break
                    except Undef as e:
                        u = e
                if ok and run(k + 1, u):
                    return True
            return False
        try:
            r = run(0, None)
        finally:
            for h, o in saved:
                if o is None:
                    bv.pop(h, None)
                else:
                    bv[h] = o
        if not r and state[0] is not None:
            raise state[0]
        return r

    def v_isvar(self, v, k):
        t = mk("isvar", v, k)
        if t in self.assign:
            return self.assign[t]
        x = self.key(v)
        return hsh(self.seed, "isvar", x) % 2 == (k % 2)

    def v_boolsym(self, name):
        t = mk("boolsym", name)
        if t in self.assign:
            return self.assign[t]
        return hsh(self.seed, "bool", self.key(name)) % 2 == 1

    def v_bapp(self, name, *a):
        if name == "in_range":
            I, S = self.ev(a[0]), self.ev(a[1])
            return in_range(I, S)
        raise TooBig()

    def v_incok(self, I, S):
        I, S = self.ev(I), self.ev(S)
        if len(I) != len(S):
            raise Undef()
        return any(x + 1 < d for x, d in zip(I, S))

    def v_inc(self, I, S):
        I, S = list(self.ev(I)), self.ev(S)
        if len(I) != len(S):
            raise Undef()
        for p in reversed(range(len(I))):
            if I[p] + 1 < S[p]:
                I[p] += 1
                for q in range(p + 1, len(I)):
                    I[q] = 0
                return I
        return I

    # ------------------------------------------------------------ sequences
    def lst(self, t):
        x = self.ev(t)
        if not isinstance(x, list):
            raise Undef()
        return x

    def v_seqlit(self, *xs):
        return [self.ev(x) for x in xs]

    def v_smap(self, n, lam):
        return [self.under(lam, i) for i in self.rng(n)]

    def v_concat(self, *ss):
        r = []
        for s in ss:
            r = r + self.lst(s)
        return r

    def v_flatten(self, n, lam):
        r = []
        for i in self.rng(n):
            x = self.under(lam, i)
            if not isinstance(x, list):
                raise Undef()
            r.extend(x)
        return r

    def v_sslice(self, s, a, n):
        x, i, k = self.lst(s), self.ev(a), self.ev(n)
        if i < 0 or k < 0 or i + k > len(x):
            raise Undef()
        return x[i:i + k]

    def v_upd(self, s, i, v):
        x = list(self.lst(s))
        j = self.ev(i)
        if not 0 <= j < len(x):
            raise Undef()
        x[j] = self.ev(v)
        return x

    def v_scat(self, base, kind, d, wanted=None):
        x = list(self.lst(base))
        if kind == "add":
            r = self.deposits(x, d, wanted)
            if r is not None:
                return r

        def go(d):
            if d.op == "dom":
                n, lam = d.args
                h, body = lam.args
                for i in self.rng(n):
                    old = self.bv.get(h)
                    self.bv[h] = i
                    try:
                        go(body)
                    finally:
                        if old is None:
                            del self.bv[h]
                        else:
                            self.bv[h] = old
            elif d.op == "pv":
                g, p, v = d.args
                if self.ev(g):
                    j = self.ev(p)
                    if not 0 <= j < len(x):
                        raise Undef()
                    if kind == "set":
                        x[j] = self.ev(v)
                    else:
                        x[j] = x[j] + self.ev(v)
        go(d)
        return x

    def deposits(self, x, d, wanted):
        """what a nest of loops adds to x; the order does not matter, so that conditions are
        evaluated as early as possible and a loop variable fixed by them is solved for"""
        nest = []
        while d.op == "dom":
            n, lam = d.args
            if n.h and any(occurs(n, h) for h, _ in nest):
                return None
            nest.append((lam.args[0], n))
            d = lam.args[1]
        if d.op != "pv" or not nest:
            return None
        g, p, v = d.args
        lens = {h: self.rng(n) for h, n in nest}
        hs = [h for h, _ in nest]
        fixed, sols = None, []
        for h in hs:
            sols = [solution(c, h) for c in (g.args if g.op == "or" else (g,))]
            if all(e is not None for e in sols):
                fixed = h
                break
        first = [h for h in hs if h != fixed and occurs(g, h)]
        second = [h for h in hs if h != fixed and h not in first and occurs(p, h)]
        rest = [h for h in hs if h != fixed and h not in first and h not in second]
        bv = self.bv
        saved = {h: bv.get(h) for h in hs}

        def loops(hs, k):
            if not hs:
                return k()
            h = hs[0]
            for i in lens[h]:
                bv[h] = i
                loops(hs[1:], k)

        def place():
            j = self.ev(p)
            if not 0 <= j < len(x):
                raise Undef()
            if wanted is None or j in wanted:
                def deposit():
                    x[j] = x[j] + self.ev(v)
                loops(rest, deposit)

        def guard():
            if fixed is None:
                if self.ev(g):
                    loops(second, place)
                return
            try:
                ks = {e[0] * self.ev(e[1]) for e in sols}
            except Undef:
                ks = set(lens[fixed])
            for k in sorted(k for k in ks if k in lens[fixed]):
                bv[fixed] = k
                if self.ev(g):
                    loops(second, place)
        try:
            loops(first, guard)
        finally:
            for h, o in saved.items():
                if o is None:
                    bv.pop(h, None)
                else:
                    bv[h] = o
        return x

    def v_filt(self, n, cond, val):
        return [self.under(val, i) for i in self.rng(n) if self.under(cond, i)]

    def v_unflat(self, k, S):
        p, sh = self.ev(k), self.lst(S)
        out = []
        for d in reversed(sh):
            if d == 0:
                raise Undef()
            out.append(p % d)
            p //= d
        if p:
            raise Undef()
        return out[::-1]

    def v_flat(self, I, S):
        return flat(self.lst(I), self.lst(S))

    def v_prod(self, s):
        r = 1
        for x in self.lst(s):
            r *= x
        return r

    def v_bshape(self, a, b):
        x, y = self.lst(a), self.lst(b)
        n = max(len(x), len(y))
        out = []
        for k in range(1, n + 1):
            l = x[-k] if k <= len(x) else None
            r = y[-k] if k <= len(y) else None
            out.append(l if r is None else r if l is None else max(l, r))
        return out[::-1]

    # ------------------------------------------------------------ others
    def v_ite(self, c, a, b):
        return self.ev(a) if self.ev(c) else self.ev(b)

    def v_ref(self, x):
        return self.ev(x)

    def v_arc(self, i, x):
        return self.ev(x)

    def v_struct(self, adt, var, *fs):
        return ("struct", adt.rsplit("::", 1)[-1], var) + tuple(frz(self.ev(x)) for x in fs)

    def v_tup(self, *fs):
        return ("tup",) + tuple(frz(self.ev(x)) for x in fs)

    def v_lam(self, h, body):
        raise TooBig()


def short(x, n=60):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def frz(x):
    if isinstance(x, list):
        return ("seq",) + tuple(frz(y) for y in x)
    return x


def flat(I, S):
    r, m = 0, 1
    for k in range(1, len(S) + 1):
        if k > len(I):
            break
        d = S[-k]
        if d == 1:
            continue
        r += I[-k] * m
        m *= d
    return r


def in_range(I, S):
    for k in range(1, len(S) + 1):
        d = S[-k]
        if d == 1:
            continue
        if k > len(I) or I[-k] >= d:
            return False
    return True


BASE = 0
EFFORT = 1
STEER = 12.0        # seconds of processor time


def occurs(t, h):
    """does the bound variable of level h occur in t?"""
    if isinstance(t, tuple):
        return any(occurs(x, h) for x in t)
    if not isinstance(t, Term):
        return False
    if t.op == "bv":
        return t.args[0] == h
    k = (t, h)
    r = OCC.get(k)
    if r is None:
        r = OCC[k] = any(occurs(x, h) for x in t.args)
    return r


OCC = {}
EXP = {}


def search_plan(n, lam):
    """how to look for values of nested existential variables: conditions as early as their
    variables are known, a variable that a condition fixes after the others of that condition"""
    nest, conj = [(lam.args[0], n)], []
    body = lam.args[1]
    while True:
        ex = None
        parts = body.args if body.op == "and" else (body,)
        inner = [x for x in parts if x.op == "exists" and not any(occurs(x.args[0], h) for h, _ in nest)]
        if len(inner) == 1:
            ex = inner[0]
            conj += [x for x in parts if x is not ex]
            nest.append((ex.args[1].args[0], ex.args[0]))
            body = ex.args[1].args[1]
        else:
            conj += parts
            break
    hs = [h for h, _ in nest]
    fixed, sols, order = None, [], list(hs)
    if len(set(hs)) < len(hs):
        return nest[:1], [(hs[0], [lam.args[1]])], None, []
    for c in conj:
        for h in hs:
            ss = [solution(x, h) for x in (c.args if c.op == "or" else (c,))]
            if all(e is not None for e in ss):
                fixed, sols = h, ss
                first = [x for x in hs if x != h and occurs(c, x)]
                order = first + [h] + [x for x in hs if x != h and x not in first]
                break
        if fixed is not None:
            break
    stages, done = [], []
    for k, h in enumerate(order):
        now = [c for c in conj if c not in done and not any(occurs(c, x) for x in order[k + 1:])]
        done += now
        stages.append((h, now))
    return nest, stages, fixed, sols


def solution(c, h):
    """(s, t): the condition c implies that the bound variable of level h is s*t"""
    for k in (c.args if c.op == "and" else (c,)):
        if k.op == "eq0" and k.args[0].op == "poly":
            co, rest = None, {}
            for m, n in k.args[0].args[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bv" and m[0][0].args[0] == h:
                    co = n
                elif occurs(m, h):
                    co = None
                    break
                else:
                    rest[m] = n
            if co in (1, -1):
                return -co, TM._poly(rest)
    return None


def sequence(t):
    return t.op in ("smap", "scat", "concat", "sslice", "upd", "flatten", "sseq", "seqlit") or t.op == "ite" and sequence(t.args[1]) and sequence(t.args[2])


class Guide(random.Random):
    """sampling around a bound that the source compares with: steer(c, kind) makes the samplers
    draw extents (kind "dim") or ranks (kind "rank") just below, at and above c"""

    def steer(self, c, kind):
        self.c, self.kind, self.big = c, kind, 0
        root = int(c ** 0.5) + 1
        self.two = c > 6 and super().random() < .4
        self.pool = (root, root + 1) if self.two else tuple(x for x in (c - 1, c, c + 1, c + 2, 2 * c + 1) if x > 0)
        self.small = (2, 2, 1, 2) if kind == "rank" else ((1, 1, 2) if c > 40 else (1, 2, 3))
        return self

    def choice(self, seq):
        if isinstance(seq, tuple) and len(seq) > 1 and all(isinstance(x, int) and x > 0 for x in seq):
            if self.kind == "dim" and self.big < (2 if self.two else 1) and super().random() < .75:
                self.big += 1
                return super().choice(self.pool)
            return super().choice(self.small)
        return super().choice(seq)

    def randint(self, a, b):
        if self.kind == "rank" and (a, b) == (0, 3):
            return super().choice((self.c - 1, self.c, self.c, self.c + 1, self.c + 1, self.c + 2))
        if self.kind == "dim" and (a, b) == (0, 3):
            return super().choice((1, 1, 2, 2, 3))
        return super().randint(a, b)


def literals(t, acc):
    """the integers t compares with, divides by or adds"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "poly":
                for m, c in x.args[0]:
                    if isinstance(c, int) or getattr(c, "denominator", 0) == 1:
                        if abs(c) > 2:
                            acc.add(abs(int(c)))
                    st.extend(a for a, e in m)
            else:
                st.extend(x.args)
    return acc


def guides(a, b, facts):
    lits = literals(a, set()) - literals(b, set())
    out = [("rank", 5, 10), ("dim", 9, 3), ("dim", 33, 3), ("dim", 65, 2)]
    for c in sorted(lits)[:12]:
        if c <= 6:
            out.append(("rank", c + 1, 24))
        if c <= 5000:
            out.append(("dim", c, 10))
    return out, tuple(sorted(x for c in lits for x in (-c - 1, -c, -c + 1, c - 1, c, c + 1)))[:40]


def steer(a, b, facts, sampler, notes):
    """further valuations around the bounds that occur in a"""
    clock = time.process_time
    long = sequence(a) and sequence(b)
    stop = clock() + STEER
    plan, extra = guides(a, b, facts)
    plan = sorted(plan, key=lambda g: g[1])
    for n, (kind, c, k) in enumerate(plan):
        k *= getattr(sampler, "steps", 1)
        share = (stop - clock()) / (len(plan) - n)
        w, nt = separate(a, b, facts, sampler, 4 * k, k, (kind, c, extra, n, long and kind == "dim" and c > 100), clock() + share)
        for x in nt:
            notes[x] += nt[x]
        notes["steered"] = notes.get("steered", 0) + nt["used"]
        if w is not None:
            return w
        if clock() > stop:
            break
    return None


def separate(a, b, facts, sampler=None, tries=300, want=60, guide=None, stop=None):
    """-> None, or a witness (assignment, value of a, value of b)"""
    good = 0
    notes = {"tried": 0, "used": 0, "undef": 0, "big": 0}
    tries, want = tries * EFFORT, want * EFFORT
    if guide is None:
        tries, want = tries * getattr(sampler, "effort", 1), want * getattr(sampler, "effort", 1)
    for s in range(BASE, BASE + tries):
        if guide is not None:
            if time.process_time() > stop:
                break
            kind, c, extra, n, some = guide
            s = s * 64 + n + 7919
            rng = Guide(hsh("steer", s, kind, c)).steer(c, kind)
            assign = sampler(rng) if sampler is not None else None
            v = Val(s, assign, dims=(1, 2) if kind == "rank" else (1, 2) + rng.pool[:3], maxlen=c + 1 if kind == "rank" else 3)
            v.extra, v.cap, v.fuel = extra, 20000, 1500000
        else:
            rng = random.Random(hsh("seed", s))
            assign = sampler(rng) if sampler is not None else None
            v = Val(s, assign, dims=[(1, 2, 3), (0, 1, 2), (1, 2), (2, 3, 4)][s % 4] if sampler is None else (1, 2, 3))
        notes["tried"] += 1
        try:
            if not all(v.ev(f) for f in facts):
                continue
        except Undef:
            continue
        except TooBig:
            notes["big"] += 1
            continue
        try:
            x = v.ev(a) if guide is None or not some else v.probe(a, random.Random(s), c)
        except Undef:
            x = Undef
        except TooBig:
            notes["big"] += 1
            continue
        try:
            y = v.ev(b) if guide is None or not some else v.probe(b, random.Random(s), c)
        except Undef:
            y = Undef
        except TooBig:
            notes["big"] += 1
            continue
        if x is Undef or y is Undef:
            notes["undef"] += 1
            continue
        notes["used"] += 1
        if frz(x) != frz(y):
            return (v, x, y), notes
        good += 1
        if good >= want:
            break
    return None, notes
