"""Value-flow abstract interpretation of THIR.

Every function body is evaluated once per calling context over symbolic
terms; conditionals join their branches in one term, loops are replaced by the
closed form of their recurrences.  Nothing is executed: no path is enumerated
and no concrete input is chosen."""
import sys
import term as TM
from term import *
from decide import decide, simp, bcast, flatten_facts

sys.setrecursionlimit(20000)
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
NONE = mk("struct", OPT, 0)
UNIT = mk("tup")
STR = mk("str")


def some(x):
    return mk("struct", OPT, 1, x)


def ok(x):
    return mk("struct", RES, 0, x)


def err(x):
    return mk("struct", RES, 1, x)


def option(c, x):
    return ite(c, some(x), NONE)


def ref(x):
    return mk("ref", x)


def tup(*xs):
    return mk("tup", *xs)


class Dead(Exception):
    pass


class State:
    __slots__ = ("cells", "live", "facts")

    def __init__(self, cells, live, facts):
        self.cells, self.live, self.facts = cells, live, facts

    def copy(self):
        return State(dict(self.cells), self.live, self.facts)


class Frame:
    def __init__(self, fn, env, tenv):
        self.fn, self.env, self.tenv = fn, env, tenv
        self.ret = ("ret", object())


VARIANTS2 = {OPT: 2, RES: 2, CF: 2}
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
OPERATOR_TRAITS = {"Add", "Sub", "Mul", "Div", "Rem", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign", "PartialEq", "PartialOrd"}
CONSTR = {"struct", "tup", "itseq", "it", "closure", "mref", "p_s", "p_i", "p_f", "p_t", "ref", "arc", "guard", "lock"}


def mutable_leaf(v):
    if v.op == "ite":
        return mutable_leaf(v.args[1]) or mutable_leaf(v.args[2])
    return v.op in ("mref", "guard")


class Interp:
    def __init__(self, prog, hooks=None, log=False):
        self.scaled = ()
        self.p = prog
        self.hooks = hooks or {}
        self.st = State({}, TRUE, ())
        self.exits = []
        self.reqs = []
        self.outer = []
        self.frames = []
        self.loopvars = []
        self.site = []
        self.ncell = 0
        self.log = log
        self.havoc_locks = None  # (lock id, mode, number) -> content found at that acquisition, None: not judged
        self.chankeys = {}
        self.lock_init = {}
        self.lost_locks = False
        self.nacq = 0
        self.steps = 0
        self.rec_limit = 2
        self.sorts = None          # sorts of sequences met, when a list
        self.unknowns = {}
        self.visited = {}
        self.callsites = 0
        self.loops = 0
        self.elemzero = set()
        self.used_hooks = {}
        self.stuck = []
        self.open_conds = {}       # conditions met that nothing decided, both outcomes possible
        TM.EXPAND = lambda kind, t: self.opaque(t, kind)

    # ---------------------------------------------------------- utilities
    def unknown(self, why):
        self.unknowns[why] = 1
        return unk(why)

    def facts(self):
        return self.st.facts

    def dec(self, c):
        return decide(c, self.st.facts)

    def sbool(self, c):
        """simplify a condition under the current facts"""
        if c in (TRUE, FALSE):
            return c
        if c.unk:
            return c
        d = self.dec(c)
        if d is not None:
            return boolc(d)
        if c.op in ("and", "or", "ite", "not"):
            return simp(c, self.st.facts)
        return c

    def assume(self, c):
        self.st.live = band(self.st.live, c)
        self.add_fact(c)

    def add_fact(self, c):
        if c is not TRUE and c not in self.st.facts and not c.unk:
            self.st.facts = self.st.facts + (c,)

    def require(self, c, what=""):
        c = self.sbool(c)
        if c is TRUE:
            return
        path = band(self.st.live, *self.outer)
        self.reqs.append((bor(bnot(path), c) if not (path.unk) else unk("path"), what, self.where()))
        if c is FALSE:
            raise Dead()
        self.add_fact(c)

    def where(self):
        return self.site[-1] if self.site else ""

    def cell(self, v):
        self.ncell += 1
        k = "c%d" % self.ncell
        self.st.cells[k] = v
        return k

    def alloc_id(self, kind):
        return mk("alloc", kind + "@" + ">".join(self.site), tuple(self.loopvars))

    # ---------------------------------------------------------- opaque values
    def opaque(self, name, c, **kw):
        k = c[0]
        if k == "prim":
            if c[1] == "bool":
                return mk("boolsym", name)
            if c[1] in INTS:
                return atom(name)
            if c[1] in ("f32", "f64"):
                return atom(mk("esym", name))
            if c[1] == "str":
                return STR
        if k == "param":
            if c[1] in ("T",):
                return atom(mk("esym", name))
            return mk("osym", name, c)
        if k == "ref":
            if c[1] is True:
                return mk("mref", self.cell(self.opaque(name, c[2])))
            return ref(self.opaque(name, c[2]))
        if k == "tuple":
            return tup(*[self.opaque(mk("fld", name, 0, i), x) for i, x in enumerate(c[1])])
        if k == "fnptr":
            return mk("fnsym", name, c)
        if k == "adt":
            did, args = c[1], c[2]
            if did == "alloc::string::String":
                return STR
            if did in ("alloc::vec::Vec", "core::array"):
                kind = self.kind_of(args[0])
                return sseq(name, atom(mk("len", name)), kind)
            if did.endswith("::Arc") or did.endswith("::Rc"):
                return mk("arc", mk("arcid", name), self.opaque(name, args[0]))
            if did.endswith("::RwLock") or did.endswith("::Mutex"):
                return mk("lock", mk("lockid", name), self.opaque(mk("content", name), args[0]))
            a = self.p.adts.get(did)
            if a is not None and len(a["variants"]) == 1:
                return self.opaque_struct(name, a, c)
            return mk("osym", name, c)
        return mk("osym", name, c)

    def kind_of(self, c):
        if c[0] == "prim" and c[1] in INTS:
            return "int"
        if c == ("param", "T") or c in (("prim", "f32"), ("prim", "f64")):
            return "elem"
        return c

    def opaque_struct(self, name, a, c):
        d = self.p.defs[self.p.defidx[a["id"]]]
        gen = [g for g in d["generics"] if not g.startswith("'")]
        tenv = tuple(sorted(zip(gen, c[2])))
        fs = a["variants"][0]["fields"]
        vals = []
        names = [f["name"] for f in fs]
        for i, f in enumerate(fs):
            fc = self.p.ct(f["ty"], tenv)
            vals.append(self.opaque(mk("fld", name, 0, f["name"]), fc))
        if "array" in names and "shape" in names:
            # well-formedness: as many elements as the shape says (P01)
            ai, si = names.index("array"), names.index("shape")
            if vals[ai].op == "sseq" and vals[si].op == "sseq":
                sh = vals[si]
                vals[ai] = sseq(vals[ai].args[0], prod(sh), vals[ai].args[2])
        return mk("struct", a["id"], 0, *vals)

    def field_index(self, adt, fname):
        for i, f in enumerate(self.p.adts[adt]["variants"][0]["fields"]):
            if f["name"] == fname:
                return i
        return None

    def adt_named(self, name):
        for a in self.p.adts.values():
            if a["id"].rsplit("::", 1)[-1] == name:
                return a["id"]
        return None

    def getf(self, v, fname):
        v = self.strip(v)
        if v.op == "ite":
            return ite(v.args[0], self.getf(v.args[1], fname), self.getf(v.args[2], fname))
        if v.op != "struct":
            return unk("field %s" % fname)
        i = self.field_index(v.args[0], fname)
        return v.args[2 + i] if i is not None else unk("field %s" % fname)

    def strip(self, v):
        """look through references, arcs and one-field wrappers down to a struct"""
        while True:
            if v.op == "ref":
                v = v.args[0]
            elif v.op == "arc":
                v = v.args[1]
            elif v.op == "mref":
                v = self.read_mref(v)
            elif v.op == "guard":
                v = self.lock_content(v.args[0])
            elif v.op == "struct" and v.args[0].endswith("::RcTensor") and len(v.args) == 3:
                v = v.args[2]
            else:
                return v

    # ---------------------------------------------------------- variants
    def nvariants(self, adt):
        if adt in VARIANTS2:
            return VARIANTS2[adt]
        d = self.p.defs[self.p.defidx[adt]] if adt in self.p.defidx else None
        return len(d["variants"]) if d and "variants" in d else 99

    def variant_cond(self, v, adt, k):
        if v.op == "struct":
            return boolc(v.args[1] == k)
        if v.op == "ite":
            return ite(v.args[0], self.variant_cond(v.args[1], adt, k), self.variant_cond(v.args[2], adt, k))
        if v.op == "unk":
            return v
        n = self.nvariants(adt)
        if n == 1:
            return TRUE
        if n == 2:
            return mk("isvar", v, 1) if k == 1 else bnot(mk("isvar", v, 1))
        return mk("isvar", v, k)

    def field(self, v, variant, i, fty=None):
        if v.op == "struct":
            if v.args[1] != variant or len(v.args) <= 2 + i:
                return None
            return v.args[2 + i]
        if v.op == "tup":
            return v.args[i]
        if v.op == "ite":
            a = self.field(v.args[1], variant, i, fty)
            b = self.field(v.args[2], variant, i, fty)
            if a is None:
                return b
            if b is None:
                return a
            return ite(v.args[0], a, b)
        if v.op == "unk":
            return v
        if v.op in ("osym", "nth", "first"):
            if fty is None and v.op == "osym" and v.args[1] and v.args[1][0] == "adt" and v.args[1][2]:
                a = v.args[1]
                if a[1] == OPT:
                    fty = a[2][0]
                elif a[1] == RES:
                    fty = a[2][variant]
            if fty is not None:
                return self.opaque(mk("fld", v, variant, i), fty)
            return mk("osym", mk("fld", v, variant, i), None)
        return unk("field of %s" % v.op)

    # ---------------------------------------------------------- paths
    def get_path(self, t, path):
        for s in path:
            if s.op == "p_f":
                r = self.field(t, s.args[0], s.args[1])
                t = r if r is not None else unk("field of other variant")
            elif s.op == "p_t":
                t = self.field(t, 0, s.args[0])
            elif s.op == "p_i":
                t = nth(t, s.args[0], self.dec)
            elif s.op == "p_s":
                t = sslice(t, s.args[0], s.args[1])
            if t.op == "unk":
                return t
        return t

    def set_path(self, t, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        if t.op == "unk":
            return t
        if t.op == "ite" and s.op in ("p_f", "p_t"):
            return ite(t.args[0], self.set_path(t.args[1], path, val), self.set_path(t.args[2], path, val))
        if s.op == "p_f":
            if t.op != "struct" or t.args[1] != s.args[0]:
                return t if t.op == "struct" else unk("write to field of %s" % t.op)
            a = list(t.args)
            a[2 + s.args[1]] = self.set_path(a[2 + s.args[1]], rest, val)
            return mk("struct", *a)
        if s.op == "p_t":
            if t.op != "tup":
                return unk("write to tuple field")
            a = list(t.args)
            a[s.args[0]] = self.set_path(a[s.args[0]], rest, val)
            return mk("tup", *a)
        if s.op == "p_i":
            if t.op == "ite" and not rest:
                return ite(t.args[0], upd(t.args[1], s.args[0], val), upd(t.args[2], s.args[0], val))
            return upd(t, s.args[0], self.set_path(nth(t, s.args[0], self.dec), rest, val) if rest else val)
        if s.op == "p_s":
            start, n = s.args
            if rest:
                return self.set_path(t, norm_path(path), val)
            if start is ZERO and n is length(t):
                return val
            v = fresh()
            return scat(t, "set", dom(n, v, pv(TRUE, add(start, atom(v)), nth(val, atom(v)))))
        return unk("path")

    def mkmref(self, cell, path):
        return mk("mref", cell, *norm_path(tuple(path)))

    def read_cell(self, cell):
        if isinstance(cell, Term) and cell.op == "ite":
            return ite(cell.args[0], self.read_cell(cell.args[1]), self.read_cell(cell.args[2]))
        v = self.st.cells.get(cell)
        if v is None:
            if isinstance(cell, Term) and cell.op in ("lockid", "alloc"):
                return self.unknown("lock content")
            return self.unknown("dangling reference")
        return v

    def read_mref(self, m):
        return self.get_path(self.read_cell(m.args[0]), m.args[1:])

    def write(self, cell, path, val):
        if isinstance(cell, Term) and cell.op == "ite":
            c, a, b = cell.args
            for x, k in ((a, c), (b, bnot(c))):
                self.write(x, path, ite(k, val, self.get_path(self.read_cell(x), tuple(path))))
            return
        if isinstance(cell, Term) and cell.op == "unk":
            self.poison("write to an unknown place")
            return
        old = self.read_cell(cell) if path else None
        self.st.cells[cell] = self.set_path(old, tuple(path), val) if path else val
        if self.log and isinstance(cell, Term) and cell.op != "chan":
            self.effect("lockwrite", cell)

    def write_mref(self, m, val):
        if m.op == "ite":
            c, a, b = m.args
            if any(x.op not in ("mref", "ite") for x in (a, b)):
                self.poison("write through one of several places")
                return
            self.write_mref(a, ite(c, val, self.deref(a)))
            self.write_mref(b, ite(c, self.deref(b), val))      # (read after the first write: they may overlap)
            return
        if m.op != "mref":
            self.poison("write through %s" % m.op)
            return
        self.write(m.args[0], m.args[1:], val)

    def poison(self, why):
        u = self.unknown(why)
        for k in list(self.st.cells):
            self.st.cells[k] = u
        self.st.cells["lost"] = u       # and of locks not met so far

    def effect(self, *args):
        e = self.st.cells.get("eff")
        if e is not None:
            self.st.cells["eff"] = concat(e, seqlit(tup(*[mk("tag", a) if isinstance(a, str) else a for a in args])))

    def deref(self, v):
        op = v.op
        if op == "ref":
            return v.args[0]
        if op == "mref":
            return self.read_mref(v)
        if op == "arc":
            return v.args[1]
        if op == "guard":
            return self.lock_content(v.args[0])
        if op == "ite":
            return ite(v.args[0], self.deref(v.args[1]), self.deref(v.args[2]))
        if op in ("unk",):
            return v
        if op == "osym" and v.args[1] and v.args[1][0] == "ref":
            return self.opaque(v.args[0], v.args[1][2])
        return v  # Box and friends are transparent

    # ---------------------------------------------------------- locks
    def lock_content(self, lock):
        lock = self.lock_term(lock)
        if lock is None:
            return self.unknown("content of an unknown lock")
        return self.lid_content(lock.args[0], lock.args[1])

    def lid_content(self, lid, init):
        if lid.op == "ite":
            i = init.args[1:] if init.op == "ite" and init.args[0] is lid.args[0] else (init, init)
            return ite(lid.args[0], self.lid_content(lid.args[1], i[0]), self.lid_content(lid.args[2], i[1]))
        c = self.st.cells.get(lid)
        if c is None and (self.lost_locks or "lost" in self.st.cells):
            return self.unknown("lock written in a loop")
        return c if c is not None else init

    def lock_term(self, v, mode=None):
        """the lock a value refers to, its cells in place; one of several locks is a lock with a conditional identity"""
        while v.op in ("ref", "mref", "arc"):
            v = self.deref(v)
        if v.op == "ite":
            a, b = self.lock_term(v.args[1], mode), self.lock_term(v.args[2], mode)
            if a is None or b is None:
                return None
            return mk("lock", ite(v.args[0], a.args[0], b.args[0]), ite(v.args[0], a.args[1], b.args[1]))
        if v.op != "lock":
            return None
        lid, init = v.args
        if lid.op == "ite":
            return v
        if self.havoc_locks and mode:
            self.nacq += 1
            c = self.havoc_locks(lid, mode, self.nacq)
            if c is not None:
                self.st.cells[lid] = c
                return v
        if lid not in self.st.cells:
            self.lock_init.setdefault(lid, init)
            self.st.cells[lid] = init if not self.lost_locks and "lost" not in self.st.cells else self.unknown("lock written in a loop")
        return v

    def acquire(self, lockv, mode):
        lock = self.lock_term(lockv, mode)
        if lock is None:
            return ok(self.unknown("lock acquisition on %s" % lockv.op))
        if self.log:
            self.effect("acq_" + mode, lock.args[0])
        return ok(mk("guard", lock))

    # ---------------------------------------------------------- merging
    def merge_states(self, c, sa, sb, base_facts, live):
        """state with sa if c else sb"""
        cells = {}
        ca, cb = sa.cells, sb.cells
        def missing(k, other):
            """what a cell that only one side has met holds on the other side"""
            if k in self.lock_init:
                return self.lock_init[k] if "lost" not in other else other["lost"]
            return None
        for k, v in ca.items():
            w = cb.get(k)
            if w is None:
                w = missing(k, cb)
            if w is None or w is v:
                cells[k] = v
            else:
                cells[k] = ite(c, v, w)
        for k, v in cb.items():
            if k not in ca:
                w = missing(k, ca)
                cells[k] = v if w is None or w is v else ite(c, w, v)
        facts = base_facts
        fb = set(sb.facts)
        fa = set(sa.facts)
        base = set(base_facts)
        nc = bnot(c)
        for f in sa.facts:
            if f in base:
                continue
            if f in fb:
                facts = facts + (f,)
            elif f is not c:
                g = bor(nc, f)
                if g is not TRUE and g not in base and term_size(g) < 60:
                    facts = facts + (g,)
        for f in sb.facts:
            if f in base or f in fa or f is nc:
                continue
            g = bor(c, f)
            if g is not TRUE and g not in base and term_size(g) < 60:
                facts = facts + (g,)
        return State(cells, live, facts)

    def branch(self, c, fa, fb):
        """evaluate both branches of a condition and join them"""
        c = self.sbool(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        if c.op == "unk" or c.unk:
            # unknown condition: both branches are possible, nothing is known after
            self.unknowns["branch on unknown condition"] = 1
        st0 = self.st
        base = st0.facts
        n0 = len(self.exits)
        self.st = st0.copy()
        self.assume(c)
        try:
            va = fa()
            sa = self.st
        except Dead:
            sa = va = None
        n1 = len(self.exits)
        self.st = st0.copy()
        nc = bnot(c)
        self.assume(nc)
        try:
            vb = fb()
            sb = self.st
        except Dead:
            sb = vb = None
        n2 = len(self.exits)
        la, lb = band(st0.live, c), band(st0.live, nc)
        if (sa is not None or n1 > n0) and (sb is not None or n2 > n1):
            if c.h == 0 and not c.unk and not c.fv and c not in self.open_conds and len(self.open_conds) < 12 and term_size(c, 120) < 120:
                self.open_conds[c] = self.where()
        if sa is None and sb is None:
            self.st = st0
            raise Dead()
        if sa is None:
            if n1 == n0 and sb.live is lb:
                sb.live = st0.live
            self.st = sb
            return vb
        if sb is None:
            if n2 == n1 and sa.live is la:
                sa.live = st0.live
            self.st = sa
            return va
        if sa.live is la and sb.live is lb:
            live = st0.live
        else:
            live = bor(sa.live, sb.live)
        self.st = self.merge_states(c, sa, sb, base, live)
        return ite(c, va, vb) if va is not vb else va

    # ---------------------------------------------------------- patterns
    # a place is ("v", value), ("p", cell, path), or ("i", conditional reference, path, value)
    def loc_read(self, loc):
        if loc[0] == "i":
            return loc[3]
        if loc[0] == "v":
            return loc[1]
        return self.get_path(self.read_cell(loc[1]), loc[2])

    def loc_step(self, loc, step, sub):
        if loc[0] == "v":
            return ("v", sub(loc[1]))
        if loc[0] == "i":
            return ("i", loc[1], loc[2] + (step,), sub(loc[3]))
        return ("p", loc[1], loc[2] + (step,))

    def loc_ref(self, m, path):
        """mutable reference to the part at path of what the conditional reference m leads to"""
        if m.op == "ite":
            return ite(m.args[0], self.loc_ref(m.args[1], path), self.loc_ref(m.args[2], path))
        if m.op == "mref":
            return self.mkmref(m.args[0], m.args[1:] + path)
        if m.op == "guard":
            self.lock_term(m.args[0])
            return self.mkmref(m.args[0].args[0], path)
        return m if m.op == "unk" else unk("place behind %s" % m.op)

    def loc_deref(self, loc):
        v = self.loc_read(loc)
        if v.op == "mref":
            return ("p", v.args[0], v.args[1:])
        if v.op == "guard":
            self.lock_term(v.args[0])
            return ("p", v.args[0].args[0], ())
        if v.op == "ite" and mutable_leaf(v):
            return ("i", v, (), self.deref(v))
        return ("v", self.deref(v))

    def pat(self, p, loc, binds):
        """condition under which pattern p matches; collects bindings"""
        k = p["k"]
        if k in ("Wild", "Never"):
            return TRUE
        if k == "Bind":
            c = TRUE
            if p.get("sub"):
                c = self.pat(p["sub"], loc, binds)
            m = p["mode"]
            if m == "val":
                binds.append((p["var"], "val", loc))
            elif m == "ref":
                binds.append((p["var"], "ref", loc))
            else:
                binds.append((p["var"], "mut", loc))
            return c
        if k == "Deref":
            return self.pat(p["sub"], self.loc_deref(loc), binds)
        if k == "Leaf":
            cs = []
            for i, sp in p["fs"]:
                v = self.loc_read(loc)
                step = mk("p_t", i) if v.op == "tup" else mk("p_f", 0, i)
                fty = self.pty(sp)
                l2 = self.loc_step(loc, step, lambda t: self.field(t, 0, i, fty))
                cs.append(self.pat(sp, l2, binds))
            return band(*cs)
        if k == "Variant":
            adt = self.p.defs[p["adt"]]["id"]
            v = self.loc_read(loc)
            var = p["variant"]
            cs = [self.variant_cond(v, adt, var)]
            if cs[0] is FALSE:
                return FALSE
            for i, sp in p["fs"]:
                fty = self.pty(sp)

                def part(t, i=i, fty=fty):
                    r = self.field(t, var, i, fty)
                    return r if r is not None else unk("variant field")
                l2 = self.loc_step(loc, mk("p_f", var, i), part)
                cs.append(self.pat(sp, l2, binds))
            return band(*cs)
        if k == "Const":
            v = self.loc_read(loc)
            c = self.pat_const(p)
            if c is None:
                return self.unknown("constant pattern")
            while v.op == "ref" and c.op != "ref":
                v = v.args[0]
            return eq(v, c) if not (c in (TRUE, FALSE)) else (v if c is TRUE else bnot(v))
        if k == "Or":
            out = []
            bs0 = None
            for sp in p["ps"]:
                bs = []
                c = self.pat(sp, loc, bs)
                out.append((c, bs))
            if any(bs for _, bs in out):
                # bind by the first alternative that matches
                names = [b[0] for b in out[0][1]]
                for n in names:
                    val = None
                    for c, bs in reversed(out):
                        b = [x for x in bs if x[0] == n]
                        if not b:
                            return self.unknown("or-pattern")
                        x = self.bind_value(b[0])
                        val = x if val is None else ite(c, x, val)
                    binds.append((n, "value", val))
            return bor(*[c for c, _ in out])
        if k == "Slice":
            v = self.loc_read(loc)
            n = length(v)
            pre, mid, suf = p["pre"], p.get("mid"), p["suf"]
            cs = []
            np_, ns = len(pre), len(suf)
            if mid is None:
                cs.append(eq(n, const(np_ + ns)))
            else:
                cs.append(le(const(np_ + ns), n))
            for i, sp in enumerate(pre):
                idx = const(i)
                cs.append(self.pat(sp, self.loc_step(loc, mk("p_i", idx), lambda t, idx=idx: nth(t, idx)), binds))
            if mid is not None:
                st, ln = const(np_), sub(n, const(np_ + ns))
                cs.append(self.pat(mid, self.loc_step(loc, mk("p_s", st, ln), lambda t: sslice(t, st, ln)), binds))
            for i, sp in enumerate(suf):
                idx = sub(n, const(ns - i))
                cs.append(self.pat(sp, self.loc_step(loc, mk("p_i", idx), lambda t, idx=idx: nth(t, idx)), binds))
            return band(*cs)
        if k == "Range":
            v = self.loc_read(loc)
            lo, hi = p.get("lo"), p.get("hi")
            cs = []
            if lo is not None:
                cs.append(le(const(int(lo)), v))
            if hi is not None:
                cs.append(le(v, const(int(hi))) if p.get("incl") else lt(v, const(int(hi))))
            return band(*cs)
        return self.unknown("pattern %s" % k)

    def pty(self, p):
        try:
            return self.p.ct(p["ty"], self.tenv())
        except KeyError:
            return None

    def pat_const(self, p):
        v = p.get("v")
        if v is None:
            return None
        try:
            if isinstance(v, bool):
                return boolc(v)
            if v in ("true", "false"):
                return boolc(v == "true")
            if isinstance(v, dict):
                v = v.get("v", v)
            s = str(v)
            for suf in INTS:
                if s.endswith("_" + suf):
                    s = s[: -len(suf) - 1]
                elif s.endswith(suf):
                    s = s[: -len(suf)]
            return const(int(s))
        except (ValueError, TypeError):
            return None

    def bind_value(self, b):
        var, m, loc = b
        if m == "value":
            return loc
        if m == "val":
            return self.loc_read(loc)
        if m == "ref":
            return ref(self.loc_read(loc))
        if loc[0] == "p":
            return self.mkmref(loc[1], loc[2])
        if loc[0] == "i":
            return self.loc_ref(loc[1], loc[2])
        if loc[1].op == "unk":
            return loc[1]
        c = self.cell(loc[1])
        return mk("mref", c)

    def do_binds(self, binds):
        for b in binds:
            self.frame().env[b[0]] = (self.cell(self.bind_value(b)), ())

    def frame(self):
        return self.frames[-1]

    def tenv(self):
        return self.frames[-1].tenv if self.frames else ()

    # ---------------------------------------------------------- places
    def place(self, e):
        k = e["k"]
        if k == "Scope":
            if e["v"]["k"] not in ("Loop", "Block"):
                return self.place(e["v"])
            return ("v", self.ev(e))
        if k in ("Var", "Upvar"):
            x = self.frame().env.get(e["var"])
            if x is None:
                return ("v", self.unknown("unbound variable"))
            if x[0] == "=":
                return ("v", x[1])
            return ("p", x[0], x[1])
        if k == "Deref":
            l = self.place(e["v"])
            return self.loc_deref(l)
        if k == "Field":
            l = self.place(e["v"])
            v = self.loc_read(l)
            i, var = e["field"], e.get("variant") or 0
            if v.op == "tup" or (v.op == "ite" and v.args[1].op == "tup"):
                return self.loc_step(l, mk("p_t", i), lambda t: self.field(t, 0, i))
            fty = self.p.ct(e["ty"], self.tenv())

            def sub_(t):
                r = self.field(t, var, i, fty)
                return r if r is not None else unk("field")
            return self.loc_step(l, mk("p_f", var, i), sub_)
        if k == "Index":
            l = self.place(e["v"])
            i = self.ev(e["i"])
            v = self.loc_read(l)
            self.require(lt(i, length(v)), "index in bounds")
            return self.loc_step(l, mk("p_i", i), lambda t: nth(t, i, self.dec))
        return ("v", self.ev(e))

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + e["k"], None)
        self.steps += 1
        if m is None:
            self.poison("expression %s" % e["k"])
            return self.unknown("expression %s" % e["k"])
        return m(e)

    def e_Scope(self, e):
        v = e["v"]
        if v["k"] == "Loop":
            return self.loop_expr(v, e["scope"])
        lab = ("brk", e["scope"])
        saved, self.exits = self.exits, []
        base = self.st.facts
        live0 = self.st.live
        try:
            val = self.ev(v)
            ends = [(self.st.live, val, self.st)]
        except Dead:
            ends = []
        mine = [(x[1], x[2], x[3]) for x in self.exits if x[0] == lab]
        rest = [x for x in self.exits if x[0] != lab]
        self.exits = saved + rest
        if not mine:
            if not ends:
                raise Dead()
            return ends[0][1]
        return self.join(mine + ends, base, live0)

    def join(self, outs, base, live0, keep_live=False):
        """join alternative outcomes (cond, value, state); conds are exclusive"""
        if not outs:
            raise Dead()
        cond, val, st = outs[-1]
        conds = [cond]
        for c, v, s in reversed(outs[:-1]):
            lv = bor(c, st.live)
            st = self.merge_states(c, s, st, base, lv)
            val = ite(c, v, val) if v is not val else val
            conds.append(c)
        st = State(dict(st.cells), bor(*conds), st.facts)
        self.st = st
        return val

    def e_Block(self, e):
        b = e["b"]
        for s in b["stmts"]:
            if s["k"] == "Expr":
                self.ev(s["e"])
            else:
                self.let_stmt(s)
        if b.get("e") is not None:
            return self.ev(b["e"])
        return UNIT

    def let_stmt(self, s):
        if s.get("init") is None:
            # declared, assigned later
            self.declare(s["pat"])
            return
        init = s["init"]
        if self.needs_place(s["pat"]):
            loc = self.place(init)
        else:
            loc = ("v", self.ev(init))
        binds = []
        c = self.pat(s["pat"], loc, binds)
        if s.get("els") is not None:
            c = self.sbool(c)
            if c is not TRUE:
                env = self.frame().env

                def good():
                    self.do_binds(binds)
                    return UNIT
                self.branch(c, good, lambda: self.ev_block(s["els"]))
                return
        self.do_binds(binds)

    def ev_block(self, b):
        if "stmts" in b:
            return self.e_Block({"b": b})
        return self.ev(b)

    def declare(self, p):
        if p["k"] == "Bind":
            self.frame().env[p["var"]] = (self.cell(mk("uninit")), ())
        for k in ("sub",):
            if p.get(k):
                self.declare(p[k])
        for f in p.get("fs", []):
            self.declare(f[1])

    def needs_place(self, p):
        if p["k"] == "Bind":
            return p["mode"] != "val" or (p.get("sub") is not None and self.needs_place(p["sub"]))
        if p["k"] == "Deref":
            return True
        if p["k"] in ("Leaf", "Variant"):
            return any(self.needs_place(f[1]) for f in p["fs"])
        if p["k"] == "Slice":
            return True
        if p["k"] == "Or":
            return any(self.needs_place(x) for x in p["ps"])
        return False

    def e_Var(self, e):
        return self.loc_read(self.place(e))

    e_Upvar = e_Var
    e_Deref = e_Var
    e_Field = e_Var
    e_Index = e_Var

    def e_If(self, e):
        c, binds_fn = self.cond(e["c"])

        def then():
            binds_fn()
            return self.ev(e["t"])
        return self.branch(c, then, lambda: self.ev(e["f"]) if e.get("f") is not None else UNIT)

    def cond(self, e):
        """(condition, binder) of an if condition, including let chains"""
        k = e["k"]
        if k == "Scope" and e["v"]["k"] not in ("Loop", "Block"):
            return self.cond(e["v"])
        if k == "Let":
            loc = self.place(e["v"])
            binds = []
            c = self.pat(e["pat"], loc, binds)
            return c, (lambda: self.do_binds(binds))
        if k == "Logical" and e["op"] in ("And", "&&") and has_let(e):
            c1, b1 = self.cond(e["l"])
            st0 = self.st
            c1s = self.sbool(c1)
            if c1s is FALSE:
                return FALSE, lambda: None
            self.st = st0.copy()
            self.assume(c1s)
            b1()
            try:
                c2, b2 = self.cond(e["r"])
            except Dead:
                self.st = st0
                return FALSE, lambda: None
            self.st = st0

            def both():
                b1()
                b2()
            return band(c1s, c2), both
        v = self.ev(e)
        return v, lambda: None

    def e_Logical(self, e):
        c, _ = self.cond(e["l"])
        if e["op"] in ("And", "&&"):
            return self.branch(c, lambda: self.cond(e["r"])[0], lambda: FALSE)
        return self.branch(c, lambda: TRUE, lambda: self.cond(e["r"])[0])

    def e_Let(self, e):
        c, b = self.cond(e)
        b()
        return c

    def e_Match(self, e):
        if e.get("src") == "ForLoopDesugar":
            r = self.for_loop(e)
            if r is not None:
                return r
        loc = self.place(e["v"])
        return self.arms(e["arms"], 0, loc)

    def arms(self, arms, i, loc):
        if i >= len(arms):
            raise Dead()
        a = arms[i]
        binds = []
        c = self.pat(a["pat"], loc, binds)
        if a.get("guard") is not None:
            st0 = self.st
            c = self.sbool(c)
            if c is not FALSE:
                self.st = st0.copy()
                self.assume(c)
                self.do_binds(binds)
                g, gb = self.cond(a["guard"])
                self.st = st0
                c = band(c, g)
        last = i == len(arms) - 1
        if last:
            c = TRUE if not c.unk else TRUE

        def body():
            self.do_binds(binds)
            if a.get("guard") is not None:
                g, gb = self.cond(a["guard"])
                gb()
            return self.ev(a["body"])
        return self.branch(c, body, lambda: self.arms(arms, i + 1, loc))

    def e_Break(self, e):
        v = self.ev(e["v"]) if e.get("v") is not None else UNIT
        self.exits.append((("brk", e["label"]), self.st.live, v, self.st.copy()))
        raise Dead()

    def e_Continue(self, e):
        self.exits.append((("cont", e["label"]), self.st.live, UNIT, self.st.copy()))
        raise Dead()

    def e_Return(self, e):
        v = self.ev(e["v"]) if e.get("v") is not None else UNIT
        self.exits.append((self.frame().ret, self.st.live, v, self.st.copy()))
        raise Dead()

    def e_NeverToAny(self, e):
        self.ev(e["v"])
        raise Dead()

    def e_Coerce(self, e):
        return self.ev(e["v"])

    def e_Cast(self, e):
        v = self.ev(e["v"])
        return v

    def e_Lit(self, e):
        t = e.get("t")
        v = e.get("v")
        if t == "bool" or isinstance(v, bool):
            return boolc(v in (True, "true"))
        if t in ("str", "char", "bytestr", "cstr"):
            return STR
        try:
            n = int(v)
            if n >= 8 and self.scaled and self.frames and self.frames[-1].fn["id"] in self.scaled:
                n = 3       # see ob_grad.pass_bounds
            return const(-n if e.get("neg") else n)
        except (ValueError, TypeError):
            pass
        try:
            from fractions import Fraction
            f = Fraction(str(v).rstrip("_f3264"))
            if f.denominator == 1:
                return const(int(-f if e.get("neg") else f))
        except (ValueError, TypeError):
            pass
        a = atom(mk("efn", "lit" + str(v)))
        return neg(a) if e.get("neg") else a

    def e_Tuple(self, e):
        return tup(*[self.ev(x) for x in e["fs"]])

    def e_Array(self, e):
        return seqlit(*[self.ev(x) for x in e["fs"]])

    def e_Repeat(self, e):
        v = self.ev(e["v"])
        n = e.get("n")
        try:
            n = const(int(n))
        except (ValueError, TypeError):
            n = atom(mk("sym", str(n)))
        return smap(n, fresh(), v)

    def e_Adt(self, e):
        adt = self.p.defs[e["adt"]]["id"]
        var = e["variant"]
        given = {i: self.ev(x) for i, x in e["fs"]}
        d = self.p.defs[e["adt"]]
        nf = len(d["variants"][var]["fields"]) if "variants" in d and var < len(d["variants"]) else len(given)
        base = None
        if e.get("base") is not None:
            base = self.ev(e["base"])
        if adt.endswith("ops::range::Range") or adt.rsplit("::", 1)[-1].startswith("Range"):
            return mk("struct", adt, var, *[given[i] for i in sorted(given)])
        out = []
        for i in range(nf):
            if i in given:
                out.append(given[i])
            elif base is not None:
                r = self.field(base, 0, i)
                out.append(r if r is not None else unk("base field"))
            else:
                out.append(unk("missing field"))
        return mk("struct", adt, var, *out)

    def e_Closure(self, e):
        did = self.p.defs[e["def"]]["id"]
        env = self.frame().env
        caps = {}
        for u in e["upvars"]:
            root, bymut = self.cap_root(u)
            if root is None:
                continue
            if bymut or caps.get(root) == "ref":
                caps[root] = "ref"
            else:
                caps.setdefault(root, "val")
        names, vals = [], []
        for r, kind in caps.items():
            x = env.get(r)
            if x is None:
                continue
            if x[0] == "=":
                vals.append(tup(mk("tag", "val"), x[1]))
            elif kind == "ref":
                vals.append(tup(mk("tag", "ref"), self.mkmref(x[0], x[1])))
            else:
                vals.append(tup(mk("tag", "val"), self.get_path(self.read_cell(x[0]), x[1])))
            names.append(r)
        return mk("closure", did, tuple(names), tuple(self.tenv()), *vals)

    def cap_root(self, u):
        mut = False
        while True:
            k = u["k"]
            if k == "Borrow":
                mut = mut or u["bk"] == "mut"
                u = u["v"]
            elif k in ("Var", "Upvar"):
                return u["var"], mut
            elif k in ("Deref", "Field", "Scope", "Coerce", "Index"):
                u = u["v"]
            else:
                return None, mut

    def e_Borrow(self, e):
        if e["bk"] in ("shared", "fake"):
            loc = self.place(e["v"])
            v = self.loc_read(loc)
            return ref(v)
        loc = self.place(e["v"])
        if loc[0] == "p":
            return self.mkmref(loc[1], loc[2])
        if loc[0] == "i":
            return self.loc_ref(loc[1], loc[2])
        v = loc[1]
        if v.op == "unk":
            return v
        return mk("mref", self.cell(v))

    def e_RawBorrow(self, e):
        # only compared with other addresses (ptr::eq); everything else on raw pointers is unmodelled
        loc = self.place(e["v"])
        return ref(self.loc_read(loc))

    def assign(self, target, v):
        loc = self.place(target)
        if loc[0] == "p":
            self.write(loc[1], loc[2], v)
        elif loc[0] == "i":
            self.write_mref(self.loc_ref(loc[1], loc[2]), v)
        elif loc[1].op == "unk":
            self.poison("assignment to unknown place")
        else:
            self.poison("assignment to a value")

    def e_Assign(self, e):
        l = e["l"] if "l" in e else e["lhs"]
        v = self.ev(e["r"] if "r" in e else e["rhs"])
        if l["k"] == "Tuple":
            for i, x in enumerate(l["fs"]):
                self.assign(x, self.field(v, 0, i))
            return UNIT
        self.assign(l, v)
        return UNIT

    def e_AssignOp(self, e):
        r = self.ev(e["r"])
        loc = self.place(e["l"])
        old = self.loc_read(loc)
        v = self.arith(e["op"].replace("Assign", "").replace("=", ""), old, r, self.p.ct(e["l"]["ty"], self.tenv()))
        if loc[0] == "p":
            self.write(loc[1], loc[2], v)
        elif loc[0] == "i":
            self.write_mref(self.loc_ref(loc[1], loc[2]), v)
        else:
            self.poison("assignment to a value")
        return UNIT

    def e_Binary(self, e):
        l = self.ev(e["l"])
        r = self.ev(e["r"])
        return self.arith(e["op"], l, r, self.p.ct(e["l"]["ty"], self.tenv()))

    def is_int(self, c):
        return c[0] == "prim" and c[1] in INTS

    def cmp(self, op, l, r, isint):
        if l.op != "poly" or r.op != "poly":
            if op in ("Eq", "=="):
                return self.eqv(l, r)
            if op in ("Ne", "!="):
                return bnot(self.eqv(l, r))
            if l.op == "tup" and r.op == "tup" or l.op == "ref":
                pass
            return self.unknown("comparison %s of %s" % (op, l.op))
        if op in ("Eq", "=="):
            return eq(l, r)
        if op in ("Ne", "!="):
            return bnot(eq(l, r))
        isint = isint and not (is_elem(l) or is_elem(r))
        if isint:
            return {"Lt": lambda: lt(l, r), "Le": lambda: le(l, r), "Gt": lambda: lt(r, l), "Ge": lambda: le(r, l)}[op]()
        return {"Lt": lambda: elt0(sub(l, r)), "Le": lambda: bnot(elt0(sub(r, l))),
                "Gt": lambda: elt0(sub(r, l)), "Ge": lambda: bnot(elt0(sub(l, r)))}[op]()

    def arith(self, op, l, r, c):
        op = {"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Rem", "==": "Eq", "!=": "Ne", "<": "Lt",
              "<=": "Le", ">": "Gt", ">=": "Ge", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "Shl", ">>": "Shr"}.get(op, op)
        op = op.replace("WithOverflow", "")
        if l.op == "unk":
            return l
        if r.op == "unk":
            return r
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if is_bool(l) and is_bool(r):
                if op == "Eq":
                    return eq(l, r)
                if op == "Ne":
                    return bnot(eq(l, r))
                return self.unknown("bool order")
            return self.cmp(op, l, r, self.is_int(c))
        if is_bool(l):
            if op == "BitAnd":
                return band(l, r)
            if op == "BitOr":
                return bor(l, r)
            if op == "BitXor":
                return bnot(eq(l, r))
            return self.unknown("bool op")
        if l.op != "poly" or r.op != "poly":
            return self.unknown("arithmetic on %s" % l.op)
        isint = self.is_int(c)
        if op == "Add":
            return add(l, r)
        if op == "Sub":
            if isint and c[1].startswith("u"):
                self.require(le(r, l), "subtraction does not underflow")
            return sub(l, r)
        if op == "Mul":
            return mul(l, r)
        if op in ("Div", "Rem") and isint:
            self.require(bnot(eq0(r)), "divisor is not zero")
            q, m = divmod_(l, r, self.dec)
            return q if op == "Div" else m
        if op == "Div":
            return mul(l, atom(mk("efn", "recip", r)))
        if op in ("Shl", "Shr") and const_val(r) is None:
            # the amount is one of two numbers
            for a in sorted({a for m, _ in r.args[0] for a, _ in m if a.op == "ind"}, key=str)[:2]:
                t, f = assume_ind(r, a, 1), assume_ind(r, a, 0)
                if t is not r and f is not r:
                    return ite(a.args[0], self.arith(op, l, t, c), self.arith(op, l, f, c))
        if op == "Shl" and const_val(r) is not None:
            return scale(l, 1 << const_val(r))
        if op == "Shr" and const_val(r) is not None:
            return divmod_(l, const(1 << const_val(r)), self.dec)[0]
        if op == "BitAnd" and const_val(r) is not None and const_val(r) >= 0 and (const_val(r) + 1) & const_val(r) == 0:
            return divmod_(l, const(const_val(r) + 1), self.dec)[1]
        return self.unknown("operator %s" % op)

    def eqv(self, a, b):
        """equality of values as == would compute it (structural)"""
        a, b = self.eqstrip(a), self.eqstrip(b)
        return eq(a, b)

    def eqstrip(self, v):
        while v.op in ("ref", "mref", "arc"):
            v = self.deref(v)
        return v

    def e_Unary(self, e):
        v = self.ev(e["v"])
        op = e["op"]
        if v.op == "unk":
            return v
        if op in ("Not", "!"):
            return bnot(v) if is_bool(v) or v.op == "ite" else self.unknown("not")
        if v.op == "poly":
            return neg(v)
        return self.unknown("unary")

    def e_Zst(self, e):
        c = e["callee"]
        d = self.p.defs[c["def"]]
        # unit-like constructors and functions
        return mk("fnval", c.get("rdef", c["def"]), tuple(self.p.ct(a, self.tenv()) for a in c.get("rargs", c["args"])),
                  c["def"], tuple(self.p.ct(a, self.tenv()) for a in c["args"]))

    def e_Const(self, e):
        d = self.p.defs[e["def"]]
        for c in self.p.consts:
            if c.get("id") == d["id"]:
                return self.ev(c["thir"]["root"])
        if d["name"] in ("MAX",):
            return atom(mk("sym", d["id"]))
        return self.unknown("constant %s" % d["id"])

    def e_ConstParam(self, e):
        return atom(mk("sym", "const:" + str(e.get("name", ""))))

    def e_Static(self, e):
        return self.unknown("static")

    def e_Call(self, e):
        if "callee" not in e:
            f = self.ev(e["fun"])
            args = [self.ev(a) for a in e["args"]]
            return self.call_value(f, args, self.p.ct(e["ty"], self.tenv()), e)
        args = [self.ev(a) for a in e["args"]]
        return self.call(e["callee"], args, e)

    # ---------------------------------------------------------- calls
    def call(self, callee, args, e):
        """call of a resolved path with evaluated arguments"""
        c = callee
        d = self.p.defs[c["def"]]
        tv = self.tenv()
        self.callsites += 1
        if self.p.types[e["ty"]][0] == "never":
            self.require(FALSE, "panic")
            raise Dead()
        if "ctor_of" in d:
            pass
        targs = tuple(self.p.ct(a, tv) for a in c["args"])
        rdef = c.get("rdef")
        rargs = tuple(self.p.ct(a, tv) for a in c["rargs"]) if rdef is not None else None
        return self.call_def(c["def"], targs, rdef, rargs, args, self.p.ct(e["ty"], tv), e)

    def call_def(self, didx, targs, rdef, rargs, args, rty, e):
        d = self.p.defs[didx]
        if d.get("kind") in ("Ctor",) or "ctor_of" in d:
            return self.construct(d, args)
        if d["name"] == "next" and len(args) == 1 and args[0].op == "mref" and self.read_mref(args[0]).op in ("itseq", "it"):
            return self.it_next(args[0])        # an iterator known by its sequence
        if rdef is not None and self.p.defs[rdef]["local"]:
            f = self.p.fns.get(self.p.defs[rdef]["id"])
            if f is not None and f["kind"] != "Closure":
                return self.call_fn(f, args, self.bind_generics(self.p.defs[rdef], rargs), rty, e)
        trait = d.get("trait")
        if trait is None:
            f = self.p.fns.get(d["id"])
            if f is not None:
                return self.call_fn(f, args, self.bind_generics(d, targs), rty, e)
            return self.builtin(d, targs, args, rty, e)
        # trait method: dispatch on the type or the value of self
        selfty = targs[0] if targs else ("param", "Self")
        imp, env = self.select_impl(trait, d, selfty, targs, args)
        if imp is not None:
            f = self.p.fn_of_impl(imp, d["name"])
            if f is not None:
                if imp.get("derived"):
                    r = self.derived(d["name"], args)
                    if r is not None:
                        return r
                n = len([g for g in self.p.defs[didx]["generics"]])
                return self.call_fn(f, args, tuple(sorted(env.items())), rty, e)
        f = self.p.fns.get(d["id"])
        if f is not None and f.get("thir"):
            env = dict(self.bind_generics(d, targs))
            return self.call_fn(f, args, tuple(sorted(env.items())), rty, e)
        return self.builtin(d, targs, args, rty, e)

    def bind_generics(self, d, args):
        g = d.get("generics", [])
        env = {}
        if len(g) == len(args):
            for n, a in zip(g, args):
                if a != ("lt",) and not n.startswith("'"):
                    env[n] = a
        else:
            gg = [x for x in g if not x.startswith("'")]
            aa = [a for a in args if a != ("lt",)]
            for n, a in zip(gg, aa):
                env[n] = a
        return tuple(sorted(env.items()))

    def ctype_of(self, v):
        """type of a value as far as its constructor tells"""
        if v.op == "ref":
            return ("ref", False, self.ctype_of(v.args[0]))
        if v.op == "mref":
            return ("ref", True, self.ctype_of(self.read_mref(v)))
        if v.op == "struct":
            return ("adt", v.args[0], tuple(("param", "T") for _ in range(1)))
        if v.op == "arc":
            return ("adt", "alloc::rcs::arc::Arc", (self.ctype_of(v.args[1]),))
        if is_seq(v):
            return ("adt", "alloc::vec::Vec", (("param", "T"),))
        if v.op == "poly":
            return ("param", "T")
        if v.op == "ite":
            a = self.ctype_of(v.args[1])
            return a if a[0] != "param" else self.ctype_of(v.args[2])
        if v.op == "osym" and v.args[1]:
            return v.args[1]
        if v.op == "closure":
            return ("closure", v.args[0])
        if v.op in ("itseq", "it"):
            return ("iter",)
        return ("param", "?")

    def select_impl(self, trait, d, selfty, targs, args):
        if trait not in self.p.impl_by_trait:
            return None, None
        others = list(targs[1:])
        static = not d.get("has_self")
        cand = []
        if not static and args:
            vt = self.ctype_of(args[0])
            # methods take self, &self or &mut self
            if d["name"] in ("add", "sub", "mul", "div", "neg", "into_iter", "rem"):
                tys = [vt]
            else:
                tys = [vt[2], vt] if vt[0] == "ref" else [vt]
            if selfty[0] not in ("param", "alias"):
                tys = [selfty] + tys
        else:
            tys = [selfty]
        ot = []
        for i, o in enumerate(others):
            if o[0] in ("param", "alias") and not static and trait.rsplit("::", 1)[-1] not in OPERATOR_TRAITS:
                ot.append(None)
            elif o[0] in ("param", "alias") and not static and i == 0 and len(args) > 1:
                x = self.ctype_of(args[1])
                if d["name"] in ("eq", "ne", "partial_cmp") and x[0] == "ref":
                    x = x[2]
                ot.append(x if x[1] != "?" else None)
            else:
                ot.append(o)
        for t in tys:
            if t[0] in ("param", "alias"):
                continue
            for imp in self.p.impl_by_trait.get(trait, []):
                env = {}
                if self.p.types[imp["self"]][0] == "param":
                    continue
                if not self.p.unify(imp["self"], t, env):
                    continue
                good = True
                for ty, c in zip(imp["targs"][1:], ot):
                    if c is not None and not self.p.unify(ty, c, env):
                        good = False
                        break
                if good:
                    env = {k: v for k, v in env.items()}
                    return imp, env
        return None, None

    def derived(self, name, args):
        if name == "clone":
            v = args[0]
            v = self.deref(v)
            return self.clone_value(v)
        if name in ("eq", "ne"):
            # structural, but with the hand-written PartialEq of the fields
            a, b = self.eqstrip(args[0]), self.eqstrip(args[1])
            if a.op == "struct" and b.op == "struct" and len(a.args) == 3 and self.eqstrip(a.args[2]).op == "struct":
                r = self.call_eq(self.eqstrip(a.args[2]), self.eqstrip(b.args[2]))
                return r if name == "eq" else bnot(r)
            return None
        return None

    def call_eq(self, a, b):
        """a == b for values, through a local PartialEq impl if there is one"""
        a, b = self.eqstrip(a), self.eqstrip(b)
        t = self.ctype_of(a)
        trait = "core::cmp::PartialEq"
        if t[0] == "adt" and t[1] in self.p.adts:
            for imp in self.p.impl_by_trait.get(trait, []):
                if self.p.unify(imp["self"], t, {}):
                    if imp.get("derived"):
                        r = self.derived("eq", [ref(a), ref(b)])
                        if r is not None:
                            return r
                        continue
                    f = self.p.fn_of_impl(imp, "eq")
                    if f is not None:
                        return self.call_fn(f, [ref(a), ref(b)], (), ("prim", "bool"), None)
        if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            return band(*[self.call_eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
        if a.op == "tup" and b.op == "tup":
            return band(*[self.call_eq(x, y) for x, y in zip(a.args, b.args)])
        if a.op == "ite" and not is_seq(a):
            return ite(a.args[0], self.call_eq(a.args[1], b), self.call_eq(a.args[2], b))
        if b.op == "ite" and not is_seq(b):
            return ite(b.args[0], self.call_eq(a, b.args[1]), self.call_eq(a, b.args[2]))
        return eq(a, b)

    def clone_value(self, v):
        if v.op == "ref":
            return v
        if v.op == "struct" and v.args[0] in self.p.adts:
            t = self.ctype_of(v)
            for imp in self.p.impl_by_trait.get("core::clone::Clone", []):
                if self.p.unify(imp["self"], t, {}) and not imp.get("derived"):
                    f = self.p.fn_of_impl(imp, "clone")
                    if f is not None:
                        return self.call_fn(f, [ref(v)], (), t, None)
            return mk("struct", v.args[0], v.args[1], *[self.clone_value(x) for x in v.args[2:]])
        if v.op == "struct":
            return mk("struct", v.args[0], v.args[1], *[self.clone_value(x) for x in v.args[2:]])
        if v.op == "tup":
            return tup(*[self.clone_value(x) for x in v.args])
        if v.op == "seqlit":
            return seqlit(*[self.clone_value(x) for x in v.args])
        if v.op == "ite" and not is_seq(v):
            c = v.args[0]
            return ite(c, self.clone_value(v.args[1]), self.clone_value(v.args[2]))
        return v

    def construct(self, d, args):
        adt = d.get("adt")
        aid = self.p.defs[adt]["id"] if isinstance(adt, int) else adt
        return mk("struct", aid, d.get("variant") or 0, *args)

    def call_value(self, f, args, rty, e=None):
        while f.op in ("ref", "mref"):
            if f.op == "mref":
                inner = self.read_mref(f)
                if inner.op == "closure":
                    return self.call_closure(inner, args, rty, f)
            f = self.deref(f)
        if f.op == "closure":
            return self.call_closure(f, args, rty, None)
        if f.op == "fnval":
            rdef, rargs, didx, targs = f.args
            return self.call_def(didx, targs, rdef if rdef != didx else None, rargs, args, rty, e)
        if f.op == "ite":
            return self.branch(f.args[0], lambda: self.call_value(f.args[1], args, rty, e),
                               lambda: self.call_value(f.args[2], args, rty, e))
        if f.op == "fnsym":
            h = self.hooks.get("fnsym")
            if h is not None:
                r = h(self, f, args, rty)
                if r is not None:
                    return r
            t = f.args[1]
            rt = t[2] if t[0] == "fnptr" else rty
            return self.opaque(mk("app", f, *[self.norm_arg(a) for a in args]), rt)
        if f.op == "pyfn":
            return f.args[0](self, args)
        if f.op == "unk":
            # an unknown function may do anything through mutable references
            self.poison("unknown call")
            return f
        return self.unknown("call of %s" % f.op)

    def norm_arg(self, a):
        while a.op == "ref":
            a = a.args[0]
        return a

    def call_closure(self, cl, args, rty, place):
        did, names, tenv = cl.args[:3]
        f = self.p.fns[did]
        env = {}
        owned = []
        for i, (n, v) in enumerate(zip(names, cl.args[3:])):
            kind, val = v.args
            if kind.args[0] == "ref" and val.op == "mref":
                env[n] = (val.args[0], val.args[1:])
            else:
                c = self.cell(val)
                env[n] = (c, ())
                owned.append((i, c, val))
        r = self.run_body(f, args, dict(tenv), env, skip=1)
        if place is not None:
            caps = list(cl.args[3:])
            ch = False
            for i, c, val in owned:
                nv = self.st.cells.get(c, val)
                if nv is not val:
                    ch = True
                    caps[i] = tup(mk("tag", "val"), nv)
            if ch:
                self.write_mref(place, mk("closure", did, names, tenv, *caps))
        return r

    def call_fn(self, f, args, tenv, rty, e):
        name = f["id"]
        h = self.hooks.get(name)
        if h is None:
            h = self.hooks.get(self.qual(f))
        if h is not None:
            r = h(self, f, args, rty)
            if r is not NotImplemented:
                self.used_hooks[self.qual(f)] = self.used_hooks.get(self.qual(f), 0) + 1
                return r
        if sum(1 for x in self.frames if x.fn is f) >= self.rec_limit or len(self.frames) > 60:
            for a in args:
                if a.op == "mref":
                    self.write_mref(a, unk("recursion"))
            self.poison("recursion in %s" % name)
            return unk("recursion in %s" % name)
        return self.run_body(f, args, dict(tenv), {}, site=e["sp"] if e is not None and "sp" in e else "")

    def qual(self, f):
        """Type::name / Type as Trait::name / name, independent of modules and impl numbering"""
        d = self.p.defs[f["def"]]
        if "impl_self" in d:
            c = self.p.types[d["impl_self"]]
            while c[0] == "ref":
                c = self.p.types[c[2]]
            st = self.p.defs[c[1]]["name"] if c[0] == "adt" else c[0]
            return "%s::%s" % (st, d["name"])
        if d.get("trait"):
            return "%s::%s" % (d["trait"].rsplit("::", 1)[-1], d["name"])
        return d["name"]

    def run_body(self, f, args, tenv, env, skip=0, site=""):
        th = f.get("thir")
        if not th:
            self.poison("no body for %s" % f["id"])
            return unk("no body for %s" % f["id"])
        self.visited[f["id"]] = self.visited.get(f["id"], 0) + 1
        fr = Frame(f, env, tuple(sorted(tenv.items())))
        saved_exits, self.exits = self.exits, []
        live0 = self.st.live
        base = self.st.facts
        self.outer.append(live0)
        self.st.live = TRUE
        self.frames.append(fr)
        self.site.append(f["id"].rsplit("::", 2)[-1] + ":" + site)
        try:
            params = th["params"][skip:]
            if skip and len(params) == 1 and len(args) != 1:
                pass
            try:
                for p, a in zip(params, args):
                    if p["pat"] is not None:
                        binds = []
                        self.pat(p["pat"], ("v", a), binds)
                        self.do_binds(binds)
                v = self.ev(th["root"])
                outs = [(self.st.live, v, self.st)]
            except Dead:
                outs = []
            mine = [(x[1], x[2], x[3]) for x in self.exits if x[0] is fr.ret]
            # body exits recorded first happened on earlier paths
            outs = mine + outs
        finally:
            self.frames.pop()
            self.site.pop()
            self.outer.pop()
            self.exits = saved_exits
        if not outs:
            self.st = State(self.st.cells, live0, base)
            raise Dead()
        v = self.join(outs, base, live0)
        self.st.live = live0
        return v

    # ---------------------------------------------------------- loops
    from loops import (loop_expr, for_loop, drive, drive_seq, drive_user, drive_user_ref, counted, summarise, summarise1, to_seq,
                       to_iter, has_next, next_impl, iter_ref, iter_mut, is_from, gen_seq, zip_seq, zip_longest_seq,
                       breakable, it_next, seq_kind, havoc_leaf, closed_form, closed_form1, closed_special, closed_seq, trip, close_loop)
    from builtins_rs import builtin, chan_msgs


def norm_path(path):
    out = []
    for s in path:
        if out and out[-1].op == "p_s":
            st, n = out[-1].args
            if s.op == "p_i":
                out[-1] = mk("p_i", add(st, s.args[0]))
                continue
            if s.op == "p_s":
                out[-1] = mk("p_s", add(st, s.args[0]), s.args[1])
                continue
        out.append(s)
    return tuple(out)


def has_let(e):
    if e["k"] == "Let":
        return True
    if e["k"] == "Logical":
        return has_let(e["l"]) or has_let(e["r"])
    if e["k"] == "Scope":
        return has_let(e["v"])
    return False


_size = {}


def term_size(t, cap=400):
    r = _size.get(t)
    if r is None:
        r = 1
        for a in TM._subterms(t.args):
            r += term_size(a)
            if r > cap:
                break
        _size[t] = r
    return r
