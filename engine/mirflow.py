"""Call graph, access paths, lock guards and channel ends over the compiler's MIR.

An access path is (root, projection): root ("p", i) the i-th parameter of the
function, ("agg", l) an aggregate built in local l, ("new", block) the result of
a call that derives from nothing known, ("?",).  Derefs, newtype/first fields and
enum payloads are dropped from the projection, "[]" is any element, "!" the
content reached through a lock guard."""

GUARDS = ("RwLockReadGuard", "RwLockWriteGuard", "MutexGuard", "MappedRwLockReadGuard", "MappedRwLockWriteGuard", "MappedMutexGuard",
          "ReentrantLockGuard", "ShardedLockReadGuard", "ShardedLockWriteGuard")
LOCKS = ("RwLock", "Mutex", "ReentrantLock", "ShardedLock")
ELEM = {"next", "get", "index", "index_mut", "iter", "iter_mut", "into_iter", "first", "last", "get_mut", "pop", "remove", "split_first", "split_last",
        "split_at", "zip", "chunks", "nth", "peek", "next_back", "drain", "swap_remove", "values", "get_unchecked", "find", "map", "for_each"}
MAXP = 6


def sccs(nodes, succ):
    """strongly connected components"""
    index, low, stack, on, out, n = {}, {}, [], set(), [], 0
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = set()
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def norm(pr):
    out = []
    for x in pr:
        if x == "*" or x == 0 or (isinstance(x, str) and x.startswith("v") and x[1:].isdigit()):
            continue
        if x == "[]" and out and out[-1] == "[]":
            continue
        if x not in ("[]", "!") and not isinstance(x, int):
            x = "[]"
            if out and out[-1] == "[]":
                continue
        out.append(x)
    return tuple(out[:MAXP])


def same_ty(a, b):
    """equal up to the names of type parameters"""
    if a[0] == "param" or b[0] == "param":
        return a[0] == b[0]
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and isinstance(x[0], str):
                if not same_ty(x, y):
                    return False
            elif len(x) != len(y) or not all(same_ty(p, q) for p, q in zip(x, y)):
                return False
        elif x != y and not isinstance(x, bool):
            return False
    return True


class Body:
    def __init__(self, F, fid):
        self.F, self.P, self.id = F, F.P, fid
        m = F.P.mir[fid]
        self.m = m
        self.nargs, self.locals, self.blocks = m["nargs"], m["locals"], m["blocks"]
        self.pts = {i: {(("p", i), ())} for i in range(1, self.nargs + 1)}
        self.fld = {}              # local -> field -> operand paths
        self.aggof = {}            # local -> closure def id it holds
        self.glocks = {}           # local -> lock paths of the guard it holds
        self.summary = {"acq": {}, "block": None, "ret": set(), "glocks": set(), "recv": {}, "send": {}, "under": set(), "drains": {}, "wait": None}
        self.live = [i for i, b in enumerate(self.blocks) if not b["cleanup"]]
        self.calls = []            # (block, Call)
        for i in self.live:
            t = self.blocks[i]["t"]
            if t and t["k"] == "call":
                self.calls.append(Call(self, i, t))
        self.succ = {i: [j for j in (self.blocks[i]["t"] or {}).get("to", []) if not self.blocks[j]["cleanup"]] for i in self.live}

    def name_of(self):
        return self.id.split("::", 1)[-1]

    def cycles(self):
        """blocks that lie on a cycle"""
        if not hasattr(self, "_cyc"):
            self._cyc = set()
            self.comps = sccs(self.live, self.succ)
            for c in self.comps:
                if len(c) > 1 or any(x in self.succ[x] for x in c):
                    self._cyc |= c
        return self._cyc

    # ------------------------------------------------------------- paths
    def place(self, pl):
        l, pr = pl[0], pl[1:]
        return self.resolve({(("agg", l), ())} if l in self.fld else set(), pr) | self.resolve({x for x in self.pts.get(l, ()) if x[0] != ("agg", l)}, pr)

    def resolve(self, base, pr, depth=0):
        out = set()
        pr = tuple(pr)
        for r, p in base:
            if r[0] == "agg" and depth < 8:
                rest = [x for x in p + pr if x != "*" and not (isinstance(x, str) and x[0] == "v" and x[1:].isdigit())]
                f = self.fld.get(r[1], {})
                if rest and isinstance(rest[0], int) and rest[0] in f:
                    out |= self.resolve(f[rest[0]], rest[1:], depth + 1)
                elif rest and rest[0] == "[]":
                    for k in f:
                        out |= self.resolve(f[k], rest[1:], depth + 1)
                elif len(f) == 1 and 0 in f:
                    out |= self.resolve(f[0], rest, depth + 1)
                else:
                    out.add((r, norm(p + pr)))
            else:
                out.add((r, norm(p + pr)))
        return set(list(out)[:40]) if len(out) > 40 else out

    def operand(self, o):
        if "const" in o:
            d = o["const"].get("static")
            return {(("s", self.P.defs[d]["id"]), ())} if d is not None else set()
        return self.place(o.get("move") or o.get("copy"))

    def opty(self, o):
        """type of an operand when it is a bare local"""
        pl = o.get("move") or o.get("copy")
        if pl is not None and len(pl) == 1:
            return self.locals[pl[0]]
        if "const" in o:
            return o["const"].get("ty")
        return None

    def add(self, l, s):
        old = self.pts.setdefault(l, set())
        n = len(old)
        old |= s
        return len(old) != n

    def flow(self):
        """one round; True if something was learned"""
        ch = False
        for i in self.live:
            b = self.blocks[i]
            for s in b["s"]:
                if s[0] != "=":
                    continue
                d, rv = s[1], s[2]
                k = rv[0]
                if k == "agg":
                    if len(d) == 1:
                        f = self.fld.setdefault(d[0], {})
                        self.pts.setdefault(d[0], set()).add((("agg", d[0]), ()))
                        for j, o in enumerate(rv[2]):
                            v = self.operand(o)
                            if not v <= f.setdefault(j, set()):
                                f[j] |= v
                                ch = True
                        if rv[1][0] == "closure":
                            self.aggof[d[0]] = self.P.defs[rv[1][1]]["id"]
                        g = set()
                        for o in rv[2]:
                            pl = o.get("move")
                            if pl:
                                g |= self.glocks.get(pl[0], set())
                        if g and not g <= self.glocks.setdefault(d[0], set()):
                            self.glocks[d[0]] |= g
                            ch = True
                        continue
                    v = set()
                    for o in rv[2]:
                        v |= self.operand(o)
                elif k in ("use", "cast"):
                    v = self.operand(rv[1])
                    pl = rv[1].get("move") or rv[1].get("copy") if "const" not in rv[1] else None
                    if pl:
                        g = self.glocks.get(pl[0], set())
                        if g and not g <= self.glocks.setdefault(d[0], set()):
                            self.glocks[d[0]] |= g
                            ch = True
                        if len(d) == 1 and len(pl) == 1 and pl[0] in self.aggof:
                            self.aggof[d[0]] = self.aggof[pl[0]]
                elif k in ("ref", "refmut", "rawptr"):
                    v = self.place(rv[1])
                else:
                    continue
                if len(d) == 1:
                    ch |= self.add(d[0], v)
                elif isinstance(d[1], int) and d[0] in self.fld:
                    f = self.fld[d[0]].setdefault(d[1], set())
                    if not v <= f:
                        f |= v
                        ch = True
        for c in self.calls:
            ch |= c.flow()
        return ch


class Call:
    def __init__(self, body, blk, t):
        self.b, self.blk, self.t = body, blk, t
        P = body.P
        self.sp = t.get("sp", "")
        ce = t.get("callee")
        self.did = self.name = None
        self.rid = None
        self.full = ""
        if "const" in (t.get("f") or {}):
            self.full = t["f"]["const"].get("s", "")
        if ce and "def" in ce:
            d = P.defs[ce["def"]]
            self.did, self.name = d["id"], d.get("name")
            self.defn = d
            r = ce.get("rdef")
            if r is not None:
                self.rid = P.defs[r]["id"]
        else:
            self.defn = None
        self.args = t["args"]
        self.dest = t["dest"]
        self.cargs = ce.get("args", []) if ce else []

    # who is called
    def targets(self):
        F = self.b.F
        if self.did is None:
            return self.pointees()
        for x in (self.rid, self.did):
            if x in F.bodies and (x == self.rid or not self.defn.get("trait")):
                return [x]
        if self.rid is not None:
            return []
        tr = self.defn.get("trait")
        if tr and tr in F.P.traits:
            out = [self.did] if self.did in F.bodies else []
            for im in F.P.impl_by_trait.get(tr, []):
                for it in im["items"]:
                    if it["name"] == self.name and it["id"] in F.bodies:
                        out.append(it["id"])
            return out
        if self.name in ("call", "call_mut", "call_once") and self.args:
            return self.closures()
        return []

    def pointees(self):
        """functions of this signature whose address is taken somewhere"""
        F, P = self.b.F, self.b.P
        ty = self.b.opty(self.t.get("f") or {})
        t = P.types[ty] if ty is not None else ["?"]
        if t[0] != "fnptr":
            return []
        want = [P.ct(x) for x in t[1]] + [P.ct(t[2])]
        out = []
        for x in F.address_taken:
            sig = P.fns.get(x, {}).get("sig")
            if sig and len(sig[0]) == len(t[1]) and all(same_ty(a, P.ct(b)) for a, b in zip(want, sig[0] + [sig[1]])):
                out.append(x)
        return out

    def callback(self):
        """a call of a value whose code the caller of this function provides"""
        if self.name in ("call", "call_mut", "call_once") and not self.closures() and self.cargs:
            t = self.b.P.types[self.cargs[0]] if self.cargs[0] is not None else ["?"]
            while t[0] == "ref":
                t = self.b.P.types[t[2]]
            return t[0] in ("param", "dyn", "fnptr")
        return False

    def closures(self):
        """closures inside the arguments: run by this call unless it only stores them"""
        out = []
        for o in self.args:
            ty = self.b.opty(o)
            if ty is not None:
                for c in self.b.F.closures_in(ty):
                    if c not in out:
                        out.append(c)
        return [c for c in out if c in self.b.F.bodies]

    @property
    def external(self):
        return self.did is not None and not self.targets()

    def krate(self):
        return (self.did or "").split("::")[0]

    def spawns(self):
        """the arguments are started as tasks, not run by this call"""
        return self.name is not None and self.name.startswith("spawn") and self.krate() in ("rayon", "rayon_core", "std", "crossbeam_utils", "crossbeam")

    def pool_spawn(self):
        return self.spawns() and self.krate().startswith("rayon")

    def pool_block(self):
        """waits for tasks of the pool"""
        if not self.krate().startswith("rayon") or self.name is None or self.name.startswith(("spawn", "current", "new", "build", "num_threads", "max_num", "yield")):
            return False
        if self.name in ("scope", "in_place_scope", "scope_fifo", "in_place_scope_fifo", "join", "join_context", "install", "broadcast"):
            return True
        ty = self.b.locals[self.dest[0]]
        return not self.b.F.mentions_crate(ty, "rayon") and ("iter" in self.did or "slice" in self.did or "vec" in self.did)

    def acquires(self):
        return (self.name in ("read", "write", "lock") and self.args and ("sync" in self.did or self.krate() in ("parking_lot", "lock_api", "crossbeam_utils"))
                and any(g in self.b.F.adt_names(self.b.locals[self.dest[0]]) for g in GUARDS))

    def receives(self):
        """may block until a message arrives"""
        if self.name in ("recv", "iter", "into_iter", "select", "recv_deadline") and self.args:
            ty = self.b.F.adt_names(self.b.opty(self.args[0]))
            if "Receiver" in ty and (self.krate().startswith("crossbeam") or "mpsc" in self.did or self.did.endswith("into_iter")):
                return not (self.did.endswith("into_iter") and "Vec" in ty)
        if self.name == "next" and self.args and self.rid and ("mpsc" in self.rid or self.rid.startswith("crossbeam_channel")):
            return True
        if self.name in ("try_recv", "try_iter") and (self.krate().startswith("crossbeam") or "mpsc" in self.did):
            return self.blk in self.b.cycles()
        return False

    def sends(self):
        return self.name in ("send", "try_send") and ("mpsc" in self.did or self.krate().startswith("crossbeam"))

    def msg(self):
        """message type of the channel end in the first argument"""
        P = self.b.P
        ty = self.b.opty(self.args[0])
        return self.b.F.msg_type(ty)

    def env(self, target):
        """how the paths of `target` read here: function path -> set of paths"""
        b = self.b
        argp = [b.operand(o) for o in self.args]
        isclos = b.P.fns.get(target, {}).get("kind") == "Closure"
        F = b.F

        def sub(path):
            r, pr = path
            if r[0] != "p":
                return {path} if r[0] == "s" else {(("?",), ())} if r[0] == "?" else set()
            i = r[1] - 1
            if isclos:
                if i == 0:
                    out = set()
                    for o, s in zip(self.args, argp):
                        for x in s:
                            if x[0][0] == "agg" and b.aggof.get(x[0][1]) == target:
                                out |= b.resolve({x}, pr)
                    if not out:
                        for l, c in b.aggof.items():
                            if c == target:
                                out |= b.resolve({(("agg", l), ())}, pr)
                    return out or {(("?",), ())}
                out = set()
                for s in argp:
                    out |= b.resolve({x for x in s if not (x[0][0] == "agg" and x[0][1] in b.aggof)}, ("[]",) + pr)
                return out
            if i < len(argp):
                return b.resolve(argp[i], pr)
            return {(("?",), ())}
        return sub

    def flow(self):
        b, F = self.b, self.b.F
        d = self.dest[0]
        dty = b.locals[d]
        ch = False
        # guards
        if F.has_guard(dty):
            g = set()
            if self.acquires():
                g = b.operand(self.args[0]) or {(("?",), ())}
            else:
                for t in self.targets():
                    sub = self.env(t)
                    for p in F.bodies[t].summary["glocks"]:
                        g |= sub(p)
                for o in self.args:
                    pl = o.get("move") or o.get("copy") if "const" not in o else None
                    if pl:
                        g |= b.glocks.get(pl[0], set())
                if self.name in ("try_read", "try_write", "try_lock") and self.args:
                    g |= b.operand(self.args[0])
            if not g <= b.glocks.setdefault(d, set()):
                b.glocks[d] |= g
                ch = True
        if not F.interesting(dty):
            return ch
        out = set()
        ts = self.targets()
        if self.acquires() or self.name in ("try_read", "try_write", "try_lock"):
            out = b.resolve(b.operand(self.args[0]), ("!",))
        elif ts and self.did is not None:
            for t in ts:
                sub = self.env(t)
                for p in F.bodies[t].summary["ret"]:
                    out |= sub(p)
            if not out:
                out = {(("new", self.blk), ())}
        else:
            elem = self.name in ELEM and self.did is not None
            for o in self.args:
                out |= b.resolve(b.operand(o), ("[]",) if elem else ())
            if not out:
                out = {(("new", self.blk), ())}
        if len(self.dest) == 1:
            ch |= b.add(d, out)
        return ch


class Flow:
    def __init__(self, P):
        self.P = P
        self._adt, self._clos, self._int, self._hg, self._opq = {}, {}, {}, {}, {}
        self.bodies = {}
        for fid in P.mir:
            self.bodies[fid] = Body(self, fid)
        self.address_taken = self._taken()
        self.creator = {}
        for b in self.bodies.values():
            for i in b.live:
                for s in b.blocks[i]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        self.creator[P.defs[s[2][1][1]]["id"]] = b.id
        for _ in range(12):
            ch = False
            for b in self.bodies.values():
                for _k in range(30):
                    if not b.flow():
                        break
                    ch = True
                ch |= self.summarise(b)
            if not ch:
                break

    def _taken(self):
        out = set()
        for b in self.bodies.values():
            for i in b.live:
                blk = b.blocks[i]
                ops = []
                for s in blk["s"]:
                    if s[0] == "=":
                        ops += [o for o in s[2][1:] if isinstance(o, dict)]
                        if s[2][0] == "agg":
                            ops += s[2][2]
                if blk["t"] and blk["t"]["k"] == "call":
                    ops += blk["t"]["args"]
                for o in ops:
                    c = o.get("const") if isinstance(o, dict) else None
                    if c and c.get("callee") and "def" in c["callee"]:
                        for k in ("rdef", "def"):
                            if k in c["callee"] and c["callee"][k] is not None:
                                x = self.P.defs[c["callee"][k]]["id"]
                                if x in self.P.mir:
                                    out.add(x)
        return sorted(out)

    # ------------------------------------------------------------- types
    def walk(self, ty, refs=True, seen=None, fields=False):
        """every type mentioned by `ty` (through references if refs)"""
        seen = set() if seen is None else seen
        if ty is None or ty in seen or isinstance(ty, list):
            return
        seen.add(ty)
        t = self.P.types[ty]
        yield ty, t
        k = t[0]
        sub = []
        if k == "adt":
            sub = t[2]
        elif k == "ref":
            sub = [t[2]] if refs else []
        elif k == "tuple":
            sub = t[1]
        elif k in ("array", "slice"):
            sub = [t[1]]
        elif k == "closure" and fields:
            b = self.bodies.get(self.creator.get(self.P.defs[t[1]]["id"]))
            if b:
                for l, c in b.aggof.items():
                    if c == self.P.defs[t[1]]["id"]:
                        for i in b.live:
                            for s in b.blocks[i]["s"]:
                                if s[0] == "=" and s[1] == [l] and s[2][0] == "agg":
                                    sub = [b.opty(o) for o in s[2][2]]
        elif k == "alias" and fields:
            for x in self.opaque(t):
                sub.append(x)
        for s in sub:
            if s is not None and not isinstance(s, list):
                yield from self.walk(s, refs, seen, fields)
        if fields and k == "adt":
            a = self.P.adts.get(self.P.defs[t[1]]["id"])
            if a:
                for v in a["variants"]:
                    for f in v["fields"]:
                        yield from self.walk(f["ty"], refs, seen, fields)

    def opaque(self, t):
        """hidden type of an `impl Trait` result"""
        out = []
        for b in self.bodies.values():
            f = self.P.fns.get(b.id)
            if f and f.get("sig") and self.P.types[f["sig"][1]] == t and self.P.types[b.locals[0]] != t:
                out.append(b.locals[0])
        return out

    def adt_names(self, ty):
        if ty is None:
            return set()
        r = self._adt.get(ty)
        if r is None:
            r = self._adt[ty] = {self.P.defs[t[1]]["name"] for _, t in self.walk(ty) if t[0] == "adt"}
        return r

    def mentions_crate(self, ty, crate):
        return any(t[0] == "adt" and self.P.defs[t[1]]["id"].startswith(crate) for _, t in self.walk(ty))

    def closures_in(self, ty):
        r = self._clos.get(ty)
        if r is None:
            r = self._clos[ty] = [self.P.defs[t[1]]["id"] for _, t in self.walk(ty) if t[0] == "closure"]
        return r

    def has_guard(self, ty):
        r = self._hg.get(ty)
        if r is None:
            r = self._hg[ty] = any(t[0] == "adt" and self.P.defs[t[1]]["name"] in GUARDS for _, t in self.walk(ty, refs=False))
        return r

    def interesting(self, ty):
        """can a value of this type give access to a lock or a channel?"""
        r = self._int.get(ty)
        if r is None:
            r = any(t[0] in ("param", "closure", "alias", "dyn", "fnptr") or
                    (t[0] == "adt" and (self.P.defs[t[1]]["local"] or self.P.defs[t[1]]["name"] in LOCKS + GUARDS + ("Sender", "Receiver", "SyncSender")))
                    for _, t in self.walk(ty))
            self._int[ty] = r
        return r

    def msg_type(self, ty):
        for _, t in self.walk(ty, fields=True):
            if t[0] == "adt" and self.P.defs[t[1]]["name"] in ("Receiver", "Sender", "SyncSender", "Iter", "IntoIter", "TryIter"):
                args = [a for a in t[2] if a is not None]
                if args:
                    return self.canon(args[0])
        return None

    def canon(self, ty):
        c = self.P.ct(ty)
        return str(c)

    # --------------------------------------------------------- summaries
    def summarise(self, b):
        s = b.summary
        ch = False

        def put(d, k, v):
            nonlocal ch
            if k not in d:
                d[k] = v
                ch = True

        def keep(paths):
            return {p for p in paths if p[0][0] in ("p", "?", "s")}
        ret = {p for p in b.place([0])} if self.interesting(b.locals[0]) else set()
        for f in b.fld.get(0, {}).values():
            ret |= f
        # what an aggregate in the result is made of, however deep
        more = True
        while more:
            more = False
            for p in list(ret):
                if p[0][0] == "agg":
                    for f in b.fld.get(p[0][1], {}).values():
                        if not f <= ret:
                            ret |= f
                            more = True
        ret = {p for p in ret if p[0][0] in ("p", "s")}
        if not ret <= s["ret"]:
            s["ret"] |= ret
            ch = True
        if self.has_guard(b.locals[0]):
            g = keep(b.glocks.get(0, set()))
            if not g <= s["glocks"]:
                s["glocks"] |= g
                ch = True
        held = self.held(b)
        for c in b.calls:
            if c.acquires():
                for p in keep(b.operand(c.args[0])):
                    put(s["acq"], (p, c.name), c.sp)
            if c.pool_block() and s["block"] is None:
                s["block"] = "%s at %s" % (c.name, c.sp)
                ch = True
            if c.receives():
                put(s["recv"], c.msg(), c.sp)
            if c.sends():
                put(s["send"], c.msg(), c.sp)
            if c.did and c.name in ("wait", "wait_while", "wait_timeout", "park") and ("Barrier" in c.full or "Condvar" in c.full or "park" in c.did) and s["wait"] is None:
                s["wait"] = "%s at %s" % (c.name, c.sp)
                ch = True
            if c.callback():
                for l in held.get(c.blk, ()):
                    for p in keep(b.glocks.get(l, set())):
                        if p not in s["under"]:
                            s["under"].add(p)
                            ch = True
            if c.spawns():
                continue
            for t in self.runs(c):
                x = self.bodies[t].summary
                sub = c.env(t)
                for (p, mode), sp in list(x["acq"].items()):
                    for q in keep(sub(p)):
                        put(s["acq"], (q, mode), sp)
                if x["block"] and s["block"] is None:
                    s["block"] = x["block"]
                    ch = True
                if x["wait"] and s["wait"] is None:
                    s["wait"] = x["wait"]
                    ch = True
                for k in ("recv", "send"):
                    for m, sp in list(x[k].items()):
                        put(s[k], m, sp)
                for p in list(x["under"]):
                    for q in keep(sub(p)):
                        if q not in s["under"] and c.callback():
                            s["under"].add(q)
                            ch = True
        return ch

    def runs(self, c):
        """bodies that this call runs before it returns"""
        ts = list(c.targets())
        for k in c.closures():
            if k not in ts:
                ts.append(k)
        return ts

    # --------------------------------------------------- maybe-live values
    def held(self, b, pred=None):
        """block -> locals with a live value of interest when its terminator runs"""
        pred = pred or self.has_guard
        key = "_held_" + getattr(pred, "__name__", "x")
        cached = getattr(b, key, None)
        if cached is not None:
            return cached
        want = {l for l, t in enumerate(b.locals) if pred(t)}
        if not want:
            setattr(b, key, {})
            return {}
        inn = {i: set() for i in b.live}
        inn[0] |= {l for l in want if 1 <= l <= b.nargs}
        at = {}
        work = list(b.live)

        def moved(o, st):
            pl = o.get("move") if isinstance(o, dict) else None
            if pl and len(pl) == 1:
                st.discard(pl[0])
            elif pl and "*" not in pl and pl[0] in st and pred is self.has_guard:
                st.discard(pl[0])
        n = 0
        while work and n < 5000:
            n += 1
            i = work.pop(0)
            st = set(inn[i])
            blk = b.blocks[i]
            for s in blk["s"]:
                if s[0] == "dead":
                    st.discard(s[1])
                elif s[0] == "=":
                    rv = s[2]
                    for o in (rv[2] if rv[0] == "agg" else rv[1:]):
                        if isinstance(o, dict):
                            moved(o, st)
                    if s[1][0] in want and "*" not in s[1]:
                        if not (rv[0] == "use" and "const" in rv[1]):
                            st.add(s[1][0])
            t = blk["t"] or {}
            out = set(st)
            if t.get("k") == "call":
                for o in t["args"]:
                    moved(o, st)
                at[i] = set(st)
                out = set(st)
                if t["dest"][0] in want and "*" not in t["dest"]:
                    out.add(t["dest"][0])
            elif t.get("k") == "drop":
                at[i] = set(st)
                if len(t["p"]) == 1:
                    out.discard(t["p"][0])
            else:
                at[i] = set(st)
            for j in b.succ[i]:
                if not out <= inn[j]:
                    inn[j] |= out
                    if j not in work:
                        work.append(j)
        setattr(b, key, at)
        return at

    # ------------------------------------------------------------- tasks
    def reach(self, roots, spawned=True):
        """bodies reachable from these, through calls and closures run by them"""
        seen, st = set(), [r for r in roots if r in self.bodies]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for c in self.bodies[x].calls:
                if c.spawns() and not spawned:
                    continue
                st.extend(self.runs(c))
        return seen

    def tasks_of(self, roots):
        """closures started as pool tasks by these bodies, and by those tasks"""
        out = {}
        for f in self.reach(roots):
            for c in self.bodies[f].calls:
                if c.pool_spawn():
                    for k in c.closures():
                        out[k] = c
                elif c.pool_block() and c.name not in ("scope", "in_place_scope", "scope_fifo", "in_place_scope_fifo", "install"):
                    for k in c.closures():
                        out.setdefault(k, c)
        return out


def pathstr(b, p):
    r, pr = p
    if r[0] == "p":
        nm = next((n for n, pl in b.m["names"] if pl == [r[1]]), None)
        base = nm or ("closure" if b.P.fns.get(b.id, {}).get("kind") == "Closure" and r[1] == 1 else "argument %d" % r[1])
    elif r[0] == "s":
        base = "the static " + r[1].rsplit("::", 1)[-1]
    else:
        base = {"?": "some value", "new": "a new value", "agg": "a local value"}[r[0]]
    for x in pr:
        base += {"[]": "[..]", "!": ".content"}.get(x, ".%s" % x)
    return base
