"""P08, P15, P16: rules over the type-checked program (MIR, items, type system).

Every rule enumerates the constructs it applies to; each of them is one
obligation, PROVED when the rule holds there and VIOLATED with the construct
otherwise.  What the rules cannot see raises no alarm."""
import sys
from obl import Verdict
import mirflow
from mirflow import Flow, pathstr, GUARDS

INT = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char"}


def flow(env):
    if getattr(env, "_flow", None) is None:
        env._flow = Flow(env.p)
    return env._flow


class Rules:
    def __init__(self, env):
        self.env, self.P, self.F = env, env.p, flow(env)
        self.seen = set()
        for k in self.F.bodies:
            env.visited[k] = env.visited.get(k, 0) + 1
        env.callsites += sum(len(b.calls) for b in self.F.bodies.values())
        env.loops += sum(1 for b in self.F.bodies.values() if b.cycles())

    def fn(self, fid):
        return fid.split("::", 1)[-1]

    def put(self, rule, fid, sp, bad, what):
        name = "%s: %s" % (rule, self.fn(fid) if fid else what.split(" ")[0])
        key = (name, sp, what if bad else "")
        if key in self.seen:
            return
        self.seen.add(key)
        self.env.verdicts.append(Verdict(name, "VIOLATED" if bad else "PROVED", "%s (%s)" % (self.fn(fid) if fid else "crate", sp), what))

    # ------------------------------------------------------------ helpers
    def origin(self, b, o, n=12):
        """the local an operand refers to, through references and reborrows"""
        pl = o.get("move") or o.get("copy") if isinstance(o, dict) and "const" not in o else (o if isinstance(o, list) else None)
        seen = set()
        while pl and n:
            n -= 1
            l = pl[0]
            if l in seen:
                return l
            seen.add(l)
            src = self.defs(b).get(l)
            if not src or len(src) != 1:
                return l
            s = src[0]
            if s[0] == "=":
                rv = s[2]
                if rv[0] in ("ref", "refmut", "rawptr"):
                    pl = rv[1]
                    continue
                if rv[0] in ("use", "cast") and "const" not in rv[1]:
                    pl = rv[1].get("move") or rv[1].get("copy")
                    continue
                return l
            c = s[1]
            if c.name in ("deref", "deref_mut", "as_mut", "as_ref", "as_mut_slice", "as_slice", "borrow", "borrow_mut", "by_ref") and c.args and "const" not in c.args[0]:
                pl = c.args[0].get("move") or c.args[0].get("copy")
                continue
            return l
        return pl[0] if pl else None

    def defs(self, b):
        if not hasattr(b, "_defs"):
            d = {}
            for i in b.live:
                for s in b.blocks[i]["s"]:
                    if s[0] == "=" and len(s[1]) == 1:
                        d.setdefault(s[1][0], []).append(s)
            for c in b.calls:
                if len(c.dest) == 1:
                    d.setdefault(c.dest[0], []).append(("call", c))
            b._defs = d
        return b._defs

    def nonint(self, ty):
        """elements or tensors: types whose addition may round"""
        for _, t in self.F.walk(ty):
            if t[0] == "prim" and t[1] in ("f32", "f64"):
                return True
            if t[0] == "param":
                return True
            if t[0] == "adt" and self.P.defs[t[1]]["name"] in ("RawTensor", "RcTensor", "TensorView"):
                return True
        return False

    def task_bodies(self):
        """closures that pool tasks or threads run, and everything they reach"""
        if not hasattr(self, "_tb"):
            roots = []
            for b in self.F.bodies.values():
                for c in b.calls:
                    if c.spawns() or (c.pool_block() and c.name not in ("scope", "in_place_scope", "install")) or (c.krate().startswith("rayon") and c.closures() and c.name not in ("scope", "in_place_scope", "scope_fifo", "in_place_scope_fifo", "install")):
                        roots += c.closures()
            self._roots = list(dict.fromkeys(roots))
            self._tb = self.F.reach(roots)
        return self._tb


# =========================================================================
def p15(env):
    R = Rules(env)
    locks(R)
    regions(R)
    channels(R)
    waits(R)
    exits(R)


def related(a, b):
    """how two lock paths of one function may meet"""
    if a == b:
        return "elem" if "[]" in a[1] else "same"
    if a[0][0] != "p" or b[0][0] != "p":
        return None
    n = min(len(a[1]), len(b[1]))
    short, long_ = (a, b) if len(a[1]) <= len(b[1]) else (b, a)
    if a[0] == b[0] and "!" in long_[1][len(short[1]):][:1]:
        return None                 # the tensor stored behind the held lock
    if "!" in a[1] or "!" in b[1]:
        return None
    return "other"


def lock_type(R, b, p):
    return None


def lock_class(p):
    """locks that several threads can name: each static, and those of the tensors"""
    return p[0][1] if p[0][0] == "s" else "tensors" if p[0][0] == "p" and "!" not in p[1] else None


def order_cycles(R, order):
    """two threads that take the same two locks in opposite order"""
    ed = {k: v for k, v in order.items() if None not in k and k[0] != k[1]}
    n = 0
    for (x, y), (b, sp, h, q, sp2) in sorted(ed.items(), key=str):
        seen, todo = {y}, [y]
        while todo:
            u = todo.pop()
            for (v, w) in ed:
                if v == u and w not in seen:
                    seen.add(w)
                    todo.append(w)
        if x in seen:
            R.put("P15 one order of taking locks", b.id, sp, True, "the guard of %s is alive while %s is taken (%s), elsewhere they are taken in the opposite order" % (pathstr(b, h), pathstr(b, q), sp2))
            n += 1
    if not n:
        R.put("P15 one order of taking locks", None, "-", False, "%d pairs of locks are held together, always in one order" % len(ed))


def locks(R):
    F = R.F
    order = {}
    for b in F.bodies.values():
        held = F.held(b)
        for c in b.calls:
            acq = {}
            if c.acquires():
                for p in b.operand(c.args[0]):
                    acq[(p, c.name)] = c.sp
            ts = [] if c.spawns() else F.runs(c)
            for t in ts:
                sub = c.env(t)
                for (p, mode), sp in F.bodies[t].summary["acq"].items():
                    for q in sub(p):
                        acq.setdefault((q, mode), sp)
            # locks the callee holds while it runs the closures passed here
            under = set()
            for t in c.targets():
                sub = c.env(t)
                for p in F.bodies[t].summary["under"]:
                    under |= sub(p)
            if under:
                for k in c.closures():
                    sub = c.env(k)
                    for (p, mode), sp in F.bodies[k].summary["acq"].items():
                        for q in sub(p):
                            for h in under:
                                r = related(h, q)
                                if r:
                                    R.put("P15 lock taken while held", b.id, c.sp, True, "the closure passed here takes the lock %s (%s) while the callee still holds %s" % (pathstr(b, q), sp, pathstr(b, h)))
            live = held.get(c.blk, ())
            if not live:
                if c.acquires():
                    R.put("P15 lock taken while held", b.id, c.sp, False, "no guard is alive when %s is taken" % ", ".join(pathstr(b, p) for p, _ in list(acq)[:2]))
                continue
            n = 0
            for l in live:
                for h in b.glocks.get(l, set()):
                    for (q, mode), sp in acq.items():
                        r = related(h, q)
                        if r is None:
                            order.setdefault((lock_class(h), lock_class(q)), (b, c.sp, h, q, sp))
                            continue
                        nm = {"same": "the same lock", "elem": "a lock of the same collection, possibly the same one",
                              "other": "another tensor's lock, which is the same one when both are handles of one tensor"}[r]
                        R.put("P15 lock taken while held", b.id, c.sp, True,
                              "the guard of %s is alive while %s %s is taken (%s at %s)" % (pathstr(b, h), nm, pathstr(b, q), mode, sp))
                        n += 1
                    blk = "%s at %s" % (c.name, c.sp) if c.pool_block() else next((F.bodies[t].summary["block"] for t in ts if F.bodies[t].summary["block"]), None)
                    if blk and h[0][0] in ("p", "s"):
                        R.put("P15 waiting for tasks while holding a lock", b.id, c.sp, True, "the guard of %s is alive during %s: the waiting thread may run a task that takes this lock" % (pathstr(b, h), blk))
                        n += 1
                    rc = c.receives() or any(F.bodies[t].summary["recv"] for t in ts)
                    if rc and h[0][0] in ("p", "s"):
                        R.put("P15 waiting for a message while holding a lock", b.id, c.sp, True, "the guard of %s is alive while a message is awaited" % pathstr(b, h))
                        n += 1
            if not n:
                R.put("P15 calls made while holding a lock", b.id, c.sp, False, "%s takes no lock that may be held here and waits for nothing" % c.name)
    order_cycles(R, order)


def regions(R):
    F = R.F
    for b in F.bodies.values():
        for c in b.calls:
            if not c.pool_block():
                continue
            scope = c.name in ("scope", "in_place_scope", "scope_fifo", "in_place_scope_fifo", "install", "broadcast")
            cl = c.closures()
            if c.name in ("join", "join_context") and len(cl) >= 2:
                ra = F.bodies[cl[0]].summary["recv"]
                sb = F.bodies[cl[1]].summary["send"]
                bad = [m for m in ra if m in sb]
                R.put("P15 tasks that wait for tasks", b.id, c.sp, bool(bad), "join: the first closure receives (%s) what the second sends" % (ra[bad[0]],) if bad else "join: the first closure awaits nothing from the second")
                continue
            tasks = F.tasks_of(cl) if scope else {k: c for k in cl}
            recv, send = {}, {}
            wait = None
            for k in tasks:
                for f in F.reach([k], spawned=False):
                    s = F.bodies[f].summary
                    for m, sp in s["recv"].items():
                        recv.setdefault(m, (k, sp))
                    for m, sp in s["send"].items():
                        send.setdefault(m, (k, sp))
                    wait = wait or s["wait"]
            body_recv = {}
            if scope:
                for k in cl:
                    for m, sp in F.bodies[k].summary["recv"].items():
                        body_recv.setdefault(m, (k, sp))
            bad = None
            for m in recv:
                if m in send:
                    bad = "task %s blocks until task %s has sent (%s, %s): with too few workers the sender never runs" % (R.fn(recv[m][0]), R.fn(send[m][0]), recv[m][1], send[m][1])
            for m in body_recv:
                if m in send:
                    bad = "the scope's own body blocks (%s) until its task %s has sent: on a pool of one worker that task never runs" % (body_recv[m][1], R.fn(send[m][0]))
            if wait:
                bad = "a pool task waits for other threads: " + wait
            R.put("P15 tasks that wait for tasks", b.id, c.sp, bad is not None, bad or "%d kinds of task: none waits for what another one of this region produces" % len(tasks))
    # global spawns
    for b in F.bodies.values():
        gs = [c for c in b.calls if c.pool_spawn() and "scope" not in c.did.lower()]
        if not gs:
            continue
        send = {}
        for c in gs:
            for k in c.closures():
                for m, sp in F.bodies[k].summary["send"].items():
                    send[m] = (k, sp)
        rc = b.summary["recv"]
        bad = [m for m in rc if m in send]
        R.put("P15 tasks that wait for tasks", b.id, gs[0].sp, bool(bad), "waits (%s) for what a task spawned on the same pool sends" % rc[bad[0]] if bad else "spawned tasks are not awaited here")


def is_sender(R):
    F, P = R.F, R.P

    def has_sender(ty):
        key = ("snd", ty)
        r = F._int.get(key)
        if r is None:
            r = F._int[key] = owns_sender(ty, set())
        return r

    def cleared(did, i):
        """does the crate ever reset this Option field?"""
        for b in F.bodies.values():
            for k in b.live:
                for s in b.blocks[k]["s"]:
                    if s[0] == "=" and len(s[1]) > 1 and s[1][-1] == i:
                        return True
            for c in b.calls:
                if c.name in ("take", "replace", "drop") and c.args:
                    return True
        return False

    def owns_sender(ty, seen):
        if ty is None or isinstance(ty, list) or ty in seen:
            return False
        seen.add(ty)
        t = P.types[ty]
        k = t[0]
        if k == "adt":
            d = P.defs[t[1]]
            if d["name"] in ("Sender", "SyncSender"):
                return True
            a = P.adts.get(d["id"]) if d["local"] else None
            if a:
                for v in a["variants"]:
                    for i, f in enumerate(v["fields"]):
                        if owns_sender(f["ty"], seen):
                            ft = P.types[f["ty"]]
                            if ft[0] == "adt" and P.defs[ft[1]]["name"] == "Option" and cleared(d["id"], i):
                                continue
                            return True
                return False
            return any(owns_sender(x, seen) for x in t[2] if not isinstance(x, list))
        if k == "tuple":
            return any(owns_sender(x, seen) for x in t[1])
        if k in ("array", "slice"):
            return owns_sender(t[1], seen)
        if k == "closure":
            did = P.defs[t[1]]["id"]
            cb = F.bodies.get(F.creator.get(did))
            if cb:
                for i in cb.live:
                    for s in cb.blocks[i]["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and P.defs[s[2][1][1]]["id"] == did:
                            return any(owns_sender(place_ty(P, cb, o), seen) for o in s[2][2])
            return False
        if k == "alias":
            return any(owns_sender(x, seen) for x in F.opaque(t))
        return False
    return has_sender


def place_ty(P, b, o):
    """type of an operand, through tuple/closure-free field projections when easily known"""
    if "const" in o:
        return None
    pl = o.get("move") or o.get("copy")
    ty = b.locals[pl[0]]
    for x in pl[1:]:
        t = P.types[ty]
        if x == "*":
            if t[0] == "ref":
                ty = t[2]
                continue
            return None
        if isinstance(x, int):
            if t[0] == "tuple" and x < len(t[1]):
                ty = t[1][x]
                continue
            if t[0] == "adt":
                a = P.adts.get(P.defs[t[1]]["id"])
                if a and P.defs[t[1]]["local"] and len(a["variants"]) == 1 and x < len(a["variants"][0]["fields"]):
                    ty = a["variants"][0]["fields"][x]["ty"]
                    continue
            return None
        return None
    return ty


def channels(R):
    """R5 a drain that cannot end because a sender is still alive; R6 bounded channels"""
    F, P = R.F, R.P
    has_sender = is_sender(R)
    drains = {}
    for b in F.bodies.values():
        for c in b.calls:
            if c.receives() and (c.name in ("iter", "into_iter", "next") or c.blk in b.cycles()):
                drains.setdefault(b.id, {})[c.msg()] = c.sp
    tasks = R.task_bodies()
    # a task that drains a channel of which it owns a sender
    for k in R._roots:
        dr = {}
        for f in F.reach([k], spawned=False):
            dr.update(drains.get(f, {}))
        if not dr:
            continue
        cr = F.bodies.get(F.creator.get(k))
        own = False
        if cr:
            for l, cd in cr.aggof.items():
                if cd == k:
                    own = own or has_sender(cr.locals[l])
        msgs = set()
        R.put("P15 drained channels have no sender left", k, list(dr.values())[0], own, "the task drains a channel while it owns a sender" if own else "the draining task owns no sender")
    # a region waited for while the waiting function keeps a sender
    for b in F.bodies.values():
        live = None
        for c in b.calls:
            if c.spawns():
                continue
            roots = F.runs(c)
            if not roots:
                continue
            dr = {}
            pool = c.pool_block() or any(F.bodies[t].summary["block"] for t in c.targets())
            for f in F.reach(roots, spawned=pool):
                dr.update(drains.get(f, {}))
            if not dr:
                continue
            live = F.held(b, has_sender) if live is None else live
            moved = set()
            rroots = set()
            for o in c.args:
                rroots |= {p[0] for p in b.operand(o) if p[0][0] == "new"}
            for k in c.closures():
                for l, cd in b.aggof.items():
                    if cd == k:
                        rroots |= {p[0] for f in b.fld.get(l, {}).values() for p in f if p[0][0] == "new"}
            keep = [l for l in live.get(c.blk, ()) if any(p[0] in rroots for p in b.place([l]) | b.resolve({(("agg", l), ())}, ("[]",)))]
            bad = bool(keep)
            nm = [n for n, pl in b.m["names"] if pl[:1] == [keep[0]]] if keep else []
            R.put("P15 drained channels have no sender left", b.id, c.sp, bad,
                  "%s drains a channel (%s) of which this function keeps a sender%s" % (c.name, list(dr.values())[0], " in `%s`" % nm[0] if nm else "") if bad else "no sender is kept across the drain")
    # bounded channels
    for b in F.bodies.values():
        for c in b.calls:
            if c.did and c.name in ("bounded", "sync_channel") and ("crossbeam" in c.did or "mpsc" in c.did):
                const = const_operand(R, b, c.args[0])
                mt = None
                for _, t in F.walk(b.locals[c.dest[0]]):
                    if t[0] == "adt" and P.defs[t[1]]["name"] in ("Sender", "SyncSender"):
                        a = [x for x in t[2] if x is not None]
                        mt = F.canon(a[0]) if a else None
                snd = [(k, F.bodies[k].summary["send"][mt]) for k in R._roots if mt in F.bodies[k].summary["send"]]
                many = [k for k, sp in snd if loops_send(R, k)]
                pooled = [k for k in many if k in pool_roots(R)]
                bad = const and bool(pooled)
                R.put("P15 bounded channels", b.id, c.sp, bad, "pool tasks send without limit into a channel of fixed capacity: they block once it is full" if bad else "capacity not exceeded by construction, or drained by threads")


def pool_roots(R):
    out = set()
    for b in R.F.bodies.values():
        for c in b.calls:
            if c.pool_spawn() or (c.krate().startswith("rayon") and c.closures()):
                out |= set(c.closures())
    return out


def loops_send(R, k):
    """does this task, or the code that spawns it, send in a loop?"""
    F = R.F
    for f in F.reach([k], spawned=False):
        b = F.bodies[f]
        for c in b.calls:
            if (c.sends() or any(F.bodies[t].summary["send"] for t in c.targets())) and c.blk in b.cycles():
                return True
    for b in F.bodies.values():
        for c in b.calls:
            if c.spawns() and k in c.closures() and (c.blk in b.cycles() or R.P.fns.get(b.id, {}).get("kind") == "Closure"):
                return True
    return False


def const_operand(R, b, o, n=24):
    """does the operand depend on constants only?"""
    if "const" in o:
        return True
    pl = o.get("move") or o.get("copy")
    if n == 0:
        return False
    l = pl[0]
    if R.P.fns.get(b.id, {}).get("kind") == "Closure" and l == 1:
        cr = R.F.bodies.get(R.F.creator.get(b.id))
        idx = next((x for x in pl[1:] if isinstance(x, int)), None)
        if cr and idx is not None:
            for i in cr.live:
                for s in cr.blocks[i]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and R.P.defs[s[2][1][1]]["id"] == b.id and idx < len(s[2][2]):
                        return const_operand(R, cr, s[2][2][idx], n - 1)
        return False
    ds = R.defs(b).get(l, [])
    if not ds or l <= b.nargs:
        return False
    for s in ds:
        if s[0] != "=":
            return False
        rv = s[2]
        if rv[0] in ("use", "cast"):
            ok = const_operand(R, b, rv[1], n - 1)
        elif rv[0] == "bin":
            ok = const_operand(R, b, rv[2], n - 1) and const_operand(R, b, rv[3], n - 1)
        elif rv[0] in ("ref", "refmut"):
            ok = const_operand(R, b, {"copy": rv[1]}, n - 1)
        else:
            ok = False
        if not ok:
            return False
    return True


def waits(R):
    """spinning on state another task must change"""
    F = R.F
    tb = R.task_bodies()
    n = 0
    for b in F.bodies.values():
        if b.id not in tb:
            continue
        cyc = b.cycles()
        for c in b.calls:
            if c.did and c.blk in cyc and c.name in ("yield_now", "spin_loop", "sleep", "park", "park_timeout") and c.krate() in ("std", "core", "rayon", "rayon_core", "crossbeam_utils"):
                R.put("P15 tasks do not spin", b.id, c.sp, True, "a task repeats %s until another one has changed something" % c.name)
                n += 1
            if c.did and c.blk in cyc and c.name == "load" and "atomic" in c.did and small_loop(b, c.blk):
                R.put("P15 tasks do not spin", b.id, c.sp, True, "a task repeats an atomic load until another one has changed the value")
                n += 1
    if not n:
        R.put("P15 tasks do not spin", None, "-", False, "%d functions reachable from tasks: none waits in a loop for another task" % len(tb))


def small_loop(b, blk):
    """the cycle through this block does nothing but loads and comparisons"""
    b.cycles()
    for comp in b.comps:
        if blk in comp:
            return all(c.name in ("load", "deref", "yield_now", "spin_loop", "eq", "ne", "lt") for c in b.calls if c.blk in comp)
    return False


def exits(R):
    """every function can return or fail"""
    F = R.F
    bad = []
    for b in F.bodies.values():
        seen, st = set(), [0]
        out = False
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            t = b.blocks[i]["t"]
            if t["k"] in ("return",) or not b.succ[i]:
                out = True
                break
            st.extend(b.succ[i])
        if not out:
            bad.append(b)
    for b in bad:
        R.put("P15 functions can end", b.id, "-", True, "no path from the entry of this function leads to its end")
    if not bad:
        R.put("P15 functions can end", None, "-", False, "%d functions have a path to their end" % len(F.bodies))


# =========================================================================
SOURCES = [
    (("rand", "getrandom", "fastrand", "oorandom"), None, "random numbers"),
    (("std", "core"), ("SystemTime", "Instant"), "the clock"),
]


def source(c):
    """what outside the operands does this call read?"""
    d, n, k = c.did or "", c.name or "", c.krate()
    if k in ("rand", "getrandom", "fastrand", "rand_core", "rand_chacha", "rand_pcg", "rand_xoshiro", "rand_distr", "uuid"):
        return "random numbers"
    if "::time::" in d and n in ("now", "elapsed", "duration_since") and k == "std":
        return "the clock"
    if d.startswith("std::env::") and n in ("var", "var_os", "vars", "args", "args_os", "current_dir", "temp_dir", "current_exe", "home_dir"):
        return "the environment"
    if d.startswith("std::process::") and n == "id":
        return "the process id"
    if d.startswith("std::fs::") and n in ("read", "read_to_string", "metadata", "open", "exists"):
        return "the file system"
    if d.startswith("std::io::") and n in ("stdin", "read_line"):
        return "the standard input"
    if n in ("available_parallelism",) or (k.startswith("rayon") and n in ("current_num_threads", "current_thread_index", "max_num_threads", "current_thread_has_pending_tasks")):
        return "the thread pool"
    if d.startswith("std::thread::") and n in ("current", "id") and ("thread" in d):
        return "the running thread"
    if "hash::random" in d or (n in ("new", "build_hasher") and "RandomState" in c.full):
        return "a random hash seed"
    if n in ("iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "drain", "into_keys", "into_values") and c.args:
        ty = c.b.opty(c.args[0])
        names = c.b.F.adt_names(ty)
        if names & {"HashMap", "HashSet"} and (names & {"RandomState"} or True):
            if outer_hash(c, ty):
                return "the order of a hash table"
    return None


def outer_hash(c, ty):
    """the collection itself is a randomly seeded hash table"""
    P = c.b.P
    t = P.types[ty]
    while t[0] == "ref":
        t = P.types[t[2]]
    if t[0] != "adt" or P.defs[t[1]]["name"] not in ("HashMap", "HashSet"):
        return False
    last = [a for a in t[2] if a is not None and not isinstance(a, list)]
    return any(P.types[a][0] == "adt" and P.defs[P.types[a][1]]["name"] == "RandomState" for a in last)


SOFT = ("the thread pool", "the running thread")
HISTORY = "what was computed before (a global counter)"


def counter(R, b, c):
    """reads a number from a global: what it holds depends on everything that ran before, in any thread"""
    d, n = c.did or "", c.name or ""
    if not c.args:
        return None
    ty = R.P.types[b.locals[c.dest[0]]]
    if "const" not in c.args[0] and "sync::atomic" in d and (n.startswith("fetch_") or n in ("load", "swap")) and "bool" not in c.full and ty[0] == "prim" and ty[1] != "bool":
        seeds = set()
        for i in b.live:
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and s[2][0] == "use" and isinstance(s[2][1], dict) and "static" in (s[2][1].get("const") or {}) and len(s[1]) == 1:
                    seeds.add(s[1][0])
        if (c.args[0].get("move") or c.args[0].get("copy"))[0] in taint(R, b, seeds, lambda x: True):
            return HISTORY
    if "thread::local" in d and n in ("with", "get", "replace", "take") and ty[0] == "prim" and ty[1] != "bool":
        return HISTORY
    return None
SILENT = ("_print", "_eprint", "format", "new_display", "new_debug", "new_v1", "new_const", "new", "fmt", "write_fmt", "log")


def p16(env):
    R = Rules(env)
    env_sources(R)
    par_reductions(R)
    task_accumulation(R)
    arrival(R)
    addresses(R)
    opportunistic(R)
    keys(env)


def taint(R, b, seeds, stop=lambda c: False):
    """locals whose value derives from the seeds (flow-insensitive)"""
    t = set(seeds)
    ch = True
    while ch:
        ch = False

        def has(o):
            if not isinstance(o, dict) or "const" in o:
                return False
            return (o.get("move") or o.get("copy"))[0] in t
        for i in b.live:
            for s in b.blocks[i]["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                ops = rv[2] if rv[0] == "agg" else [o for o in rv[1:] if isinstance(o, dict)]
                hit = any(has(o) for o in ops) or (rv[0] in ("ref", "refmut", "rawptr", "discr") and rv[1][0] in t)
                if hit and s[1][0] not in t and "*" not in s[1]:
                    t.add(s[1][0])
                    ch = True
        for c in b.calls:
            if stop(c) or c.name in SILENT and ("fmt" in (c.did or "") or "io::stdio" in (c.did or "")):
                continue
            if any(has(o) for o in c.args) and c.dest[0] not in t:
                t.add(c.dest[0])
                ch = True
    return t


def env_sources(R):
    F = R.F
    n = 0
    for b in F.bodies.values():
        for c in b.calls:
            what = source(c) or counter(R, b, c)
            if not what:
                continue
            n += 1
            seeds = {c.dest[0]}
            if what == HISTORY:
                # a number that tells things apart is no part of a result; a decision by it is
                t = taint(R, b, seeds)
                sink = None
                for i in b.live:
                    tt = b.blocks[i]["t"]
                    if tt["k"] == "switch" and "const" not in tt["d"] and (tt["d"].get("move") or tt["d"].get("copy"))[0] in t:
                        sink = sink or tt["sp"]
                R.put("P16 independent of the environment", b.id, c.sp, sink is not None, "%s decides what happens at %s" % (what, sink) if sink else "%s decides nothing" % what)
                continue
            intonly = ("len", "count", "is_empty", "any", "all", "contains", "contains_key", "max", "min")

            def stop(x):
                if what == "the order of a hash table":
                    ty = R.P.types[b.locals[x.dest[0]]]
                    if x.name in intonly or (x.name in ("sum", "product") and ty[0] == "prim" and ty[1] in INT):
                        return True
                    if x.name in ("collect", "from_iter") and F.adt_names(b.locals[x.dest[0]]) & {"HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap"}:
                        return True
                return False
            t = taint(R, b, seeds, stop)
            if what == "the order of a hash table" and any(x.name and x.name.startswith("sort") and R.origin(b, x.args[0]) in t for x in b.calls if x.args):
                R.put("P16 independent of the environment", b.id, c.sp, False, "sorted before it is used")
                continue
            sink = None
            for i in b.live:
                for s in b.blocks[i]["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    ops = rv[2] if rv[0] == "agg" else [o for o in rv[1:] if isinstance(o, dict)]
                    hit = any((o.get("move") or o.get("copy") or [None])[0] in t for o in ops if "const" not in o)
                    if hit and (s[1][0] == 0 or "*" in s[1]):
                        sink = sink or s[3]
                tt = b.blocks[i]["t"]
                if tt["k"] == "switch" and what not in SOFT:
                    d = tt["d"]
                    if "const" not in d and (d.get("move") or d.get("copy"))[0] in t:
                        # the exhaustion test of an iterator is not a use of its order
                        if what != "the order of a hash table":
                            sink = sink or tt["sp"]
            for x in b.calls:
                hit = [o for o in x.args if "const" not in o and (o.get("move") or o.get("copy"))[0] in t]
                if hit and x is not c:
                    if x.dest[0] == 0 and R.P.types[b.locals[0]] != ["tuple", []]:
                        sink = sink or x.sp
                    if any(u in F.bodies for u in x.targets()):
                        sink = sink or x.sp
                    if x.closures() and what not in SOFT:
                        sink = sink or x.sp
                    if x.name in ("push", "insert", "extend", "add_assign", "sub_assign", "mul_assign", "send", "swap", "copy_from_slice", "par_chunks", "par_chunks_mut", "chunks", "chunks_mut", "with_min_len", "take", "skip", "step_by") and not (x.name in ("with_min_len",)):
                        sink = sink or x.sp
            if c.dest[0] == 0:
                sink = sink or c.sp
            R.put("P16 independent of the environment", b.id, c.sp, sink is not None, "%s (%s) decides what happens at %s" % (what, c.name, sink) if sink else "%s does not reach any result" % what)
    if n == 0:
        R.put("P16 independent of the environment", None, "-", False, "no call among %d reads randomness, the clock, the environment, thread identity, the pool's size or the order of a hash table" % sum(len(b.calls) for b in F.bodies.values()))


REDUCE = {"sum", "product", "reduce", "reduce_with", "fold", "fold_with", "try_fold", "try_reduce", "fold_chunks", "fold_chunks_with", "try_reduce_with"}
ANY = {"find_any", "position_any", "find_map_any", "par_bridge", "collect_into_unordered", "flat_map_any", "take_any", "skip_any", "take_any_while", "skip_any_while"}


def par_reductions(R):
    F, n = R.F, 0
    for b in F.bodies.values():
        for c in b.calls:
            if not c.krate().startswith("rayon"):
                continue
            if c.name in REDUCE:
                n += 1
                ty = b.locals[c.dest[0]]
                bad = R.nonint(ty)
                if c.name.startswith(("fold", "try_fold")):
                    bad = R.nonint(ty)
                R.put("P16 parallel reductions", b.id, c.sp, bad, "%s combines elements in groups that depend on how the work is split: rounding differs from run to run" % c.name if bad else "reduction of exact values")
            elif c.name in ANY:
                n += 1
                R.put("P16 parallel reductions", b.id, c.sp, True, "%s yields whichever item comes first" % c.name)
    if not n:
        R.put("P16 parallel reductions", None, "-", False, "no reduction is left to the thread pool")


ACC = {"add_assign", "sub_assign", "mul_assign", "div_assign"}
ARI = {"add", "sub", "mul", "div"}


def later_sort(R, b):
    """does this function, or one that runs or contains it, sort?"""
    F = R.F
    ids = {b.id}
    cur = b.id
    while cur in F.creator:
        cur = F.creator[cur]
        ids.add(cur)
    for i in ids:
        for f in F.reach([i]):
            for c in F.bodies[f].calls:
                if c.name and c.name.startswith(("sort", "par_sort")):
                    return True
                if c.name in ("collect", "from_iter", "insert") and F.adt_names(F.bodies[f].locals[c.dest[0]]) & {"BTreeMap", "BTreeSet"}:
                    return True
    return False


def task_accumulation(R):
    """read-modify-write through a lock, by tasks that run in any order"""
    F, P = R.F, R.P
    tb = R.task_bodies()
    n = 0
    for fid in tb:
        b = F.bodies[fid]
        for c in b.calls:
            if c.did and "atomic" in c.did and c.name.startswith(("compare_exchange", "fetch_update", "fetch_", "swap")):
                used = is_used(b, c.dest[0])
                n += 1
                R.put("P16 tasks do not accumulate in arrival order", fid, c.sp, used, "a task uses the result of an atomic %s: it depends on which task came first" % c.name if used else "atomic counter whose old value is not used")
        if not any(F.has_guard(t) for t in b.locals):
            continue
        seeds = {l for l, t in enumerate(b.locals) if F.has_guard(t)}
        t = taint(R, b, seeds)
        for c in b.calls:
            hit = bool(c.args) and "const" not in c.args[0] and (c.args[0].get("move") or c.args[0].get("copy"))[0] in t
            if not hit or c.did is None:
                continue
            a0 = b.opty(c.args[0])
            if c.name in ACC and R.nonint(a0):
                n += 1
                R.put("P16 tasks do not accumulate in arrival order", fid, c.sp, True, "a task adds into a value shared through a lock: the order of the additions is the order in which tasks run")
            elif c.name in ARI and R.nonint(b.locals[c.dest[0]]) and stored(R, b, c.dest[0]):
                n += 1
                R.put("P16 tasks do not accumulate in arrival order", fid, c.sp, True, "a task combines a value shared through a lock and stores it back: the order is the order in which tasks run")
            elif c.name in ("push", "extend", "push_back", "push_front", "append", "extend_from_slice") and "Vec" in c.did or c.name in ("push_back", "push_front"):
                if not (P.types[a0][0] == "ref" and R.nonint(a0)):
                    continue
                n += 1
                bad = not later_sort(R, b)
                R.put("P16 tasks do not accumulate in arrival order", fid, c.sp, bad, "tasks append to a shared collection in the order in which they run, and it is never sorted" if bad else "the collection is sorted before use")
    if not n:
        R.put("P16 tasks do not accumulate in arrival order", None, "-", False, "%d functions run by tasks: none changes a value shared through a lock or an atomic" % len(tb))


def stored(R, b, l):
    """is the value written back through a reference, or deposited?"""
    t = taint(R, b, {l})
    for i in b.live:
        for s in b.blocks[i]["s"]:
            if s[0] == "=" and "*" in s[1]:
                rv = s[2]
                ops = rv[2] if rv[0] == "agg" else [o for o in rv[1:] if isinstance(o, dict)]
                if any("const" not in o and (o.get("move") or o.get("copy"))[0] in t for o in ops):
                    return True
    return any(c.name in ("replace", "insert", "swap", "push") and any("const" not in o and (o.get("move") or o.get("copy"))[0] in t for o in c.args[1:]) for c in b.calls)


def is_used(b, l):
    for i in b.live:
        for s in b.blocks[i]["s"]:
            if s[0] == "=":
                rv = s[2]
                ops = rv[2] if rv[0] == "agg" else [o for o in rv[1:] if isinstance(o, dict)]
                if any("const" not in o and (o.get("move") or o.get("copy"))[0] == l for o in ops):
                    return True
                if rv[0] in ("ref", "refmut", "discr") and rv[1][0] == l:
                    return True
        t = b.blocks[i]["t"]
        if t["k"] == "call" and any("const" not in o and (o.get("move") or o.get("copy"))[0] == l for o in t["args"]):
            return True
        if t["k"] == "switch" and "const" not in t["d"] and (t["d"].get("move") or t["d"].get("copy"))[0] == l:
            return True
    return False


def arrival(R):
    """messages of concurrent senders are put in order before they are combined"""
    F = R.F
    tb = R.task_bodies()
    senders = {m for f in tb for m in F.bodies[f].summary["send"]}
    n = 0
    for b in F.bodies.values():
        for c in b.calls:
            if not ((c.receives() or (c.name in ("try_recv", "try_iter", "recv_timeout") and ("mpsc" in (c.did or "") or c.krate().startswith("crossbeam")))) and c.msg() in senders):
                continue
            n += 1
            bad = ordered_use(R, b, c)
            R.put("P16 messages are ordered before they are combined", b.id, c.sp, bad is not None, bad or "what arrives is sorted, or every message goes to its own place")
    if not n:
        R.put("P16 messages are ordered before they are combined", None, "-", False, "no values of concurrent tasks are collected through channels")


def ordered_use(R, b, src):
    """follow the received values through one function, in program order"""
    F = R.F
    inn = {i: frozenset() for i in b.live}
    inn_seen = {}
    bad = []
    work = [0]
    seen_at = {i: set() for i in b.live}
    guard = 0
    while work and guard < 4000:
        guard += 1
        i = work.pop(0)
        st = set(seen_at[i])
        blk = b.blocks[i]

        def has(o):
            return isinstance(o, dict) and "const" not in o and (o.get("move") or o.get("copy"))[0] in st
        for s in blk["s"]:
            if s[0] == "dead":
                st.discard(s[1])
            if s[0] != "=":
                continue
            rv = s[2]
            ops = rv[2] if rv[0] == "agg" else [o for o in rv[1:] if isinstance(o, dict)]
            hit = any(has(o) for o in ops) or (rv[0] in ("ref", "refmut", "discr") and rv[1][0] in st)
            if hit:
                st.add(s[1][0])
                if rv[0] == "bin" and rv[1].startswith(("Add", "Sub", "Mul")) and R.nonint(b.locals[s[1][0]]):
                    bad.append("values are combined in the order in which they arrive (%s)" % s[3])
        t = blk["t"]
        c = next((x for x in b.calls if x.blk == i), None) if t["k"] == "call" else None
        if c is not None:
            hits = [j for j, o in enumerate(c.args) if has(o)]
            if c is src:
                st.add(c.dest[0])
            elif hits:
                if c.name and c.name.startswith(("sort", "par_sort")):
                    o = R.origin(b, c.args[0])
                    # the collection and every reference to it are now in a fixed order
                    for l in list(st):
                        if l == o or R.origin(b, [l]) == o:
                            st.discard(l)
                elif c.name in ("collect", "from_iter", "extend", "insert") and F.adt_names(b.locals[c.dest[0]]) & {"BTreeMap", "BTreeSet", "BinaryHeap"}:
                    pass
                else:
                    st.add(c.dest[0])
                    # an accumulator passed by reference
                    if c.name in ("push", "extend", "insert", "push_back", "entry") and c.args:
                        o = R.origin(b, c.args[0])
                        if o is not None and not F.adt_names(b.locals[o]) & {"BTreeMap", "BTreeSet", "BinaryHeap"}:
                            st.add(o)
                        elif c.name == "entry":
                            bad.append("values with one key are combined in the order in which they arrive (%s)" % c.sp)
                    if c.name in ACC and R.nonint(b.opty(c.args[0])) and 1 in hits:
                        bad.append("values are added up in the order in which they arrive (%s)" % c.sp)
                    if c.name in ARI and len(hits) == 1 and R.nonint(b.locals[c.dest[0]]):
                        bad.append("values are combined in the order in which they arrive (%s)" % c.sp)
                    if c.name in ("sum", "product", "fold", "reduce", "try_fold") and R.nonint(b.locals[c.dest[0]]) and not unordered_pure(R, c):
                        bad.append("%s combines values in the order in which they arrive (%s)" % (c.name, c.sp))
                    if c.name in ("for_each", "try_for_each", "map", "inspect", "for_each_with"):
                        for k in c.closures():
                            kb = F.bodies[k]
                            for x in kb.calls:
                                if x.name in ACC and R.nonint(kb.opty(x.args[0])):
                                    bad.append("values are added up in the order in which they arrive (%s)" % x.sp)
                                if x.name in ("push", "extend") and not later_sort(R, b):
                                    bad.append("values are stored in the order in which they arrive (%s)" % x.sp)
                                if x.name in ARI and stored(R, kb, x.dest[0]):
                                    bad.append("values are combined in the order in which they arrive (%s)" % x.sp)
                    for u in c.targets():
                        if R.P.fns.get(u, {}).get("kind") != "Closure":
                            ub = F.bodies[u]
                            if any(x.name in ACC and R.nonint(ub.opty(x.args[0])) for x in ub.calls) and not any(x.name and x.name.startswith("sort") for x in ub.calls):
                                bad.append("values are passed on in the order in which they arrive to %s, which adds them up (%s)" % (u.rsplit("::", 1)[-1], c.sp))
        if bad:
            return bad[0]
        for j in b.succ[i]:
            if not st <= seen_at[j] or j not in inn_seen:
                inn_seen[j] = 1
                seen_at[j] |= st
                work.append(j)
    return None


def unordered_pure(R, c):
    return False


def addresses(R):
    """pointer values do not become data"""
    F, n = R.F, 0
    for b in F.bodies.values():
        for i in b.live:
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and s[2][0] == "cast" and ("PointerExpose" in s[2][2] or "Transmute" in s[2][2]):
                    ty = R.P.types[s[2][3]]
                    if ty[0] == "prim" and ty[1] in INT and ("PointerExpose" in s[2][2]):
                        n += 1
                        t = taint(R, b, {s[1][0]})
                        cmp_only = False
                        bad = 0 in t or any(c.name and (c.name.startswith("sort") or c.name in ("insert", "push", "cmp", "max", "min", "hash")) and any("const" not in o and (o.get("move") or o.get("copy"))[0] in t for o in c.args) for c in b.calls)
                        bad = bad and not bool_only(R, b)
                        R.put("P16 addresses are not data", b.id, s[3], bad, "a memory address, which differs from run to run, is used as a number")
    if not n:
        R.put("P16 addresses are not data", None, "-", False, "no pointer is converted to a number")


def bool_only(R, b):
    t = R.P.types[b.locals[0]]
    return t == ["prim", "bool"]


def opportunistic(R):
    """what is done does not depend on whether a lock happens to be free"""
    F, n = R.F, 0
    for b in F.bodies.values():
        if R.P.impl_by_id.get(b.id.rsplit("::", 1)[0], {}).get("trait") == "core::fmt::Debug":
            continue
        for c in b.calls:
            if c.name in ("try_read", "try_write", "try_lock") and "sync" in (c.did or ""):
                n += 1
                bad = c.blk not in b.cycles()
                R.put("P16 locks are waited for", b.id, c.sp, bad, "%s: what happens depends on whether another thread holds the lock at this moment" % c.name if bad else "retried until it succeeds")
    if not n:
        R.put("P16 locks are waited for", None, "-", False, "no operation tries a lock without waiting for it")


def keys(env):
    """the order in which messages are put is total: from the value-flow analysis"""
    import ob_keys
    ob_keys.sort_keys(env)


# =========================================================================
INTERIOR = {"Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "AtomicUsize", "AtomicU32", "AtomicU64", "AtomicI32", "AtomicI64", "AtomicBool", "Atomic",
            "AtomicPtr", "ReentrantLock", "SyncUnsafeCell", "AtomicCell", "ShardedLock", "ArcSwap"}


def p08(env):
    R = Rules(env)
    interior(R)
    raw_writes(R)
    auto(R)
    statics(R)


def handles_only(R, ty):
    """nothing but handles to whole tensors (a gradient), or flags"""
    P = R.P
    for _, t in R.F.walk(ty):
        if t[0] == "adt":
            d = P.defs[t[1]]
            if d["name"] in ("RcTensor", "Option", "Arc", "Global"):
                continue
            return False
        if t[0] == "param" or (t[0] == "prim" and t[1] == "bool"):
            continue
        return False
    return not (P.types[ty][0] == "param")


def interior(R):
    F, P = R.F, R.P
    tens = [a for a in P.adts.values() if a["id"].startswith(P.crate) and a["id"].rsplit("::", 1)[-1] in ("RawTensor", "RcTensor", "TensorView", "View")]
    done = set()
    st = list(tens)
    while st:
        a = st.pop()
        if a["id"] in done:
            continue
        done.add(a["id"])
        for v in a["variants"]:
            for f in v["fields"]:
                bad = None
                cells = []
                for ty, t in F.walk(f["ty"]):
                    if t[0] == "adt":
                        d = P.defs[t[1]]
                        if d["local"] and d["id"] in P.adts:
                            st.append(P.adts[d["id"]])
                        if d["name"] in INTERIOR:
                            args = [x for x in t[2] if x is not None and not isinstance(x, list)]
                            if not (args and all(handles_only(R, x) for x in args)):
                                cells.append((d["name"], ty))
                    if t[0] == "ptr":
                        if t[1]:
                            bad = "holds a mutable raw pointer"
                if cells and holds_values(R, cells):
                    bad = "%s lets shared handles change what it holds" % cells[0][0]
                R.put("P08 nothing but the gradient can change behind a shared handle", None, a["id"].split("::", 1)[-1], bad is not None,
                      "%s.%s %s" % (a["id"].rsplit("::", 1)[-1], f["name"], bad or "cannot change while it is shared"))


def holds_values(R, cells):
    """the cell's content includes elements or extents"""
    for n, ty in cells:
        if n.startswith("Atomic") and n not in ("AtomicCell", "AtomicPtr"):
            continue
        for _, t in R.F.walk(ty):
            if t[0] in ("param", "slice") or (t[0] == "adt" and R.P.defs[t[1]]["name"] in ("Vec", "Box", "RawTensor")):
                return True
            if t[0] == "ptr":
                return True
    return False


def raw_writes(R):
    F, P = R.F, R.P
    n = 0
    for b in F.bodies.values():
        for i in b.live:
            for s in b.blocks[i]["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "cast":
                    to = P.types[rv[3]]
                    src = b.opty(rv[1])
                    fr = P.types[src] if src is not None else None
                    mutable = to[0] == "ptr" and to[1] or to[0] == "ref" and to[1]
                    if mutable and fr and ((fr[0] == "ptr" and not fr[1]) or (fr[0] == "ref" and not fr[1])) and not opaque_ptr(R, to):
                        w = used_to_write(R, b, s[1][0])
                        n += 1
                        R.put("P08 no write through a shared reference", b.id, s[3], w is not None, "a shared pointer is turned into a mutable one and written through (%s)" % w if w else "not written through")
        for c in b.calls:
            if c.did is None:
                continue
            if c.name in ("get_mut_unchecked",) and "sync" in c.did or (c.name == "from_raw_parts_mut" and const_src(R, b, c)) or c.name in ("cast_mut",) or (c.name == "as_ptr" and False):
                n += 1
                w = used_to_write(R, b, c.dest[0])
                R.put("P08 no write through a shared reference", b.id, c.sp, w is not None, "%s gives a mutable view of shared data, written at %s" % (c.name, w) if w else "not written through")
            if c.name == "transmute" or c.name == "transmute_copy":
                fr = P.types[b.opty(c.args[0])] if b.opty(c.args[0]) is not None else ["?"]
                to = P.types[b.locals[c.dest[0]]]
                if fr[0] in ("ref", "ptr") and not fr[1] and to[0] in ("ref", "ptr") and to[1]:
                    n += 1
                    R.put("P08 no write through a shared reference", b.id, c.sp, True, "a shared reference is transmuted into a mutable one")
    if not n:
        R.put("P08 no write through a shared reference", None, "-", False, "%d functions: no shared pointer becomes a mutable one" % len(F.bodies))


def opaque_ptr(R, to):
    return False


def const_src(R, b, c):
    return False


WRITERS = {"write", "write_volatile", "write_unaligned", "copy", "copy_nonoverlapping", "swap", "replace", "from_raw_parts_mut", "as_mut", "write_bytes", "set", "add_assign", "copy_from", "copy_from_nonoverlapping", "copy_to", "offset", "add", "deref_mut", "index_mut", "sub", "wrapping_add", "get_mut", "iter_mut", "fill", "copy_from_slice", "clone_from_slice", "swap_with_slice"}


def used_to_write(R, b, l):
    """first write through a pointer derived from local l"""
    t = taint(R, b, {l})
    for i in b.live:
        for s in b.blocks[i]["s"]:
            if s[0] == "=" and s[1][0] in t and "*" in s[1]:
                return s[3]
            if s[0] == "=" and s[2][0] == "refmut" and s[2][1][0] in t and "*" in s[2][1]:
                return s[3]
    for c in b.calls:
        if c.args and "const" not in c.args[0] and (c.args[0].get("move") or c.args[0].get("copy"))[0] in t:
            ty = R.P.types[b.opty(c.args[0])] if b.opty(c.args[0]) is not None else ["?"]
            if c.name in WRITERS and c.name not in ("offset", "add", "sub", "wrapping_add"):
                return c.sp
        if c.name in ("copy", "copy_nonoverlapping", "swap") and any("const" not in o and (o.get("move") or o.get("copy"))[0] in t for o in c.args):
            return c.sp
        if c.dest[0] in t and "*" in c.dest:
            return c.sp
    if 0 in t and R.P.types[b.locals[0]][0] in ("ref", "ptr") and R.P.types[b.locals[0]][1]:
        return "the caller, who gets a mutable reference"
    return None


def auto(R):
    P = R.P
    n = 0
    for a in P.adts.values():
        if not a["id"].startswith(P.crate) or a["id"].rsplit("::", 1)[-1] not in ("RawTensor", "RcTensor", "TensorView", "Linear", "Mlp", "Derivative", "View"):
            continue
        for tr in ("send", "sync"):
            R.put("P08 tensors can be shared between threads", None, a["id"].split("::", 1)[-1], not a.get(tr, True), "%s is %s%s" % (a["id"].rsplit("::", 1)[-1], "" if a.get(tr, True) else "not ", tr.capitalize()))
            n += 1
    for i in P.impls:
        if i.get("unsafe") and (i.get("trait") or "").rsplit("::", 1)[-1] in ("Send", "Sync"):
            # only sound when the fields are: look at them without the impl
            t = P.types[i["self"]]
            bad = False
            if t[0] == "adt":
                for ty, x in R.F.walk(i["self"], fields=True):
                    if x[0] == "ptr" or (x[0] == "adt" and P.defs[x[1]]["name"] in ("Rc", "Cell", "RefCell", "UnsafeCell")):
                        bad = True
            R.put("P08 tensors can be shared between threads", None, i.get("sp", "impl"), bad, "%s is asserted by an unsafe impl over fields that are not" % i["trait"].rsplit("::", 1)[-1] if bad else "the unsafe impl adds nothing")


def statics(R):
    P = R.P
    bad = [o for o in P.others if o[1].startswith("Static") and "mutability: Mut" in o[1]]
    for o in bad:
        R.put("P08 no mutable statics", None, o[2], True, "%s is a mutable static" % o[0])
    if not bad:
        R.put("P08 no mutable statics", None, "-", False, "no static can be written")


if __name__ == "__main__":
    import os
    from prog import Prog
    import obl
    P = Prog(os.environ.get("RL_JSON", "/verif/build/out/rust_light-lib.json"))
    for p in sys.argv[1:]:
        env = obl.Env(P)
        globals()[p](env)
        for v in env.verdicts:
            if v.status != "PROVED" or "-v" in sys.argv:
                print(v.status, v.name, "|", v.where, "|", v.detail[:220])
        from collections import Counter
        print(p, Counter(v.status for v in env.verdicts))
