"""Obligations: run a function of the current source through the value-flow
analysis and compare the closed form of its result with the specified one."""
import signal
import sys
import time
import traceback
import term as TM
from term import *
from interp import Interp, Dead, ref, tup, some, NONE, ok, err, STR, UNIT, State
from decide import simp, size
import evalt
import hooks as H


SKIP = "another shard's"


class Budget(Exception):
    pass


def _alarm(*a):
    raise Budget()


class timed:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class Run:
    """one abstract evaluation"""

    def __init__(self, it, value, dead=False, why=None):
        self.it, self.value, self.dead, self.why = it, value, dead, why
        self.reqs = it.reqs if it is not None else []

    @property
    def accept(self):
        """condition under which the call returns normally"""
        if self.dead:
            return FALSE
        return band(*[c for c, w, wh in self.reqs])


class Verdict:
    def __init__(self, name, status, where, detail="", notes=None, fns=()):
        self.name, self.status, self.where, self.detail = name, status, where, detail
        self.notes = notes or {}
        self.fns = fns
        self.run = None

    def row(self):
        return {"obligation": self.name, "status": self.status, "where": self.where, "detail": self.detail[:600]}


T = ("param", "T")
RAWT = "RawTensor"


class Env:
    """the program, with lookups that do not depend on files, modules or impl numbering"""

    def __init__(self, prog, budget=20):
        self.p = prog
        self.budget = budget
        self.deadline = None
        self.verdicts = []
        self.disabled = set()
        self.shard = None
        self.assumed = ()          # facts assumed for every run: the case of a case distinction
        self.only = None           # number of the only run to make
        self.conds = {}            # run -> conditions left open in it
        self.nrun = 0
        self.visited = {}
        self.used = {}
        self.callsites = self.loops = 0
        self.valuations = 0
        self.byq = {}
        it = Interp(prog)
        for f in prog.fns.values():
            if f["kind"] == "Closure" or not f.get("thir"):
                continue
            self.byq.setdefault(it.qual(f), []).append(f)
        self.it0 = it

    def adt(self, name):
        return self.it0.adt_named(name)

    def ty(self, name, *args):
        if name in ("RawTensor", "RcTensor", "TensorView", "Linear", "Mlp", "Derivative"):
            return ("adt", self.adt(name), args or (T,))
        return ("adt", self.adt(name), args)

    def fn(self, q, trait=None, arg=None):
        """the function Type::name / name; `trait` picks among impls, `arg` filters by type of a parameter"""
        fs = self.byq.get(q, [])
        if trait is not None:
            fs = [f for f in fs if (self.p.defs[f["def"]].get("impl_trait") or self.p.defs[f["def"]].get("trait") or "").rsplit("::", 1)[-1] == trait]
        elif len(fs) > 1:
            g = [f for f in fs if not self.p.defs[f["def"]].get("impl_trait")]
            fs = g or fs
        if arg is not None:
            fs = [f for f in fs if arg(self.params(f))]
        return fs[0] if len(fs) == 1 else None

    def params(self, f, tenv=()):
        d = self.p.defs[f["def"]]
        tv = dict((g, ("param", g)) for g in d["generics"] if not g.startswith("'"))
        tv.update(dict(tenv))
        tv = tuple(sorted(tv.items()))
        return [self.p.ct(p["ty"], tv) if p.get("ty") is not None else None for p in f["thir"]["params"]]

    def where(self, f):
        return "%s (%s)" % (f["id"], f.get("span") or f.get("sp") or "?")

    # ---------------------------------------------------------- running
    def interp(self, *without, extra=None):
        hk = H.hooks(*without)
        for k in self.disabled:
            hk.pop(k, None)
        hk.update(extra or {})
        return Interp(self.p, hk)

    def run(self, it, f, args, tenv=None, budget=None):
        d = self.p.defs[f["def"]]
        tv = dict((g, ("param", g)) for g in d["generics"] if not g.startswith("'"))
        tv.update(tenv or {})
        return self.run_py(it, lambda: it.run_body(f, args, tv, {}), budget)

    def share(self, budget):
        """seconds for one step: little once the time for the whole check is used up"""
        b = budget or self.budget
        return b if self.deadline is None else min(b, max(1, int(self.deadline - time.time())))

    def run_py(self, it, body, budget=None):
        self.nrun += 1
        if self.shard is not None and self.nrun % self.shard[1] != self.shard[0]:
            return Run(it, None, why=SKIP)
        if self.only is not None and self.nrun != self.only:
            return Run(it, None, why=SKIP)
        for c in self.assumed:
            it.add_fact(c)
        try:
            return self._run_py(it, body, budget)
        finally:
            self.conds[self.nrun] = list(it.open_conds)
            for k, n in it.visited.items():
                self.visited[k] = self.visited.get(k, 0) + n
            for k, n in it.used_hooks.items():
                self.used[k] = 1
            self.callsites += it.callsites
            self.loops += it.loops

    def _run_py(self, it, body, budget=None):
        try:
            with timed(self.share(budget)):
                v = body()
                if v.op == "mref":
                    v = it.read_mref(v)
                return Run(it, v)
        except Dead:
            return Run(it, None, dead=True)
        except Budget:
            return Run(it, None, why="analysis budget exceeded")
        except RecursionError:
            return Run(it, None, why="term too deep")
        except Exception as e:
            if "--trace" in sys.argv:
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return Run(it, None, why="analysis gave up: %s (%s:%d)" % (type(e).__name__, tb.filename.rsplit("/", 1)[-1], tb.lineno))

    # ---------------------------------------------------------- comparing
    def compare(self, name, where, got, want, facts=(), sampler=None, budget=None, what="value", big=False):
        t0 = time.time()
        try:
            with timed(self.share(budget)):
                v = self._compare(name, where, got, want, tuple(facts) + tuple(self.assumed), sampler, what)
        except Budget:
            v = Verdict(name, "UNKNOWN", where, "comparison budget exceeded")
        except RecursionError:
            v = Verdict(name, "UNKNOWN", where, "term too deep")
        v.notes["secs"] = round(time.time() - t0, 2)
        v.run = self.nrun
        self.verdicts.append(v)
        return v

    def note(self, v):
        v.run = self.nrun
        self.verdicts.append(v)

    # ---------------------------------------------------------- case distinctions
    def by_cases(self, family, deadline):
        """obligations left undecided are decided in each case of a condition that their run left open"""
        open_ = {}
        for v in self.verdicts:
            if v.status == "UNKNOWN" and v.run is not None:
                open_.setdefault(v.run, []).append(v)
        for run, vs in sorted(open_.items()):
            if time.time() > deadline:
                return
            got = self._cases(family, run, (), self.conds.get(run, ()), 2, deadline)
            for v in vs:
                w = got.get(v.name)
                if w is None:
                    parts = [x for n, x in got.items() if n.startswith(v.name + " / ")]
                    bad = [x for x in parts if x.status == "VIOLATED"]
                    w = bad[0] if bad else parts[0] if parts and all(x.status in ("PROVED", "AGREE") for x in parts) else None
                if w is not None and w.status != "UNKNOWN":
                    v.status, v.detail = w.status, w.detail

    def _cases(self, family, run, assumed, conds, depth, deadline):
        best = {}
        for c in sorted(conds, key=lambda c: size(c))[:4]:
            if time.time() > deadline:
                break
            per = []
            for case in (c, bnot(c)):
                sub = Env(self.p, self.budget)
                sub.deadline = deadline
                sub.disabled, sub.assumed, sub.only = self.disabled, assumed + (case,), run
                try:
                    family(sub)
                except Exception:
                    break
                m = dict((v.name, v) for v in sub.verdicts)
                if depth > 1 and any(v.status == "UNKNOWN" for v in sub.verdicts) and not any(v.status == "VIOLATED" for v in sub.verdicts):
                    for n, w in sub._cases(family, run, sub.assumed, [x for x in sub.conds.get(run, ()) if x is not c], depth - 1, deadline).items():
                        if m.get(n) is None or m[n].status == "UNKNOWN":
                            m[n] = w
                per.append((case, m))
            if len(per) < 2:
                continue
            for n in set(per[0][1]) | set(per[1][1]):
                bad = [(case, m[n]) for case, m in per if n in m and m[n].status == "VIOLATED"]
                if bad:
                    bad[0][1].detail += " [case: %s]" % show(bad[0][0])[:200]
                    best[n] = bad[0][1]
                elif all(n in m and m[n].status in ("PROVED", "AGREE") for _, m in per) and (n not in best or best[n].status == "UNKNOWN"):
                    best[n] = per[0][1][n]
                    best[n].status = "AGREE"
                    best[n].detail = "in each case of %s: %s" % (show(c)[:100], best[n].detail)
            if any(v.status == "VIOLATED" for v in best.values()):
                break
        return best

    def _compare(self, name, where, got, want, facts, sampler, what):
        if got is None:
            return Verdict(name, "UNKNOWN", where, "no value")
        if got is want:
            return Verdict(name, "PROVED", where, "%s: closed forms coincide" % what)
        if got.unk:
            # still try: a valuation may not need the unknown part
            pass
        else:
            try:
                with_f = simp(got, facts) if not sampler or True else got
            except (RecursionError, Budget):
                raise
            if with_f is simp(want, facts):
                return Verdict(name, "PROVED", where, "%s: closed forms coincide" % what)
        w, notes = evalt.separate(got, want, facts, sampler)
        if w is None and notes["used"] and evalt.STEER:
            signal.setitimer(signal.ITIMER_REAL, 2 * evalt.STEER)
            try:
                w = evalt.steer(got, want, facts, sampler, notes)
            except (Budget, RecursionError):
                notes["steering"] = "stopped"
        self.valuations += notes["used"]
        if w is not None:
            val, x, y = w
            return Verdict(name, "VIOLATED", where, "%s differs: computed %s, specified %s, e.g. for %s" % (what, short(x), short(y), val.describe()), notes)
        if got.unk and not notes["used"]:
            return Verdict(name, "UNKNOWN", where, "unknown part: %s" % unk_reason(got), notes)
        if notes["used"] < 8:
            return Verdict(name, "UNKNOWN", where, "too few valuations decide it %s" % notes, notes)
        return Verdict(name, "UNKNOWN" if got.unk else "AGREE", where, "%s: closed forms differ in form, agree under %d valuations" % (what, notes["used"]), notes)

    def result(self, name, f, run, checks, facts=(), accept=TRUE, sampler=None, accept_facts=None):
        """checks: list of (label, got term or callable(value), want); accept: exact
        condition of normal return (None = not judged)"""
        where = self.where(f)
        if run.why is SKIP:
            return
        if run.why:
            self.note(Verdict(name, "UNKNOWN", where, run.why))
            return
        it = run.it
        if accept is not None:
            c = run.accept
            bad = [wh + ": " + str(w) for q, w, wh in run.reqs]
            v = self.compare(name + " / refusal", where, c, accept, facts if accept_facts is None else accept_facts, sampler, what="condition of normal return")
            if v.status == "VIOLATED" and it.unknowns:
                v.status = "UNKNOWN"
                v.detail = "not judged: " + "; ".join(list(it.unknowns)[:3])
            if v.status == "VIOLATED":
                v.detail += " | panics: " + "; ".join(bad[:6])
        if run.dead:
            if accept is None or accept is not FALSE:
                if checks and self.assumed:
                    # in one case of a case distinction: only if that case can occur
                    self.compare(name + " / refusal", where, FALSE, TRUE if accept is None else accept, tuple(facts), sampler, what="condition of normal return")
                elif checks:
                    self.note(Verdict(name, "VIOLATED", where, "never returns normally: " + "; ".join("%s %s" % (wh, w) for q, w, wh in run.reqs[:4])))
            return
        vf = tuple(facts) + ((accept,) if accept is not None and accept is not TRUE else ()) + tuple(c for c, w, wh in run.reqs if not c.unk)
        for label, got, want in checks:
            try:
                g = got(run.value) if callable(got) else got
                want = want(run.value) if callable(want) else want
            except Exception as e:
                self.note(Verdict("%s / %s" % (name, label), "UNKNOWN", where, "projection failed: %r" % (e,)))
                continue
            v = self.compare("%s / %s" % (name, label), where, g, want, vf, sampler, what=label)
            if run.it.unknowns and v.status == "UNKNOWN":
                v.detail += " | " + "; ".join(list(run.it.unknowns)[:4])
            if run.it.stuck and v.status == "UNKNOWN":
                s = run.it.stuck[0]
                v.detail += " | stuck: %s %s" % (s[0], s[1]); v.notes["stuck"] = "%s := %s" % (show(s[2])[:200], show(s[3])[:1500])
                if "--trace" in sys.argv:
                    v.detail += " %s -> %s" % (show(s[2])[:200], show(s[3])[:1500])


from term import show


def unk_reason(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x in seen:
            if isinstance(x, tuple):
                st.extend(x)
            continue
        seen.add(x)
        if x.op == "unk":
            return str(x.args[0])
        st.extend(x.args)
    return "?"


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
