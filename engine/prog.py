"""The extracted type-checked program (THIR) and its types."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.defs = d["defs"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.impls = d["impls"]
        self.impl_by_id = {i["id"]: i for i in d["impls"]}
        self.adts = {a["id"]: a for a in d["adts"]}
        self.traits = {t["id"]: t for t in d["traits"]}
        self.mir = {m[0]: m[1] for m in d["mir"]}
        self.consts = d["consts"]
        self.others = d["others"]
        self.raw = d
        self.defidx = {x["id"]: i for i, x in enumerate(self.defs)}
        self.impl_by_trait = {}
        for i in self.impls:
            if i.get("trait"):
                self.impl_by_trait.setdefault(i["trait"], []).append(i)
        self._ct = {}

    # -------------------------------------------------------------- types
    def ct(self, idx, tenv=()):
        """concrete type (nested tuples) of an interned type under `tenv`"""
        if isinstance(idx, list):
            return ("const", str(idx))
        key = (idx, tenv)
        r = self._ct.get(key)
        if r is None:
            r = self._ct[key] = self._mkct(idx, dict(tenv))
        return r

    def _mkct(self, idx, env):
        if idx is None:
            return ("lt",)
        t = self.types[idx]
        k = t[0]
        tk = tuple(sorted(env.items()))
        if k == "prim":
            return ("prim", t[1])
        if k == "adt":
            args = tuple(self.ct(a, tk) for a in t[2])
            did = self.defs[t[1]]["id"]
            if did == "alloc::vec::Vec":
                args = args[:1]
            if did == "alloc::boxed::Box":
                return args[0]
            return ("adt", did, tuple(a for a in args if a != ("lt",)))
        if k == "param":
            return env.get(t[2], ("param", t[2]))
        if k == "ref":
            return ("ref", t[1], self.ct(t[2], tk))
        if k == "ptr":
            return ("ptr",)
        if k == "slice":
            return ("adt", "alloc::vec::Vec", (self.ct(t[1], tk),))
        if k == "array":
            return ("adt", "core::array", (self.ct(t[1], tk),))
        if k == "tuple":
            return ("tuple", tuple(self.ct(x, tk) for x in t[1]))
        if k == "fndef":
            return ("fndef", self.defs[t[1]]["id"])
        if k == "closure":
            return ("closure", self.defs[t[1]]["id"])
        if k == "fnptr":
            return ("fnptr", tuple(self.ct(x, tk) for x in t[1]), self.ct(t[2], tk))
        if k == "alias":
            did = self.defs[t[2]]["id"]
            args = tuple(self.ct(a, tk) for a in t[3])
            return self.normalize(("alias", did, args))
        if k == "never":
            return ("never",)
        return ("other", str(t[1:]))

    def normalize(self, a):
        _, did, args = a
        trait, _, name = did.rpartition("::")
        if not args:
            return a
        s = args[0]
        if name == "Target" and trait.endswith("Deref"):
            if s[0] == "ref":
                return s[2]
            if s[0] == "adt" and s[1].endswith("::Arc"):
                return s[2][0]
        if name == "Output" and s[0] in ("param", "prim"):
            return s
        if name == "Item" and s[0] == "adt" and s[1].endswith("::Vec"):
            return s[2][0]
        imp, env = self.find_impl(trait, s)
        if imp is not None:
            for it in imp["items"]:
                if it["name"] == name and it.get("ty") is not None:
                    return self.ct(it["ty"], tuple(sorted(env.items())))
        return a

    def unify(self, ty, c, env):
        """match interned type `ty` against concrete `c`"""
        if ty is None:
            return True
        t = self.types[ty]
        k = t[0]
        if k == "param":
            old = env.get(t[2])
            if old is None:
                env[t[2]] = c
                return True
            return old == c or (old[0] == "param" and c[0] == "param")
        if c[0] == "param":
            return True if k in ("alias",) else False
        if k == "adt":
            did = self.defs[t[1]]["id"]
            if c[0] != "adt" or c[1] != did:
                return False
            targs = [a for a in t[2] if a is not None]
            for a, b in zip(targs, c[2]):
                if not self.unify(a, b, env):
                    return False
            return True
        if k == "ref":
            return c[0] == "ref" and self.unify(t[2], c[2], env)
        if k == "slice":
            return c[0] == "adt" and c[1] == "alloc::vec::Vec" and self.unify(t[1], c[2][0], env)
        if k == "array":
            return c[0] == "adt" and c[1] == "core::array" and self.unify(t[1], c[2][0], env)
        if k == "tuple":
            return c[0] == "tuple" and len(c[1]) == len(t[1]) and all(self.unify(x, y, env) for x, y in zip(t[1], c[1]))
        if k == "prim":
            return c == ("prim", t[1])
        if k == "alias":
            return True
        return False

    def find_impl(self, trait, selfty, targs=()):
        for imp in self.impl_by_trait.get(trait, []):
            env = {}
            if not self.unify(imp["self"], selfty, env):
                continue
            ok = True
            for ty, c in zip(imp["targs"][1:], targs):
                if c is not None and not self.unify(ty, c, env):
                    ok = False
                    break
            if ok:
                return imp, env
        return None, None

    def fn_of_impl(self, imp, name):
        for it in imp["items"]:
            if it["name"] == name and it["kind"] == "AssocFn":
                return self.fns.get(it["id"])
        return None

    # -------------------------------------------------------------- lookup
    def find_fn(self, name, impl_self=None, trait=None):
        """functions by name (+ self type name, trait name) - never by impl number"""
        out = []
        for f in self.fns.values():
            if f["kind"] == "Closure" or f["id"].rsplit("::", 1)[-1] != name:
                continue
            d = self.defs[f["def"]]
            st = None
            tr = d.get("impl_trait")
            if "impl_self" in d:
                c = self.types[d["impl_self"]]
                while c[0] == "ref":
                    c = self.types[c[2]]
                st = self.defs[c[1]]["name"] if c[0] == "adt" else c[0]
            if impl_self is not None and st != impl_self:
                continue
            if trait is not None and (tr or d.get("trait") or "").rsplit("::", 1)[-1] != trait:
                continue
            if trait is None and impl_self is not None and tr is not None and False:
                continue
            out.append(f)
        return out
