"""Histories of real Occupation objects and basis functions."""
from lib import *  # noqa: F401,F403

from kmcpy.structure.basis import BasisFunction, ChebyshevBasis, Occupation, OccupationBasis, get_basis, register_basis


def two(match, mismatch):
    class Two(BasisFunction):
        @property
        def match_value(self):
            return match

        @property
        def mismatch_value(self):
            return mismatch

        @property
        def valid_values(self):
            return {match, mismatch}

        @property
        def basis_function(self):
            return [match, mismatch]
    return Two


class SpinBasis(two(-1, 1)):
    pass


class RealFieldBasis(two(2.0, -2.0)):
    pass


register_basis("ising")(SpinBasis)
register_basis("real_field")(RealFieldBasis)
NAMES = {"occ": "occupation", "cheb": "chebyshev", "cheb3": None, "cheb4": None, "spin": "ising", "real": "real_field"}
MAKE = {"occ": OccupationBasis, "cheb": ChebyshevBasis, "cheb3": lambda: ChebyshevBasis(max_states=3), "cheb4": lambda: ChebyshevBasis(max_states=4),
        "spin": SpinBasis, "real": RealFieldBasis}
BACK = {"occupation": "occ", "ising": "spin", "real_field": "real"}
VALS = {"occ": [1, 0], "cheb": [0, 1], "cheb3": [0, 1, 2], "cheb4": [0, 1, 2, 3], "spin": [-1, 1], "real": [2, -2]}
BUILTIN = ("occ", "cheb", "cheb3", "cheb4")
BLANK = {"k": "", "s": 1, "b": "", "v": [], "I": [], "ok": True, "S": [], "qs": [], "a": True, "n": 0, "w": [], "d": {}}


def raw(v):
    return [0.5 if x == 99 else x for x in v]


class World:
    def __init__(self, r):
        self.r = r
        self.objs = []
        self.count = 0

    def basis(self, b):
        if NAMES[b] and self.r.random() < 0.5:
            return NAMES[b]
        if b.startswith("cheb") and b != "cheb" and self.r.random() < 0.5:
            return get_basis("chebyshev", max_states=int(b[-1]))
        return MAKE[b]()

    def kind(self, o):
        if o.basis == "chebyshev":
            m = o.basis_obj.max_states
            return "cheb" if m == 2 else "cheb%d" % m
        return BACK.get(o.basis, "?" + o.basis)

    def look(self):
        out = []
        for o in self.objs:
            how = self.count = (self.count + 1) % 5
            if how == 0:
                v = o.values
            elif how == 1:
                v = list(o)
            elif how == 2:
                v = [o[j] for j in range(len(o))]
            elif how == 3:
                v = o.data.tolist()
            else:
                v = [o[j - len(o)] for j in range(len(o))]
            o.values[:] = [77] * len(o)      # what is handed out is a copy
            d = o.data
            d[:] = 77
            out.append({"b": self.kind(o), "v": [as_int(x) for x in v]})
        return out

    def apply(self, c):
        r = self.r
        o = dict(BLANK, k=c["k"], s=c["s"], b=c["b"], v=c["v"], I=c["I"], qs=[])
        k, I = c["k"], [j - 1 for j in c["I"]]
        t = self.objs[c["s"] - 1] if k not in ("new", "full") else None
        if t is not None:
            I = [j - len(t) if r.random() < 0.2 else j for j in I]
        try:
            if k == "new":
                src = raw(c["v"])
                src = r.choice([list, tuple, np.array])(src)
                x = Occupation(src, basis=self.basis(c["b"]))
                if isinstance(src, np.ndarray):
                    src[:] = 77
                self.objs.append(x)
            elif k == "full":
                make = Occupation.ones if c["v"][0] == 1 else Occupation.zeros
                if r.random() < 0.3:
                    x = Occupation.random(c["s"], basis=self.basis(c["b"]), fill_fraction=1.0 if c["v"][0] == 1 else 0.0, seed=r.randint(0, 99))
                else:
                    x = make(c["s"], self.basis(c["b"]))
                self.objs.append(x)
            elif k == "set":
                v = raw(c["v"])
                if len(I) == 1 and r.random() < 0.7:
                    t[I[0]] = v[0]
                else:
                    t[r.choice([list, np.array])(I)] = r.choice([list, np.array])(v)
            elif k == "flip":
                self.objs.append(t.flip(I[0] if len(I) == 1 and r.random() < 0.5 else I))
            elif k == "flipin":
                t.flip_inplace(I[0] if len(I) == 1 and r.random() < 0.5 else I)
            elif k == "copy":
                self.objs.append(r.choice([lambda: t.copy(), lambda: t[:], lambda: t.to_basis(t.basis_obj)])())
            elif k == "pick":
                if c["I"] == list(range(c["I"][0], c["I"][0] + len(c["I"]))) and r.random() < 0.6:
                    self.objs.append(t[c["I"][0] - 1:c["I"][0] - 1 + len(I)])
                else:
                    self.objs.append(t[r.choice([list, np.array])(I)])
            elif k == "conv":
                self.objs.append(t.to_basis(self.basis(c["b"])))
        except ValueError:
            o["ok"] = False
        o["S"] = self.look()
        for _ in range(2):
            if self.objs:
                o["qs"].append(self.ask())
        return o

    def ask(self):
        r = self.r
        s, s2 = r.randrange(len(self.objs)), r.randrange(len(self.objs))
        a, b = self.objs[s], self.objs[s2]
        k = r.choice(["eq", "eq", "alike", "match", "mis"])
        q = {"k": k, "s": s + 1, "s2": s2 + 1, "a": True, "w": [], "n": 0}
        built = self.kind(a) in BUILTIN
        if k == "eq":
            q["a"] = bool(a == b)
            if bool(a != b) == q["a"] or bool(b == a) != q["a"]:
                raise RuntimeError("equality contradicts itself")
            if a.array_equal(b.values) is False and q["a"]:
                raise RuntimeError("equal vectors differ")
        elif k == "alike":
            q["a"] = bool(a.equivalent_to(b))
        elif k == "match":
            f = r.random() < 0.5 and built
            q["w"] = [j + 1 for j in (a.get_occupied_indices() if f else a.get_match_indices())]
            q["n"] = a.count_occupied() if f else a.count_match()
        else:
            f = r.random() < 0.5 and built
            q["w"] = [j + 1 for j in (a.get_vacant_indices() if f else a.get_mismatch_indices())]
            q["n"] = a.count_vacant() if f else a.count_mismatch()
        return q

    # random commands
    def command(self):
        r = self.r
        c = {"k": "", "s": 1, "b": "", "v": [], "I": []}
        n = len(self.objs)
        kind = r.choice(["new", "full"] + (["set", "set", "flip", "flipin", "copy", "pick", "conv", "conv"] * 2 if n else []))
        if n > 6 and kind in ("new", "full", "copy"):
            kind = "set"
        c["k"] = kind
        if kind == "new":
            c["b"] = r.choice(list(VALS))
            c["v"] = [r.choice(VALS[c["b"]]) for _ in range(r.randint(1, 6))]
            if r.random() < 0.25:
                c["v"][r.randrange(len(c["v"]))] = r.choice([99, 5, 2, -1, 3])
            return c
        if kind == "full":
            c.update(b=r.choice(BUILTIN), s=r.randint(1, 6), v=[r.choice([0, 1])])
            return c
        c["s"] = r.randint(1, n)
        t = self.objs[c["s"] - 1]
        b, m = self.kind(t), len(t)
        if b not in VALS:
            return None
        if kind == "set":
            c["I"] = r.sample(range(1, m + 1), r.randint(1, m))
            c["v"] = [r.choice(VALS[b]) for _ in c["I"]]
            if r.random() < 0.35:
                c["v"][r.randrange(len(c["v"]))] = r.choice([99, 5, 2, -1, 3])
        elif kind in ("flip", "flipin"):
            good = [j + 1 for j in range(m) if t[j] in (t.basis_obj.match_value, t.basis_obj.mismatch_value)]
            if not good:
                return None
            c["I"] = [r.choice(good) for _ in range(r.randint(1, 4))]
        elif kind == "pick":
            if r.random() < 0.5:
                a = r.randint(1, m)
                c["I"] = list(range(a, r.randint(a, m) + 1))
            else:
                c["I"] = [r.randint(1, m) for _ in range(r.randint(1, m))]
        elif kind == "conv":
            c["b"] = r.choice([x for x in VALS if not (x[:4] == "cheb" == b[:4] and len(VALS[x]) < len(VALS[b]))])
        return c

    def extra(self):
        r = self.r
        o = dict(BLANK, w=[], k=r.choice(["site", "random", "basis", "value"]))
        if o["k"] == "site":
            n = o["n"] = r.randint(2, 6)
            b = r.choice([ChebyshevBasis(), ChebyshevBasis(max_states=n), get_basis("chebyshev")])
            got = np.asarray(b.site_basis_values(n), float)
            o["w"] = [[as_int(x, (n - 1) ** (k + 1), 1e-6) for k, x in enumerate(row)] for row in got]
            if b.num_site_basis_functions(n) != n - 1 or got.shape != (n, n - 1):
                raise RuntimeError("wrong number of site functions")
        elif o["k"] == "value":
            b = o["b"] = r.choice(list(VALS))
            x = MAKE[b]()
            for v in VALS[b]:
                for c in VALS:
                    o["w"].append({"x": v, "c": c, "y": as_int(x.convert_to(v, MAKE[c]()))} if b[:4] != c[:4] else {"x": v, "c": c, "y": v})
                if b == "occ":
                    o["w"].append({"x": v, "c": "cheb", "y": r.choice([lambda: x.to_chebyshev(v), lambda: ChebyshevBasis().from_occupation(v)])()})
                elif b in BUILTIN:
                    o["w"].append({"x": v, "c": "occ", "y": r.choice([lambda: x.to_occupation(v), lambda: OccupationBasis().from_chebyshev(v)])()})
                    o["w"].append({"x": v, "c": b, "y": x.state_value(v)})
                if b in BUILTIN and (bool(x.is_occupied(v)) != (v == VALS[b][0]) or bool(x.is_vacant(v)) != (v == VALS[b][1])):
                    raise RuntimeError("occupied or vacant wrongly")
        elif o["k"] == "random":
            seed, n, f, b = r.randint(0, 999), r.randint(1, 30), r.random(), r.choice(BUILTIN)
            np.random.seed(seed + 5)
            want = np.random.random(3).tolist()
            x = Occupation.random(n, basis=self.basis(b), fill_fraction=f, seed=seed)
            np.random.seed(seed + 5)
            y = Occupation.random(n, basis=self.basis(b), fill_fraction=f, seed=seed)
            got = np.random.random(3).tolist()
            o["a"] = bool(x == y and len(x) == n and want == got and x.count_match() + x.count_mismatch() == n)
        else:
            b = o["b"] = r.choice(list(VALS))
            x = self.basis(b)
            x = get_basis(x) if isinstance(x, str) else x
            y = BasisFunction.from_dict(json.loads(json.dumps(x.as_dict())))
            if type(y) is not type(x):
                raise RuntimeError("another basis came back")
            o["d"] = {"match": as_int(y.match_value), "mis": as_int(y.mismatch_value), "vals": [as_int(v) for v in y.valid_values]}
        return o


def trace(name, r, cmds=None, n=0):
    w = World(r)
    t = {"id": name, "ops": [], "raised": ""}
    try:
        if cmds is not None:
            for c in cmds:
                t["ops"].append(w.apply(c))
        else:
            for _ in range(n):
                c = w.command()
                if c:
                    t["ops"].append(w.apply(c))
                if r.random() < 0.15:
                    t["ops"].append(w.extra())
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    if a.mode == "gen":
        out = [trace("occ-gen:%d" % k, rng_for("occ-gen", k), cmds=c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    else:
        out = [trace("occ:%d:%d" % (a.seed, k), rng_for(a.seed, "occ", k), n=14) for k in range(a.n)]
    write_json(a.out, out)
