"""Real fitted-parameter records, histories and fits, and the files they are kept in."""
import dataclasses
import hashlib

from lib import *  # noqa: F401,F403

from kmcpy.models.fitting.fitter import LCEFitter
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters
from models import environments

FIELDS = ["keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv",
          "normalize", "orbit_fingerprints", "local_environment_hash", "local_site_order"]
BLANK = {"k": "", "s": 1, "s2": 1, "f": "", "h": "", "tok": "", "key": "", "fits": True, "core": "", "bound": True, "sound": True}


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return "n" + float(v).hex()
    return v


def tok(p, skip=()):
    return hashlib.sha1(json.dumps({f: plain(getattr(p, f)) for f in FIELDS if f not in skip}, sort_keys=True).encode()).hexdigest()[:14]


def num(r):
    return r.choice([0.0, -0.0, 1.0, -3.5, r.uniform(-500, 500), 10.0 ** r.randint(-12, 9) / 3, float(r.randint(-9, 9))])


def random_record(r):
    n = r.randint(0, 5)
    p = LCEModelParameters(
        keci=[num(r) for _ in range(n)], empty_cluster=num(r),
        cluster_site_indices=r.choice([[], [0, 3], [[0], [1, 2]], [[[0, 1], [2, 3]], [[1]]]]),
        weight=[num(r) for _ in range(r.randint(0, 4))], alpha=num(r), time_stamp=1.7e9 + r.random(),
        time=r.choice(["", "01/02/2024, 10:11:12", "12:30", "no"]), rmse=num(r), loocv=num(r))
    if r.random() < 0.5:
        p = dataclasses.replace(p, normalize=r.random() < 0.5)
    if r.random() < 0.5:
        p = dataclasses.replace(p, orbit_fingerprints=["%x" % r.getrandbits(64) for _ in range(n)])
    if r.random() < 0.5:
        p = dataclasses.replace(p, local_environment_hash=r.choice(["abc", "0123", "1e5"]))
    if r.random() < 0.4:
        p = dataclasses.replace(p, local_site_order={"name": "mine", "sort_keys": ["species", "x"], "exclude_center_site": False,
                                                     "center_match_tolerance": 1e-3})
    return p


class World:
    def __init__(self, r, names):
        self.r, self.rec, self.his, self.names = r, [], [], names
        self.junk = set()
        self.models = None

    def lces(self):
        if self.models is None:
            _L, envs = environments(rng_for("params-env", self.r.randint(0, 3)))
            self.models = []
            for e in envs:
                m = LocalClusterExpansion()
                m.build(e, cutoff_cluster=[8.0, 8.0, 8.0])
                self.models.append(m)
        return self.models

    def look(self, ok):
        files = {}
        for n, (path, what) in self.names.items():
            if not os.path.exists(path):
                files[n] = {"kind": "none", "v": []}
                continue
            try:
                if what == "rec":
                    files[n] = {"kind": "rec", "v": [tok(LCEModelParameters.from_file(path))]}
                else:
                    files[n] = {"kind": "his", "v": [tok(p) for p in LCEModelParamHistory.from_file(path).history]}
            except Exception:  # noqa: BLE001
                files[n] = {"kind": "junk", "v": []}
        return {"ok": ok, "rec": [tok(p) for p in self.rec], "his": [[tok(p) for p in h.history] for h in self.his], "file": files}

    def path(self, n):
        return self.names[n][0] if n else None

    def fit(self, o):
        key = o["key"]
        d = rng_for("fit", key)
        direct = d.random() < 0.3
        m = None if direct else d.choice(self.lces())
        cols = d.randint(2, 5) if direct else len(m.cluster_site_indices)
        if cols > 40 or cols < 2:
            m, direct, cols = None, True, 3
        own = ["%d" % q for q in range(cols)] if direct and d.random() < 0.5 else None
        if not o["fits"]:
            if m is None and own is None:
                own = ["%d" % q for q in range(cols)]
            cols += d.choice([1, 2])
        rows = d.randint(3, 6)
        x = [[d.randint(-4, 4) for _ in range(cols)] for _ in range(rows)]
        y = [d.randint(1000, 5000) / 8 for _ in range(rows)]
        w = [d.choice([1, 1, 2, 0.5]) for _ in range(rows)]
        np.savetxt("corr.txt", np.array(x, float))
        np.savetxt("ekra.txt", np.array(y, float))
        np.savetxt("weight.txt", np.array(w, float))
        alpha, normalize = d.choice([0.5, 1.5, 0.01]), d.random() < 0.6
        kw = dict(alpha=alpha, max_iter=2000, ekra_fname="ekra.txt", keci_fname="keci.txt", weight_fname="weight.txt",
                  corr_fname="corr.txt", lce_params_fname=self.path(o["f"]), lce_params_history_fname=self.path(o["h"]),
                  normalize=normalize)
        if direct:
            if own:
                kw.update(orbit_fingerprints=own, local_environment_hash="env")
            fitter = LCEFitter()
            p, pred, true = fitter.fit(**kw)
        else:
            p, pred, true = m.fit(**kw)
        self.rec.append(p)
        o["tok"], o["core"] = tok(p), tok(p, ("time", "time_stamp"))
        if direct:
            o["bound"] = p.orbit_fingerprints == own and p.local_environment_hash == ("env" if own else None)
        else:
            m.set_parameters(p)
            ok = True
            for other in self.lces():
                if other is not m:
                    try:
                        other.set_parameters(p)
                        ok = False
                    except ValueError:
                        pass
            o["bound"] = ok
        guess = np.array(x, float) @ np.array(p.keci) + p.empty_cluster
        o["sound"] = bool(
            np.allclose(guess, pred, rtol=1e-9, atol=1e-7) and np.array_equal(np.asarray(true, float), np.array(y))
            and math.isclose(float(p.rmse), float(np.sqrt(np.mean((np.array(y) - guess) ** 2))), rel_tol=1e-9, abs_tol=1e-7)
            and np.allclose(np.atleast_1d(np.loadtxt("keci.txt")), p.keci, atol=1e-8) and list(p.weight) == [float(q) for q in w]
            and p.alpha == alpha and p.normalize == normalize and len(p.keci) == cols)

    def fitted(self, o):
        """What a fitter holds after a fit, and so what it can save: no cluster sites, no site order."""
        p = self.rec[o["s"] - 1]
        return p.cluster_site_indices == [] and p.local_site_order is None

    def fitter(self, o):
        f = LCEFitter()
        f.model_parameters = self.rec[o["s"] - 1]
        return f

    def single(self, path):
        """A file of one set of parameters, which a fitter reads as well."""
        try:
            from monty.serialization import loadfn

            d = loadfn(path, cls=None)
            return isinstance(d, dict) and "keci" in d
        except Exception:  # noqa: BLE001
            return False

    def do(self, o):
        k, r = o["k"], self.r
        if k == "new":
            p = random_record(r)
            self.rec.append(p)
            o["tok"] = tok(p)
        elif k == "dict" and self.fitted(o) and r.random() < 0.4:
            self.rec.append(LCEFitter.from_dict(json.loads(json.dumps(self.fitter(o).as_dict()))).model_parameters)
        elif k == "save" and self.fitted(o) and ".json" in self.path(o["f"]) and r.random() < 0.5:
            self.fitter(o).to(self.path(o["f"]))
        elif k == "load" and self.single(self.path(o["f"])) and r.random() < 0.4:
            self.rec.append(LCEFitter.from_file(self.path(o["f"])).model_parameters)
        elif k == "dict":
            d = self.rec[o["s"] - 1].as_dict()
            self.rec.append(LCEModelParameters.from_dict(json.loads(json.dumps(d)) if r.random() < 0.5 else d))
        elif k == "save":
            self.rec[o["s"] - 1].to(self.path(o["f"]))
        elif k == "load":
            self.rec.append(LCEModelParameters.from_file(self.path(o["f"])))
        elif k == "hnew":
            self.his.append(LCEModelParamHistory())
        elif k == "append":
            self.his[o["s2"] - 1].append(self.rec[o["s"] - 1])
        elif k == "hdict":
            d = self.his[o["s2"] - 1].as_dict()
            self.his.append(LCEModelParamHistory.from_dict(json.loads(json.dumps(d)) if r.random() < 0.5 else d))
        elif k == "hsave":
            self.his[o["s2"] - 1].to(self.path(o["f"]))
        elif k == "hload":
            self.his.append(LCEModelParamHistory.from_file(self.path(o["f"])))
        elif k == "list":
            p = self.path(o["f"])
            data = [q.as_dict() for q in self.his[o["s2"] - 1].history]
            if ".json" in p:
                write_json(p, data)
            else:
                from monty.serialization import dumpfn

                dumpfn(json.loads(json.dumps(data)), p)
        elif k == "junk":
            with open(self.path(o["f"]), "w") as fh:
                fh.write(r.choice(["{", "[{\"keci\": [1.0", "\"text\"", "3"]))
        elif k == "fit":
            self.fit(o)

    def step(self, o, ops):
        n, m = len(self.rec), len(self.his)
        try:
            self.do(o)
            ok = True
        except Exception as exc:  # noqa: BLE001
            del self.rec[n:]
            del self.his[m:]
            ok = False
            o["why"] = describe(exc)
        ops.append(dict(o, q=self.look(ok)))
        return ok


def finish(w, tid, ops, raised):
    for path, _ in w.names.values():
        if os.path.exists(path):
            os.unlink(path)
    return {"id": tid, "names": sorted(w.names), "ops": ops, "raised": raised}


def random_history(seed, k):
    r = rng_for(seed, "params", k)
    w = World(r, {"p": (r.choice(["p.json", "p.yaml", "p.json.gz", "p.yml"]), "rec"), "q": ("q.json", "rec"),
                  "h": (r.choice(["h.json", "h.yaml"]), "his"), "i": ("i.json", "his")})
    ops, raised = [], ""
    kinds = {}
    try:
        for _ in range(r.randint(6, 18)):
            k2 = r.choice(["new", "dict", "save", "load", "hnew", "append", "append", "hdict", "hsave", "hload", "list", "junk", "fit", "fit", "fit"])
            o = dict(BLANK, k=k2)
            if k2 in ("dict", "save", "append"):
                if not w.rec:
                    continue
                o["s"] = r.randint(1, len(w.rec))
            if k2 in ("append", "hdict", "hsave", "list"):
                if not w.his:
                    continue
                o["s2"] = r.randint(1, len(w.his))
            if k2 in ("save", "load"):
                o["f"] = r.choice("pq")
            if k2 in ("hsave", "hload", "list", "junk"):
                o["f"] = r.choice("hi")
            if k2 == "junk" and (r.random() < 0.5 or not w.path(o["f"]).endswith(".json")):
                continue
            if k2 == "fit":
                o.update(f=r.choice(["", "p", "q"]), h=r.choice(["", "h", "h", "i"]), key="d%d" % r.randint(1, 4), fits=r.random() < 0.85)
                o["key"] += "" if o["fits"] else "x"
                if kinds.get(o["h"]) == "junk":
                    o["f"] = ""
            ok = w.step(o, ops)
            if ok and k2 in ("hsave", "list", "junk"):
                kinds[o["f"]] = k2
    except Exception as exc:  # noqa: BLE001
        raised = describe(exc)
    return finish(w, "params:%d:%d" % (seed, k), ops, raised)


def generated(k, cmds):
    r = rng_for("params-gen", k)
    w = World(r, {"p": (r.choice(["p.json", "p.yaml"]), "rec"), "h": ("h.json", "his")})
    ops, raised = [], ""
    try:
        for o in cmds:
            o = dict(BLANK, **o)
            if o["k"] == "fit" and not o["fits"]:
                o["key"] += "x"
            w.step(o, ops)
    except Exception as exc:  # noqa: BLE001
        raised = describe(exc)
    return finish(w, "params-gen:%d" % k, ops, raised)


if __name__ == "__main__":
    a = args()
    if a.inp:
        out = [generated(k, c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
