"""Real fitting data: loaders, the files they write, and fits."""
from lib import *  # noqa: F401,F403

import shutil
import tempfile

import clusterexp as ce
from kmcpy.io.neb import NEBDataLoader, NEBEntry
from kmcpy.models.fitting.fitter import LCEFitter
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

NAMES = ["d1", "d2", "j1"]
NOP = {"x": [], "y": [], "w": [], "s": [], "alpha": 0}
BLANK = {"k": "", "l": 1, "items": [], "whole": True, "w": [], "nw": 0, "d": "d1", "ok": True, "fitted": False, "P": NOP, "norm": False, "c": [],
         "b": 0, "pred": [], "truth": True, "rmse": 0, "loocv": 0, "folds": []}
tok = lambda v: float(v).hex()  # noqa: E731
clip = lambda v, m: int(max(-m, min(m, round(float(v))))) if v == v else m  # noqa: E731


def scales(x, w, norm):
    x, w = np.array(x, float), np.array(w, float)
    if not norm:
        return [100] * x.shape[1]
    s = np.sqrt(((x - np.average(x, axis=0, weights=w)) ** 2).sum(axis=0))
    return [100 if v < 1e-9 else int(round(100 * v)) for v in s]


def fit_op(o, fit, x, y, w, alpha8, norm, folds=True):
    """Fit whole-number data; `fit` maps keyword arguments to the fitter's answer."""
    x, y, w = [[int(v) for v in row] for row in x], [int(v) for v in y], [int(v) for v in w]
    p, pred, true = fit()
    o.update(k="fit", fitted=True, P={"x": x, "y": y, "w": w, "s": scales(x, w, norm), "alpha": alpha8}, norm=norm,
             c=[clip(1000 * v, 1200000) for v in p.keci], b=clip(1000 * p.empty_cluster, 3000000),
             pred=[clip(10 * v, 9000) for v in np.atleast_1d(pred)], rmse=clip(10 * p.rmse, 9000), loocv=clip(10 * p.loocv, 15000),
             truth=[float(v) for v in np.atleast_1d(true)] == [float(v) for v in y] and len(p.keci) == len(x[0]))
    if folds:
        for k in range(len(y)):
            xx, yy = x[:k] + x[k + 1:], y[:k] + y[k + 1:]
            np.savetxt("fx", np.array(xx, float)), np.savetxt("fy", np.array(yy, float)), np.savetxt("fw", np.ones(len(yy)))
            q = LCEFitter().fit(alpha=alpha8 / 8, ekra_fname="fy", keci_fname="fk", weight_fname="fw", corr_fname="fx",
                                lce_params_fname=None, lce_params_history_fname=None, normalize=norm)[0]
            o["folds"].append({"c": [clip(1000 * v, 1200000) for v in q.keci], "b": clip(1000 * q.empty_cluster, 3000000),
                               "s": scales(xx, [1] * len(yy), norm)})
    return o


def data(r):
    cols, rows = r.choice([1, 1, 2, 2, 3, 4]), r.randint(3, 6)
    x = [[r.randint(-4, 4) for _ in range(cols)] for _ in range(rows)]
    if r.random() < 0.3:
        j = r.randrange(cols)
        for row in x:
            row[j] = x[0][j]
    slope = [r.choice([0, 10, -20, 15]) for _ in range(cols)]
    y = [max(0, min(300, 150 + sum(a * b for a, b in zip(row, slope)) + r.randint(-60, 60))) for row in x]
    w = [r.choice([1, 1, 2, 3]) for _ in range(rows)] if r.random() < 0.7 else [1] * rows
    return x, y, w


class World(ce.World):
    def __init__(self, seed, k):
        ce.World.__init__(self, seed * 17 + 3, k)
        r = self.r
        self.lces = []        # (model, reference to pass, signature)
        for _ in range(12):
            if len(self.lces) >= 4:
                break
            if self.env_op() is None or not self.envs:
                continue
            e = self.envs[-1]
            if any(e is x[3] for x in self.lces) or len(e.site_indices) > 6:
                continue
            for cut in r.sample([[5, 0, 0], [4, 3, 0], [6, 4, 3], [0, 0, 0]], 2):
                m = LocalClusterExpansion()
                m.build(e, cutoff_cluster=cut)
                if not 0 < len(m.cluster_site_indices) <= 30:
                    continue
                sig = str((m.get_orbit_fingerprints(), str(m.local_environment_hash)))
                self.lces.append((m, None, sig, e))
                if r.random() < 0.3:
                    self.lces.append((LocalClusterExpansion.from_dict(json.loads(json.dumps(m.as_dict()))), e, sig, e))
        self.ld, self.entries, self.born = [], [], 0

    def struct(self):
        r = self.r
        for _ in range(20):
            st = self.structure(self.atoms())
            if st is not None:
                break
        else:
            return None
        if r.random() < 0.12:
            st = st.copy()
            if r.random() < 0.5:
                st.append("Xe", [0.013, 0.417, 0.291])
            else:
                st.replace(0, "Ar")
        return st

    def item(self, lce, st, y, meta):
        m, ref, sig, _ = lce
        it = {"f": [], "q": "", "y": tok(y), "m": json.dumps(meta or {}, sort_keys=True), "ok": True, "sig": sig}
        try:
            occ, corr = m.get_occ_corr_from_structure(st, reference_local_lattice_structure=ref)
            it.update(f=[tok(v) for v in corr], q=str([int(v) for v in occ.values]))
        except Exception:  # noqa: BLE001
            it["ok"] = False
        return it

    def y(self):
        r = self.r
        return r.choice([r.randint(0, 300), float(r.randint(0, 300)), r.uniform(0, 900)]) if r.random() < 0.3 else r.randint(0, 300)

    def rows(self, c, q, y, m):
        return [{"f": [tok(v) for v in a], "q": str([int(v) for v in b]), "y": tok(v), "m": json.dumps(u or {}, sort_keys=True)}
                for a, b, v, u in zip(c, q, y, m, strict=True)]

    def look(self):
        ld, dr = [], {}
        for loader, _, _ in self.ld:
            if len(loader) == 0:
                ld.append([])
            else:
                ld.append(self.rows(loader.get_correlation_matrix(), loader.get_occupation_matrix(), loader.get_properties(),
                                    [e.metadata for e in loader.neb_entries]))
                loader.get_correlation_matrix()[:] = 7
                loader.get_properties()[:] = 7
        for n in NAMES:
            dr[n] = {"kind": "none", "rows": [], "w": []}
            if n[0] == "j":
                if os.path.exists(n + "/set.json"):
                    j = json.load(open(n + "/set.json"))
                    dr[n] = {"kind": "json", "w": [], "rows": self.rows(j["correlation_matrix"], j["occupation_matrix"], j["properties"], j["metadata"])}
                    if j["n_structures"] != len(dr[n]["rows"]):
                        dr[n]["kind"] = "count"
            elif os.path.isdir(n) and os.listdir(n):
                c = np.loadtxt(n + "/c.txt", ndmin=2)
                y, w = np.loadtxt(n + "/y.txt", ndmin=1), np.loadtxt(n + "/w.txt", ndmin=1)
                if len(c) != len(y) and len(c) == 1:
                    c = c.T
                dr[n] = {"kind": "inputs" if len(c) == len(y) == len(w) else "mixed", "w": [tok(v) for v in w],
                         "rows": [{"f": [tok(v) for v in a], "y": tok(b)} for a, b in zip(c, y)]}
        return {"ld": ld, "dir": dr}

    def add(self, o):
        r = self.r
        l = r.randrange(len(self.ld))
        loader, own, _ = self.ld[l]
        o.update(k="add", l=l + 1)
        lce = own if own is not None and r.random() < 0.8 else r.choice(self.lces)
        m, ref, sig, _ = lce
        kw = {}
        if own is None or lce is not own:
            kw = dict(model=m)
            if ref is not None or self.ld[l][2]:
                kw["reference_local_lattice_structure"] = lce[3]
        self.used = lce
        form = r.choice(["one", "path", "entry", "again", "many", "many"])
        st = self.struct()
        if st is None:
            return None
        y = self.y()
        meta = r.choice([None, {}, {"tag": r.choice("abc")}, {"n": r.randint(0, 5), "deep": [1, 2]}])
        if form == "again" and self.entries:
            entry, st, y, meta = r.choice(self.entries)
            o["items"] = [self.item(lce, st, y, meta)]
            call = lambda: loader.add(entry, **kw)  # noqa: E731
        elif form == "entry" or form == "again":
            entry = NEBEntry(st, y, metadata=meta) if r.random() < 0.5 else NEBEntry.from_structure(st, y, metadata=meta)
            self.entries.append((entry, st, y, meta))
            o["items"] = [self.item(lce, st, y, meta)]
            call = lambda: loader.add(entry, **kw)  # noqa: E731
            if r.random() < 0.1:
                o["whole"] = False
                call = lambda: loader.add({"structure": st}, **kw)  # noqa: E731
        elif form == "one":
            o["items"] = [self.item(lce, st, y, meta)]
            mine = dict(meta) if meta is not None else None
            def call():
                loader.add_structure(st, y, metadata=mine, **kw)
                if mine is not None:
                    mine["late"] = 1
        elif form == "path":
            name = os.path.abspath("st%d.json" % r.getrandbits(40))
            st.to(filename=name)
            o["items"] = [self.item(lce, st, y, dict(meta or {}, structure_file=name))]
            call = lambda: loader.add_structure(name, y, metadata=meta, **kw)  # noqa: E731
        else:
            n = r.randint(1, 4)
            sts = [x for x in [self.struct() for _ in range(n)] if x is not None]
            ys = [self.y() for _ in sts]
            metas = [{"i": j} for j in range(len(sts))] if r.random() < 0.5 else None
            o["items"] = [self.item(lce, s, v, metas[j] if metas else None) for j, (s, v) in enumerate(zip(sts, ys))]
            if r.random() < 0.2:
                o["whole"] = False
                if r.random() < 0.5 or metas is None:
                    ys = ys + [1.0] if r.random() < 0.5 or len(ys) < 2 else ys[:-1]
                else:
                    metas = metas[:-1]
            call = lambda: loader.add_structures(r.choice([list, tuple])(sts), ys, metadata=metas, **kw)  # noqa: E731
        return call

    def create(self, o, l):
        """A loader made from structures at once: as a new loader followed by adding them."""
        r = self.r
        lce = self.used = self.ld[l - 1][1]
        sts = [x for x in [self.struct() for _ in range(r.randint(1, 4))] if x is not None]
        ys = [self.y() for _ in sts]
        metas = [{"i": j, "b": r.randint(0, 9)} for j in range(len(sts))] if r.random() < 0.6 else None
        items = [self.item(lce, s, v, metas[j] if metas else None) for j, (s, v) in enumerate(zip(sts, ys))]
        if not all(x["ok"] for x in items):
            return None
        o.update(k="add", l=l, items=items)
        if sts and r.random() < 0.1:
            o["whole"], ys = False, ys + [1.0]
        def call():
            kw = {} if lce[1] is None else dict(reference_local_lattice_structure=lce[1])
            self.ld[l - 1][0] = NEBDataLoader.from_structures(sts, ys, model=lce[0], metadata=metas, **kw)
        return call

    def settle(self, o):
        """The loader goes on with the model it last used."""
        if o["k"] == "add" and self.used is not self.ld[o["l"] - 1][1]:
            self.ld[o["l"] - 1][1] = None

    def op(self):
        r = self.r
        o = json.loads(json.dumps(BLANK))
        k = r.choice(["add"] * 6 + ["write", "write", "json", "fit", "fit"])
        if not self.ld or (k == "add" and len(self.ld) < 3 and r.random() < 0.2):
            o["k"] = "loader"
            own = r.choice(self.lces + [None])
            kw = {} if own is None else dict(model=own[0], reference_local_lattice_structure=own[1])
            self.ld.append([NEBDataLoader(**kw), own, own is not None])
            if own is not None and r.random() < 0.5:
                self.born = len(self.ld)
            return o, (lambda: None)
        if self.born:
            l, self.born = self.born, 0
            call = self.create(o, l)
            if call is not None:
                return o, call
        if k == "add":
            call = self.add(o)
            return None if call is None else (o, call)
        l = r.randrange(len(self.ld))
        loader = self.ld[l][0]
        o.update(k=k, l=l + 1)
        n = len(loader)
        if k == "json":
            o["d"] = "j1"
            return o, (lambda: loader.to("j1", prefix="set"))
        if k == "write":
            o["d"] = r.choice(["d1", "d2"])
            if r.random() < 0.3:
                w = r.choice([1, 2.0, 0.5])
                o.update(w=[tok(w)] * n, nw=n)
            else:
                w = [r.choice([1, 2, 3]) for _ in range(n)]
                if r.random() < 0.25:
                    w = w + [2] if r.random() < 0.5 or n < 2 else w[:-1]
                o.update(w=[tok(v) for v in w], nw=len(w))
                w = r.choice([list, tuple, np.array])(w)
            return o, (lambda: loader.write_fitting_inputs(o["d"], w, corr_fname="c.txt", ekra_fname="y.txt", weight_fname="w.txt"))
        o["d"] = d = r.choice(["d1", "d2"])
        if not os.path.exists(d + "/c.txt"):
            return None
        x, y, w = (np.loadtxt(d + "/" + f, ndmin=k) for f, k in (("c.txt", 2), ("y.txt", 1), ("w.txt", 1)))
        if not (3 <= len(y) <= 6) or x.shape[1] > 4 or len(x) != len(y) or np.abs(x).max() > 6 or y.max() > 300:
            return None
        if any(np.abs(v - np.round(v)).max() > 0 for v in (x, y, w)) or w.max() > 3:
            return None
        a8, norm = r.choice([4, 8, 16, 48, 120, 240, 400]), r.random() < 0.6
        kw = dict(alpha=a8 / 8, corr_fname=d + "/c.txt", ekra_fname=d + "/y.txt", weight_fname=d + "/w.txt", keci_fname="k.txt", lce_params_fname=None,
                  lce_params_history_fname=None, normalize=norm)
        return o, (lambda: fit_op(o, lambda: LCEFitter().fit(**kw), x.tolist(), y, w, a8, norm))


def direct(seed, k):
    r = rng_for(seed, "fitdirect", k)
    t = {"id": "fit:%d:%d" % (seed, k), "names": NAMES, "ops": [], "raised": ""}
    empty = {"ld": [], "dir": {n: {"kind": "none", "rows": [], "w": []} for n in NAMES}}
    try:
        for _ in range(3):
            x, y, w = data(r)
            a8, norm = r.choice([4, 8, 16, 48, 120, 240, 400]), r.random() < 0.6
            np.savetxt("x", np.array(x, float)), np.savetxt("y", np.array(y, float)), np.savetxt("w", np.array(w, float))
            kw = dict(alpha=a8 / 8, corr_fname="x", ekra_fname="y", weight_fname="w", keci_fname="k.txt", lce_params_fname=None,
                      lce_params_history_fname=None)
            if not (norm and r.random() < 0.5):
                kw["normalize"] = norm
            f = r.choice([lambda: LCEFitter().fit(**kw), lambda: LocalClusterExpansion().fit(**kw)])
            o = json.loads(json.dumps(BLANK))
            t["ops"].append(dict(fit_op(o, f, x, y, w, a8, norm), q=empty))
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


def trial(seed, k):
    w = World(seed, k)
    while len(w.lces) < 2:
        k += 100003
        w = World(seed, k)
    t = {"id": "loader:%d:%d" % (seed, k), "names": NAMES, "ops": [], "raised": ""}
    try:
        for _ in range(w.r.randint(8, 18)):
            got = w.op()
            if got is None:
                continue
            o, call = got
            try:
                call()
            except Exception as exc:  # noqa: BLE001
                if o["k"] in ("fit", "loader"):
                    raise
                o["ok"] = False
                o["why"] = describe(exc)
            w.settle(o)
            t["ops"].append(dict(o, q=w.look()))
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    out = []
    for k in range(a.n):
        here = os.getcwd()
        tmp = tempfile.mkdtemp()
        os.chdir(tmp)
        try:
            out.append(trial(a.seed, k) if a.mode == "loader" else direct(a.seed, k))
        finally:
            os.chdir(here)
            shutil.rmtree(tmp)
    write_json(a.out, out)
