"""Real models and model files: built, combined, saved, edited, loaded and dispatched."""
import gzip
import hashlib
import types

import barrier
import composite
from kmcsys import *  # noqa: F401,F403
from lib import *  # noqa: F401,F403

from kmcpy.models.base import BaseModel
from kmcpy.models.composite_lce_model import CompositeLCEModel
from kmcpy.models.local_barrier_model import LocalBarrierModel
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
from kmcpy.models.parameters import LCEModelParameters
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.simulator.config import RuntimeConfig
from kmcpy.simulator.state import State
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

CLS = {"lce": LocalClusterExpansion, "local_barrier": LocalBarrierModel, "site_energy": SiteEnergyModel,
       "composite_lce": CompositeLCEModel}
FILES = {"f": "f.json", "g": "g.json.gz", "h": "h.json"}
FORMS = {"lce": ["bare", "moved", "unknown"],
         "local_barrier": ["bare", "moved", "unknown", "envelope", "foreign", "untyped", "wrongtype", "nosuch"],
         "site_energy": ["bare", "moved", "unknown", "envelope", "foreign", "untyped", "wrongtype", "nosuch"],
         "composite_lce": ["envelope", "foreign", "untyped", "wrongtype", "nosuch"]}
BLANK = {"k": "", "s": 1, "s2": 0, "f": "f", "cls": "", "tok": "", "par": {"id": "", "n": 0, "order": "", "env": ""}}


def environments(r):
    """Three local environments of equal size that are not interchangeable."""
    while True:
        L = r.choice([2, 3, 3, 4])
        pts = [[0.0, 0.0, 0.0]]
        sp = ["Na"]
        names = [("Na", ["Na", "X", "Mg"]), ("Si", ["Si", "P", "Al", "Ge"] if r.random() < 0.4 else ["Si", "P", "Al"])]
        seen = {(0, 0, 0)}
        while len(pts) < L + 1:
            q = (r.randint(-2, 2), r.randint(-2, 2), r.randint(-2, 2))
            if q in seen:
                continue
            seen.add(q)
            pts.append([x / 10 for x in q])
            sp.append(r.choice(names)[0])
        basis = r.choice(["chebyshev", "chebyshev", "occupation"])
        out = []
        for scale, swap in ((10.0, False), (12.5, False), (10.0, True)):
            sps = [{"Na": "Si", "Si": "Na"}[x] if swap and k else x for k, x in enumerate(sp)]
            st = Structure(Lattice.cubic(scale), sps, [[x % 1.0 for x in p] for p in pts])
            out.append(LocalLatticeStructure(template_structure=st, center=0, cutoff=0.42 * scale, basis_type=basis,
                                             site_mapping=dict(names), exclude_center_site=True))
        if len(set(len(x.site_indices) for x in out)) == 1 and len(out[0].site_indices) == L:
            return L, out


class World:
    def __init__(self, seed, k):
        r = self.r = rng_for(seed, "models", k)
        for _ in range(40):  # three environments whose features and site orders really are different
            self.L, self.envs = environments(r)
            fps = []
            for e in self.envs:
                m = LocalClusterExpansion()
                m.build(e, cutoff_cluster=[8.0, 8.0, 8.0])
                fps.append(tuple(m.get_orbit_fingerprints()))
            if len(set(fps)) == 3 and len({str(e.get_ordered_site_hash()) for e in self.envs}) == 3:
                break
        L = self.L
        while True:
            s = random_system(r, max_sites=9)
            if s.n <= L + 2:
                continue
            evs = random_events(r, s)
            evs = [(a, b, r.sample([i for i in range(s.n) if i not in (a, b)], L)) for a, b, _ in evs][:4]
            occ = random_occ(r, s)
            if available(s, occ, evs):
                break
        self.s, self.evs, self.occ = s, evs, occ
        self.lib = make_lib(evs, s.order)
        self.states = [occ] + [random_occ(r, s) for _ in range(2)]
        self.rc = RuntimeConfig(temperature=700.0, attempt_frequency=1e13)
        self.ident = {"A": 0, "B": 1, "C": 2}
        self.recipe = {}
        self.objs, self.kinds = [], []
        self.native = {}
        self.cnt = {}
        self.pars = 0
        self.tag = "%d-%d" % (seed, k)
        self.fps, self.hashes = {}, {}
        for t in "ABC":
            m = self.make("lce", t)
            self.cnt[t] = len(m.cluster_site_indices)
            self.fps[t] = m.get_orbit_fingerprints()
            self.hashes[t] = str(m.local_environment_hash)

    def path(self, f):
        return FILES[f]

    def make(self, cls, tok):
        r = rng_for(self.tag, cls, tok)
        if cls == "lce":
            m = LocalClusterExpansion()
            m.build(self.envs[self.ident[tok]], cutoff_cluster=[8.0, 8.0, 8.0])
            return m
        if cls == "local_barrier":
            kw = {"default_barrier": r.randint(100, 500)} if r.random() < 0.7 else {
                "default_properties": {"barrier": float(r.randint(100, 500)), "label": float(r.randint(100, 500))}}
            for key in ("default_property", "probability_property"):
                if r.random() < 0.35:
                    kw[key] = "label"
            m = LocalBarrierModel(name="m" + tok, site_species={
                i: {q: sp for q, sp in enumerate(self.s.allowed[i])} for i in range(self.s.n)}, **kw)
            for q in range(r.randint(1, 5)):
                kind, rule, _rec, _lab = barrier.make_rule(r, self.s, self.evs, q)
                try:
                    m.add_rule(rule)
                except (ValueError, TypeError):
                    pass
            return m
        kw, rt, _spec, _num = composite.random_ext(r, self.s, self.evs, self.occ)
        if "initial_occupation" in kw and r.random() < 0.3:
            kw["initial_occupation"] = np.array(kw["initial_occupation"])
        return SiteEnergyModel(compute_ref=r.choice(["sitefns:delta", "sitefns.delta_all"]), compute_kwargs={"factor": r.choice([0.5, 1.0])},
                               runtime_ref="sitefns:build", runtime_kwargs=rt, units=r.choice(["eV", "meV"]), name="s" + tok,
                               active_site_order=self.s.order if r.random() < 0.5 else None, **kw)

    # -- observation -----------------------------------------------------------
    def ask(self, m):
        out = []

        def put(fn):
            try:
                out.append(float(fn()).hex())
            except Exception as exc:  # noqa: BLE001
                out.append(exc_name(exc))

        for occ in self.states:
            st = State(occupations=list(occ))
            if isinstance(m, (SiteEnergyModel, CompositeLCEModel)):
                try:
                    m.initialize_state(simulation_state=st, event_lib=self.lib, structure=self.s.structure,
                                       active_site_order=self.s.order)
                except Exception as exc:  # noqa: BLE001
                    out.append("init " + exc_name(exc))
                    continue
            for e in self.lib.events:
                if isinstance(m, LocalBarrierModel):
                    put(lambda: m.compute(simulation_state=st, event=e, property_name="label"))
                if not isinstance(m, CompositeLCEModel):
                    put(lambda: m.compute(simulation_state=st, event=e))
                if not isinstance(m, (SiteEnergyModel, LocalClusterExpansion)):
                    put(lambda: m.compute_probability(event=e, runtime_config=self.rc, simulation_state=st))
        if isinstance(m, CompositeLCEModel):
            out.append(json.dumps([m.kra_fit_metadata, m.site_fit_metadata], sort_keys=True))
        elif isinstance(m, LocalClusterExpansion):
            out += [str(m.local_environment_hash), json.dumps(m.get_orbit_fingerprints())]
        else:
            out.append(m.name)
        return hashlib.sha1(json.dumps(out).encode()).hexdigest()[:16]

    def look(self, ok):
        return {"ok": ok, "obj": [self.ask(m) for m in self.objs],
                "cls": [next((k for k, c in CLS.items() if type(m) is c), "?") for m in self.objs]}

    def add(self, m):
        if isinstance(m, CompositeLCEModel) and not any(m is x for x in self.objs):
            self.objs.append(m.kra_model)
            self.kinds.append("lce")
            if m.site_model is not None:
                self.objs.append(m.site_model)
                self.kinds.append("lce" if isinstance(m.site_model, LocalClusterExpansion) else "site_energy")
        self.objs.append(m)
        self.kinds.append(next((k for k, c in CLS.items() if type(m) is c), "?"))

    def read(self, f):
        p = self.path(f)
        op = gzip.open if p.endswith(".gz") else open
        with op(p, "rt") as fh:
            return json.load(fh)

    def write(self, f, data):
        p = self.path(f)
        op = gzip.open if p.endswith(".gz") else open
        with op(p, "wt") as fh:
            json.dump(data, fh)

    def payload(self, kind, form, data):
        bare = {k: v for k, v in data.items() if k not in ("@module", "@class", "@version")}
        if form == "bare":
            return bare
        if form == "moved":
            return dict(data, **{"@module": self.r.choice(["kmcpy.old.place", "kmcpy.models.base", "kmcpy.models"])
                                 if kind == "none" else self.r.choice(["kmcpy.old.place", "kmcpy.models.base"])})
        if form == "unknown":
            return dict(data, **{"@class": "SomeOtherModel"})
        env = bare if kind == "composite_lce" else {
            "filetype": "kmcpy.model_file", "model_type": kind, CLS[kind].PAYLOAD_KEY: self.r.choice([bare, data])}
        env = dict(env)
        if form == "foreign":
            env["filetype"] = self.r.choice(["kmcpy.event_file", "other", ""])
        elif form == "untyped":
            if self.r.random() < 0.5:
                env.pop("model_type")
            else:
                env["model_type"] = self.r.choice(["", "  ", None])
        elif form == "wrongtype":
            env["model_type"] = self.r.choice([x for x in ("composite_lce", "local_barrier", "site_energy") if x != kind])
        elif form == "nosuch":
            env["model_type"] = "neural_net"
        return env

    # -- operations --------------------------------------------------------------
    def parameters(self, par):
        """Concrete parameters for an abstract record."""
        r = rng_for(self.tag, "par", par["id"])
        d = {"keci": [r.randint(-400, 400) / 8 for _ in range(par["n"])], "empty_cluster": r.randint(100, 900) / 4}

        def named(tok, table, shuffle):
            if "~" in tok:
                v = list(table[tok[0]])
                return v[1:] + v[:1]
            return table[tok]
        if par["order"]:
            d["orbit_fingerprints"] = list(named(par["order"], self.fps, True))
        if par["env"]:
            d["local_environment_hash"] = self.hashes[par["env"]]
        return d

    def do(self, o):
        k = o["k"]
        r = self.r
        if k == "make":
            self.add(self.make(o["cls"], o["tok"]))
        elif k == "set":
            d = self.parameters(o["par"])
            m = self.objs[o["s"] - 1]
            how = r.choice(["dict", "object", "file"])
            if how == "dict":
                m.set_parameters(d)
            else:
                p = LCEModelParameters(cluster_site_indices=[], weight=[1.0], alpha=0.5, time_stamp=1.0, time="now", rmse=0.0,
                                       loocv=0.0, **d)
                if how == "object":
                    m.set_parameters(p)
                else:
                    p.to("p.json")
                    m.load_parameters_from_file("p.json")
            d["keci"][0] += 1.0   # the caller's record is not the model's
        elif k == "compose":
            meta = {} if o["tok"] == "" else {"kra_fit_metadata": {"time_stamp": float(ord(o["tok"][0])), "time": o["tok"]},
                                              "site_fit_metadata": {"time_stamp": 1.5, "time": o["tok"]} if o["s2"] else None}
            m = CompositeLCEModel(kra_model=self.objs[o["s"] - 1], site_model=self.objs[o["s2"] - 1] if o["s2"] else None, **meta)
            self.objs.append(m)
            self.kinds.append("composite_lce")
        elif k == "save":
            self.objs[o["s"] - 1].to(self.path(o["f"]))
            self.native[o["f"]] = (self.kinds[o["s"] - 1], self.read(o["f"]))
        elif k == "dict":
            m = self.objs[o["s"] - 1]
            d = m.as_dict()
            if r.random() < 0.5:
                d = json.loads(json.dumps(d))
            self.add(type(m).from_dict(d))
        elif k == "edit":
            kind, data = self.native[o["f"]]
            self.write(o["f"], self.payload(kind, o["cls"], data))
        elif k == "load":
            self.add(CLS[o["cls"]].from_file(self.path(o["f"])))
        elif k == "dispatch":
            cfg = types.SimpleNamespace(model_file=self.path(o["f"]), model_type=o["cls"])
            self.add(BaseModel.from_config(cfg))

    def step(self, o, ops):
        before = len(self.objs)
        try:
            self.do(o)
            ok = True
        except (ValueError, TypeError, KeyError, AttributeError, FileNotFoundError, ImportError):
            del self.objs[before:]
            del self.kinds[before:]
            ok = False
        ops.append(dict(o, q=self.look(ok)))
        return ok

    def trace(self, tid, ops, raised):
        return {"id": tid, "names": list(FILES), "cnt": self.cnt, "ops": ops, "raised": raised}


def cleanup():
    for p in list(FILES.values()) + ["p.json"]:
        if os.path.exists(p):
            os.unlink(p)


def typed(kind, form):
    return form in ("envelope", "foreign", "untyped", "wrongtype", "nosuch") or (form == "native" and kind == "composite_lce")


def random_history(seed, k):
    cleanup()
    w = World(seed, k)
    r = w.r
    ops, raised = [], ""
    forms, lces, npar = {}, lambda: [i + 1 for i, x in enumerate(w.kinds) if x == "lce"], 0
    origin = {}
    try:
        w.step(dict(BLANK, k="make", cls="lce", tok=r.choice("ABC")), ops)
        origin[1] = ops[-1]["tok"]
        toks = [ops[-1]["tok"]]     # the environment each object was built for
        for _ in range(r.randint(10, 22)):
            if len(w.objs) > 12:
                break
            o = dict(BLANK, par=dict(BLANK["par"]))
            what = r.choice(["make", "set", "set", "compose", "compose", "save", "dict", "edit", "edit", "load", "dispatch", "dispatch"])
            n0 = len(w.objs)
            if what == "make":
                o.update(k="make", cls=r.choice(["lce", "lce", "local_barrier", "site_energy"]), tok=r.choice("ABC"))
            elif what == "set":
                s = r.choice(lces())
                own = toks[s - 1]
                other = r.choice([t for t in "ABC" if t != own])
                npar += 1
                par = {"id": "p%d" % npar, "n": w.cnt[own], "order": own, "env": own}
                v = r.randrange(16)
                if v == 0:
                    par.update(order="")
                elif v == 1:
                    par.update(order="", env="")
                elif v == 2:
                    par.update(env="")
                elif v == 3:
                    par.update(order=other)
                elif v == 4:
                    par.update(env=other)
                elif v == 5:
                    par.update(n=par["n"] + r.choice([-1, 1]), order=r.choice(["", own]))
                elif v == 6 and len(set(w.fps[own])) > 1:
                    par.update(order=own + "~")
                elif v == 7:
                    par.update(order=other, env="")
                if par["n"] == 0:
                    continue
                o.update(k="set", s=s, par=par)
            elif what == "compose":
                sites = [0] + [i + 1 for i, x in enumerate(w.kinds) if x in ("lce", "site_energy")]
                o.update(k="compose", s=r.choice(lces()), s2=r.choice(sites), tok=r.choice(["", "m", "n"]))
            elif what in ("save", "dict"):
                o.update(k=what, s=r.randint(1, len(w.objs)), f=r.choice(list(FILES)))
            else:
                if not w.native:
                    continue
                f = r.choice(sorted(w.native))
                kind = w.native[f][0]
                o.update(k=what, f=f)
                form = forms[f]
                if what == "edit":
                    o["cls"] = r.choice(FORMS[kind])
                elif what == "load":
                    pool = [kind, kind, "composite_lce"] + (["local_barrier", "site_energy"] if typed(kind, form) else [])
                    o["cls"] = r.choice(pool)
                    if form == "foreign" and o["cls"] == "site_energy":
                        continue
                else:
                    o["cls"] = r.choice([kind, kind, "local_cluster_expansion" if kind == "lce" else kind, "", "neural_net",
                                         "composite_lce"] if form == "bare" else
                                        ["", kind, "local_barrier", "neural_net", "lce"])
            ok = w.step(o, ops)
            if ok and o["k"] == "save":
                forms[o["f"]] = "native"
            if ok and o["k"] == "edit":
                forms[o["f"]] = o["cls"]
            # environments of the new objects, read off the objects themselves only for steering
            for m in w.objs[len(toks):]:
                h = str(getattr(m, "local_environment_hash", ""))
                toks.append(next((t for t in "ABC" if w.hashes[t] == h), "A"))
    except Exception as exc:  # noqa: BLE001
        raised = describe(exc)
    cleanup()
    return w.trace("models:%d:%d" % (seed, k), ops, raised)


WORLDS = {}


def generated(k, cmds):
    cleanup()
    w = WORLDS.get(k % 6) or WORLDS.setdefault(k % 6, World(0, k % 6))
    w.objs, w.kinds, w.native, w.r = [], [], {}, rng_for("models-gen", k)
    ops, raised = [], ""
    try:
        for o in cmds:
            o = dict(o)
            if o["k"] == "set":
                o["par"] = dict(o["par"], n=w.cnt[o["par"]["tok"]] + o["par"]["extra"])
            w.step(o, ops)
    except Exception as exc:  # noqa: BLE001
        raised = describe(exc)
    cleanup()
    return w.trace("models-gen:%d" % k, ops, raised)


if __name__ == "__main__":
    a = args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if a.inp:
        out = [generated(k, c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
