"""Runs of the same and of different simulations through every entry point, in one directory, and the files they leave."""
import contextlib
import csv
import gzip
import io
import shutil
import subprocess

from files import *  # noqa: F401,F403
from kmc_engine import Case, start_occ
from lib import *  # noqa: F401,F403

import kmcpy
from kmcpy.io.cif import load_labeled_structure_from_cif
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State

HERE = os.path.dirname(os.path.abspath(__file__))


def cb_scalar(state, step, time):
    return int(sum(state.occupations)) * 1000 + step


def cb_array(state, step, time):
    return np.array(state.occupations, dtype=np.int64) * 2


def cb_mixed(state, step, time):
    return {"occ": tuple(state.occupations), 3: np.float64(time), "none": None, "nested": [{"a": np.arange(2)}], "flag": True}


def cb_text(state, step, time):
    return "s%d" % step


CALLS = ["cb_scalar", "cb_array", "cb_mixed", "cb_text"]


def hx(x):
    x = float(x)
    return "nan" if math.isnan(x) else x.hex()


def safe(v):
    """What a callback value looks like in JSON, written down independently of the writer."""
    if isinstance(v, dict):
        return {str(k): safe(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [safe(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return "float:" + hx(v)
    return v


def dump(x):
    return json.dumps(x, sort_keys=True)


def result_of(tracker):
    recs = tracker.get_property_records()
    flat = [[r["name"], int(r["step"]), hx(r["time"]), safe(r["value"])] for n in recs for r in recs[n]]
    st = tracker.state
    return {"disp": dump([[hx(x) for x in row] for row in np.atleast_2d(np.asarray(tracker.displacement))]),
            "hops": dump([hx(x) for x in tracker.hop_counter]), "occ": dump([hx(x) for x in st.occupations]),
            "rows": dump({k: [hx(x) for x in v] for k, v in tracker.results.items()}),
            "units": dump(dict(tracker.result_units)), "recs": dump(flat) if flat else "",
            "end": state_token(st)}


def state_token(st):
    return dump([[int(x) for x in st.occupations], hx(st.time), int(st.step)])


def parse(path):
    name = os.path.basename(path)
    try:
        with gzip.open(path, "rt", encoding="utf-8") as fh:
            text = fh.read()
        if name.endswith(".json.gz"):
            d = json.loads(text)
            if name.startswith("properties"):
                return dump([[x["name"], x["step"], hx(x["time"]), safe(x["value"])] for x in d])
            return dump(d)
        rows = list(csv.reader(io.StringIO(text)))
        if name.startswith("results"):
            return dump({h: [hx(x[c] or "nan") for x in rows[1:]] for c, h in enumerate(rows[0])})
        if name.startswith("displacement"):
            return dump([[hx(x) for x in row] for row in rows])
        return dump([hx(row[0]) if len(row) == 1 else "?" for row in rows])
    except Exception as exc:  # noqa: BLE001
        return "unreadable: " + exc_name(exc)


def listing():
    return [{"n": f, "tok": parse(f)} for f in sorted(os.listdir(".")) if f.endswith(".gz")]


def from_files(files, label, passes):
    """The result a command-line run reports through its files."""
    d = {f["n"]: f["tok"] for f in files}
    p = "%s_%d" % (label, passes - 1) if label else str(passes - 1)
    s = "_" + label if label else ""
    return {"disp": d.get("displacement_%s.csv.gz" % p, ""), "hops": d.get("hop_counter_%s.csv.gz" % p, ""),
            "occ": d.get("current_occ_%s.csv.gz" % p, ""), "rows": d.get("results%s.csv.gz" % s, ""),
            "units": d.get("results_units%s.json.gz" % s, ""), "recs": d.get("properties%s.json.gz" % s, ""), "end": "?"}


class Subject:
    """A simulation a user may start in several ways."""

    def __init__(self, r, name, callbacks=None):
        while True:
            self.case = Case(r, via_cif=True)
            occ = start_occ(r, self.case)
            if occ is not None:
                break
        self.name = name
        self.base = write_inputs(self.case, name)
        self.how = r.choice(["active", "full", "file"])
        self.occ = occ
        s = self.case.s
        given = {}
        if self.how == "file":
            write_json("i-%s.json" % name, {"occupation": occ_full(r, s, occ)})
            given["initial_state_file"] = "i-%s.json" % name
        else:
            given["initial_occupations"] = list(occ) if self.how == "active" else occ_full(r, s, occ)
        n = r.randint(0, 3) if callbacks is None else callbacks
        calls = [{"callable": ("runs:%s" if r.random() < 0.5 else "runs.%s") % c} for c in r.sample(CALLS, n)]
        for c in calls:
            if r.random() < 0.5:
                c["interval"] = r.randint(1, 3)
            if r.random() < 0.3:
                c["max_records"] = r.randint(1, 3)
        self.fields = dict(self.base, **given, equilibration_passes=r.choice([0, 1, 2]), random_seed=r.choice([0, 1, r.randint(2, 2**31)]),
                           temperature=r.choice([300.0, 600.0, 1000.0]), attempt_frequency=r.choice([1e13, 5e12]),
                           property_callbacks=calls, mobile_ion_charge=r.choice([1.0, 2.0]), dimension=r.choice([1, 2, 3]))
        if r.random() < 0.5:
            self.fields["property_sampling_interval"] = r.randint(1, 4)
        if r.random() < 0.3:
            self.fields["builtin_property_enabled"] = {"msd": False, "conductivity": True}

    def objects(self, cfg):
        """The same simulation from objects made by hand."""
        st = load_labeled_structure_from_cif(self.base["structure_file"])
        order = ActiveSiteOrder.from_structure_and_mapping(st, self.case.s.mapping, supercell_shape=self.case.s.shape)
        return KMC(structure=order.active_structure(), model=self.case.model(), event_lib=make_lib(self.case.evs, order), config=cfg,
                   simulation_state=State(occupations=list(self.occ)), active_site_order=order,
                   hop_state_lookup=HopStateLookup.from_active_site_order(order, cfg.mobile_ion_specie))

    def config(self, label, passes, change):
        return config_for(self.case.s, **dict(self.fields, name=label, kmc_passes=passes, **change))


def replay(tid, subjects, ops):
    t = {"id": tid, "ops": [], "raised": ""}
    objs = []
    try:
        for o in ops:
            o = dict(o)
            if o["k"] == "again":
                if not 1 <= o["s"] <= len(objs) or objs[o["s"] - 1] is None:
                    continue
                kmc, key, passes = objs[o["s"] - 1]
                start = state_token(kmc.simulation_state)
                tracker = kmc.run(label=o["label"])
                res = result_of(tracker)
                o.update(passes=passes)
            else:
                sub = subjects[o["key"]]
                change = o.get("change", {})
                cfg = sub.config(o["label"], o["passes"], change)
                key = dump([sub.name, o["passes"], change])
                start = dump([[int(x) for x in sub.occ], hx(0.0), 0])
                if o["via"] == "resume":   # an equal simulation, from a checkpoint of one that has run
                    if not 1 <= o["s"] <= len(objs) or objs[o["s"] - 1] is None:
                        continue
                    old, key, o["passes"] = objs[o["s"] - 1]
                    start = state_token(old.simulation_state)
                    old.simulation_state.save_checkpoint("ck.json")
                    cfg = old.config.with_system_changes(initial_occupations=None, initial_state_file="ck.json")
                    cfg = cfg.with_runtime_changes(name=o["label"])
                obj, tracker = None, None
                via = o["via"]
                if via == "api":
                    tracker = kmcpy.run(cfg)
                elif via == "apilabel":
                    tracker = kmcpy.run(sub.config("other", o["passes"], change), label=o["label"] or None) if o["label"] else kmcpy.run(cfg)
                elif via in ("kmc", "resume"):
                    kmc = KMC.from_config(cfg)
                    tracker = kmc.run()
                    obj = (kmc, key, o["passes"])
                elif via == "objects":
                    kmc = sub.objects(cfg)
                    tracker = kmc.run()
                    obj = (kmc, key, o["passes"])
                else:
                    inp = "in-%s.%s" % (sub.name, {"cli": "json", "cliyaml": "yaml", "clisec": "yaml", "proc": "json"}[via])
                    if os.path.exists(inp):
                        os.unlink(inp)
                    cfg.to(inp, include_loader_paths=True, **({"section": "kmc", "task_type": "default"} if via == "clisec" else {}))
                    if via == "proc":
                        env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONHASHSEED=str(o.get("hash", 5)))
                        p = subprocess.run([sys.executable, "-m", "kmcpy.cli.run_kmc", "--input", inp], env=env,
                                           capture_output=True, text=True)
                        if p.returncode:
                            raise RuntimeError("command line run failed")
                    else:
                        cli(["--input", inp])
                if tracker is not None:
                    res = result_of(tracker)
                else:
                    res = None
                objs.append(obj)
            files = listing()
            if res is None:
                res = from_files(files, o["label"], o["passes"])
                if not sub.fields["property_callbacks"]:
                    res["recs"] = ""
            t["ops"].append({"k": o["k"], "s": o["s"], "key": key, "start": start, "label": o["label"],
                             "passes": o["passes"], "res": res, "files": files})
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


def cli(argv):
    from kmcpy.cli import run_kmc

    saved = sys.argv
    sys.argv = ["run_kmc"] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run_kmc.main()
    finally:
        sys.argv = saved


@contextlib.contextmanager
def folder(name):
    os.makedirs(name)
    back = os.getcwd()
    os.chdir(name)
    try:
        yield
    finally:
        os.chdir(back)
        shutil.rmtree(os.path.join(back, name))


def generated(k, ops):
    with folder("g%d" % k):
        r = rng_for(1, "runs-gen", k % 7)
        subjects = {"x": Subject(r, "x", callbacks=2), "y": Subject(r, "y", callbacks=0)}
        return replay("gen:%d" % k, subjects, ops)


def random_history(seed, k):
    r = rng_for(seed, "runs", k)
    with folder("r%d" % k):
        subjects = {n: Subject(r, n) for n in ["x", "y"][:r.randint(1, 2)]}
        changes = {n: [{}, {"random_seed": r.randint(0, 9)}, {"temperature": 450.0}] for n in subjects}
        ops, made = [], 0
        plan = [(n, c, r.randint(1, 3)) for n in subjects for c in range(r.randint(1, 2))]
        for _ in range(r.randint(3, 7)):
            label = r.choice(["", "a", "a_1", "run", "x.y", "A b"])
            if made and r.random() < 0.3:
                q = r.randint(1, made)
                if r.random() < 0.6:
                    ops.append({"k": "run", "s": q, "via": "resume", "key": plan[0][0], "label": "ck", "passes": 1, "change": {}})
                    made += 1
                ops.append({"k": "again", "s": q, "label": label, "passes": 1})
                continue
            n, c, p = r.choice(plan)
            ops.append({"k": "run", "s": 0, "via": r.choice(["api", "apilabel", "kmc", "objects", "cli", "cliyaml", "clisec"]),
                        "key": n, "label": label, "passes": p, "change": changes[n][c]})
            made += 1
        if k % 20 == 0:
            n, c, p = plan[0]
            for v, h in (("kmc", 0), ("proc", 1), ("proc", 77)):
                ops.append({"k": "run", "s": 0, "via": v, "key": n, "label": "p%d" % h, "passes": p, "change": changes[n][c], "hash": h})
        return replay("runs:%d:%d" % (seed, k), subjects, ops)


if __name__ == "__main__":
    a = args()
    if a.inp:
        out = [generated(k, c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
