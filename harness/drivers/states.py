"""Histories of State objects and state files: TLC-generated (--inp), random, and resumed simulations."""
import index
from files import *  # noqa: F401,F403
from kmc_engine import Case, encode_rates, start_occ
from lib import *  # noqa: F401,F403

from monty.json import MontyDecoder
from kmcpy.event import Event
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from kmcpy.structure import ActiveSiteOrder

BLANK = {"s": 1, "f": "f", "occ": [], "time": "", "now": "", "step": 0, "a": 0, "b": 0, "codes": [], "kind": "",
         "shape": [1, 1, 1], "sel": []}


def tok(x):
    return float(x).hex()


def gen_case():
    return {"m": [[5, 0, 0], [0, 5, 0], [0, 0, 5]], "pts": [(0, 0, 0), (2, 0, 0), (0, 2, 0)], "species": ["Na", "O", "K"],
            "mapping": {"Na": ["Na", "X"], "O": "O", "K": ["Na", "X"]}, "shape": [2, 1, 1]}


def replay(tid, cs, ops, names):
    """ops carry float times under time/now; the trace carries their exact tokens."""
    t = {"id": tid, "names": names, "c": index.spec_case(cs), "ops": [], "raised": "", "pairs": []}
    order = index.build(cs)
    objs, args_, path = [], [], {f: "%s-%s.json" % (tid.replace(":", "-"), f) for f in names}
    last_dict = [None]
    try:
        for o in ops:
            ok = True
            try:
                k = o["k"]
                if k == "new":
                    arg = list(o["occ"]) if len(objs) % 2 else np.array(o["occ"])
                    objs.append(State(arg, time=o["time"], step=o["step"]))
                    args_.append(arg)
                elif k == "occs":
                    arg = list(o["occ"])
                    objs.append(State.from_occupations(arg, active_site_order=order, time=o["time"], step=o["step"]))
                    args_.append(arg)
                elif k == "copy":
                    objs.append(objs[o["s"] - 1].copy())
                elif k == "dict":
                    objs.append(State.from_dict(objs[o["s"] - 1].as_dict()))
                elif k == "json":
                    objs.append(json.loads(objs[o["s"] - 1].to_json(), cls=MontyDecoder))
                elif k == "save":
                    objs[o["s"] - 1].save_checkpoint(path[o["f"]])
                elif k == "write":
                    d = {"init": {"occupation": o["occ"]}, "bare": {"occupations": o["occ"]}, "other": {"values": o["occ"]}}[o["kind"]]
                    write_json(path[o["f"]], d)
                elif k == "load":
                    objs.append(State.load_checkpoint(path[o["f"]]) if o["time"] == 0.0 and o["step"] == 0
                                else State.from_file(path[o["f"]], time=o["time"], step=o["step"]))
                elif k == "plain":
                    objs.append(State.from_file(path[o["f"]], time=o["time"], step=o["step"]))
                elif k == "order":
                    objs.append(State.from_file(path[o["f"]], active_site_order=order, time=o["time"], step=o["step"]))
                elif k == "block":
                    objs.append(State.from_file(path[o["f"]], supercell_shape=o["shape"], select_sites=o["sel"],
                                                time=o["time"], step=o["step"]))
                elif k == "hop":
                    e = Event(mobile_ion_indices=(o["a"], o["b"]), local_env_indices=())
                    if o["codes"]:
                        e.hop_state_codes = tuple(o["ecodes"])
                    objs[o["s"] - 1].apply_event(e, o["dt"])
                elif k == "poke":
                    objs[o["s"] - 1].occupations[o["a"]] = o["b"]
                elif k == "argpoke":
                    for x in args_:
                        x[0] = 9
                elif k == "dictpoke":
                    d = objs[o["s"] - 1].as_dict()
                    d["occupations"][0] = 9
                    d["time"] = -1.0
            except (ValueError, IndexError, KeyError, TypeError, FileNotFoundError):
                ok = False
            q = {"ok": ok, "obj": [{"occ": [int(x) for x in s.occupations], "time": tok(s.time), "step": int(s.step)} for s in objs]}
            rec = {key: o.get(key, v) for key, v in BLANK.items()}
            rec.update(k=o["k"], q=q, time=tok(o.get("time", 0.0)), now=tok(o.get("now", 0.0)))
            t["ops"].append(rec)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    for p in path.values():
        if os.path.exists(p):
            os.unlink(p)
    return t


def generated(k, ops):
    times = {"t%d" % j: 0.1 * j + (1e-9 / 3) * j for j in range(8)}
    out = []
    for o in ops:
        o = dict(o, time=times[o["time"]], now=0.0)
        out.append(o)
    # waiting times are chosen here, the new time follows from the object's own time
    shadow, files = [], {}
    for o in out:
        k2 = o["k"]
        if k2 in ("new", "occs"):
            if k2 == "new" or len(o["occ"]) in (4, 6):
                shadow.append(o["time"])
        elif k2 in ("copy", "dict"):
            shadow.append(shadow[o["s"] - 1])
        elif k2 == "save":
            files[o["f"]] = ("ckpt", shadow[o["s"] - 1])
        elif k2 == "write":
            files[o["f"]] = (o["kind"], None)
        elif k2 in ("load", "order"):
            kd = files.get(o["f"], ("none", None))
            if kd[0] in ("ckpt", "bare") or kd[0] == "init" and k2 == "order":
                shadow.append(kd[1] if kd[0] == "ckpt" else o["time"])
        elif k2 == "block":
            kd = files.get(o["f"], ("none", None))
            if kd[0] in ("ckpt", "bare") or kd[0] == "init" and all(x < 3 for x in o["sel"]):
                shadow.append(kd[1] if kd[0] == "ckpt" else o["time"])
        elif k2 == "hop":
            o["dt"] = 0.1 / 3
            o["time"] = shadow[o["s"] - 1]
            o["now"] = shadow[o["s"] - 1] = o["time"] + o["dt"]
    return replay("gen:%d" % k, gen_case(), out, ["f", "g"])


def random_history(seed, k):
    r = rng_for(seed, "states", k)
    while True:
        cs = index.case(r)
        try:
            order = index.build(cs)
            break
        except ValueError:
            continue
    na, nf = order.active_site_count, order.original_site_count
    nprim, cells = order.primitive_site_count, nf // order.primitive_site_count
    allowed = [index.norm(cs["mapping"][cs["species"][p]]) for p in order.active_to_primitive]
    names = ["f", "g", "h"]
    ops, obj, files = [], [], {}

    def fits(v):
        return len(v) in (na, nf)

    def sel(v):
        return list(v) if len(v) == na else [v[x] for x in order.active_to_original]

    def when():
        return r.choice([0.0, r.random() * 10.0 ** r.randint(-14, 6), float(r.randint(0, 5)), 1e-13 / 3])

    def vals(n):
        return [r.randint(0, 3) for _ in range(n)]

    for _ in range(r.randint(4, 30)):
        kinds = ["new", "occs", "write"]
        if obj:
            kinds += ["copy", "dict", "json", "save", "save", "hop", "hop", "hop", "poke", "argpoke", "dictpoke"]
        kinds += ["load", "plain", "order", "order", "block"]
        kk = r.choice(kinds)
        o = dict(BLANK, k=kk, time=when(), now=0.0, step=r.choice([0, r.randint(1, 10**9)]), f=r.choice(names))
        s = r.randrange(len(obj)) if obj else 0
        o["s"] = s + 1
        if kk in ("new", "occs"):
            n = r.choice([na, na, nf, r.randint(1, nf + 1)])
            o["occ"] = vals(n)
            if kk == "new":
                obj.append([list(o["occ"]), o["time"], o["step"]])
            elif fits(o["occ"]):
                obj.append([sel(o["occ"]), o["time"], o["step"]])
        elif kk in ("copy", "dict", "json"):
            obj.append([list(obj[s][0]), obj[s][1], obj[s][2]])
        elif kk == "save":
            files[o["f"]] = ("ckpt", list(obj[s][0]), obj[s][1], obj[s][2])
        elif kk == "write":
            o["kind"] = r.choice(["init", "init", "bare", "other"])
            o["occ"] = vals(r.choice([na, nf, nf, r.randint(1, nf + 1)]))
            files[o["f"]] = (o["kind"], list(o["occ"]), None, None)
        elif kk in ("load", "plain", "order", "block"):
            if kk == "load" and r.random() < 0.6:
                o["time"], o["step"] = 0.0, 0
            fl = files.get(o["f"], ("none", [], None, None))
            if kk == "block":
                o["shape"] = list(cs["shape"])
                o["sel"] = sorted(r.sample(range(nprim), r.randint(1, nprim)))
                if r.random() < 0.3:
                    r.shuffle(o["sel"])
                if r.random() < 0.1:
                    o["sel"].append(nprim + 5)
                okk = fl[0] in ("ckpt", "bare") or fl[0] == "init" and len(fl[1]) % cells == 0 and all(
                    x < len(fl[1]) // cells for x in o["sel"])
                v = fl[1] if fl[0] != "init" or not okk else [fl[1][p * cells + q] for p in o["sel"] for q in range(cells)]
            elif kk == "order":
                okk = fl[0] in ("ckpt", "bare", "init") and fits(fl[1])
                v = sel(fl[1]) if okk else []
            else:
                okk, v = fl[0] in ("ckpt", "bare"), list(fl[1])
            if okk:
                obj.append([list(v)] + (list(fl[2:]) if fl[0] == "ckpt" else [o["time"], o["step"]]))
        elif kk == "hop":
            n = len(obj[s][0])
            if n < 2:
                continue
            a, b = r.sample(range(n), 2)
            o["a"], o["b"], o["dt"] = a, b, r.random() * 10.0 ** r.randint(-13, 0)
            o["time"] = obj[s][1]
            o["now"] = o["time"] + o["dt"]
            if r.random() < 0.6:
                fm, tv, fv, tm = r.sample(range(5), 2) + r.sample(range(5), 2)
                fm, fv = r.sample(range(4), 2)
                tm, tv = r.sample(range(4), 2)
                occ = obj[s][0]
                if r.random() < 0.5:
                    pre, post = (fm, tv), (fv, tm)
                else:
                    pre, post = (fv, tm), (fm, tv)
                for site, v in zip((a, b), pre):
                    ops.append(dict(BLANK, k="poke", s=s + 1, a=site, b=v, time=0.0, now=0.0))
                    occ[site] = v
                o["ecodes"] = [fm, tv, fv, tm]
                o["codes"] = list(post)
                occ[a], occ[b] = post
            else:
                occ = obj[s][0]
                occ[a], occ[b] = occ[b], occ[a]
            obj[s][1] = o["now"]
            obj[s][2] += 1
        elif kk == "poke":
            o["a"], o["b"] = r.randrange(len(obj[s][0])), r.randint(0, 3)
            obj[s][0][o["a"]] = o["b"]
        ops.append(o)
    return replay("states:%d:%d" % (seed, k), cs, ops, names)


def resumed(seed, k):
    """Stop a simulation, write a checkpoint, resume from files; compare with the one that went on."""
    r = rng_for(seed, "resume", k)
    while True:
        case = Case(r, via_cif=True)
        occ = start_occ(r, case)
        if occ is not None:
            break
    s = case.s
    tid = "resume:%d:%d" % (seed, k)
    t = {"id": tid, "names": ["f"], "c": {}, "ops": [], "raised": "", "pairs": []}
    tag = tid.replace(":", "-")
    ck = "c-%s.json" % tag
    try:
        base = write_inputs(case, tag)
        cfg = config_for(s, **base)
        a = case.kmc(cfg, State(occupations=occ, time=r.choice([0.0, 1e-7 / 3]), step=r.choice([0, 12])))

        def advance(kmcs, count):
            for _ in range(count):
                av = available(s, kmcs[0].simulation_state.occupations, case.evs)
                if not av:
                    return
                e, dt = r.choice(av), r.random() * 10.0 ** r.randint(-12, -2)
                for x in kmcs:
                    x.update(x.event_lib.events[e], dt=dt)
                if len(kmcs) > 1:
                    look(*kmcs)

        def look(x, y):
            def rec(z):
                st = z.simulation_state
                return {"occ": [int(v) for v in st.occupations], "time": tok(st.time), "step": int(st.step),
                        "rates": encode_rates(z, cfg)}
            t["pairs"].append({"a": rec(x), "b": rec(y)})

        advance([a], r.randint(1, 10))
        a.simulation_state.save_checkpoint(ck)
        how = r.choice(["config", "config", "full"])
        if how == "full":
            d = json.load(open(ck))
            d["occupations"] = occ_full(r, s, d["occupations"])
            write_json(ck, d)
        b = KMC.from_config(cfg.with_system_changes(initial_state_file=ck))
        look(a, b)
        advance([a, b], 6)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    for p in os.listdir("."):
        if tag in p:
            os.unlink(p)
    return t


if __name__ == "__main__":
    a = args()
    if a.inp:
        out = [generated(k, c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    elif a.mode == "resume":
        out = [resumed(a.seed, k) for k in range(a.n)]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
