"""Histories of event libraries: TLC-generated (--inp) or random."""
from lib import *  # noqa: F401,F403

from kmcpy.event import Event, EventLib
from kmcpy.structure import ActiveSiteOrder


def order(n, salt):
    st = Structure(Lattice.cubic(5), ["Na"] * n + ["O"], [[k / (n + 1), 0, 0] for k in range(n + 1)])
    return ActiveSiteOrder.from_structure_and_mapping(
        st, {"Na": ["Na", "X"] if salt == 0 else ["X", "Na"] if salt == 1 else ["Na", "Mg"], "O": "O"})


def observe(lib, nsite, ok):
    has = bool(lib.has_event_dependencies())
    n, st = len(lib), lib.get_dependency_statistics()
    st = [] if not has else [int(st["total_events"]), int(st["total_dependencies"]), int(st["max_dependencies_per_event"]),
                             int(st["min_dependencies_per_event"]), as_int(st["avg_dependencies_per_event"], max(n, 1)),
                             as_int(st["dependency_density"], max(n * n, 1))]
    return {"ok": ok, "has": has, "st": st,
            "ev": [{"f": int(e.mobile_ion_indices[0]), "t": int(e.mobile_ion_indices[1]),
                    "env": [int(x) for x in e.local_env_indices]} for e in lib.events],
            "rows": [[int(x) for x in lib.get_dependent_events(k)] for k in range(len(lib))] if has else [],
            "inv": [[int(x) for x in lib.get_events_involving_site(s)] for s in range(nsite)]}


def replay(tid, orders, ops):
    t = {"id": tid, "orders": orders, "ops": [], "raised": ""}
    objs = [order(n, k) for k, n in enumerate(orders)]
    lib, path, nsite = EventLib(), "lib-%s.json" % tid.replace(":", "-"), max(orders) + 1
    try:
        for o in ops:
            ok = True
            try:
                if o["k"] == "add":
                    e = o["e"]
                    lib.add_event(Event(mobile_ion_indices=(e["f"], e["t"]), local_env_indices=tuple(e["env"])))
                elif o["k"] == "gen":
                    lib.generate_event_dependencies()
                elif o["k"] == "clear":
                    lib.clear_event_dependencies()
                elif o["k"] == "meta":
                    lib.set_index_metadata(objs[o["m"] - 1])
                elif o["k"] == "check":
                    lib.validate_index_metadata(objs[o["m"] - 1])
                elif o["k"] == "save":
                    lib.to(path)
                elif o["k"] == "load":
                    lib = EventLib.from_file(path)
                elif o["k"] in ("loadmin", "legacy", "nometa"):
                    d = json.load(open(path))
                    if o["k"] == "loadmin":
                        d = {"events": d["events"], "index_metadata": d["index_metadata"]}
                    elif o["k"] == "legacy":
                        d = d["events"]
                    else:
                        d.pop("index_metadata")
                    write_json("x" + path, d)
                    lib = EventLib.from_file("x" + path)
            except (ValueError, IndexError, KeyError, TypeError, FileNotFoundError):
                ok = False
            t["ops"].append(dict(o, q=observe(lib, nsite, ok)))
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    for p in (path, "x" + path):
        if os.path.exists(p):
            os.unlink(p)
    return t


def random_history(seed, k):
    r = rng_for(seed, "eventlib", k)
    n = r.choice([4, 8, 20])
    orders = [n, r.choice([n, n + 2]), n]
    spread = r.choice([2, 4, n])
    ops, nev, saved, meta = [], 0, False, False
    blank = {"e": {"f": 0, "t": 0, "env": []}, "m": 0}
    high = 0
    for _ in range(r.randint(4, 40)):
        k2 = r.choice(["add"] * 6 + ["gen", "clear", "meta", "check", "save", "load", "loadmin", "legacy", "nometa"])
        if k2 == "gen" and not nev or k2 in ("legacy", "nometa", "load", "loadmin") and not saved:
            continue
        if k2 == "save" and not nev:
            continue
        o = dict(blank, k=k2)
        if k2 == "add":
            top = orders[0] if r.random() < 0.97 else orders[1]
            f = r.randrange(top)
            near = [x for x in range(max(0, f - spread), min(top, f + spread + 1)) if x != f]
            tt = r.choice(near)
            env = [r.choice(near) for _ in range(r.randint(0, 4))]
            o["e"] = {"f": f, "t": tt, "env": env}
            high = max([high, f, tt] + env)
            nev += 1
        elif k2 in ("meta", "check"):
            o["m"] = r.randint(1, 3)
            if k2 == "meta" and high >= orders[o["m"] - 1]:
                continue
            meta = meta or k2 == "meta"
        elif k2 == "save":
            saved = saved or meta
        ops.append(o)
    return replay("events:%d:%d" % (seed, k), orders, ops)


if __name__ == "__main__":
    a = args()
    if a.inp:
        cases = json.load(open(a.inp))
        out = [replay("gen:%d" % k, c["orders"], c["ops"]) for k, c in enumerate(cases)]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
