"""Histories of Configuration objects and configuration files: TLC-generated (--inp) and random."""
import copy
import dataclasses

from lib import *  # noqa: F401,F403

from kmcpy.simulator.config import Configuration

BLANK = {"given": [], "a": 0, "b": 0, "f": "f", "fmt": "yaml", "sec": "", "type": "", "loader": False, "secs": []}
LOADER = ["structure_file", "model_file", "event_file", "initial_state_file"]
SYSTEM = LOADER + ["supercell_shape", "dimension", "mobile_ion_specie", "mobile_ion_charge", "elementary_hop_distance",
                   "model_type", "site_mapping", "convert_to_primitive_cell", "initial_occupations"]
RUNTIME = ["temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed", "name",
           "property_sampling_interval", "property_sampling_time_interval", "builtin_property_enabled",
           "property_callbacks"]
STATE_OF = {**{n: "system_config" for n in SYSTEM}, **{n: "runtime_config" for n in RUNTIME}}


JUNK = b"kmc: {type: default, default: {temperature: 300.0\nother: [1, 2\n"


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, float):
        return float(x)
    if isinstance(x, int):
        return int(x)
    return str(x)


def token(x):
    return json.dumps(plain(x), ensure_ascii=True)


def read(cfg):
    return {n: token(getattr(getattr(cfg, STATE_OF[n]), n)) for n in SYSTEM + RUNTIME}


def shaken(x):
    """Change a mutable value in place, at every level."""
    if isinstance(x, dict):
        for v in list(x.values()):
            shaken(v)
        x["poked"] = 1
    elif isinstance(x, list):
        for v in x:
            shaken(v)
        x.append(7)


def replay(tid, ops, fmts):
    t = {"id": tid, "names": sorted(fmts), "ops": [], "raised": ""}
    objs, handed, junk = [], [], {}
    path = {f: "%s-%s.%s" % (tid.replace(":", "-"), f, fmts[f]) for f in fmts}
    try:
        for o in ops:
            ok = True
            kw = {g["n"]: g["val"] for g in o["given"]}
            handed.append(kw)
            base = objs[o["a"] - 1] if o["a"] else None
            try:
                k = o["k"]
                opt = {}
                if o["sec"]:
                    opt["section"] = o["sec"]
                if o["type"]:
                    opt["task_type"] = o["type"]
                if k == "new":
                    objs.append(Configuration(**kw) if o["given"] or len(objs) % 2 else Configuration())
                elif k == "mix":
                    objs.append(Configuration(system_config=base.system_config if o["a"] else None,
                                              runtime_config=objs[o["b"] - 1].runtime_config if o["b"] else None, **kw))
                elif k == "system":
                    objs.append(base.with_system_changes(**kw))
                elif k == "runtime":
                    objs.append(base.with_runtime_changes(**kw))
                elif k == "dict":
                    d = base.as_dict(include_loader_paths=o["loader"])
                    got = Configuration.from_dict(d)
                    shaken(d)
                    objs.append(got)
                elif k == "save":
                    base.to(path[o["f"]], include_loader_paths=o["loader"], **opt)
                    if not o["sec"]:
                        junk.pop(o["f"], None)
                elif k == "write":
                    put(path[o["f"]], o)
                    junk.pop(o["f"], None)
                elif k == "damage":
                    with open(path[o["f"]], "wb") as fh:
                        fh.write(JUNK)
                    junk[o["f"]] = True
                elif k == "load":
                    objs.append(Configuration.from_file(path[o["f"]], **opt))
                elif k == "assign":
                    target = [base, base.system_config, base.runtime_config][o["b"]]
                    setattr(target, ["temperature", "dimension", "temperature"][o["b"]], 2)
                elif k == "argpoke":
                    for x in handed:
                        shaken(x)
                        x.pop("poked")
                elif k == "dictpoke":
                    shaken(base.as_dict(include_loader_paths=True))
                    shaken(base.as_dict())
            except (ValueError, TypeError, KeyError, AttributeError, OSError, dataclasses.FrozenInstanceError):
                ok = False
            except Exception:  # noqa: BLE001  (the parser's own error for a file that is none)
                if o["k"] not in ("save", "load") or o["f"] not in junk:
                    raise
                ok = False
            kept = all(os.path.exists(path[f]) and open(path[f], "rb").read() == JUNK for f in junk)
            q = {"ok": ok, "kept": kept, "obj": [read(c) for c in objs], "eq": [[bool(x == y) for y in objs] for x in objs]}
            rec = {key: o.get(key, v) for key, v in BLANK.items()}
            rec.update(k=o["k"], q=q, given=bare(o["given"]))
            rec["secs"] = [dict(s, tasks=[dict(x, given=bare(x["given"])) for x in s["tasks"]]) for s in rec["secs"]]
            t["ops"].append(rec)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    for p in path.values():
        if os.path.exists(p):
            os.unlink(p)
    return t


def bare(given):
    return [{"n": g["n"], "tok": g["tok"], "c": g["c"]} for g in given]


def put(path, o):
    """A file as a user would write it."""
    doc = {g["n"]: plain(g["val"]) for g in o["given"]}
    for s in o["secs"]:
        tasks = {x["type"]: {g["n"]: plain(g["val"]) for g in x["given"]} for x in s["tasks"]}
        doc[s["name"]] = list(tasks.values())[0] if s["plain"] else dict(tasks, type=s["type"])
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)


def random_section(r, name):
    if r.random() < 0.3:
        return {"name": name, "plain": True, "type": "", "tasks": [{"type": "default", "given": fields(r, SYSTEM + RUNTIME, 4)}]}
    types = r.sample(["default", "fast", "slow"], r.randint(1, 3))
    return {"name": name, "plain": False, "type": r.choice(types + ["slow"]),
            "tasks": [{"type": ty, "given": fields(r, SYSTEM + RUNTIME, 4)} for ty in types]}


def field(n, val, c):
    return {"n": n, "val": val, "tok": token(val), "c": c}


def sign(x):
    return (x > 0) - (x < 0)


WORDS = ["Li", "Na", "N", "Y", "No", "yes", "null", "1e3", "0x1", "a: b", "# c", "-", "~", "é", "true", "x y", "1:30", "'q'", "2020-01-01"]


def random_callback(r):
    d = {"callable": r.choice(["m:f", "math.pi", "a.b.c"])}
    for key, vals in (("name", WORDS), ("interval", [1, 7, None]), ("time_interval", [1e-13, 0.5, None]),
                      ("store", [True, False]), ("max_records", [1, 100, None]), ("enabled", [True, False])):
        if r.random() < 0.4:
            d[key] = r.choice(vals)
    return d


def bad_callback(r):
    d = random_callback(r)
    how = r.randrange(6)
    if how == 0:
        d["colour"] = 1
    elif how == 1:
        d.pop("callable")
    elif how == 2:
        d["interval"] = 0
    elif how == 3:
        d["max_records"] = 0
    elif how == 4:
        d["store"] = "yes"
    else:
        d["callable"] = "  "
    return d


def random_field(r, n, bad):
    if n in ("structure_file", "model_file", "event_file", "initial_state_file"):
        vals = ["x.cif", "dir/y z.json", "C:\\a", "~/m.json"]
        return field(n, r.choice(vals + ([None] if n == "initial_state_file" else [""])), 0)
    if n in ("mobile_ion_specie", "model_type", "name"):
        return field(n, r.choice(WORDS), 0)
    if n in ("mobile_ion_charge", "elementary_hop_distance"):
        return field(n, r.choice([1.0, -2.0, 0.1, 2.5e-7, 1 / 3]), 0)
    if n == "convert_to_primitive_cell":
        return field(n, r.random() < 0.5, 0)
    if n == "random_seed":
        return field(n, r.choice([None, 0, 1, 2**32 - 1, 12345678901]), 0)
    if n == "temperature" or n == "attempt_frequency":
        v = r.choice([0.0, -1.0, -1e-9]) if bad else r.choice([300.0, 1e13, 1e-13, 1 / 3, 5e12, 123456789.123])
        return field(n, v, sign(v))
    if n == "kmc_passes":
        v = r.choice([0, -1]) if bad else r.choice([1, 2, 10**9])
        return field(n, v, sign(v))
    if n == "equilibration_passes":
        v = -1 if bad else r.choice([0, 1, 1000])
        return field(n, v, sign(v))
    if n == "dimension":
        v = r.choice([0, 4, -1]) if bad else r.randint(1, 3)
        return field(n, v, v)
    if n == "supercell_shape":
        v = [r.randint(1, 4) for _ in range(r.choice([2, 4]) if bad else 3)]
        return field(n, r.choice([list, tuple])(v), len(v))
    if n == "property_sampling_interval":
        v = r.choice([0, -3]) if bad else r.choice([None, 1, 1000])
        return field(n, v, 0 if v is None else sign(v))
    if n == "property_sampling_time_interval":
        v = r.choice([0.0, -0.5]) if bad else r.choice([None, 1e-13, 0.1, 2.0, 1 / 3])
        return field(n, v, 0 if v is None else sign(v))
    if n == "site_mapping":
        return field(n, r.choice([None, {}, {"Na": ["Na", "X"], "O": "O"}, {"No": ["No", "Y", "X"]}, {"N": ["N"], "Y": "Y"}]), 0)
    if n == "initial_occupations":
        return field(n, r.choice([None, [], [r.randint(0, 3) for _ in range(r.randint(1, 9))]]), 0)
    if n == "builtin_property_enabled":
        if bad:
            return field(n, r.choice([{"colour": True}, {"msd": 1}, ["msd"]]), 1)
        return field(n, {k: r.random() < 0.5 for k in r.sample(["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity"], r.randint(0, 3))}, 0)
    if n == "property_callbacks":
        v = [random_callback(r) for _ in range(r.randint(0, 3))]
        if bad:
            v.append(r.choice([bad_callback(r), "m:f", 3]))
            r.shuffle(v)
        return field(n, v, 1 if bad else 0)
    raise KeyError(n)


CANBAD = ["temperature", "attempt_frequency", "kmc_passes", "equilibration_passes", "dimension", "supercell_shape",
          "property_sampling_interval", "property_sampling_time_interval", "builtin_property_enabled", "property_callbacks"]


def fields(r, pool, kmax=5):
    names = r.sample(pool, min(len(pool), r.randint(0 if r.random() < 0.1 else 1, kmax)))
    bad = r.choice(names) if names and r.random() < 0.2 else None
    out = [random_field(r, n, n == bad and n in CANBAD) for n in names]
    if r.random() < 0.07:
        out.append(field(r.choice(["colour", "v", "temprature", "occupation"]), 1, 0))
    return out


def random_history(seed, k):
    r = rng_for(seed, "config", k)
    fmts = {"f": "yaml", "g": "json", "h": r.choice(["yml", "YAML", "json"]), "z": "txt"}
    # every way a value can be wrong, one after the other, is tried first
    n = CANBAD[k % len(CANBAD)] if k % 3 else "property_callbacks"
    ops, made = [dict(BLANK, k="new", given=[random_field(r, n, True)])], 0
    for _ in range(r.randint(4, 24)):
        kinds = ["new"] * (3 if made == 0 else 1) + ["load"]
        if made:
            kinds += ["mix", "mix", "system", "runtime", "dict", "save", "save", "save", "load", "load", "assign", "argpoke", "dictpoke", "damage", "write", "write"]
        kk = r.choice(kinds)
        o = dict(BLANK, k=kk, f=r.choice(["f", "f", "f", "g", "g", "h", "h", "z"] if kk == "save" or r.random() < 0.1 else ["f", "f", "g", "h"]))
        o["fmt"] = fmts[o["f"]].lower()
        if made:
            o["a"] = r.randint(1, made)
        if kk == "new":
            o["a"] = 0
            o["given"] = fields(r, SYSTEM + RUNTIME, 8)
        elif kk == "mix":
            o["a"], o["b"] = r.randint(0, made), r.randint(0, made)
            o["given"] = fields(r, SYSTEM + RUNTIME, 4)
        elif kk in ("system", "runtime"):
            pool = SYSTEM if kk == "system" else RUNTIME
            o["given"] = fields(r, pool if r.random() < 0.9 else SYSTEM + RUNTIME)
        elif kk == "dict":
            o["loader"] = r.random() < 0.6
        elif kk == "save":
            o["loader"] = r.random() < 0.6
            if r.random() < 0.5:
                o["sec"], o["type"] = r.choice(["kmc", "kmc", "other", "more"]), r.choice(["default", "fast"])
        elif kk == "load":
            if r.random() < 0.5:
                o["sec"] = r.choice(["kmc", "kmc", "other", "more"])
            if r.random() < 0.3:
                o["type"] = r.choice(["default", "fast"])
        elif kk == "damage":
            o["a"] = 0
        elif kk == "write":
            o["a"], o["f"] = 0, "f"
            o["fmt"] = fmts["f"]
            if r.random() < 0.5:
                o["given"] = fields(r, r.choice([SYSTEM, RUNTIME, RUNTIME, SYSTEM + RUNTIME]), 4)
                if not any(g["n"] in SYSTEM + RUNTIME for g in o["given"]):
                    o["given"] = [field("name", "x", 0)]
            if not o["given"] or r.random() < 0.2:
                o["secs"] = [random_section(r, n) for n in r.sample(["kmc", "kmc", "other", "more"], r.randint(1, 2))]
                o["secs"] = list({s["name"]: s for s in o["secs"]}.values())
        elif kk == "assign":
            o["b"] = r.randrange(3)
        ops.append(o)
        made = count(ops)
    return replay("config:%d:%d" % (seed, k), ops, fmts)


def count(ops):
    """How many objects exist: only needed to name operands, so a refused operation must not count."""
    made, there = 0, {}
    for o in ops:
        g = {x["n"] for x in o["given"]}
        okf = all(good(x) for x in o["given"])
        if o["k"] == "new":
            made += bool(o["given"]) and okf and g <= set(SYSTEM + RUNTIME)
        elif o["k"] == "mix":
            made += okf and g <= set(SYSTEM + RUNTIME) and bool(o["a"] or o["b"] or g)
        elif o["k"] == "system":
            made += okf and g <= set(SYSTEM)
        elif o["k"] == "runtime":
            made += okf and g <= set(RUNTIME)
        elif o["k"] == "dict":
            made += 1
        elif o["k"] == "save" and o["fmt"] != "txt":
            if not o["sec"]:
                there[o["f"]] = {"": True}
            elif o["fmt"] != "json" and not there.get(o["f"], {}).get("junk"):
                there.setdefault(o["f"], {})[o["sec"]] = {"": o["type"], o["type"]: True}
        elif o["k"] == "write":
            secs = {s["name"]: {"": s["type"], None: s["plain"], **{x["type"]: makes(x["given"]) for x in s["tasks"]}} for s in o["secs"]}
            if o["given"]:
                secs[""] = makes(o["given"])
            there[o["f"]] = secs
        elif o["k"] == "damage":
            there[o["f"]] = {"junk": True}
        elif o["k"] == "load" and o["f"] in there:
            secs = there[o["f"]]
            if "junk" in secs:
                pass
            elif o["sec"]:
                made += o["sec"] in secs and meant(secs[o["sec"]], o["type"])
            elif "" in secs:
                made += len(secs) == 1 and secs[""]
            else:
                made += "kmc" in secs and meant(secs["kmc"], o["type"])
    return made


def makes(given):
    return bool(given) and all(good(x) for x in given) and {x["n"] for x in given} <= set(SYSTEM + RUNTIME)


def meant(sec, ty):
    if sec.get(None):
        return sec["default"]
    return sec.get(ty or sec[""], False) is True


def good(x):
    n, c = x["n"], x["c"]
    if n in ("temperature", "attempt_frequency", "kmc_passes"):
        return c > 0
    if n == "equilibration_passes":
        return c >= 0
    if n == "dimension":
        return c in (1, 2, 3)
    if n == "supercell_shape":
        return c == 3
    if n.startswith("property_sampling"):
        return x["val"] is None or c > 0
    if n in ("builtin_property_enabled", "property_callbacks"):
        return c == 0
    return True


def generated(k, ops):
    for o in ops:
        for g in o["given"] + [g for s in o["secs"] for x in s["tasks"] for g in x["given"]]:
            g["val"] = json.loads(g["tok"])
    return replay("gen:%d" % k, copy.deepcopy(ops), {"f": "yaml", "g": "json"})


if __name__ == "__main__":
    a = args()
    if a.inp:
        out = [generated(k, c["ops"]) for k, c in enumerate(json.load(open(a.inp)))]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
