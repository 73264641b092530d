"""Histories of the init commands among a user's own files: TLC-generated (--inp) and random."""
import contextlib
import io
import shutil
import tempfile

from ruamel.yaml import YAML

from lib import *  # noqa: F401,F403
import configs

from kmcpy.cli import init as kinit
from kmcpy.cli import main as kmain
from kmcpy.cli import run_kmc as krun
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC

TREE = {"input_template.yaml": [], "a.yaml": [], "d": [], "d/b.yaml": ["d"]}
WIDE = dict(TREE, **{"d/e": ["d"], "d/e/c.yml": ["d", "d/e"], "home/h.yaml": [], "a.yaml/x.yaml": ["a.yaml"], "home/.k/t.yaml": ["home/.k"],
                     "home/.k": []})
EMPTY = {n: "" for n in configs.SYSTEM + configs.RUNTIME}


def spelt(r, p, root):
    forms = [p, "./" + p, os.path.join(root, p)]
    if p.startswith("home/"):
        forms += ["~" + p[4:]] * 4
    return r.choice(forms)


def init(r, how, p, force, root):
    q = spelt(r, p, root)
    if how == "call":
        args = [q] if r.random() < 0.5 else [kinit.Path(q)]
        got = kinit.write_template(*args, force=True) if force else kinit.write_template(*args)
        if not os.path.samefile(os.path.expanduser(str(got)), p):
            raise RuntimeError("another path reported")
        return
    argv = [] if p == "input_template.yaml" and r.random() < 0.6 else r.choice([["-o", q], ["--output", q], ["--output=" + q]])
    if force:
        argv = r.choice([argv + [x] for x in ("-f", "--force")] + [["-f"] + argv])
    code = kmain.main(["init"] + argv) if how == "kmcpy" else kinit.main(argv)
    if code:
        raise OSError("exit code %r" % code)


class Reached(BaseException):
    pass


def start(argv):
    """The configuration that the run command hands to the simulator, which is not started."""
    def stop(cls, config, *rest, **kw):
        raise Reached(config)

    real, saved = KMC.__dict__["from_config"], sys.argv
    KMC.from_config = classmethod(stop)
    sys.argv = ["run_kmc"] + argv
    try:
        krun.main()
    except Reached as got:
        val = configs.read(got.args[0])
        for n in ("temperature", "attempt_frequency"):
            val[n] = json.dumps(float(val[n]))
        return val
    finally:
        KMC.from_config, sys.argv = real, saved
    raise RuntimeError("no simulation was set up")


def words(r, given):
    out = []
    for g in given:
        n, v = g["n"], json.loads(g["tok"])
        if n == "convert_to_primitive_cell":
            out += [["--" + n]] if v else []
            continue
        if n == "supercell_shape":
            v = r.choice([str(v), str(tuple(v)), ",".join(map(str, v)), ", ".join(map(str, v))])
        elif n == "site_mapping":
            v = repr(v)
        out.append(r.choice([["--" + n, str(v)], ["--%s=%s" % (n, v)]]))
    r.shuffle(out)
    return sum(out, [])


ARGS = ["supercell_shape", "model_file", "structure_file", "event_file", "site_mapping", "attempt_frequency", "temperature",
        "convert_to_primitive_cell"]


def means(p):
    """The configuration a file holds; the format goes by the suffix, so a file without one is read under another name."""
    if os.path.splitext(p)[1]:
        return configs.read(Configuration.from_file(p))
    with tempfile.TemporaryDirectory() as tmp:
        shutil.copy(p, tmp + "/x.yaml")
        return configs.read(Configuration.from_file(tmp + "/x.yaml"))


def look(root, paths, texts):
    tree = {}
    for p in paths:
        e = {"kind": "none", "tok": "", "val": dict(EMPTY)}
        if os.path.isdir(p):
            e["kind"] = "dir"
        elif os.path.isfile(p):
            with open(p, "rb") as fh:
                text = fh.read()
            if text in texts:
                e.update(kind="user", tok=texts[text])
            else:
                try:
                    e.update(val=means(p), kind="input")
                except Exception:  # noqa: BLE001
                    e["kind"] = "torn"
        tree[p] = e
    stray = 0
    for base, dirs, files in os.walk(root):
        for x in files + dirs:
            stray += os.path.relpath(os.path.join(base, x), root) not in list(paths) + ["home"]
    return tree, stray


def replay(tid, ops, paths, r):
    t = {"id": tid, "names": sorted(paths), "up": paths, "ops": [], "raised": ""}
    root = os.path.realpath(tempfile.mkdtemp())
    here, home = os.getcwd(), os.environ.get("HOME")
    os.chdir(root)
    os.mkdir("home")
    os.environ["HOME"] = os.path.join(root, "home")
    texts = {}
    try:
        for o in ops:
            ok, val, k, p = True, dict(EMPTY), o["k"], o["p"]
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    if k == "init":
                        init(r, o["how"], p, o["force"], root)
                    elif k == "put":
                        if os.path.isdir(p):
                            raise OSError("directory")
                        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
                        text = b"" if o["tok"] == "empty" else ("# %s\n" % o["tok"]).encode()
                        texts[text] = o["tok"]
                        with open(p, "wb") as fh:
                            fh.write(text)
                    elif k == "rm":
                        if os.path.isdir(p):
                            shutil.rmtree(p)
                        elif os.path.exists(p):
                            os.unlink(p)
                    elif k == "args":
                        val = start(words(r, o["given"]))
                    elif k == "start":
                        val = start(["--input", spelt(r, p, root).replace("~", os.environ["HOME"])])
                    else:
                        with open(p, encoding="utf-8") as fh:
                            text = fh.read()
                        if text.encode() in texts:
                            raise OSError("not an input")
                        if k == "load":
                            val = means(p)
                        else:
                            doc = YAML(typ="safe", pure=True).load(text)
                            body = doc["kmc"][doc["kmc"]["type"]]
                            if k == "drop":
                                body.pop(o["field"], None)
                            for g in o["given"]:
                                body[g["n"]] = json.loads(g["tok"])
                            with open(p, "w", encoding="utf-8") as fh:
                                json.dump(doc, fh, indent=2, sort_keys=r.random() < 0.5)   # strings stay quoted
            except (OSError, ValueError, SystemExit) as exc:
                ok = isinstance(exc, SystemExit) and not exc.code
            tree, stray = look(root, paths, texts)
            t["ops"].append(dict(o, q={"ok": ok, "tree": tree, "stray": stray, "val": val}))
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    finally:
        os.chdir(here)
        if home is None:
            os.environ.pop("HOME")
        else:
            os.environ["HOME"] = home
        shutil.rmtree(root)
    return t


def random_history(seed, k):
    r = rng_for(seed, "scaffold", k)
    ops = []
    for _ in range(r.randint(5, 25)):
        kk = r.choice(["init"] * 6 + ["put", "put", "rm"] + ["edit"] * 3 + ["drop", "load", "start", "args", "args"])
        p = r.choice(list(WIDE))
        if kk in ("edit", "drop", "load", "start"):
            had = [o["p"] for o in ops if o["k"] == "init" and (kk != "start" or os.path.splitext(o["p"])[1])]
            if not had:
                continue
            p = r.choice(had)
        o = {"k": kk, "p": p, "how": r.choice(["kmcpy", "module", "call"]), "force": r.random() < 0.4, "tok": "", "given": [], "field": ""}
        if kk == "put":
            o["tok"] = r.choice(["empty", "note %d" % r.randint(1, 4)])
        if kk == "drop":
            o["field"] = r.choice(configs.SYSTEM + configs.RUNTIME)
        if kk == "edit":
            o["given"] = [{"n": f["n"], "tok": f["tok"]} for f in
                          [configs.random_field(r, n, False) for n in r.sample(configs.SYSTEM + configs.RUNTIME, r.randint(1, 5))]]
        if kk == "args":
            names = r.sample(ARGS, r.randint(1, len(ARGS)))
            bad = r.choice(names) if r.random() < 0.15 else None
            o["given"] = [{"n": f["n"], "tok": f["tok"], "c": f["c"]} for f in
                          [configs.random_field(r, n, n == bad and n in ("temperature", "attempt_frequency", "supercell_shape"))
                           for n in names] if f["val"] is not None]
            if any(g["tok"] == '""' for g in o["given"]):
                continue
        ops.append(o)
    return replay("scaffold:%d:%d" % (seed, k), ops, WIDE, r)


if __name__ == "__main__":
    a = args()
    if a.mode == "gen":
        with open(a.inp) as fh:
            runs = json.load(fh)
        out = [replay("gen:%d" % k, x["ops"], TREE, rng_for(a.seed, "gen", k)) for k, x in enumerate(runs)]
    else:
        out = [random_history(a.seed, k) for k in range(a.n)]
    write_json(a.out, out)
