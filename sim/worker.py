"""One simulation process: runs scenarios one after another, on command.

Protocol: JSON lines on stdin; JSON lines on the original stdout.
  {"cmd":"gen","prop":p,"seed":s,"tier":t,"idx":[...]}   one result line per idx
  {"cmd":"exec","prop":p,"scenario":{...}}              one result line
"""
import gc
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from sim import util


class Helper:
    """The 'restarted process': holds no state of the simulated one."""

    def __init__(self, env):
        self.p = None
        self.env = env

    def call(self, fn, *args):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ)
            env.pop("LD_PRELOAD", None)
            env.update(self.env)
            self.p = subprocess.Popen([sys.executable, "-m", "sim.helper"], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, env=env, text=True, encoding="utf-8")
        self.p.stdin.write(json.dumps({"fn": fn, "args": args}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise util.Violation("restarted process died", f"{fn} {str(args)[:300]}")
        r = json.loads(line)
        if r.get("harness"):
            raise RuntimeError("helper: " + r["harness"])
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


class Ctx:
    def __init__(self, root, disk, helper):
        self.root, self.disk, self._helper = root, disk, helper
        self.reset()

    def reset(self):
        self.trace = []
        self.stats = {}
        self.faults = {}
        self.runs = 0
        self.steps = 0
        self.nontrivial = False
        self.sched = None
        self._n = 0

    def fresh(self, name=None):
        """A new empty directory of this run."""
        self._n += 1
        d = os.path.join(self.root, name or f"r{self._n}")
        os.makedirs(d)
        return d

    def tempdir(self, d):
        """Where code under test puts temporary files; names are seeded."""
        t = os.path.join(d, "tmp")
        os.makedirs(t, exist_ok=True)
        tempfile.tempdir = t
        tempfile._name_sequence = Names()
        return t

    def restart(self, fn, *args):
        return self._helper.call(fn, *args)

    def log(self, *x):
        self.trace.append(x)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fired(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def collect(self, prefix=""):
        """Account for what the simulated disk did since it was armed."""
        for k, v in self.disk.fired().items():
            self.fired(k, v)
        self.steps += self.disk.events

    def io_digest(self):
        pre = self.root
        return util.digest([l.replace(pre, "") for l in self.disk.log()])


class Names:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return f"sim{self.i:06d}"


def clean(root):
    for e in os.listdir(root):
        p = os.path.join(root, e)
        if os.path.isdir(p) and not os.path.islink(p):
            for dp, dn, fn in os.walk(p):
                try:
                    os.chmod(dp, 0o755)
                except OSError:
                    pass
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def execute(prop, scenario, ctx, src):
    ctx.reset()
    t0 = time.time()
    r = {"status": "ok"}
    cwd = os.getcwd()
    try:
        prop.execute(scenario, ctx)
    except util.Violation as v:
        r = {"status": "violation", "cls": v.cls, "msg": v.msg}
    except util.Invalid as v:
        r = {"status": "invalid", "msg": str(v)}
    except Exception as e:  # noqa: BLE001
        text = traceback.format_exc()
        real_full = isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno == 28 and not ctx.disk.fired())
        if real_full:
            r = {"status": "harness", "msg": text[-3000:]}
        else:
            # the scenarios are valid uses: nothing may raise where the property expects an answer
            r = {"status": "violation", "cls": f"unexpected {type(e).__name__}", "msg": f"{e}\n{text[-1800:]}"}
        chain = e
        while chain is not None:
            chain.__traceback__ = None
            chain = chain.__cause__ or chain.__context__
        del e
    finally:
        ctx.disk.heal()
        ctx.disk.disarm()
        os.chdir(cwd)
        gc.collect()
        clean(ctx.root)
        tempfile.tempdir = ctx.root
    r.update(digest=util.digest(ctx.trace), stats=ctx.stats, faults=ctx.faults, runs=max(1, ctx.runs),
             steps=ctx.steps, nontrivial=bool(ctx.nontrivial), wall=round(time.time() - t0, 4))
    if ctx.sched is not None:
        r["sched"] = ctx.sched
    return r


def main():
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(2, 1)
    root = sys.argv[1]
    src = os.path.join(os.environ["SIM_REPO_SRC"], "")
    os.makedirs(root, exist_ok=True)
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *a: None

    def send(o):
        out.write(json.dumps(o, default=repr) + "\n")
        out.flush()

    from sim.disk import Disk
    from sim import props

    disk = Disk()
    helper = Helper({"PYTHONHASHSEED": "7"})
    ctx = Ctx(root, disk, helper)
    loaded = {}

    def get(name):
        if name not in loaded:
            from sim import sched

            sched.install(src)
            try:
                import pyarrow as pa

                pa.set_cpu_count(1)
                pa.set_io_thread_count(1)
                import valor_lite.classification  # noqa: F401
                import valor_lite.object_detection  # noqa: F401
                import valor_lite.semantic_segmentation  # noqa: F401
                import valor_lite.text_generation  # noqa: F401
                import valor_lite

                f = os.path.realpath(valor_lite.classification.__file__)
                if not f.startswith(os.path.realpath(src)):
                    raise ImportError(f"valor_lite imported from {f}")
            except Exception:
                send({"status": "import", "msg": traceback.format_exc()[-2000:]})
                sys.exit(3)
            loaded[name] = props.get(name)
        return loaded[name]

    for line in sys.stdin:
        c = json.loads(line)
        prop = get(c["prop"])
        if c["cmd"] == "exec":
            r = execute(prop, c["scenario"], ctx, src)
            send(r)
        elif c["cmd"] == "gen":
            for i in c["idx"]:
                rng = random.Random(f"{c['seed']}/{c['prop']}/{i}")
                try:
                    sc = prop.generate(rng, i, c["tier"])
                except Exception:
                    send({"idx": i, "status": "harness", "msg": traceback.format_exc()[-3000:]})
                    continue
                sc = json.loads(json.dumps(sc))
                send({"idx": i, "status": "start"})
                r = execute(prop, sc, ctx, src)
                r["idx"] = i
                if r["status"] != "ok" or c.get("keep"):
                    r["scenario"] = sc
                if c.get("twice") and i % c["twice"] == 0 and r["status"] == "ok":
                    r2 = execute(prop, sc, ctx, src)
                    r["again"] = r2["digest"] == r["digest"]
                send(r)
    helper.close()


if __name__ == "__main__":
    main()
