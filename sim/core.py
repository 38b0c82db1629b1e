"""Orchestrator: seeded search, replay, minimisation, evidence."""
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VENV = "/opt/venv/bin/python"
RUN_LIMIT = 150.0


class HarnessError(Exception):
    pass


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 256 << 20:
            base = "/tmp"
    except OSError:
        base = "/tmp"
    return tempfile.mkdtemp(prefix="vsim-", dir=base)


def build_shim(root):
    so = os.path.join(root, "libsimdisk.so")
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", so, os.path.join(VERIF, "sim", "shim.c"), "-ldl", "-lpthread"], check=True)
    return so


class Worker:
    def __init__(self, root, so, name, hashseed):
        self.root = os.path.join(root, name)
        self.so, self.hashseed = so, hashseed
        self.p = None
        self.buf = b""
        self.history = []

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
        env.update(PYTHONPATH=f"{VERIF}:{SRC}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(self.hashseed),
                   LD_PRELOAD=self.so, SIM_REPO_SRC=SRC, OMP_NUM_THREADS="1", ARROW_IO_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", PYTHONUTF8="1",
                   NLTK_DATA=os.environ.get("NLTK_DATA", ""), HF_HUB_OFFLINE="1", TRANSFORMERS_OFFLINE="1", HF_DATASETS_OFFLINE="1")
        if not env["NLTK_DATA"]:
            env.pop("NLTK_DATA")
        self.err = open(self.root + ".err", "ab")
        self.p = subprocess.Popen([VENV, "-X", "faulthandler", "-m", "sim.worker", os.path.join(self.root, "run")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=VERIF)
        os.makedirs(self.root, exist_ok=True)
        self.history = []
        self.buf = b""

    def send(self, o):
        if self.p is None:
            self.start()
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        self.p.stdin.flush()

    def lines(self):
        """Non-blocking after select: complete lines available now; None on EOF."""
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            return None
        self.buf += data
        *full, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in full]

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(3)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None
        shutil.rmtree(self.root, ignore_errors=True)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None
        shutil.rmtree(self.root, ignore_errors=True)

    def tail(self):
        try:
            with open(self.root + ".err", "rb") as f:
                return f.read()[-1500:].decode("utf-8", "replace")
        except OSError:
            return ""

    def call(self, o, limit=RUN_LIMIT):
        """One command, one result; a death or hang is a result too."""
        try:
            self.send(o)
        except OSError:
            pass
        end = time.time() + limit
        while True:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return {"status": "violation", "cls": "hang", "msg": f"no answer within {limit} s"}
            if not select.select([self.p.stdout], [], [], min(left, 1.0))[0]:
                continue
            ls = self.lines()
            if ls is None:
                t = self.tail()
                self.kill()
                return {"status": "violation", "cls": "process died", "msg": t}
            for l in ls:
                if l["status"] != "start":
                    return l


class Search:
    def __init__(self, prop, tier, seed, n_runs, wall, workers=8):
        self.prop, self.tier, self.seed, self.n, self.wall = prop, tier, seed, n_runs, wall
        self.root = scratch_root()
        self.so = build_shim(self.root)
        self.workers = [Worker(self.root, self.so, f"w{i}", i) for i in range(workers)]
        self.res = dict(scenarios=0, runs=0, steps=0, nontrivial=0, stats={}, faults={}, digests=set(), twice=0, differ=0, invalid=0)
        self.samples = []
        self.violation = None
        self._v = 0

    def close(self):
        for w in self.workers:
            w.kill()
        shutil.rmtree(self.root, ignore_errors=True)

    def fresh(self, hashseed):
        self._v += 1
        return Worker(self.root, self.so, f"v{self._v}", hashseed)

    # ---- the search ----
    def run(self, twice=29):
        t0 = time.time()
        nxt = 0
        batch = {w: [] for w in self.workers}
        started = {}

        def feed(w):
            nonlocal nxt
            if nxt >= self.n or time.time() - t0 > self.wall or self.violation:
                return
            k = min(4, self.n - nxt)
            idx = list(range(nxt, nxt + k))
            nxt += k
            batch[w] += idx
            started[w] = time.time()
            w.send({"cmd": "gen", "prop": self.prop, "seed": self.seed, "tier": self.tier, "idx": idx,
                    "twice": twice, "keep": idx[0] < 8})

        for w in self.workers:
            feed(w)
        while True:
            busy = [w for w in self.workers if batch[w]]
            if not busy:
                break
            fds = {w.p.stdout.fileno(): w for w in busy}
            ready = select.select(list(fds), [], [], 1.0)[0]
            for fd in ready:
                w = fds[fd]
                ls = w.lines()
                started[w] = time.time()
                if ls is None:
                    self._candidate(w, batch[w][0], {"cls": "process died", "msg": w.tail()})
                    w.kill()
                    batch[w] = []
                    continue
                for r in ls:
                    if r["status"] == "import":
                        raise HarnessError("cannot import the code under test:\n" + r["msg"])
                    if r["status"] == "start":
                        continue
                    batch[w].remove(r["idx"])
                    self._account(w, r)
                if not batch[w]:
                    feed(w)
            for w in busy:
                if batch[w] and time.time() - started.get(w, t0) > RUN_LIMIT:
                    self._candidate(w, batch[w][0], {"cls": "hang", "msg": f"no answer within {RUN_LIMIT} s"})
                    w.kill()
                    batch[w] = []
            if self.violation:
                break
        self.elapsed = time.time() - t0
        return self.violation

    def _account(self, w, r):
        R = self.res
        if r["status"] == "harness":
            raise HarnessError(r["msg"])
        R["scenarios"] += 1
        R["runs"] += r["runs"]
        R["steps"] += r["steps"]
        if r["status"] == "invalid":
            R["invalid"] += 1
        for k in ("stats", "faults"):
            for n, v in r[k].items():
                R[k][n] = R[k].get(n, 0) + v
        if r["nontrivial"] and r["digest"] not in R["digests"]:
            R["nontrivial"] += 1
        R["digests"].add(r["digest"])
        if "again" in r:
            R["twice"] += 1
            R["differ"] += not r["again"]
        if "scenario" in r and r["status"] == "ok" and len(self.samples) < 3 and len(json.dumps(r["scenario"])) < 6000:
            self.samples.append({"index": r["idx"], "scenario": r["scenario"], "digest": r["digest"]})
        w.history.append(r["idx"])
        if r["status"] == "violation" and not self.violation:
            self._candidate(w, r["idx"], r)

    def _candidate(self, w, idx, r):
        if self.violation is None or idx < self.violation["idx"]:
            self.violation = {"idx": idx, "cls": r["cls"], "msg": r["msg"], "scenario": r.get("scenario"), "sched": r.get("sched"),
                              "history": [i for i in w.history if i != idx], "hashseed": w.hashseed}

    # ---- replay and minimisation ----
    def gen(self, idx):
        w = self.fresh(0)
        env = subprocess.run([VENV, "-c",
                              "import json,random,sys;from sim import props;"
                              f"print(json.dumps(props.get('{self.prop}').generate(random.Random('{self.seed}/{self.prop}/{idx}'),{idx},'{self.tier}')))"],
                             env={**os.environ, "PYTHONPATH": f"{VERIF}:{SRC}", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LD_PRELOAD": self.so},
                             cwd=VERIF, capture_output=True, text=True)
        if env.returncode:
            raise HarnessError(env.stderr)
        return json.loads(env.stdout.splitlines()[-1])

    def replay(self, scenarios, hashseed, limit=RUN_LIMIT):
        w = self.fresh(hashseed)
        try:
            r = None
            for s in scenarios:
                r = w.call({"cmd": "exec", "prop": self.prop, "scenario": s}, limit)
                if w.p is None:
                    break
            return r
        finally:
            w.kill()

    def confirm(self):
        """Returns the confirmed, minimised violation or None."""
        v = self.violation
        sc = v["scenario"] or self.gen(v["idx"])
        if v.get("sched") is not None:
            sc = {**sc, "sched": v["sched"]}
        seq = [sc]
        r = self.replay(seq, v["hashseed"])
        if r["status"] == "harness":
            raise HarnessError(r["msg"])
        if r["status"] != "violation":
            # maybe it needs state left by earlier scenarios of that process
            seq = [self.gen(i) for i in v["history"][-40:]] + [sc]
            r = self.replay(seq, v["hashseed"])
            if r["status"] != "violation":
                return None
        if r["cls"] in ("hang", "process died"):
            v.update(cls=r["cls"], msg=r["msg"])
            return self._write(seq, v, [])
        v.update(cls=r["cls"], msg=r["msg"])
        seq, tried = self.minimise(seq, v)
        r = self.replay(seq, v["hashseed"])
        if r["status"] == "violation":
            v.update(cls=r["cls"], msg=r["msg"])
        return self._write(seq, v, tried)

    def minimise(self, seq, v, budget=60.0, max_tries=300):
        t0 = time.time()
        w = [None]
        tries = 0

        def fails(cand):
            nonlocal tries
            tries += 1
            if len(cand) > 1:
                r = self.replay(cand, v["hashseed"], 60)
                return r["status"] == "violation" and r["cls"] == v["cls"]
            if w[0] is None:
                w[0] = self.fresh(v["hashseed"])
            r = w[0].call({"cmd": "exec", "prop": self.prop, "scenario": cand[0]}, 60)
            if w[0].p is None:
                w[0] = None
            return r["status"] == "violation" and r["cls"] == v["cls"]

        def left():
            return time.time() - t0 < budget and tries < max_tries

        # whole scenarios first
        i = 0
        while len(seq) > 1 and i < len(seq) - 1 and left():
            cand = seq[:i] + seq[i + 1:]
            if fails(cand):
                seq = cand
            else:
                i += 1
        if len(seq) == 1:
            cur = seq[0]
            progress = True
            while progress and left():
                progress = False
                for cand in shrinks(cur):
                    if not left():
                        break
                    if fails([cand]):
                        cur = cand
                        progress = True
                        break
            if self.replay([cur], v["hashseed"])["status"] == "violation":
                seq = [cur]
        if w[0] is not None:
            w[0].kill()
        return seq, tries

    def _write(self, seq, v, tries):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.prop, "seed": self.seed, "tier": self.tier, "index": v["idx"], "hashseed": v["hashseed"],
                "class": v["cls"], "message": v["msg"], "minimisation_attempts": tries or 0, "scenarios": seq}
        h = hashlib.sha256(json.dumps(seq, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.prop}-{h}.json")
        with open(p, "w") as f:
            json.dump(body, f, indent=1)
        v["replay"] = p
        return v


def shrinks(x):
    """Smaller JSON values, most aggressive first (lists cut, numbers lowered, options dropped)."""
    yield from _lists(x, [])
    yield from _scalars(x, [])


def _set(x, path, v):
    if not path:
        return v
    if isinstance(x, dict):
        return {**x, path[0]: _set(x[path[0]], path[1:], v)}
    return x[:path[0]] + [_set(x[path[0]], path[1:], v)] + x[path[0] + 1:]


def _walk(x, path):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _walk(x[k], path + [k])
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _walk(v, path + [i])


def _lists(root, _):
    nodes = [(p, v) for p, v in _walk(root, []) if isinstance(v, list) and v]
    nodes.sort(key=lambda n: (len(n[0]), -len(n[1])))
    for p, v in nodes:
        k = len(v)
        size = k
        while size >= 1:
            for i in range(0, k, size):
                if size == k and p and p[-1] in ("p", "s"):
                    continue
                yield _set(root, p, v[:i] + v[i + size:])
            size //= 2
        if k > 24:
            break


def _scalars(root, _):
    for p, v in _walk(root, []):
        if isinstance(v, bool):
            if v:
                yield _set(root, p, False)
        elif isinstance(v, int) and v > 0:
            for c in sorted({0, 1, v // 2, v - 1}):
                if c < v:
                    yield _set(root, p, c)
        elif isinstance(v, dict) and p and p[-1] in ("io", "m", "short", "readdir"):
            if v:
                yield _set(root, p, {})
