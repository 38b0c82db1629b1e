"""Concurrent LLM-guided evaluations equal the same evaluations alone."""
from sim.sched import Sched
from sim.util import Violation, attempt
from . import _llm as L
from . import _net as N
from .c14 import PROMPTS


def generate(rng, idx, tier):
    n = rng.choice([2, 2, 3, 4])
    prov = rng.choice(["plain", "plain", "openai"])
    retries = rng.choice([0, 1, 2, 3])
    threads, k = [], 0
    for _ in range(n):
        t = []
        for _ in range(rng.randint(1, 3)):
            e = L.gen_eval(rng, k, retries=retries, faulty=rng.choice([0.0, 0.3, 0.7]))
            if rng.random() < 0.15:
                e["attempts"][0] = [rng.choice([0, 1]), rng.choice(["timeout", "own", "value"]) if prov == "plain" else rng.choice(["length", "400", "timeout"])]
            t.append(e)
            k += 1
        L.again(rng, t, 0.2)
        threads.append(t)
    return {"prov": prov, "retries": retries, "threads": threads, "prompt": rng.randrange(len(PROMPTS)), "own": rng.random() < 0.25,
            "sched": {"seed": rng.randrange(10**6), "permille": rng.choice([20, 60, 150, 300, 500])}}


def execute(sc, ctx):
    from valor_lite.text_generation import Evaluator

    n = len(sc["threads"])
    if n < 1:
        return
    prompts = [PROMPTS[(sc["prompt"] + (i if sc["own"] else 0)) % len(PROMPTS)] for i in range(n)]
    if sc["prov"] == "plain":
        clients, evs = [], []
        for i in range(n):
            if not clients or sc["own"]:
                clients.append(L.Client(prompts[i], model_name=f"sim{i}"))
                evs.append(Evaluator(client=clients[-1], retries=sc["retries"], default_system_prompt=prompts[i]))
            else:
                clients.append(clients[0])
                evs.append(evs[0])
        return drive(sc, ctx, evs, clients)
    prov = N.Provider(prompts[0], "openai", "m-openai", None, {})
    with N.Net(prov):
        ev = Evaluator.openai(model_name=prov.model_name, api_key="sk-sim", retries=sc["retries"], default_system_prompt=prompts[0])
        drive(sc, ctx, [ev] * n, [prov] * n)
        for f in prov.fired:
            ctx.fired("provider: " + f)
    got = [ev.client.total_prompt_tokens, ev.client.total_completion_tokens]
    if got != prov.usage:
        raise Violation("token totals differ from the usage the provider reported", f"{got} expected {prov.usage}")
    ctx.log("usage", got)


def drive(sc, ctx, evs, clients):
    n = len(sc["threads"])
    res = [[] for _ in range(n)]

    def body(i):
        def go():
            for sp in sc["threads"][i]:
                sp = {**sp, "retries": sc["retries"]}
                s = L.Session(sp)
                clients[i].begin(s)
                o = attempt(L.evaluate, evs[i], sp)
                res[i].append((sp, s, o))
        return go

    sch = Sched(sc["sched"], n)
    out = sch.run([body(i) for i in range(n)])
    ctx.sched = {"switches": sch.taken}
    ctx.count("switches", len(sch.taken))
    if sch.stalled:
        ctx.count("stalled")
    for i, (_, e) in enumerate(out):
        if e is not None:
            raise e if isinstance(e, Violation) else Violation("a concurrent evaluation failed", f"{type(e).__name__}: {e}")
    ctx.steps += sch.step
    for i in range(n):
        for sp, s, o in res[i]:
            L.settle(s)
            ctx.runs += 1
            w = L.model(sp)
            L.check_metric(o, sp, w, clients[i].model_name, cls="concurrent: ")
            if s.attempt != w["session"].attempt:
                raise Violation("concurrent: another number of attempts was made", f"{sp['metric']}: {s.attempt}, expected {w['session'].attempt}")
            if "raise" in w and sc["prov"] == "plain" and o.error is not s.exception:
                raise Violation("concurrent: another evaluation's failure was raised", f"{o!r}")
            for b in s.bad:
                ctx.fired("answer: " + b)
            ctx.log(i, sp["metric"], w.get("value"), w.get("error"), w.get("raise"))
    ctx.log("switches", sch.taken[:400])
    ctx.nontrivial = len(sch.taken) > n
