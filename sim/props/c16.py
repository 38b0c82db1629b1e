"""Failures of the provider reach the caller; nothing cut short is scored; usage is accounted."""
from sim.util import Violation, attempt
from . import _llm as L
from . import _net as N
from .c14 import PROMPTS


def generate(rng, idx, tier):
    prov = rng.choice(["plain", "openai", "openai", "mistral"])
    retries = rng.choice([0, 0, 1, 2, 4])
    seed = rng.choice([None, None, 7, 0]) if prov == "openai" and not retries else None
    evs = []
    for i in range(rng.randint(1, 5)):
        e = L.gen_eval(rng, i, retries=retries, faulty=rng.choice([0.0, 0.4]))
        if rng.random() < 0.7:
            k = rng.randrange(retries + 1)
            names = sorted(L.EXC) if prov == "plain" else N.FATAL[prov] + ["none"] * 3
            for j in range(k):
                e["attempts"][j] = e["attempts"][j] or [0, rng.randrange(1000)]
            e["attempts"][k] = [rng.choice([0, 0, 1, 1, 2, 3]), rng.choice(names)]
        evs.append(e)
    L.again(rng, evs, 0.4)
    tr = {}
    for _ in range(rng.choice([0, 0, 1, 2])):
        if N.TRANSIENT.get(prov):
            tr[str(rng.randrange(8))] = [rng.choice(N.TRANSIENT[prov]), rng.choice([1, 1, 2])]
    return {"prov": prov, "retries": retries, "seed": seed, "evs": evs, "prompt": rng.randrange(len(PROMPTS)), "transient": tr}


def execute(sc, ctx):
    from valor_lite.text_generation import Evaluator

    prompt = PROMPTS[sc["prompt"]]
    if sc["prov"] == "plain":
        client = L.Client(prompt)
        ev = Evaluator(client=client, retries=sc["retries"], default_system_prompt=prompt)
        return drive(sc, ctx, ev, client)
    prov = N.Provider(prompt, sc["prov"], "m-" + sc["prov"], sc["seed"], sc["transient"])
    with N.Net(prov) as net:
        if sc["prov"] == "openai":
            ev = Evaluator.openai(model_name=prov.model_name, api_key="sk-sim", retries=sc["retries"], seed=sc["seed"], default_system_prompt=prompt)
        else:
            ev = Evaluator.mistral(model_name=prov.model_name, api_key="sim", retries=sc["retries"], default_system_prompt=prompt)
        drive(sc, ctx, ev, prov)
        for f in prov.fired:
            ctx.fired("provider: " + f)
        ctx.count("virtual_ms_slept", int(net.slept * 1000))
    if sc["prov"] == "openai":
        got = [ev.client.total_prompt_tokens, ev.client.total_completion_tokens]
        if got != prov.usage:
            raise Violation("token totals differ from the usage the provider reported", f"{got} expected {prov.usage}")
        ctx.log("usage", got)


def drive(sc, ctx, ev, client):
    import openai

    for sp in sc["evs"]:
        sp = {**sp, "retries": sc["retries"]}
        s = L.Session(sp)
        client.begin(s)
        o = attempt(L.evaluate, ev, sp)
        L.settle(s)
        ctx.runs += 1
        ctx.steps += s.calls
        w = L.model(sp)
        if getattr(s, "transient", False) and not o.ok and isinstance(o.error, openai.OpenAIError):
            # giving up on a transient failure is a failure the caller sees
            ctx.count("gave up on transient failure")
            ctx.log(sp["metric"], "gave up")
            continue
        L.check_metric(o, sp, w, client.model_name)
        if "raise" in w:
            n = w["raise"]
            ctx.count("failed call reached the caller")
            ctx.nontrivial = True
            if sc["prov"] == "plain":
                ctx.fired("client: " + n)
                if o.error is not s.exception:
                    raise Violation("the caller got another exception than the client raised", f"{o!r} for {s.exception!r}")
            elif n in N.FINISH and not isinstance(o.error, ValueError):
                raise Violation("a completion cut short was not refused as such", f"{n}: {o!r}")
            if type(o.error).__name__ == "InvalidLLMResponseError":
                raise Violation("a failed call was taken for an invalid answer", n)
        elif "error" in w:
            ctx.count("error metric")
        elif "value" in w:
            ctx.count("value")
            if any(f for f in sp["attempts"]):
                ctx.nontrivial = True
        if s.attempt != w["session"].attempt:
            raise Violation("another number of attempts was made", f"{sp['metric']}: {s.attempt}, expected {w['session'].attempt}")
        for b in s.bad:
            ctx.fired("answer: " + b)
        ctx.log(sp["metric"], w.get("value"), w.get("error"), w.get("raise"), s.log)
