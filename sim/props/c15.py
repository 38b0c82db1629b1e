"""A metric is its definition over the answers of one valid attempt."""
from sim.util import Violation, attempt
from . import _llm as L
from .c14 import PROMPTS


def generate(rng, idx, tier):
    mode = rng.choice(["one", "one", "one", "all"])
    if mode == "all":
        e = L.gen_eval(rng, 0, faulty=0.0)
        e["gts"] = e["gts"] or [1]
        e["ctx"] = e["ctx"] or [1, 2]
        e["none"] = False
        return {"mode": mode, "evs": [e], "prompt": rng.randrange(len(PROMPTS)), "broken": rng.choice(["", "", "bias", "toxicity", "context_recall", "faithfulness", "coherence", "ac", "claims"])}
    evs = L.again(rng, [L.gen_eval(rng, i, faulty=rng.choice([0.0, 0.3, 0.6])) for i in range(rng.randint(1, 6))])
    return {"mode": mode, "evs": evs, "prompt": rng.randrange(len(PROMPTS)), "broken": "",
            "reuse": rng.random() < 0.7}


class Rouge:
    @staticmethod
    def load(name):
        return Rouge()

    def compute(self, predictions, references, rouge_types, **k):
        return {t: [0.25 + 0.1 * i] for i, t in enumerate(rouge_types)}


def execute(sc, ctx):
    from valor_lite.text_generation import Evaluator

    prompt = PROMPTS[sc["prompt"]]
    client = L.Client(prompt)
    if sc["mode"] == "all":
        return compute_all(sc, ctx, client, prompt)
    ev = None
    kept = []
    for sp in sc["evs"]:
        if ev is None or not sc["reuse"]:
            ev = Evaluator(client=client, retries=sp["retries"], default_system_prompt=prompt)
        ev.retries = sp["retries"]
        s = L.Session(sp)
        client.begin(s)
        qr = L.query_response(sp)
        before = repr(qr)
        o = attempt(L.evaluate, ev, sp, qr)
        L.settle(s)
        ctx.runs += 1
        ctx.steps += s.calls
        w = L.model(sp)
        L.check_metric(o, sp, w)
        L.check_requests(s, w, sp)
        if repr(qr) != before:
            raise Violation("an evaluation changed its input", f"{before} -> {qr!r}"[:600])
        for b in s.bad:
            ctx.fired("answer: " + b)
        if o.ok:
            kept.append((o.value, repr(o.value)))
        ctx.count(sp["metric"])
        if "value" in w and s.calls:
            ctx.nontrivial = True
            if s.attempt:
                ctx.count("value after failed attempts")
        ctx.log(sp["metric"], w.get("value"), w.get("error"), s.log)
    for v, r in kept:
        if repr(v) != r:
            raise Violation("a later evaluation changed an earlier result", f"{r} -> {v!r}"[:600])


def compute_all(sc, ctx, client, prompt):
    import sys

    from valor_lite.text_generation import Evaluator, MetricType

    sp = sc["evs"][0]
    ev = Evaluator(client=client, retries=sp["retries"], default_system_prompt=prompt)
    s = L.Session({**sp, "metric": "all"}, fixed=sc["broken"])
    client.begin(s)
    real = sys.modules.get("evaluate")
    sys.modules["evaluate"] = Rouge
    try:
        o = attempt(ev.compute_all, L.query_response(sp))
    finally:
        if real is None:
            del sys.modules["evaluate"]
        else:
            sys.modules["evaluate"] = real
    L.settle(s)
    ctx.runs += 1
    ctx.steps += s.calls
    if not o.ok:
        raise Violation("one invalid answer ended the whole evaluation", f"broken {sc['broken']!r}: {o!r}")
    r = o.value
    if sorted(k.value for k in r) != sorted(m.value for m in MetricType):
        raise Violation("an evaluation of all metrics leaves some out", str(sorted(r))[:400])
    for m in L.METRICS:
        one = {**sp, "metric": m}
        w = L.model(one, fixed=sc["broken"])
        got = r[MetricType(L.TYPE[m])]
        if len(got) != 1:
            raise Violation("an evaluation of all metrics reports a metric more than once", f"{m}: {len(got)}")

        class O:
            ok, value, error = True, got[0], None

        L.check_metric(O, one, w, cls="all metrics: ")
        ctx.count("error metric" if w.get("error") else "value")
        ctx.log(m, w.get("value"), w.get("error"))
    for b in s.bad:
        ctx.fired("answer: " + b)
    if [x.type for x in r[MetricType.BLEU]] != ["BLEU"] or [x.type for x in r[MetricType.ROUGE]] != ["ROUGE"] * 4:
        raise Violation("an evaluation of all metrics files metrics under another name", str(r)[:400])
    ctx.count("compute_all")
    ctx.nontrivial = True
