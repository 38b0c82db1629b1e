"""Whatever the model answers: a metric in range or an error metric, after at most 1 + retries attempts."""
import json
import random

from sim.util import Violation, attempt
from . import _llm as L

PROMPTS = ["You are a helpful assistant.", "", "Système {text} \"x\"", "zz\nzz"]


def generate(rng, idx, tier):
    mode = rng.choice(["known", "known", "hopeless", "garbage", "garbage"])
    evs = []
    for i in range(rng.randint(1, 4)):
        r = rng.choice([0, 1, 2, 3, 5, 9])
        e = L.gen_eval(rng, i, retries=r, faulty={"known": 0.6, "hopeless": 1.0, "garbage": 0.0}[mode])
        if mode == "hopeless":
            e["attempts"] = [[0, rng.randrange(1000)] for _ in range(r + 1)]
        evs.append(e)
    if mode == "known":
        L.again(rng, evs)
    return {"mode": mode, "evs": evs, "prompt": rng.randrange(len(PROMPTS)), "gseed": rng.randrange(10**6), "shared": rng.random() < 0.5}


JUNK = [None, True, False, 0, 1, -1, 1.5, "", "yes", "no", "idk", "verdict", [], {}, [[]], [{}], {"verdict": "yes"}, {"verdict": "yes", "analysis": "a"}, {"verdict": ["yes"], "analysis": "a"},
        {"verdict": {"a": 1}, "analysis": 2}, ["a"], ["a", 1], "\ud800", "\x00", 10**30, 1e308, [None] * 3]


def mangle(rng, s):
    """An answer damaged at random; it may still be valid."""
    k = rng.randrange(8)
    if k == 0:
        return "".join(rng.choice("{}[]\",:yesnoidk 0123456789-\\\n\t\u00e9\U0001f600verdictanlysTPFN") for _ in range(rng.randint(0, 60)))
    if k == 1 and s:
        i = rng.randrange(len(s))
        return s[:i] + s[i + rng.randint(1, 8):]
    if k == 2 and s:
        i = rng.randrange(len(s) + 1)
        return s[:i] + rng.choice(["{", "}", "[", "]", "\"", ",", "null", "\x00", "\n", "7"]) + s[i:]
    if k == 3:
        return s[:rng.randrange(len(s) + 1)]
    if k == 4:
        return s + s
    try:
        o = json.loads(s[s.index("{"):s.rindex("}") + 1])
    except ValueError:
        return rng.choice(["", "NaN", "{NaN}", "{\"verdicts\": NaN}", "3.7", "-0", "0x3", "1e3", "\u0663", "\u0967\u0967", "{" * 3000, "--4"])
    for _ in range(rng.randint(1, 3)):
        o = _poke(rng, o)
    return json.dumps(o)


def _poke(rng, o):
    if isinstance(o, dict) and o and rng.random() < 0.75:
        k = rng.choice(sorted(o))
        c = rng.randrange(4)
        if c == 0:
            return {a: b for a, b in o.items() if a != k}
        if c == 1:
            return {**o, rng.choice(["verdict", "analysis", "verdicts", "TP", "x"]): rng.choice(JUNK)}
        return {**o, k: _poke(rng, o[k])}
    if isinstance(o, list) and o and rng.random() < 0.75:
        i = rng.randrange(len(o))
        c = rng.randrange(4)
        if c == 0:
            return o[:i] + o[i + 1:]
        if c == 1:
            return o[:i] + [rng.choice(JUNK)] + o[i:]
        return o[:i] + [_poke(rng, o[i])] + o[i + 1:]
    return rng.choice(JUNK)


class Garbage(L.Client):
    def __init__(self, prompt, rng):
        super().__init__(prompt)
        self.rng = rng

    def __call__(self, messages):
        s = self.here.s
        out, ok = self.reply(messages)
        if self.rng.random() < 0.6:
            out = mangle(self.rng, out)
            s.bad.append("mangled")
        return out


def reply_loose(self, messages):
    """Without knowing what counts as valid only the shape of a request can be judged."""
    s = self.here.s
    user = messages[1]["content"]
    toks = [m.group(0) for m in L.TOK.finditer(user)]
    kind, topic = L.recognise(user)
    topic = topic or s.sp["metric"]
    items = toks
    if kind == "verdicts":
        items = [t for t in toks if L.TOK.match(t).group(2) == L.ITEM.get(topic, "?")]
    elif kind == "ac":
        st = [t for t in toks if L.TOK.match(t).group(2) == "s"]
        items = [[t for t in st if L.TOK.match(t).group(3)[:1] == "r"], [t for t in st if L.TOK.match(t).group(3)[:1] == "g"]]
    return s.answer(kind or "statements", topic if kind in ("verdicts", "ac", "coherence") else None, items, toks)


Garbage.reply = reply_loose


def calls_per_attempt(sp):
    m, g = sp["metric"], len(sp["gts"])
    return {"answer_correctness": 1 + 2 * g, "context_precision": g, "context_recall": 2 * g, "context_relevance": 1, "hallucination": 1, "summary_coherence": 1}.get(m, 2)


def execute(sc, ctx):
    from valor_lite.text_generation import Evaluator

    prompt = PROMPTS[sc["prompt"]]
    rng = random.Random(sc["gseed"])
    client = Garbage(prompt, rng) if sc["mode"] == "garbage" else L.Client(prompt)
    ev = None
    for sp in sc["evs"]:
        if ev is None or not sc["shared"]:
            ev = Evaluator(client=client, retries=sp["retries"], default_system_prompt=prompt)
        ev.retries = sp["retries"]
        s = L.Session(sp)
        client.begin(s)
        o = attempt(L.evaluate, ev, sp)
        L.settle(s)
        ctx.runs += 1
        ctx.steps += s.calls
        for b in s.bad:
            ctx.fired("answer: " + b)
        limit = (1 + sp["retries"]) * calls_per_attempt(sp)
        if s.calls > limit:
            raise Violation("more calls than the allowed attempts need", f"{sp['metric']}: {s.calls} calls, at most {limit} with {sp['retries']} retries")
        if sc["mode"] == "garbage":
            if (sp["none"] and sp["metric"] in L.NEEDS_CONTEXT) or (sp["metric"] == "hallucination" and not sp["ctx"]):
                continue
            if not o.ok:
                raise Violation("an answer of the model escaped as an exception", f"{sp['metric']}: {o!r}"[:600])
            v = o.value
            if v is None:
                raise Violation("an evaluation returned nothing", sp["metric"])
            if v.type == "Error":
                L.check_error(v)
                ctx.count("error metric")
            else:
                if v.type != L.TYPE[sp["metric"]]:
                    raise Violation("a metric of another type was returned", f"{sp['metric']}: {v.type}")
                L.check_range(v, sp["metric"])
                ctx.count("value")
                if s.bad:
                    ctx.count("value after damage")
            ctx.log(sp["metric"], v.to_dict(), s.calls)
        else:
            w = L.model(sp)
            L.check_metric(o, sp, w)
            ws = w["session"]
            if s.attempt != ws.attempt:
                raise Violation("another number of attempts was made", f"{sp['metric']}: {s.attempt} failed attempts, expected {ws.attempt}")
            if sc["mode"] == "hopeless" and "error" in w and s.calls != 1 + sp["retries"]:
                raise Violation("another number of attempts was made", f"{sp['metric']}: {s.calls} calls for {sp['retries']} retries")
            if "error" in w and sc["mode"] == "hopeless" and sp["retries"]:
                # the failure named is the last attempt's: the one that attempt alone gives
                s1 = L.Session(sp)
                s1.attempt = sp["retries"]
                client.begin(s1)
                alone = attempt(L.evaluate, Evaluator(client=client, retries=0, default_system_prompt=prompt), sp)
                if not alone.ok or alone.value.value != o.value.value:
                    raise Violation("an error metric does not name the last failure", f"{sp['metric']}: {o.value.value} but the last attempt alone gives {alone!r}"[:600])
                ctx.count("last failure named")
            ctx.count("error metric" if "error" in w else "value" if "value" in w else "refused")
            if "value" in w and s.attempt:
                ctx.count("value after retry")
            ctx.log(sp["metric"], w.get("value"), w.get("error"), s.log)
        if s.bad:
            ctx.nontrivial = True
