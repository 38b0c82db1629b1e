"""A simulated evaluator LLM, and the reference model of the LLM-guided metrics.

The LLM answers what it is asked: it recognises the kind of request and the
items in it from the prompt alone, and every answer is a function of the seed,
the attempt and the request, never of the order in which requests arrive.
"""
import json
import random
import re
import sys
import threading

from sim import sched
from sim.util import Violation

METRICS = ["answer_correctness", "answer_relevance", "bias", "context_precision", "context_recall", "context_relevance",
           "faithfulness", "hallucination", "summary_coherence", "toxicity"]
TYPE = {"answer_correctness": "AnswerCorrectness", "answer_relevance": "AnswerRelevance", "bias": "Bias",
        "context_precision": "ContextPrecision", "context_recall": "ContextRecall", "context_relevance": "ContextRelevance",
        "faithfulness": "Faithfulness", "hallucination": "Hallucination", "summary_coherence": "SummaryCoherence", "toxicity": "Toxicity"}
NEEDS_CONTEXT = {"answer_correctness", "context_precision", "context_recall", "context_relevance", "faithfulness", "hallucination"}
ITEM = {"answer_relevance": "s", "bias": "o", "toxicity": "o", "context_precision": "x", "context_recall": "s",
        "context_relevance": "x", "faithfulness": "c", "hallucination": "x"}
LETTER = {"claims": "c", "opinions": "o", "statements": "s"}
TOK = re.compile(r"zq(\d+)([a-z])([0-9a-z]*)Z")
TOPIC = [("toxicity", r"opinion is toxic"), ("bias", r"opinion is biased"), ("answer_relevance", r"'yes', 'idk' or 'no'"),
         ("context_precision", r"useful for producing the ground truth"), ("context_recall", r"attributable to the context"),
         ("context_relevance", r"context is relevant to the query"), ("faithfulness", r"claim is implied by the list"),
         ("hallucination", r"text contradicts the context")]
DECO = ["{}", "What about {}?", "{}\n\nand more", "it's \"{}\"", "{{{}}}", "%s {} %d", "  {}  ", "{{text}} {} {{0}}", "\u00e9\u4e2d {} \U0001f600", "JSON: {{\"verdicts\": []}} {}",
        "back\\slash {}\\", "{}"]


# ---- texts ----
def text(tok, d):
    return DECO[d % len(DECO)].format(tok)


def tok(ev, letter, rest=""):
    return f"zq{ev}{letter}{rest}Z"


def gen_eval(rng, ev, metric=None, retries=None, faulty=0.5, exc=False):
    metric = metric or rng.choice(METRICS)
    n = rng.choice([0, 0, 1, 1, 2, 3]) if retries is None else retries
    attempts = []
    p = faulty
    for _ in range(n + 1):
        if rng.random() < p:
            attempts.append([rng.choice([0, 1, 2, 2, 2, 4, 4] if metric == "answer_correctness" else [0, 0, 0, 1, 1, 2, 3, 4]), rng.randrange(1000)])
        else:
            attempts.append(None)
    return {"ev": ev, "metric": metric, "seed": rng.randrange(10**6), "retries": n, "attempts": attempts,
            "q": rng.randrange(12), "r": rng.randrange(12),
            "gts": [rng.randrange(12) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))],
            "ctx": [rng.randrange(12) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))],
            "dup": rng.random() < 0.15, "none": rng.random() < 0.04, "most": rng.choice([1, 3, 3, 5, 9]), "yes": rng.choice([10, 30, 50, 70, 90, 100])}


def again(rng, evs, p=0.3):
    """The same texts once more, for the same or another metric: the model is asked again and answers anew."""
    if evs and rng.random() < p:
        old = rng.choice(evs)
        e = gen_eval(rng, old["ev"], retries=len(old["attempts"]) - 1, metric=old["metric"] if rng.random() < 0.6 else None, faulty=0.3)
        evs.append({**e, **{k: old[k] for k in ("q", "r", "gts", "ctx", "dup", "none", "most")}})
    return evs


def query_response(sp):
    from valor_lite.text_generation import Context, QueryResponse

    q, r, gts, ctx = inputs(sp)
    return QueryResponse(query=q, response=r, context=None if sp["none"] else Context(groundtruth=gts, prediction=ctx))


def inputs(sp):
    ev = sp["ev"]
    q = text(tok(ev, "q"), sp["q"])
    r = text(tok(ev, "r"), sp["r"])
    gts = [text(tok(ev, "g", str(i)), d) for i, d in enumerate(sp["gts"])]
    ctx = [text(tok(ev, "x", str(0 if sp["dup"] and i % 2 else i)), d) for i, d in enumerate(sp["ctx"])]
    return q, r, gts, ctx


# ---- the simulated LLM ----
class Session:
    """What the LLM keeps about one evaluation: which attempt it is in."""

    def __init__(self, sp, fixed=None):
        self.sp = sp
        self.attempt = 0
        self.ncall = 0
        self.calls = 0
        self.occ = {}
        self.log = []
        self.bad = []
        self.fixed = fixed
        self.raised = None
        self.violation = None
        self.nocontent = False
        self.exception = None
        self.good = None
        self.prompts = []

    def answer(self, kind, topic, items, tokens):
        """kind: claims/opinions/statements/ac/verdicts/coherence; items: ordered item tokens (two lists for ac)."""
        sp = self.sp
        key = json.dumps([kind, topic, sorted(tokens)])
        occ = self.occ.get(key, 0)
        self.occ[key] = occ + 1
        if self.fixed is not None:
            occ = 0
        self.calls += 1
        rng = random.Random(f"{sp['seed']}/{self.attempt}/{key}/{occ}")
        self.log.append([self.attempt, kind, topic, sorted(tokens)])
        ok, good = self._valid(rng, kind, topic, items, occ)
        f = None
        if self.fixed is not None:
            if self.fixed and (self.fixed == topic or self.fixed == kind):
                f = [0, rng.randrange(1000)]
        elif self.attempt < len(sp["attempts"]):
            f = sp["attempts"][self.attempt]
            if f is not None and f[0] != self.ncall:
                f = None
        self.ncall += 1
        if f is None:
            return self._dress(rng, kind, good), ok
        if isinstance(f[1], str) and f[1] != "none":
            self.raised = f[1]
            self.good = self._dress(rng, kind, good)
            return None, f[1]
        if f[1] == "none":
            b, name = "", "no content"
            self.nocontent = True
        else:
            b, name = invalid(random.Random(f[1]), kind, topic, good, items)
        if self.fixed is None:
            self.attempt += 1
            self.ncall = 0
            self.occ = {}
        self.bad.append(name)
        return b, None

    def _valid(self, rng, kind, topic, items, occ):
        sp = self.sp
        if kind in LETTER:
            n = rng.randrange(sp["most"] + 1)
            if rng.random() < 0.1:
                n = 0
            src = items[0] if items else "n"
            src = "".join(TOK.match(src).group(2, 3)) if items else "n"
            out = [tok(sp["ev"], LETTER[kind], f"{src}a{self.attempt}k{occ}i{i}") for i in range(n)]
            if rng.random() < 0.2:  # a model may repeat itself
                out = [out[0] if i % 2 else t for i, t in enumerate(out)]
            deco = {t: rng.randrange(12) for t in out}
            return [len(out), out], {kind: [text(t, deco[t]) for t in out]}
        if kind == "ac":
            P, G = items
            tp = [t for t in P if rng.random() * 100 < sp["yes"]]
            fp = [t for t in P if t not in tp]
            tp = [t for t in P if t in tp]
            fn = [t for t in G if rng.random() * 100 >= sp["yes"]]
            return [len(tp), len(fp), len(fn)], {"TP": [f"p {t}" for t in tp], "FP": [f"p {t}" for t in fp], "FN": [f"g {t}" for t in fn]}
        if kind == "coherence":
            v = rng.randint(1, 5)
            return v, v
        vs = []
        for _ in items:
            if rng.random() * 100 < sp["yes"]:
                vs.append("yes")
            else:
                vs.append(rng.choice(["no", "idk"]) if topic == "answer_relevance" else "no")
        return vs, {"verdicts": [{"analysis": f"because {t}", "verdict": v} for t, v in zip(items, vs)]}

    def _dress(self, rng, kind, good):
        if kind == "coherence":
            return rng.choice(["{}", "{}\n", "Score: {}", "  {}", "{}/5", "The coherence is {} out of 5."]).format(good)
        s = json.dumps(good, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 2]))
        return rng.choice(["%s", "%s", "```json\n%s\n```", "Sure! Here you go:\n%s\nHope it helps.", "JSON:\n%s"]).replace("%s", s)


def invalid(rng, kind, topic, good, items):
    """An answer that no reading of the instructions allows."""
    if kind == "coherence":
        c = [("", "empty"), ("none", "no number"), ("0", "out of range"), ("6", "out of range"), ("-3", "negative"), ("10", "out of range"), ("55", "out of range"),
             ("-1 or 3", "negative"), ("9" * 5000, "huge number"), ("five", "no number"), ("{}", "no number")]
        return rng.choice(c)
    s = json.dumps(good)
    c = [("", "empty"), ("I cannot help with that.", "no json"), (s[: len(s) // 2], "truncated"), (s[:-1], "truncated"), ("[]", "no object"), ("{}", "missing key"),
         ("{" + s, "bad json"), ("{'a': 1}", "bad json"), ("}" + "{", "bad json"), ("{" + "[" * 200000 + "}", "deep nesting"),
         (json.dumps({"other": 1}), "missing key"), ("null", "no object"), ("{\"a\": 1" + "0" * 5000 + "}", "huge number")]
    for k in good:
        for v, n in [(None, "null"), ("text", "text for list"), ({"0": "a"}, "object for list"), (3, "number for list"), (True, "boolean for list")]:
            c.append((json.dumps({**good, k: v}), n))
        c.append((json.dumps({a: b for a, b in good.items() if a != k}), "missing key"))
    if any(good.values()):  # a line break inside a string is no JSON
        c += [(s[:-3] + "\n" + s[-3:] if s[-3] == '"' else s[:-4] + "\n" + s[-4:] if kind == "verdicts" else "{" + s, "bad json")] * 2
    if kind == "verdicts":
        v = good["verdicts"]
        x = {"analysis": "a", "verdict": "yes"}
        c += [(json.dumps({"verdicts": v + [x]}), "one too many"), (json.dumps({"verdicts": v + [x] * (len(v) + 1)}), "too many")] * 3
        if v:
            c += [(json.dumps({"verdicts": v[:-1]}), "one too few"), (json.dumps({"verdicts": []}), "none")] * 3
            i = rng.randrange(len(v))
            bad = ["maybe", "Yes", "YES", " yes", "", "y", "true", None, True, 1, ["yes"], {"verdict": "yes"}, "yes.", "unknown"]
            if topic != "answer_relevance":
                bad += ["idk", "idk"]
            for b in bad:
                c.append((json.dumps({"verdicts": v[:i] + [{"analysis": "a", "verdict": b}] + v[i + 1:]}), "verdict out of range"))
            for b in ["yes", None, ["yes"], 1]:
                c.append((json.dumps({"verdicts": v[:i] + [b] + v[i + 1:]}), "verdict is no object"))
            for b in [{"verdict": "yes"}, {"analysis": "a"}, {}, {"analysis": "a", "verdict": "yes", "extra": 1}, {"analysis": "a", "Verdict": "yes"}]:
                c.append((json.dumps({"verdicts": v[:i] + [b] + v[i + 1:]}), "verdict has other keys"))
    elif kind == "ac":
        P, G = items
        c += [(json.dumps({**good, "TP": good["TP"] + ["more"]}), "too many TP"), (json.dumps({**good, "FP": good["FP"] + ["more"]}), "too many FP"),
              (json.dumps({**good, "FN": ["x"] * (len(G) + 1)}), "too many FN")] * 4
        if good["TP"]:
            c += [(json.dumps({**good, "TP": good["TP"][:-1]}), "too few TP")] * 4
            c += [(json.dumps({**good, "TP": good["TP"][:-1] + [1]}), "number for text")]
        if good["FP"]:
            c += [(json.dumps({**good, "FP": good["FP"][:-1]}), "too few FP")] * 4
        c += [(json.dumps({**good, "FN": [None]}), "null for text")]
    else:
        for b in [1, None, ["a"], {"text": "a"}, True]:
            c.append((json.dumps({k: v + [b] for k, v in good.items()}), "item is no text"))
    return rng.choice(c)


def recognise(user):
    """Kind and topic of a request, from its text."""
    s = TOK.sub("", user)
    if re.search(r"['\"]TP['\"]", s) and re.search(r"['\"]FN['\"]", s):
        return "ac", "answer_correctness"
    m = re.search(r"['\"](claims|opinions|statements)['\"] key", s)
    if m:
        return m.group(1), None
    if re.search(r"['\"]verdicts['\"] key", s):
        for t, pat in TOPIC:
            if re.search(pat, s):
                return "verdicts", t
        return "verdicts", None
    if "oherence" in s:
        return "coherence", "summary_coherence"
    return None, None


class Client:
    """The LLM client given to the evaluator; sessions are found by the calling thread."""

    def __init__(self, prompt, check=True, model_name="sim"):
        self.prompt = prompt
        self.model_name = model_name
        self.here = threading.local()
        self.garbage = None

    def begin(self, session):
        self.here.s = session

    def reply(self, messages):
        """(text, raise name) for a request; also checks the request itself."""
        try:
            return self._reply(messages)
        except Violation as e:
            self.here.s.violation = self.here.s.violation or e
            raise

    def _reply(self, messages):
        s = self.here.s
        if s.raised:
            raise Violation("the model was asked again after a call had failed", f"{s.sp['metric']}: {s.raised}")
        pause()
        if [m["role"] for m in messages] != ["system", "user"] or messages[0]["content"] != self.prompt:
            raise Violation("the configured system prompt does not introduce the request", str(messages)[:300])
        user = messages[1]["content"]
        toks = [m.group(0) for m in TOK.finditer(user)]
        for m in TOK.finditer(user):
            if int(m.group(1)) != s.sp["ev"]:
                raise Violation("a request carries another evaluation's data", m.group(0))
            if m.group(2) in "sco":
                a = re.search(r"a(\d+)k", m.group(3))
                if s.fixed is None and int(a.group(1)) != s.attempt:
                    raise Violation("a request carries data of an earlier attempt", f"{m.group(0)} in attempt {s.attempt}")
        kind, topic = recognise(user)
        if kind is None:
            raise Violation("a request asks for nothing the evaluation needs", user[:300])
        metric = s.sp["metric"]
        if kind == "verdicts" and topic is None:
            topic = metric
        items = toks
        if kind == "verdicts":
            items = [t for t in toks if TOK.match(t).group(2) == ITEM.get(topic, "?")]
        elif kind == "ac":
            st = [t for t in toks if TOK.match(t).group(2) == "s"]
            items = [[t for t in st if TOK.match(t).group(3)[:1] == "r"], [t for t in st if TOK.match(t).group(3)[:1] == "g"]]
        s.prompts.append((kind, topic, user))
        return s.answer(kind, topic, items, toks)

    def __call__(self, messages):
        out, info = self.reply(messages)
        if out is None:
            e = EXC[info]()
            self.here.s.exception = e
            raise e
        return out


class Unavailable(Exception):
    pass


def _openai_error():
    import httpx
    import openai

    return openai.APIConnectionError(request=httpx.Request("POST", "http://sim/"))


EXC = {"timeout": lambda: TimeoutError("simulated timeout"), "reset": lambda: ConnectionResetError(104, "simulated reset"), "value": lambda: ValueError("simulated client failure"),
       "type": lambda: TypeError("simulated client failure"), "key": lambda: KeyError("choices"), "own": lambda: Unavailable("overloaded"), "memory": lambda: MemoryError("simulated"),
       "openai": _openai_error, "runtime": lambda: RuntimeError("simulated"), "json": lambda: json.JSONDecodeError("simulated", "", 0)}


# ---- reference model ----
class Stop(Exception):
    pass


class Refuse(Exception):
    pass


def model(sp, fixed=None):
    """What the evaluation of sp has to give: value / error / refuse / raise."""
    s = Session(sp, fixed)
    m = sp["metric"]
    out = {"session": s}
    if sp["none"] and m in NEEDS_CONTEXT:
        return {**out, "refuse": True}
    for _ in range(1 + sp["retries"]):
        start = len(s.log)
        try:
            out["value"] = _plan(m, sp, s)
            out["final"] = s.log[start:]
            return out
        except Stop as e:
            if e.args:
                return {**out, "raise": e.args[0]}
        except Refuse:
            return {**out, "refuse": True}
    out["error"] = True
    return out


def _plan(m, sp, s):
    ev = sp["ev"]
    q, r = [tok(ev, "q")], [tok(ev, "r")]
    g = [tok(ev, "g", str(i)) for i in range(len(sp["gts"]))]
    x = [tok(ev, "x", str(0 if sp["dup"] and i % 2 else i)) for i in range(len(sp["ctx"]))]

    # decorated text may repeat no token, so a text is its token
    def ask(kind, topic, items, toks):
        b, ok = s.answer(kind, topic, items, toks)
        if b is None:
            raise Stop(ok)
        if ok is None:
            raise Stop()
        return ok

    def share(v):
        return v.count("yes") / len(v)

    if m == "answer_correctness":
        ps = ask("statements", None, r, r)[1]
        best = 0.0
        for t in g:
            gs = ask("statements", None, [t], [t])[1]
            tp, fp, fn = ask("ac", m, [ps, gs], q + ps + gs)
            best = max(best, tp / (tp + 0.5 * (fp + fn)) if tp else 0.0)
        return best
    if m == "answer_relevance":
        ss = ask("statements", None, r, r)[1]
        v = ask("verdicts", m, ss, q + ss)
        return share(v) if v else 0.0
    if m in ("bias", "toxicity"):
        os_ = ask("opinions", None, r, r)[1]
        return share(ask("verdicts", m, os_, os_)) if os_ else 0.0
    if m == "context_precision":
        if not x and not g:
            return 1.0
        if not x or not g:
            return 0.0
        useful = [False] * len(x)
        for t in g:
            for i, v in enumerate(ask("verdicts", m, x, q + x + [t])):
                useful[i] = useful[i] or v == "yes"
        p = [sum(useful[:k + 1]) / (k + 1) for k in range(len(x)) if useful[k]]
        return sum(p) / len(p) if p else 0.0
    if m == "context_recall":
        if not x and not g:
            return 1.0
        if not x or not g:
            return 0.0
        best = 0.0
        for t in g:
            gs = ask("statements", None, [t], [t])[1]
            if gs:
                best = max(best, share(ask("verdicts", m, gs, x + gs)))
        return best
    if m == "context_relevance":
        return share(ask("verdicts", m, x, q + x)) if x else 0.0
    if m == "faithfulness":
        if not x:
            return 0.0
        cs = ask("claims", None, r, r)[1]
        return share(ask("verdicts", m, cs, x + cs)) if cs else 1.0
    if m == "hallucination":
        if not x:
            raise Refuse()
        return share(ask("verdicts", m, x, x + r))
    if m == "summary_coherence":
        return ask("coherence", m, [], q + r)
    raise AssertionError(m)


# ---- running the real evaluator ----
def evaluate(evaluator, sp, qr=None):
    qr = qr or query_response(sp)
    return getattr(evaluator, "compute_" + sp["metric"])(qr)


def pause(n=3):
    """The time an answer takes: other threads may run."""
    s = getattr(sched._current, "sched", None)
    if s is not None:
        for _ in range(n):
            s.yield_point(sched._current.idx, sys._getframe())


def settle(s):
    if s.violation:
        raise s.violation


def check_metric(o, sp, want, model_name="sim", cls=""):
    """The outcome of a real evaluation against the model's."""
    m = sp["metric"]
    if want.get("refuse"):
        if o.ok or not isinstance(o.error, ValueError):
            raise Violation(cls + "an evaluation without its context was not refused", f"{m}: {o.value!r} {o!r}")
        return
    if "raise" in want:
        if o.ok:
            raise Violation(cls + "a failed call to the model did not reach the caller", f"{m}: {o.value.to_dict()} instead of {want['raise']}")
        return
    if not o.ok:
        raise Violation(cls + "an evaluation failed with an exception", f"{m}: {o!r}")
    v = o.value
    if v.parameters.get("evaluator") != model_name or v.parameters.get("retries") != sp["retries"] or len(v.parameters) != 2:
        raise Violation(cls + "a metric names another evaluator or number of retries", f"{m}: {v.parameters}")
    if want.get("error"):
        if v.type != "Error":
            raise Violation(cls + "a metric was reported although no attempt gave a valid answer", f"{m}: {v.type} {v.value}")
        check_error(v)
        return
    if v.type != TYPE[m]:
        raise Violation(cls + "a valid attempt did not give the metric asked for", f"{m}: {v.type} {str(v.value)[:300]}")
    if isinstance(v.value, bool) or not isinstance(v.value, (int, float)) or abs(v.value - want["value"]) > 1e-12:
        raise Violation(cls + "a metric differs from its definition over the answers given", f"{m}: {v.value!r}, expected {want['value']!r}")
    check_range(v, m)


def check_error(v):
    if v.type != "Error" or not isinstance(v.value, dict) or set(v.value) != {"type", "message"} or v.value["type"] != "InvalidLLMResponseError" or not isinstance(v.value["message"], str) or not v.value["message"]:
        raise Violation("an error metric does not say what went wrong", str(v.to_dict())[:300])


def check_range(v, m):
    x = v.value
    ok = isinstance(x, (int, float)) and not isinstance(x, bool)
    if ok:
        ok = (isinstance(x, int) and 1 <= x <= 5) if m == "summary_coherence" else 0 <= x <= 1
    if not ok:
        raise Violation("a metric value is out of its range", f"{m}: {x!r}")


def check_requests(s, want, sp):
    """Requests of the deciding attempt: the ones the definition needs, each with its full input."""
    if s.attempt != want["session"].attempt:
        raise Violation("another number of attempts was made", f"{sp['metric']}: attempt {s.attempt}, expected {want['session'].attempt}")
    if "final" in want:
        got = sorted(json.dumps(x) for x in s.log if x[0] == s.attempt) if s.fixed is None else sorted(json.dumps(x) for x in s.log)
        exp = sorted(json.dumps(x) for x in want["final"])
        if got != exp:
            raise Violation("the model was asked something else than the definition needs", f"{sp['metric']}: {got[:4]} expected {exp[:4]}"[:900])
    q, r, gts, ctx = inputs(sp)
    for kind, topic, user in s.prompts:
        for t in [q, r] + gts + ctx:
            k = TOK.search(t).group(0)
            if k in user and not any(f in user for f in (t, repr(t)[1:-1], json.dumps(t)[1:-1], json.dumps(t, ensure_ascii=False)[1:-1])):
                raise Violation("a request carries only part of a text", f"{t!r} in a {kind} request")
        if kind == "verdicts" and ITEM.get(topic) == "x":
            got = [m.group(0) for m in TOK.finditer(user) if m.group(2) == "x"]
            exp = [TOK.search(t).group(0) for t in ctx]
            if got != exp:
                raise Violation("contexts are not presented in their order", f"{got} expected {exp}")
