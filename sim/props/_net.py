"""Simulated provider: the real OpenAI and Mistral SDKs over a simulated HTTP transport and clock."""
import json
import random
import time

from sim.util import Violation
from . import _llm as L

_real = {}


class Net:
    """Routes every HTTP request of this process to the simulated provider while active."""

    def __init__(self, handler):
        self.handler = handler
        self.slept = 0.0

    def __enter__(self):
        import httpx

        mods = [httpx]
        try:
            import httpx2

            mods.append(httpx2)
        except ImportError:
            pass
        self.mods = [(m, m.HTTPTransport.handle_request) for m in mods]
        for m, _ in self.mods:
            m.HTTPTransport.handle_request = self._route(m)
        self.sleep = time.sleep

        def sleep(s):
            self.slept += s

        time.sleep = sleep
        random.seed(1)
        return self

    def _route(self, m):
        def handle_request(transport, request):
            body = json.loads(request.read())
            r = self.handler(str(request.url.host), body)
            if isinstance(r, str):
                raise {"connect": m.ConnectError, "timeout": m.ReadTimeout, "reset": m.ReadError, "protocol": m.RemoteProtocolError}[r]("simulated", request=request)
            code, payload = r
            if isinstance(payload, bytes):
                return m.Response(code, content=payload, headers={"content-type": "application/json"})
            return m.Response(code, json=payload)

        return handle_request

    def __exit__(self, *a):
        for m, f in self.mods:
            m.HTTPTransport.handle_request = f
        time.sleep = self.sleep


class Provider(L.Client):
    """Answers completion requests; transient: {request number: [fault, times]}."""

    def __init__(self, prompt, kind, model_name, seed, transient):
        super().__init__(prompt, model_name=model_name)
        self.kind, self.seed = kind, seed
        self.transient = {int(k): list(v) for k, v in (transient or {}).items()}
        self.n = 0
        self.usage = [0, 0]
        self.requests = 0
        self.fired = []

    def __call__(self, host, body):
        try:
            return self._handle(host, body)
        except Violation as e:
            self.here.s.violation = self.here.s.violation or e
            raise

    def _handle(self, host, body):
        self.requests += 1
        s = self.here.s
        if body["model"] != self.model_name or body.get("seed") != self.seed:
            raise Violation("a request names another model or seed", str({k: v for k, v in body.items() if k != "messages"}))
        t = self.transient.get(self.n)
        if t and t[1] > 0:
            t[1] -= 1
            self.fired.append("transient " + t[0])
            s.transient = True
            return fault(t[0])
        fatal = getattr(s, "fatal", None)
        if fatal is not None:
            if body["messages"] != fatal[1] or not fatal[2]:
                raise Violation("the model was asked again after a call had failed", f"{s.sp['metric']}: {fatal[0]}")
            return fault(fatal[0])
        self.n += 1
        s.nocontent = False
        out, info = self.reply(body["messages"])
        rng = random.Random(f"{s.sp['seed']}/{s.calls}")
        usage = {"prompt_tokens": rng.randint(1, 500), "completion_tokens": rng.randint(1, 500)}
        usage["total_tokens"] = sum(usage.values())
        finish, content = "stop", out
        if out is None:
            self.fired.append(info)
            s.raised = None
            if info in FINISH:
                s.fatal = (info, body["messages"], False)
                finish, content = info, s.good
            else:
                s.fatal = (info, body["messages"], True)
                return fault(info)
        elif s.nocontent:
            content = None
            self.fired.append("no content")
        if self.kind == "openai" and rng.random() < 0.1:
            usage = None
            self.fired.append("no usage")
        if usage:
            self.usage[0] += usage["prompt_tokens"]
            self.usage[1] += usage["completion_tokens"]
        r = {"id": "sim", "object": "chat.completion", "created": 1, "model": self.model_name,
             "choices": [{"index": 0, "finish_reason": finish, "message": {"role": "assistant", "content": content}}]}
        r["usage"] = usage
        if self.kind == "mistral" and usage is None:
            r["usage"] = {"prompt_tokens": 0, "completion_tokens": 0, "total_tokens": 0}
        return 200, r


FINISH = ["length", "content_filter", "model_length", "error"]
FATAL = {"openai": ["length", "length", "content_filter", "content_filter", "400", "401", "404", "500", "503", "429", "connect", "timeout", "reset", "protocol", "garbled"],
         "mistral": ["length", "length", "model_length", "error", "400", "401", "500", "503", "429", "connect", "timeout", "reset", "garbled"]}
TRANSIENT = {"openai": ["500", "503", "429", "connect", "timeout", "reset", "408", "409", "502"], "mistral": []}


def fault(name):
    if name in ("connect", "timeout", "reset", "protocol"):
        return name
    if name == "garbled":
        return 200, b'{"id": "x", "choices": [{"index": 0, "finish_re'
    return int(name), {"error": {"message": "simulated", "type": "simulated", "code": name}}
