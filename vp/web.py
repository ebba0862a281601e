"""The workers' real HTTP routes and client, with the network replaced by a
function call: a request is parsed by httpx, matched by the app's own router,
and the real endpoint coroutine is driven to completion."""

from __future__ import annotations

import inspect
import json
import urllib.parse

from . import coop


class Response:
    def __init__(self, status, body, url):
        self.status_code, self._body, self._url = status, body, url
        self.text = json.dumps(body)
        self.content = self.text.encode()

    def json(self):
        return self._body

    @property
    def is_success(self):
        return 200 <= self.status_code < 300

    def raise_for_status(self):
        if self.status_code >= 400:
            import httpx

            req = httpx.Request("PUT", self._url)
            raise httpx.HTTPStatusError(f"{self.status_code} {self._body}", request=req, response=httpx.Response(self.status_code, request=req))
        return self


class _Body:
    def __init__(self, headers, body):
        self.headers = {k.lower(): v for k, v in headers.items()}
        self._b = body

    async def body(self):
        return self._b

    async def json(self):
        return json.loads(self._b)


class _Await:
    def __init__(self, fut):
        self.fut = fut

    def __await__(self):
        return self.fut.result()
        yield


class _Loop:
    def run_in_executor(self, pool, fn, *args):
        return _Await(pool.submit(fn, *args))


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("endpoint suspended on something the harness does not model")


def serve(app, method, path, headers, body):
    """One request through the app's routing table and endpoint."""
    from fastapi import HTTPException
    from pydantic import BaseModel, ValidationError
    from starlette.requests import Request
    from starlette.routing import Match
    from fastapi.encoders import jsonable_encoder

    scope = {"type": "http", "method": method, "path": path, "root_path": "", "headers": []}
    for route in app.router.routes:
        m, child = route.matches(scope)
        if m != Match.FULL:
            continue
        params = child.get("path_params", {})
        kw = {}
        fn = route.endpoint
        hints = inspect.get_annotations(fn, eval_str=False)
        try:
            for n, p in inspect.signature(fn).parameters.items():
                if n in params:
                    kw[n] = params[n]
                    continue
                ann = p.annotation
                if isinstance(ann, str):
                    ann = _resolve(fn, ann)
                if inspect.isclass(ann) and issubclass(ann, BaseModel):
                    try:
                        kw[n] = ann(**json.loads(body))
                    except (ValidationError, TypeError, ValueError) as e:
                        return 422, {"detail": str(e)}
                else:
                    kw[n] = _Body(headers, body)
            import asyncio

            real = asyncio.get_running_loop
            asyncio.get_running_loop = lambda: _Loop()
            try:
                r = fn(**kw)
                if inspect.iscoroutine(r):
                    r = drive(r)
            finally:
                asyncio.get_running_loop = real
            return 200, jsonable_encoder(r)
        except HTTPException as e:
            return e.status_code, {"detail": e.detail}
    return 404, {"detail": "no route"}


def _resolve(fn, ann):
    g = dict(fn.__globals__)
    if fn.__closure__:
        g.update({n: c.cell_contents for n, c in zip(fn.__code__.co_freevars, fn.__closure__, strict=True)})
    return eval(ann, g)  # noqa: S307


class Net:
    """Routes requests of real clients to the apps by host name."""

    def __init__(self):
        self.apps = {}
        self.log = []
        self.hook = None  # hook(method, url) -> None | Exception to raise instead

    def client(self):
        return Client(self)


class Client:
    def __init__(self, net):
        self.net = net

    def request(self, method, url, *, content=None, headers=None, json=None, timeout=None, **k):
        import httpx

        req = httpx.Request(method, url, content=content, headers=headers, json=json)
        coop.point("net")
        if self.net.hook is not None:
            e = self.net.hook(method, url)
            if e is not None:
                raise e
        app = self.net.apps[req.url.host]
        path = urllib.parse.unquote(req.url.raw_path.decode("ascii").split("?", 1)[0])
        st, body = serve(app, method, path, dict(req.headers), req.content)
        self.net.log.append((method, path, st))
        return Response(st, body, url)

    def put(self, url, **k):
        return self.request("PUT", url, **k)

    def post(self, url, **k):
        return self.request("POST", url, **k)

    def get(self, url, **k):
        return self.request("GET", url, **k)

    def close(self):
        pass


def cluster(world, *, config=None, handlers=None, executor=None, async_ops=(), stores=None, root=None):
    """world real HTTP workers sharing one in-process network."""
    import pathlib

    from fastapi import FastAPI

    from mplang.backends.simp_worker import http
    from mplang.backends.simp_worker.infra import WorkerInfra
    from mplang.backends.simp_worker.ops import WORKER_HANDLERS
    from mplang.runtime.object_store import ObjectStore

    from . import boot

    net = Net()
    eps = [f"http://w{r}:1" for r in range(world)]
    comms, infras = [], []
    for r in range(world):
        real = http.httpx.Client
        http.httpx.Client = lambda *a, **k: net.client()
        try:
            comm = http.HttpCommunicator(r, world, eps, config=config() if config else None)
        finally:
            http.httpx.Client = real
        store = stores[r] if stores else ObjectStore()
        infra = WorkerInfra(rank=r, world_size=world, communicator=comm, store=store, handlers={**WORKER_HANDLERS, **(handlers or {})},
                            root_dir=pathlib.Path(root or boot.SCRATCH) / f"w{r}", executor=executor, async_ops=frozenset(async_ops))
        app = FastAPI()
        import concurrent.futures

        http.register_routes(app, rank=r, world_size=world, infra=infra, comm=comm, store=store,
                             exec_pool=concurrent.futures.ThreadPoolExecutor(max_workers=2))
        net.apps[f"w{r}"] = app
        comms.append(comm)
        infras.append(infra)
    return net, eps, comms, infras
