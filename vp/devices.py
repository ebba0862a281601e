"""Device programs on every party's real worker, with an ideal secure engine and an ideal cipher.

The secure engine's stand-in keeps, for every sharing, an opaque identity: shares of one value by one sharing (or by one joint run of
one program on one link) belong together, and only a complete set opens.  What a party can read from its messages is what it gets
in the clear, ciphertexts under keys it holds, and complete sets of shares."""

import contextlib

import numpy as np

from . import mesh, shlo
from .proto import prim


class SpuError(Exception):
    pass


@contextlib.contextmanager
def engine():
    import spu.api as api
    import spu.libspu as libspu

    count, values = [0], {}

    class Share(libspu.Share):
        def __init__(self, sid, idx, n, secret):
            self.meta, self.share_chunks = b"vp", [repr((sid, idx)).encode()]
            self.sid, self.idx, self.n, self.secret = sid, idx, n, secret

        def __deepcopy__(self, memo):
            return self

    def conf(c):
        return tuple(sorted((k, str(v)) for k, v in vars(c).items()))

    class Io:
        def __init__(self, world_size, config):
            self.n, self.config = world_size, config

        def make_shares(self, arr, vis, owner_rank=-1):
            secret = vis is libspu.Visibility.VIS_SECRET
            count[0] += 1
            arr = np.asarray(arr)
            sid = ("in", count[0], conf(self.config)) if secret else ("pub", str(arr.dtype), arr.shape, tuple(str(v) for v in arr.ravel()))
            values[sid] = arr
            return [Share(sid, i, self.n, secret) for i in range(self.n)]

        def reconstruct(self, shares):
            if len(shares) != self.n:
                raise SpuError(f"{len(shares)} shares for {self.n}")
            return opened(shares)

    def opened(shares):
        if len({s.sid for s in shares}) != 1:
            raise SpuError("shares of different values")
        if shares[0].secret and ([s.idx for s in shares] != list(range(len(shares))) or shares[0].n != len(shares)):
            raise SpuError(f"shares {[s.idx for s in shares]} of {shares[0].n}")
        return values[shares[0].sid]

    class Runtime:
        def __init__(self, link, config):
            self.link, self.config, self.vars = link, config, {}

        def set_var(self, name, share):
            self.vars[name] = share

        def get_var(self, name):
            return self.vars[name]

        def run(self, ex):
            n, me = self.link.world_size, self.link.rank
            ins = [self.vars[k] for k in ex.input_names]
            for s in ins:
                if s.secret and (s.idx != me or s.n != n):
                    raise SpuError(f"party {me} of {n} runs on share {s.idx} of {s.n}")
            who = tuple(str(p) for p in self.link.desc.parties)
            key = ("run", bytes(ex.code), tuple(s.sid for s in ins), conf(self.config), who, self.link.name)
            for s in ins:
                if s.sid[0] == "in" and s.sid[2] != conf(self.config):
                    raise SpuError("shares made for another configuration")
            text = api._TEXTS[bytes(ex.code)]
            outs = None
            for i, name in enumerate(ex.output_names):
                sid = (*key, i)
                if sid not in values:
                    if outs is None:
                        outs = execute(text, [values[s.sid] for s in ins])
                    values[sid] = outs[i]
                self.vars[name] = Share(sid, me, n, True)

    old = api.Io, api.Runtime
    api.Io, api.Runtime = Io, Runtime
    try:
        yield type("Engine", (), {"Share": Share, "values": values})
    finally:
        api.Io, api.Runtime = old


def execute(text, ins):
    ctx, funcs = shlo.parse(text)
    with ctx:
        ts = [shlo.ty(p) for p in funcs["main"].regions[0].blocks[0].arguments]
    cast = []
    for a, t in zip(ins, ts, strict=True):
        a = np.asarray(a)
        if a.dtype == object:
            a = shlo.tidy(shlo.emap(lambda x: t.wrap(x) if not t.bool else x, t, a), t)
        elif a.dtype != t.np:
            a = a.astype(t.np)
        cast.append(a)
    return shlo.run(text, cast)


class Ct:
    """What sealing `value` under `key` gives."""

    def __init__(self, key, value):
        self.key, self.value = key, value


class Wrong(Exception):
    pass


class Run:
    """One execution of a device program."""

    def __init__(self, E, spec, prog, inputs, name):
        """prog() returns a flat list of device objects; inputs: {tag: value}."""
        import mplang as mp
        from mplang.edsl.registry import get_impl

        self.log, self.keys, self.failed, self.name = [], {r: set() for r in range(spec.world_size)}, None, name
        with engine() as self.engine, mp.make_compile_context(cluster_spec=spec):
            self.graph, self.types = mesh.trace(prog)
            real = {n: get_impl(n) for n in ("crypto.hkdf", "crypto.sym_encrypt", "crypto.sym_decrypt")}

            def hkdf(interp, op, *a):
                k = real["crypto.hkdf"](interp, op, *a)
                self.keys[mesh.rank_of(interp)].add(k.key_bytes)
                return k

            def enc(interp, op, key, pt):
                return Ct(key.key_bytes, pt)

            def dec(interp, op, key, ct, *a):
                if not isinstance(ct, Ct) or ct.key != key.key_bytes:
                    raise Wrong("another key")
                return ct.value

            hs = {"vp.in": lambda interp, op: inputs[op.attrs["tag"]], "tensor.run_jax": shlo.run_jax, "crypto.hkdf": hkdf}
            if not E.concrete:
                hs.update({"crypto.sym_encrypt": enc, "crypto.sym_decrypt": dec})
            res = mesh.run_parties(E, self.graph, spec.world_size, extra=hs, name=name, tap=self.log, max_steps=200000, delays=0)
            if isinstance(res, tuple):
                self.failed = res.cause or RuntimeError(f"{res[0]}: {res[1]}")
                self.out = None
            else:
                for st, v in res.values():
                    if st == "error":
                        self.failed = v
                self.out = {r: v for (_, r), (_, v) in res.items()}

    def readable(self, rank, keys=True):
        """Contents rank reads off the wire, in order: lists of words; keys are judged by the caller."""
        out, held = [], {}
        for s, d, v in self.log:
            if d == rank and s != rank:
                out += self.open(v, rank, held, keys)
        return out

    def open(self, v, rank, held, keys):
        from mplang.backends.crypto_impl import BytesValue
        from mplang.backends.spu_impl import SPUShareValue
        from mplang.backends.tensor_impl import TensorValue

        if isinstance(v, (list, tuple)):
            return [x for e in v for x in self.open(e, rank, held, keys)]
        if isinstance(v, Ct):
            return self.open(v.value, rank, held, keys) if keys and v.key in self.keys[rank] else []
        if isinstance(v, BytesValue):
            if not keys:
                return []
            from cryptography.hazmat.primitives.ciphers.aead import AESGCM
            from mplang.edsl import serde

            raw = v.unwrap()
            for k in self.keys[rank]:
                try:
                    m = serde.loads(AESGCM(k).decrypt(raw[:12], raw[12:], None))
                except Exception:  # noqa: BLE001
                    continue
                return self.open(m, rank, held, keys)
            return []
        if isinstance(v, SPUShareValue):
            s = v.libspu_share
            if not s.secret:
                return self.words(self.engine.values[s.sid])
            held.setdefault(s.sid, set()).add(s.idx)
            return self.words(self.engine.values[s.sid]) if len(held[s.sid]) == s.n else []
        if isinstance(v, (TensorValue, np.ndarray, int, float)):
            return self.words(v)
        return []

    @staticmethod
    def words(v):
        if hasattr(v, "unwrap"):
            v = v.unwrap()
        return list(np.asarray(v).ravel())

    def key_messages(self):
        from mplang.backends.crypto_impl import PrivateKeyValue, SymmetricKeyValue

        return [(s, d) for s, d, v in self.log if isinstance(v, (PrivateKeyValue, SymmetricKeyValue))]


def held(spec, dev, tag, ty):
    """A private value on a device with one party."""
    from mplang.dialects import simp
    from mplang.libs.device.api import set_dev_attr

    rank = spec.devices[dev].members[0].rank
    return set_dev_attr(simp.pcall_static((rank,), lambda: prim().bind(tag=tag, ty=ty)), dev)
