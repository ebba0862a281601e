import json
import types

import numpy as np

from . import libspu

_NP = {
    "bool": libspu.DataType.DT_I1, "int8": libspu.DataType.DT_I8, "uint8": libspu.DataType.DT_U8,
    "int16": libspu.DataType.DT_I16, "uint16": libspu.DataType.DT_U16, "int32": libspu.DataType.DT_I32,
    "uint32": libspu.DataType.DT_U32, "int64": libspu.DataType.DT_I64, "uint64": libspu.DataType.DT_U64,
    "float16": libspu.DataType.DT_F16, "float32": libspu.DataType.DT_F32, "float64": libspu.DataType.DT_F64,
}
_SEED = [7]


def _share(arr, count, vis, rng):
    arr = np.ascontiguousarray(arr) if np.ndim(arr) else np.asarray(arr)
    raw = np.frombuffer(arr.tobytes(), np.uint8)
    meta = json.dumps({"dtype": str(arr.dtype), "shape": list(arr.shape), "vis": vis.name}).encode()
    parts = []
    if vis is libspu.Visibility.VIS_SECRET:
        acc = np.zeros_like(raw)
        for _ in range(count - 1):
            m = rng.integers(0, 256, raw.shape, dtype=np.uint8)
            parts.append(m)
            acc = acc + m
        parts.append(raw - acc)
    else:
        parts = [raw] * count
    out = []
    for p in parts:
        s = libspu.Share()
        s.meta, s.share_chunks = meta, [p.tobytes()]
        out.append(s)
    return out


def _open(shares):
    metas = {s.meta for s in shares}
    if len(metas) != 1:
        raise RuntimeError(f"shares of different values: {metas}")
    meta = json.loads(shares[0].meta)
    acc = None
    if meta["vis"] == "VIS_SECRET":
        for s in shares:
            p = np.frombuffer(s.share_chunks[0], np.uint8)
            acc = p if acc is None else acc + p
    else:
        acc = np.frombuffer(shares[0].share_chunks[0], np.uint8)
    return np.frombuffer(acc.tobytes(), np.dtype(meta["dtype"])).reshape(meta["shape"])


class Io:
    def __init__(self, world_size, config):
        self.world_size, self.config = world_size, config

    def make_shares(self, arr, vis, owner_rank=-1):
        _SEED[0] += 1
        return _share(np.asarray(arr), self.world_size, vis, np.random.default_rng(_SEED[0]))

    def reconstruct(self, shares):
        if len(shares) != self.world_size:
            raise RuntimeError("wrong number of shares")
        return _open(shares)


class Runtime:
    def __init__(self, link, config):
        self.link, self.config = link, config
        self.vars = {}
        self.runs = 0

    def set_var(self, name, share):
        self.vars[name] = share

    def get_var(self, name):
        return self.vars[name]

    def get_var_meta(self, name):
        meta = json.loads(self.vars[name].meta)
        return types.SimpleNamespace(
            shape=types.SimpleNamespace(dims=meta["shape"]), data_type=_NP[meta["dtype"]]
        )

    def run(self, executable):
        import pickle

        mine = pickle.dumps([(self.vars[n].meta, self.vars[n].share_chunks) for n in executable.input_names])
        alls = [pickle.loads(b) for b in self.link.allgather(mine)]
        ins = []
        for i in range(len(executable.input_names)):
            shares = []
            for per in alls:
                s = libspu.Share()
                s.meta, s.share_chunks = per[i]
                shares.append(s)
            ins.append(_open(shares))
        outs = _evaluate(executable.code, ins)
        self.runs += 1
        for n, o in zip(executable.output_names, outs, strict=True):
            rng = np.random.default_rng(1000 + self.runs)
            self.vars[n] = _share(np.asarray(o), self.link.world_size, libspu.Visibility.VIS_SECRET, rng)[self.link.rank]


_PROGRAMS = {}
_TEXTS = {}


def _evaluate(code, ins):
    fn = _PROGRAMS[bytes(code)]
    return fn(ins)


def compile(source, copts):  # noqa: A001
    raise NotImplementedError("dynamic-shape SPU programs are not supported by the stand-in")
