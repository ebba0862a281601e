"""Device programs chosen by the solver run on every party's real worker; values, placement and messages are judged."""

import functools

import numpy as np

from vp import devices
from vp.sym import explore

ASSUMPTIONS = (
    "the secure engine is ideal (shares of one sharing open together, a program run by all members on their shares gives shares of its result) and AES-GCM opens exactly what was sealed under the same key; "
    "StableHLO text is executed by this framework's interpreter on unknown numbers",
)
FUNCS = ("libs.device.api", "backends.simp_worker", "backends.spu_impl.makeshares_impl/reconstruct_impl/exec_impl", "backends.tee_impl", "backends.crypto_impl.kem_*/hkdf_impl", "dialects.spu.run_jax", "dialects.tensor.run_jax")

# (parties of the secure device, protocol), and where the other devices live
LAYOUTS = {
    "shared-nodes": {"nodes": 3, "SP0": [0, 1], "P0": [0], "P1": [1], "TEE0": [2], "proto": "SEMI2K"},
    "outsiders": {"nodes": 4, "SP0": [3, 1], "P0": [0], "P1": [3], "TEE0": [2], "proto": "CHEETAH"},
    "one-node": {"nodes": 3, "SP0": [1, 2], "P0": [0], "P1": [0], "TEE0": [0], "proto": "SEMI2K"},
    "three-party": {"nodes": 4, "SP0": [2, 0, 1], "P0": [3], "P1": [0], "TEE0": [1], "proto": "ABY3"},
}


def cluster(name):
    from mplang.libs.device import ClusterSpec

    c = LAYOUTS[name]
    dev = {"SP0": {"kind": "SPU", "members": [f"n{i}" for i in c["SP0"]], "config": {"protocol": c["proto"], "field": "FM64"}}}
    for d in ("P0", "P1", "TEE0"):
        dev[d] = {"kind": "TEE" if d == "TEE0" else "PPU", "members": [f"n{i}" for i in c[d]], "config": {}}
    return ClusterSpec.from_dict({"nodes": [{"name": f"n{i}", "endpoint": f"http://h:{i}"} for i in range(c["nodes"])], "devices": dev})


DEVS = ["P0", "P1", "SP0", "TEE0"]


def units(tier):
    lays = list(LAYOUTS) if tier != "quick" else ["shared-nodes", "one-node", "three-party"]
    return [(f"programs-{n}", functools.partial(programs, tier, n, "value"), 4) for n in lays] + [("inference", functools.partial(inference, tier), 1)]


FN = {
    "sum-difference": lambda a, b: (a + b, a - b),
    "swapped": lambda a, b: (b, a),
    "scaled": lambda a, b: (2 * a - b, 3 * b),
}
FN2 = {"mix": lambda a, *, b, c: 5 * a - 2 * b["x"] + c, "right": lambda a, *, b, c: b["x"] - a, "left": lambda a, *, b, c: a + c}
HOST = 7  # a host value put on the device z moves to


def const(E, v):
    from mplang.backends.tensor_impl import TensorValue

    if E.concrete:
        return TensorValue(np.array(int(v), dtype=np.int64))
    a = np.empty((), dtype=object)
    a[()] = v
    return TensorValue(a)


class Program:
    """One device program, its plain meaning and what each party is meant to learn."""

    def __init__(self, E, spec, tier):
        from mplang.libs.device import device, put

        self.spec = spec
        self.px, self.py = "P0", E.pick("y-on", ["P1", "TEE0"])
        self.d1 = E.pick("first-on", DEVS)
        self.f1 = E.pick("first", list(FN) if tier != "quick" else ["sum-difference", "scaled"])
        self.d2 = E.pick("moved-to", DEVS)
        self.k = int(E.int("which", 0, 1)) if tier != "quick" else 1
        self.d3 = E.pick("then-on", DEVS)
        self.f2 = E.pick("then", list(FN2) if tier != "quick" else ["mix"])
        self.out = E.pick("result-to", ["P0", "P1"])
        self.device, self.put = device, put

    def plain(self, v):
        """Values of every step for plain inputs (x, y)."""
        x, y = v
        r = FN[self.f1](x, y)
        z = r[self.k]
        w = FN2[self.f2](z, b={"x": x}, c=HOST)
        return {"c": HOST, "x": x, "r0": r[0], "r1": r[1], "z": z, "w": w, "out": w}

    def trace(self):
        import mplang.edsl.typing as T

        ty = T.TensorType(T.i64, ())
        x, y = devices.held(self.spec, self.px, "x", ty), devices.held(self.spec, self.py, "y", ty)
        r = self.device(self.d1).jax(FN[self.f1])(x, y)
        z = self.put(self.d2, r[self.k])
        c = self.put(self.d2, np.array(HOST))
        w = self.device(self.d3).jax(FN2[self.f2])(z, b={"x": x}, c=c)
        out = self.put(self.out, w)
        self.objs = {"r0": (r[0], self.d1), "r1": (r[1], self.d1), "z": (z, self.d2), "c": (c, self.d2), "x": (x, self.px), "w": (w, self.d3), "out": (out, self.out)}
        return [o for o, _ in self.objs.values()]

    def entitled(self):
        """{rank: values sent to it in the clear}, {rank: values placed with it at all}."""
        kind = {d: self.spec.devices[d].kind for d in DEVS}
        rank = {d: self.spec.devices[d].members[0].rank for d in DEVS if kind[d] != "SPU"}
        clear, placed = {}, {}
        moves = [("x", self.px, self.d1), ("y", self.py, self.d1), ("z", self.d1, self.d2), ("z", self.d2, self.d3), ("x", self.px, self.d3), ("w", self.d3, self.out)]
        for n, a, b in moves:
            if a == b or kind[b] == "SPU":
                continue
            placed.setdefault(rank[b], set()).add(n)
            # to and from an enclave everything is sealed, except shares of the secure device
            if "TEE" not in (kind[a], kind[b]) or kind[a] == "SPU":
                clear.setdefault(rank[b], set()).add(n)
        for n, d in [("x", self.px), ("y", self.py), ("r0", self.d1), ("r1", self.d1), ("z", self.d2), ("w", self.d3), ("out", self.out)]:
            if kind[d] != "SPU":
                placed.setdefault(rank[d], set()).add(n)
        return clear, placed


def programs(tier, layout, what):
    unit = f"{'programs' if what == 'value' else 'views'}-{layout}"

    def h(E):
        import mplang.edsl.typing as T
        from mplang.libs.device import get_dev_attr

        spec = cluster(layout)
        p = Program(E, spec, tier)
        vals = [[E.int(n, -1000, 1000) for n in ("x", "y")]]
        if what == "views":
            vals.append([E.int(n, -1000, 1000) for n in ("x'", "y'")])
        runs = []
        for k, v in enumerate(vals if E.concrete else vals[:1]):
            runs.append(devices.Run(E, spec, p.trace, {n: const(E, a) for n, a in zip("xy", v)}, f"run{k}"))
            if runs[-1].failed is not None:
                raise runs[-1].failed
        run = runs[0]
        if what == "views":
            judge(E, p, runs, vals)
            return
        want = p.plain(vals[0])
        for i, (n, (o, d)) in enumerate(p.objs.items()):
            dev = spec.devices[d]
            members = sorted(m.rank for m in dev.members)
            E.check(get_dev_attr(o) == d, "device mark", f"{n} {get_dev_attr(o)} {d}")
            E.check(tuple(o.type.parties) == tuple(sorted(members)) or tuple(o.type.parties) == tuple(members), "placed on the device's parties", f"{n} on {d}: {o.type}")
            inner = o.type.value_type
            E.check((inner.pt_type if dev.kind == "SPU" else inner) == T.TensorType(T.i64, ()), "type", f"{n} {o.type}")
            for r in range(spec.world_size):
                v = run.out[r][i]
                if r not in members:
                    E.check(v is None, "held by the device's parties only", f"{n} at {r}")
                elif dev.kind == "SPU":
                    s = v.libspu_share
                    E.check(s.idx == members.index(r) and s.n == len(members), "every member holds its share", f"{n} at {r}")
                    E.check(np.asarray(run.engine.values[s.sid]).item() == want[n], "shared value", f"{n} on {d}")
                else:
                    E.check(np.asarray(v.unwrap()).item() == want[n], "value", f"{n} on {d}")

    exp = ("value", "shared value", "every member holds its share") if what == "value" else ("nothing but what was placed there is learned", "nothing else crosses in the clear")
    explore(h, unit=unit, expect=exp, functions=FUNCS, validate=3, split=6, max_seconds=2400,
            bounds=f"{what}, layout {layout}: two private inputs (any values), a two-result function on any device, a result moved to any device, a second function on any device with a nested keyword operand elsewhere and a host constant, the result to either plain device" + ("" if tier == "quick" else "; three first and three second functions, either result"))


def judge(E, p, runs, vals):
    """No party's readable messages depend on more than the values placed with it."""
    import z3
    from vp.sym import mkbool

    A, B = vals
    pa, pb = dict(p.plain(A), x=A[0], y=A[1]), dict(p.plain(B), x=B[0], y=B[1])
    E.check(not any(r.key_messages() for r in runs), "no private or session key is sent")
    clear, placed = p.entitled()
    for rank in range(p.spec.world_size):
        for keys, ok, label in ((False, clear, "nothing else crosses in the clear"), (True, placed, "nothing but what was placed there is learned")):
            same = True
            for n in sorted(ok.get(rank, ())):
                same = (pa[n] == pb[n]) & same
            got = runs[0].readable(rank, keys)
            if E.concrete:
                differ = [int(v) for v in got] != [int(v) for v in runs[1].readable(rank, keys)]
            else:
                sub = [(a.e, b.e) for a, b in zip(A, B)]
                differ = mkbool(z3.Or([z3.substitute(v.e, *sub) != v.e for v in got if hasattr(v, "e")]))
            bad = differ & same
            E.check((not bad) if isinstance(bad, bool) else ~bad, label, f"party {rank} reads {len(got)} values, entitled to {sorted(ok.get(rank, ()))}")


def inference(tier):
    def h(E):
        import mplang as mp
        import mplang.edsl.typing as T
        from mplang.libs.device import device, get_dev_attr, put

        lay = E.pick("layout", list(LAYOUTS))
        spec = cluster(lay)
        on = [E.pick(f"on{i}", DEVS) for i in range(2)]
        ty = T.TensorType(T.i64, ())
        got = {}

        def prog():
            args = []
            for i, d in enumerate(on):
                v = devices.held(spec, d if d != "SP0" else "P1", f"v{i}", ty)
                args.append(put(d, v))
            got["marks"] = [get_dev_attr(a) for a in args]
            got["r"] = device()(lambda a, b: (a, b))(*args)
            return [o for o in got["r"]]

        secure = {d for d in on if d in ("SP0", "TEE0")}
        want = on[0] if on[0] == on[1] else next(iter(secure)) if len(secure) == 1 else None
        v = [E.int(f"v{i}", -1000, 1000) for i in range(2)]
        try:
            run = devices.Run(E, spec, prog, {f"v{i}": const(E, x) for i, x in enumerate(v)}, "run")
        except Exception as e:  # noqa: BLE001
            E.check(want is None and type(e).__name__ == "DeviceInferenceError", "refused only when ambiguous", f"{on} {e!r}")
            return
        E.check(want is not None, "ambiguous devices are refused", f"{on}")
        if run.failed is not None:
            raise run.failed
        E.check(got["marks"] == on, "put marks its device")
        E.check([get_dev_attr(o) for o in got["r"]] == [want, want], "inferred device", f"{on} {want}")
        dev = spec.devices[want]
        r0 = dev.members[0].rank
        for i in range(2):
            x = run.out[r0][i]
            x = run.engine.values[x.libspu_share.sid] if dev.kind == "SPU" else x.unwrap()
            E.check(np.asarray(x).item() == v[i], "values after inference", f"{on} {i}")

    explore(h, unit="inference", expect=("inferred device", "refused only when ambiguous", "values after inference"), functions=("libs.device.api._infer_device_from_args",), validate=3, max_seconds=2400, bounds="every pair of devices in three layouts")
