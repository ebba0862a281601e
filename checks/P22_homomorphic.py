"""Homomorphic operators: operation trees chosen by the solver run through the real dialect and kernels over an ideal scheme
(concretely over the real libraries); the decryption is compared with the plain computation for all plaintexts."""

import functools

import numpy as np

from vp import seal
from vp.sym import explore
from vp.zp import Unknowns, Zp

FUNCS = ("bfv_impl: keygen, make_relin_keys, make_galois_keys, encode, batch_encode, encrypt, decrypt, decode, add, sub, mul, relinearize, rotate, rotate_columns",
         "phe_impl: keygen, encode, decode, encrypt, decrypt, add_cc, add_cp, mul_cp; dialects.phe add/mul_plain dispatch; tensor elementwise kernel")
ASSUMPTIONS = ("tenseal/SEAL and LightPHE are replaced by ideal schemes with the same interface, messages and refusals (no noise) when running symbolically",
               "plaintexts stay within the scheme's message space")
DEGREE, LEN = 4096, 6
T = 1032193


def units(tier):
    us = [("bfv-tree", bfv_tree, 6), ("bfv-keys", bfv_keys, 1), ("phe-tree", phe_tree, 3), ("phe-values", phe_values, 1)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def eager(value, typ):
    """An object of the default context with the given runtime value."""
    from mplang.dialects import tensor
    from mplang.runtime.interpreter import InterpObject

    like = tensor.constant(np.zeros(1, dtype=np.int64))
    return InterpObject(value, typ, like._context if hasattr(like, "_context") else like.context)


def int_tensor(E, xs, shape=None, typ=None):
    import mplang.edsl.typing as T_
    from mplang.backends.tensor_impl import TensorValue

    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    if E.concrete and typ is None:
        a = a.astype(np.int64)
    a = a.reshape(shape or (len(xs),))
    return eager(TensorValue(a), T_.TensorType(typ or T_.i64, a.shape))


# ------------------------------------------------------------------ BFV


class Slots(dict):
    """A plain slot vector (missing slots are zero)."""

    def __missing__(self, i):
        return 0

    def zip(self, o, f):
        return Slots({i: f(self[i], o[i]) for i in set(self) | set(o)})

    def rotate(self, k):
        row = DEGREE // 2
        return Slots({i - i % row + (i - k) % row: v for i, v in self.items()})

    def swap(self):
        return Slots({(i + DEGREE // 2) % DEGREE: v for i, v in self.items()})


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}


def bfv_tree(tier):
    depth = 2 if tier == "quick" else 3

    def h(E):
        from mplang.dialects import bfv

        kind = E.pick("plain", ["full", "zero", "some"])
        plan, mults = [], 0
        for i in range(depth):
            op = E.pick(f"op{i}", ["add", "sub", "mul", "rotate", "columns", "end"])
            if op == "end":
                break
            if op == "rotate":
                plan.append((op, E.pick(f"step{i}", [1, -3, 2047])))
            elif op == "columns":
                plan.append((op, 0))
            else:
                other = E.pick(f"with{i}", ["a", "b", "p", "q", "cur"] if i else ["b", "p", "q", "cur"])
                left = bool(E.bool(f"left{i}")) if other != "cur" and op != "add" or other in ("p", "q") else False
                if op == "mul" and other in ("a", "b", "cur"):
                    mults += 1
                plan.append((op, other, left))
        if mults > 1:
            return
        real = E.concrete
        u = Unknowns.of(E)
        with seal.patched(not real):
            pk, sk = bfv.keygen(poly_modulus_degree=DEGREE)
            gk, rk = bfv.make_galois_keys(sk), bfv.make_relin_keys(sk)
            enc = bfv.create_encoder(poly_modulus_degree=DEGREE)
            plain = {}
            for n in "abpq":
                lo = 1 if n in "pq" else -50
                xs = [u.var(f"{n}{i}", lo, 50) for i in range(LEN)]
                if n in "pq" and kind != "full":
                    xs = [x if kind == "some" and i in (1, 4) else 0 for i, x in enumerate(xs)]
                plain[n] = xs
            if E.concrete:
                plain = {k: [int(x) for x in v] for k, v in plain.items()}
            vals = {n: bfv.encrypt(bfv.encode(int_tensor(E, plain[n]), enc), pk) for n in "ab"}
            vals["p"] = bfv.encode(int_tensor(E, plain["p"]), enc)
            rows = 1 if len(plan) % 2 else 2
            vals["q"] = bfv.batch_encode(int_tensor(E, plain["p"] * (rows - 1) + plain["q"], (rows, LEN)), enc, pk)[-1]
            model = {n: Slots(enumerate(xs)) for n, xs in plain.items()}
            cur, want = vals["a"], model["a"]
            for step in plan:
                op = step[0]
                if op == "rotate":
                    cur, want = bfv.rotate(bfv.relinearize(cur, rk), step[1], gk), want.rotate(step[1])
                elif op == "columns":
                    cur, want = bfv.rotate_columns(bfv.relinearize(cur, rk), gk), want.swap()
                else:
                    _, other, left = step
                    x, y = (cur, want) if other == "cur" else (vals[other], model[other])
                    f, g = getattr(bfv, op), OPS[op]
                    cur, want = (f(x, cur), y.zip(want, g)) if left else (f(cur, x), want.zip(y, g))
            want_slots = sorted(set(want) | {0, LEN, 2047, 2048, 4095})
            seal.WANTED = want_slots
            try:
                out = bfv.decode(bfv.decrypt(cur, sk), enc).runtime_obj.unwrap()
            finally:
                seal.WANTED = None
        E.check(out.shape == (DEGREE,), "as many slots as the ring has")
        for i in want_slots:
            u.same(out[i], want[i], "decrypted slot", modulus=T)
        E.cover("ran")

    explore(h, unit="bfv-tree", expect=("ran", "decrypted slot"), functions=FUNCS, validate=2, max_seconds=2400,
            bounds=f"every chain of up to {depth} operations over two ciphertexts, a raw and a pre-encoded plaintext (full, partly zero, zero), either operand order, one ciphertext product at most, rotations 1/-3/2047 and row swaps; 6 unknown slots each")


def bfv_keys(tier):
    def h(E):
        from mplang.backends import bfv_impl
        from mplang.dialects import bfv
        from mplang.edsl import serde

        d, t = E.pick("degree", [4096, 8192]), E.pick("modulus", [1032193, 786433])
        d2, t2 = E.pick("degree2", [4096, 8192]), E.pick("modulus2", [1032193, 786433])
        with seal.patched(True):
            first = bfv.keygen(poly_modulus_degree=d2, plain_modulus=t2)
            pk, sk = bfv.keygen(poly_modulus_degree=d, plain_modulus=t)
            for name, k in (("public", pk), ("relinearisation", bfv.make_relin_keys(sk)), ("galois", bfv.make_galois_keys(sk))):
                v = k.runtime_obj
                E.check(not isinstance(v, bfv_impl.BFVSecretContextValue) and not v.ts_ctx.has_secret_key(), f"the {name} key is not the secret key")
                w = serde.from_json(serde.to_json(v))
                E.check(not w.ts_ctx.has_secret_key(), f"the {name} key as sent is not the secret key")
            p = sk.runtime_obj.ts_ctx.params
            E.eq("parameters of the generated keys", (p.degree, p.t), (d, t))
            v = serde.from_json(serde.to_json(sk.runtime_obj))
            E.check(v.ts_ctx.has_secret_key(), "the secret key keeps its secret when stored")
            u = Unknowns.of(E)
            x = u.var("x", -50, 50)
            enc = bfv.create_encoder(poly_modulus_degree=d)
            ct = bfv.encrypt(bfv.encode(int_tensor(E, [x]), enc), pk)
            rt = ct.runtime_obj
            moved = eager(serde.from_json(serde.to_json(rt)), ct.type)
            u.same(bfv.decode(bfv.decrypt(moved, sk), enc).runtime_obj.unwrap()[0], x, "a ciphertext sent to another party decrypts to its plaintext")
            E.check(not serde.from_json(serde.to_json(rt)).ctx.ts_ctx.has_secret_key(), "a ciphertext carries no secret key")
            if (d, t) != (d2, t2):
                E.check(first[1].runtime_obj is not sk.runtime_obj, "keys of other parameters are other keys")
        E.cover("ran")

    explore(h, unit="bfv-keys", expect=("ran",), functions=FUNCS, validate=1, bounds="two degrees and two plaintext moduli, in any order of generation")


# ------------------------------------------------------------------ PHE


class IdealPHE:
    """LightPHE's interface over plain numbers modulo N."""

    count = 0
    N = 2**61 - 1

    def __init__(self, algorithm_name, keys=None, key_file=None, key_size=None, **kw):
        if algorithm_name not in ("Paillier", "Okamoto-Uchiyama", "Damgard-Jurik", "Exponential-ElGamal", "ElGamal", "RSA", "Benaloh", "Naccache-Stern", "Goldwasser-Micali", "EllipticCurve-ElGamal"):
            raise ValueError(f"unimplemented algorithm - {algorithm_name}")
        self.algorithm_name = algorithm_name
        if keys is None:
            IdealPHE.count += 1
            keys = {"public_key": {"n": self.N, "id": IdealPHE.count}, "private_key": {"p": self.N, "id": IdealPHE.count}}
        self.cs = type("CS", (), {"keys": keys, "plaintext_modulo": self.N})()

    def encrypt(self, plaintext, silent=False):
        if self.cs.keys.get("public_key") is None:
            raise ValueError("You must have public key to perform encryption")
        if isinstance(plaintext, (float, np.generic)):
            raise ValueError(f"Unimplemented case for constant type {type(plaintext)}")
        return IdealCt(self.algorithm_name, {"public_key": self.cs.keys["public_key"]}, plaintext)

    def decrypt(self, ct):
        if self.cs.keys.get("private_key") is None:
            raise ValueError("You must have private key to perform decryption")
        v = ct.value
        if ct.keys["public_key"]["id"] != self.cs.keys["private_key"]["id"]:
            return Zp({("garbage",): 1})
        # the least non-negative residue (|v| stays far below N)
        return v if bool(v >= 0) else v + self.N


class IdealCt:
    def __init__(self, algorithm_name, keys, value, form=None, curve=None):
        self.algorithm_name, self.keys, self.value = algorithm_name, keys, value

    def __add__(self, o):
        return IdealCt(self.algorithm_name, self.keys, self.value + o.value)

    def __mul__(self, k):
        if isinstance(k, (np.generic, float)) or not isinstance(k, (int, Zp)):
            raise ValueError("A ciphertext can be multiplied by either ciphertext itself or a scalar")
        return IdealCt(self.algorithm_name, self.keys, self.value * k)


class phe_patched:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import lightphe
        from mplang.backends import phe_impl

        self.saved = []
        if self.on:
            for m, n, v in ((lightphe, "LightPHE", IdealPHE), (phe_impl, "LightPHE", IdealPHE), (phe_impl, "Ciphertext", IdealCt)):
                if hasattr(m, n):
                    self.saved.append((m, n, getattr(m, n)))
                    setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


def phe_tree(tier):
    depth = 2 if tier == "quick" else 3

    def h(E):
        from mplang.dialects import phe

        shape = E.pick("shape", [(2,), (1, 2), ()] if tier == "quick" else [(3,), (2, 2), (1,), ()])
        plan = []
        for i in range(depth):
            op = E.pick(f"op{i}", ["add", "mul", "end"])
            if op == "end":
                break
            other = E.pick(f"with{i}", ["x", "y", "p", "cur"] if op == "add" else ["p"])
            plan.append((op, other, bool(E.bool(f"left{i}")) if other == "p" else False))
        scheme = E.pick("scheme", ["paillier", "Paillier", "okamoto-uchiyama"]) if len(plan) < 2 else "paillier"
        if E.concrete and scheme != "okamoto-uchiyama":
            scheme = "paillier"
        n = int(np.prod(shape)) if shape else 1
        u = Unknowns.of(E)
        with phe_patched(not E.concrete):
            pk, sk = phe.keygen(scheme=scheme, key_size=256)
            plain = {v: [u.var(f"{v}{i}", -9, 9) for i in range(n)] for v in "xyp"}
            pt = phe.PlaintextType(64)
            if shape == ():
                mk = lambda v: eager_scalar(E, plain[v][0], pt)  # noqa: E731
            else:
                mk = lambda v: int_tensor(E, plain[v], shape, pt)  # noqa: E731
            vals = {v: phe.encrypt(mk(v), pk) for v in "xy"}
            vals["p"] = mk("p")
            cur, want = vals["x"], plain["x"]
            for op, other, left in plan:
                o, w = (cur, want) if other == "cur" else (vals[other], plain[other])
                f = phe.add if op == "add" else phe.mul_plain
                cur = f(o, cur) if left else f(cur, o)
                want = [a + b if op == "add" else a * b for a, b in zip(want, w)]
            out = phe.decrypt(cur, sk).runtime_obj
            out = np.asarray(out.unwrap() if hasattr(out, "unwrap") else out, dtype=object)
            E.eq("shape", out.shape, shape)
            for i in range(n):
                u.same(out.reshape(-1)[i], want[i], "decrypted number")
            try:
                vals["x"].runtime_obj
                phe.mul_plain(vals["x"], vals["y"])
            except TypeError:
                pass
            else:
                E.fail("product of two ciphertexts accepted")
            if n == 2 and shape == (2,) and not plan:
                pk2, _ = phe.keygen(scheme="okamoto-uchiyama" if scheme != "okamoto-uchiyama" else "paillier", key_size=256)
                try:
                    phe.add(vals["x"], phe.encrypt(mk("y"), pk2))
                except TypeError:
                    pass
                else:
                    E.fail("sum under different schemes accepted")
            if not E.concrete:
                E.check("private_key" not in pk.runtime_obj.cs.cs.keys, "the public key holds no private key")
        E.cover("ran")

    explore(h, unit="phe-tree", expect=("ran", "decrypted number", "shape"), functions=FUNCS, validate=2, max_seconds=2400, bounds=f"every chain of up to {depth} sums and products with either operand order, tensors of up to two elements and scalars, numbers -9..9")


def eager_scalar(E, x, typ):
    from mplang.backends.tensor_impl import TensorValue

    a = np.empty((), dtype=object)
    a[()] = x
    return eager(TensorValue(a), typ)


def phe_values(tier):
    def h(E):
        import mplang.edsl.typing as T_
        from mplang.dialects import phe, tensor

        bits = E.pick("fxp_bits", [0, 1, 4, 16, 40])
        num = int(E.int("num", -9, 9))
        shift = E.pick("shift", [0, 1, 4])
        if shift > bits:
            return
        v = num / 2**shift
        dt = E.pick("dtype", ["f64", "f32", "i32"])
        if dt == "i32" and shift:
            return
        x = np.array([v, 1.0]).astype({"f64": np.float64, "f32": np.float32, "i32": np.int32}[dt])
        with phe_patched(not E.concrete):
            pk, sk = phe.keygen(key_size=256)
            e = phe.create_encoder(dtype=getattr(T_, dt), fxp_bits=bits)
            ct = phe.encrypt_auto(tensor.constant(x), e, pk)
            ct = phe.add(ct, phe.encode(tensor.constant(x), e))
            out = np.asarray(phe.decrypt_auto(ct, e, sk).runtime_obj.unwrap(), dtype=np.float64)
        E.eq("fixed-point numbers survive encoding and encryption", out.tolist(), [2 * v, 2.0])
        E.cover("ran")

    explore(h, unit="phe-values", expect=("ran",), functions=FUNCS, validate=2, bounds="multiples of 1, 1/2, 1/16 up to 9 in magnitude, five scales, three element types")
