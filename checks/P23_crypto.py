"""Group arithmetic, key exchange and authenticated encryption: the real kernels over ideal libraries with unknown scalars, keys and
ciphertext bytes."""

import functools
import itertools

import numpy as np

from vp import keys
from vp.keys import N, SymBytes
from vp.sym import explore

from .P22_homomorphic import eager, eager_scalar

ASSUMPTIONS = (
    "secp256k1 (coincurve) is a group of prime order N whose library refuses zero scalars and results at infinity; X25519 is Diffie-Hellman; "
    "AES-GCM opens exactly what was sealed with the same key and nonce; HKDF is a function (replaced by such ideals when symbolic; the real libraries in replays and validation)",
)
CI = "backends.crypto_impl."


def units(tier):
    us = [("group", group, 8), ("points", points, 1), ("cipher", cipher, 2), ("exchange", exchange, 1), ("hash", hashes, 1)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001 - any refusal
        return None, e


def rt(o):
    return o.runtime_obj


def log_is(E, got, want, label, world):
    """The point got (runtime value) is want (in [0, N)) times the generator."""
    if E.concrete:
        import coincurve

        w = int(want)
        exp = None if w == 0 else coincurve.PublicKey(keys.GEN).multiply(w.to_bytes(32, "big")).format()
        have = None if got is None else got.coincurve_key.format()
        E.check(have == exp, label, f"{have} {exp}")
        return
    if got is None:
        E.check(want == 0, label, "identity")
        return
    E.check(world.group.log(got.key_bytes) == want, label)


CONST = [0, 1, 2, 3, -1, N - 1, N, N + 1, 2 * N, (1 << 255) + 19]


def group(tier):
    def h(E):
        from mplang.dialects import crypto

        with keys.ideal(E) as w:
            st = crypto.ScalarType()
            n_pts = 2
            logs = [E.int(f"s{i}", -2 * N, 2 * N) for i in range(n_pts)]
            scal = lambda v: eager(v, st)  # noqa: E731
            g = w.group
            pts = [(crypto.ec_mul(crypto.ec_generator(), scal(s)), s % N) for s in logs]
            pts.append((crypto.ec_generator(), 1))
            for p, s in pts[:n_pts]:
                log_is(E, rt(p), s, "a multiple of the generator", w)
            depth = 2
            for d in range(depth):
                op = E.pick(f"op{d}", ["add", "sub", "mul", "select"] if d else ["add", "sub", "mul"])
                last = len(pts) - 1
                if d:  # the newest result takes part
                    i, j = E.pick(f"ij{d}", [(last, last)] if op == "mul" else [(last, k) for k in range(len(pts))] + ([(k, last) for k in range(last)] if op == "sub" else []))
                else:
                    i, j = E.pick("ij", [(0, 0), (n_pts, 0)] if op == "mul" else [(0, 0), (0, 1), (0, n_pts), (n_pts, 0), (n_pts, n_pts)])
                a, b = pts[i], pts[j]
                if op == "add":
                    pts.append((crypto.ec_add(a[0], b[0]), g.add(a[1], b[1])))
                elif op == "sub":
                    pts.append((crypto.ec_sub(a[0], b[0]), g.add(a[1], g.neg(b[1]))))
                elif op == "mul":
                    c = E.pick(f"c{d}", (CONST if i == n_pts else CONST[:-1] if tier != "quick" else [0, 1, 2, -1, N - 1, N]) if not d else [0, 2, -1])
                    pts.append((crypto.ec_mul(a[0], scal(c)), g.mul(a[1], c % N)))
                else:
                    v = E.int(f"v{d}", 0, 1)
                    import mplang.edsl.typing as T

                    r = crypto.select(eager_scalar(E, v, T.i64) if not E.concrete else eager_np(v), a[0], b[0])
                    pts.append((r, E.ite(v != 0, a[1], b[1])))
                log_is(E, rt(pts[-1][0]), pts[-1][1], "group operation", w)
            E.cover("group operation")

    explore(h, unit="group", split=10, expect=("group operation",), functions=(CI + "mul_impl/add_impl/sub_impl/generator_impl/select_impl",), validate=3, max_seconds=2400, bounds="two points with unknown logarithms in [-2N, 2N] and the generator; every sequence of 2 operations, each on the newest result; multiplication by six (thorough ten) scalars around 0 and the group order")


def eager_np(v):
    import mplang.edsl.typing as T
    from mplang.backends.tensor_impl import TensorValue

    return eager(TensorValue(np.array(int(v))), T.TensorType(T.i64, ()))


def points(tier):
    def h(E):
        import mplang.edsl.typing as T
        from mplang.dialects import crypto

        with keys.ideal(E) as w:
            st = crypto.ScalarType()
            s, t = E.int("s", 0, N), E.int("t", 0, 2 * N)
            if E.bool("from-int"):
                sv = crypto.ec_scalar_from_int(eager_scalar(E, s, T.i64) if not E.concrete else eager(int_obj(s), T.TensorType(T.i64, ())))
            else:
                sv = eager(s, st)
            p = crypto.ec_mul(crypto.ec_generator(), sv)
            # both orders of a blinding, as private set intersection uses them
            ab = crypto.ec_mul(p, eager(t, st))
            ba = crypto.ec_mul(crypto.ec_mul(crypto.ec_generator(), eager(t, st)), eager(s, st))
            st_ = w.group.mul(s % N, t % N)
            log_is(E, rt(ab), st_, "blinding", w)
            log_is(E, rt(ba), st_, "blinding the other way", w)
            # written out and read back
            b = crypto.ec_point_to_bytes(p)
            E.check(tuple(b.type.shape) == tuple(rt(b).unwrap().shape) and rt(b).unwrap().dtype == np.uint8, "bytes of a point: type")
            back = crypto.ec_bytes_to_point(b)
            log_is(E, rt(back), s % N, "a point read back", w)
            log_is(E, rt(crypto.ec_add(back, crypto.ec_generator())), w.group.add(s % N, 1), "a point read back is usable", w)
            from mplang.edsl import serde

            log_is(E, serde.from_json(serde.to_json(rt(p))) if rt(p) is not None else None, s % N, "a point in a message", w)

    explore(h, unit="points", expect=("blinding", "a point read back is usable", "a point in a message"), functions=(CI + "point_to_bytes_impl/bytes_to_point_impl/scalar_from_int_impl/mul_impl", CI + "ECPointValue"), validate=3, max_seconds=2400, bounds="all scalars in [0, N] and [0, 2N]")


def int_obj(v):
    from mplang.backends.tensor_impl import TensorValue

    a = np.empty((), dtype=object)
    a[()] = v
    return TensorValue(a)


def cipher(tier):
    def h(E):
        import mplang.edsl.typing as T
        from mplang.backends.crypto_impl import BytesValue, SymmetricKeyValue
        from mplang.backends.tensor_impl import TensorValue
        from mplang.dialects import crypto, tensor

        with keys.ideal(E) as w:
            how = E.pick("key", ["symmetric", "bytes", "tensor"])
            raw = [bytes(range(32)), bytes(range(1, 33))]

            def key(k):
                if how == "symmetric":
                    return eager(SymmetricKeyValue(suite="x25519", key_bytes=raw[k]), crypto.SymmetricKeyType())
                if how == "bytes":
                    return eager(BytesValue(raw[k]), T.TensorType(T.u8, (32,)))
                return tensor.constant(np.frombuffer(raw[k], dtype=np.uint8))

            msgs = [np.array([1, -2, 3], dtype=np.int32), np.array(2.5), np.zeros((2, 2), dtype=np.uint8)]
            m, other = tensor.constant(E.pick("message", msgs)), tensor.constant(np.arange(5))
            c1 = crypto.sym_encrypt(key(0), m)
            c2 = crypto.sym_encrypt(key(0), m if E.bool("same-message") else other)
            E.check(rt(c1).unwrap()[:12] != rt(c2).unwrap()[:12], "nonces differ")
            sent = rt(c1).unwrap()
            n = len(sent)
            change = E.pick("change", ["none", "bytes", "short", "long", "key", "swap-nonce"])
            use = 0
            if change == "bytes":
                at = E.pick("at", [0, 5, 11, 12, 13, n // 2, n - 17, n - 16, n - 1])
                d = E.int("delta", 1, 255)
                e = keys.elements(sent)
                e[at] = (e[at] + d) % 256
                got = SymBytes(e) if not E.concrete else bytes(e)
            elif change == "short":
                got = sent[: E.pick("keep", [0, 5, 11, 12, 20, 28, n - 1])]
            elif change == "long":
                got = sent + bytes([E.pick("extra", [0, 255])])
            elif change == "swap-nonce":
                got = rt(c2).unwrap()[:12] + sent[12:]
            else:
                got = sent
            if change == "key":
                use = 1
            x, err = attempt(lambda: crypto.sym_decrypt(key(use), eager(BytesValue(got), c1.type), m.type))
            if change == "none":
                E.check(err is None, "what was encrypted is decrypted", repr(err))
                if err is None:
                    want = rt(m).unwrap()
                    E.check(isinstance(rt(x), TensorValue) and rt(x).unwrap().dtype == want.dtype and rt(x).unwrap().shape == want.shape and np.array_equal(rt(x).unwrap(), want), "decrypted message")
                    E.check(x.type == m.type, "decrypted type")
            else:
                E.check(err is not None, "a changed ciphertext or another key is refused")

    explore(h, unit="cipher", expect=("what was encrypted is decrypted", "a changed ciphertext or another key is refused"), functions=(CI + "sym_encrypt_impl/sym_decrypt_impl",), validate=4, max_seconds=2400, bounds="three key forms, three messages, two encryptions under one key; any change of any one byte at nine places around the borders of nonce, body and tag, truncations, extensions, a wrong key, another message's nonce; all ciphertext and nonce bytes unknown")


def exchange(tier):
    def h(E):
        from mplang.dialects import crypto

        with keys.ideal(E):
            suite = E.pick("suite", ["x25519", "kyber768"])
            k = 3
            pairs = [crypto.kem_keygen(suite) for _ in range(k)]
            for i in range(k):
                E.check(all(rt(v).suite == v.type.suite == suite for v in pairs[i]), f"{suite}-keys-are-of-the-requested-suite", f"{pairs[i][0].type} holds a {rt(pairs[i][0]).suite} key")
                E.check(rt(pairs[i][0]).key_bytes != rt(pairs[i][1]).key_bytes, "private and public keys differ")
            a, b, c, d = (int(E.int(n, 0, k - 1)) for n in "abcd")
            x = crypto.kem_derive(pairs[a][0], pairs[b][1])
            y = crypto.kem_derive(pairs[c][0], pairs[d][1])
            same = sorted((a, b)) == sorted((c, d))
            kx, ky = rt(x).key_bytes, rt(y).key_bytes
            if same:
                E.check(kx == ky, f"{suite}-two-ends-derive-the-same-secret", f"{a}{b} {c}{d}")
            else:
                E.check(kx != ky, "other pairs derive other secrets", f"{a}{b} {c}{d}")
            if suite != "x25519":
                return
            i1, i2 = E.pick("info1", ["a", "b", "a/b"]), E.pick("info2", ["a", "b"])
            s1, s2 = rt(crypto.hkdf(x, i1)), rt(crypto.hkdf(y, i2))
            E.check((s1.key_bytes == s2.key_bytes) == (same and i1 == i2), "derived keys agree exactly for the same secret and purpose")
            E.check(len(s1.key_bytes) == 32 and s1.key_bytes != kx, "derived key")
            _, err = attempt(lambda: crypto.hkdf(x, ""))
            E.check(err is not None, "no purpose")

    explore(h, unit="exchange", expect=("x25519-two-ends-derive-the-same-secret", "other pairs derive other secrets", "derived keys agree exactly for the same secret and purpose"), functions=(CI + "kem_keygen_impl/kem_derive_impl/hkdf_impl",), validate=4, max_seconds=2400, bounds="three fresh key pairs, every two derivations between them, three purposes")


def hashes(tier):
    def h(E):
        from mplang.dialects import crypto, tensor

        import hashlib

        with keys.ideal(E):
            shape = E.pick("shape", [(1,), (4,), (2, 3), (1, 1), (3, 1), (2, 2, 2), (1, 3, 2)])
            n = int(np.prod(shape))
            seed = int(E.int("seed", 0, 7))
            a = ((np.arange(n) * 37 + seed * 11) % 256).astype(np.uint8).reshape(shape)
            if len(shape) > 1 and E.bool("columns-first"):
                a = np.asfortranarray(a)
            out = crypto.hash_batch(tensor.constant(a))
            got = rt(out).unwrap()
            E.check(tuple(out.type.shape) == got.shape == (*shape[:-1], 32), "hash shape", f"{out.type} {got.shape}")
            for i in np.ndindex(*shape[:-1]):
                E.check(got[i].tobytes() == hashlib.sha256(bytes(a[i].tolist())).digest(), "hash of a row", str(i))
            one = crypto.hash_bytes(tensor.constant(a)) if hasattr(crypto, "hash_bytes") else crypto.hash(tensor.constant(a))
            E.check(rt(one).unwrap().tobytes() == hashlib.sha256(a.tobytes()).digest() and tuple(one.type.shape) == (32,), "hash of everything")

    explore(h, unit="hash", expect=("hash of a row", "hash of everything"), functions=(CI + "hash_impl/hash_batch_impl",), validate=2, max_seconds=2400, bounds="seven shapes, eight contents, two layouts")
