"""Solver-chosen types: every registered type constructor with symbolic sizes."""

from __future__ import annotations

SCALARS = ("int", "float", "complex", "phe-pt", "phe-ct")
PLAIN = (*SCALARS, "vector", "custom", "point", "ecscalar", "privkey", "pubkey", "symkey", "bfv-key", "bfv-pt", "bfv-ct", "bfv-enc", "phe-key", "quote", "attested", "measurement")
NESTED = ("tensor", "table", "ss", "mp")


def scalar(E, n, kind, small=False):
    import mplang.edsl.typing as T
    from mplang.dialects import phe

    if kind == "int":
        return T.IntegerType(bitwidth=E.pick(n + "w", [32, 64] if small else [1, 8, 16, 32, 64, 128, 4096]), signed=small or bool(E.choose(n + "s", 2)))
    if kind == "float":
        return T.FloatType(bitwidth=E.pick(n + "w", [16, 32, 64, 128]))
    if kind == "complex":
        return T.ComplexType(inner_type=T.FloatType(bitwidth=E.pick(n + "w", [32, 64])))
    if kind == "phe-pt":
        return phe.PlaintextType(bitwidth=E.int(n + "w", 1, 3))
    return phe.CiphertextType(E.pick(n + "c", ["paillier", "Paillier"]))


def leaf(E, n, kind, small=False):
    import mplang.edsl.typing as T
    from mplang.dialects import bfv, crypto, phe, tee

    if kind in SCALARS:
        return scalar(E, n, kind, small)
    if kind == "vector":
        return T.VectorType(T.i64 if small else scalar(E, n, E.pick(n + "e", ["int", "float"])), E.int(n + "z", 1, 2 if small else 3))
    if kind == "custom":
        return T.CustomType(E.pick(n + "k", ["string", "String", "a b", "é"]))
    two = lambda c: c(E.pick(n + "c", ["secp256k1", "x25519"]))  # noqa: E731
    if kind in ("point", "ecscalar", "privkey", "pubkey", "symkey"):
        return two({"point": crypto.PointType, "ecscalar": crypto.ScalarType, "privkey": crypto.PrivateKeyType, "pubkey": crypto.PublicKeyType, "symkey": crypto.SymmetricKeyType}[kind])
    if kind == "attested":
        return two(tee.AttestedKeyType)
    if kind == "bfv-key":
        return bfv.KeyType(E.pick(n + "k", ["Public", "Private", "Relin", "Galois"]), E.int(n + "d", 1, 3))
    if kind in ("bfv-pt", "bfv-ct"):
        return {"bfv-pt": bfv.PlaintextType, "bfv-ct": bfv.CiphertextType}[kind](T.VectorType(scalar(E, n, "int"), E.int(n + "z", 1, 2)))
    if kind == "bfv-enc":
        return bfv.EncoderType(E.int(n + "d", 1, 3))
    if kind == "phe-key":
        return phe.KeyType(E.pick(n + "c", ["paillier", "elgamal"]), bool(E.choose(n + "p", 2)))
    return tee.QuoteType() if kind == "quote" else tee.MeasurementType()


def dims(E, n, rank, hi=3):
    ds = []
    for i in range(rank):
        d = E.int(f"{n}d{i}", -1, hi)
        E.assume(d != 0)
        ds.append(d)
    return tuple(ds)


def gen(E, n, depth, leaves=PLAIN, kind=None, small=False):
    """A type of nesting depth <= depth (``small``: few values for the attributes of inner types)."""
    import mplang.edsl.typing as T

    kind = kind or E.pick(n + "kind", [*leaves, *(NESTED if depth else ())])
    if kind not in NESTED:
        return leaf(E, n, kind, small and small != "outer")
    inner = bool(small)
    if kind == "tensor":
        return T.TensorType(gen(E, n + "e", depth - 1, leaves, small=inner), dims(E, n, E.choose(n + "r", 3), hi=2 if small else 3))
    if kind == "table":
        names = E.pick(n + "cols", [(), ("a",), ("b",), ("a", "b"), ("b", "a"), ("_kind",)])
        nrows = E.int(n + "n", -1, 2)
        E.assume(nrows != 0)
        sub = {}
        for i, c in enumerate(names):
            sub[c] = gen(E, n + c, depth - 1 if i == 0 else 0, leaves if i == 0 else (("int",) if small else ("int", "custom")), small=inner)
        return T.TableType(sub, nrows=nrows)
    if kind == "ss":
        return T.SSType(gen(E, n + "t", depth - 1, leaves, small=inner), E.pick(n + "sch", ["ss", "aby3"]))
    ps = E.pick(n + "ps", [None, (), (0,), (1,), (0, 1), (1, 0)]) if E.choose(n + "fix", 2) else (E.int(n + "p0", 0, 1 if small else 3), E.int(n + "p1", 0, 1 if small else 3))
    return T.MPType(gen(E, n + "v", depth - 1, leaves, small=inner), ps)


def canonical(t):
    """What a type says, read from its public attributes (not from its own equality)."""
    import mplang.edsl.typing as T
    from mplang.dialects import bfv, crypto, phe, tee

    k = type(t)
    name = f"{k.__module__}.{k.__qualname__}"
    at = {
        T.IntegerType: ("bitwidth", "signed"), T.FloatType: ("bitwidth",), T.ComplexType: ("inner_type",), T.TensorType: ("element_type", "shape"),
        T.VectorType: ("element_type", "size"), T.CustomType: ("kind",), T.SSType: ("pt_type", "enc_schema"), T.MPType: ("value_type", "parties"),
        crypto.PointType: ("curve",), crypto.ScalarType: ("curve",), crypto.PrivateKeyType: ("suite",), crypto.PublicKeyType: ("suite",), crypto.SymmetricKeyType: ("suite",),
        bfv.KeyType: ("kind", "poly_modulus_degree"), bfv.PlaintextType: ("vector_type",), bfv.CiphertextType: ("vector_type",), bfv.EncoderType: ("poly_modulus_degree",),
        phe.KeyType: ("scheme", "is_public"), phe.PlaintextType: ("bitwidth",), phe.CiphertextType: ("scheme",), tee.QuoteType: (), tee.AttestedKeyType: ("curve",), tee.MeasurementType: (),
    }
    if k is T.TableType:
        return [name, [[c, canonical(v)] for c, v in t.schema.items()], t.nrows]
    out = [name]
    for a in at[k]:
        v = getattr(t, a)
        out.append(canonical(v) if isinstance(v, T.BaseType) else (["tuple", *v] if isinstance(v, tuple) else v))
    return out


def same(a, b):
    """Canonical forms equal, as True / False / SymBool."""
    from .sym import deep_eq

    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        acc = True
        for x, y in zip(a, b):
            r = same(x, y)
            if r is False:
                return False
            acc = r if acc is True else (acc if r is True else acc & r)
        return acc
    if isinstance(a, list) or isinstance(b, list) or isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
        return type(a) is type(b) and a == b
    return deep_eq(a, b)
