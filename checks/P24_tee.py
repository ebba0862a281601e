"""Attestation: real quotes over keys of unknown bytes, by every way a quote travels, and the channels built on attested keys."""

import functools

from vp import keys
from vp.keys import SymBytes
from vp.sym import explore

from .P22_homomorphic import eager
from .P23_crypto import attempt, rt

ASSUMPTIONS = (
    "X25519, HKDF and AES-GCM are replaced by ideals (the real libraries in replays and validation); the mock platform checks no signature, so forged quotes are outside",
)
TI = "backends.tee_impl."
SUITES = ["x25519", "secp256k1", "kyber768", "x25519-kyber768-hybrid"]
SIZES = [1, 31, 32, 33, 64, 65, 200]


def units(tier):
    return [("issue", functools.partial(issue, tier), 1), ("session", functools.partial(session, tier), 1)]


def travel(E, q, how):
    from mplang.backends.crypto_impl import BytesValue
    from mplang.edsl import serde

    if how == "json":
        if not E.concrete:
            return serde.from_json(serde.to_json(q))
        return serde.loads(serde.dumps(q))
    if how == "bytes":
        return BytesValue(q.to_bytes())
    if how == "bytes in json":
        b = BytesValue(q.to_bytes())
        return serde.from_json(serde.to_json(b)) if not E.concrete else serde.loads(serde.dumps(b))
    return q


WAYS = ["itself", "json", "bytes", "bytes in json"]


def unknown(E, name, n):
    b = [E.int(f"{name}{i}", 0, 255) for i in range(n)]
    return bytes(b) if E.concrete else SymBytes(b)


def issue(tier):
    def h(E):
        from mplang.backends.crypto_impl import PublicKeyValue
        from mplang.dialects import crypto, tee

        with keys.ideal(E):
            suites = [E.pick("suite", SUITES), E.pick("other-suite", SUITES[:2])]
            n = E.pick("size", [1, 32, 33, 65] if tier == "quick" else SIZES)
            pk = [unknown(E, f"k{i}_", m) for i, m in enumerate((n, 32))]
            quotes = [tee.quote_gen(eager(PublicKeyValue(suite=s, key_bytes=k), crypto.PublicKeyType(s))) for s, k in zip(suites, pk)]
            E.check(all(q.type == tee.QuoteType() for q in quotes), "quote type")
            i = int(E.int("which", 0, 1))
            way = E.pick("way", WAYS)
            expected = E.pick("expected", SUITES)
            moved = eager(travel(E, rt(quotes[i]), way), quotes[i].type)
            got, err = attempt(lambda: tee.attest(moved, expected_curve=expected))
            if expected != suites[i]:
                E.check(err is not None, "a key of another curve is refused", f"{way} {suites[i]} as {expected}")
                return
            if err is not None:
                raise err
            v = rt(got)
            E.check(isinstance(v, PublicKeyValue) and v.suite == expected and got.type == tee.AttestedKeyType(expected), "attested curve", f"{v.suite} {got.type}")
            E.check(len(v.key_bytes) == len(pk[i]), "attested key length", f"{way} {len(v.key_bytes)} {len(pk[i])}")
            E.check(v.key_bytes == pk[i], "the attested key is the bound one", way)
            o = rt(tee.attest(quotes[1 - i], expected_curve=suites[1 - i]))
            E.check(o.key_bytes == pk[1 - i], "quotes do not mix")
            again = rt(tee.attest(eager(travel(E, travel(E, rt(quotes[i]), "json"), way), quotes[i].type), expected_curve=expected))
            E.check(again.key_bytes == pk[i], "attested twice")

    explore(h, unit="issue", expect=("a key of another curve is refused", "the attested key is the bound one", "quotes do not mix"), functions=(TI + "_quote_gen_impl/_attest_impl/MockQuoteValue",), validate=4, max_seconds=2400, bounds="two quotes over any key bytes of four (thorough seven) lengths and four suites, four ways to travel, every expected curve")


def session(tier):
    def h(E):
        import mplang.edsl.typing as T
        import numpy as np
        from mplang.backends.crypto_impl import PublicKeyValue
        from mplang.dialects import crypto, tee, tensor

        with keys.ideal(E):
            n = 3
            pairs = [crypto.kem_keygen("x25519") for _ in range(n)]
            enclave, user, other = (int(E.int(x, 0, n - 1)) for x in ("enclave", "user", "other"))
            q = tee.quote_gen(pairs[enclave][1])
            a = tee.attest(eager(travel(E, rt(q), E.pick("way", WAYS)), q.type))
            s = crypto.kem_derive(pairs[user][0], a)
            t = crypto.kem_derive(pairs[enclave][0], pairs[user][1])
            E.check(rt(s).key_bytes == rt(t).key_bytes, "both ends hold the session secret")
            if other not in (enclave, user):
                for p in (a, pairs[user][1]):
                    u = crypto.kem_derive(pairs[other][0], p)
                    E.check(rt(u).key_bytes != rt(s).key_bytes, "nobody else holds it")
            # an untrusted relay that swaps in its own key is noticed
            if enclave != other:
                fake = tee.attest(tee.quote_gen(pairs[other][1]))
                E.check(rt(fake).key_bytes != rt(a).key_bytes, "another enclave's key")
            m = tensor.constant(np.array([7, -1], dtype=np.int64))
            c = crypto.sym_encrypt(crypto.hkdf(s, "session"), m)
            back = crypto.sym_decrypt(crypto.hkdf(t, "session"), c, m.type)
            E.check(np.array_equal(rt(back).unwrap(), np.array([7, -1])), "a message over the channel")

    explore(h, unit="session", expect=("both ends hold the session secret", "nobody else holds it", "a message over the channel"), functions=(TI + "_quote_gen_impl/_attest_impl", "backends.crypto_impl.kem_derive_impl/hkdf_impl"), validate=3, max_seconds=2400, bounds="three key pairs, every enclave, user and third party, four ways the quote travels")
