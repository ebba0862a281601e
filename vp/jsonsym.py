"""The JSON text layer for values that carry symbolic leaves.

``json`` (CPython) is trusted: text encoding followed by decoding is the
identity on JSON-compatible data.  For data with symbolic leaves the encoder
checks that the data is JSON-compatible and emits a token; decoding the token
yields a fresh copy.  Data without symbolic leaves goes through real text.
"""

from __future__ import annotations

import contextlib
import json

import z3

from .sym import SymBool, SymInt


def symbolic(x):
    if isinstance(x, (SymInt, SymBool, z3.ExprRef)):
        return True
    if isinstance(x, dict):
        return any(symbolic(k) or symbolic(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(symbolic(v) for v in x)
    return False


def copy(x, sort_keys=False):
    if isinstance(x, dict):
        for k in x:
            if not isinstance(k, str):
                raise TypeError(f"keys must be str, not {type(k).__name__}")
        return {k: copy(x[k], sort_keys) for k in (sorted(x) if sort_keys else x)}
    if isinstance(x, (list, tuple)):
        return [copy(v, sort_keys) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, SymInt, SymBool)):
        return x
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def key(x):
    """Text of the data with symbolic leaves written as terms."""
    if isinstance(x, dict):
        return "{" + ",".join(f"{k!r}:{key(v)}" for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ",".join(map(key, x)) + "]"
    if isinstance(x, (SymInt, SymBool)):
        return "<" + z3.simplify(x.e).sexpr() + ">"
    return repr(x)


@contextlib.contextmanager
def layer():
    enc, dec = json.JSONEncoder.encode, json.JSONDecoder.decode
    table, tokens = {}, {}

    def encode(self, o):
        if symbolic(o):
            c = copy(o, self.sort_keys)
            # equal content has one text (digests are computed over it)
            t = tokens.setdefault(key(c), f"@symbolic:{len(tokens)}")
            table[t] = c
            return enc(self, t)
        return enc(self, o)

    def decode(self, s, *a, **k):
        r = dec(self, s, *a, **k)
        return copy(table[r]) if isinstance(r, str) and r in table else r

    json.JSONEncoder.encode, json.JSONDecoder.decode = encode, decode
    try:
        yield
    finally:
        json.JSONEncoder.encode, json.JSONDecoder.decode = enc, dec
