"""Solver-chosen multi-party programs with a reference meaning.

Every variable carries its traced object, its static party set (None =
dynamic) and the reference value per party.
"""

from __future__ import annotations

from itertools import product

from . import mesh


class Var:
    def __init__(self, obj, parties, vals):
        self.obj, self.parties, self.vals = obj, parties, vals


def subsets(world, empty=False):
    r = []
    for m in range(0 if empty else 1, 1 << world):
        r.append(tuple(i for i in range(world) if m >> i & 1))
    return r


def routings(world, total=False):
    r = []
    for c in product(range(-1, world), repeat=world):
        d = {t: s for t, s in enumerate(c) if s >= 0}
        if d and (not total or len(d) == world):
            r.append(d)
    return r


class Rejected(BaseException):
    """The front end refused the step (carries whether the reference refuses it)."""

    def __init__(self, expected, what, exc=None):
        self.expected, self.what, self.exc = expected, what, exc


def attempt(ok, what, f):
    """Run a traced step; compare acceptance with the reference predicate."""
    try:
        r = f()
    except (ValueError, TypeError) as e:
        raise Rejected(not ok, what, e) from None
    if not ok:
        raise Rejected(None, what)  # accepted although it must be refused
    return r


def source(E, world, tag, parties):
    from mplang.dialects import simp

    obj = simp.pcall_static(parties, lambda: mesh.src(tag))
    return Var(obj, set(parties), {r: E.uf(f"src_{tag}_{r}") for r in parties})


def dyn(E, v, tag):
    from mplang.dialects import simp

    obj = simp.pcall_dynamic(lambda a: mesh.fn(tag, a), v.obj)
    return Var(obj, None, {r: E.uf(f"fn_{tag}_1", x) for r, x in v.vals.items()})


def pcall(E, vs, parties, tag):
    from mplang.dialects import simp

    known = [v.parties for v in vs]
    ok = any(p is None for p in known) or all(set(parties) <= p for p in known)
    obj = attempt(ok, f"pcall{parties} on {[v.parties for v in vs]}", lambda: simp.pcall_static(parties, lambda *a: mesh.fn(tag, *a), *[v.obj for v in vs]))
    vals = {}
    for r in set(parties):
        args = [v.vals.get(r) for v in vs]
        vals[r] = None if any(a is None for a in args) else E.uf(f"fn_{tag}_{len(vs)}", *args)
    return Var(obj, set(parties), vals)


def shuffle(E, v, routing):
    from mplang.dialects import simp

    ok = v.parties is None or set(routing.values()) <= v.parties
    obj = attempt(ok, f"shuffle {routing} on {v.parties}", lambda: simp.shuffle_static(v.obj, dict(routing)))
    return Var(obj, set(routing), {t: v.vals.get(s) for t, s in routing.items()})


def converge(E, vs):
    from mplang.dialects import simp

    ps = [v.parties for v in vs]
    dynamic = any(p is None for p in ps)
    ok = dynamic or all(not (ps[i] & ps[j]) for i in range(len(ps)) for j in range(i))
    obj = attempt(ok, f"converge {ps}", lambda: simp.converge(*[v.obj for v in vs]))
    vals = {}
    for v in vs:
        for r, x in v.vals.items():
            vals.setdefault(r, x)
    return Var(obj, None if dynamic else set().union(*ps), vals)


def compare(E, res, outs, world, jobs=("job",), what=""):
    """Every party of every job returned exactly the reference values."""
    if isinstance(res, tuple):
        E.check(False, "terminates", f"{res}; {what}")
        return
    for j in jobs:
        for r in range(world):
            kind, got = res[(j, r)]
            E.check(kind == "ok", "no-error", f"party {r}: {got!r}; {what}")
            for i, v in enumerate(outs):
                want = v.vals.get(r)
                if want is None:
                    E.check(got[i] is None, "hole", f"party {r} holds {got[i]} for output {i}; {what}")
                else:
                    E.check(got[i] is not None, "present", f"party {r} misses output {i}; {what}")
                    E.eq("value", got[i], want, f"party {r} output {i}: got {got[i]} want {want}; {what}")
    E.cover("terminates")


def static_types(E, types, outs, what=""):
    for t, v in zip(types, outs, strict=True):
        got = None if t.parties is None else set(t.parties)
        E.check(got == v.parties, "static-parties", f"typed {got}, lives at {v.parties}; {what}")
