"""What each party reads during a device program, compared between two runs that differ in the private inputs."""

import functools

from . import P25_devices as D

ASSUMPTIONS = (
    *D.ASSUMPTIONS,
    "a party reads clear messages, ciphertexts under session keys it derived, and complete sets of shares; single shares and ciphertexts under other keys reveal nothing",
)


def units(tier):
    lays = list(D.LAYOUTS) if tier != "quick" else ["shared-nodes", "outsiders"]
    return [(f"views-{n}", functools.partial(D.programs, tier, n, "views"), 4) for n in lays]
