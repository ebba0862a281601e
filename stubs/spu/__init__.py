"""Stand-in for the `spu` package, which is not installed in this sandbox.

It is an *ideal functionality*, not an implementation: shares are additive
shares of the raw little-endian bytes (mod 256 per byte), an SPU program is the
StableHLO text of the JAX function, and running it means exchanging all shares
over the link's channels, evaluating the program in the clear and re-sharing.
It exists so that mplang's SPU glue (placement, link caching, channel adapter,
share movement) can be executed; it says nothing about libspu itself.
"""
