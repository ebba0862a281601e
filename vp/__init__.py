"""Solver-based checking of the real mplang code (see /verif/DESIGN.md)."""
