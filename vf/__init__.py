"""Solver-based checking of eustace-advanced: symbolic execution of the real code with z3-backed values."""
