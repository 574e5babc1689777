"""Deterministic simulation of deodr with fault injection."""
