"""Deterministic simulation of glum: seams, schedulers, faults, oracles."""
