"""Deterministic simulation of PyEMD: seams, scheduler, fault injection, oracles."""
