"""Deterministic simulation of dcor (see /verif/DESIGN.md)."""
