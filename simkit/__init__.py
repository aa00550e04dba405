"""Deterministic simulation of dessia_common: one seed is one exactly repeatable execution."""
