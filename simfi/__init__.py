"""Deterministic simulation with fault injection for fluidimage."""
