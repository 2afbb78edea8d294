"""Deterministic simulation with fault injection for mssm."""
