"""Deterministic simulator for GIRTH: kernel, seams, stubs, workload."""
