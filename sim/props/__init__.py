"""Workload generators, one module per property."""
