"""Bounded exhaustive exploration of the real marxs code."""
