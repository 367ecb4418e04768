"""Bounded exhaustive exploration ("model checking") of the gama implementation."""
