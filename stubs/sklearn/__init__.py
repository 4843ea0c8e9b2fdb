"""Minimal stand-in for scikit-learn, which is not installed in this sandbox.

Only what resistics imports exists here.  Every estimator is deterministic and
solves the same least squares problem.  It is a STUB: nothing in /verif claims
anything about scikit-learn itself.
"""
__version__ = "0.0-stub"
