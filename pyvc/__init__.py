"""pyvc: a small deductive verifier for the Python subset used in /repo."""
