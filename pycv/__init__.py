"""pycv: a contract based deductive verifier for a numeric subset of Python."""
