"""pyvc: a deductive verifier (VC generator + SMT back ends) for the Python of /repo."""
