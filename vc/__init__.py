"""Contract-based deductive verifier for Calkulate (see /verif/DESIGN.md)."""
