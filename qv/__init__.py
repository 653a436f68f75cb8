"""qv: a small deductive verifier for the Python of garrettj403/QMix (see DESIGN.md)."""
