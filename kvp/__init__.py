"""Property-based checks for kymatio (see /verif/DESIGN.md)."""
