"""Runtime-monitoring framework for xoscar (see /verif/DESIGN.md)."""
