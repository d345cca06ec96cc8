"""Property-based checks for reservoirflow (see ../DESIGN.md)."""
