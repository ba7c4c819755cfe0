"""Runtime monitors for actuarialmath (see ../DESIGN.md)."""
