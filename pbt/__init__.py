"""Property-based testing of stoqcompiler: see /verif/DESIGN.md."""
