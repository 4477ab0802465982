"""Repository-specific static analysis of scikit-multiflow (see /verif/DESIGN.md)."""
