"""The contracts of C35 are reference models (specs/mzn) and those of the functions that fill models in (c29, c30, c31, c34)."""
