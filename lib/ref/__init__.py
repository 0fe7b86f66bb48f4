"""Independent reference model of the execution layer (plain ints, bytes, dicts)."""
