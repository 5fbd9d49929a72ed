"""symx: a small dynamic symbolic executor (z3 back end) for the real psygnal code."""
