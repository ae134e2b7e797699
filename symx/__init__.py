"""symx: a small concolic/symbolic executor for Python source, z3 as decision procedure."""
