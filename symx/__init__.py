"""symx: a small symbolic-execution engine for real Python source (see DESIGN.md)."""
