"""Stand-in for matplotlib (not installed)."""
