"""Stand-in for heyoka.py (not installed): pykep.ta only imports it."""
