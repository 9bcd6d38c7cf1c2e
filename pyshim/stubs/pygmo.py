"""Stand-in for pygmo (not installed): pykep.test only imports it."""
