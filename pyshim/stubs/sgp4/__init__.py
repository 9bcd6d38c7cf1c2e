"""Stand-in for sgp4 (not installed): a satellite on a circular orbit that records the split Julian dates it is given."""
