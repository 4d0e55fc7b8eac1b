"""Stand-in: plots are not explored."""
