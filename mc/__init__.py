"""Model checking support library for the ocfl-py checks."""
