"""Executable property checks."""
