"""Shared machinery of the gempakio property checks."""
