"""Bounded exhaustive exploration of EEA-sensors/parallel-control-codes."""
