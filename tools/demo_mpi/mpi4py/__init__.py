"""Tiny real-process stand-in for mpi4py (demonstrations only): every rank is a process, talking to one coordinator."""
import types
__version__ = "3.1.0"
rc = types.SimpleNamespace(threads=True, initialize=True, finalize=True)
