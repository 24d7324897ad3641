"""Property id -> check."""

import importlib

TABLE = {
    "C01": "parallel:C01",
    "C02": "parallel:C02",
    "C03": "parallel:C03",
    "C04": "comm:C04",
    "C05": "comm:C05",
    "C06": "meanfield:C06",
    "C07": "conv:C07",
    "C08": "faults:C08",
    "C09": "history:C09",
    "C10": "conv:C10",
    "C11": "conv:C11",
    "C12": "storage:C12",
    "C13": "env:C13",
    "C14": "env:C14",
    "C15": "env:C15",
    "C16": "textout:C16",
}


def get(pid):
    mod, cls = TABLE[pid].split(":")
    return getattr(importlib.import_module("vsim.checks." + mod), cls)()
