"""Structural rules written for this repository; each yields verdicts on named constructs."""

from __future__ import annotations

import importlib
import pkgutil

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f

    return deco


def load():
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(f"{__name__}.{m.name}")
    return RULES
