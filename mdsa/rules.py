"""Analyses that need no reference model.  RULES: name -> f(ctx) -> (findings, coverage)"""
RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f
