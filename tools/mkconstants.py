#!/usr/bin/env python3
"""Writes rt/constants.json: the constants of /repo/hadar as the checks were written, with their number of occurrences."""
import ast
import collections
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, "rt", "common.py")).read()
fn = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == "harvest")
env = {"collections": collections, "os": os, "ast": ast, "REPO": "/repo"}
exec(compile(ast.Module([fn], []), "harvest", "exec"), env)
found = env["harvest"]()
out = [["s" if type(k) is str else "n", k, c] for k, c in found.items()]
json.dump(sorted(out, key=lambda x: (x[0], str(x[1]))), open(os.path.join(HERE, "rt", "constants.json"), "w"), indent=0)
