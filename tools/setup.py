"""Builds what the checks need (they rebuild it themselves whenever /repo has changed)."""
import importlib
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
sys.dont_write_bytecode = True
for n in sorted(os.listdir("checks")):
    if n.startswith("c") and n[1:3].isdigit() and n.endswith(".py"):
        importlib.import_module("checks." + n[:-3]).setup("quick")
