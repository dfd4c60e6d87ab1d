"""Stands in for the sass module."""
import os


class CompileError(Exception):
    pass


def compile(string):
    if "!!bad" in string:
        raise CompileError("sass gives up")
    with open(os.environ["VT_LOG"], "ab") as f:
        f.write(b"sass\0" + string.encode() + b"\n\0\n")
    return "/* css */ " + string
