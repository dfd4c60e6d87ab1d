import importlib
import sys

from . import runner


def main():
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(runner.run(mod, sys.argv[2:]))


if __name__ == "__main__":
    main()
