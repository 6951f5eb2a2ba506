"""bin/check PROPERTY: runs one check."""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402


def run(chk):
    import adapt  # pylint: disable=import-outside-toplevel

    adapt.load()
    importlib.import_module(chk.pid.lower()).check(chk)


if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], run))
