"""Imports the code under test, from the repository's working tree, after the seams are in place."""
import os
import sys

from .sim import REPO

for p in (os.path.join(REPO, "core"), REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

import logging  # noqa: E402

import ratarmountcore  # noqa: E402

assert os.path.realpath(ratarmountcore.__file__).startswith(os.path.realpath(REPO) + "/"), ratarmountcore.__file__
import ratarmountcore.mountsource.factory  # noqa: E402,F401
import ratarmountcore.utils  # noqa: E402,F401

if not os.environ.get("DST_LOG"):
    logging.disable(logging.CRITICAL)
else:
    logging.basicConfig(level=os.environ["DST_LOG"])
