"""Import the library under test from /repo's working tree, never from stale byte code."""
import sys
import os
import warnings

REPO = "/repo"


def load():
    warnings.simplefilter("ignore")
    # third-party dependencies first, with their ordinary byte code
    import numpy, bitstring, mediatimestamp.immutable, mediajson, frozendict, deprecated  # noqa: F401,E401
    import asyncio, uuid, fractions, json, struct, io, typing_extensions  # noqa: F401,E401
    try:
        import hypothesis, hypothesis.strategies  # noqa: F401,E401
    except ImportError:
        pass
    # .pyc files of /repo are ignored: byte code is looked up under a prefix that does not exist
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache-prefix"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import mediagrains
    import mediagrains.grains, mediagrains.gsf, mediagrains.comparison  # noqa: F401,E401
    import mediagrains.numpy, mediagrains.patterngenerators, mediagrains.utils  # noqa: F401,E401
    import mediagrains.tools  # noqa: F401
    import mediagrains.hypothesis.strategies  # noqa: F401
    root = os.path.realpath(os.path.dirname(mediagrains.__file__))
    if root != os.path.realpath(REPO + "/mediagrains"):
        raise RuntimeError("mediagrains imported from %s, not from %s" % (root, REPO))
    sys.pycache_prefix = None
    return mediagrains
