"""Close the system: import the real code from the repository's working tree with every source of
incidental nondeterminism / noise pinned, and nothing of its behaviour replaced.

 * the package is imported from CCP_REPO (default /repo) and we refuse to run against anything else;
 * bytecode is never written (the repository's tree stays as it was);
 * loguru's *logging* wrapper ``logger.catch(reraise=True)`` is reduced to the identity (it only logs and
   re-raises, so the observable result of the wrapped call is the same); ``catch`` without reraise swallows
   exceptions, so that form is left exactly as it is;
 * log sinks are removed.
"""
import os
import sys
import warnings

REPO = os.environ.get("CCP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

_loaded = False


def load():
    """Import ciscoconfparse from REPO; returns the package."""
    global _loaded
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from loguru import logger

    if not _loaded:
        _orig_catch = type(logger).catch

        def catch(self, *args, **kwargs):
            if kwargs.get("reraise") is True and not args and set(kwargs) == {"reraise"}:
                def deco(fn):
                    return fn
                return deco
            return _orig_catch(self, *args, **kwargs)

        type(logger).catch = catch
        _loaded = True
    import ciscoconfparse

    where = os.path.realpath(ciscoconfparse.__file__)
    want = os.path.realpath(os.path.join(REPO, "ciscoconfparse")) + os.sep
    if not where.startswith(want):
        raise SystemExit(f"harness error: ciscoconfparse imported from {where}, not from {want}")
    logger.remove()
    logger.disable("ciscoconfparse")
    return ciscoconfparse
