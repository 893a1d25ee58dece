"""Harness registry and driver (z3-free)."""
import asyncio
import gc
import logging
import traceback

from .base import Infeasible, ViolationFound


class Harness:
    def __init__(self, fn, prop, params, labels, split, thorough, nonfatal, fallback):
        self.fn, self.prop, self.name = fn, prop, fn.__name__
        self.params = params  # list of dicts (quick)
        self.thorough = thorough  # list of dicts, or None = same as quick
        self.labels = labels
        self.split = split  # {symbol: [indices]}: independent jobs
        self.nonfatal = nonfatal
        self.fallback = fallback  # smaller bounds (quick) for code on which params do not end in time


REG = []


def harness(prop, params=({},), labels=(), split=None, thorough=None, nonfatal=(), fallback=None):
    """Register a harness  fn(ctx, **params)."""

    def deco(fn):
        REG.append(Harness(fn, prop, list(params), tuple(labels), dict(split or {}), thorough, nonfatal, fallback))
        return fn

    return deco


def find(name, prop):
    for h in REG:
        if h.name == name and h.prop == prop:
            return h
    raise KeyError(name)


def reset_env():
    """Same initial process state for every path."""
    from toffee import logger

    lg = logging.getLogger("TOFFEE")
    logger.setup_logging(log_level=logging.CRITICAL + 10, console_display=False)
    logger.stats_handler.serverity_stats.clear()
    logger.stats_handler.id_stats.clear()
    lg.propagate = False
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 10)


def run_body(h, ctx, params):
    """Runs a harness once.  Returns None (passed), or a violation text; abort exceptions of the
    contexts propagate."""
    reset_env()
    try:
        h.fn(ctx, **params)
    except (ViolationFound, Infeasible):
        raise
    except RecursionError as e:
        return "unexpected RecursionError: %s" % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%s" % (f.name, f.lineno) for f in tb[-4:])
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        try:
            loop = asyncio.get_event_loop_policy()._local._loop
            if loop is not None and not loop.is_closed():
                loop.close()
            asyncio.set_event_loop(None)
        except Exception:
            pass
    return None
