"""Fork-based parallel map for replays (deterministic order of results)."""
import os
import multiprocessing as mp
import traceback

_F = None


def _call(x):
    try:
        return ('ok', _F(x))
    except Exception as e:
        import sys
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = [t for t in tb if '/menpofit/' in t.filename]
        return ('err', (type(e).__name__, traceback.format_exc()[-1800:], bool(inside)))


def pmap(fn, items, workers=6, chunk=1):
    """[('ok', result) | ('err', (type, text, raised inside menpofit))]"""
    global _F
    _F = fn
    if workers <= 1 or len(items) < 2:
        return [_call(x) for x in items]
    with mp.get_context('fork').Pool(workers) as p:
        return p.map(_call, list(items), chunksize=chunk)
