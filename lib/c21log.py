"""Event log that the generated co-simulation scripts write to."""
import itertools, threading
EVENTS = []          # (sequence number, kind, id, thread, info)
_seq = itertools.count()
_lock = threading.Lock()
_me = threading.local()          # a thread number that is never used again (thread identifiers are)
_tid = itertools.count()


def event(kind, ident, info=None):
    with _lock:
        n = next(_seq)
        if not hasattr(_me, "n"):
            _me.n = next(_tid)
        EVENTS.append((n, kind, ident, _me.n, info))
    return n
