from . import trace


def tasks():
    yield trace.task("compute_backtrace, positive duration", "T01", 1)
    yield trace.task("compute_backtrace, negative duration", "T01", -1)
