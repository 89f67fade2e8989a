"""Runs harness checks on concrete inputs against the plain (un-instrumented) code.

    replay.py HARNESS BATCH.json     -> one JSON line per item: {status, msg, observed}
    replay.py FILE.replay.json       -> replays one recorded counterexample (exit 1 when it fails)
"""
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import canon  # noqa: E402
from symx.ctx import AssumeFailed, CheckFailed, ConcreteCtx  # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_one(mod, fn, case, inputs, limit=10):
    ctx = ConcreteCtx(inputs)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        getattr(mod, fn)(ctx, **case)
        st, msg = "ok", ""
    except AssumeFailed:
        st, msg = "assume", ""
    except CheckFailed as ex:
        st, msg = "violation", str(ex)
    except Hang:
        st, msg = "violation", "does not terminate within %ds" % limit
    except Exception as ex:
        st = "violation"
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        msg = "unexpected %s: %s (at %s:%s)" % (
            type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    return dict(status=st, msg=msg, observed=canon.canon(ctx.observed), asserts=ctx.nasserts)


def load(harness):
    import logging

    logging.disable(logging.CRITICAL)
    from symx.plainload import load_plain

    return load_plain(harness)


def main():
    if sys.argv[1].endswith(".replay.json"):
        with open(sys.argv[1]) as f:
            r = json.load(f)
        if len(sys.argv) < 3:
            mod = load(r["harness"])
            out = run_one(mod, r["check"], r["case"], r["inputs"])
            print(json.dumps(out, default=str, indent=1))
            sys.exit(1 if out["status"] == "violation" else 0)
    with open(sys.argv[2]) as f:
        items = json.load(f)
    mod = load(sys.argv[1])
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for it in items:
        real.write(json.dumps(run_one(mod, it["check"], it["case"], it["inputs"]), default=str) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
