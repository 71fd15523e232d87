"""Worker process: executes tasks of one property.

mode "sym"  : s2fft's recursions replaced by their contract; tasks decided symbolically.
mode "real" : nothing patched; tasks replayed on the real code.
"""
import ctypes
import json
import os
import sys
import time
import traceback


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # anything printed by the code under test goes to stderr
    sys.stdout = sys.stderr
    from . import env

    env.import_numeric()
    if mode == "sym":
        from . import stubs

        stubs.install()
    import importlib

    err = None
    try:
        P = importlib.import_module(f"vf.props.{prop.lower()}")
    except Exception as e:  # pragma: no cover
        P, err = None, f"{type(e).__name__}: {e}"
    from . import query
    from .backends import CodeError
    from .props import common as C
    from .lin import NotEncodable

    out.write(json.dumps({"ready": err is None, "error": err}) + "\n")
    hist = []
    for line in sys.stdin:
        msg = json.loads(line)
        t0 = time.time()
        before = dict(query.STATS)
        try:
            if mode == "sym":
                r = run_paths(P, msg["task"])
                r["history"] = hist[-12:]
                hist.append(msg["task"])
            else:
                for h in msg.get("history", []):
                    try:
                        P.concrete(h, None)
                    except Exception:
                        pass
                bad, text = P.concrete(msg["task"], msg.get("x"))
                for probe in msg.get("probes", []):
                    if bad:
                        break
                    C.PROBE[0] = probe
                    bad, text = P.concrete(msg["task"], None)
                    text = f"{text} ({probe} input)"
                C.PROBE[0] = None
                r = {"violated": bool(bad), "message": text}
        except NotEncodable as e:
            r = {"status": "notenc", "detail": f"{e} [{_site(e)}]"}
        except CodeError as e:
            r = {"status": "error", "detail": str(e), "where": e.where,
                 "error": type(e.orig).__name__, "violated": True, "message": f"raised {e}"}
            hist.append(msg["task"])
        except Exception as e:
            traceback.print_exc()
            r = {"status": "internal", "detail": f"{type(e).__name__}: {e} [{_site(e)}]"}
        r["id"] = msg["id"]
        r["stats"] = {k: query.STATS[k] - before[k] if k != "vars" else query.STATS[k] for k in query.STATS}
        r["wall"] = time.time() - t0
        # a task with large transform matrices leaves its memory with the process: start anew
        r["retire"] = mode == "sym" and rss_mb() > 2500
        out.write(json.dumps(r, default=_js) + "\n")


def rss_mb():
    try:
        ctypes.CDLL("libc.so.6").malloc_trim(0)
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2**20
    except OSError:
        return 0


def run_paths(P, task):
    """Execute a task once per outcome of its branches on symbolic predicates."""
    from .lin import FORK, NotEncodable

    prefix, total = [], None
    for _ in range(FORK.MAX_PATHS):
        FORK.start(prefix)
        try:
            r = P.run(task)
        finally:
            FORK.on = False
        if total is None:
            total = r
        elif r.get("status") == "holds":
            total["nontrivial"] = total.get("nontrivial") or r.get("nontrivial")
            for k, v in (r.get("counts") or {}).items():
                total.setdefault("counts", {})[k] = total.get("counts", {}).get(k, 0) + v
        if r.get("status") != "holds":
            return r
        prefix = FORK.next()
        if prefix is None:
            return total
    raise NotEncodable("too many paths")


def _site(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/s2wav/" in f.filename:
            return f"{f.filename}:{f.lineno}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"


def _js(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    return str(o)


if __name__ == "__main__":
    main()
