#!/opt/venv/bin/python
"""check.py <PROPERTY> [quick|thorough]   decide one property on /repo's working tree
check.py setup                          check that the solver loads
check.py replay <file.json>             replay a recorded violation on the real code"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import driver  # noqa: E402


def main():
    if sys.argv[1] == "setup":
        from vf import env

        print("z3", env.import_z3().get_version_string())
        os.makedirs(os.path.join(env.VERIF, "evidence", "replay"), exist_ok=True)
        return
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        pool = driver.Pool(d["property"], "real", 1)
        pool.q.put({"id": 0, "task": d["task"], "x": d.get("x"), "history": d.get("history", []), "fresh": True})
        r = pool.res.get()
        pool.close()
        print(json.dumps({k: r.get(k) for k in ("violated", "message")}, indent=1))
        sys.exit(1 if r.get("violated") else 0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    code = driver.run(sys.argv[1], tier)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
