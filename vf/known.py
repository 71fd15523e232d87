"""Known findings: genuine defects recorded, not repaired (see known_findings.json).

Each is identified by backend, operation, error and the exact parameter condition; anything
else is reported as a violation."""
import json
import os
import re

from .env import VERIF

_K = None


def load():
    global _K
    if _K is None:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            _K = json.load(f)
    return _K


def nj_gt_lj(p):
    from . import model

    for j in model.scales(p["L"], p["J_min"], p["lam"]):
        Lj, Nj = model.LN(p["L"], j, p["N"], p["lam"])
        if Nj > Lj:
            return True
    return False


CONDS = {
    "N==1": lambda p: p["N"] == 1,
    "N_j > L_j at some scale": nj_gt_lj,
    "reality or dh sampling": lambda p: p["reality"] or p["sampling"] == "dh",
}


def demos(prop):
    """Findings whose failure is a wrong value inside s2fft: the symbolic check assumes the
    s2fft contract and so does not meet them; one recorded input each is run for real."""
    return [k for k in load()["known"] if k.get("kind") == "value" and prop in k["properties"]]


def match_probe(prop, r):
    """A probe of the real code (no solver counterexample) that hit a recorded wrong value."""
    p, task = r["task"].get("p"), r["task"]
    for k in demos(prop):
        if task.get("backend") in k["backends"] and CONDS[k["condition"]](p):
            return k
    return None


def match(prop, r):
    if r.get("error") is None:
        return None
    task = r["task"]
    p = task.get("p")
    if not p:
        return None
    for k in load()["known"]:
        if k.get("kind") == "value" or prop not in k["properties"] or not (
            {task.get("backend"), task.get("second")} & set(k["backends"])
        ):
            continue
        if not re.search(k["where"], r.get("where") or ""):
            continue
        if not re.fullmatch(k["error"], r["error"]):
            continue
        if k.get("samplings") and p["sampling"] not in k["samplings"]:
            continue
        if not CONDS[k["condition"]](p):
            continue
        return k
    return None
