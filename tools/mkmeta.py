"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, output committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "s2wav/transforms/"
TR = [T + "wavelet.py", T + "wavelet_c.py", T + "wavelet_precompute.py", T + "wavelet_precompute_torch.py", T + "base.py"]
SAMP, FILT, CONS = "s2wav/samples.py", "s2wav/filters.py", T + "construct.py"

LIN = "symbolic execution of the transform (jaxpr / aten graph / numpy) over symbolic signals, z3 linear real arithmetic"
PATH = "path-forking symbolic execution with symbolic scale factor and uninterpreted tiling integral, z3 (nonlinear) real arithmetic"


def mech(*xs):
    return [dict(name=a, where=b) for a, b in xs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, id
    a = dict(files=files, mechanism=mechanism)
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), technique, note))


TESTS = ("The tests draw one random signal per configuration and only at L=8, N in {2,3}, J_min=2, lam=2, spin 0 "
         "(filters: L in {8,16}, J_min=0, lam in {2,3}); ")
EXACT = ("Exhaustive over all signal values per configuration (solver verdict), bounded in the configuration; trusts the "
         "s2fft contract, exact real arithmetic with tolerance 1e-9 and the tracing front ends.")

prop("C01", "Exact reconstruction",
     "For every band-limited signal and every supported parameter set, wavelet synthesis applied to the output of wavelet "
     "analysis returns the original signal to numerical precision. This holds in each implementation of the transform "
     "(recursive JAX, C backend, JAX precompute, PyTorch precompute, NumPy vectorised and looped), with filters or kernels "
     "supplied or left to default.",
     ["inputs", "configurations"], "all signals of band-limit L (all harmonic coefficients), all L, N, J_min, lam, spin, sampling, reality, argument styles",
     TESTS + "reconstruction must hold for all signals and all parameter combinations.",
     TR + [SAMP, FILT, CONS], mech(("admissible filters and matching analysis/synthesis sums", "s2wav/filters.py, s2wav/transforms/*.py")),
     LIN, EXACT, ["returned signal"])
prop("C04", "Analysis computes the defining directional wavelet convolution",
     "The wavelet coefficients returned by analysis are, at every scale, the directional convolution of the signal with that "
     "scale's documented wavelet, sampled on the scale's own grid and orientations, and the scaling coefficients are its "
     "convolution with the scaling function. Every implementation returns exactly these values, in order of increasing scale from the lowest requested one.",
     ["inputs", "configurations"], "all band-limited signals, all parameter sets, all implementations",
     TESTS + "agreement between implementations is checked on one signal and there is no check against the definition.",
     TR + [SAMP, FILT], mech(("harmonic product and inverse Wigner transform per scale", "analysis() in s2wav/transforms/*.py")),
     LIN, EXACT + " The oracle is an independent model written from the papers (vf/model.py).", ["returned coefficient maps"])
prop("C05", "Synthesis computes the defining sum over scales for any coefficients",
     "For arbitrary coefficient maps of valid shape, including ones that no signal produces, synthesis returns the signal whose "
     "harmonic coefficients are the sum over scales and orders of the maps' harmonic coefficients weighted by the documented filters. "
     "Every implementation returns the same signal.",
     ["inputs", "configurations"], "all wavelet and scaling coefficient maps, all parameter sets, all implementations",
     TESTS + "synthesis is only ever exercised on outputs of analysis, so errors that cancel in a round trip are invisible.",
     TR + [SAMP, FILT, CONS], mech(("forward Wigner transform and weighted sum per scale", "synthesis() in s2wav/transforms/*.py")),
     LIN, EXACT + " The oracle is an independent model written from the papers (vf/model.py).", ["returned signal"])
prop("C09", "Partial analysis from harmonic coefficients matches full analysis",
     "Analysing a signal from its harmonic coefficients returns exactly the wavelet coefficients full analysis would give, and "
     "restricting the highest scale returns exactly the leading scales of that list.",
     ["inputs", "configurations"], "all harmonic coefficient arrays, every highest scale from the lowest to the maximum, all parameter sets, all four implementations offering it",
     TESTS + "one signal, and the highest-scale restriction is never exercised.",
     TR[:4] + [SAMP], mech(("per-scale loop bounded by the requested highest scale", "flm_to_analysis() in s2wav/transforms/wavelet*.py")),
     LIN, EXACT, ["returned coefficient maps"])
prop("C10", "Energy conservation (tight frame)",
     "For every band-limited signal the energy of the scaling coefficients plus the energy of the wavelet coefficients over all "
     "scales and orientations equals the energy of the signal.",
     ["inputs", "configurations"], "all band-limited signals, all parameter sets and implementations",
     TESTS + "no test measures energies of coefficients.",
     TR + [FILT], mech(("admissible tiling and normalisation of harmonic products", "s2wav/filters.py, analysis() in s2wav/transforms/*.py")),
     LIN, EXACT, ["returned coefficient maps"])
prop("C11", "The real-signal option is only an acceleration",
     "On real data, setting or not setting the reality option gives the same results for analysis, analysis from harmonic "
     "coefficients and synthesis, and the results are real.",
     ["inputs", "configurations"], "all real signals and real coefficient maps, all parameter sets and implementations",
     TESTS + "the two settings are never compared on the same data.",
     TR, mech(("conjugate-symmetry branches", "s2wav/transforms/*.py, reality arguments")), LIN, EXACT, ["returned arrays"])

PROPS_EXTRA = os.path.join(ROOT, "tools", "props_extra.py")
if os.path.exists(PROPS_EXTRA):
    exec(open(PROPS_EXTRA).read())

NA = []
P.sort(key=lambda t: t[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p, tech, note in P:
    checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} quick",
                       thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=tech, level="other", level_note=note))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python check.py setup", checks=checks, not_applicable=NA,
                   notes="No hooks in /repo. See DESIGN.md for the encoding, bounds, assumptions and findings."), f, indent=1)
print(len(P), "properties")
