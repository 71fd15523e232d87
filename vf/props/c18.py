"""Scattering mode returns the modulus of the wavelet coefficients."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, query
from ..lin import Context, pad_cols

ID = "C18"
FUNCTIONS = ["s2wav.transforms.base.analysis (with and without scattering)", "s2wav.samples.*", "s2wav.filters.*"]
EXPLANATION = (
    "Self-composition: each task executes vectorised analysis with and without scattering mode on an arbitrary signal. The "
    "moduli in the scattering run are fresh solver variables; z3 is asked for a signal on which the argument of some modulus "
    "differs from the plain wavelet coefficient by more than 1e-9, on which an output is not its modulus, or on which the scaling coefficients differ."
)
BOUNDS = "covering set over L in 3..6, N in 1..3, J_min, six lam values, four samplings, spins -2..2, reality, both resolutions; thorough: L to 8"
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    if tier == "quick":
        return configs.per_backend(dict(np=120), (3, 4, 5, 6), (1, 2, 3), seed=90)
    return configs.per_backend(dict(np=700), (3, 4, 5, 6, 7, 8), (1, 2, 3, 4), seed=90)


def run(t):
    p = t["p"]
    c = C.flm_vars(p)
    ctx = Context(c.shape[-1] - 1)
    plain = [B.as_lin(x, ctx) for x in B.sym_call("np", "analysis", p, [C.signal(p, c.copy(), ctx)])]
    scat = [B.as_lin(x, ctx) for x in B.sym_call("np", "analysis", dict(p, scattering=True), [C.signal(p, c.copy(), ctx)])]
    if len(plain) != len(scat) or any(a.shape != b.shape for a, b in zip(plain, scat)):
        return {"status": "cex", "x": C._generic(ctx), "detail": "different shapes with scattering"}
    # modulus variables: index -> coefficient row of the argument
    arg = {}
    for e in ctx.events:
        if e[0] == "abs":
            for (i,), row in zip(e[1], e[2]):
                arg[int(i)] = row
    pairs, names, odd = [(scat[-1], plain[-1].c)], ["scaling coefficients"], []
    for j, (a, b) in enumerate(zip(plain[:-1], scat[:-1])):
        rows = pad_cols(b.c, ctx.K).reshape(-1, ctx.K)
        A = pad_cols(a.c, ctx.K).reshape(-1, ctx.K)
        G = np.zeros_like(A)
        for i, r in enumerate(rows):
            nz = np.nonzero(r)[0]
            if len(nz) == 1 and int(nz[0]) in arg and r[nz[0]] == 1:
                G[i] = pad_cols(arg[int(nz[0])][None], ctx.K)[0]
            elif not np.any(r) and not np.any(np.abs(A[i]) > 1e-13):
                G[i] = A[i]
            else:
                odd.append((j, i))
        if odd:
            break
        from ..lin import Lin

        pairs.append((Lin(G, ctx, np.complex128), A))
        names.append(f"wavelet coefficient {j}")
    if odd:
        # not literally the modulus of something: decide v >= 0 and v^2 = |plain|^2 directly
        j, i = odd[0]
        rb = pad_cols(scat[j].c, ctx.K).reshape(-1, ctx.K)[i]
        ra = pad_cols(plain[j].c, ctx.K).reshape(-1, ctx.K)[i]

        def build(z):
            v, im = z.expr(rb.real), z.expr(rb.imag)
            x, y = z.expr(ra.real), z.expr(ra.imag)
            e = z.z3.RealVal("1/1000000")
            return z.z3.Or(v < -e, im > e, im < -e, v * v - x * x - y * y > e, v * v - x * x - y * y < -e)

        s, x = query.solve(ctx, build, 20000)
        if s == "sat":
            return {"status": "cex", "x": list(map(float, x)), "detail": f"scale index {j}, pixel {i}: not the modulus"}
        return {"status": "unknown", "detail": f"output of scale index {j} is not syntactically a modulus ({s})"}
    res = C.decide(ctx, pairs, names)
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, plain[0].c)
    return res


def concrete(t, x):
    p = t["p"]
    c = C.flm_vars(p)
    x = C.point(c.shape[-1] - 1, x)
    f = C.signal(p, c @ x[:, None].astype(complex), Context(0)).c[..., 0]
    f = f.real if p["reality"] else f
    a = B.conc_call("np", "analysis", p, [f])
    b = B.conc_call("np", "analysis", dict(p, scattering=True), [f])
    want = [np.abs(w) for w in a[:-1]] + [a[-1]]
    bad, msg = C.compare_all(b, want, C.scale_names(p))
    return bad, msg
