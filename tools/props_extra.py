SYMB = ("Exhaustive over the symbolic parameters within the stated bounds (every feasible path explored, each assertion "
        "discharged by the solver); trusts the symbolic-number front end and the contract of the uninterpreted tiling integral.")

prop("C02", "Filters are admissible",
     "The wavelet filters and scaling function produced by every generator satisfy the admissibility condition that makes the "
     "transform exactly invertible: at every degree the squared scaling function and the squared filters over all scales and orders, "
     "suitably normalised, sum to one, and all values are finite. It holds for any scale factor, band-limits, lowest scale and spin, axisymmetric or directional.",
     ["inputs", "configurations"], "all L, N, J_min, real lam > 1, spin; all six filter generators",
     TESTS + "admissibility at other (in particular non-integer or larger) lam, J_min > 0 or spin is never evaluated.",
     [FILT, SAMP], mech(("tiling of the harmonic line and directional tiling", "s2wav/filters.py"), ("number of scales", "s2wav/samples.py j_max")),
     PATH, SYMB, ["returned filters"])
prop("C03", "Filters have compact harmonic support covered by the band-limits",
     "Each wavelet filter vanishes outside its documented support in degree (between lam^(j-1) and lam^(j+1)), azimuthal order (below N, of N's "
     "parity, at most the degree) and below the spin, and the scaling function vanishes from lam^J_min on. The multiresolution band-limits used "
     "by the transforms at each scale contain this support, so truncating to them discards nothing.",
     ["inputs", "configurations"], "all L, N, J_min, real lam > 1, spin, every scale, all generators",
     TESTS + "supports are never checked and band-limits are only exercised at integer powers.",
     [FILT, SAMP], mech(("generating functions", "s2wav/filters.py"), ("per-scale band-limits", "s2wav/samples.py LN_j, scal_bandlimit, L0_j")),
     PATH, SYMB, ["returned filters", "returned band-limits"])
prop("C06", "All filter generators implement the same documented filters",
     "The looped, vectorised and JAX generators return the same filters and scaling function for the same parameters, and these are the "
     "documented ones: square roots of differences of the tiling function at consecutive dilations times the directional tiling, with spin normalisation.",
     ["inputs", "configurations"], "all L, N, J_min, real lam > 1, spin, original spin, scales at or above the lowest; axisymmetric and directional",
     TESTS + "generators are compared at lam 2 and 3, spin 0, J_min 0 only.",
     [FILT, SAMP], mech(("three generators of one construction", "s2wav/filters.py filters_*, k_lam*, tiling_direction*, *spin_normalization*")),
     PATH, SYMB + " The oracle formula is written independently; the quadrature is executed in separate tasks with a few steps.", ["returned filters"])
prop("C07", "Advertised shapes are the sampling scheme's shapes",
     "The shape functions and the coefficient-array constructors report, for every sampling scheme, band-limit, resolution mode and scale, "
     "exactly the dimensions of the grid on which that scale's coefficients live, with one array per scale in increasing order starting at the lowest scale.",
     ["inputs", "configurations"], "all L, N, J_min, highest scale, real lam > 1, five sampling schemes, both resolution modes; NumPy, JAX and torch constructors",
     TESTS + "only mw, mwss and dh at two band-limits are compared.",
     [SAMP], mech(("shape functions and constructors", "s2wav/samples.py f_scal, f_wav_j, flmn_wav_j, construct_*")),
     PATH, SYMB, ["returned shapes and arrays"])
prop("C08", "Implementations are interchangeable",
     "Coefficients computed by any implementation can be synthesised by any other implementation with the same parameters and "
     "the original signal is returned.",
     ["inputs", "configurations"], "all band-limited signals, all parameter sets, every ordered pair of implementations",
     TESTS + "pairs are only compared through the NumPy implementation on one random signal.",
     TR + [SAMP, FILT], mech(("shared layout and normalisation of coefficients", "s2wav/transforms/*.py")), LIN, EXACT, ["returned signal"])
prop("C13", "Gradients are exact",
     "Reverse-mode derivatives of analysis, synthesis and partial analysis of the differentiable implementations equal the exact adjoint of the "
     "linear map the operation computes, for every cotangent.",
     ["inputs", "configurations"], "all cotangents (and, by linearity, all inputs), all parameter sets, the four differentiable implementations",
     TESTS + "gradients are tested numerically at one point and only as far as jax.test_util's tolerance.",
     TR[:4], mech(("pure array programs without in-place aliasing or dtype breaks", "s2wav/transforms/wavelet*.py")), LIN,
     EXACT + " The derivative rules of s2fft's own recursive and C transforms are part of its contract.", ["returned derivatives"])
prop("C14", "Calls are pure",
     "No transform, filter generator or kernel generator modifies its arguments, and the result of a call depends only on its arguments: it "
     "is unaffected by any earlier calls with other parameters or by the caller overwriting arrays it was handed earlier; no call changes process-wide random generators or numerical settings.",
     ["inputs", "histories"], "all signals and coefficients, histories of calls with differing parameters interleaved with caller overwrites",
     "Each test calls a function once on fresh data; caching, aliasing and in-place updates only show over histories.",
     TR + [SAMP, FILT, CONS], mech(("fresh outputs, no module state", "s2wav/transforms/*.py, s2wav/filters.py, s2wav/samples.py")), LIN,
     EXACT + " Histories are of the stated bounded form, sequential.", ["returned arrays", "arguments after the call"])
prop("C15", "Invalid parameters are rejected and valid ones are not",
     "Filter generation raises ValueError exactly when the lowest scale is negative or not below the number of scales; the coefficient shape check "
     "accepts exactly lists of the documented number and shapes. The C backend's analysis and synthesis reject HEALPix sampling and the precompute "
     "transforms reject missing kernels with ValueError.",
     ["inputs", "configurations"], "all integers J_min, real lam > 1, L; all array shapes and list lengths; all other arguments",
     "No test passes an invalid argument, and the boundary depends on all of L, lam and J_min.",
     [FILT, SAMP] + TR[1:4], mech(("argument validation", "s2wav/filters.py, s2wav/samples.py wavelet_shape_check, s2wav/transforms/wavelet_c.py, wavelet_precompute*.py")),
     PATH, SYMB, ["exception raised"])
prop("C16", "Number of scales and band-limits of every scale",
     "The highest scale J is the least integer with lam^J at least L, and the harmonic, azimuthal and lower band-limits of every scale and of the "
     "scaling function are their documented closed forms (with the parity of N preserved), for any real scale factor and despite floating-point logarithms.",
     ["inputs", "configurations"], "all L, N, J_min, j, real lam > 1, both resolution modes",
     TESTS + "rounding of logarithms at exact powers needs particular (L, lam).",
     [SAMP], mech(("scale arithmetic", "s2wav/samples.py j_max, LN_j, L0_j, wav_j_bandlimit, scal_bandlimit, n_wav_scales")),
     PATH, SYMB, ["returned integers"])
prop("C17", "Optional arguments do not change results",
     "Supplying filters from any generator, recursion coefficients or documented default values explicitly gives the same result as omitting them, "
     "and passing arguments by keyword gives the same result as by position, for every transform operation that accepts them.",
     ["inputs", "configurations"], "all signals / coefficients, all parameter sets, all argument styles, all implementations",
     TESTS + "defaults (filters=None, precomps=None, J_max=None) are exercised in a few transforms only, and never compared.",
     TR + [CONS, FILT], mech(("default handling", "s2wav/transforms/*.py")), LIN, EXACT, ["returned arrays"])
prop("C18", "Scattering mode returns the modulus of the wavelet coefficients",
     "With scattering enabled, vectorised analysis returns exactly the modulus of the wavelet coefficients it returns without it, scale by "
     "scale and pixel by pixel, and the same scaling coefficients.",
     ["inputs", "configurations"], "all signals, all parameter sets",
     "No test enables scattering.",
     [T + "base.py", SAMP], mech(("scattering branch of analysis", "s2wav/transforms/base.py analysis")), LIN,
     EXACT + " The modulus is a fresh solver variable tied to its argument.", ["returned arrays"])
prop("C19", "Directional tiling: unit energy, band-limit, symmetry",
     "At every degree the directional tiling coefficients have unit total energy, vanish for orders at or above the azimuthal band-limit and for "
     "orders of the wrong parity, have the conjugate symmetry of a real even/odd wavelet, and are the square roots of the documented binomial weights, in NumPy and JAX and for any azimuthal band-limit.",
     ["inputs", "configurations"], "all L and N, NumPy and JAX versions",
     TESTS + "N is 2 or 3 only; integer or float overflow in binomials needs large N.",
     [FILT, SAMP], mech(("binomial weights", "s2wav/filters.py tiling_direction*, s2wav/samples.py binomial_coefficient*")),
     PATH, SYMB, ["returned coefficients"])
