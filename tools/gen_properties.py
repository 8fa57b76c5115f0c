#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code only because JSON lines are painful to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Recorded statistics belong to the recorded sample",
 "After a run of any of the three samplers, every saved row is self-consistent: the tracked predictions are the forward model of the chain state saved in the same row, the tracked L2 is the inverse-covariance-weighted squared misfit of those predictions, the tracked prior is the prior of that state, and the tracked log-posterior is -mu*prior - L2. This holds for real and complex parameters, for every operator and prior, and whichever subset of quantities is tracked; a quantity that is not tracked is not stored.",
 ["inputs", "configurations", "histories"],
 "all operators/priors satisfying their contract, all parameter vectors, all run lengths, burn-in/thinning values, all tracking subsets, first and repeated runs",
 "tests only call run() and look at nothing it records; stale predictions or statistics of another state would pass",
 ["pxmcmc/mcmc.py"],
 [("log-posterior decomposition", "PxMCMC.logpi"), ("tracking arrays", "PxMCMC._initialise_tracking_arrays/_tracking"), ("state/prediction pairing in the main loops", "MYULA.run, PxMALA.run, SKROCK.run")],
 [dict(name="chain/preds/logPi/L2s/priors", meaning="row k describes the k-th saved state", where="PxMCMC")], ["attributes of the sampler after run()", "logpi()"])

prop("C02", "Burn-in, thinning and run length",
 "A run saves exactly the requested number of samples: row k (from 0) is the chain state after nburn + k*max(ngap,1) + 1 transitions from the start point, every row is written, and the run ends after the last one without performing further transitions. A run always completes, and neither the tracking selection, nor the verbosity, nor anything left over from an earlier run of the same sampler changes which states are saved.",
 ["inputs", "configurations", "histories"],
 "all nsamples, nburn, ngap >= 0, all verbosity values, all tracking subsets, all samplers, first and later runs",
 "tests use one (nsamples, nburn, ngap) triple, verbosity 0, default tracking, and assert nothing about which states were saved",
 ["pxmcmc/mcmc.py"],
 [("saving schedule", "MYULA.run, PxMALA.run, SKROCK.run"), ("progress output", "PxMCMC._print_progress and its call sites")],
 [dict(name="i / j", meaning="transitions made / samples saved", where="*.run")], ["sampler attributes after run()", "number of transitions made"])

prop("C03", "MYULA transition law",
 "Each MYULA transition moves the state X to (1 - delta/lambda) X + (delta/lambda) prox(X) - delta * gradient(X) + sqrt(2 delta) w, where the prox and the data-fidelity gradient are those of the current state X and w is a fresh vector of independent standard normals (for complex parameters, independent standard-normal real and imaginary parts). The first transition starts from the given start point, or from a fresh random Laplace draw (independent real and imaginary draws when complex) when none is given.",
 ["inputs", "histories"],
 "all step sizes delta, lambda > 0, all states, gradients, proxes, all dimensions, real and complex, every transition of every run",
 "tests never look at the produced chain; a gradient of a stale state or a reused noise vector passes",
 ["pxmcmc/mcmc.py"],
 [("one step", "MYULA.chain_step"), ("threading of state through the loop", "MYULA.run"), ("start", "PxMCMC._initial_sample")], (), ["chain_step()", "chain rows"])

prop("C04", "PxMALA Metropolis-Hastings correction",
 "PxMALA proposes with the MYULA transition and accepts a proposal Y from X exactly when log(u) < logpi(Y) + log q(X|Y) - logpi(X) - log q(Y|X), with a fresh uniform u and q(.|.) the Gaussian density, up to a constant, of that same proposal transition at the step size in force; so the reported posterior is left invariant. On acceptance the proposal becomes the current state with its own predictions, gradient, prox and statistics; on rejection the current state is kept, and it is the current state, accepted or repeated, that is saved. The acceptance record has exactly one 0/1 entry per transition of the run, in order.",
 ["inputs", "histories"],
 "all states and proposals, all step sizes, all accept/reject sequences, real and complex parameters",
 "tests only check that the sampler terminates; the acceptance ratio, and what is kept after a rejection, are never examined",
 ["pxmcmc/mcmc.py"],
 [("transition density", "PxMALA.calc_logtransition"), ("acceptance test and state update", "PxMALA.run")],
 [dict(name="acceptance_trace", meaning="1 for accepted, 0 for rejected", where="PxMALA.run")], ["calc_logtransition()", "acceptance_trace", "chain rows"])

prop("C05", "PxMALA step-size adaptation stays in bounds",
 "With tuning on, after transition i (from 0) the step size is multiplied by 1 + (a_i - 1/2)/(i+1)^(3/4), a_i being 1 if that transition was accepted and 0 otherwise, and then clamped to [1e-8*lambda, lambda/2]; it therefore never leaves that interval once tuned. The step-size record then starts with the initial step and has one further entry per transition; with tuning off the step size never changes. The parameter object the sampler was built from is never modified.",
 ["inputs", "histories"],
 "all initial steps, all lambda > 0, all acceptance histories of any length",
 "a finite run of a hundred transitions from one start cannot show the bound for every acceptance history",
 ["pxmcmc/mcmc.py"],
 [("adaptation rule", "PxMALA._tune_delta"), ("bookkeeping", "PxMALA.run")],
 [dict(name="delta / deltas_trace", meaning="current step size / its history", where="PxMALA")], ["deltas_trace", "delta"])

prop("C06", "SK-ROCK step follows the stochastic Chebyshev recursion",
 "One SK-ROCK transition with s stages is the published recursion: K_1 = X + mu_1*delta*grad(X + nu_1*sqrt(2 delta) Z) + kappa_1*sqrt(2 delta) Z and K_j = mu_j*delta*grad(K_{j-1}) + nu_j*K_{j-1} + kappa_j*K_{j-2} up to K_s, with one fresh normal vector Z per transition and grad the gradient of the smoothed log-posterior, -(X - prox X)/lambda - gradient of the data fidelity. The coefficients are mu_1 = w1/w0, nu_1 = s*w1/2, kappa_1 = s*w1/w0, mu_j = 2 w1 T_{j-1}(w0)/T_j(w0), nu_j = 2 w0 T_{j-1}(w0)/T_j(w0), kappa_j = 1 - nu_j, with w0 = 1 + eta/s^2, eta = 0.05 and w1 = T_s(w0)/T_s'(w0).",
 ["inputs", "configurations"],
 "every number of stages s >= 1, every state, noise vector and step size, real and complex",
 "tests run one s and check nothing of the result",
 ["pxmcmc/mcmc.py", "pxmcmc/utils.py"],
 [("recursion", "SKROCK._K_recursion/chain_step"), ("coefficients", "SKROCK.__init__/_recursion_coefs"), ("smoothed gradient", "PxMCMC._gradlogpi")], (), ["chain_step()", "chain rows"])

prop("C07", "Forward model and data-fidelity gradient",
 "In the analysis setting predictions are measurement(X), in the synthesis setting measurement(inverse transform(X)); any other setting is refused. The data-fidelity gradient for predictions p is the exact gradient of half the weighted misfit: the measurement adjoint, then in synthesis the adjoint of the inverse transform, applied to inverse-covariance times (p - data). Both are pure: they depend on the arguments only and change neither them nor the operator.",
 ["inputs", "configurations", "histories"],
 "all data, weights, predictions and parameter vectors, all transform/measurement pairs, both settings, real and complex, any call history",
 "tests check only the length of the results",
 ["pxmcmc/forward.py"],
 [("dispatch on setting", "ForwardOperator.forward/calc_gradg"), ("composition", "_forward_*/_gradg_*"), ("ready-made operators", "SphericalWaveletTransformOperator, PathIntegralOperator")], (), ["forward()", "calc_gradg()"])

prop("C08", "Inverse covariance built from the data errors",
 "The inverse covariance of a forward operator is diagonal with entries 1/sigma^2 for a scalar error, diagonal with entries 1/sigma_i^2 for a vector of one error per datum, and the matrix inverse for a square covariance matrix. A non-square matrix or a vector of the wrong length is refused. The data and error arrays given by the caller are not modified.",
 ["inputs"],
 "all scalar, vector and matrix errors, all data lengths, real data (complex data: modulus of the weights, see known findings)",
 "tests use a single constant error and never look at the weights; matrix errors are not tested at all",
 ["pxmcmc/forward.py"],
 [("covariance inversion", "ForwardOperator._build_inverse_covariance_matrix")], (), ["invcov attribute"])

prop("C09", "Identity and path-integral measurements with exact adjoints",
 "The path-integral measurement maps an image to the product of the path matrix with it, and its adjoint maps observations to the product of the conjugate-transposed matrix with them, so <A x, y> = <x, A* y> for all x, y. The identity measurement returns the image's leading entries, zero-padded if there are more data than pixels, and its adjoint likewise. Inputs of the wrong length are refused, and the matrix is not modified.",
 ["inputs", "configurations"],
 "all path matrices (real or complex, any shape), all image and data vectors",
 "the dot-product test uses one random real matrix, for which a missing conjugate or a non-square mix-up is invisible; identity is not tested",
 ["pxmcmc/measurements.py"],
 [("matrix product and adjoint", "PathIntegral.__init__/forward/adjoint"), ("identity", "Identity.__init__/forward/adjoint")], (), ["forward()", "adjoint()"])

prop("C10", "Weak-lensing harmonic kernel",
 "For every bandlimit L >= 1 the harmonic weak-lensing operator multiplies the coefficient of degree l and order m by -sqrt((l+2)(l-1)/((l+1)l)) for l >= 2 and sets the coefficients with l < 2 to zero; its adjoint is the same real diagonal map. The Kaiser-Squires estimate undoes it: it returns every coefficient with l >= 2 and zero below. A bandlimit below one is refused, and the coefficients passed in are not modified.",
 ["inputs", "configurations"],
 "all bandlimits L, all degrees and orders, all coefficient vectors",
 "the dot-product test at L=10 holds for any real diagonal; no test compares the kernel with its formula or the estimator with the inverse",
 ["pxmcmc/measurements.py"],
 [("kernel table", "WeakLensingHarmonic.compute_harmonic_kernel"), ("mapping", "harmonic_mapping/harmonic_inverse_mapping/forward/adjoint/sks_estimate")], (), ["forward()", "adjoint()", "sks_estimate()", "harmonic_kernel"])

prop("C11", "Weak-lensing pixel operator: masking, weighting, adjoint",
 "The pixel-space operator takes the spin-0 spherical harmonic transform of the convergence map, applies the harmonic kernel, synthesises the spin-2 shear, keeps the unmasked pixels in row-major order and multiplies them by the per-pixel weights: one when no galaxy counts are given, sqrt(2 n / 0.37^2) for n galaxies. Its adjoint is the exact adjoint of that chain: weights, zero-filled scatter into the mask, adjoint synthesis, kernel, adjoint analysis. A mask of the wrong shape, or a masked field of the wrong shape, is refused with a ValueError.",
 ["inputs", "configurations"],
 "all bandlimits, all masks, all galaxy-count maps, all convergence and shear inputs",
 "dot tests use unit weights and one random mask at L=10, and test the modulus only",
 ["pxmcmc/measurements.py"],
 [("pixel operator", "WeakLensing._forward/_adjoint"), ("mask", "mask_forward/mask_adjoint"), ("weights", "ngal_to_inv_cov/cov_weight")], (), ["forward()", "adjoint()", "inv_cov"])

prop("C12", "Soft thresholding is the proximal map of the absolute value",
 "For every real or complex vector and every threshold T >= 0 (a scalar, or one per entry), soft thresholding returns, entrywise, zero where |x| <= T and x*(1 - T/|x|) elsewhere; that is the unique minimiser of T|u| + |u-x|^2/2. The input is not modified.",
 ["inputs"],
 "all real and complex vectors of any length, all thresholds including zero and vectors of thresholds, entries equal to zero or to the threshold",
 "tests sample three vectors with scalar thresholds",
 ["pxmcmc/utils.py"],
 [("thresholding", "soft"), ("complex sign", "_sign")], (), ["soft()"])

prop("C13", "L1 prior and its proximal map agree in both settings",
 "In the synthesis setting the prior of X is the sum of |X_i| and its proximal map is soft thresholding of X at T; in the analysis setting the prior is the l1 norm of the adjoint-transformed X and the proximal map is X + fwd(soft(adj X, T) - adj X). A setting other than these two is refused. Evaluating either leaves X and the prior object unchanged.",
 ["inputs", "configurations", "histories"],
 "all vectors real or complex, all thresholds, all transform handles, any call history",
 "the only prox test uses identity handles, where analysis and synthesis coincide, and the prior value is never tested",
 ["pxmcmc/prior.py"],
 [("prior", "L1.prior"), ("prox", "L1.proxf/_proxf_synthesis/_proxf_analysis")], (), ["prior()", "proxf()"])

prop("C14", "Weighted wavelet priors use one set of weights for prior and prox",
 "For the spherical-wavelet priors (axisymmetric wavelets, synthesis setting) the prior is sum w_i |X_i| and the proximal map thresholds entry i at T*w_i with the very same weights w, one per coefficient, ordered scaling function first and then increasing wavelet scale. The weights are the exact quadrature weights of each scale's sampling, or, for the power-weighted prior, 2 pi^2 sin(theta) l_peak^eta / (power * number of samples) per scale (no l_peak factor for the scaling function). The threshold given by the caller is not modified, and the analysis setting is refused.",
 ["inputs", "configurations"],
 "all bandlimits, scale parameters, minimum scales, numbers of scales, thresholds and coefficient vectors",
 "tests only check that the prox runs",
 ["pxmcmc/prior.py", "pxmcmc/utils.py"],
 [("pixel-area weights", "S2_Wavelets_L1.__init__/prior"), ("power weights", "S2_Wavelets_L1_Power_Weights.*")], (), ["map_weights", "T", "prior()", "proxf()"])

prop("C15", "Coefficient packing and unpacking are inverse",
 "Packing puts the scaling coefficients first, then the wavelet coefficients scale by scale (column-major for a table of scales); unpacking splits such a vector back. Unpacking what was packed returns the same scaling and wavelet coefficients, in the multiresolution layout and in the fixed-length layout (as a table or flat), and packing what was unpacked returns the same vector. Giving neither or both of the two layout sizes is refused.",
 ["inputs"],
 "all coefficient vectors, real or complex, all numbers of scales and scaling coefficients",
 "tests use constant blocks of one size; the fixed-length layout is tested by shape only",
 ["pxmcmc/utils.py"],
 [("packing", "flatten_mlm"), ("unpacking", "expand_mlm")], (), ["flatten_mlm()", "expand_mlm()"])

prop("C16", "Wavelet transform object is wired to matching transforms",
 "With the same bandlimit, scale parameter, minimum scale, azimuthal bandlimit and spin throughout, the wavelet transform object's forward, inverse, and their adjoints are the wavelet analysis, synthesis, analysis-adjoint and synthesis-adjoint on the packed coefficient vector; hence inverse(forward(f)) = f for bandlimited f, and each adjoint satisfies its dot-product identity. The reported coefficient counts are those of the packed vector. The identity transform returns its argument from all four maps, and no transform modifies its input.",
 ["inputs", "configurations"],
 "all bandlimits, scales and wavelet parameters, all images and coefficient vectors, real and complex inputs, pixel and harmonic variants",
 "tests sample one (L, B, J_min), axisymmetric, real-valued signal",
 ["pxmcmc/transforms.py", "pxmcmc/utils.py"],
 [("wiring", "SphericalWaveletTransform.__init__/forward/inverse/inverse_adjoint/forward_adjoint"), ("counts", "_get_ncoefs")], (), ["forward()", "inverse()", "forward_adjoint()", "inverse_adjoint()", "ncoefs"])

prop("C17", "Chebyshev polynomials",
 "For every order n >= 0 and every real point x the first- and second-kind Chebyshev evaluations satisfy T_0 = 1, T_1 = x, U_0 = 1, U_1 = 2x and the three-term recurrence P_{n+1} = 2x P_n - P_{n-1}, and the derivative evaluation returns n*U_{n-1}(x) (zero for n = 0). Negative orders are refused.",
 ["inputs"],
 "all orders, all points",
 "three sample points each",
 ["pxmcmc/utils.py"],
 [("recursions", "chebyshev1, chebyshev2, cheb1der")], (), ["chebyshev1()", "chebyshev2()", "cheb1der()"])

prop("C18", "Pixel areas tile the sphere",
 "For every bandlimit L >= 1 and radius r > 0, the pixel-area map has shape (L, 2L-1), its first row is the polar cap divided evenly among the pixels, every other pixel has the area r^2 (cos theta_{t-1} - cos theta_t) * dphi of the spherical rectangle between consecutive rings, all areas are non-negative, and together they sum to 4 pi r^2.",
 ["inputs", "configurations"],
 "all bandlimits and radii",
 "one L, r = 1, and only the sum is tested",
 ["pxmcmc/utils.py"],
 [("areas", "calc_pixel_areas, pixel_area, polar_cap_area")], (), ["calc_pixel_areas()"])

prop("C19", "Quadrature weights and sphere integral",
 "The map weights for bandlimit L are the McEwen-Wiaux quadrature weights: the discrete Fourier transform of the weights w(m) (2/(1-m^2) for even m, +-i*pi/2 for m = +-1, zero for other odd m) phase-shifted to the sample rings, with rings beyond pi folded back, times 2 pi/(2L-1)^2, constant along each ring; there are L(2L-1) of them. The integral of a sampled map is the sum of the weights times the samples, which is exact for maps of bandlimit L.",
 ["inputs", "configurations"],
 "all bandlimits L >= 1, all sampled maps",
 "one L and one random map",
 ["pxmcmc/utils.py"],
 [("weights", "mw_weights, weights_theta, mw_map_weights"), ("integral", "s2_integrate")], (), ["mw_map_weights()", "s2_integrate()"])

prop("C20", "Credible interval ranges",
 "For every chain of real samples and level alpha, the credible-interval range of a parameter is the difference between the 1 - alpha/2 and alpha/2 empirical quantiles of that parameter's own samples, hence never negative. For chains of multiresolution wavelet coefficients one map per scale is returned, scaling function first, of the sampling shape of that scale's bandlimit, and together the maps cover each coefficient once, in order. The chain is not modified.",
 ["inputs", "configurations"],
 "all chains, all alpha in (0,1), all bandlimits, scale parameters, minimum scales and numbers of scales",
 "the uncertainty module has no tests",
 ["pxmcmc/uncertainty.py"],
 [("interval", "credible_interval_range"), ("per scale", "wavelet_credible_interval_range")], (), ["return values"])

prop("C21", "Credible region membership",
 "For every vector of log-posterior values and level alpha, the region threshold is the alpha empirical quantile of those values and a sample is in the credible region exactly when its log-posterior is at least the threshold: the region keeps the highest-posterior samples, so the best sample is always inside and raising a log-posterior never expels a sample.",
 ["inputs"],
 "all log-posterior vectors, all levels alpha in (0,1), all candidate values",
 "the uncertainty module has no tests",
 ["pxmcmc/uncertainty.py"],
 [("threshold and membership", "credible_region_threshold, in_credible_region")], (), ["return values"])

prop("C22", "Saved file holds exactly the run",
 "Saving writes <outpath>/<filename>.hdf5 afresh with one dataset per recorded quantity the sampler has (log-posterior, predictions, chain, L2s, priors, acceptances, step sizes), each equal to the recorded values, and none for quantities it does not have; every run parameter is stored as an attribute under its own name, and so is every extra keyword. The sampler and the parameters are not modified.",
 ["inputs", "configurations", "histories"],
 "all tracked subsets, all samplers, all array contents, all parameter values and keywords, all paths",
 "saving has no tests",
 ["pxmcmc/saving.py"],
 [("writer", "save_mcmc")], (), ["file contents"])

prop("C23", "Start points are validated and inputs left untouched",
 "A start point that is not a one-dimensional numpy array is refused with TypeError and one of the wrong length with ValueError, before any sample is saved; an acceptable one is used as is, with its own predictions. Running a sampler modifies neither the start point, nor the parameter object, nor the operator's data and weights, and building a sampler copies every parameter under its own name.",
 ["inputs", "histories"],
 "all start points, all samplers, real and complex, all parameter settings",
 "tests check one wrong length with a bare Exception and never compare the inputs before and after",
 ["pxmcmc/mcmc.py"],
 [("validation", "PxMCMC._initial_sample"), ("parameter copy", "PxMCMC.__init__, PxMCMCParams.__init__")], (), ["run()", "constructor"])

prop("C24", "Hard thresholding keeps the largest entries",
 "Hard thresholding with fraction T in [0,1] of a vector of n entries keeps, unchanged, exactly the entries whose magnitude is at least the floor(T*n)-th largest magnitude and sets every other entry to zero; if floor(T*n) is zero it keeps none.",
 ["inputs"],
 "all real and complex vectors, all fractions in [0,1], with and without ties",
 "one vector and one fraction",
 ["pxmcmc/utils.py"],
 [("thresholding", "hard")], (), ["hard()"])

prop("C25", "Sky mask is the union of the two excluded bands",
 "For every bandlimit and band width, the survey mask has the sampling shape, contains only zeros and ones, and is zero exactly at the pixels whose latitude or whose galactic latitude is smaller in magnitude than the given width in degrees.",
 ["inputs", "configurations"],
 "all bandlimits and widths, every pixel",
 "mask building has no tests",
 ["pxmcmc/utils.py"],
 [("mask", "build_mask")], (), ["build_mask()"])

prop("C26", "Multiresolution bandlimits",
 "For every bandlimit, scale parameter and minimum scale for which each tiling function has a non-zero axisymmetric coefficient below the bandlimit, the multiresolution bandlimits list first the scaling function and then each wavelet scale in order, and each entry is one more than the highest degree at which that function's axisymmetric harmonic coefficient is non-zero; so the per-scale samplings match the lengths the multiresolution transform produces.",
 ["inputs", "configurations"],
 "all tilings (L, B, J_min), any number of scales",
 "only exercised indirectly at one (L, B, J_min)",
 ["pxmcmc/utils.py"],
 [("bandlimits", "_multires_bandlimits")], (), ["_multires_bandlimits()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
