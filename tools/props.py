# ---- executed by gen.py ----
prop("C01", "Iteration driver: loss history, callbacks and resumability",
     "For every iterative separation method, n iterations leave exactly n+1 recorded losses (n when the call is not the initial one), every callback runs once before the first iteration and once after each iteration in the given order, and the loss recorded for a step is the loss of the state visible to the callback at that step. Splitting a run of a demixing-filter-based method (ICA, FDICA, IVA, ILRMA, proximal and masking-based) into two calls, the second with initial_call=False, ends (without the post-processing options scale restoration and, for FDICA, permutation alignment in the first call) in the same output, filter and parameters as one run of the same total length. The returned array is the method's output attribute and equals the current demixing filter applied to the input.",
     [HI, CF, IN], "all observed mixtures (generic entries), all method classes and update algorithms, iteration splits 1+1 and 2",
     SAMPLE + "no test resumes a run or compares the recorded losses with the visible state for arbitrary data.",
     [B + "base.py", B + "iva.py", B + "ilrma.py", B + "fdica.py", B + "ica.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py", B + "mnmf.py", B + "cacgmm.py"],
     [("iteration loop", B + "base.py: IterativeMethodBase.__call__"), ("state initialisation on every call", "_reset of each class")])

prop("C02", "IP1 makes each demixing row optimal for its source's covariance",
     "One sweep of iterative projection with single rows (IP1) produces, for each source in turn, a demixing row w normalised to unit weighted power w^H U w = 1 under that source's weighted covariance, and U-orthogonal to all other current rows (so W U w is a unit vector). This holds for every invertible demixing matrix and positive definite covariances, for real and complex data, any number of bins, and the overwrite flag decides only whether the argument array is modified.",
     [IN, CF], "every invertible filter and Hermitian positive definite covariance at sizes 2 (all entries) and 3, 4 (slices)",
     SAMPLE + "the stationarity conditions must hold for every matrix.",
     [U], [("IP1", U + ": update_by_ip1")])

prop("C03", "IP2 solves the pairwise generalized eigenvalue subproblem",
     "Pairwise iterative projection (IP2) replaces the two rows of each selected pair by the joint minimiser of the auxiliary function: both new rows have unit weighted power under their own covariance, are orthogonal to each other under both covariances of the pair and to all other rows under their own covariance, and the auxiliary function value never increases. Rows outside the pair are untouched, every pair given by the selector is processed, and the result does not depend on the overwrite flag.",
     [IN, CF], "every invertible filter and positive definite covariances: 2 sources fully symbolic, 3 sources on slices; any pair sequence",
     SAMPLE + "joint optimality of the pair must hold for every pair of covariance matrices.",
     [U], [("IP2", U + ": update_by_ip2, update_by_ip2_one_pair"), ("generalized eigenproblem", "ssspy/linalg/eigh.py")])

prop("C04", "ISS1 is the rank-one update that minimises the auxiliary function",
     "One step of iterative source steering (ISS1) subtracts from every separated signal the multiple of the selected signal that makes them uncorrelated under the weights of the target source, and rescales the selected signal to unit weighted power. The steps run over all sources in order, each one seeing the previous ones' results, and the auxiliary function never increases. Running ISS1 with fixed weights on W X equals applying the corresponding rank-one updates to the demixing filter itself.",
     [IN], "every separated spectrogram and positive weight; 2-3 sources, 1-3 frames",
     SAMPLE + "the orthogonality after each steering step must hold for every spectrogram.",
     [U], [("ISS1", U + ": update_by_iss1")])

prop("C05", "ISS2 steers source pairs to joint optimality",
     "Pairwise iterative source steering (ISS2) updates the two signals of a pair so that each has unit weighted power and the pair is uncorrelated under both of its own weights, and every other signal becomes uncorrelated with both under its own weights. The result of a step is an invertible linear combination of the separated signals, the auxiliary function never increases and all pairs from the selector are processed in order.",
     [IN, CF], "every separated spectrogram and positive weights; 2-3 sources, 2-3 frames",
     SAMPLE + "joint optimality must hold for every spectrogram.",
     [U], [("ISS2", U + ": update_by_iss2")])

prop("C06", "IPA and its quadratic subproblem solver return exact global minimisers",
     "The log-quadratically penalised quadratic minimisation behind IPA returns a stationary point y of the penalised objective with multiplier at least the largest eigenvalue, i.e. the global minimiser, for every positive definite quadratic form, linear term and offset, including linear terms without component in the top eigenspace: in closed form when there is a single coefficient (two sources), otherwise through Newton steps that are exact, approach the root monotonically from below and never leave the region above the top eigenvalue. The result does not depend on the eigenvalue normalisation option. The IPA demixing update then performs exact coordinate steps: the updated row has unit weighted power and is optimal given the steering coefficients of the remaining rows, which solve the quadratic subproblem of the auxiliary function, so that function never increases.",
     [IN, CF], "every Hermitian form, vector and offset at sizes 1 and 2 (n = 2, 3 sources)",
     SAMPLE + "the multiplier search has data-dependent branches (singular linear terms, normalisation) that samples do not reach.",
     [U, "ssspy/linalg/lqpqm.py"], [("LQPQM", "ssspy/linalg/lqpqm.py: lqpqm2, solve_equation"), ("IPA", U + ": update_by_ipa")])

prop("C07", "VCD block update minimises the covariance-fitting auxiliary function",
     "The vectorwise coordinate descent update returns, for each source in turn, the exact minimiser of its auxiliary function over that row vector, for every positive definite weight matrix and linear term, including vanishing linear terms. Rows not being updated are untouched and the auxiliary function never increases.",
     [IN], "every invertible filter, Hermitian positive definite weights and linear terms; 2 sources fully symbolic",
     SAMPLE + "the two-branch closed form must be stationary for every input.",
     [U], [("VCD", U + ": update_by_block_decomposition_vcd")])

prop("C08", "Projection back restores the scale observed at the reference microphone",
     "Projection back multiplies each separated signal (or each demixing row) by exactly the coefficient with which that source appears in the reference microphone's observation: for an invertible filter the scaled sources sum to the reference observation, and applying it to the signal and to the filter gives the same result. It is invariant to any prior per-bin rescaling of the sources and therefore idempotent, and with no reference chosen it returns this for every microphone stacked along a new leading axis.",
     [IN, CF], "every invertible filter and mixture with full-rank frames; 2-3 channels, all reference ids and None, 2-D and batched filters",
     SAMPLE + "scale invariance must hold for every mixture.",
     ["ssspy/algorithm/projection_back.py"], [("projection back", "ssspy/algorithm/projection_back.py: projection_back")])

prop("C09", "Minimal distortion principle gives the least-squares scale",
     "The minimal distortion principle rescales each separated signal in each bin by the complex factor that minimises the squared error to the reference microphone's observation, so the residual is orthogonal to the signal. It is invariant to any prior per-bin complex rescaling, idempotent, and with no reference chosen gives this solution for every microphone; the separators' scale restoration applies the same scale to the demixing filter and to the output.",
     [IN, CF], "every nonzero separated signal and reference; 2-3 channels, 2-3 frames, all reference ids and None",
     SAMPLE + "least-squares optimality must hold for every signal.",
     ["ssspy/algorithm/minimal_distortion_principle.py", B + "iva.py", B + "fdica.py", B + "ilrma.py"],
     [("MDP", "ssspy/algorithm/minimal_distortion_principle.py"), ("application to separators", "apply_minimal_distortion_principle / restore_scale of the separators")])

prop("C10", "Hermitian linear algebra helpers satisfy their defining equations",
     "The generalized Hermitian eigensolvers return ascending real eigenvalues and eigenvectors satisfying the requested problem type (A z = l B z, A B z = l z or B A z = l z) with the documented normalisation; Hermitian square roots and inverse square roots square back to the matrix or its inverse; and the geometric mean of two positive definite matrices solves its Riccati equation. All hold for every Hermitian (positive definite where needed) real or complex matrix, batched.",
     [IN, CF], "every Hermitian A and positive definite B, 2x2 with all entries symbolic and 3x3 slices, all problem types",
     SAMPLE + "equations must hold for every matrix.",
     ["ssspy/linalg/eigh.py", "ssspy/linalg/sqrtm.py", "ssspy/linalg/mean.py"],
     [("generalized eigh", "ssspy/linalg/eigh.py"), ("square roots", "ssspy/linalg/sqrtm.py"), ("geometric mean", "ssspy/linalg/mean.py: gmeanmh")])

prop("C11", "Scalar and small linear algebra: inverse, solve, quadratic, cubic roots",
     "The 2x2 inverse, batched solve and quadratic form helpers satisfy their defining equations for every real or complex input of any batch shape. The cube root cubes back to its argument, and the cubic solver returns three values that are exactly the roots (with multiplicity) of the given monic or general cubic, including cubics with a vanishing linear or constant term after depression.",
     [IN], "every coefficient and matrix entry, degenerate coefficient cases included",
     SAMPLE + "degenerate cubic branches are not sampled.",
     ["ssspy/linalg/inv.py", "ssspy/linalg/_solve.py", "ssspy/linalg/quadratic.py", "ssspy/linalg/cubic.py", "ssspy/linalg/polynomial.py"],
     [("inverse", "ssspy/linalg/inv.py: inv2"), ("cubic", "ssspy/linalg/polynomial.py: solve_cubic"), ("quadratic form", "ssspy/linalg/quadratic.py")])

prop("C12", "Proximal operators solve their proximal problems",
     "Each proximal operator (l1, l21, negative log, negative log-determinant) returns the unique minimiser of its penalty times the step size plus half the squared distance to the input, for every input and positive step size, at threshold boundaries and at zero as well. The log-determinant operator keeps the singular vectors and never returns a singular matrix, and the l21 operator acts on whole groups along the given axis.",
     [IN], "every real/complex input with 1-3 elements per group or 2x2 matrices, every positive step size",
     SAMPLE + "optimality on both sides of each threshold must hold for all inputs.",
     ["ssspy/linalg/prox.py"], [("proximal operators", "ssspy/linalg/prox.py")])

prop("C13", "Numerical safeguards: PSD projection, flooring, softmax, log-sum-exp",
     "The PSD safeguard returns the Hermitian part of its argument with the same eigenvectors and eigenvalues floored (a Hermitian matrix already above the floor is returned unchanged), for every square matrix. Flooring functions never go below their floor and never change values already above it (max) or shift by exactly the floor (add). Softmax is a probability vector and log-sum-exp the logarithm of the sum of exponentials, for every input, axis and shift.",
     [IN, CF], "all matrices 2x2, all real vectors with up to 3 elements, every axis option",
     SAMPLE + "bounds must hold for every input, including indefinite ones.",
     ["ssspy/special/psd.py", "ssspy/special/flooring.py", "ssspy/special/softmax.py", "ssspy/special/logsumexp.py", "ssspy/utils/flooring.py"],
     [("PSD projection", "ssspy/special/psd.py: to_psd"), ("flooring", "ssspy/special/flooring.py"), ("softmax", "ssspy/special/softmax.py"), ("log-sum-exp", "ssspy/special/logsumexp.py")])

prop("C14", "Permutation alignment permutes sources within bins, consistently",
     "Permutation solvers return, in every bin, a permutation of the sources of that bin and apply the identical permutation to every companion array, with no value changed. Bins whose magnitude spectrograms agree up to source order are brought into one common order, the chosen order maximises the documented correlation criterion, and the overwrite flag only decides whether the caller's arrays receive the result.",
     [IN, CF], "every spectrogram (2-3 sources, 2-4 bins, 1-2 frames), every number of companion arrays, both overwrite settings",
     SAMPLE + "the outcome depends on data-dependent comparisons; every ordering of them must keep the arrays consistent.",
     ["ssspy/algorithm/permutation_alignment.py", B + "_solve_permutation.py", B + "fdica.py", B + "cacgmm.py"],
     [("correlation based", "ssspy/algorithm/permutation_alignment.py: correlation_based_permutation_solver"), ("score based", "ssspy/algorithm/permutation_alignment.py: score_based_permutation_solver")])

prop("C15", "Whitening and PCA decorrelate and preserve power",
     "Whitening returns a linear transform of each bin's channels whose sample covariance is exactly the identity, for real and complex data of every supported dimensionality. PCA is an orthonormal change of basis: it preserves total power per frame and yields uncorrelated components ordered by variance as requested.",
     [IN, CF], "every data block with full-rank covariance; 2 channels, 2-3 frames, all supported layouts and orderings",
     SAMPLE + "identity covariance must hold for every data block.",
     ["ssspy/transform/whiten.py", "ssspy/transform/pca.py"], [("whitening", "ssspy/transform/whiten.py"), ("PCA", "ssspy/transform/pca.py")])

prop("C16", "WAV files written are read back unchanged, slices included",
     "Writing an integer waveform and reading it back yields the same samples (scaled to [-1, 1)), sample rate, channel layout and order; floating-point waveforms are quantised with less than one step of error and saturate instead of wrapping around at full scale. Reading with an offset and a frame count returns exactly that slice of the whole file, and requests outside the file or malformed headers raise instead of returning wrong samples.",
     [IN, CF], "every sample value, offset, count and sample rate; up to a few frames, mono/stereo, 8/16 bit, all layout flags",
     SAMPLE + "offset/count/layout combinations and extreme sample values are not sampled.",
     ["ssspy/io/__init__.py"], [("writer", "ssspy/io/__init__.py: wavwrite"), ("reader", "ssspy/io/__init__.py: wavread")])

prop("C17", "Pair selectors visit valid pairs and cover every source",
     "Pair selectors yield only pairs of two distinct valid source indices, in increasing order when sorting is requested; the sequential selector covers every source and wraps around cyclically, honouring stop and step, and the combination selector yields each unordered pair exactly once. Pairwise algorithms updating through any selector update exactly the sources in the yielded pairs.",
     [IN, CF], "every number of sources, stop and step up to the unrolling bound",
     SAMPLE + "the index arithmetic must hold for all sizes, steps and stops.",
     ["ssspy/utils/select_pair.py", B + "_select_pair.py"], [("selectors", "ssspy/utils/select_pair.py")])

prop("C18", "Separators never modify their inputs and keep output and filter consistent",
     "Calling a separator never modifies the observed mixture, initial demixing filters, or initial parameters supplied by the caller. After a call the output equals the demixing filter applied to the (for the fixed-point methods: whitened) input where a filter exists, including after scale restoration and permutation alignment, and evaluating the loss does not change the state.",
     [IN, CF, HI], "every observed mixture and initial filter for every separator class; 2 sources, 2 bins, 2 frames, 1-2 iterations",
     SAMPLE + "aliasing between the caller's arrays and the state shows only on particular call sequences.",
     [B + "iva.py", B + "ilrma.py", B + "fdica.py", B + "ica.py", B + "proxbss.py", B + "mnmf.py", B + "cacgmm.py", B + "ipsdta.py"],
     [("state initialisation", "_reset of each class"), ("output refresh", "separate / apply_projection_back / apply_minimal_distortion_principle")])

prop("C19", "ILRMA source-model updates are majorisation-minimisation steps",
     "Every ILRMA source model (Gaussian, Student's t, generalised Gaussian; with or without partitioning) updates bases, activations and latent weights by the multiplicative step that minimises (ME: equalises) its auxiliary function, so that with the separated signals held fixed an update of bases or activations never increases the negative log-likelihood and leaves exactly its stationary points unchanged; latent weights take the same step and are renormalised to sum to one over the sources. Parameters stay nonnegative and the recorded loss is the negative log-likelihood of the current parameters.",
     [IN, CF], "every separated spectrogram and positive parameters: 2 sources, 1-2 bins, frames and bases; domain 1 and 2, all algorithms",
     SAMPLE + "monotonicity must hold for every parameter value.",
     [B + "ilrma.py"], [("source model updates", B + "ilrma.py: update_basis/update_activation/update_latent of GaussILRMA, TILRMA, GGDILRMA"), ("loss", B + "ilrma.py: compute_loss")])

prop("C20", "Normalisation leaves the likelihood unchanged",
     "Normalising an ILRMA state (by power or projection back, with or without partitioning) rescales demixing filter, separated output and source model consistently: the negative log-likelihood is unchanged and the output still equals the filter applied to the input. Latent weights of partitioned models sum to one over the sources for each basis after every update.",
     [IN, CF], "every demixing filter, mixture and positive parameters: 2 sources, 1-2 bins/frames/bases",
     SAMPLE + "invariance of the loss must hold for every state.",
     [B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py"], [("normalisation", B + "ilrma.py: normalize, normalize_by_power, normalize_by_projection_back")])

prop("C21", "cACGMM performs exact EM steps",
     "The E-step computes the exact posterior of the mixture: nonnegative responsibilities that sum to one over sources for each time-frequency point. The M-step sets mixing weights and covariances to the weighted maximum-likelihood updates, covariances stay Hermitian positive definite, and the negative log-likelihood recorded is that of the current parameters and is invariant to scaling of each observation vector.",
     [IN], "every observation and parameter value: 2 sources, 2 channels, 1-2 bins and frames",
     SAMPLE + "posterior and likelihood identities must hold for every parameter value.",
     [B + "cacgmm.py"], [("EM", B + "cacgmm.py: update_posterior, update_parameters, compute_loss")])

prop("C22", "Multichannel NMF: MM updates and multichannel Wiener filtering",
     "MNMF and FastMNMF update bases, activations, spatial covariances and diagonalisers by majorisation-minimisation steps that satisfy the optimality equation of their auxiliary function, keep nonnegative parameters nonnegative and spatial covariances Hermitian, so that an update of bases, activations, spatial covariances or diagonalisers never increases the negative log-likelihood (latent weights take the same step and are renormalised to sum to one over the sources). The separated output is the multichannel Wiener estimate at the reference channel, whose estimates over all sources sum to the observation, and normalisation leaves the model covariance of every source unchanged (without partitioning).",
     [IN, CF], "every observation and positive parameters: 2 channels/sources, 1-2 bins/frames/bases",
     SAMPLE + "monotonicity and conservation must hold for every parameter value.",
     [B + "mnmf.py"], [("updates", B + "mnmf.py: update_basis, update_activation, update_spatial, update_diagonalizer"), ("separation", B + "mnmf.py: separate")])

prop("C23", "IPSDTA updates solve their matrix equations",
     "The IPSDTA source-model updates keep basis matrices Hermitian positive semidefinite and activations nonnegative and satisfy the optimality equation of their auxiliary function, so the negative log-likelihood never increases with fixed demixing filters. Normalisation keeps the model unchanged and the demixing update satisfies the optimality conditions of its row subproblem.",
     [IN, CF], "every separated spectrogram and positive definite parameters: 2 bins per block, 1-2 blocks, bases and frames",
     SAMPLE + "the matrix equations must hold for every parameter value.",
     [B + "ipsdta.py"], [("source model", B + "ipsdta.py: update_basis, update_activation"), ("spatial model", B + "ipsdta.py: update_spatial_model")])

prop("C24", "Proximal and masking-based separators perform the published splitting steps",
     "Each primal-dual or ADMM iteration computes exactly its splitting steps: the demixing filter minimises its quadratic subproblem (or takes the relaxed primal step), auxiliary variables are the proximal maps of their penalties and dual variables accumulate the residual, so that fixed points satisfy the optimality conditions of the penalised log-determinant problem. Masking-based variants use the mask in place of the proximal map, harmonic-vector masks lie in [0, 1] and, for a unit exponent, sum to one over sources, and any number of penalties is treated as their sum.",
     [IN, CF], "every mixture, filter, dual variable and parameter: 2 sources, 1-2 bins, 2 frames, 1-2 penalties",
     SAMPLE + "optimality of each step must hold for every state.",
     [B + "pdsbss.py", B + "admmbss.py", B + "hva.py", B + "proxbss.py"],
     [("PDS", B + "pdsbss.py: update_once"), ("ADMM", B + "admmbss.py: update_once"), ("masks", B + "hva.py")])

prop("C25", "Fixed-point ICA/IVA performs its fixed-point steps on whitened data and stays orthonormal",
     "FastICA, FastIVA and FasterIVA work on whitened mixtures: each update is the fixed-point step for the given contrast derivatives (as documented for each class) followed by orthonormalisation (symmetric for IVA, deflation for FastICA), so the filter stays unitary per bin and the separated signals stay mutually uncorrelated with unit power. Scale restoration refers to the original, unwhitened observation.",
     [IN, CF], "every mixture with full-rank covariance and every contrast: 2 sources, 1-2 bins, 2 frames",
     SAMPLE + "orthonormality and the fixed-point formula must hold for every mixture.",
     [B + "ica.py", B + "iva.py"], [("FastICA", B + "ica.py: FastICABase.update_once"), ("FastIVA", B + "iva.py: FastIVA, FasterIVA")])

prop("C26", "Gradient methods follow the gradient of the loss they report",
     "Gradient and natural-gradient ICA, FDICA and IVA move the demixing filter by the step size times the (natural) gradient of the reported loss, holonomic or non-holonomic as configured, for any score function that is the derivative of the contrast. The reported loss is the sum of the mean contrast and the negative log-determinant, and the distribution-specific classes (Laplace, Gauss) use mutually consistent contrast, score and weight functions.",
     [IN, CF], "every mixture and filter, arbitrary contrast functions: 2 sources, 1-2 bins, 2 frames",
     SAMPLE + "the relation between step and loss must hold for every state.",
     [B + "ica.py", B + "fdica.py", B + "iva.py"], [("gradient steps", "update_once of GradICA/NaturalGradICA, GradFDICA/NaturalGradFDICA, GradIVA/NaturalGradIVA"), ("losses", "compute_loss")])

prop("C27", "The sample-data helper returns the recordings asked for, whatever was asked for before",
     "download_sample_speech_data returns, for the requested tag, number of sources, reverberation time, mixing kind and maximum duration, exactly the images of those recordings: source k of the tag, truncated to the duration, convolved with the impulse responses of its direction and of the selected microphones at that reverberation time (or mixed by the fixed-seed instantaneous matrix), stacked as (n_channels, n_sources, n_samples) at 16 kHz. This holds for every sequence of requests that share the dataset folders (cached files of another tag, number of sources or reverberation time are never returned), requests do not change what later ones return, an archive already in its folder is not downloaded again, and undocumented tags and reverberation times are refused.",
     [HI, IN, CF], "all recordings and impulse responses of 4-5 samples / 2-3 taps, 2-4 sources, histories of 1-3 requests",
     "Needs network and file system, so the tests that use it are skipped offline; each asks for one configuration in an own folder and uses whatever comes back.",
     ["ssspy/utils/dataset/__init__.py", "ssspy/utils/dataset/sisec2010.py", "ssspy/utils/dataset/mird.py"],
     [("images", "ssspy/utils/dataset/__init__.py: download_sample_speech_data"), ("cache", "ssspy/utils/dataset/sisec2010.py: download"), ("cache and resampling", "ssspy/utils/dataset/mird.py: download")])

prop("C28", "Auxiliary-function separators update with the majoriser of their own loss",
     "AuxIVA, AuxFDICA and the ILRMA family apply their spatial update (IP1, IP2, ISS1, ISS2, IPA) with weights that make the weighted quadratic form the tangent majoriser of the loss they report: the derivative of the contrast over twice the magnitude (AuxIVA, AuxFDICA), the inverse variance raised to 2/p (Gaussian), the Student's t and generalised Gaussian weights of the current separated signals. The weights come from the state at the start of the iteration (for pairwise IVA/FDICA updates: of each pair's turn, in selector order) and from the just-updated source model, with or without partitioning, and the configured flooring and options reach the update.",
     [IN, CF, HI], "every mixture, filter and source-model parameter: 2-3 sources, 1-2 bins, 2-4 frames, 1-2 iterations, all spatial algorithms",
     SAMPLE + "a wrong exponent or stale weight still separates the sampled mixture.",
     [B + "iva.py", B + "fdica.py", B + "ilrma.py"],
     [("weights", B + "iva.py: AuxIVA.update_once_*"), ("weights", B + "fdica.py: AuxFDICA.update_once_*"), ("weights", B + "ilrma.py: update_spatial_model_*")])

prop("C29", "An update floors with the function asked for and with no other",
     "Every iterative separator and every one of its update methods that takes flooring_fn divides by, and clips with, the function it was given: a function given to the call is the only one used, in that call and in everything it calls, whatever function the object was built with; \"self\" (the default) stands for the function given at construction; None stands for the identity, at construction and in the call, and is accepted everywhere it is documented. The outcome is that of an object built with the requested function.",
     [IN, CF], "every mixture, filter and parameter value (1-2 entries symbolic): 2 sources, 2 bins, 2-3 frames, every update method of 45 configurations",
     SAMPLE + "the tests never pass a flooring function to a method, and with the default one flooring hardly ever acts.",
     ["ssspy/utils/flooring.py", B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "mnmf.py", B + "ipsdta.py", B + "cacgmm.py"],
     [("choice", "ssspy/utils/flooring.py: choose_flooring_fn"), ("forwarding", "every update method with a flooring_fn parameter")])

prop("C30", "Frames, bins and microphones carry no order, and a phase common to the channels passes through",
     "One iteration of every separator, from any state, is equivariant under what its model does not know about: relabelling the frames of the mixture and of the state relabels the frames of the result and leaves filters and loss alone; relabelling the frequency bins (all but IPSDTA and harmonic vector analysis, which couple particular bins) relabels the bins of the result; relabelling the microphones relabels the columns of the filters and nothing else (methods without eigendecomposition of the observations); turning the phase of a bin in every channel turns the separated signals of that bin and leaves filters, source models and loss alone; where all sources are updated at once (gradient methods, CACGMM, MNMF), exchanging the sources of the state exchanges those of the result. Filters obtained from eigenvectors are compared up to their phase.",
     [IN, CF], "every mixture and state (1-2 entries of each array symbolic): 2 channels, 2-3 bins, 5 frames; generators of the frame and bin permutations; quarter turns of phase",
     SAMPLE + "the tests run one mixture in one order.",
     [B + "ica.py", B + "fdica.py", B + "iva.py", B + "ilrma.py", B + "mnmf.py", B + "cacgmm.py", B + "ipsdta.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py"],
     [("one iteration", B + "*.py: update_once"), ("loss", B + "*.py: compute_loss")])

prop("C31", "Options mean what they say, and meaningless ones are refused",
     "Documented synonyms select the same computation, for every input: spatial algorithms \"IP\" and \"IP1\", \"ISS\" and \"ISS1\" (with every normalisation, partitioning and scale restoration), the spellings of the scale restoration techniques and True for projection back, True for power normalisation and for the default permutation alignment, alpha for relaxation, aux1 and aux2 for auxiliary1 and auxiliary2, a single callback or penalty for a list of one. Leaving an option out equals giving its documented default (pair selector, IPA parameters, reference channel, number of sources, step sizes, domain, partitioning, loss recording). Domain parameters are accepted exactly in (0, 2], shape parameters of the generalised Gaussian exactly in (0, 2), the majorisation-equalisation algorithm exactly for domain 2 (its updates check this as well). Deprecated module names compute what their replacements do. Unknown algorithm, normalisation, permutation and scale names, foreign keywords, unsupported combinations, missing functions and steps that are switched off raise an error instead of computing something else.",
     [IN, CF, "parameter values"], "every mixture and filter (1-2 entries symbolic), every real domain and shape parameter: 2-3 channels, 1-2 bins, 2-3 frames, one iteration",
     SAMPLE + "the tests pass one spelling of each option and compare no two of them.",
     [B + "base.py", B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "mnmf.py", B + "cacgmm.py", B + "ipsdta.py", B + "proxbss.py", B + "pdsbss.py", B + "admmbss.py"],
     [("constructors", B + "*.py: __init__"), ("dispatch", B + "*.py: update_once, update_spatial_model, normalize, solve_permutation, restore_scale")])

prop("C32", "A run starts from what the caller supplies, and otherwise from the documented initial state",
     "Parameters given to a separator call (demixing filters, dual and auxiliary variables, bases, activations, latent and spatial parameters, diagonalizers) are the ones the run starts from, each alone or all together, and nothing is drawn when all are given. What is left out starts from its documented value: identity filters and diagonalizers, zero dual and auxiliary variables, latent and mixing weights that sum to one over the sources, spatial covariances I/n, diagonal unit-trace covariances, bases and activations as drawn from the generator passed as rng (source-model basis matrices diagonal, positive definite, of unit trace when normalised, in the documented block layout); leaving such a fixed value out equals supplying it. The result is a function of the mixture and of the draws of that generator: the same draws give the same run, no other source of randomness is used, and without rng a generator of numpy's default kind takes its place. The separated signals of the initial state are those of the initial filter, and filter-based separators called on other data continue from their filter as a fresh one given that filter would, with losses appended.",
     [HI, IN, CF], "every mixture, draw and supplied parameter (1-2 entries of each array symbolic): 2-3 channels, 2 bins (source-model matrices 3-5 in 1-3 blocks), 2-5 frames, 0-1 iterations, 56 configurations",
     SAMPLE + "the tests supply hardly any initial parameter and never compare a run with its initial state.",
     [B + "base.py", B + "ica.py", B + "fdica.py", B + "iva.py", B + "ilrma.py", B + "mnmf.py", B + "cacgmm.py", B + "ipsdta.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py"],
     [("initial state", B + "*.py: _reset, _init_nmf, _init_instant_covariance, _init_diagonalizer, _init_psdtf, _init_parameters"), ("calls", B + "*.py: __call__")])
