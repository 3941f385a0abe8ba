"""Generates /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
FG="drdmannturb/fluctuation_generation/"; SF="drdmannturb/spectra_fitting/"
LF=FG+"low_frequency/fluctuation_field_generator.py"
GEN=FG+"fluctuation_field_generator.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Von Karman and Mann kernels are square roots of their spectral tensors",
  "For every wavevector k, length scale, energy scale and time scale, the kernel matrix G(k) that shapes the generated field satisfies G(k)G(k)* = Phi(k): for the von Karman model Phi_ij = E(k)/(4 pi k^2) (delta_ij - k_i k_j/k^2) with the documented von Karman energy spectrum, and for the Mann model (k1 != 0) the rapid-distortion tensor obtained by distorting the isotropic von Karman tensor at the initial wavevector k0 = (k1,k2,k3+beta k1) with beta the documented Mann eddy lifetime times Gamma. Every entry is finite for every wavevector, including those with k1 = 0 or k1 = k2 = 0, G is zero at k = 0, and on the plane k1 = 0 the Mann kernel reduces to the isotropic von Karman kernel.",
  ["inputs","configurations"],"all real wavevectors (every grid the generator can build), all L, E0, Gamma > 0, all grid sizes",
  "No test evaluates any entry of a kernel; the only generator test checks construction. The identity has to hold at every wavevector including the singular planes k1=0 and s=0.",
  [FG+"covariance_kernels.py"],[("VonKarmanCovariance.precompute_Spectrum",FG+"covariance_kernels.py"),("MannCovariance.precompute_Spectrum",FG+"covariance_kernels.py")],
  ["return value of precompute_Spectrum(frequency axes)"])

p("C02","Every kernel is solenoidal: k . G(k) = 0",
  "For each of the three turbulence models (von Karman, Mann, DRD), every wavevector k and every column j, sum_i k_i G_ij(k) = 0, so that every generated three-dimensional fluctuation field is divergence-free in the spectral sense. This holds for every parameter set, for every eddy lifetime function the DRD network can represent, and on the singular planes k1 = 0 and k1 = k2 = 0.",
  ["inputs","configurations"],"all wavevectors, all model parameters, all network weights (the eddy lifetime is an arbitrary function)",
  "No test looks at incompressibility of the 3D field; sampling cannot cover all wavevectors and all learned lifetimes.",
  [FG+"covariance_kernels.py",FG+"nn_covariance.py"],[("precompute_Spectrum of the three kernels",FG+"covariance_kernels.py, "+FG+"nn_covariance.py"),("zeta1/zeta2/zeta3 distortion factors","same")],
  ["return value of precompute_Spectrum"])

p("C03","A saved calibrated model is regenerated faithfully by the DRD generator",
  "Saving a calibrated model and handing the file to the DRD field generator reproduces the same model: the file carries the network, problem, loss and physical settings and the complete parameter vector, the generator restores all of them, its length scale is the calibrated length scale times the reference height, its time scale is the calibrated one, and its kernel is the rapid-distortion kernel (same structure as the Mann kernel) whose eddy lifetime at wavevector k is the calibrated time scale times the calibrated network's lifetime at k, with k made dimensionless by the generator's own length scale - exactly the argument the network was trained on.",
  ["inputs","configurations","histories"],"all parameter vectors and settings, all reference heights and friction velocities, all wavevectors",
  "No stable test exercises saving, loading or the DRD kernel at all.",
  [SF+"calibration.py",GEN,FG+"nn_covariance.py"],[("CalibrationProblem.save_model",SF+"calibration.py"),("FluctuationFieldGenerator.__init__ (DRD branch)",GEN),("NNCovariance.precompute_Spectrum",FG+"nn_covariance.py")])

p("C04","Fitted spectral tensor equals the tensor used to generate fields",
  "For every wavevector with k1 != 0 and every eddy lifetime value, the spectral tensor integrated during fitting has, before the tiny positive floor that guards the logarithms, the components 11, 22, 33, 13 (and 23, 12) of E/(4 pi) times the same rapid-distortion tensor whose square root the field generator applies; components are delivered in the order 11, 22, 33, 13, 23, 12. The floor only replaces values below 1e-12 (1e-32 on the coherence grid); the coherence calculation uses the same tensor as the one-point calculation.",
  ["inputs","configurations"],"all wavevectors with k1 != 0, all lifetimes, all energy-spectrum values, all grid shapes",
  "Existing tests never evaluate the spectral tensor; equality of three separately written copies of the formula is a for-all-inputs statement.",
  [SF+"one_point_spectra.py",FG+"covariance_kernels.py"],[("OnePointSpectra.PowerSpectra",SF+"one_point_spectra.py"),("OnePointSpectra._PowerSpectra_coherence",SF+"one_point_spectra.py")])

p("C05","One-point spectra are k1-weighted integrals of the tensor, for any k1 set",
  "Evaluating the model on any vector of n wavenumbers returns a 6 x n table whose (c,i) entry is k1_i times the trapezoidal integral over the configured k2 and k3 grids of tensor component c at k1_i with the model's current length, time and magnitude scales; the four energy-spectrum variants enter as magnitude * L^(5/3) * E(L|k0|). The three auto-spectra are strictly positive for positive k1, each entry depends only on its own k1 and the current parameters (not on neighbours, order, or earlier evaluations), and the integration grids are symmetric about zero, strictly increasing and follow the integration settings.",
  ["inputs","configurations","histories"],"all k1 vectors, all parameter values, all integration settings, all call histories",
  "The stable tests never evaluate the model.",
  [SF+"one_point_spectra.py","drdmannturb/common.py"],[("OnePointSpectra.__init__ / forward / quad23",SF+"one_point_spectra.py"),("VKLike_EnergySpectrum, Learnable_EnergySpectrum","drdmannturb/common.py")])

p("C06","Eddy lifetimes follow their documented laws and are non-negative and even",
  "For every wavevector, the eddy lifetime of each available type equals the time scale times its documented law (constant 1; Mann: (kL)^(-2/3)/sqrt(2F1(1/3,17/6;4/3;-(kL)^-2)); two-thirds law (kL)^(-2/3); network: the rational kernel |a|^(nu-2/3)/(1+|a|^2)^(nu/2) of the norm of a = |kL| + NN(|kL|), componentwise absolute value; exponential approximation of the Mann law), is non-negative, is unchanged when any component of the wavevector changes sign, and is proportional to the time scale. This holds for arbitrary network weights, depth, width and exponent nu.",
  ["inputs","configurations"],"all wavevectors, all scales, all network architectures and weights",
  "Stable tests never evaluate a lifetime; evenness for arbitrary weights is a universal statement.",
  [SF+"one_point_spectra.py","drdmannturb/common.py","drdmannturb/nn_modules.py"],[("OnePointSpectra.EddyLifetime",SF+"one_point_spectra.py"),("MannEddyLifetime","drdmannturb/common.py"),("TauNet.forward, Rational.forward","drdmannturb/nn_modules.py")])

p("C07","Spectral coherence is a coherence: in [0,1], one at zero separation, even",
  "For every set of wavenumbers and separations the model coherence table has shape 3 x separations x wavenumbers, every entry lies in [0,1], equals 1 at zero separation, and is unchanged when the separation changes sign. Entry (c,i,j) is |S_cc(r_i,k1_j)|^2/|S_cc(0,k1_j)|^2 for the auto-spectra of components u, v, w with phase k2 r, and depends only on its own separation and wavenumber.",
  ["inputs","configurations","histories"],"all wavenumber vectors with k1 != 0, all separation vectors, all parameters",
  "No stable test computes coherence; the bound is an inequality over all inputs.",
  [SF+"one_point_spectra.py"],[("OnePointSpectra.SpectralCoherence, _quad23_coherence",SF+"one_point_spectra.py")])

p("C08","Physical scales and parameter vector are represented consistently",
  "A model built from length scale L, time scale Gamma and magnitude sigma evaluates with exactly those scales, both when constructed alone and inside a calibration problem; the first three entries of the parameter vector are their natural logarithms (followed by p and q when the learnable spectrum is on). Writing a vector of the right length and reading it back returns the same vector and changes the model to it; a vector of the wrong length is rejected and leaves the model unchanged.",
  ["inputs","configurations","histories"],"all positive scales, all parameter vectors, all lifetime types",
  "No stable test reads or writes the parameter vector.",
  [SF+"one_point_spectra.py",SF+"calibration.py"],[("OnePointSpectra.__init__, exp_scales",SF+"one_point_spectra.py"),("CalibrationProblem.parameters, log_dimensional_scales",SF+"calibration.py")])

p("C09","The training loss is the documented sum of non-negative terms, fully recorded",
  "For every model output, data set and setting, the loss equals the mean squared log ratio of model to data plus each enabled weighted term (first- and second-order penalties on positive log-log slope and curvature, mean squared network parameters, mean squared coherence misfit averaged over u, v, w); every term is non-negative, and a term whose weight is zero contributes nothing. Each evaluation appends exactly one entry to every recorded history (whose total is the sum of the recorded components) and updates each running average as 0.9 old + 0.1 new, starting from the first value; a NaN term raises an error instead of being recorded.",
  ["inputs","configurations","histories"],"all outputs, data, weights >= 0 and evaluation histories",
  "No stable test evaluates a loss.",
  [SF+"loss_functions.py"],[("LossAggregator.eval and its terms",SF+"loss_functions.py"),("update_running_averages",SF+"loss_functions.py")],
  state=[("component_losses","recorded histories",SF+"loss_functions.py"),("running_averages","exponential moving averages",SF+"loss_functions.py")])

p("C10","Calibration pairs each model spectrum with the matching data and reports the fit",
  "For 3, 4 and 6 fitted components and for every eddy lifetime type, with or without the learnable spectrum, calibration compares model component uu, vv, ww, uw, vw, uv at each wavenumber with exactly that component of the supplied data at that wavenumber, and with coherence data compares each component, separation and frequency with its own measurement (frequencies at or below 1e-6 are taken as fully coherent). It completes for any number of epochs, stops early only when the loss is below the tolerance, raises an error when the loss is not finite, and returns the exponentials of the model's final log-scales (and p, q when learnable).",
  ["inputs","configurations","histories"],"all data sets, all component counts, all lifetime types, all optimiser trajectories",
  "No stable test runs a calibration.",
  [SF+"calibration.py"],[("CalibrationProblem.calibrate and its closure",SF+"calibration.py"),("_compute_model_coherence",SF+"calibration.py")])

p("C11","Fields are generated as one continuous stream of whole blocks",
  "Every call that generates n blocks returns the whole field and appends exactly n*(2^lx+1) planes of shape (2^ly+1, 2^lz+1, 3), for every blending width >= 0, never altering planes produced earlier. Successive blocks are cut from one continuous noise stream: the noise window of each block is the previous window shifted by exactly one block length with fresh noise in the newly exposed part, so that generating a then b blocks gives the same field as generating a+b blocks at once from the same noise.",
  ["inputs","histories","configurations"],"all grids, blending widths, block counts and sequences of generate calls",
  "The stable tests never generate a 3D field; the statement ranges over call histories and sizes.",
  [GEN],[("FluctuationFieldGenerator.__init__ (window geometry), _generate_block, generate",GEN)],
  state=[("noise","current noise window",GEN),("total_fluctuation","accumulated field",GEN)])

p("C12","Each block is scaled to unit rms and only the mean profile is added, only to u",
  "For every block and profile choice the normalised block equals block / rms(block) in all three components plus, in the u component only, the mean profile evaluated at the height of each of the 2^lz+1 grid points spread evenly over [0, height]: Uref ln(z/z0+1)/ln(zref/z0) for the logarithmic profile and Uref (z/zref)^alpha for the power law. Empty or all-zero blocks, unknown profile names, non-positive zref, uref or z0, and a power law without exponent are rejected with an error.",
  ["inputs","configurations"],"all blocks, all grids, all profile parameters",
  "No stable test normalises a block.",
  [GEN],[("_normalize_block, log_law, power_law",GEN)])

p("C13","Sampling is exact spectral filtering of the noise by the kernel",
  "For every noise array of the grid's shape, the sampled field is the inverse Fourier transform of the kernel matrix applied to the Fourier transform of the three noise components, scaled by sqrt(number of voxels)/sqrt(volume), with wavenumbers 2 pi times the FFT frequencies of a grid whose spacing is dimension/(2^level+1). The result does not depend on earlier samples, the noise passed in is not modified, and generated noise has standard deviation sqrt(cell volume).",
  ["inputs","histories","configurations"],"all noise arrays, grids, kernels and call histories",
  "No stable test samples a field.",
  [FG+"sampling_methods.py",FG+"gaussian_random_fields.py"],[("Sampling_method_freq, Sampling_VF_FFTW.__call__",FG+"sampling_methods.py"),("GaussianRandomField.__init__, sample_noise, sample",FG+"gaussian_random_fields.py")])

p("C14","Low-frequency computational grid covers the request; extraction is exact",
  "For every low-frequency configuration the internal grid has equal spacing in x and y (the finer of the two requested spacings), an even number of points per axis, and extents at least as large as both the requested domain and five length scales. The delivered fields have exactly the requested number of points and are a contiguous centred window of the internal field (offset floor((N_internal - N_requested)/2) on each axis), unchanged in value.",
  ["inputs","configurations"],"all domain factors, exponents and length scales > 0",
  "The tests check one mirror formula at a few configurations; the guarantee is for every configuration and every index.",
  [LF],[("_calculate_buffer_sizes, _extract_field_portion, generate",LF)])

p("C15","Low-frequency field has the prescribed spectrum and is divergence-free in 2D",
  "For every configuration and noise, the Fourier coefficients of the low-frequency field are i k2 A n and -i k1 A n with A^2 = E(kappa)/(pi k^3) (2 pi)^2/(dx dy), kappa^2 = 2(cos^2 psi k1^2 + sin^2 psi k2^2), E(kappa) = c kappa^3/((L^-2+kappa^2)^(7/3)(1+kappa^2 z_i^2)), hence k1 u1 + k2 u2 = 0 at every wavenumber and the mean is zero; c makes the spectrum integrate to the requested variance, c = sigma^2/(2 int_0^inf E/c dkappa). The fields delivered are the real inverse transforms of those coefficients for the same noise realisation.",
  ["inputs","configurations"],"all wavenumbers, all physical parameters, all noise arrays (numerical guards below 1e-20 excepted)",
  "The stable tests only check a mean variance within 10 % on a few seeds; they cannot see the spectrum or incompressibility per wavenumber.",
  [LF],[("_generate_numba_helper, _compute_c, generate",LF)])

p("C16","Low-frequency spectra: estimator and theory use the same convention",
  "The estimated one-dimensional spectra at each positive resolved wavenumber are the sum over k2 of |FFT of u|^2 at that k1 times L1/((N1 N2)^2 2 pi), reported in increasing order for every positive wavenumber of the delivered grid below the Nyquist wavenumber, and are non-negative. The theoretical spectra are the integrals over k2 in [-limit, limit] of E(kappa)/(pi k) k2^2/k^2 (u) and E(kappa)/(pi k) k1^2/k^2 (v) with the same E(kappa) and constant c used to generate the field, entry by entry for every requested non-zero k1 (a zero entry is reported as zero).",
  ["inputs","configurations"],"all fields, all wavenumber lists, all physical parameters",
  "No stable test checks either spectrum against its definition.",
  [LF],[("compute_spectrum, _compute_spectrum_numba_helper, analytical_spectrum",LF)])

p("C17","Low-frequency wind is superposed on the 3D field at the right place",
  "When a low-frequency model is attached, each generated block equals the plain 3D block plus, at every height, the low-frequency u1 in the u component and u2 in the v component, linearly interpolated at that point's position (zero outside the low-frequency domain); the w component is untouched. Block number b (counted over all generate calls of the object) covers x from b to b+1 domain lengths, and y is centred in the low-frequency domain.",
  ["inputs","histories","configurations"],"all block counts and call histories, all grids, all low-frequency fields",
  "No stable test couples the two fields.",
  [GEN,LF],[("generate (superposition part)",GEN),("interp_slice",LF)])

p("C18","Synthetic calibration data follow the Kaimal and von Karman formulas",
  "For every wavenumber vector, reference height and friction velocity, the Kaimal data are u*^2 times 52.5 n/(1+33n)^(5/3), 8.5 n/(1+9.5n)^(5/3), 1.05 n/(1+5.3 n^(5/3)) and -7 n/(1+9.6 n)^(12/5) in positions 11, 22, 33, 13 with n = k1 z/(2 pi) (all other entries zero), so they depend on k1 and z only through the product k1 z, are positive on the diagonal and negative in 13. The von Karman data are k1 times 9/55 C (L^-2+k1^2)^(-5/6) and 3/110 C (3 L^-2 + 8 k1^2)(L^-2+k1^2)^(-11/6) and satisfy the isotropy relation F22 = F33 = (F11 - k1 dF11/dk1)/2; the wavenumbers are returned unchanged.",
  ["inputs"],"all wavenumbers > 0, heights, friction velocities, L and C",
  "No stable test evaluates the data generators.",
  [SF+"data_generator.py"],[("generate_kaimal_spectra, generate_von_karman_spectra",SF+"data_generator.py")])

p("C19","Measured coherence is stored at its own separation and frequency",
  "Loading a coherence file places every measured u, v, w coherence at the position given by its separation and frequency indices, for any order of the rows, with missing combinations marked as not-a-number; separations and frequencies are listed in index order and the four separations selected for fitting are spread evenly from the first to the last.",
  ["inputs"],"all coherence tables (complete or with missing rows, any row order)",
  "No stable test loads coherence data; row order and gaps are universally quantified.",
  [SF+"calibration.py"],[("CalibrationProblem.load_coherence_data",SF+"calibration.py")])

p("C20","Field utilities report the field they are given",
  "For every field and spacing: the divergence utility returns the sum over the three axes of the derivative of each component along its own axis with its own spacing, and rejects a spacing that is not of length 3 or a field whose last axis is not 3; the VTK export writes u, v, w in that order with cell spacing dimension/(2^level+1); the plotting grid has coordinates spacing times index on each axis, the formatted wind field is an independent copy of the three components, and the component and magnitude plots show, at every grid point, the component and the Euclidean norm of the field there.",
  ["inputs","configurations"],"all fields, spacings and grids",
  "No stable test calls these utilities.",
  [GEN,FG+"wind_plot.py"],[("evaluate_divergence, save_to_vtk",GEN),("create_grid, format_wind_field, plot_velocity_components, plot_velocity_magnitude",FG+"wind_plot.py")])

p("C21","Learning-rate advice is derived from the recorded losses and only reduces",
  "For every loss history, window and epoch, an adjustment is suggested only after a full window has been recorded, its factor lies strictly between 0 and 1 (0.5 stagnation, 0.3 instability, 0.7 dominance), and it is issued exactly when the relative improvement between the two halves of the window is below 1 %, otherwise when the stability 1/(1+std) is below 0.3, otherwise when the largest component mean exceeds 100 times the smallest (early mean and smallest component mean are taken as at least 1e-8 in these ratios). Means and standard deviations are those of the last window of recorded values, and asking for advice does not change any recorded loss.",
  ["inputs","histories"],"all histories, windows >= 2, epochs",
  "No stable test calls the diagnostics.",
  [SF+"loss_functions.py"],[("get_loss_diagnostics, should_adjust_learning_rate, get_current_loss_info",SF+"loss_functions.py")])

p("C22","Inadmissible configurations are rejected, admissible ones accepted",
  "Constructing a generator with an unknown model name, a DRD generator without a parameter file, a Mann or von Karman generator without length, time or energy scale, a kernel in other than three dimensions, an unknown sampling method, a calibration with a component count other than 3, 4 or 6 or a non-positive scale, a network with invalid depth, widths or activations, or domain parameters that are not of length 3 raises an error; the same constructors accept every admissible configuration and store the values given.",
  ["inputs","configurations"],"all argument combinations",
  "One stable test covers a single invalid model name.",
  [GEN,FG+"covariance_kernels.py",FG+"gaussian_random_fields.py",SF+"calibration.py",SF+"one_point_spectra.py","drdmannturb/nn_modules.py","drdmannturb/parameters.py"],
  [("constructors and their validation",GEN)])

p("C23","Generated fields match target statistics in the ensemble limit",
  "Averaged over many independent realisations, one-point spectra, variances and coherences of generated fields converge to the model's spectra within sampling error.",
  ["inputs","histories"],"the distribution of all noise realisations",
  "Only a 10 % mean-variance test exists for the 2D model.",
  [GEN,LF],[("noise generation and filtering",GEN)])

p("C24","Calibration converges to a good fit",
  "For realistic data the optimiser reduces the loss and ends with spectra close to the data.",
  ["inputs","configurations"],"all realistic data sets and initialisations",
  "Convergence of LBFGS on a non-convex loss is not settled by sample runs.",
  [SF+"calibration.py"],[("calibrate (optimiser loop)",SF+"calibration.py")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
