COH, LIN, BASE = "tftb/processing/cohen.py", "tftb/processing/linear.py", "tftb/processing/base.py"
POST, REA, AFF = "tftb/processing/postprocessing.py", "tftb/processing/reassigned.py", "tftb/processing/affine.py"
AMB, PU, U = "tftb/processing/ambiguity.py", "tftb/processing/utils.py", "tftb/utils.py"
FD, TD = "tftb/processing/freq_domain.py", "tftb/processing/time_domain.py"
GA, GF, GN, GM, GS, GU = ("tftb/generators/amplitude_modulated.py", "tftb/generators/frequency_modulated.py",
                          "tftb/generators/noise.py", "tftb/generators/misc.py",
                          "tftb/generators/analytic_signals.py", "tftb/generators/utils.py")

PROPS += [
    P("C01", "The short-time Fourier transform is the windowed spectrum centred on each sample",
      "For every signal, analysis window and number of frequency bins, column m of the short-time Fourier transform equals the "
      "discrete Fourier transform of the signal times the conjugated window centred on sample m, with samples outside the signal "
      "and lags beyond half the number of bins left out. It is linear in the signal, and a row or column vector gives the same "
      "result as the flat signal.",
      ["inputs", "configurations"], "every signal (complex, real, integer), every window value and length, every grid size",
      TESTS, [LIN, BASE], [("ShortTimeFourierTransform.run", LIN), ("window and grid set-up", BASE)],
      "Signals and windows symbolic, lengths 1..40 (quick) / 128 (thorough)."),
    P("C02", "The spectrogram is the energy of the normalised windowed spectrum",
      "For every signal, window and choice of instants, each column of the spectrogram is the squared modulus of the spectrum of "
      "the signal under the window centred on that instant, the window being normalised to unit energy over the samples it covers. "
      "It is real and non-negative, sums over frequency to the energy of the windowed segment, and does not depend on the scale of the window.",
      ["inputs", "configurations"], "every signal, every window not vanishing at its centre, every list of instants inside the signal",
      TESTS, [COH, BASE], [("Spectrogram.run", COH)],
      "Signals and windows symbolic, lengths 1..32 (quick) / 64 (thorough)."),
    P("C03", "The Wigner-Ville distribution has its definition, marginals and energy",
      "For every signal the Wigner-Ville distribution is real, equals the Fourier transform over lag of the instantaneous "
      "autocorrelation, sums over frequency to the instantaneous power at every sample and in total to the energy of the signal, "
      "and vanishes at instants outside the support of the signal. Its frequency axis runs from 0 in steps of half a bin.",
      ["inputs", "configurations"], "every signal (complex, real, integer) and every number of frequency bins",
      TESTS, [COH, BASE], [("WignerVilleDistribution.run", COH)],
      "Signals symbolic, lengths 1..32 (quick) / 96 (thorough)."),
    P("C04", "Pseudo and smoothed pseudo Wigner-Ville are windowed Wigner-Ville distributions",
      "For every signal the pseudo Wigner-Ville distribution is the Wigner-Ville distribution with its lags weighted by the "
      "frequency-smoothing window, and the smoothed pseudo version additionally averages over time with the normalised time window. "
      "Both are real; with windows that do nothing they reduce to the unsmoothed distribution, and the pseudo version sums over "
      "frequency to the instantaneous power times the centre value of the window.",
      ["inputs", "configurations"], "every signal, every frequency window (with value 1 at lag 0 for the smoothed version), every positive time window, every grid",
      TESTS, [COH], [("PseudoWignerVilleDistribution.run", COH), ("smoothed_pseudo_wigner_ville", COH)],
      "Signals and windows symbolic, lengths 1..32 (quick) / 64 (thorough)."),
    P("C05", "The Margenau-Hill distributions have their definition and marginals",
      "For every signal the Margenau-Hill distribution is real and equals the real part of the signal times its conjugated "
      "spectrum times the Fourier kernel; summed over frequency it gives the instantaneous power and summed over time the energy "
      "spectrum. The pseudo version weights the lags with the frequency-smoothing window.",
      ["inputs", "configurations"], "every signal and every grid with at least as many bins as samples; every lag window for the pseudo version",
      TESTS, [COH], [("MargenauHillDistribution.run", COH), ("PseudoMargenauHillDistribution.run", COH)],
      "Signals and windows symbolic, lengths 1..24 (quick) / 64 (thorough)."),
    P("C06", "Distributions move with the signal: time-shift, modulation and scale covariance",
      "Delaying a signal inside its record delays its time-frequency distribution by the same number of samples; multiplying it by "
      "a complex exponential on the frequency grid shifts the distribution circularly by the corresponding number of bins; "
      "multiplying it by a constant multiplies linear transforms by the constant and energy distributions by its squared modulus. "
      "This holds for the short-time Fourier transform, the spectrogram and the Wigner-Ville, Margenau-Hill and pseudo distributions.",
      ["inputs", "configurations"], "every signal, delay, grid frequency and complex factor",
      TESTS, [COH, LIN], [("run methods of the distributions", COH), ("ShortTimeFourierTransform.run", LIN)],
      "Relational check of two or three symbolic runs, records of 2..20 samples."),
    P("C07", "Ambiguity functions: definition, energy at the origin, symmetry",
      "The narrow-band ambiguity function of every signal is the Fourier transform over time of the lagged product of the signal "
      "with its conjugate, equals the energy of the signal at zero lag and zero Doppler, and is Hermitian symmetric; modulating the "
      "signal only changes its phase. The wide-band function is quadratic in the signal and equals the energy in the analysed band at the origin, "
      "on the documented delay and log-scale axes.",
      ["inputs", "configurations"], "every complex signal, list of lags and Doppler grid (narrow band); every real signal with an explicit band (wide band)",
      TESTS, [AMB], [("narrow_band", AMB), ("wide_band", AMB)],
      "Signals symbolic, 1..24 samples narrow band, 7..8 samples wide band (quick)."),
    P("C08", "Reassignment moves energy without creating or losing any",
      "The reassigned spectrogram and (smoothed) pseudo Wigner-Ville distributions return the plain distribution together with one "
      "whose total equals it, in which every cell above the energy threshold has been moved to its centre of gravity, rounded to the grid, clipped in time "
      "and wrapped in frequency, and every other cell stays put. The reported coordinates are cells of the grid, and all the energy of an impulse lands on its own instant.",
      ["inputs", "configurations"], "every signal, symmetric odd window, bin count and regular time grid",
      "The repository has no tests of it; where each cell goes depends on the signal values, so conservation and range must hold for all of them.",
      [REA, PU], [("spectrogram", REA), ("pseudo_wigner_ville", REA), ("smoothed_pseudo_wigner_ville", REA)],
      "Signals symbolic including the data-dependent scatter (symbolic indices), 2..7 samples, up to 9 cells."),
    P("C09", "Calls neither alter their arguments nor remember earlier ones",
      "Every distribution, estimator and generator leaves its arguments and every array it returned earlier as they were, through construction, "
      "run, plotting in every style, runs of other objects and repeated runs. The same arguments give the same result (for the random generators: the same draws), whatever was called in between, and "
      "overwriting a result does not reach later ones. Plotting leaves the distribution, its axes, window and signal unchanged.",
      ["inputs", "histories"], "every signal, window and parameter; histories of construction, run, up to five plots, another object's run, run again",
      "The tests call each function once; aliasing and leftover state only show in particular sequences of calls.",
      [BASE, COH, LIN, AFF, PU, GA, GF], [("run and plot methods", COH), ("run and plot methods", LIN), ("plot", AFF), ("constructor", BASE)],
      "Histories of up to nine calls; values symbolic, sizes 3..9."),
    P("C10", "The time and frequency axes tell where the energy is",
      "Every distribution has one row per frequency bin and one column per requested instant (by default one per sample), and returns these "
      "instants and the frequencies k/n in transform order (k/2n for the Wigner-Ville family), also as attributes; row and column vectors are read as flat signals and default windows "
      "are odd Hamming windows of a quarter of the bins. A tone on a listed frequency peaks in the row of that frequency at every instant, "
      "and an impulse lights exactly the columns whose window reaches it.",
      ["inputs", "configurations"], "every signal; tones and impulses of every amplitude and phase; every combination of length, number of bins and instants listed", TESTS,
      [BASE, COH, LIN, REA], [("axes and defaults", BASE), ("run methods", COH), ("ShortTimeFourierTransform.run", LIN)],
      "Signals symbolic, 1..16 samples and bins (65 thorough)."),
    P("C11", "Amplitude modulations have their envelope at every centre and spread",
      "For every number of points, time centre and spread the gaussian, one- and two-sided exponential, rectangular and triangular "
      "modulations return exactly n_points samples of the documented envelope: peak value one at the centre, the documented width, zero outside the "
      "support of the rectangle, triangle and one-sided exponential. The defaults are the centre round(n/2) and spread 2 sqrt(n); a non-positive number of points is refused.",
      ["inputs", "configurations"], "every real or integer centre (inside, at the edge or outside the record) and positive spread; every size listed",
      "The tests use one size and the default centre; the envelope must be right for every centre and spread.",
      [GA], [("amgauss, amexpos, amrect, amtriang", GA)], "Centre and spread symbolic, sizes up to 160 (quick) / 256 (thorough)."),
    P("C12", "Frequency modulations follow their frequency law with the documented phase",
      "For every parameter setting the constant, linear, hyperbolic, parabolic, power-law and sinusoidal modulations and the arbitrary-law one "
      "return a unit-modulus signal of n_points samples together with its frequency law; the law passes through the requested points or values, the phase is the integral "
      "of the law and is zero at the time reference, and a law leaving the admissible band is signalled by a warning. The Doppler signal and the atoms of "
      "time-frequency space (amplitude, Gaussian width, centre) have their documented form.",
      ["inputs", "configurations"], "every frequency, coefficient, time reference, target speed and distance, atom coordinate",
      "The tests look at one or two parameter settings; phase references and laws have to be right for all of them.",
      [GF, GM], [("fmconst, fmlin, fmhyp, fmpar, fmpower, fmsin, fmodany", GF), ("doppler", GM), ("atoms", GM)],
      "Parameters symbolic, sizes 1..16 and up to 128 (quick)."),
    P("C13", "Keyed signals are piecewise constant symbols of the alphabet on the carrier",
      "For every outcome of the random draws the amplitude-, binary-phase-, four-phase- and frequency-keyed signals have n_points samples, their keying "
      "sequence is constant over each symbol, belongs to the documented alphabet and drives the returned analytic signal; with frequency "
      "keying the phase is continuous, being the running sum of the frequency law. Every symbol of the alphabet can occur, all of them being equally likely, and each symbol follows its own draw.",
      ["inputs", "schedules"], "every sequence of random draws, carrier frequency, record and symbol length",
      "The generators are random: a test sees one draw, the guarantee is about all of them.",
      [GS], [("anaask, anabpsk, anaqpsk, anafsk", GS)], "Draws symbolic; 1..16, 33, 64 samples with symbol lengths 1..16."),
    P("C14", "Wavelets, power-law delay signals, noises: definition, length, unit energy",
      "Altes, Klauder and Mexican hat wavelets equal their defining formula with the documented length and (Altes, Klauder) unit energy. The power-law group delay "
      "signal has unit energy, zero mean, n_points samples and the group delay law it returns. Complex noises are the analytic signal of their draws, normalised over a record "
      "of a power of two samples of which n_points are returned; the Doppler noise has unit energy and the documented frequency law.",
      ["inputs", "schedules"], "every attenuation, frequency, rate, draw of the noise",
      "Tests look at one setting and at random draws through coarse statistics; normalisation and definition have to hold for all.",
      [GM, GN], [("altes, klauder, mexhat, gdpower", GM), ("noisecu, noisecg, dopnoise", GN)],
      "Parameters and draws symbolic, sizes up to 16 (128 with concrete parameters)."),
    P("C15", "Analytic pulse, step and singularity are analytic and correct at every position",
      "The analytic pulse, step and singularity have n_points samples, no negative frequencies (the spectrum of the real part doubled on the positive ones), and a real part that is the unit "
      "impulse at the given instant, the unit step after it, or the singularity of the given strength at the given instant, for every position and strength.",
      ["inputs", "configurations"], "every position (integer or real) and Holder exponent",
      "Tests use one position and size.", [GS], [("anapulse, anastep, anasing", GS)],
      "Position and strength symbolic, 1..16 samples; concrete positions up to 64."),
    P("C16", "Time and frequency localisation are the moments of the energy",
      "For every signal of non-zero energy, the time (frequency) localisation returns the centre of gravity of |x|^2 over the sample numbers "
      "(of |X|^2 over the centred normalised frequencies) and the spread 2 sqrt(pi) times the standard deviation. Delaying a signal moves the first and keeps the second; "
      "an impulse and a grid tone of any amplitude are localised exactly, with no spread; a matrix is refused.",
      ["inputs"], "every complex, real or integer signal, delay, amplitude", TESTS,
      [TD, FD], [("loctime", TD), ("locfreq", FD)], "Signals symbolic, up to 16 samples in time and 8 in frequency (thorough 64 and 16)."),
    P("C17", "Instantaneous frequency and group delay are the phase's derivatives",
      "At every requested instant the instantaneous frequency is half the phase advance over two samples, in [0, 1/2], and exact for a tone of any frequency and amplitude. The group delay is "
      "the first moment of the signal over its spectrum (samples counted from 1), zero where outside [1, n + 3], and equals the position of an impulse at every frequency. "
      "One value per instant (frequency); matrices are refused.",
      ["inputs"], "every signal that does not vanish at the samples (frequencies) used; every tone and impulse", TESTS,
      [FD], [("inst_freq, group_delay", FD)], "Signals, frequencies and amplitudes symbolic, up to 8 samples (thorough 33)."),
    P("C18", "Merging two signals gives them the requested energy ratio",
      "For every pair of non-zero signals and every ratio in decibels, sigmerge returns the first signal plus a positive multiple of the second whose energy "
      "is the requested number of decibels below the first's, leaving both untouched. The default ratio is 0 dB; arguments that are not one-dimensional are refused.",
      ["inputs"], "every pair of complex, real or integer signals and every ratio in [-20, 20] dB", TESTS,
      [GU], [("sigmerge", GU)], "Signals and ratio symbolic, 1..16 samples (thorough 64)."),
    P("C19", "Trapezoidal integration in two dimensions and Renyi information",
      "integrate_2d is the trapezoidal rule over both axes (any increasing or decreasing ordinates), exact for bilinear functions. The Renyi information of order alpha is "
      "log2 of the integral of the alpha-th power of the distribution normalised to unit integral, over 1 - alpha (Shannon's entropy for order one); "
      "it does not depend on the scale of the distribution nor on the order of the frequencies, and the distribution is left untouched.",
      ["inputs"], "every matrix and axis values (integration); every positive distribution (information)", TESTS,
      [POST, PU], [("integrate_2d", PU), ("renyi_information", POST)], "Matrix and axes symbolic, up to 5x5."),
    P("C20", "Ideal representation, Hough transform, density and ridges mark the right cells",
      "The ideal representation is one in the cell nearest to each frequency law at each instant and zero elsewhere. The Hough transform adds every pixel above the threshold "
      "once to the cell of each line through it, on the documented axes. The Friedman density is the share of significant cells whose reassigned frequency falls in each bin and sums to one. "
      "Ridges are exactly the significant cells which are their own centre of gravity, for each method.",
      ["inputs", "configurations"], "every law, image, distribution and field of centres of gravity", TESTS,
      [POST], [("ideal_tfr, hough_transform, friedman_density, ridges", POST)], "Data symbolic; up to 9 bins, images up to 5x5."),
    P("C21", "Integer and array utilities, inverse Zak transform, window derivative",
      "nextpow2 is the least exponent whose power of two reaches n; divider returns the two factors of n closest to its square root; nearest_odd is odd and at most one away; "
      "modulo is the residue in 1..N, that of both parts in 0..N for complex arrays; is_linear recognises arithmetic progressions and only these; the inverse Zak transform keeps the energy and has its definition; "
      "the derivative of a window is the central difference; the spectrum is the centred energy spectrum.",
      ["inputs"], "every integer or real in the ranges, every array and window", TESTS,
      [U, PU], [("nextpow2, divider, nearest_odd, modulo, is_linear, izak", U), ("derive_window, get_spectrum", PU)],
      "Arguments symbolic over the stated ranges."),
    P("C22", "Affine distributions: definition, energy of the band, geometric axis",
      "For every real signal the scalogram and the Bertrand, Unterberger and D-Flandrin distributions are proportional to their definition (squared wavelet transform; products of dilated "
      "spectra), on the instants of the signal and a geometric frequency grid from fmin to fmax with one row per voice. Their integral over time and frequency times the number of voices "
      "is the energy of the analytic signal in the analysed band, so they scale with the square of the signal. When no band is given the one chosen holds every frequency whose energy exceeds a hundredth of the largest.",
      ["inputs", "configurations"], "every real signal whose raw distribution has a non-zero integral, band, number of voices, Morlet length",
      "The repository has no tests of it.", [AFF, BASE],
      [("Scalogram, UnterbergerDistribution, DFlandrinDistribution, BertrandDistribution", AFF)],
      "Signals symbolic, 6..9 samples fully, 12..20 with two or three symbolic samples; default and explicit numbers of voices."),
    P("C23", "The Gabor representation reconstructs the signal",
      "For every signal, synthesis window of odd length and admissible number of times and oversampling, the Gabor coefficients are the products of the signal with the shifted and modulated dual window, "
      "and summing the shifted, modulated synthesis windows weighted by the coefficients gives the signal back. The representation is the squared modulus of the coefficients; "
      "windows of even length are refused.",
      ["inputs", "configurations"], "every signal, and every window generating a frame", TESTS,
      [LIN, U], [("gabor", LIN), ("izak, modulo", U)], "Signals symbolic up to 32 samples (thorough 64), windows symbolic for 8..12 samples."),
    P("C24", "Arguments outside the documented range are refused, the others accepted",
      "Non-positive numbers of points, normalised frequencies beyond the documented band, time references outside the record, "
      "windows of even length, irregular instants, matrices where a signal is expected, negative distributions for Shannon's entropy and unknown "
      "representation names raise an error for every such value. No value of the documented ranges, their ends included, is refused.",
      ["inputs"], "every value outside (inside) each documented range, the other arguments arbitrary", TESTS,
      [GA, GF, GM, GS, GN, REA, COH, FD, TD], [("argument checks of the generators", GF), ("argument checks", REA)],
      "Out-of-range values symbolic up to 50 (400 for hertz)."),
    P("C25", "Plots show the distribution with the axes of what is shown",
      "Every kind of plot draws once the rows documented for the distribution (the non-negative frequencies where the axis has both signs), as "
      "modulus or squared modulus as requested, values not exceeding the threshold times the maximum being zero and the others unchanged. The mesh or "
      "extent spans the instants and the frequencies of these rows; the side panels show the real part of the signal and its energy spectrum. "
      "plotifl draws the laws over their instants in a range that holds them.",
      ["inputs", "configurations"], "every signal, plot kind, threshold, number of bins and set of instants listed",
      "The tests never plot; what is drawn depends on the values through the maximum and the threshold.",
      [BASE, COH, LIN, AFF, "tftb/processing/plotifl.py"], [("plot, _plot_tfr, _plot_signal, _plot_spectrum", BASE), ("plot methods", COH), ("plot", LIN), ("plot", AFF)],
      "matplotlib replaced by a recorder of what it is asked to draw; 3..12 samples."),
]
