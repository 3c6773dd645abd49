"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B, ST, SM = 'pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py'
SU, PB, PS, PU = 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/standard.py', 'pyspod/pod/utils.py'
PAR, RD, PP, W = 'pyspod/utils/parallel.py', 'pyspod/utils/reader.py', 'pyspod/utils/postproc.py', 'pyspod/utils/weights.py'
ER, IO, EB, EN = 'pyspod/utils/errors.py', 'pyspod/utils/io.py', 'pyspod/emulation/base.py', 'pyspod/emulation/neural_nets.py'

prop('C01', 'Batch SPOD eigenvalues and modes are those of the Welch cross-spectral density',
 'For every data set (real or complex, any number of variables, any spatial dimension) and every valid choice of block length, overlap, mean removal, weights, normalization, precision and number of saved modes, the eigenvalues and modes returned at each frequency by a batch SPOD fit are the eigenpairs of the weighted cross-spectral density matrix of the data: all overlapping blocks of snapshots, minus the selected mean, optionally divided by their pointwise variance, Hamming-windowed with amplitude correction, Fourier transformed and averaged over blocks. '
 'Energies that a one-sided spectrum folds (every frequency other than zero and, for even block lengths, Nyquist) are doubled, and no others. '
 'The saved mode number m of frequency f belongs to eigenvalue (f, m).',
 ['inputs', 'configurations'],
 'all data arrays, block lengths (odd and even), overlaps, mean types, weights, normalizations, data types and mode counts',
 'The stable tests fit two data sets with overlap 0 and blockwise mean only and compare a few rounded extrema; overlap, longtime and zero mean, odd block lengths, full spectra, complex data, single precision and normalization are never compared with a definition.',
 [B, ST, RD],
 [('segmentation, windowing, FFT', ST + ':_compute_blocks'), ('cross-spectral density, eigenproblem, modes', ST + ':_compute_standard_spod'), ('mean selection', B + ':select_mean'), ('frequency axis and one-sided doubling', B + ':get_freq_axis')],
 ['eigenvalues and mode files after fit'])

prop('C02', 'SPOD modes are orthonormal, ranked, and energies obey scaling and symmetry laws',
 'At every frequency the energies are real, non-negative and in descending order, they sum to the total weighted spectral energy of the data at that frequency, and the saved modes that carry energy are orthonormal in the weighted inner product, also those of equal energy, which the orthogonality check reports truthfully for any pair of modes. '
 'Multiplying the data by a constant multiplies all energies by its square, multiplying the weights by a positive constant multiplies them by that constant, and reordering space points or variables together with their weights, or adding a time-constant field when the mean is removed, leaves them unchanged. '
 'The confidence bounds are the chi-square bounds for the number of blocks and the confidence level: the interval contains the energy, widens with the level and narrows with more blocks.',
 ['inputs', 'configurations'],
 'all data, weights, parameters, and all scalings, permutations and offsets of them',
 'Laws relate several runs with each other; the tests compare single runs with stored numbers and do not look at confidence bounds at all.',
 [B, ST, SU],
 [('eigenvalue ordering and normalization', ST + ':_compute_standard_spod'), ('confidence bounds', B + ':_initialize'), ('orthogonality check', SU + ':check_orthogonality')],
 ['eigenvalues, saved bounds, mode files, return value of the orthogonality check'])

prop('C03', 'A parallel SPOD fit gives the serial result for any number of processes',
 'For every input and every number of MPI processes, including counts that do not divide the distributed dimension or exceed it, a batch or streaming SPOD fit completes on all processes, whatever the relative speed of the processes and of their file system operations. '
 'It returns on every process the same energies, frequencies and block counts as the serial fit, and leaves complete files of modes (up to a phase), weights, mean and energies that equal the serial ones and are readable as soon as the fit returns.',
 ['schedules', 'inputs', 'configurations'],
 'all process counts, all interleavings of processes (delays at communication and file operations), all inputs',
 'The parallel tests need data files that are absent and otherwise use two processes, one data set and no delays; hangs and races depend on timing.',
 [B, ST, SM, PAR, RD],
 [('block distribution of the largest axis', PAR + ':distribute_data/_blockdist'), ('global reduction', PAR + ':allreduce'), ('collective file write', PAR + ':npy_save'), ('barriers after directory creation', B + ':_initialize')],
 ['per-process results, files as seen by every process when fit returns'],
 hook=None)

prop('C04', 'Streaming SPOD follows its recursive update of the cross-spectral density',
 'After a stream of snapshots ends, the values and modes returned by streaming SPOD are those obtained by feeding every completed block of snapshots, in order and with the running mean at its completion removed, to the recursive rank-limited update of the weighted cross-spectral density; when the number of kept modes is at least the number of completed blocks this is the exact eigendecomposition of the recursively weighted sum. '
 'Values are in descending order, modes carrying energy are orthonormal in the weighted inner product, and the saved mean is the mean of all snapshots. '
 'Consecutive blocks start one hop (block length minus overlap) apart, and how the stream is split into data sets does not matter.',
 ['inputs', 'configurations', 'histories'],
 'all data streams, block lengths, overlaps, weights, numbers of kept modes and splits of the stream',
 'The streaming tests need a data file that is absent and compare rounded extrema of one run.',
 [SM, B, RD],
 [('incomplete DFT sums and block schedule', SM + ':fit'), ('rank-one update', SM + ':fit')],
 ['values and mode files after fit'])

prop('C05', 'The same snapshots give the same SPOD whatever form they are supplied in',
 'Supplying the same snapshots as one array, as a list of consecutive data sets split at any points, as labelled arrays, with or without an explicit axis for a single variable, as netCDF files read by any number of processes, or as one MATLAB file per snapshot (named in the order of time) gives the same energies, modes and saved mean. '
 'Every snapshot is used exactly once and at its own position in time, and every value at its own space point and variable. '
 'Modes read back are the same whether they were stored per frequency or per mode.',
 ['inputs', 'configurations', 'histories'],
 'all ways of splitting and encoding a sequence of snapshots, all process counts',
 'The data files the reader tests need are absent; otherwise a single split of one data set is compared.',
 [RD, B, ST, PP],
 [('dataset concatenation', RD + ':reader_1stage.get_data_for_time'), ('time-then-space redistribution', RD + ':reader_2stage.get_data_for_time'), ('MATLAB redistribution', RD + ':reader_mat.get_data_for_time'), ('block assembly from pieces', ST + ':_get_block'), ('per-mode writers', ST + ':_compute_standard_spod')],
 ['energies and mode files of fits on differently encoded data'])

prop('C06', 'Saving and reusing Fourier blocks never changes the result',
 'Asking for Fourier blocks to be saved does not change the result of a fit, and a later fit that is told to reuse them gives the same energies and modes as computing them anew, for any number of variables and any number of processes, which may differ between the two fits. '
 'If any block file is missing, as after an interrupted run, the fit recomputes the blocks and still gives the correct result. '
 'The saved blocks are the windowed Fourier coefficients of each block at each frequency.',
 ['crash_points', 'inputs', 'configurations', 'histories'],
 'all points at which the saving run is interrupted between files, all sequences of saving and reusing runs, all process counts',
 'No stable test saves or reuses blocks, and none interrupts a run.',
 [ST, B],
 [('block files', ST + ':fit'), ('presence check', B + ':_are_blocks_present')],
 ['block files, energies and modes of successive fits'])

prop('C07', 'Oblique-projection coefficients reconstruct the data',
 'For any data and any band of frequencies, whether selected by list or by period bounds, the time coefficients are the weighted least-squares coefficients of the mean-free data on the selected modes, ordered by frequency and then mode, and the reconstruction adds the mean to the combination of modes at exactly the requested snapshots. '
 'Data lying in the span of the selected modes are therefore reproduced exactly, and both pseudo-inverse variants agree. '
 'Coefficients, modes, mean and parameters are stored together under a folder named after the band, from which a reconstruction can be computed later or with user-given coefficients.',
 ['inputs', 'configurations'],
 'all data, modes, bands, tolerances, time selections',
 'The tests that compute coefficients need absent data files, and compare extrema of one run.',
 [SU, B],
 [('projection', SU + ':_oblique_projection'), ('mode layout', SU + ':_get_modes'), ('reconstruction', SU + ':compute_reconstruction')],
 ['coefficient, mode, mean and reconstruction files'])

prop('C08', 'Convolution coefficients are the windowed projections at every instant',
 'For any data and any band of frequencies, the convolution coefficient of a mode at a time is the weighted inner product of that mode with the windowed Fourier transform of the mean-free, zero-padded data centred at that time, with the amplitude corrected near both ends of the record for the window falling outside it. '
 'They are indexed by frequency, time and mode, and the reconstruction from them is the mean plus the sum over frequencies and modes of mode times coefficient at exactly the requested snapshots.',
 ['inputs', 'configurations'],
 'all data, weights, block lengths, bands, and time selections',
 'The only tests of this function need absent data files.',
 [SU],
 [('sliding transform and end correction', SU + ':compute_coeffs_conv'), ('reconstruction', SU + ':_compute_rec_conv')],
 ['coefficient, mode, mean and reconstruction files'])

prop('C09', 'POD returns the leading energy-ranked orthonormal basis of the data',
 'For every real data set given as one or several data sets, with any weights, number of variables and mean removal, POD energies are the eigenvalues of the weighted temporal covariance of the data in descending order, and the saved modes are the corresponding leading eigenvectors of the spatial covariance, orthonormal in the weighted inner product, also those of equal energy. '
 'Projecting the data on them in that inner product and reconstructing gives at any selection of snapshots, when the longtime mean is removed, the best approximation of that rank, exact when all modes are kept. '
 'The result does not depend on the number of processes.',
 ['inputs', 'configurations'],
 'all real data, weights, mean types, mode counts, splits into data sets and process counts',
 'The POD tests need an absent data file.',
 [PB, PS, PU],
 [('snapshot eigenproblem', PS + ':fit'), ('projection and reconstruction', PU)],
 ['energies, mode, coefficient and reconstruction files'])

prop('C10', 'Distributing, reducing and storing arrays in parallel loses and reorders nothing',
 'For any array, axis and number of processes, distribution gives each process a consecutive slice, slices are balanced to within one element, and together they are the array; the global sum equals the sum over processes and is the same on all; the global variance, mean and count equal those of the whole data. '
 'An array written collectively from consecutive slices of any sizes, including empty ones, along any axis, with any element type and memory layout, is a valid array file that plain readers load as the whole array, also when it replaces a longer file. '
 'A collective read along any axis, with given or default counts, of a file in either storage order gives each process its slice.',
 ['inputs', 'configurations', 'schedules'],
 'all arrays, element types, axes, slice sizes and process counts',
 'The two stable parallel tests write and read one double array along axis 0 on two processes.',
 [PAR],
 [('block distribution', PAR + ':_blockdist'), ('collective write and read', PAR + ':npy_save/npy_load'), ('moment merging', PAR + ':pvar'), ('reduction', PAR + ':allreduce'), ('process grid', PAR + ':create_subcomm')],
 ['arrays returned to every process and files read back by plain numpy'])

prop('C11', 'Weights: variance normalization and geographic quadrature',
 'Normalizing weights divides the weights of each variable by the variance of that variable over all times and points, computed over the whole data in serial and in parallel alike, so that rescaling one variable of the data does not change a decomposition that normalizes; the weights passed by the user are not modified. '
 'The geographic weights are non-negative, proportional to the squared radius and the cosine of latitude, symmetric about the equator, equal for all variables and all longitudes, and have the layout of a snapshot.',
 ['inputs', 'configurations'],
 'all data, weights, variables, grid sizes, radii and process counts',
 'The stable tests use one data set, one grid and uniform or geographic weights, serially, and compare extrema of modes.',
 [W, PAR, B, PB],
 [('variance normalization', W + ':apply_normalization'), ('quadrature', W + ':geo_trapz_2D/geo_trapz_3D')],
 ['returned weights, saved weights, energies'])

prop('C12', 'Computations neither disturb their inputs, their results, nor each other',
 'Fitting, computing coefficients, reconstructing, checking orthogonality, loading modes and plotting leave the arrays and weights passed in, the working directory and the previously saved result files (other than those the call documents it writes) unchanged, and an array loaded from results can be modified without changing the files. '
 'Repeating a fit, on the same or a new object, or interleaved with fits of other data by other objects into other folders, gives the same results, and a fit into a folder that holds results of an earlier fit of the same layout replaces them completely.',
 ['histories', 'inputs'],
 'all sequences of fits, post-processing calls and loads in one process',
 'Each test runs one fit into a fresh folder and does not look at its inputs afterwards.',
 [B, ST, SM, SU, PP, PB, PU, W],
 [('working on copies', ST + ':_get_block'), ('result folders', B + ':_initialize'), ('file loading', PP + ':get_data_from_file')],
 ['inputs and result-file digests before and after each call'])

prop('C13', 'What a fit saves is what it computed, and can be reloaded',
 'After a fit, the saved energies, confidence bounds, frequencies, weights, longtime mean and parameters equal those the object reports, one mode file exists per frequency with the shape of space, variables and kept modes, and loading by frequency index or all together returns each frequency in its place. '
 'The folder name and the saved parameters identify block length, overlap in snapshots and number of blocks, and reported sizes (snapshots, points, variables, frequencies, blocks, modes) agree with the data and the definition of segmentation. '
 'Post-processing from the saved folder alone, in another process, gives the same answers as through the object.',
 ['inputs', 'configurations', 'histories'],
 'all data, parameters and later sessions',
 'Tests load modes of a single frequency of one fit; other saved quantities are not compared.',
 [B, ST, SU, PP],
 [('saving', B + ':_store_and_save'), ('loading', PP + ':get_modes_at_freq/get_all_modes')],
 ['result folder, object attributes'])

prop('C14', 'Frequencies are right, and energy appears at the frequency of the signal',
 'The frequency axis is the discrete Fourier frequency axis of a block for the given time step: non-negative up to Nyquist for real data, all frequencies with the usual signs for complex data, and all frequencies from zero upwards when the full spectrum is requested. '
 'Looking up a frequency returns the nearest one on the axis and its index. '
 'A standing or travelling oscillation with a frequency on the axis concentrates its energy at that frequency, with the right amplitude, sign and spatial pattern, for any time step, block length and overlap.',
 ['inputs', 'configurations'],
 'all time steps, block lengths, frequencies, phases and patterns',
 'Tests look up one frequency of a fixed data set with an even block length.',
 [B, PP, ST],
 [('frequency axis', B + ':get_freq_axis'), ('lookup', PP + ':find_nearest_freq')],
 ['frequency axis, energies, modes'])

prop('C15', 'Meaningless requests are refused, meaningful limits are accepted',
 'Block lengths below four, fewer than two blocks, an overlap leaving no new snapshot, weights of the wrong size, an unknown mean type, data sets of different spatial shape, contradictory storage options, reconstruction before coefficients, unknown time selections, norms, formats and coordinate systems are refused with an error, serially and on every process in parallel, and no energies or modes are stored for them. '
 'The limiting valid cases (block length four, exactly two blocks, overlap leaving one new snapshot, one mode, one space point per process or fewer) are computed.',
 ['inputs', 'configurations'],
 'all invalid parameter combinations and all limiting valid ones',
 'The stable tests contain no check of refusals.',
 [B, SU, PU, PP, ER, IO, RD],
 [('parameter checks', B + ':__init__/_initialize/define_weights/select_mean'), ('other checks', PP + ', ' + ER + ', ' + IO)],
 ['exceptions raised, files written'])

prop('C16', 'Error norms and nearest-coordinate lookups are mathematically right',
 'The reported l1, l2 and maximum errors, absolute and relative, are the mean-normalized (for l1 and l2) norms of the pointwise error, relative to the magnitude of the reference, for arrays of any shape; the h1 error is the time-step weighted root of the summed squared difference of time derivatives; all are zero for equal arrays, and absolute ones are symmetric and scale with the data. '
 'The coordinate lookup returns in each direction the index and value of the grid coordinate nearest to the request. '
 'Energy spectra of a signal are those of its Fourier coefficients.',
 ['inputs'],
 'all arrays, shapes, norms, grids and requests',
 'Tests evaluate the norms on one pair of arrays from an absent file.',
 [ER, PP],
 [('norms', ER), ('lookup', PP + ':find_nearest_coords'), ('spectrum', PP + ':compute_energy_spectrum')],
 ['return values'])

prop('C17', 'Emulation scales reversibly, trains on the right windows, predicts in place',
 'Scaling coefficients and undoing it returns the original for every normalization and for real and complex data, scaled values have magnitude at most one (real and imaginary part separately) under both maximum normalizations, and inputs are not modified. '
 'Training sequences pair the successive input windows of consecutive snapshots (all of them, except possibly the very last admissible one) with the output window that starts the requested horizon after it, in order, without reading beyond the data. '
 'Inference copies the initial snapshots, fills each following window with the output of the trained network for the window of true snapshots just before it, real and imaginary parts by their own networks, and covers the whole record for any record length.',
 ['inputs', 'configurations'],
 'all coefficient matrices, normalizations, window lengths, horizons and record lengths',
 'The emulation tests need an absent data file and compare one trained run.',
 [EB, EN],
 [('scaling', EB), ('windows and inference', EN)],
 ['scaled data, sequences, inputs the network receives, predictions'])

prop('C18', 'Configuration and data files are read back as written',
 'Reading a configuration file returns every required and optional parameter with the value and type written, whatever their order and however many there are, and optional ones may be absent. '
 'Reading a data file returns all arrays with the values, shapes and types written, for every supported format, chosen by extension in any letter case or by explicit request, and refuses other formats.',
 ['inputs', 'configurations'],
 'all configurations and data files',
 'Tests read four fixed configuration files.',
 [IO],
 [('configuration', IO + ':read_config'), ('data', IO + ':read_data')],
 ['returned values'])

prop('C19', 'Plots show exactly the requested quantity and are saved where requested',
 'Plots of modes, slices, tracers, data, time series, coefficients, spectra and energies draw the values of the requested variable, mode, snapshot, slice and nearest frequency or coordinate against the given axes, with space axes matched to the data dimensions, optionally shifted or split in real and imaginary parts, and draw one figure for each requested combination. '
 'Each figure is saved once, at the requested path under the requested name extended by the indices it shows, and drawing changes neither data, coordinates nor files.',
 ['inputs', 'configurations'],
 'all data, modes, index selections, coordinates and options',
 'The stable plotting test only checks that calls do not raise.',
 [PP, B],
 [('plotting', PP)],
 ['arrays handed to the plotting library, figures saved'])

prop('C20', 'Parallel post-processing gives the serial result for any number of processes',
 'Projection and convolution coefficients, reconstructions, orthogonality checks, POD fits, POD coefficients and POD reconstructions computed on any number of processes, including more than there are points to distribute, complete on all processes whatever their relative speed, and give on every process and in every file the same result as the serial computation. '
 'Files are complete and readable by every process as soon as the call returns, and a post-processing call may be made directly after a fit and with a different number of processes than the fit.',
 ['schedules', 'inputs', 'configurations'],
 'all process counts, interleavings (delays at communication and file operations) and inputs',
 'The parallel tests need absent data files and otherwise use two processes without delays.',
 [SU, PU, PB, PS, PAR],
 [('distribution of data, modes and weights along one axis', PAR), ('reductions of inner products', SU + ':_oblique_projection, compute_coeffs_conv'), ('barriers around file creation', SU)],
 ['per-process results, files as seen by every process'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
