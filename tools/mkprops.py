#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
P = 'atooms/postprocessing/'
props = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": [P + f for f in files],
                              "mechanism": [{"name": n, "where": P + w} for n, w in mech],
                              "observe_at": observe or [],
                              "hook_needed": None}})


prop("C01", "Time-correlation averages count every admissible pair exactly once",
     "The three general averagers of the package (auto-correlation of a series, and <f(x(t0+t), x(t0))> with or without per-entry offsets) return the sorted distinct elapsed times of the admissible pairs of entries, and for each of them the arithmetic mean of the contributions of exactly those pairs. The admissible pairs of a grid entry are (first, first+i) for first = offset, offset+stride, offset+2*stride, ... as long as first+i is an existing entry, the last one included (offset 0 when the grid has no offsets); pairs with the same elapsed time, also from different grid entries, are averaged together. The contribution is f(later entry, earlier entry), and for the auto-correlation the product of the two deviations from the average of the whole series.",
     ["inputs"], "all series, time lists (repeated, non-uniform), grids, offsets, strides >= 1 and functions f",
     "Tests only run msd and intermediate scattering on one trajectory file, with a uniform time list; the averagers on non-uniform time lists, with strides and offsets, are never compared with a definition.",
     ["correlation.py"], [("acf", "correlation.py:acf"), ("gcf", "correlation.py:gcf"), ("gcf_offset", "correlation.py:gcf_offset")],
     ["return values of acf, gcf, gcf_offset"])

prop("C02", "Two-time observables equal their definitions",
     "Averaged over particles and over the time origins selected by the number of origins requested: the mean square displacement is the squared displacement of unfolded positions, the velocity autocorrelation is the scalar product of velocities, the non-Gaussian parameter is d<dr^4>/((d+2)<dr^2>^2) - 1 computed origin by origin (0 at zero elapsed time), the self overlap is the fraction of particles displaced by less than a (unfolded), and the collective overlap is the number of (later, earlier) pairs of particles closer than a, per particle and without periodic images. The reported times are the elapsed step numbers times the time step, sorted, one value per time. A default time grid is used when none is given: linear from 0 to the total time (mean square displacement), to 3/4 of it (non-Gaussian parameter) or to 1/10 of it (velocities).",
     ["inputs", "configurations"], "all trajectories (2 or 3 dimensions, any number of particles and frames, any steps and time step), cutoffs a and origin settings",
     "Tests check one number of the msd of one file; the velocity, non-Gaussian and overlap classes have no value test at all.",
     ["msd.py", "vacf.py", "alpha2.py", "qt.py", "correlation.py"],
     [("MeanSquareDisplacement._compute", "msd.py:MeanSquareDisplacement._compute"), ("VelocityAutocorrelation._compute", "vacf.py:VelocityAutocorrelation._compute"),
      ("NonGaussianParameter._compute", "alpha2.py:NonGaussianParameter._compute"), ("overlaps", "qt.py:SelfOverlap._compute, CollectiveOverlap._compute")],
     ["grid and value after compute()"])

prop("C03", "Requested times map to the nearest available frame separations",
     "The time grid used internally is made of pairs (offset, separation), one for each distinct time, sorted by time, such that the frames at offset and offset+separation exist and their step difference is an available one; without offsets every offset is zero, with offsets it is less than the block size. Every requested time (in units of the time step, rounded to the nearest step) is represented by the available step difference nearest to it, and every selected step difference is the nearest one to some requested time (ties go to the smaller). The nearest-match filter itself returns the sorted entries selected by the templates, without repetitions unless they are asked for.",
     ["inputs", "configurations"], "all lists of steps, block sizes, time steps and requested time grids",
     "Tests only see the grid indirectly on one or two files with uniform or logarithmic blocks.",
     ["helpers.py"], [("setup_t_grid", "helpers.py:setup_t_grid"), ("_templated", "helpers.py:_templated")],
     ["return value of setup_t_grid"])

prop("C04", "Number of time origins sets the stride between origins",
     "All origins (a negative number) uses every block of frames as time origin; a number n > 1 uses the largest stride that is a whole number of blocks and not larger than (number of blocks)/n blocks; n = 1 uses a single origin (stride = number of frames); a fraction f in (0,1) uses a stride of floor(1/f) blocks; when unspecified, single-frame blocks use floor(frames*particles/40000) frames and longer blocks one block. In every case the stride is at least one block (one frame), never exceeds the number of frames, and unless a single origin is requested or the trajectory is shorter, it is a multiple of the block size. Numbers given as text, as on the command line, mean the same as the numbers, except for the text '1.0', a fraction of one, which uses all origins.",
     ["inputs", "configurations"], "all numbers of frames, block sizes, particle numbers and origin settings (integer, fractional, textual, absent)",
     "Tests use -1, 0.2 and the default on trajectories without blocks.",
     ["helpers.py"], [("adjust_skip", "helpers.py:adjust_skip")], ["skip attribute of correlation objects"])

prop("C05", "Linear and logarithmic grids",
     "A linear grid with an integer n has n evenly spaced points from the lower to the upper bound, both included (just the lower bound for n=1); with a floating point spacing it is lower + i*spacing for all i >= 0 that do not exceed the upper bound. A logarithmic grid between positive bounds has n points: the lower bound followed by lower*(upper/lower)^(j/n) for j=2..n, hence increasing and ending at the upper bound. A logarithmic grid from zero starts at zero and has n points, in constant ratio once shifted by one.",
     ["inputs"], "all bounds, spacings and numbers of points",
     "There is no test of the grids.",
     ["helpers.py"], [("linear_grid", "helpers.py:linear_grid"), ("logx_grid", "helpers.py:logx_grid")], ["return values"])

prop("C06", "Curve analysis: crossings, extrema, linear fits and derived times",
     "The crossing finder returns the linear interpolation, between two consecutive points, of the first change of side of the data with respect to the target (and the index of the second point), or nothing when the data never cross. The extremum finder returns the vertex of the parabola through the smallest (largest) point and its two neighbours, or the point itself at a boundary; the first one wins among equal ones. The linear fit returns the least-squares slope and intercept, and the analyses derived from them are: relaxation time = first crossing of 1/e of the initial value for each wave-number (1/e for the self overlap), diffusion coefficient = slope of the mean square displacement above sigma^2 divided by 2d, diffusive time = crossing of sigma^2, peak time and height = maximum.",
     ["inputs"], "all data sets (any length, repeated values, flat data) and targets",
     "One parabola is tested; crossings and fits only through a few reference numbers with loose tolerance.",
     ["helpers.py", "fkt.py", "msd.py", "qt.py", "alpha2.py", "chi4t.py"], [("feqc", "helpers.py:feqc"), ("ifabsmm", "helpers.py:ifabsmm"), ("linear_fit", "helpers.py:linear_fit"), ("_extract_tau", "fkt.py:_extract_tau"), ("analyze", "msd.py:MeanSquareDisplacement.analyze")],
     ["return values", "analysis dictionary"])

prop("C07", "Wave-vectors fit the cell and the requested shells",
     "Every wave-vector used is an integer combination of the reciprocal vectors 2*pi/L of the (2d or 3d, possibly elongated) cell. Before at most nk of them are drawn at random without repetition, the group of a grid value contains all and only those whose norm differs from that value by less than the tolerance and fits no earlier grid value, the search extending up to the largest value plus its tolerance and the tolerance of a group being enlarged by factors 1.2 until no group is empty; the wave-number reported for a group is the average norm of its wave-vectors. Wave-vectors assigned by the user are reported back as the nearest vectors compatible with the cell, in the same groups and order, and the draw depends only on the cell, the grid and the options, not on the selected particles or on earlier random draws.",
     ["inputs", "configurations"], "all cells (2d, 3d, elongated), wave-number grids (unsorted, overlapping), tolerances and nk",
     "Tests check a few cubic cells; whether vectors are missed, repeated or mis-assigned is never checked.",
     ["fourierspace.py"], [("_setup_grid_sphere", "fourierspace.py:FourierSpaceCorrelation._setup_grid_sphere"), ("_setup", "fourierspace.py:FourierSpaceCorrelation._setup"), ("kvectors", "fourierspace.py:FourierSpaceCorrelation.kvectors"), ("iterators", "fourierspace.py:_sphere, _disk")],
     ["kvectors and kgrid attributes, report()"])

prop("C08", "Structure factor equals its definition",
     "For every wave-number the structure factor is the real part of the average, over the sampled frames and the wave-vectors of the group, of rho_0(k) rho_1(k)* minus, when a weight field is attached, the product of the averages of rho_0(k) and rho_1(k)*, divided by sqrt(N_0 N_1), where rho(k) is the sum over the selected particles of weight*exp(i k.r) (weight 1 without field) and N the average number of selected particles. When the cell of the last frame differs from that of the first one and the wave-vectors are not assigned by the user, the wave-vectors of each frame are those of its own cell. The fast implementation returns the same values as the legacy one for one or two groups of particles, with or without weights, and in 2 or 3 dimensions.",
     ["inputs", "configurations"], "all configurations, wave-vector groups, weights, numbers of frames and dimensions (2d, 3d)",
     "Tests compare a few reference numbers for one file, with at most a few digits, and never a cross term with weights or the fast version with two groups.",
     ["sk.py", "fourierspace.py", "fourierspace.f90"], [("StructureFactorLegacy._compute", "sk.py:StructureFactorLegacy._compute"), ("StructureFactorFast._compute", "sk.py:StructureFactorFast._compute"), ("expo_sphere", "fourierspace.py:expo_sphere"), ("sk_bare", "fourierspace.f90:sk_bare")],
     ["grid and value after compute()"])

prop("C09", "Self intermediate scattering function equals its definition",
     "For every wave-number and elapsed time the self intermediate scattering function is the average of the real part of exp(i k.(r(t0+t) - r(t0))) over the wave-vectors of the group, the selected particles and the time origins (offset, offset+stride, ...) for which the later frame exists; it is 1 at zero time and never exceeds 1 in magnitude, with or without normalization. The legacy and fast implementations give the same values in 2 and 3 dimensions, whatever the number of particles and the memory allowed for tabulation. Times are the step differences times the time step, sorted; time zero is added to the requested grid if missing and normalization is on.",
     ["inputs", "configurations"], "all trajectories, wave-vector groups, time grids, origin settings, particle numbers (across block boundaries) and tabulation memory",
     "Tests compare a few relaxation times with tolerance 4 percent.",
     ["fkt.py", "fourierspace.py", "fourierspace.f90"], [("Legacy._compute", "fkt.py:SelfIntermediateScatteringLegacy._compute"), ("Fast._compute", "fkt.py:SelfIntermediateScatteringFast._compute"), ("kernels", "fourierspace.f90:fskt_kernel_3d, fskt_kernel_2d"), ("expo_sphere", "fourierspace.py:expo_sphere")],
     ["grid and value after compute()"])

prop("C10", "Coherent intermediate scattering function equals its definition",
     "For every wave-number and elapsed time the coherent intermediate scattering function is the average of the real part of rho_0(k,t0+t) rho_1(k,t0)* over the wave-vectors of the group and the time origins for which the later frame exists, rho being the sum of exp(i k.r) over the selected particles of the frame. Normalized values are divided by the first (zero time) value of the same wave-number; the non-normalized ones are available too and are returned when normalization is off. It holds in 2 and 3 dimensions, for one group of particles or two, also of different and changing numbers of particles.",
     ["inputs", "configurations"], "all trajectories, wave-vector groups, time grids and origin settings",
     "Tests compare a few relaxation times of one file.",
     ["fkt.py", "fourierspace.py"], [("IntermediateScattering._compute", "fkt.py:IntermediateScattering._compute"), ("IntermediateScatteringBase.__init__", "fkt.py:IntermediateScatteringBase.__init__")],
     ["grid, value and value_nonorm after compute()"])

prop("C11", "Radial distribution function counts each pair once and normalizes to ideal gas",
     "The radial distribution function at the center of each bin is the number of pairs of particles at minimum-image distance within the bin, averaged over the sampled frames, divided by the number expected for an ideal gas in the same shell (area in 2d, volume in 3d) at the same density, for a fixed number of particles in a fixed cell; each unordered pair counts once for one group of particles, each ordered pair for two groups. Distances are reported up to half the shortest side of the cell, or up to rmax when given. The legacy and the fast implementation, with or without linked cells, give the same values.",
     ["inputs", "configurations"], "all configurations in periodic orthorhombic cells of fixed size (2d, 3d), bin widths and numbers of particles",
     "Tests compare a handful of values of one file; nothing checks the counting on arbitrary positions or the agreement with linked cells.",
     ["gr.py", "realspace.f90", "linkedcells.py"], [("RadialDistributionFunctionLegacy._compute", "gr.py:RadialDistributionFunctionLegacy._compute"), ("RadialDistributionFunctionFast._compute", "gr.py:RadialDistributionFunctionFast._compute"), ("kernels", "realspace.f90:gr_self_c, gr_distinct_c, gr_neighbors_self_c, gr_neighbors_distinct_c"), ("pairs", "gr.py:pairs_newton_hist, pairs_hist, gr_kernel")],
     ["grid and value after compute()"])

prop("C12", "Compiled real-space kernels: nearest images, exact counts, no stray writes",
     "Each compiled distance kernel applies the nearest periodic image independently along each direction (for coordinates that differ by less than 3/2 of the side), leaves its inputs unchanged, and never reads or writes outside the arrays it is given. The histogram kernels set every bin to the exact number of pairs (i<j for one set, all pairs for two, listed neighbours for the neighbour-list variants) with distance in [(b-1)dr, b dr), ignore larger distances, and set the bin centers to (b-1/2) dr. The neighbour finder returns all and only the particles closer than the cutoff for their species, and the self-overlap kernel the number of particles displaced by less than a.",
     ["inputs"], "all arrays of positions, box sides, bin widths, histogram sizes, neighbour lists, cutoffs",
     "The kernels are only run through two or three files; out-of-bounds writes do not show up in tests.",
     ["realspace.f90"], [("kernels", "realspace.f90:gr_self_c, gr_distinct_c, gr_neighbors_self_c, gr_neighbors_distinct_c, neighbors, pbc, self_overlap, bond_angle, on_surface_c")],
     ["histograms, neighbour lists"])

prop("C13", "Linked cells never miss or repeat a neighbour",
     "For positions inside the periodic cell and at least three subcells along each side, every pair of particles closer than the cutoff is listed: exactly once in total (by one of the two) for one set of particles, and exactly once for each particle of the first set when two sets are given. No particle is listed twice for the same particle, and none lists itself when one set is given. Along non-periodic directions the subcells do not wrap around, and when the cell changes the subcells are set up anew.",
     ["inputs", "configurations"], "all positions in the cell, sides, cutoffs not larger than a third of the side, 2d and 3d, periodic or not",
     "One test compares with a brute-force count for one random configuration.",
     ["linkedcells.py"], [("LinkedCells.compute", "linkedcells.py:LinkedCells.compute"), ("LinkedCells._map", "linkedcells.py:LinkedCells._map")],
     ["return value of compute()"])

prop("C14", "Bond-angle distribution",
     "The bond-angle distribution counts, over the sampled frames, every ordered pair of distinct neighbours of every central particle of the first group (neighbours: particles of the second group at non-zero nearest-image distance smaller than the cutoff of the two species), binned by the angle they form at the center, in bins of width dtheta starting from 0. It is reported at the bin centers, normalized so that its sum times dtheta is 1. The cutoffs can be given as a matrix with species in alphabetical order.",
     ["inputs", "configurations"], "all configurations, species, cutoffs and bin widths",
     "One test compares the position of the peaks for one file.",
     ["ba.py", "realspace.f90"], [("BondAngleDistribution._compute", "ba.py:BondAngleDistribution._compute"), ("bond_angle", "realspace.f90:bond_angle"), ("neighbors", "realspace.f90:neighbors")],
     ["grid and value after compute()"])

prop("C15", "Correlations see exactly the selected particles of every frame",
     "The arrays a correlation function works on hold, for every frame of the trajectory in order, the coordinates (positions, velocities, species, unfolded positions) of exactly the particles kept by the attached filter, in their order; with two filters the first and the second group are those of the first and of the second filter, with none or one both groups are the same. Filtering by species keeps the particles of that species and filtering by condition those for which the condition is true; neither modifies the original frame. When the center of mass is to be fixed, it is that of the whole system before filtering, and no more filters than the number of bodies are accepted.",
     ["inputs", "configurations"], "all trajectories, filters, numbers of bodies and phase-space variables",
     "Tests filter by species on one or two files.",
     ["correlation.py", "helpers.py", "filter.py"], [("_setup_arrays_onebody", "correlation.py:Correlation._setup_arrays_onebody"), ("_setup_arrays_twobody", "correlation.py:Correlation._setup_arrays_twobody"), ("filter_species", "helpers.py:filter_species"), ("Filter", "filter.py:Filter"), ("add_filter", "correlation.py:Correlation.add_filter")],
     ["arrays used by compute()"])

prop("C16", "Partial correlations cover each species or pair of species once",
     "A partial correlation holds one correlation per species (one-body) or per ordered pair of species (two-body), each restricted to the particles of its own species (first and second of the pair), built with the arguments given and tagged with the species. Computing evaluates each of them, except that for functions invariant under exchange the pair (b,a) takes grid, values and analysis of the pair (a,b) computed before. Weights and output paths set on the partial correlation reach every member.",
     ["inputs", "configurations"], "all lists of species, correlation classes and arguments",
     "Tests use two species and check some of the members.",
     ["partial.py"], [("Partial.__init__", "partial.py:Partial.__init__"), ("Partial.compute", "partial.py:Partial.compute"), ("Partial.do", "partial.py:Partial.do")],
     ["partial dictionary"])

prop("C17", "Weights are the chosen field of the selected particles",
     "An attached weight is, frame by frame, the value of the chosen particle field of exactly the particles selected by the filters of the correlation (first and second group), taken from the trajectory itself or copied particle by particle from the same frame of another trajectory. With fluctuations, the average over frames of the mean field of the group is subtracted from every value of the group. A missing field, or another trajectory with different steps, is refused with an error; giving neither field nor trajectory attaches nothing.",
     ["inputs", "configurations"], "all trajectories, fields, filters and options",
     "Tests compare two weighted structure factors.",
     ["correlation.py", "helpers.py"], [("add_weight", "correlation.py:Correlation.add_weight"), ("_setup_weight_onebody", "correlation.py:Correlation._setup_weight_onebody"), ("_setup_weight_twobody", "correlation.py:Correlation._setup_weight_twobody"), ("_subtract_mean", "correlation.py:_subtract_mean"), ("copy_field", "helpers.py:copy_field")],
     ["structure factor with weights"])

prop("C18", "Output files hold the results and are rewritten only when needed",
     "The file written contains one row per grid point: (x, value) for functions of one variable, and (x, y, value(x,y)) with the first variable running slowest for functions of two; its name is the output template filled with the properties of the correlation. With the update option, an output file strictly newer than the trajectory is read back and nothing is computed or written (one-variable functions then have the grid and values of the file); otherwise the function is computed, analyzed and written, in this order. For partial correlations everything is recomputed as soon as one of the files needs it.",
     ["inputs", "histories"], "all grids, values, templates and orders of modification times",
     "Tests check that files exist for one or two functions.",
     ["correlation.py", "partial.py"], [("write", "correlation.py:Correlation.write"), ("read", "correlation.py:Correlation.read"), ("do", "correlation.py:Correlation.do"), ("need_update", "correlation.py:Correlation.need_update"), ("Partial.do", "partial.py:Partial.do")],
     ["output files"])

prop("C19", "Dynamic susceptibility is the variance of the total overlap",
     "For every entry of the time grid the dynamic susceptibility is the variance, over the time origins (offset, offset+stride, ...) for which the later frame exists, of the number of particles displaced by less than a, divided by the number of particles. The accompanying average and variance functions hold the first and the second moment of that number at the same times. The optimized implementation gives the same values.",
     ["inputs", "configurations"], "all trajectories of unfolded positions, time grids, origin settings and cutoffs",
     "One test compares two estimates with tolerance 0.1.",
     ["chi4t.py", "qt.py", "realspace.f90"], [("Chi4SelfOverlap._compute", "chi4t.py:Chi4SelfOverlap._compute"), ("Chi4SelfOverlapOptimized._compute", "chi4t.py:Chi4SelfOverlapOptimized._compute")],
     ["grid, value, average, variance"])

prop("C20", "The programming interface passes every option to the computation",
     "Each function of the high-level interface computes its correlation for every input file, with the options given by the user (grids, cutoffs, number of origins, tolerances, bin widths) forwarded to it unchanged, and then the partial correlations (except for the spectral density) when the system has several species and they are not disabled (the intermediate scattering functions and the dynamic susceptibility compute the total only if it is requested or there is one species; requesting the total of the latter disables its partial correlations). A time grid starts with zero followed by a linear or logarithmic grid from the time step to the maximum time, or to the given fraction of the total time; a list of wave-numbers given as text is used as such. First and last frame options select whole blocks, a filter disables partial correlations, and the legacy and fast options select the corresponding implementations.",
     ["inputs", "configurations"], "all combinations of options, numbers of species and of input files",
     "Each interface function is called once with default options, and no result is checked.",
     ["api.py"], [("interface functions", "api.py:gr, sk, ik, msd, vacf, fkt, fskt, chi4qs, alpha2, qst, qt, ba"), ("_get_trajectories", "api.py:_get_trajectories"), ("_compat", "api.py:_compat")],
     ["arguments received by the correlation classes"])

prop("C21", "Spectral density equals its definition",
     "In three dimensions the spectral density at each wave-number is the average over the sampled frames and the wave-vectors of the group of |sum_p m(k,R_p) exp(i k.r_p)|^2 divided by the average volume of the cell. The form factor is m(k,R) = 4*pi*(sin(kR) - kR*cos(kR))/k^3, with k the norm of the wave-vector and R the radius of the particle in that frame.",
     ["inputs"], "all configurations, radii and wave-vector groups",
     "One test runs the interface function without looking at the result.",
     ["ik.py"], [("SpectralDensity._compute", "ik.py:SpectralDensity._compute")], ["grid and value after compute()"])

prop("C22", "Inputs are not modified and computing again gives the same result",
     "Computing a correlation function does not modify the positions, velocities, species and cell of the frames of the trajectory, nor the lists of times and wave-numbers given by the user. Computing it again, on a new object with the same trajectory, or on the same object when the frames are regularly spaced in time or in blocks, gives the same values at the same grid points: nothing is accumulated from earlier computations. The distance, overlap and Fourier kernels do not modify the arrays they are given.",
     ["histories", "inputs"], "all sequences of computations on the same trajectory and grids",
     "Every test builds a new object on a trajectory read from file and computes once.",
     ["correlation.py", "fourierspace.py", "chi4t.py", "ba.py", "realspace.f90"], [("_setup_arrays", "correlation.py:Correlation._setup_arrays"), ("_setup", "fourierspace.py:FourierSpaceCorrelation._setup")],
     ["frames and grids after compute()", "value after a second compute()"])

with open('/verif/properties.jsonl', 'w') as fh:
    for p in props:
        fh.write(json.dumps(p) + '\n')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, s)
print(len(props))
