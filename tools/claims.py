BASE = ('Every obligation generated from the current source of the functions under contract is discharged for all inputs '
        '(unbounded); floats as reals, integers unbounded, models of numpy and of the trajectory package assumed (listed in the '
        'evidence). A concrete companion compares the running code with an independent oracle on generated inputs (bounded).')
CLAIMS = {
    'C01': ('proof', BASE),
    'C02': ('proof', BASE),
    'C03': ('proof', BASE),
    'C04': ('proof', BASE),
    'C05': ('proof', BASE),
    'C06': ('proof', BASE),
    'C07': ('proof', BASE + ' Termination of the enlargement of the tolerances is not proved; random.sample is assumed to draw distinct elements; report() is checked by the companion only.'),
    'C08': ('proof', BASE + ' Wave-vectors are abstract here (their contract is C07); positions unwrapped to the definition only through the exponentials.'),
    'C09': ('proof', BASE + ' Wave-vectors are abstract here (their contract is C07). That the average is 1 at time zero and at most 1 in magnitude follows from the proved definition, and is not a separate obligation.'),
    'C10': ('proof', BASE + ' Wave-vectors are abstract here (their contract is C07).'),
    'C15': ('proof', BASE),
    'C16': ('proof', BASE),
    'C17': ('proof', BASE),
    'C18': ('proof', BASE + ' The punctuation of the name of the output file (_output_file) is checked on concrete templates only.'),
    'C19': ('proof', BASE),
    'C11': ('proof', BASE + ' The frames have the same numbers of particles and the same cell, periodic in all directions, in two and three dimensions, with the default grid. The compiled kernels are their contract (proved in C12) and the neighbours of the linked cells theirs (C13); numpy.histogram is a model.'),
    'C12': ('proof', BASE + ' The kernels are read from the Fortran source at every run, translated mechanically (vc/fortran.py) and verified like the rest, with every index within its bounds as obligations; positions on the same side (zero displacement) take either sign. The finders of lists for all particles (neighbors_list and variants, unused by the package) are checked by the companion only.'),
    'C13': ('proof', BASE + ' The cell has at least three subcells along each side; the neighbours of one set are those with newton=True (the default). Two calls in a row on one object stand for any history: the state depends on the last set-up only. That a pair closer than the cutoff is in adjacent subcells is proved by lemmas on exact arithmetic.'),
    'C14': ('proof', BASE + ' The cell may change and the numbers of particles too; the kernels are their contracts, proved on the Fortran source in C12; the default cutoffs (first minimum of the g(r)) are abstract.'),
    'C20': ('proof', BASE + ' The correlation classes, Partial, Filter and the grids are their own contracts (recorded calls); a maximum time longer than the trajectory may be capped at its length or not; trajectories are opened and sliced by atooms (assumed).'),
    'C22': ('proof', BASE + ' The contracts of the correlation functions (C02, C08 to C11, C14, C19, C21) are proved again for a second computation on the object left by the first one, with the inputs frozen; the wave-vectors are put back in between as FourierSpaceCorrelation.compute does (proved), and so is the grid, where _compute starts from the one requested and reports another (C02, C11): that the reported times are mapped to themselves is checked by the companion. The frames are shown unchanged by _setup_arrays, and the arrays given to the kernels by the kernels.'),
    'C21': ('proof', BASE + ' Wave-vectors are abstract here (their contract is C07).'),
}
NOT = {}
