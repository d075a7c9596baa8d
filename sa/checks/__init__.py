"""what each check does (EXPLAIN), by which method (TECH), and why some properties have none (NA)"""
NF = 'abstract interpretation of the source to normal-form terms, compared with the terms of a reference function'
TECH, EXPLAIN, NA = {}, {}, {}
ALG = ('Routines are interpreted abstractly for arbitrary array lengths and contents (loops become closed forms); the resulting term per observable '
       'component is compared with that of a reference function written from the property. Holds for all inputs in exact arithmetic. ')
def claim(id_, text, tech=NF):
    TECH[id_], EXPLAIN[id_] = tech, text
claim('C01', ALG + 'Decided: for every public query the factor between internal and returned values, for all unit settings (the units are symbols).')
claim('C02', ALG + 'Decided: all settings after every setter (also after a rejected one), the unit table, and every conversion helper.')
claim('C03', ALG + 'Decided: the selection guard, its place before every effect, and the use of the one selection for index lists, sizes and radii.')
claim('C04', ALG + 'Decided: convergence flag, stopping condition, rejection and NaN conversion.')
claim('C05', 'Every access inside a prange loop (callees included, aliases through slices and arguments resolved by abstract interpretation) is shown to go to '
      'memory owned by the iteration, by the thread, or by a running count that is strictly increasing over the iterations that reach it; scalars carried into an iteration and '
      'scratch rows fewer than threads are reported. Holds for every thread count and schedule.',
      'ownership analysis of the memory accesses in parallel loops on abstractly interpreted code')
claim('C06', ALG + 'Decided: every per-object result is a term over that object\'s particles only.')
claim('C07', ALG + 'Decided: for every file written by a dump its name, content, factor and layout, and the inverse when it is read.')
claim('C08', ALG + 'Decided: which axis and which ratio ends up in which output, from the eigenvector column to the catalogue field.')
claim('C09', ALG + 'Decided: models, parameter order, pinned parameters and tables.')
claim('C10', 'The caching module is interpreted abstractly: for an arbitrary state of the cache at each acquisition of the lock (ring of links with a summarised stretch, every '
      'position of the entry, full or not, one below the limit or further), each way through a cached call keeps ring, dictionary and limit consistent, touches shared state under the '
      'lock only and calls the user function without it; the symbolic keys of calls of every shape are unified, equal keys force equal arguments, dimensions included; cached '
      'functions read no setting, attribute or variable that can change, and nobody modifies their results.',
      'shape analysis of the cache structure under a lock invariant, unification of symbolic keys, purity and alias analysis of the cached functions')
claim('C11', ALG + 'Decided: the results and effects on the root and on the other processes, with the rank as a symbol. The group reader is analysed as 1 to 4 processes run it together: every '
      'collective call takes effect once each process has reached it, mismatching calls, roots, lengths, displacements and element types, processes that wait for one that has failed, and values '
      'only the root has are reported, and every process must end with all groups in the order of the files. Every public method of the Gadget class reaches the reader on all processes, with the same '
      'arguments, and no cache limited by one machine stands before a collective call.',
      'synchronous multi-process abstract interpretation; normal-form terms compared with a reference')
claim('C12', 'Over all functions of the package: every draw from a global generator is dominated by a seeding in the same call (or in every caller), every generator object has an '
      'explicit seed and does not outlive the call, clock / process / environment / hash / identity values flow into printed text only, directory listings are sorted before use.',
      'interprocedural taint and dominance analysis on the syntax tree')
claim('C13', ALG + 'Decided: per coordinate, the nearest-image rule of that axis in every wrapping routine.')
claim('C14', 'Every allocation and every opening in the package is followed along every way through its function (and through callers it is handed to, helpers it is passed to, with / try / '
      'finally, failed allocations, early returns): released exactly once, nothing used afterwards, lazily read parts of a file included. The buffers given to the eigen solver are compared, '
      'byte for byte, with what its interface requires.',
      'path-sensitive typestate analysis; symbolic buffer sizes against the LAPACK interface')
claim('C15', ALG + 'Decided: names and folders of every file that a public call writes.')
claim('C16', ALG + 'Decided: contents of every argument array, list and dictionary after the call equal those before.')
claim('C17', ALG + 'Decided: membership conditions, volumes, sums and kernel.')
claim('C18', ALG + 'Decided: for each format (binary 1 and 2, hdf5) and byte order, position, type, count and species of what is read for every field, block and header entry, over one or several '
      'files; particle IDs never pass through floating-point numbers; group catalogues over 1 to 4 files, some without groups or subhaloes.')
claim('C19', ALG + 'Decided: which objects enter the inventory, their index lists, sizes and radii, for both catalogues and both constructors.')
claim('C20', 'From every public function and every method of the public classes (the class of self known), over everything reachable: names are bound on every way through the '
      'function, attributes exist and are set by the constructor, calls fit the parameters, as many results are unpacked as returned on every way (rank conditions followed), constant table '
      'keys exist, numpy names exist in the installed numpy.',
      'name, attribute, arity and definite-assignment resolution over the call graph')
claim('C21', ALG + 'Decided: which option reaches which parameter of which algorithm step.')
claim('C22', ALG + 'Decided: tensor elements, centre of mass, mean velocity, total mass.')
claim('C23', ALG + 'Decided: number of particles per shell, normalisation, axis profiles handed to each shell, concatenation, and the placement of a drawn particle.')
NA['C25'] = ('a statement about the statistical error of random samples: the numbers depend on run-time data that no static argument bounds')
NA['C26'] = ('depends on the numerical behaviour of scipy.optimize on arbitrary data; nothing in the source of this repository decides it')
NA['C27'] = ('a crash point is a run-time event between writes by numpy.savetxt; the code has no marker of completeness, so the only static answer would be '
             'a redesign of the catalogue format, and a partial file is detected only by the run-time content of the files')
claim('C24', ALG + 'Decided: what every figure is drawn from (histogrammed values, profile curves, error bands, fitted model curves), the file each goes to, mass bins, medians and quantiles. '
 'The binning rules of matplotlib and the fit itself (scipy) are opaque.')
