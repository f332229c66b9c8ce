"""Oracle, reach beyond the tests, and cost, per property."""
NOTES = {
    'C01': ('the integer walk itself (exact continuous path); for changing cells the nearest image in the later cell in exact arithmetic.',
            'tests compare a few recorded trajectories; an unwrapping error needs a particular pair of images and a particular crossing in one cell shape.', 6),
    'C02': ('windows enumerated one by one from the displacement series.',
            'tests check array shapes; a window that is missing, doubled or paired with the next interval has the right shape.', 4),
    'C03': ('grid computed with `fractions.Fraction` from the decimal text of the inputs.',
            'rounding goes wrong for particular quotients (0.3/0.1) only.', 36),
    'C04': ('raw displacement minus plain mean over the framework set computed from the request.',
            'tests use one species assignment; errors need overlaps of selection and framework, orders, prefixes of names, still or many atoms.', 5),
    'C05': ('mass-weighted centre of the continuous molecule path on a grid.',
            'wrapping of a molecule over a boundary with unequal masses is one of thousands of placements.', 4),
    'C06': ('one route-independent reference for all routes (units, thinning, volume).',
            'tests check routes one by one, never against each other with thinning, units and types combined.', 6),
    'C07': ('stacked, respectively concatenated reference.',
            'tests repeat the same trajectory, so that a mix-up of trajectories is invisible.', 14),
    'C08': ('averages as sums in plain loops over the enumerated arrays.',
            'tests only look at shapes and types of estimators with random data.', 8),
    'C09': ('sample variance by definition; an independent reblocking model; integrality of resampled sums for the bootstrap.',
            'values are never tested, pairing of variances with intervals under thinning in particular.', 14),
    'C10': ('element-wise model, exact non-negative least squares for modelled variances, eigen-decomposition with clipping.',
            'tests contain one matrix of favourable shape; errors appear for particular eigenvalue orders and magnitudes.', 27),
    'C11': ('multivariate normal log density on a grid of lines; quadrature of the restricted posterior for chain moments.',
            'tests check that a fit returns something; a likelihood of the wrong data rows is invisible.', 10),
    'C12': ('conversions from CODATA constants; membership of each sample in the raw emcee chain; step counting.',
            'tests compare single numbers for three axes with intercept; axes, thinning, lengths and orders are combinatorial.', 9),
    'C13': ('bit-for-bit equality with the first run in a fresh process state, after every history.',
            'a leak of global state shows only after a particular earlier operation.', 26),
    'C14': ('a fresh analyzer on which only the last fit of the history is made.',
            'stale state shows only for particular orders of fits, reads and round trips.', 33),
    'C15': ('the original object: complete report and results of later operations.',
            'tests compare a few attributes after one round trip at one stage.', 30),
    'C16': ('model of a directory: path -> content; whole tree (names, bytes, types) compared after every operation, also when another process acts at any line of the save.',
            'name/dot combinations, obstacles and two-process races are histories, not single calls.', 31),
    'C17': ('after each fault: load raises, or returns the complete report of the saved analyzer; other files byte for byte.',
            'crash points cannot be produced by unit tests.', 49),
    'C18': ('exact byte count from the enumerated windows.',
            'needs limits on both sides of the exact need for each shape.', 3),
    'C19': ('frozen deep copies (bitwise) of all inputs, results from fresh inputs.',
            'aliasing shows only when an input is used again, in a particular order.', 10),
    'C20': ('model of the loop driven by the scripted verdicts; all index sequences of the scripted generator must be reached with equal multiplicity.',
            'the number of batches depends on verdicts which tests cannot force; equal chance needs all draw sequences.', 42),
    'C21': ('closed formula; bounds from the construction arguments alone.',
            'shared default bounds show only after another model was constructed.', 3),
    'C22': ('rows are identified with posterior samples whose lines can be recognised; noise by its action on a complete basis.',
            'tests check shapes; pairing of gradient with intercept, rows and covariance are invisible to them.', 10),
    'C24': ('the reports of undisturbed analyzers: the state after a fault is one of (earlier fit, new fit), never a mixture.',
            'no unit test can interrupt a fit at each of its lines, and the mixture is invisible until another quantity is read.', 45),
    'C25': ('the cells that were written into the input: any off-diagonal element in any frame.',
            'a warning that looks at the first frame or at one triangle of the matrix is silent only for particular cells.', 8),
    'C26': ('the report of the first description of the same motion: no formula is repeated, only the symmetry is used.',
            'an absolute threshold, a preferred axis, origin, order or lattice vector shows only when two descriptions are compared.', 30),
    'C27': ('a second analysis of the same trajectory by the code itself: sums over axes, quadratic forms, averages, Nernst-Einstein.',
            'a slip in one estimator, axis set or window is consistent with itself and shows only against another analysis.', 15),
    'C28': ('the request itself: it holds at least one fault by construction, so any answer is wrong; the documented type of error for single faults.',
            'a test of a fault is weakened for one route, selection or combination only.', 12),
    'C29': ('probability theory: the exact mean and variance over all motions, which use no formula of the code.',
            'a biased window, a miscounted observation or a wrong divisor gives plausible numbers for each single motion.', 25),
}

