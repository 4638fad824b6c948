"""Per property: level, trusted parts, assumptions, limits (used by check.py and tools/manifest.py)."""

TRUST = [
    "the verifier in /verif/engine (Python front end, symbolic execution, loop summaries, instantiation), which is not itself verified",
    "z3 (Python bindings) and its solvers; cvc5 where an obligation names it as a back end",
    "arithmetic of floats is treated as real arithmetic: rounding, overflow, infinities and NaN as results are outside of the proofs (the runtime search uses real floats with tolerances)",
    "Python's semantics as the front end has them: no monkey-patching, no subclass of a built-in type among the arguments, logging has no effect on the computation",
]

# shared phrases
WELL = "a point, an observation or a target is not the centre of a well (the logarithm is undefined there)"
POS = "conductivity, porosity and thickness are positive"
TERM = "partial correctness: that loops end is not shown"
ALIAS = "the arguments are distinct objects (aliasing between a caller's arrays is the subject of M09 only)"
RNG = "the generator is reached through numpy.random; its draws are tokens whose distribution is numpy's (trusted), distinct for distinct calls"
MODEL_CALLEES = "callees are seen through their contracts only: Model.fit_regional_flow (M07, M08), compute_velocity and compute_velocity_confined (M05, M06), generate_random_variate and compute_variate_mean (S01, S02), compute_capturezone (T03), ProbabilityField (F01-F05); that these hold is checked by those properties"
PLOT = "matplotlib draws what it is given: the contract speaks about the arguments of contourf, contour, pcolormesh, fill and plot"
ENTRY_CALLEES = "callees are seen through their contracts: filter_obs (U01, U02), the two analyses (S04, S05), the plots (V01, V03), dump_oneka (A01), isdistribution (S03); summary_statistics may return any text"

META = {
    "M01": dict(note="All wells, coefficients and points: the sums over the well list are compared for any number of wells by induction over the loop.", assumptions=[WELL]),
    "M02": dict(note="The discharge is compared with the symbolic derivative of the potential that compute_potential reports on the same tree, for any number of wells.", assumptions=[WELL, "differentiation of the logarithm and of finite sums term by term"]),
    "M03": dict(note="Divergence and curl are symbolic derivatives of what compute_discharge returns; the logged recharge is compared with them in both analyses.", assumptions=[WELL, MODEL_CALLEES]),
    "M04": dict(note="All potentials and parameters with both branches; uniqueness and monotony as a lemma over the contract.", assumptions=[POS]),
    "M05": dict(note="All points and parameters, any number of wells; the callees compute_head and compute_discharge are executed, not assumed.", assumptions=[WELL, POS]),
    "M06": dict(note="The shortcut is executed against the full velocity at an arbitrary point.", assumptions=[WELL, POS]),
    "M07": dict(note="An arbitrary row of the system for any number of observations and wells, with an arbitrary coefficient vector.", assumptions=[WELL, POS, "standard deviations are positive"]),
    "M08": dict(note="The normal equations are derived from what the code passes to the linear-algebra routines.", assumptions=["numpy.linalg.inv, solve, lstsq and matrix products are those of linear algebra on an invertible system, and raise LinAlgError otherwise (external contract)", "construct_fit is seen through its contract (M07)"]),
    "M09": dict(note="Six aliasing scenarios with arbitrary contents: every array that a caller can hold is changed in place afterwards and the model's coefficients are compared.", assumptions=["construct_fit is seen through its contract (M07)"]),
    "F01": dict(note="All segments and points; that the returned value is attained and is a lower bound of all points of the segment is a separate lemma.", assumptions=["coordinates are finite"]),
    "F02": dict(note="All fields of any size with arbitrary contents and all boxes; world coordinates of an arbitrary node before and after.", assumptions=["the representation invariant of a field (extent, spacing and counts agree), which F02 and F05 show for every operation that makes a field", ALIAS]),
    "F03": dict(note="All fields, segments and umbrae; an arbitrary node, the code's two nested loops by their closed forms.", assumptions=["the representation invariant of a field (shown by F02, F05)", "the umbra is positive", "distancesquared is seen through its contract (F01)"]),
    "F04": dict(note="Tracks of any length; the marks are an existential over the segments.", assumptions=["expand and insert are seen through their contracts (F02, F03)", "a track has at least one vertex, the umbra is positive"]),
    "F05": dict(note="The invariant 0 <= accumulated weight <= total is shown for every operation of the class on arbitrary fields, so it holds after any history.", assumptions=["weights are not negative", "the fields of the class are changed by its methods only"]),
    "T01": dict(note="Arbitrary velocity function (it may raise, or return anything, at every call); the loop's invariants are found and shown inductive, histories of vertices are unbounded.", assumptions=["tolerance and maximum step are positive, the duration is not zero", TERM, "the velocity function does not change the tracer's own variables"], limit=160),
    "T02": dict(note="The seven stages and the error estimate of an arbitrary accepted step are compared with the Dormand-Prince tableau; first-same-as-last reuse is an invariant of the loop.", assumptions=["the velocity function is a function of the position (the same position gives the same velocity)", TERM, "that the order conditions of the tableau, which the lemma proves, give a local error of order six is Butcher's theorem"], limit=160),
    "T03": dict(note="Any number of paths: particle p's start, the settings of its trace and the order of rasterize and register are read off the sequence of calls.", assumptions=["compute_backtrace, rasterize and register are seen through their contracts (T01, F04, F05)", "sine and cosine are uninterpreted: the angle is compared, not the coordinates"]),
    "S01": dict(note="Every specification as a dynamically typed value: scalars, tuples, lists of any length.", assumptions=[RNG, "numpy.random.uniform(a, b) lies in [a, b] and triangular(a, m, b) in [a, b] for a < b (external contract)"]),
    "S02": dict(note="Every specification as a dynamically typed value.", assumptions=["the mean of a uniform and of a triangular distribution (textbook formulas)"]),
    "S03": dict(note="Every value: numbers, strings, None, tuples and lists of any length of numbers; bounds finite, absent or infinite.", assumptions=["bool is not used as a number", "members of a tuple or list are numbers (others raise TypeError)"]),
    "S04": dict(note="Any number of realizations, wells and observations; the draws of an arbitrary realization are compared with the arguments of its fit and tracking.", assumptions=[MODEL_CALLEES, RNG, "numpy.random.multivariate_normal draws from the normal distribution with the given mean and covariance (external contract)", "the number of realizations is a positive integer"]),
    "S05": dict(note="Any number of wells and observations.", assumptions=[MODEL_CALLEES]),
    "S06": dict(note="Seen at one arbitrary node of the lattice, for any number of realizations, particles, wells and observations; what rasterizing and registering do to a node, and that growing the grid keeps it, are F02, F04 and F05.", assumptions=[MODEL_CALLEES, "contracts of rasterize (F04), register (F05), expand (F02) and compute_backtrace (T01, T02) at a node"]),
    "D01": dict(note="Opaque values for all arguments: which value reaches which parameter, and the order and number of the calls, for any number of observations.", assumptions=[ENTRY_CALLEES, "the arguments are accepted (D02 says which are)"]),
    "D02": dict(note="Every argument is a dynamically typed value and every element of the lists is arbitrary; refusal and acceptance are both shown.", assumptions=[ENTRY_CALLEES, "bool is not used as a number", "wells and observations are sequences"]),
    "D04": dict(note="Log entries are seen as the values that were formatted into them, for any number of wells and observations and any impact curve; the printed precision is the search's business.", assumptions=[ENTRY_CALLEES, "the arguments are accepted (D02 says which are)", "the impact curve falls to each of the 19 levels (it ends at zero: F04, V01)"]),
    "D03": dict(note="An arbitrary data module whose settings are opaque values.", assumptions=["importlib.import_module yields the module or raises ModuleNotFoundError", "the entry point is seen as an arbitrary function"]),
    "A01": dict(note="Opaque values for all twenty items.", assumptions=["bz2 and pickle: what is dumped into a file and read back from it is an equal copy of the value at the time it was dumped (external contract; the runtime oracle does it for real)"]),
    "U01": dict(note="Lists of any length, by contracts (ghost permutation) on the merging loops and the summary of the filtering loop.", assumptions=["standard deviations are positive", "numpy.hypot is the square root of the sum of squares"], limit=240),
    "U02": dict(note="Lists of any length with duplicates anywhere, by contracts (ghost permutation, group boundaries) on the two merging loops.", assumptions=["standard deviations are positive", "the sums range over the group in the order in which the code has gathered it"], limit=240),
    "U03": dict(note="Tables of any number of rows and columns with missing entries anywhere, as a list of rows or as an array: every row of the printed table, at an arbitrary column.", assumptions=["numpy's min, median, max, mean and std of a list of entries are what they say (external; functions of that list alone)", "every column has an entry that is not missing", "the text of a formatted number is Python's"]),
    "V01": dict(note="Fields of any size.", assumptions=["the weights of the field lie between zero and its total (representation invariant, proved by F05)", "the spacing given is the spacing of the field in both directions", "numpy.sort gives its argument's elements in non-decreasing order (external contract)", PLOT]),
    "V02": dict(note="An arbitrary node of a map of any size.", assumptions=["compute_head and compute_potential are seen through their contracts (M04, M01)", PLOT, "NaN is what matplotlib leaves blank"]),
    "V03": dict(note="Fields, well lists and observation lists of any size; an arbitrary node.", assumptions=["the weights of the field lie between zero and its total (representation invariant, proved by F05)", "scipy.ndimage.gaussian_filter is seen as the external function it is: only that it is applied to the normalized field with the requested width", PLOT]),
}
for m in META.values():
    m.setdefault("level", "proof")
    m["technique"] = "contract on the real code; obligations generated from /repo's source and discharged for all inputs by z3/cvc5"
    if "note" in m:
        m["note"] += " Floats are reals in the proof; a search with real floats under the project's interpreter replays countermodels, and decides the verdict where a proof stays open."
