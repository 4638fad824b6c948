#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
MO, PF, CZ = "oneka/model.py", "oneka/probabilityfield.py", "oneka/capturezone.py"
ST, DE, ON = "oneka/stochastic.py", "oneka/deterministic.py", "oneka/oneka.py"
UT, VI, AR = "oneka/utilities.py", "oneka/visualize.py", "oneka/archive.py"

p("M01", "Discharge potential is the documented superposition",
  "At every point that is not a well centre, the discharge potential equals A*dx^2 + B*dy^2 + C*dx*dy + D*dx + E*dy + F (dx, dy measured from the model's local origin) plus, for every well in the list, q/(4*pi) * ln(squared distance to the well); the wells-only potential is that second sum alone. Computing a potential changes nothing in the model.",
  ["inputs"], "all models (any origin, coefficients, and any number of wells, in any position and with any discharge, repeated wells included) and all evaluation points off the well centres",
  "One test evaluates one point of one two-well model with origin (0,0), equal coefficients and equal discharges; swapped terms, dropped wells or a wrong origin can leave that value unchanged.",
  [MO], [("compute_potential", MO), ("compute_potential_wells_only", MO)],
  [("xo, yo, coef, wells", "origin and coefficients of the regional flow; wells", MO)], ["Model.compute_potential", "Model.compute_potential_wells_only"])
p("M02", "Discharge vector is minus the gradient of the potential",
  "At every point that is not a well centre, the two components of the vertically integrated discharge are exactly -dPhi/dx and -dPhi/dy of the discharge potential Phi that the same model reports. Computing a discharge changes nothing in the model.",
  ["inputs"], "all models and evaluation points off the well centres; any number of wells",
  "The only discharge test is one point of one model with A=B=C=D=E; the relation between two functions over all points is never tested.",
  [MO], [("compute_discharge", MO), ("compute_potential", MO)], (), ["Model.compute_discharge", "Model.compute_potential"])
p("M03", "The flow conserves water and the reported recharge is its source",
  "Away from the wells the modelled discharge has zero curl and a divergence that is the same everywhere, namely -2*(A+B). The recharge that a stochastic or a deterministic run writes to the log for a model is exactly that divergence, sign included.",
  ["inputs"], "all models, all points off the well centres, all fitted or randomly drawn coefficients",
  "No test computes a divergence or reads the log.",
  [MO, ST, DE], [("compute_discharge", MO), ("create_stochastic_capturezone (recharge log)", ST), ("create_deterministic_capturezone (recharge log)", DE)], (), ["Model.compute_discharge", "log records"])
p("M04", "Head and potential are inverse over both flow regimes",
  "With positive conductivity k and thickness t, a potential Phi <= 0 is refused as a dry aquifer, and otherwise the reported head h is the unique positive number with Phi = k*h^2/2 when h <= t (unconfined) and Phi = k*t*(h - t/2) when h >= t (confined). The head is therefore continuous and strictly increasing in the potential across the confined/unconfined transition.",
  ["inputs"], "all k > 0, t > 0 and all potentials, the regime boundary included",
  "One test point, in the confined regime only; the unconfined branch, the transition and the dry case are never reached.",
  [MO], [("compute_head", MO)], (), ["Model.compute_head"])
p("M05", "Velocity is discharge over porosity times saturated thickness",
  "Wherever the head is positive, the seepage velocity equals the discharge vector divided by porosity and by the saturated thickness, which is the smaller of head and aquifer thickness; wherever the aquifer is dry the request is refused with the dry-aquifer error and no velocity is returned.",
  ["inputs"], "all models with positive conductivity, thickness and porosity, all points off the well centres, both regimes",
  "Two points of one confined model are tested; the unconfined branch and the dry refusal are never executed.",
  [MO], [("compute_velocity", MO)], (), ["Model.compute_velocity"])
p("M06", "The confined shortcut agrees with the full velocity when confined",
  "At every point where the head is at least the aquifer thickness, the velocity computed under the 'assume confined' shortcut is identical to the full velocity; at every point the shortcut is the discharge divided by porosity times the full aquifer thickness, and it never refuses for dryness.",
  ["inputs"], "all models and all points off the well centres",
  "The shortcut, which every default run uses, has no test at all.",
  [MO], [("compute_velocity_confined", MO), ("compute_velocity", MO)], (), ["Model.compute_velocity_confined"])
p("M07", "Each row of the fit is the standardized error at its observation",
  "For every observation (x, y, z, s) in order and every coefficient vector c, row i of the weighted system satisfies row_i . c - rhs_i = (Phi_c(x,y) - phi_i)/s_i, where Phi_c is the model's potential with coefficients c and the given origin, and (phi_i, s_i) are k*t*(h - t/2), k*t*s when h = z - base is at least t, and k*(h^2 + s^2)/2, k*h*s when 0 < h < t. A fit with an observation whose level is not above the base is refused, and building the system changes neither the model nor the observations.",
  ["inputs"], "all models, all observation lists of any length with s > 0, all origins, both regimes",
  "One fit of 25 observations, compared to 0.1 percent in one regime mix with equal standard deviations; nothing checks rows, mixed weights, the base offset or the refusal.",
  [MO], [("construct_fit", MO)], (), ["Model.construct_fit", "Model.fit_regional_flow"])
p("M08", "Fitting returns and installs the weighted least-squares solution",
  "A successful fit returns the coefficient vector that satisfies the normal equations of the weighted system together with the inverse of the system's normal matrix as covariance, and leaves the model with exactly those coefficients and the requested origin, everything else about the model unchanged. A fit that fails leaves the model as it was.",
  ["inputs", "histories"], "all models, observation lists and origins, any earlier fits of the same model",
  "One fit is compared with reference numbers; that the model keeps the origin and the coefficients, in which order things are installed, and what a failing fit leaves behind are not tested.",
  [MO], [("fit_regional_flow", MO), ("compute_fit", MO)], [("xo, yo, coef", "installed fit", MO)], ["Model.fit_regional_flow", "Model.compute_fit"])
p("M09", "Models do not share coefficients with each other or with callers",
  "A model's regional-flow coefficients can only be changed through that model: changing in place an array that was passed to it, that a fit returned, or that belongs to another model (models built with the default coefficients included) never changes what the model computes, and a new model built with defaults always starts from six zeros.",
  ["histories"], "all sequences of constructing, assigning, fitting and in-place modification over any number of models",
  "Each test uses one freshly built model, so sharing is invisible.",
  [MO], [("coef property and setter", MO), ("__init__", MO)], [("coef", "the six coefficients", MO)], ["Model.coef"])
p("F01", "Point-to-segment distance is the true Euclidean distance",
  "For every segment, zero-length segments included, and every point, the reported squared distance is the minimum over all points of the segment of the squared Euclidean distance.",
  ["inputs"], "all six coordinates",
  "One evaluation, with the foot of the perpendicular inside the segment; both end zones and degenerate segments are untested.",
  [PF], [("distancesquared", PF)], (), ["ProbabilityField.distancesquared"])
p("F02", "Growing the grid contains the box and moves nothing",
  "After the grid is asked to hold a box, the box lies strictly inside the grid's extent, the extent, node spacing and node counts agree, and every node that existed before keeps its world coordinates, its accumulated probability and its mark, while new nodes start at zero and unmarked; the total weight is unchanged. An inverted box is refused and leaves the field as it was.",
  ["inputs", "histories"], "all grids reachable by any history, all spacings (different in x and y), all boxes",
  "One test grows an empty grid and then asks for nothing more; a grid with contents is never grown, and shifts to the left or downward are never executed.",
  [PF], [("expand", PF), ("__init__", PF)], [("xmin, xmax, ymin, ymax, nrows, ncols, pgrid, rgrid", "grid geometry and contents", PF)], ["ProbabilityField.expand"])
p("F03", "A track segment marks exactly the nodes within its umbra",
  "Inserting a segment marks every grid node whose distance to the segment is less than the umbra and no other node, never unmarks a node, never reads or writes outside the grid, and leaves the geometry, the accumulated probabilities and the total weight alone.",
  ["inputs", "histories"], "all grids, segments (also partly or wholly outside the grid, also of zero length) and umbras > 0",
  "insert has no test (the test file says TODO).",
  [PF], [("insert", PF), ("distancesquared", PF)], [("rgrid", "marks of the current realization", PF)], ["ProbabilityField.insert", "ProbabilityField.rgrid"])
p("F04", "A rasterized track marks all and only nodes near the track",
  "After a track is rasterized, the grid extends beyond the umbra of every vertex of the track, and a node is marked exactly if it was marked before or lies within less than the umbra of some segment of the track; earlier contents keep their world coordinates and values.",
  ["inputs", "histories"], "all tracks with at least one vertex, all umbras > 0 (smaller or larger than the spacing), all earlier histories",
  "rasterize has no test.",
  [PF], [("rasterize", PF), ("expand", PF), ("insert", PF)], [("rgrid", "marks of the current realization", PF)], ["ProbabilityField.rasterize"])
p("F05", "Registered probabilities count realizations and stay within [0, total]",
  "Registering adds its weight once to the total and once to exactly the marked nodes and clears all marks; resetting only clears the marks. Hence after any history with non-negative weights, each node's accumulated weight is the sum of the weights of the realizations that marked it and lies between 0 and the total weight.",
  ["histories"], "all sequences of rasterize/insert/expand/register/reset on one field, all non-negative weights",
  "register and reset have no tests.",
  [PF], [("register", PF), ("reset", PF)], [("pgrid, rgrid, total_weight", "accumulated weight, marks, normalizer", PF)], ["ProbabilityField.register", "ProbabilityField.reset"])
p("T01", "A trace starts at its start and obeys its step and time limits",
  "A trace always begins with the given starting point; consecutive vertices are less than the maximum step apart; no time step goes against the sign of the duration and the trace time never passes the duration. A trace that meets an unusable velocity (dry aquifer, any error) returns the vertices reached so far and raises nothing; otherwise its last vertex is the position at exactly the duration.",
  ["inputs", "fault_sequences"], "all velocity functions, failing at any evaluation, all starts, positive and negative durations, tolerances and maximum steps > 0",
  "The tracer has no test.",
  [CZ], [("compute_backtrace", CZ)], [("vertices, t, dt", "accepted vertices, time, step", CZ)], ["compute_backtrace"])
p("T02", "Every accepted step is an error-controlled fifth-order step",
  "Every pair of consecutive vertices of a trace is one step of the Dormand-Prince 5(4) formula for the given velocity function, whose embedded error estimate is below the tolerance; as a consequence traces are exact for uniform velocity fields, and for fields whose component along some fixed direction is a constant other than zero while the component across it is a polynomial of degree up to four in the coordinate along it.",
  ["inputs"], "all velocity functions, starts, durations of either sign, tolerances, maximum steps",
  "The tracer has no test; a wrong coefficient still gives plausible paths, only with a lower order.",
  [CZ], [("compute_backtrace (tableau a2..a7, e)", CZ)], (), ["compute_backtrace"])
p("T03", "A capture zone releases evenly spaced particles and registers once",
  "Computing a capture zone traces exactly npaths particles, particle p starting at angle 2*pi*p/npaths on the circle of radius (well radius + 1) around the target with the caller's duration, tolerance, maximum step and velocity function, rasterizes each returned trace in full once with the caller's umbra, and then registers the result exactly once with the caller's weight.",
  ["inputs"], "all targets, radii, npaths >= 1, durations, fields and velocity functions",
  "compute_capturezone has no test.",
  [CZ], [("compute_capturezone", CZ)], (), ["compute_capturezone"])
p("S01", "A random variate follows its declared distribution",
  "A scalar is returned unchanged; a (min, max) pair yields a uniform draw between them; a (min, mode, max) triple yields a triangular draw with those parameters; the value always lies within the declared range, every specification that the validator accepts with finite bounds (tuple or list, zero width included) yields a number, and sequences of other lengths are refused with the distribution error.",
  ["inputs"], "all specifications: scalars, tuples and lists of any length, all ordered bounds, all random states",
  "No test calls the generator.",
  [ST], [("generate_random_variate", ST)], (), ["generate_random_variate"])
p("S02", "The mean used by deterministic runs is the distribution's mean",
  "For every valid specification the computed mean is the exact mean of the distribution that the generator draws from: the scalar itself, (min+max)/2 for a pair, (min+mode+max)/3 for a triple, tuples and lists alike, always inside the declared range; sequences of other lengths are refused with the distribution error.",
  ["inputs"], "all specifications",
  "No test calls it.",
  [ST], [("compute_variate_mean", ST)], (), ["compute_variate_mean"])
p("S03", "A specification is valid exactly if ordered and within bounds",
  "A distribution specification is accepted exactly if it is an int or float within the closed bounds, or a tuple or list of two or three numbers that is non-decreasing with all members within the closed bounds; any other value, a tuple or list being one of numbers, is rejected without an error.",
  ["inputs"], "all values: numbers, tuples and lists of any length, other types; all bounds, infinite ones included",
  "No test calls it.",
  [ST], [("isdistribution", ST)], (), ["isdistribution"])
p("S04", "A stochastic run is exactly N independent, correctly built realizations",
  "A stochastic run performs the requested number of realizations and returns a field around the target whose total weight is that number. Each realization draws anew one discharge per well (same order, positions and radii, the well's own distribution) and one value for each aquifer property from its own distribution, fits the resulting model to all observations about the target, draws the coefficients from the normal distribution with the fitted mean and covariance, and tracks the reverse of that very model's velocity - the full one or, when so requested, the confined shortcut - from the target with the caller's settings, registering weight one.",
  ["inputs", "histories"], "all well lists, targets, distributions, observations, settings and numbers of realizations",
  "The stochastic driver has no test, and sampling cannot distinguish one shared draw from N draws without knowing where to look.",
  [ST], [("create_stochastic_capturezone", ST)], (), ["create_stochastic_capturezone"])
p("S05", "A deterministic run uses the mean of every input, once",
  "A deterministic run builds one model from the mean of each aquifer property and of each well's discharge (same order, positions and radii), fits it to all observations about the target, keeps the fitted expected coefficients, and tracks the reverse of that model's velocity - the full one or, when so requested, the confined shortcut - from the target with the caller's settings; the returned field has total weight one and no random number is drawn.",
  ["inputs"], "all well lists, targets, distributions, observations and settings",
  "The deterministic driver has no test.",
  [DE], [("create_deterministic_capturezone", DE)], (), ["create_deterministic_capturezone"])
p("S06", "The capture probability is the fraction of realizations that capture the node",
  "After a stochastic run of N realizations the accumulated weight of every node of the field, wherever it lies and whenever the grid came to include it, is the number of realizations of which at least one of the npaths traces has a segment at less than the umbra from the node, and the total weight is N; after a deterministic run it is one or zero in the same way. No point at less than the umbra of a vertex of a trace is outside of the field.",
  ["inputs", "histories"], "all settings, all numbers of realizations and particles, all traces and all nodes",
  "No test runs an analysis; the tests of the field mark and register single segments.",
  [ST, "oneka/deterministic.py", "oneka/capturezone.py", "oneka/probabilityfield.py"], [("create_stochastic_capturezone", ST), ("create_deterministic_capturezone", "oneka/deterministic.py"), ("compute_capturezone", "oneka/capturezone.py")], ("ProbabilityField.pgrid", "ProbabilityField.rgrid", "ProbabilityField.total_weight"), ["the returned field"])
p("D01", "The entry point runs the requested analysis on the caller's inputs",
  "For valid arguments the entry point removes and averages observations with the caller's buffer, refuses to go on with six or fewer of them, runs the stochastic analysis when more than one realization is requested and otherwise the deterministic one, passes every argument unaltered to the parameter it is meant for (the analyses and plots get the retained observations, the archive the originals, smoothing concerns the probability plot only), archives the resulting field together with all inputs, and returns that field.",
  ["inputs"], "all valid argument combinations",
  "No test calls the entry point.",
  [ON], [("oneka", ON)], (), ["oneka"])
p("D02", "Invalid arguments are refused before anything is done",
  "A run is refused before anything is logged, computed, plotted or archived unless: the target indexes a well, npaths is a positive integer, the duration is a non-zero number, the base is a number, the distributions of conductivity, porosity and thickness are valid within [0, inf], [0, 1] and [0, inf], every well has numeric coordinates, a positive radius and a valid discharge distribution, there are more than six observations each with four numbers and a positive standard deviation, buffer, spacing, umbra, tol and maxstep are positive, smooth is not negative and confined is a boolean. Arguments that meet these conditions, the documented defaults included, are not refused.",
  ["inputs"], "all argument tuples; every element of every list",
  "No test calls the entry point; each condition has to hold for every element of lists of any length.",
  [ON, ST], [("oneka (assertions)", ON), ("isdistribution", ST)], (), ["oneka"])
p("D03", "The driver hands every setting of a data module to its parameter",
  "Running the driver on a data module calls the entry point once, with each of the module's eighteen settings bound to the parameter of the same meaning and the run time as a string; a module that does not exist is reported and nothing is run.",
  ["inputs", "configurations"], "all data modules that define the settings",
  "The driver has no test; all values are passed by position, so two exchanged settings of the same type run without an error.",
  ["runme.py", ON], [("main", "runme.py")], (), ["runme.main"])
p("D04", "The log states the inputs of the run and the areas it found",
  "The log of a run states every setting given to the entry point under its own name, and every well and every observation given, in order. After a stochastic run it lists, for the levels 0.05, 0.10, ..., 0.95 in this order, the first point of the impact curve whose probability does not exceed the level (the curve ends at zero), with its probability, its area in square metres and the same area in acres (4046.86 square metres each); after a deterministic run it reports the area of the plotted capture zone in both units. Numbers are shown to the printed precision.",
  ["inputs"], "all valid arguments, any number of wells and observations, all impact curves and plotted areas",
  "No test calls the entry point or reads the log.",
  [ON], [("log_the_run", ON), ("oneka (tables of areas)", ON)], (), ["the 'Oneka' logger during oneka"])
p("A01", "An archived run can be read back complete and unaltered",
  "Archiving a run stores every one of its twenty items under its own name, and loading the archive returns exactly those names and values; archiving changes none of the items.",
  ["inputs"], "all values of the twenty items, all probability fields",
  "Neither function has a test.",
  [AR], [("dump_oneka", AR), ("load_oneka", AR)], (), ["dump_oneka", "load_oneka"])
p("U01", "Observations are removed exactly if within the buffer of a well",
  "An observation takes part in the retained observations exactly if it is farther than the buffer from every well (distance equal to the buffer removes it); the order of the retained ones is that of the input, observations without duplicates are passed through unchanged, and neither input list is modified.",
  ["inputs"], "all observation lists, well lists (of either well format) and buffers",
  "No test calls it.",
  [UT], [("filter_obs (first phase)", UT)], (), ["filter_obs"])
p("U02", "Duplicate observations become their minimum-variance average",
  "Among the observations that survive the buffer, those less than one metre from an earlier retained location, wherever they are in the list, are merged with it into one observation at the location of the earliest, whose level is the 1/s^2-weighted mean and whose standard deviation is sqrt(1/sum(1/s^2)); every surviving observation contributes to exactly one retained observation, and retained observations are at least one metre apart.",
  ["inputs"], "all observation lists of any length with positive standard deviations, with duplicates anywhere",
  "No test calls it.",
  [UT], [("filter_obs (second phase)", UT)], (), ["filter_obs"])
p("U03", "The summary table reports the true statistics of every column",
  "For every table of values with at least one non-missing value per column, the summary lists for each column, in order and in that column's format, the count, minimum, median, maximum, mean and population standard deviation of the column's non-missing values, each in the row carrying its label.",
  ["inputs"], "all tables of any size, with missing values anywhere",
  "No test calls it.",
  [UT], [("summary_statistics", UT)], (), ["summary_statistics"])
p("V01", "The impact curve is the exceedance curve of the field",
  "The reported probabilities are the normalized node probabilities of the whole field in non-increasing order and the k-th reported area is k times the area of one cell, so that at least that area has a capture probability no smaller than the k-th probability; an empty field is refused and the field is not modified.",
  ["inputs"], "all fields with positive total weight, all spacings",
  "No test calls it.",
  [VI], [("create_impact_plot", VI)], (), ["create_impact_plot"])
p("V02", "Contour maps show the model at the displayed coordinates",
  "In the head and potential maps the value displayed at (x_j, y_i) is the model's head, respectively potential, at exactly that location, with nodes evenly spaced from the first to the last limit; a location where the model reports a dry aquifer is left blank and does not abort the map.",
  ["inputs"], "all models, map limits and map sizes >= 2",
  "No test calls the map functions.",
  [VI], [("contour_head", VI), ("contour_potential", VI)], (), ["contour_head", "contour_potential"])
p("V03", "Capture-zone plots place every node truthfully and add up its area",
  "The probability map and the deterministic map display the field normalized by its total weight at the true world coordinates of the nodes; the probability map alone is smoothed, by a Gaussian of the requested width in grid cells and only when smoothing is requested; the deterministic map fills, and its returned area adds up, one cell for each node with a positive probability and no other; the target and not another well is starred; a field without any realization is refused and the field is not modified.",
  ["inputs"], "all fields, well lists, targets and observation lists",
  "No test calls the plot functions.",
  [VI], [("create_deterministic_plot", VI), ("create_probability_plot", VI)], (), ["create_deterministic_plot", "create_probability_plot"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
