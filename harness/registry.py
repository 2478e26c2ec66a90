"""Which scenario generators and executors decide which property."""

_STORAGE = dict(scenarios="gen_storage", executor="exec_storage")

_GRAPH = dict(scenarios="gen_graph", executor="exec_graph")
_LINEAR = dict(scenarios="gen_linear", executor="exec_linear")
_MAP = dict(scenarios="gen_map", executor="exec_map")
_COV = dict(scenarios="gen_cov", executor="exec_cov")
_POSE = dict(scenarios="gen_pose", executor="exec_pose")
_G2O = dict(scenarios="gen_g2o", executor="exec_g2o")
_BATCH = dict(scenarios="gen_batch", executor="exec_batch")
_SOLVER = dict(scenarios="gen_solver", executor="exec_solver")

PROPERTIES = {
    "C01": [_STORAGE],
    "C02": [_STORAGE],
    "C03": [_STORAGE, _GRAPH, _MAP, _COV],
    "C04": [_STORAGE],
    "C05": [_GRAPH],
    "C06": [_GRAPH],
    "C07": [_GRAPH, _MAP, _COV],
    "C08": [_GRAPH],
    "C09": [_GRAPH],
    "C10": [_LINEAR],
    "C11": [_LINEAR],
    "C12": [_LINEAR],
    "C13": [_SOLVER],
    "C14": [_SOLVER],
    "C15": [_SOLVER],
    "C16": [_MAP],
    "C17": [_COV],
    "C18": [_POSE],
    "C19": [_BATCH],
    "C20": [_GRAPH],
    "C21": [_G2O],
}

_BOUNDS = (
    "Exhaustive within the stated small constants of the specification; the binding to the "
    "code is by replaying behaviours of the specification and seeded random ones, and "
    "validating everything recorded against the specification."
)

NOTES = {
    "C01": "Heap of immutable maps; programs of up to 9 operations over 15 variable types. " + _BOUNDS,
    "C02": "Well-formedness of recorded layouts, up to 40 variables of 15 types. " + _BOUNDS,
    "C03": "Conversions between storage orders, accepted and refused. " + _BOUNDS,
    "C05": "Polynomial factors with integer data, 12 variable types, five factor classes, three noise models, up to 30 factors. " + _BOUNDS,
    "C06": "Rows compared exactly with symbolic derivatives of polynomial factors in local coordinates. " + _BOUNDS,
    "C07": "Permutations of the factor list, compared variable by variable. " + _BOUNDS,
    "C08": "All small 2x2 covariances in the specification; on the code integer Cholesky factors up to 4x4; logarithms from a table for determinants with prime factors up to 7. " + _BOUNDS,
    "C09": "All integer-norm residuals up to 6 (10) in the specification, including that linearization is the gradient of the loss; thresholds for which the reweighting is a multiple of 1/12. " + _BOUNDS,
    "C10": "All entry lists up to length 3 (4) of a 2x3 matrix in the specification; matrices up to 7x7 on the code. " + _BOUNDS,
    "C11": "Integer matrices up to 9x5 with condition number below 400 and chains of up to 24 columns, checked in fixed point against the normal equations. " + _BOUNDS,
    "C12": "Requests of spec-generated histories answered like in a process of their own. " + _BOUNDS,
    "C13": "Landscapes and scripts chosen by the specification, up to 8 iterations; decisions are exact for Levenberg-Marquardt, in fixed point for dogleg. " + _BOUNDS,
    "C14": "Damping as exponents of two, dogleg path and radius in fixed point; up to 8 iterations. " + _BOUNDS,
    "C15": "Each stopping criterion alone and combined, up to 8 iterations, all four solvers. " + _BOUNDS,
    "C16": "Affine, bilinear and pose problems whose integer minimizer the specification verifies; all 18 solver combinations; solutions to 1 percent of a unit. " + _BOUNDS,
    "C17": "All factors with entries -1..1 of 3x3 information matrices under all elimination orders in the specification; on the code graphs up to 14 scalars against the information matrix, trees up to 1500 (3000) against path sums. " + _BOUNDS,
    "C18": "Exact on the discrete subgroups (quarter turns, Hurwitz quaternions) exhaustively in the specification; any pose in fixed point with three decimals on the code, Jacobians against symmetric differences. " + _BOUNDS,
    "C19": "Batches of up to 6 table problems that the specification solves one by one; histories of up to 7 compiled calls; derivatives against the normal equations of integer problems. " + _BOUNDS,
    "C20": "All declarations and variable lists of length up to 2 (3) over three types in the specification, sampled on the code. " + _BOUNDS,
    "C21": "All files of up to 5 (6) lines in the specification; files of up to 60 lines on the code, poses and measurements to three decimals, information matrices to half a percent. " + _BOUNDS,
    "C04": "Per-variable retraction, exact on discrete subgroups of the Lie groups. " + _BOUNDS,
}
