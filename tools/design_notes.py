"""Hand-written notes per property: oracle and cost (8 cores, quick tier)."""
NOTES = {
 "C01": dict(oracle="`mc/ref.py` walks the path arc by arc with vectors: chord = 2 r tan(theta/2) along the bisector, theta from the cross and dot product (no arccos), no code shared with `utils.MinCurve`. A 360 degree alias of every azimuth is a second run that must agree.", cost="about 10 s"),
 "C02": dict(oracle="twelve-run product: all representations of one well must agree with the path model and with each other.", cost="about 10 s"),
 "C03": dict(oracle="self-composition: fingerprint before = fingerprint after, answer after a history = answer on fresh objects.", cost="about 100 s (two clearance queries dominate)"),
 "C04": dict(oracle="arc model evaluated at the fraction of the leg.", cost="about 10 s"),
 "C05": dict(oracle="set model of depths (stations united with multiples of the step) and the arc model for each of them; covariance linear between stations.", cost="about 10 s"),
 "C06": dict(oracle="arc model, bisection for the depth at a vertical depth.", cost="about 25 s"),
 "C07": dict(oracle="closed-form single-arc and arc-and-hold geometry; for curve-hold-curve the rendered path is judged (continuity, curvature, ends), which needs no second solver.", cost="about 50 s"),
 "C08": dict(oracle="closed-form arc-and-hold geometry per row and batch-of-one runs of the same code (independence of rows).", cost="about 10 s"),
 "C09": dict(oracle="rotation matrices written out by hand.", cost="about 10 s"),
 "C10": dict(oracle="self-consistency of totals, parts, frames, prefixes and histories; independent rotation.", cost="about 150 s"),
 "C11": dict(oracle="`mc/errref.py`: scalar implementation of the published weighting functions, one station and one source at a time.", cost="about 70 s"),
 "C12": dict(oracle="direct evaluation of the expression tree that was printed.", cost="about 18 s"),
 "C13": dict(oracle="analytic closest point on circular arcs (all legs, all stationary points); separation factor from its definition at the reported point.", cost="about 100-150 s"),
 "C14": dict(oracle="ring by ring from the definition of ellipse, pedal curve and circle; directed-edge count (every edge once in each direction) decides closedness and orientation, the signed volume decides the outside.", cost="about 12 s"),
 "C15": dict(oracle="list model of a string.", cost="about 11 s"),
 "C16": dict(oracle="soft-string recurrence in plain Python.", cost="about 12-45 s"),
 "C17": dict(oracle="the plan that was written, and a hand-written writer of files with fields in fixed columns; path of the control points from `mc/ref.py`.", cost="about 25-45 s"),
 "C18": dict(oracle="list of records from which the XML text was written; parents and tie-on chains followed in that list.", cost="about 12 s"),
 "C19": dict(oracle="`fractions.Fraction`.", cost="about 16 s"),
 "C20": dict(oracle="list model of stations, positions, radii and covariances.", cost="about 18 s"),
 "C21": dict(oracle="arc in the plane spanned by the tangent and cos(tf) high + sin(tf) right.", cost="about 13 s"),
 "C22": dict(oracle="the metres run (two-run product).", cost="about 40-60 s"),
 "C23": dict(oracle="mass balance of the constituents solved by bisection with quadrature of the expansion integrals.", cost="about 15 s"),
 "C24": dict(oracle="half-leg arcs; published index definitions evaluated on the reference path.", cost="about 60-110 s"),
 "C25": dict(oracle="decision table user value / service answer / default.", cost="about 9 s"),
 "C26": dict(oracle="recursive-descent evaluation of the formula text, scalar propagation of `mc/errref.py`, the cells of the workbook read with openpyxl. The models are loaded by a child process from a scratch copy of the package to which only model files and index entries were added, so the official selection by name is what is exercised.", cost="about 36 s"),
 "C27": dict(oracle="tangent at the end of the arc for rates and toolfaces; list model of the plan's sections (merged where they cannot be told apart) for the control points.", cost="about 12 s"),
 "C28": dict(oracle="discs around densely evaluated arcs of `mc/ref.py`: sure overlap (a centre within the other tube, or mutual perpendicular centres closer than the inscribed radii), sure gap (all centre distances above the sum of the radii), bounds on the surface distance in between.", cost="about 60 s"),
 "C29": dict(oracle="Krueger's series for transverse Mercator maps written out in the check, finite differences of the map itself, steps on the ellipsoid.", cost="about 15 s"),
 "C30": dict(oracle="arc in the vertical plane and straight section, solved in closed form for the length at which the depth is first met.", cost="about 10 s"),
 "C31": dict(oracle="the change that was injected; `mc/errref.py` and the formula evaluator of C26 for both sides of the comparisons.", cost="about 20 s"),
 "C32": dict(oracle="recorders in place of plotly and of vedo's window and lines; the objects' own arrays (decided by the other checks), plane geometry for targets and `mc/ref.py` for the curvature circles.", cost="about 15 s"),
}
