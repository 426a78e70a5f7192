"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         technique="exhaustive bounded enumeration of the real code against "
                   "a reference model", observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe or [], hook_needed=None),
        _note=note, _technique=technique))


prop("C01", "Survey positions are those of the minimum-curvature path",
     "For every survey whose neighbouring stations differ by less than 180 degrees of direction, each reported station position equals the previous one plus the chord of the single circular arc (straight line when the direction does not change) that has the leg's measured length and is tangent to both station directions, counted from the given tie-on coordinates. The reported direction vectors, doglegs and dogleg severities are those of the same arcs. Later stations never change earlier positions, and writing an azimuth 360 degrees higher or lower changes nothing.",
     ["inputs", "configurations"],
     "all station sequences, tie-on coordinates, depth units and input container forms",
     "Tests check a few hand-made wells; straight, tiny-dogleg, near-reversal, north-crossing and repeated-station legs in any order are infinitely many sequences.",
     ["welleng/utils.py", "welleng/survey.py"],
     [("MinCurve / min_curve_step / get_rf / get_dogleg", "welleng/utils.py"),
      ("Survey._min_curve, Survey._get_nev", "welleng/survey.py")],
     "every station path of the stated alphabet and depth; values between alphabet points are not explored")

prop("C02", "One trajectory however azimuths are referenced and angles expressed",
     "A survey given with grid, true or magnetic azimuths, in degrees or radians, describes the same well when the azimuths are converted by the header's convergence and declination: same positions, directions, grid azimuths, doglegs and toolfaces. Every survey reports all three azimuths, in both angle units, with true = grid + convergence and magnetic = true - declination modulo 360 degrees.",
     ["inputs", "configurations"],
     "all station sequences crossed with all azimuth references, angle units, convergence and declination values",
     "Tests use one reference per example; equivalence between references is never compared.",
     ["welleng/survey.py"],
     [("Survey._process_azi_ref, _make_angles", "welleng/survey.py"),
      ("SurveyHeader angle conversion", "welleng/survey.py")],
     "complete product of reference x unit x convergence x declination over the path alphabet")

prop("C03", "Queries never change the survey, its header or the caller's data",
     "Read-only operations on surveys (interpolation by depth or TVD, resampling, slicing, vertical section, tortuosity and curvature analysis, projection, export to table, section detection, clearance and mesh construction) leave the survey, the header it shares with other surveys and every argument passed in exactly as they were. Hence the answer to a query does not depend on which queries ran before it, and surveys sharing a header do not influence each other.",
     ["histories"],
     "all sequences of queries over one or two surveys that share a header",
     "Each test runs one query on a fresh object; order effects and shared headers are never exercised.",
     ["welleng/survey.py", "welleng/clearance.py", "welleng/mesh.py"],
     [("_interpolate_survey, Survey.maximum_curvature, get_vertical_section", "welleng/survey.py"),
      ("Clearance / get_sf_mins", "welleng/clearance.py")],
     "all operation sequences up to the stated depth, each replayed on fresh objects; state compared by fingerprint of every public attribute",
     technique="explicit-state search over operation sequences on the real objects")

prop("C04", "Interpolating at a measured depth gives the point on the same path",
     "For every survey and every measured depth between its first and last station, the interpolated point lies on the circular arc (or straight line) of its leg at exactly that distance, with the arc's tangent as direction, and at a station it returns that station. Interpolating again between an interpolated point and its neighbours gives the same path, and covariance is linear in depth between the neighbouring stations.",
     ["inputs", "histories"],
     "all surveys and all depths, and repeated interpolation",
     "Tests interpolate a handful of depths on one well.",
     ["welleng/survey.py", "welleng/utils.py"],
     [("interpolate_md, _interpolate_survey", "welleng/survey.py")],
     "every leg of the alphabet at all depths of a fixed subdivision including both ends")

prop("C05", "Resampling a survey keeps every station and stays on the path",
     "Resampling at a measured-depth step yields strictly increasing depths that contain every original station and the multiples of the step, with no gap above the step, ends at the original ends, flags exactly the added stations as interpolated, and every position and direction is that of the original path at that depth. Hole radius and covariance of a resampled station are consistent with the neighbouring original stations.",
     ["inputs", "configurations"],
     "all surveys, all steps, both depth units, all azimuth references",
     "Tests resample one or two wells with one step.",
     ["welleng/survey.py"],
     [("interpolate_survey / from_connections / interpolate_well", "welleng/survey.py, welleng/connector.py")],
     "all paths of the alphabet x all listed steps (dividing and not dividing the legs)")

prop("C06", "Interpolating at a true vertical depth hits that depth on the path",
     "For every survey, also one that heads upwards, and every true vertical depth that its path passes through, the interpolated point lies on the survey's path and has exactly that vertical depth; for a survey that always descends the vertical-depth query is the inverse of the measured-depth query. Resampling a survey at a vertical-depth step keeps every original station and adds every point at which the path meets a multiple of the step from the depth of its first station (or, when a starting depth is given, from and below that depth), also where the path rises or turns within a leg, and flags exactly the added points as interpolated.",
     ["inputs"],
     "all surveys and all vertical depths that they pass through",
     "Tests check a few depths on a single well.",
     ["welleng/survey.py"],
     [("interpolate_tvd, interpolate_survey_tvd", "welleng/survey.py")],
     "every leg of the alphabet, every depth of a fixed subdivision")

prop("C07", "A connection reaches its target within the allowed curvature",
     "For every start and target that a path connector accepts (position, direction, length or combinations, with a hold section between the curves when both are given), the path it returns starts at the start with the start direction, is continuous in position and direction, ends at the requested position and/or direction, is at least as long as the straight line, and rendering it to a survey gives the same end point. Unless the connector reports that the requested curvature could not be met, no section is more curved than the design dogleg severity. Covered: turns of less than a half circle, targets not directly behind the start, end directions not opposite to the start direction, and, when position and direction are both requested, targets at least six turn radii away that need not be approached from behind; end positions within 0.02 m.",
     ["inputs", "configurations"],
     "all combinations of supplied end conditions and all start/target geometries",
     "Tests cover a few tens of geometries; the method-selection table and the iteration's corner cases (target behind, beside, coincident, parallel, opposite) are far more numerous.",
     ["welleng/connector.py"],
     [("Connector (method selection, min_curve, min_curve_to_target, curve_hold_curve)", "welleng/connector.py"),
      ("get_survey / interpolate_curve / interpolate_hold", "welleng/connector.py")],
     "complete table of input combinations x grid of geometries x design curvatures")

prop("C08", "Batch connection solver agrees with solving each case alone",
     "Solving many curve-hold-curve connections in one batch gives, for every row, the same answer as solving that row in a batch by itself and in any other order, and a row reported as solved is a real continuous path from its start to its target within its curvature limits (targets not exactly behind the start). Rows without a solution never disturb other rows.",
     ["inputs", "configurations"],
     "all batches: every pairing and ordering of easy, degenerate and infeasible rows",
     "Tests compare a few random batches; interference needs particular rows to be neighbours.",
     ["welleng/connector.py"],
     [("solve_curve_hold_batch", "welleng/connector.py")],
     "all single rows of the geometry grid and all ordered pairs/triples of representative rows")

prop("C09", "Frame and vector conversions are exact inverses and keep lengths",
     "Converting vectors or covariances between the north-east-vertical frame and the high-side/lateral/along-hole frame, positions between the two coordinate orders, and directions between angles and unit vectors, is exact, loses nothing on the way back, and keeps lengths, angles, symmetry and positive semi-definiteness. Curvature radius and dogleg severity convert into each other, covariance components pack and unpack, and annular volume follows from the two diameters and the length, in both unit systems. A node holds one position and one direction in all its representations. The along-hole axis is the hole direction, the lateral axis is horizontal and the three axes are right-handed, for every direction including vertical, horizontal and upward.",
     ["inputs"],
     "all directions, positions, vectors, covariance matrices and batch sizes",
     "Tests check one or two directions.",
     ["welleng/utils.py"],
     [("get_transform, NEV_to_HLA, HLA_to_NEV, get_nev, get_xyz, get_vec, get_angles, get_sigmas, make_cov", "welleng/utils.py")],
     "complete grid of directions x vectors x batch shapes")

prop("C10", "Position uncertainty is a valid covariance and adds up consistently",
     "With any listed error model, every station's covariance is symmetric and positive semi-definite, is zero at the start of the survey, and equals the sum of its error sources and the sum of its random, systematic, global and within-pad parts. It is expressed in the survey's own north (grid) and length unit, whatever the azimuth reference; the along-hole form is the same matrix rotated into the hole frame. Stations drilled later do not change it, choosing another model later gives what that model alone would give, and a start covariance is added at every station without changing the caller's array.",
     ["inputs", "configurations"],
     "all error models, well paths, azimuth references and header settings",
     "Tests compare two published example wells with two models.",
     ["welleng/error.py", "welleng/errors/tool_errors.py"],
     [("ErrorModel propagation", "welleng/error.py"),
      ("ToolError totals and weight functions", "welleng/errors/tool_errors.py")],
     "all listed models x all paths of the alphabet")

prop("C11", "Error propagation matches the published ISCWSA equations",
     "For every error source of every listed error model the per-station covariance equals the published weighting function multiplied by the source magnitude and propagated with the published random, systematic or global rule through the minimum-curvature position derivatives, with the published substitutes at vertical stations (Rev 5.11 workbook conventions for the first leg included). A survey's total and its propagation classes are the sums of these, turned to grid north.",
     ["inputs", "configurations"],
     "all error sources, well paths, magnetic field settings",
     "Tests compare totals on published wells; single sources at other attitudes are not reached.",
     ["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/errors/tool_codes"],
     [("weight functions", "welleng/errors/tool_errors.py"),
      ("drdp, e_NEV, sigma accumulation", "welleng/error.py")],
     "all sources x grid of attitudes and fields, against an independent implementation of the equations")

prop("C12", "Error-model formulas evaluate to their mathematical value or are refused",
     "Every formula built from numbers, the documented variables, functions and operators evaluates to its ordinary mathematical value with ordinary precedence, element by element for per-station values. Any expression using names, functions or syntax outside the documented set is refused with an error and nothing is executed.",
     ["programs"],
     "all formulas up to a size over the grammar, and all single departures from it",
     "Tests evaluate a few formulas; operator nesting and rejection must hold for every string.",
     ["welleng/errors/interpreter.py"],
     [("evaluate_formula and its syntax whitelist", "welleng/errors/interpreter.py")],
     "all expression trees up to the stated size, printed with and without redundant brackets")

prop("C13", "Separation factors are computed from the true closest approach",
     "For every pair of wells the clearance calculation reports, for each reference station, the offset well's closest point (no other point of the offset well is nearer), the distance and direction to it, and the separation factor (distance less both hole radii and surface margin) / (combined pedal-curve uncertainty at the requested confidence) from both wells' covariances at those points. Moving or rotating both wells together changes nothing, and a higher confidence multiplier never raises the separation factor of holes that do not overlap. With a kick-off depth only the reference stations from there on are used, and the uncertainty they accumulated above it is left out. The refinement adds stations only next to a minimum and keeps the results of the others.",
     ["inputs", "configurations"],
     "all pairs of wells and all clearance settings",
     "Tests compare a published well set; other relative geometries are not reached.",
     ["welleng/clearance.py"],
     [("IscwsaClearance: closest point search, pedal curve, SF", "welleng/clearance.py")],
     "all pairs over a family of well paths and offsets x settings")

prop("C14", "Uncertainty meshes are closed tubes of the right size",
     "For every survey with covariance, the mesh built for it is a closed, consistently oriented triangle surface whose faces point outwards and whose rings are centred on the stations and lie in the plane across the hole. For the ellipse method each ring is the ellipse with semi-axes sigma times the principal cross-hole standard deviations plus hole radius and margins; for the pedal-curve method it is the pedal curve of the ellipse with the high-side and lateral standard deviations so enlarged; for the circle method it is the circle of the hole radius. Rings of neighbouring stations start at the nearest vertices (vertex counts from twelve on that are multiples of four). Vertex count and face indices match the requested number of vertices, and meshes of slices are the meshes of the sliced surveys.",
     ["inputs", "configurations"],
     "all surveys, methods, vertex counts, sigma and margin settings",
     "No test builds meshes beyond a smoke run.",
     ["welleng/mesh.py"],
     [("WellMesh, get_faces, get_ends", "welleng/mesh.py")],
     "complete product of settings over the path alphabet")

prop("C15", "Strings and wellbores are contiguous stacks of sections",
     "After any sequence of adding sections from the top or from the bottom, the sections are ordered by depth, contiguous, non-overlapping, within the string's limits and of positive length, the reported completeness is exactly whether they cover the whole string, and a rejected addition leaves everything as it was. Each section keeps the properties it was given, and depth-clipped sections report their clipped length.",
     ["histories"],
     "all sequences of section additions",
     "Tests build one complete string; invalid, overlapping and partly-filled histories are not reached.",
     ["welleng/architecture.py"],
     [("String.add_section_top_down / add_section_bottom_up", "welleng/architecture.py")],
     "breadth-first search over all addition sequences to the stated depth against a list model",
     technique="explicit-state search over operation sequences on the real objects against a reference model")

prop("C16", "Torque and drag follow the soft-string recurrence",
     "Tension and torque along a string are those of the soft-string model applied from bit to surface: per-interval buoyed weight, normal force from weight, tension, inclination and shortest azimuth change, friction of the hole section and contact radius of the string section at that depth. Pick-up tension is never below rotating and slack-off never above it, rotating tension equals the buoyed weight supported, and turning the whole well about the vertical changes nothing.",
     ["inputs", "configurations"],
     "all wells, strings, wellbores, fluids and loads",
     "There is no test of torque and drag.",
     ["welleng/torque_drag.py"],
     [("TorqueDrag.get_forces_and_torsion and helpers", "welleng/torque_drag.py")],
     "complete product of well shapes x string and hole layouts x loads against an independent recurrence")

prop("C17", "Well plan files read back to the plan that was written",
     "Exporting well plans to the planning-file format and loading them again yields, to the precision written, the same wells, control points, targets (name, location, colour), coordinates and options, and exporting what was loaded yields the same file; building a survey from a file passes through every control point. Loading tolerates files with any number of wells, kinds of steps, comments, blank lines and blank fields, and files and plans do not influence each other.",
     ["inputs", "histories"],
     "all plans (number and kind of control points, targets, units) and all export/load sequences",
     "Tests do not write or read plan files.",
     ["welleng/exchange/wbp.py"],
     [("WellPlan, load, export, wbp_to_survey", "welleng/exchange/wbp.py")],
     "all plans over a small alphabet of turn points; export-load-export fixed point")

prop("C18", "Database-export queries return the well hierarchy that is in the file",
     "Every query on a planning-database export (children, parents, wellbores, cases, surveys, hole sections, pressure data, records by attribute) returns exactly the records of the file that are linked to the requested record, each once, for every hierarchy shape and order of records; a survey lists the stations of each survey of its tie-on chain over the depths it is used for. Answers do not depend on earlier queries or on other files opened before.",
     ["inputs", "histories"],
     "all small hierarchies and all query sequences",
     "There is no test of database exports.",
     ["welleng/exchange/edm.py"],
     [("EDM queries", "welleng/exchange/edm.py")],
     "all hierarchies up to the stated size x all query sequences up to the stated depth",
     technique="explicit-state search over query sequences on generated files against a reference model")

prop("C19", "Degrees-minutes-seconds conversions are exact inverses",
     "Every decimal angle converts to degrees, minutes, seconds and hemisphere such that minutes and seconds are in range and converting back gives the same angle, including angles between -1 and 0 degrees and values that round up to the next minute. Parsing a printed angle returns the angle.",
     ["inputs"],
     "all angles and both axes",
     "Tests convert a few angles.",
     ["welleng/utils.py"],
     [("decimal2dms, dms2decimal, pprint_dms, dms_from_string", "welleng/utils.py")],
     "all angles of an exact grid of degrees, minutes and seconds with both signs")

prop("C20", "Slicing and splicing surveys preserve the path",
     "A slice of a survey has exactly the sliced stations with their positions, directions, radii and covariances, for every azimuth reference and depth unit. Splicing consecutive surveys gives one survey whose stations and positions are those of the parts in order, and slicing then splicing gives back the original path.",
     ["inputs", "histories"],
     "all surveys, all slice bounds, all sequences of appended surveys",
     "Tests slice one survey indirectly.",
     ["welleng/survey.py"],
     [("slice_survey, SurveyData, splice_surveys", "welleng/survey.py")],
     "all slice bounds of all paths of the alphabet; all append sequences to the stated depth")

prop("C21", "Projecting ahead follows the stated curvature and toolface",
     "Projecting from any position and direction by a length with a given dogleg severity and toolface ends at the end of the circular arc of that length, curvature and toolface (a straight line at zero severity), with its tangent direction and measured depth. The toolface between two directions is the one whose arc joins them.",
     ["inputs"],
     "all start directions, lengths, severities and toolfaces",
     "Tests do not project ahead.",
     ["welleng/survey.py", "welleng/utils.py"],
     [("project_ahead, Survey.project_to_bit, project_to_target", "welleng/survey.py"),
      ("Arc, get_arc, get_toolface, radius_from_dls", "welleng/utils.py")],
     "complete grid of directions x toolfaces x severities x lengths")

prop("C22", "Feet and meters give the same well",
     "A well entered in feet gives the same path, resampling, interpolation and section detection as the same well entered in meters, with lengths scaled by the unit and dogleg severity stated per 100 ft instead of per 30 m.",
     ["inputs", "configurations"],
     "all surveys and all operations in both units",
     "Tests use meters.",
     ["welleng/survey.py", "welleng/connector.py"],
     [("unit handling in Survey, interpolation, from_connections", "welleng/survey.py")],
     "all paths of the alphabet x all listed operations in both units")

prop("C23", "Fluid density profiles are hydrostatically consistent",
     "The density reported for each depth is the average density of the fluid column down to that depth: the one at which its water, oil and solids, expanded by the linear temperature profile to that depth and compressed by the applied pressure and the column's own weight, have the mass of the surface fluid. At the surface it is the fluid's own density. The constituents' relative volumes add up to one and to the fluid's density. Results do not depend on how depths are ordered or batched or whether they come as numbers, lists or arrays.",
     ["inputs", "configurations"],
     "all fluids, depth lists and temperature profiles",
     "Tests check one published profile.",
     ["welleng/fluid.py"],
     [("Fluid.get_density_profile, _get_volumes_reference, _func, _get_coefficients", "welleng/fluid.py")],
     "complete product of fluids x depth lists x temperatures")

prop("C24", "Curvature and tortuosity analyses respect geometry",
     "The maximum-curvature form of a survey keeps every original station's depth, inclination and azimuth, adds one station per leg, and stays continuous; the tortuosity and difficulty indices do not depend on the well's position or compass orientation, are zero at the start and finite, and are zero for straight wells.",
     ["inputs", "configurations"],
     "all surveys and noise settings",
     "Tests do not cover these analyses.",
     ["welleng/survey.py"],
     [("maximum_curvature, tortuosity_index, modified_tortuosity_index, directional_difficulty_index", "welleng/survey.py")],
     "all paths of the alphabet x rotations x translations")

prop("C25", "Header values given by the user are never replaced by lookups",
     "A survey header keeps every magnetic value, date and angle the user supplied whatever the magnetic-field service answers (data, error at the first or at every attempt), takes the missing ones from the service when it answers and from the documented defaults when it does not, and never fails because the service does.",
     ["fault_sequences", "configurations"],
     "all subsets of supplied values and all sequences of service answers",
     "The tests run with whatever the network gives.",
     ["welleng/survey.py"],
     [("SurveyHeader._get_mag_data", "welleng/survey.py")],
     "complete product of supplied subsets x answer sequences x angle unit",
     technique="exhaustive fault enumeration over the service's answers on the real code")

prop("C26", "Error-model workbooks and JSON models load without loss",
     "Every term of an error-model file (workbook or JSON) appears once in the loaded model with its code, magnitude, unit, propagation rule and formulas, and the uncertainty computed from it is the formula's value scaled by the magnitude in base units. A model term that cannot be evaluated is reported and contributes nothing. The well path, reference values, totals and validation values of an example workbook, and the wells, separation factors and rule of a workbook of well paths for clearance, are those of its cells, one per station.",
     ["inputs", "configurations"],
     "all term lists, units, propagation rules and column layouts",
     "Tests load the shipped files only.",
     ["welleng/errors/iscwsa_ingest.py", "welleng/errors/tool_errors.py"],
     [("parse_model_sheet and sheet parsers", "welleng/errors/iscwsa_ingest.py"),
      ("JSON tool adapter and interpreter dispatch", "welleng/errors/tool_errors.py"),
      ("import_iscwsa_collision_data", "welleng/io.py")],
     "all small term tables over units x propagation x formulas")

prop("C27", "Toolfaces, rates, control points and listings describe the path",
     "At every station of a survey the toolface is the direction, clockwise from the high side, in which the following leg turns (at the last station: in which the last leg would continue); curvature radius, build and turn rate (magnitudes, per 30 m or 100 ft) are those of the preceding leg at the station. The control points extracted from a plan of hold and curve sections are the tie-on station (repeated once) and the end of every section, in order and up to the last station, each with the depth, inclination, grid azimuth and location of its station and with the curvature, starting toolface, build rate and signed turn rate of its section, also for sections that straddle north or turn by more than half a circle; a survey through them is the plan. The data frame and the exported listing (data frame or file) hold the survey's own values row by row, first and last station included, and a survey through the listed rows ends within the tolerance asked for.",
     ["inputs", "configurations"],
     "all paths and all plans of hold and curve sections, in both units and all azimuth references",
     "Tests never look at rates, control points or listings.",
     ["welleng/survey.py", "welleng/exchange/csv.py"],
     [("Survey._get_toolface_and_rates", "welleng/survey.py"),
      ("get_sections, TurnPoint, export_csv, get_data, survey_to_df", "welleng/survey.py")],
     "all sequences of directions and of plan sections up to a depth x units x references")

prop("C28", "The mesh clearance finds every overlap of two wells",
     "For every section of the reference well below the kick-off depth the mesh clearance reports a collision exactly when the section's uncertainty tube and the offset well's tube (standard deviations times the sigma asked for, plus radii, half the project-ahead uncertainty, and the surface margin for the offset well) overlap, including when one lies entirely within the other. For sections that are apart the distance is the one between the tubes' surfaces and the separation factor is the centre distance over what the tubes take of it. The points, depths and bearing reported lie on the two wells, and the go/no-go answer without data is the same.",
     ["inputs", "configurations"],
     "all relative placements, shapes, uncertainties and settings",
     "Tests never run the mesh clearance.",
     ["welleng/clearance.py", "welleng/mesh.py"],
     [("MeshClearance._process_well, _get_mesh, _get_closest_nev", "welleng/clearance.py")],
     "complete product of placements x shapes x uncertainty profiles x settings, every section")

prop("C29", "Map coordinates and grid factors are those of the projection",
     "For every supported projection and place, the latitude and longitude found for map coordinates are those that the projection maps there, the convergence is the angle between true and grid north (positive where grid north lies clockwise of true north) and the scale factor is the map's local scale, so that a survey drilled along a true azimuth with these factors in its header ends at the map coordinates of its end. Transforming coordinates between projections takes and gives (x, y), x to the East, whatever the axis order of either projection, treats many points like each alone, and transforming back returns the coordinates.",
     ["inputs", "configurations"],
     "all places, ordered pairs of projections and forms of input",
     "Tests look at one place in one zone.",
     ["welleng/survey.py"],
     [("SurveyParameters.get_factors_from_x_y, transform_coordinates", "welleng/survey.py"),
      ("_get_azi_temp, _min_curve", "welleng/survey.py")],
     "complete product of projections x places x targets x forms of input")

prop("C30", "Plans to an inclination or to a depth take the shortest way there",
     "From any position and direction a section planned to a target inclination turns in its vertical plane, the short way and at exactly the design dogleg severity, to that inclination, or as far as the given length allows, and holds it for what is left of the length; its measured depths are the lengths drilled and the start is left as it was. A section extended to a depth ends where this path (or the straight continuation, when no inclination is asked for) first meets the depth, in one or two sections which join in position, direction and measured depth; a depth that the path never meets is refused. A curve-hold-curve path is its first arc, hold and second arc, one after the other.",
     ["inputs", "configurations"],
     "all start directions, target inclinations, dogleg severities, length limits and depths",
     "Tests drop from one direction to vertical.",
     ["welleng/connector.py", "welleng/utils.py"],
     [("drop_off, extend_to_tvd", "welleng/connector.py"),
      ("make_clc_path, get_arc", "welleng/utils.py")],
     "complete product of start directions x target inclinations x severities x length limits x depths")

prop("C31", "The validators report exactly the values that disagree",
     "The validation of an error model against a workbook compares every source at every validation depth (and every total at every station), in metres whatever the depth unit of the workbook, with the model's own value; a row passes exactly when each of its components agrees within the relative or the absolute tolerance, also where the value should be zero; sources that are not modelled are listed, a source passes when all of its rows do, and the summary and the exit status say so. The comparison with diagnostic files reads every term of every station, reports each random term as matching, nearly matching or differing by its largest difference at the stations that carry it, and names the terms it defers, cannot evaluate or does not find. The comparison of the hand-coded weighting functions with the formulas of a model reports, for every term, the largest difference between the two, or which of them is missing, and its standard survey is the ISCWSA test well.",
     ["inputs", "fault_sequences"],
     "every (row, component) x kind of change of the reference data, every term, station and axis of diagnostics, every weighting function x scaled formula, every model file that ships",
     "Tests pin the number of matching terms of four models on one survey.",
     ["welleng/errors/iscwsa_validate.py", "welleng/errors/copsegrove.py", "welleng/errors/copsegrove_validate.py", "welleng/errors/conformance.py", "welleng/errors/iscwsa_ingest.py"],
     [("validate_workbook, ValidationReport", "welleng/errors/iscwsa_validate.py"),
      ("parse_copsegrove, validate_random_terms", "welleng/errors/copsegrove_validate.py"),
      ("compare_model, standard_test_survey", "welleng/errors/conformance.py")],
     "exhaustive single-fault injection into the reference data of the validators, verdicts compared with a scalar model")

prop("C32", "Figures, scenes and targets show what the objects hold",
     "A survey's figure draws its path with East, North and depth (downwards) on the axes of these names, in the survey's own unit, and marks survey stations and interpolated stations apart, each labelled with its own position, depth, inclination and grid azimuth; the four panels show plan, vertical section along the header's azimuth and the two cross sections as titled. A mesh figure holds every triangle of the mesh, end caps included. The tension, torque and hook load figures show the model's values at its depths in the units on the axes, one pair of hook load curves per friction factor, however many there are. A circular target lies around its position with its radius, dipping by its dip in the direction of its orientation about the vertical. A scene holds each well's mesh under its name, and transforming one moves, turns and scales every mesh alike. The window draws every well in its colour, the pointer finds the nearest shown well and station, and the lines of a clearance join the closest points and carry their separation factors. Repairing a mesh gives the closed mesh that is left without repeated and degenerate triangles, and the curvature circles of a survey have one centre per leg, a radius away from both of its stations.",
     ["inputs", "configurations"],
     "all surveys, meshes, torque models, targets, units and overrides",
     "Tests never draw anything.",
     ["welleng/visual.py", "welleng/target.py", "welleng/mesh.py", "welleng/torque_drag.py"],
     [("figure, _panel, _scatter3d, _mesh3d, Plotter, get_lines", "welleng/visual.py"),
      ("Target.plot_data", "welleng/target.py"),
      ("figure_string_tension_and_torque, figure_hookload", "welleng/torque_drag.py"),
      ("make_trimesh_scene, transform_trimesh_scene, fix_mesh", "welleng/mesh.py"),
      ("get_circle_radius", "welleng/survey.py")],
     "complete product of wells x units x marks x figures, targets x dips x orientations, scenes and pointer positions, on recording stand-ins for the drawing back ends")

BY_ID = {p["id"]: p for p in P}
