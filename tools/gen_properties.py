#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept readable here; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
I='curves/include/curves/'; S='curves/src/'
TR=I+'polynomial_splines_traits.hpp'; PS=I+'PolynomialSpline.hpp'
CH=I+'PolynomialSplineContainer.hpp'; CT=I+'PolynomialSplineContainer.tpp'
SC=I+'PolynomialSplineScalarCurve.hpp'; VC=I+'PolynomialSplineVectorSpaceCurve.hpp'
MH=I+'LocalSupport2CoefficientManager.hpp'; MI=I+'LocalSupport2CoefficientManager-inl.hpp'

prop('C01','A single polynomial spline meets every boundary condition of its order',
 "A polynomial spline of order 1 to 5 computed from a duration and boundary values takes exactly the boundary values its order can represent, up to rounding: start and end position for order 1, plus start velocity for order 2, plus end velocity for order 3, plus start acceleration for order 4, plus end acceleration for order 5. It reports the requested duration, and this holds however the spline was constructed, recomputed, copied, moved or assigned.",
 ['inputs','histories'], "all boundary values and all durations from a microsecond to a day, orders 1-5, all ways of (re)computing and passing on a spline",
 "The tests sample a few random cubic and quintic splines; orders 1, 2 and 4 and recomputed or copied splines are never evaluated.",
 [TR,PS,S+'polynomial_splines_traits.cpp'], [('spline_rep<double,N>::compute',TR),('PolynomialSpline::computeCoefficients',PS)], ['PolynomialSpline::getPositionAtTime/getVelocityAtTime/getAccelerationAtTime/getSplineDuration'])

prop('C02','Values, derivatives and time vectors of a spline are one polynomial',
 "Inside its duration a spline evaluates to the polynomial given by its coefficients (highest power first), its velocity to the first and its acceleration to the second derivative of that same polynomial. The time-vector functions (value, first and second derivative, at a time or at zero, assigning or adding) return exactly the monomials whose product with the coefficients is that value, for every time, also outside the duration, and every supported vector or matrix-block argument.",
 ['inputs'], "all coefficient vectors, times and durations, orders 1-5, all time-vector entry points and argument kinds",
 "Tests never call most time-vector functions and compare derivatives at a handful of points of two orders.",
 [TR,PS], [('tau/dtau/ddtau, tauZero/dtauZero/ddtauZero',TR),('get*/add*TimeVector*',PS)], ['PolynomialSpline evaluation and static time-vector API'])

prop('C03','Outside its time range a trajectory holds its boundary values',
 "Evaluated before its start a spline, a spline container, and a scalar or vector polynomial curve return position, velocity and acceleration of their start, and after their end those of their end, no matter how far outside. The end values of a container are the values at its end time, and evaluation never fails or extrapolates.",
 ['inputs'], "all trajectories and all query times including huge and infinite ones, just inside/outside the boundaries, any number of segments",
 "Tests query two or three fixed times just beyond the end of one fixed curve.",
 [PS,CT,SC,VC], [('clamping of the local time',PS),('getActiveSplineIndexAtTime',CT)], ['*AtTime, evaluate, evaluateDerivative, getEnd*'])

prop('C04','A fitted container passes through all knots with C2 junctions',
 "Fitting a container to two or more knots with strictly increasing times makes it pass through every knot position and honour the given start and end velocity (orders 3 to 5) and acceleration (order 5; order 4 with three or more knots), with continuous velocity and acceleration at every interior knot. Where the order has too few coefficients the documented fallback applies instead: order 3 (and order 4 with two knots) drops the boundary accelerations only, orders 1 and 2 and the fit without derivatives give the piecewise linear interpolation. Each segment lasts as long as its knot interval and the fit reports success.",
 ['inputs'], "all knot sequences (2-130 knots, spacing 5 ms to 1000 s, any start time) and boundary derivatives, orders 1-5, three fit overloads",
 "Tests fit a few fixed knot lists of order 5 and sample positions; velocity and acceleration continuity at junctions and other orders are not checked.",
 [CH,CT], [('setData (three overloads)',CT),('addInitialConditions/addFinalConditions/addJunctionsConditions',CT),('extractSplineCoefficients',CT)], ['setData result, getSplines, *AtTime'])

prop('C05','Active-segment lookup, offsets and total duration agree',
 "For any container the segment reported active at a time is the one whose half-open interval contains that time (first segment before the start, last at or after the end, none when empty), the reported offset is the summed duration of the segments before it, and the container's duration is the sum of all segment durations. Position, velocity and acceleration at a time are those of that segment at the time minus that offset.",
 ['inputs','histories'], "all containers built by adding segments (moved or copied in, any duration, with or without reserving) or by fitting, all times including exact junctions",
 "Tests look up five times in a fixed container of three segments.",
 [CH,CT], [('getActiveSplineIndexAtTime',CT),('addSpline',CH)], ['getActiveSplineIndexAtTime, getContainerDuration, *AtTime, getSplines, getSpline'])

prop('C06','The container clock is equivalent to evaluating at the clock time',
 "After any sequence of advancing, jumping, resetting the time, adding segments, fitting and clearing, position, velocity and acceleration at the internal time equal those at that explicit time, and the reported clock time is the jump target plus all accepted steps. A step is accepted if and only if the container is non-empty and the clock is before the end, a refused step changes nothing, and after a step or jump that lands strictly inside a segment the active index is that segment (after resetting the time: the first one). The container's self check passes if and only if the clock time is between zero and the duration and every segment has a non-negative duration and coefficients that are numbers.",
 ['histories'], "all operation sequences, including steps that span several segments, steps that land on junctions, jumps on an empty container, and segments appended after the end was reached",
 "The tests do not exercise the clock (advance / setContainerTime / resetTime) at all.",
 [CH,CT], [('advance/setContainerTime/resetTime/reset',CT),('getPosition/getVelocity/getAcceleration',CT)], ['the public clock API'], state=[('containerTime_','current clock time',CH),('activeSplineIdx_, timeOffset_','cached active segment',CH)])

prop('C07','Fitting rejects invalid knots and leaves an empty container',
 "A fit with fewer than two knots, with knot times that do not strictly increase, or with different numbers of times and positions returns failure and leaves the container empty (zero duration, no segments), whatever it held before and whichever fit overload and order is used. The next valid fit then behaves like on a fresh container.",
 ['inputs','histories'], "all malformed knot lists at all positions, orders 1-5, three fit overloads, any previous content",
 "No test passes an invalid knot list.",
 [CT], [('input validation in setData',CT)], ['setData result, isEmpty, getContainerDuration, getSplines'])

prop('C08','A scalar curve interpolates its samples on its own time axis',
 "A quintic scalar curve fitted to samples starts at the first and ends at the last sample time, evaluates to every sample at its time, and has the requested velocity and acceleration (zero if none are given) at both ends; its first and second derivative are the time derivatives of its value and any other derivative order is refused. Shifting all sample times, or all values, shifts the curve likewise, and a curve built from a list of segment options plays those segments one after the other from time zero.",
 ['inputs'], "all sample sets (2-30 samples, spacing 5 ms to 1000 s, positive, negative and large start times), boundary derivatives and segment option lists",
 "Tests fit a few fixed samples; one start time other than zero.",
 [SC,CT], [('time mapping with the start time',SC),('fitCurve overloads',SC)], ['fitCurve, evaluate, evaluateDerivative, getMinTime, getMaxTime'])

prop('C09','A vector curve is the componentwise scalar curve',
 "In every component a vector-space polynomial curve of any dimension has the same time range, values, first and second derivatives as the scalar curve fitted to that component with the same boundary derivatives, for all ways of giving the boundary derivatives (none, four vectors, or per-sample lists of which first and last count). Other derivative orders are refused.",
 ['inputs'], "all sample sets, start times and boundary derivatives; dimensions 1, 2, 3 and 6",
 "Tests evaluate one 3D curve that starts at time zero.",
 [VC,SC], [('per-component containers',VC),('time mapping with the start time',VC)], ['fitCurve, evaluate, evaluateDerivative, getMinTime, getMaxTime'])

prop('C10','A new fit fully replaces the old curve and clear empties it',
 "After any history of fits, failed fits, clears, clock operations and evaluations, fitting a container, scalar or vector curve gives the same result as fitting a fresh object to the same data, and clearing gives an object that behaves like a fresh one. Copies of a container or curve keep their own content when the original is changed or destroyed.",
 ['histories'], "all operation histories on one object, all fit overloads, copies and assignments at any point",
 "Tests use each object for a single fit.",
 [CT,SC,VC], [('reset/clear',CT),('fitCurve',SC),('fitCurve/clear',VC)], ['evaluate*, getMinTime, getMaxTime, getSplines'])

prop('C11','The coefficient manager is a time-ordered map with stable keys',
 "Under any sequence of inserting, overwriting, appending, moving, updating, batch-updating, removing and clearing coefficients, a coefficient manager holds exactly the coefficients of a time-ordered reference map: lookups by key and by time, sizes, minimum and maximum time, the sorted time and key lists and the full listing all agree, and its own consistency check passes. A coefficient keeps its key, and its value, until it is overwritten, updated or removed; a removed key is never reported again.",
 ['histories'], "all operation sequences on one or several managers, negative and clustered times",
 "The manager tests do not pass in this build; as written they insert once and remove once.",
 [MH,MI], [('timeToCoefficient_ and keyToCoefficient_ kept in step',MI)], ['the public manager API'], state=[('timeToCoefficient_','time -> (key, coefficient)',MH),('keyToCoefficient_','key -> entry',MH)])

prop('C12','Bracketing and window queries return exactly the neighbouring coefficients',
 "For every time within a manager's range the bracketing query succeeds and returns the two adjacent coefficients with time0 <= t < time1 (the last two at the maximum time), and outside the range or with fewer than two coefficients it fails. The range query returns the coefficients needed to evaluate the curve on the range (from the last one at or before the start up to the first one at or after the end, clipped to the curve), and the window query all coefficient times from the window start to the end.",
 ['inputs','histories'], "all manager contents and query times, including exact coefficient times, adjacent floating-point neighbours and ranges reaching beyond the curve",
 "The tests for this do not pass in this build and query one evenly spaced set.",
 [MI], [('getCoefficientsAt',MI),('getCoefficientsInRange',MI),('getTimesInWindow',MI)], ['getCoefficientsAt, getCoefficientsInRange, getTimesInWindow'])

prop('C13','Copies of a coefficient manager are independent and compare equal',
 "A copied or assigned coefficient manager holds the same times, keys and values as its source and compares equal to it; afterwards neither sees changes made to, or the destruction of, the other. Two managers compare equal exactly if they hold the same times with the same keys and values.",
 ['histories'], "all manager contents, copy/assign/self-assign/swap points and subsequent modification histories on either side",
 "No test copies or compares managers.",
 [MH,MI], [('copy construction and assignment',MI),('equals',MI)], ['copy constructor, operator=, equals, all accessors'])

prop('C14','Coefficient keys are globally unique and increase with time',
 "No key is ever handed out twice in a process, whichever threads and coefficient managers ask for keys and however their requests interleave. A request that starts after another one has returned gets a larger key, and requesting keys is free of data races.",
 ['schedules','histories'], "all interleavings of any number of requesting threads, directly or by inserting into different managers",
 "No test requests keys from more than one thread.",
 [S+'KeyGenerator.cpp',MI], [('mutex around the counter',S+'KeyGenerator.cpp')], ['KeyGenerator::getNextKey, insertCoefficient(s), addCoefficientAtEnd'])

prop('C15','No memory error or undefined behaviour on any valid use of the API',
 "Any sequence of valid calls on splines, containers, scalar, vector, Hermite and slerp curves, coefficient managers and CSV helpers runs without out-of-bounds access, use after free, leak, invalid iterator, signed overflow or other undefined behaviour, and without reading uninitialised memory. Invalid knot lists and empty objects count as valid use: they are rejected or evaluated to zero (Hermite curves: refused), not undefined.",
 ['inputs','histories'], "all call sequences and inputs, mixed over all classes of the library",
 "Tests run without sanitizers on a few fixed inputs, and even contain an out-of-bounds read themselves.",
 [CT,PS,SC,VC,MI,S+'helpers.cpp',S+'CubicHermiteE3Curve.cpp',S+'CubicHermiteSE3Curve.cpp',S+'SlerpSE3Curve.cpp'], [('index and iterator arithmetic',CT),('iterator index',MI)], ['AddressSanitizer, UBSan, debug containers, memcheck'])

prop('C16','Concurrent evaluation is race-free and pure',
 "Any number of threads may evaluate the same container, curve or coefficient manager concurrently through its const interface, and use different objects concurrently in any way, without data races. Every result equals the one of a single-threaded evaluation, and evaluating never changes what a later evaluation returns.",
 ['schedules'], "all interleavings of concurrent const calls on shared objects and arbitrary calls on separate objects",
 "No test uses threads.",
 [PS,CT,SC,VC,MI], [('const methods without mutable or static state',CT)], ['ThreadSanitizer; values returned by *AtTime, evaluate, evaluateDerivative, getCoefficientsAt'])

prop('C17','CSV files written by the library load back unchanged',
 "Writing times with vectors, or a matrix of non-empty strings without commas and newlines, to a CSV file and loading it back yields the same number of rows and columns, bit-identical finite numbers and identical strings, whatever locale (decimal separator, digit grouping) the process has set. The two-time format reads the first two columns as times and the remaining ones as the vector, and loading first discards what the output arguments held.",
 ['inputs'], "all finite doubles (denormals, extremes, negative zero), 1-300 rows, 1-20 columns, all such strings",
 "No test covers the CSV helpers.",
 [S+'helpers.cpp',I+'helpers.hpp'], [('toString precision, column offsets',S+'helpers.cpp')], ['writeCSV/loadCSV, writeTimeVectorCSV/loadTimeVectorCSV, loadTimeTimeVectorCSV'])

prop('C18','A Euclidean Hermite curve interpolates knots with Catmull-Rom tangents',
 "A cubic Hermite position curve passes through all its knots, has the given (by default zero) velocity at both ends and at every inner knot the slope between its two neighbours, and in between is the cubic defined by these values; first and second derivative are the derivatives of that cubic. Outside the knot range, and on an empty curve, evaluation fails; a new fit replaces the old curve and, if asked for keys, appends one new key per knot to the list.",
 ['inputs','histories'], "all knot sets (1-30 knots, positive and negative times), boundary velocities and query times",
 "No test covers the Euclidean Hermite curve.",
 [S+'CubicHermiteE3Curve.cpp',I+'CubicHermiteE3Curve.hpp'], [('fitCurveWithDerivatives, calculateSlope',S+'CubicHermiteE3Curve.cpp'),('evaluate, evaluateDerivative',S+'CubicHermiteE3Curve.cpp')], ['fitCurve*, evaluate, evaluateDerivative, size'])

prop('C19','A periodic Hermite fit has matching, Catmull-Rom consistent ends',
 "Fitting a periodic Hermite curve (Euclidean or rigid-body) to knots whose first and last point coincide gives equal velocities at start and end, namely the slope between the last-but-one and the second knot taken across the seam of the period. All knots are interpolated, and keys handed out, as in the non-periodic fit.",
 ['inputs'], "all periodic knot sets with 2 or more knots and non-uniform spacing",
 "No test fits a periodic curve.",
 [S+'CubicHermiteE3Curve.cpp',S+'CubicHermiteSE3Curve.cpp'], [('fitPeriodicCurve',S+'CubicHermiteE3Curve.cpp')], ['fitPeriodicCurve, evaluateDerivative at both ends'])

prop('C20','A rigid-body Hermite curve interpolates poses and has consistent twists',
 "A rigid-body Hermite curve passes through all its pose knots, always returns unit rotations, takes the given twists at its ends and the neighbour slope at inner knots, and its translational and rotational velocity and linear acceleration are the time derivatives of its pose. Between two knots its position is the cubic, and its rotation the cumulative quaternion curve of Kim, Kim and Shin, given by the poses and twists of these knots. Moving all poses, or the fitted curve itself, by a fixed rigid motion from the left moves the whole curve by it, and evaluation outside the knot range or on an empty curve fails. A fit that is asked for keys appends one new key per knot to the list.",
 ['inputs','histories'], "all pose sets (1-20 knots, arbitrary rotations up to sign), boundary twists and query times",
 "The repository's test of this class needs an absent library and samples a few fixed poses.",
 [S+'CubicHermiteSE3Curve.cpp',I+'CubicHermiteSE3Curve.hpp'], [('evaluate, evaluateDerivative, evaluateLinearAcceleration',S+'CubicHermiteSE3Curve.cpp')], ['fitCurve*, evaluate, evaluateDerivative, saveCurve*'])

prop('C21','Sampling policies keep exactly the intended coefficients',
 "Extending a rigid-body Hermite curve through its sampling policy keeps one permanent coefficient per completed measurement group (group size and minimum sampling period as configured) plus the newest measurement, so that the curve always ends at the newest time and pose; a permanent coefficient that has permanent neighbours on both sides has the slope between them as its velocity. Extending a spherical-linear curve one measurement at a time keeps every measurement at ratio one and otherwise one coefficient per group plus the newest; several measurements extended at once are all kept, and setting coefficients between groups adds or replaces them without clearing the curve; the past is never changed, and a cleared or newly fitted curve starts with a new group. The policy reports its configuration, the measurements of the current group and the time of the last permanent coefficient of a Hermite curve.",
 ['histories'], "all measurement sequences, group sizes and minimum periods",
 "No test extends a curve through a sampling policy.",
 [I+'SamplingPolicy.hpp',I+'CubicHermiteSE3Curve.hpp',I+'SlerpSE3Curve.hpp'], [('SamplingPolicy::extend specialisations',I+'CubicHermiteSE3Curve.hpp')], ['curve times, poses and velocities after each extend'])

prop('C22','Trajectory messages become curves through exactly the named joint',
 "Loading a curve from a ROS joint or multi-DOF trajectory message fits the points of the named joint, wherever it stands in the joint list, at their time from start, and replaces the previous curve. If the message does not contain the joint (also if it names no joints at all), or one of its points has no value for it, loading returns failure and leaves the curve as it was.",
 ['inputs','histories'], "all messages with 0-6 (rarely up to 60) joints and 0-20 points (any time from start, negative included), complete or not, all joint positions, any previous curve",
 "There is no test for the ROS package, and ROS is not installed here.",
 ['curves_ros/src/RosJointTrajectoryInterface.cpp','curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp','curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp'], [('fromMessage','curves_ros/src/RosJointTrajectoryInterface.cpp')], ['fromMessage result and evaluate'])

prop('C23','Documented misuse stops the program instead of corrupting data',
 "Calls documented as errors (a key or time that does not exist, appending at or before the maximum time, moving a coefficient onto an occupied time, lists of different length (also in Hermite and slerp fits), missing output arguments, batch updates of absent times, time windows outside the curve, unreadable, unwritable, empty, too narrow or ragged CSV files, nothing to write, segment indices out of range, periodic fits of fewer than two points, extending a Hermite or slerp curve into the past, functions that are declared but not implemented) end in a fatal check or an exception, and never return normally. No undefined behaviour occurs on the way.",
 ['inputs','histories'], "all documented misuse kinds from arbitrary preceding object states",
 "No test exercises these error paths.",
 [MI,S+'helpers.cpp',CT,S+'CubicHermiteE3Curve.cpp',S+'CubicHermiteSE3Curve.cpp',S+'SlerpSE3Curve.cpp'], [('CHECK macros',MI),('CHECK macros',S+'helpers.cpp')], ['termination of a forked process, its diagnostics'])

prop('C24','Exported Hermite curve files hold exactly what the curve evaluates to',
 "A file written by saveCurveTimesAndValues or saveCurveAtTimes of a rigid-body Hermite curve loads back as the coefficient times, or the requested times in the requested order, each with the position and quaternion (w first) the curve evaluates to there; a requested time outside the curve stops the program instead of saving a pose the curve does not have. writeEvalToFile of a Euclidean or rigid-body curve writes a header naming its columns and then the requested number of equally spaced samples from the start to the end of the curve, each with the value and first derivative there to six decimals; it returns failure if the file cannot be opened or the curve is empty.",
 ['inputs'], "all fitted curves, sample counts, requested times (any order, repeated) and file states",
 "No test writes a curve file.",
 [S+'CubicHermiteSE3Curve.cpp',S+'CubicHermiteE3Curve.cpp',S+'helpers.cpp'], [('saveCurveAtTimes, writeEvalToFile',S+'CubicHermiteSE3Curve.cpp'),('writeEvalToFile',S+'CubicHermiteE3Curve.cpp')], ['the written file, read back'])

prop('C25','Printing a curve shows what it holds and changes nothing',
 "Printing a Hermite or slerp curve writes the given title, the number of coefficients, the first and last time and then every coefficient in time order with its key, its position (not for slerp) and its time to standard output; a slerp curve of two or more coefficients also its average time and distance between them. Printing a fitted quintic scalar curve writes equally spaced samples from the start to the end of the curve, each with time, value, first and second derivative. The curve is the same afterwards, and an empty Hermite or slerp curve prints without failing.",
 ['inputs'], "all curves with any number of coefficients, including none and one, and all titles",
 "No test prints a curve.",
 [S+'CubicHermiteSE3Curve.cpp',S+'CubicHermiteE3Curve.cpp',S+'SlerpSE3Curve.cpp',SC], [('print',S+'CubicHermiteSE3Curve.cpp'),('print',S+'CubicHermiteE3Curve.cpp'),('print',S+'SlerpSE3Curve.cpp')], ['standard output of a print call'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
