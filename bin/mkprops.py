import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="curves/include/curves/"; S="curves/src/"
SPL=[I+"PolynomialSplineContainer.hpp",I+"PolynomialSplineContainer.tpp",I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineVectorSpaceCurve.hpp",I+"PolynomialSpline.hpp",I+"polynomial_splines_traits.hpp",S+"polynomial_splines_traits.cpp"]
CT=I+"PolynomialSplineContainer.tpp"
MAN=[I+"LocalSupport2CoefficientManager.hpp",I+"LocalSupport2CoefficientManager-inl.hpp",S+"KeyGenerator.cpp"]
MI=I+"LocalSupport2CoefficientManager-inl.hpp"

p("C01","A fitted spline passes through every knot",
 "For every list of at least two strictly increasing knot times with one value each, a fitted spline container, scalar curve or vector-valued curve has the given value at every given time, up to rounding. This holds for every spline order, number of knots, spacing, offset and scale of the times, magnitude of the values, and for every overload of the fit and whatever end conditions it is given.",
 ["inputs","configurations"],"all knot lists, end conditions, spline orders 1 to 5, dimensions and fit overloads",
 "The tests fit a handful of fixed knot lists, mostly quintic, and compare a few points; the system of equations has a different shape for every order, number of knots and set of end conditions.",
 SPL,[("constraint system for n splines: boundary rows, junction rows, least squares",CT+" setData, addInitialConditions, addFinalConditions, addJunctionsConditions"),("mapping of the solution to spline coefficients",CT+" setData"),("componentwise fit with the time of the first knot",I+"PolynomialSplineVectorSpaceCurve.hpp fitCurve")],
 observe=["getPositionAtTime of the container","evaluate of the curves"])
p("C02","A fitted spline has the requested end velocities and accelerations",
 "A fit that is given initial and final velocities or accelerations starts and ends with exactly these, up to rounding, for every component; a curve fitted without them starts and ends at rest. Where the order of the spline leaves too little freedom (accelerations: below order four, and order four with a single segment; velocities: below order three) that condition is dropped and all remaining ones still hold.",
 ["inputs","configurations"],"all knot lists, end conditions, spline orders, dimensions and fit overloads",
 "The tests check end derivatives of a few quintic fits with small data; wrong rows, signs or scalings show only for particular combinations of order, number of segments and non-zero conditions.",
 SPL,[("boundary rows at both ends",CT+" addInitialConditions, addFinalConditions"),("degradation to fewer conditions",CT+" setData overloads"),("lists of derivatives give the first and last ones",I+"PolynomialSplineVectorSpaceCurve.hpp fitCurve")],
 observe=["getVelocityAtTime, getAccelerationAtTime","evaluateDerivative"])
p("C03","A fitted spline is smooth across its knots",
 "At every interior knot of every fit the value of the curve is continuous, and so are its velocity and acceleration whenever the spline order is at least three and end velocities take part in the fit. This holds for any number of segments and any ratio of their durations.",
 ["inputs","configurations"],"all knot lists with interior knots, end conditions, orders, dimensions and fit overloads",
 "The tests look at junctions of one or two fixed data sets; continuity has to hold at each of arbitrarily many junctions with arbitrary neighbouring durations.",
 SPL,[("junction rows: equal position, velocity, acceleration on both sides",CT+" addJunctionsConditions")],
 observe=["one-sided evaluation at interior knots","start and end of consecutive pieces"])
p("C04","A single spline meets its boundary conditions for every duration",
 "A spline computed from a duration and boundary conditions has that duration and meets all conditions its order can meet (order one: both positions; two: also the initial velocity; three: also the final velocity; four: also the initial acceleration; five: also the final acceleration), whatever it held before. A curve or container made of a list of such descriptions consists of exactly these splines, one after the other, starting at time zero.",
 ["inputs","configurations"],"all durations and boundary values, orders 1 to 5, all ways of construction, all lists of descriptions",
 "The tests use a few boundary values at durations close to one; terms of the formulas vanish or coincide there.",
 [I+"PolynomialSpline.hpp",I+"polynomial_splines_traits.hpp",I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineContainer.tpp"],
 [("closed-form coefficients per order",I+"polynomial_splines_traits.hpp spline_rep<double, n>::compute"),("list of options",I+"PolynomialSplineScalarCurve.hpp fitCurve(options)")])
p("C05","Velocities and accelerations are the derivatives of the position",
 "Everywhere in the domain of a spline, container or curve, the reported velocity and acceleration are the first and second time derivative of the reported position, which is the polynomial given by the coefficients; copying or assigning a spline preserves it. All forms of the time vectors and of their derivatives agree with the monomials, and curves refuse derivatives they cannot provide.",
 ["inputs","configurations"],"all coefficients, durations, times, orders, ways of setting and copying splines; every time-vector function",
 "The tests evaluate derivatives at isolated points of isolated quintic fits; most time-vector functions and orders are never called by them.",
 SPL,[("time vectors and their derivatives",S+"polynomial_splines_traits.cpp and "+I+"PolynomialSpline.hpp getTimeVector, getDTimeVector, getDDTimeVector"),("evaluation as inner product",I+"PolynomialSpline.hpp getPositionAtTime, getVelocityAtTime, getAccelerationAtTime")])
p("C06","Outside of its domain a spline holds its end values",
 "Evaluating a fitted container or curve, or its derivatives, before its first or after its last time gives the value at the first or last time, also for infinite times, and the reported time range and end values are those of the data. An object without data, fresh, cleared or reset, evaluates to zero everywhere and reports a zero range.",
 ["inputs","configurations","histories"],"all fits, all times outside of the domain, all orders and dimensions",
 "The tests evaluate inside of the domain, and rarely beyond the end; the start side, derivatives and empty objects are not touched.",
 SPL,[("times are clamped to a piece",I+"PolynomialSpline.hpp"),("lookup of the piece with saturation at both ends",CT+" getActiveSplineIndexAtTime"),("empty containers answer zero",CT)])
p("C07","Playback of a container shows its value at the current time",
 "After every sequence of advancing, setting and resetting the time, appending splines, fitting (also to invalid data) and resetting, the current position, velocity and acceleration of a container equal its position, velocity and acceleration at its current time, and the active spline is the one that contains this time. Advancing adds exactly its step, forwards or backwards, to the time as long as the end has not been reached, across any number of splines per step, and otherwise changes nothing and reports failure.",
 ["histories","inputs"],"all sequences of operations on a container, all step sizes and spline durations",
 "The tests advance through one container in fixed small steps; stale cursors need particular sequences of operations (append after the end, large steps, jumps back).",
 [I+"PolynomialSplineContainer.hpp",CT],[("cursor update per operation",CT+" advance, setContainerTime, addSpline, reset, resetTime, setData")],
 state=[("container time, active spline and its offset","the playback cursor","PolynomialSplineContainer members")])
p("C08","The spline active at a time is found by its half-open interval",
 "For every container, each piece is active from its start up to but not including its end, the last one also from its end onwards and the first one also before its start; the reported index and start time of the piece and the values at that time agree with this. The container's duration is the sum of the durations of its pieces, and it counts as valid.",
 ["inputs","configurations"],"all numbers and durations of pieces, all times including piece boundaries and times outside",
 "The tests query a few interior times; boundaries between pieces, long containers and times outside are not covered.",
 [I+"PolynomialSplineContainer.hpp",CT],[("search over accumulated durations",CT+" getActiveSplineIndexAtTime")])
p("C09","Invalid knots are refused and leave nothing behind",
 "Fitting a container to fewer than two knots, to times that do not strictly increase, to times that are not finite, or to different numbers of times and positions is refused, and afterwards the container is empty, at time zero, and evaluates to zero, whatever it held before; scalar and vector curves given such knots are left empty, with a zero time range, without any trace of the old or the new data. Valid data are never refused, and give the same result afterwards as on a fresh object.",
 ["inputs","histories"],"all invalid knot lists at any place, on objects with any history",
 "No test fits invalid data to an object that already holds some.",
 SPL,[("validation before the fit",CT+" setData"),("clearing before fitting",CT+" setData, "+I+"PolynomialSplineScalarCurve.hpp")])
p("C10","The result of a fit does not depend on the history of the object",
 "After any sequence of operations (fits, failed fits, appended splines, playback, clearing, assignment), fitting, clearing or assigning an object leaves it indistinguishable from a fresh object treated likewise. A copy of a container or curve equals its original, and no operation on either changes the other.",
 ["histories"],"all histories of operations on containers, scalar and vector curves, and on copies",
 "Each test fits fresh objects once; leftovers of earlier data need a second fit after particular operations.",
 SPL,[("reset at the start of a fit",CT+" setData, reset"),("value members only, so that copies are independent",I+"PolynomialSplineContainer.hpp")])
p("C11","Fits are linear in the data, invariant under time shifts and componentwise",
 "The fit to a linear combination of two data sets with the same times is that linear combination of their fits, including derivatives. Shifting all knot times by a constant shifts the curve, its time range and its derivatives by that constant and changes nothing else, and a vector-valued curve is, component by component, the scalar quintic curve of that component's data.",
 ["inputs","configurations"],"all data sets, factors, shifts, dimensions 1, 3 and 6, and fit overloads",
 "These relations between several fits cannot be read off single examples, and tests contain none of them.",
 SPL,[("linear system with a matrix that depends on durations only",CT+" setData"),("one container per component",I+"PolynomialSplineVectorSpaceCurve.hpp"),("offset by the first knot time",I+"PolynomialSplineScalarCurve.hpp")])
p("C12","The coefficient manager is an ordered map with stable keys",
 "After every sequence of insertions, appends, modifications, updates, removals and clears, the coefficient manager contains exactly the coefficients an ordered map from time to value would contain, and reports their number, times in order, minimum and maximum time, keys, and presence by time and by key accordingly. A key stays with its coefficient while the coefficient exists, also when it is overwritten, updated or moved to another time; every new coefficient has a new key, and access by key reaches the coefficient that is listed under its time.",
 ["histories","inputs"],"all sequences of operations with all times and keys",
 "The manager's tests are not part of the build; they insert and remove a few coefficients in fixed order.",
 MAN,[("two synchronised indices: time to coefficient, key to coefficient",MI),("keys from a global generator",S+"KeyGenerator.cpp")],
 state=[("key index and time index","must refer to the same coefficients","LocalSupport2CoefficientManager members")])
p("C13","Bracket, range and window queries return exactly the supporting coefficients",
 "For every manager and time, the bracket query succeeds exactly when the time lies between the first and the last coefficient of at least two, and returns the two neighbouring coefficients around it, the earlier one at or before and the later one after that time, except that the last time belongs to the last pair. A range query adds to its output exactly the coefficients from the one at or before the start to the first one at or after the end, none if the range and the manager do not overlap; a window query up to the last time returns exactly the times from its start on.",
 ["inputs","histories"],"all managers, all times and ranges including those on, between, before and after the coefficients",
 "The tests query one manager at a few times; boundaries, single coefficients, empty managers and reversed ranges are not covered.",
 MAN,[("ordered lookup",MI+" getCoefficientsAt, getCoefficientsInRange, getTimesInWindow")])
p("C14","Copies of a coefficient manager are independent",
 "A copy of a coefficient manager, made by construction or assignment (also onto a manager with content, or to itself), equals its original and answers every query alike, by time and by key. No operation on either one, including destroying it, changes or invalidates the other. Two managers compare as equal exactly if they hold the same keys with the same times and values.",
 ["histories"],"all histories before the copy, all ways of copying, all sequences of operations on either side after it",
 "No test copies a manager and then uses the keys of the copy.",
 MAN,[("copy rebuilds the key index for its own coefficients",MI+" operator=")])
p("C15","Keys are unique, also across threads",
 "No two calls for a new key, and no two coefficients created anywhere in the process, ever get the same key, however calls from different threads interleave and however many keys were handed out before. Every key is greater than zero.",
 ["schedules","histories"],"all interleavings of key requests from several threads; long sequences of requests",
 "A test samples a few schedules of the operating system and a few thousand keys at best; the existing ones request keys from one thread.",
 [S+"KeyGenerator.cpp",I+"KeyGenerator.hpp",MI],[("counter under a lock",S+"KeyGenerator.cpp getNextKey")],
 state=[("counter","last key handed out","KeyGenerator.cpp getNextKey")])
p("C16","Separate objects and shared read-only objects can be used from several threads",
 "Threads that each work on their own splines, containers, curves or coefficient managers, and threads that only evaluate or query a shared one, never race with each other and each obtain the results they would obtain alone, under every interleaving.",
 ["schedules","programs"],"all pairs of operations on separate objects or read-only operations on a shared object, all interleavings up to a preemption bound",
 "Tests are single-threaded; hidden shared state such as caches or static scratch buffers shows only under particular interleavings.",
 [I+"PolynomialSplineContainer.tpp",I+"PolynomialSpline.hpp",I+"polynomial_splines_traits.hpp",MI,S+"KeyGenerator.cpp",S+"helpers.cpp"],
 [("no mutable shared state except the locked key counter","whole library")])
p("C17","CSV files give back exactly what was written",
 "Loading a CSV file that was written from a table of fields (free of commas and line breaks) returns the same table, including empty fields at any place and rows of different lengths. Loading a file of times and vectors returns every time and entry bit for bit, for all finite numbers and infinities, in the same order and replacing previous contents of the outputs; files with two time columns are read column by column. None of this depends on the locales that the program has selected.",
 ["inputs"],"all tables of fields; all times, values, dimensions and numbers of rows",
 "No test covers the CSV helpers.",
 [S+"helpers.cpp",I+"helpers.hpp"],[("17 significant digits",S+"helpers.cpp toString"),("field splitting",S+"helpers.cpp loadCSV")])
p("C18","Failing file operations are reported, never mistaken for success",
 "Whenever opening, writing or reading a CSV file, or closing one that was written, fails at any point, including a device that fills up, the save or load stops with an error instead of returning as if it had succeeded. Interruptions and partial transfers that can be continued do not change the result.",
 ["fault_sequences","crash_points"],"every system call of every save and load as the one that fails, with every kind of failure, and partial transfers",
 "Tests run on a healthy file system.",
 [S+"helpers.cpp"],[("stream state checked after open, write, close and read",S+"helpers.cpp loadCSV, writeCSV")])
p("C19","Cubic Hermite position curves interpolate their knots smoothly",
 "A cubic Hermite curve in three dimensions passes through every knot it was fitted to, is continuous with continuous velocity, and reports velocities and accelerations that are the derivatives of its position. Its velocity is the mean slope between the neighbours at every inner knot; at the two ends it is the given one, zero if none is given, and the mean slope across the seam for a periodic fit. Its time range is that of the knots, evaluation outside of it or of an empty curve fails, and fitting again or clearing replaces everything that was there before.",
 ["inputs","histories"],"all knot lists, end velocities, evaluation times and histories of fits",
 "The class has no test in the build.",
 [I+"CubicHermiteE3Curve.hpp",S+"CubicHermiteE3Curve.cpp"],[("Hermite basis functions",S+"CubicHermiteE3Curve.cpp evaluate, evaluateDerivative"),("knot velocities by differences",S+"CubicHermiteE3Curve.cpp calculateSlope, fitCurveWithDerivatives")])
p("C20","Cubic Hermite pose curves interpolate their knots as rigid motions",
 "A cubic Hermite pose curve passes through every knot pose, evaluates to rigid transformations with unit rotations everywhere in its time range, is continuous with continuous velocity, and reports linear and angular velocities that are the derivatives of its pose. Its velocity is the mean slope between the neighbours at every inner knot; at the two ends it is the given one, zero if none is given, and the mean slope across the seam for a periodic fit. Fitting again or clearing replaces everything that was there before. Moving all knots by a fixed transformation of the world frame moves the curve by the same transformation, evaluation outside of the range or of an empty curve fails, and a saved curve contains the times and poses of the curve.",
 ["inputs","histories"],"all knot poses and times, all evaluation times, all histories of fits, clears and copies",
 "The tests of the class need a library that is not installed, and check a few poses.",
 [I+"CubicHermiteSE3Curve.hpp",S+"CubicHermiteSE3Curve.cpp",S+"SE3Curve.cpp"],[("Hermite interpolation of position and of the rotation via the exponential map",S+"CubicHermiteSE3Curve.cpp evaluate, evaluateDerivative")])
p("C21","Sampling policies keep the prescribed knots",
 "A pose curve that is extended measurement by measurement has exactly the knots its sampling policy prescribes, whatever the sequence of extensions. Slerp, sampling ratio n: the first two measurements are knots; of every n single measurements that follow, the first becomes a new last knot and the other n-1 replace the last knot; measurements passed several at once are all kept and do not count; clearing or fitting starts over. Hermite, n measurements and a minimum period: the first measurement is a knot; each later one moves the provisional last knot, until n measurements were counted and more than the period has passed since the last final knot: then the measurement replaces the provisional knot and is final; final knots keep their time and pose, and a measurement that is not later than the last one is refused.",
 ["histories","configurations"],"all sequences of extensions, fits and clears, all policy settings",
 "The tests of the classes are not part of the build, and use one setting each.",
 [I+"SamplingPolicy.hpp",S+"SlerpSE3Curve.cpp",S+"CubicHermiteSE3Curve.cpp",I+"SlerpSE3Curve.hpp",I+"CubicHermiteSE3Curve.hpp"],[("policy state: measurements since last extension, last time",I+"SamplingPolicy.hpp"),("extend specialisations",S+"SlerpSE3Curve.cpp, "+S+"CubicHermiteSE3Curve.cpp")])
p("C22","Trajectory messages become curves with the same knots",
 "A joint or pose trajectory message is converted to a curve whose knots are the message's points in order: their times from start, and the values of the requested joint, found by name. A message that does not contain the joint is refused and leaves the previous curve as it was, and nothing of an earlier message remains after a conversion.",
 ["inputs","histories"],"all messages: joint names, numbers of points, times, presence of velocities and accelerations; all sequences of conversions",
 "The package has no tests, and needs ROS.",
 ["curves_ros/src/RosJointTrajectoryInterface.cpp","curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp","curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp"],[("search of the joint, copy of the points, fit","fromMessage of each interface")])
p("C23","Misuse of the coefficient manager is detected",
 "A request that the coefficient manager documents as an error (an unknown key or time, a time that is already taken, not at the end or not a number, different numbers of times and values, a batch that does not match the stored times, a missing output of a query) ends with a failed check, in whatever state the manager is. It never returns normally, and never touches memory it does not own.",
 ["histories","inputs"],"all erroneous requests in all states reachable by valid operations",
 "Each erroneous request ends the process; tests of them would be one process per state and request.",
 MAN,[("checks at the start of the operations",MI)])
p("C24","Queries change nothing",
 "The answer to any evaluation or query of a container or curve depends only on the object and the arguments: not on the queries made before, on this object or another, and no query changes the object.",
 ["histories"],"all sequences of queries on all kinds of objects, interleaved between two objects",
 "Tests ask each object in one fixed order; caches and static buffers show only under particular orders.",
 SPL,[("const queries without caches","whole spline library")])
p("C25","Requests that cannot be met are refused",
 "Saving a table without rows or with a row without fields, saving times and vectors that are not equally many, are none, or differ in dimension, and loading a file of times and vectors that is empty, has a row with fewer fields than the first one or with no value, or with a missing output, each end with an error; refused times and vectors leave an existing file as it was. So do fits and extensions of Hermite and slerp curves with different numbers of times and values, periodic fits of fewer than two knots, and extensions and transformations that a curve does not implement. None of these returns as if it had succeeded or touches memory it does not own, and data that have none of these faults are not refused.",
 ["inputs"],"all tables, lists of times and vectors, files and lists of knots with each of these faults",
 "Each refusal ends the process or throws; no test makes such a request.",
 [S+"helpers.cpp",S+"CubicHermiteE3Curve.cpp",S+"CubicHermiteSE3Curve.cpp",S+"SlerpSE3Curve.cpp",I+"PolynomialSplineScalarCurve.hpp",I+"PolynomialSplineVectorSpaceCurve.hpp"],[("checks of numbers and dimensions",S+"helpers.cpp"),("checks at the start of fits","fitCurve, fitPeriodicCurve, extend of each curve")])
p("C26","Files of samples show the curve",
 "A file of n samples of a Hermite position or pose curve has a header that names its columns and n rows, with times equally spaced from the first to the last time of the curve, and in each row the position or pose and the velocities of the curve at that time, to the six decimals that are written. The call returns true only if the whole file was written; for a curve without knots, or when opening, writing or closing the file fails at any point, it returns false.",
 ["inputs","fault_sequences"],"all curves and numbers of samples; every system call as the one that fails",
 "No test writes such a file.",
 [S+"CubicHermiteE3Curve.cpp",S+"CubicHermiteSE3Curve.cpp"],[("writeEvalToFile","both files")])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
