#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
N = "nytl/"
RC = [N+"recursiveCallback.hpp"]
p("C01", "A recursive callback call runs exactly the handlers registered at its start",
  "Each call of a recursive callback runs, exactly once and in registration order, every handler that was registered when that call began, including those removed while it is running, unless a handler throws. It never runs a handler added after it began or removed before it began. This holds however deeply calls, additions, disconnects and clears are nested inside running handlers.",
  ["histories"], "every sequence of add, disconnect, clear and call, including operations issued from inside handlers at any nesting depth, over any number of handlers",
  "The tests run a dozen hand-written nestings with at most five handlers; the guarantee ranges over all interleavings of nested operations and list shapes.",
  RC, [("subscription list, last_ snapshot and negated call ids", "RecursiveCallback::call"), ("marking a removal with the current call id", "RecursiveCallback::disconnect / clear")],
  ["order and number of handler invocations per call"],
  [("subs_", "ordered list of subscriptions; id > 0 live, id = -k removed during call k", "recursiveCallback.hpp"), ("callID_", "id of the most recent call", "recursiveCallback.hpp"), ("last_", "last list entry", "recursiveCallback.hpp")])
p("C02", "Disconnect and clear remove exactly the named handlers",
  "Disconnecting a registered handler from a recursive callback returns true and removes that handler and no other; disconnecting one that was already removed, by any means, returns false and changes nothing. Clearing removes all registered handlers and nothing else, and handlers added afterwards are unaffected by earlier removals. This holds whether or not calls are running.",
  ["histories"], "every history of adds, disconnects, clears and (nested) calls, and every position of the removed handler in the list",
  "Tests remove a few handlers at fixed positions; they never disconnect twice during iteration, nor remove in every position with tracked and untracked ids.",
  RC, [("id lookup over the forward list, first element special-cased", "RecursiveCallback::disconnect"), ("clear while iterating", "RecursiveCallback::clear")],
  ["return value of disconnect", "handlers run by later calls"])
p("C03", "Removed handlers are released exactly when the last running call ends",
  "A handler removed from a recursive callback outside any call is released at once; one removed while calls are running stays intact until the outermost call ends, normally or by exception, and is then released. Every identifier is notified of its removal exactly once, at release or at destruction of the callback. A released handler may itself use the callback from its destructor. After any history the callback is as usable as a fresh one and no memory is accessed after release or leaked.",
  ["histories", "fault_sequences"], "every history of operations, nesting depth, position of removed handlers in the list, and every exit of the outermost call",
  "Tests check a handful of removals at the outermost level; they do not observe when handlers are destroyed or how often an id is notified for every list shape.",
  RC, [("iteration counter and deferred clean-up", "RecursiveCallback::call / removeOld"), ("destructor notifications", "RecursiveCallback::~RecursiveCallback")],
  ["destruction of handler objects", "id notifications", "memory errors"],
  [("iterationCount_", "number of running calls", "recursiveCallback.hpp")])
p("C04", "Handler exceptions propagate and leave a callback usable",
  "If a handler throws during a call, that same exception reaches the caller of the callback, no later handler of that call runs, and every other registered handler stays registered. Afterwards the callback (recursive or plain) behaves as if that call had returned: later calls run all registered handlers, removals requested during the failed call have taken effect, and an enclosing call still running continues correctly.",
  ["fault_sequences", "histories"], "every handler position that throws, at every nesting depth, combined with any operations before and after",
  "Only one test throws from one handler; the quantifier ranges over all throw positions and nesting levels.",
  RC + [N+"callback.hpp", N+"scope.hpp"], [("scope guard decrementing the iteration counter", "RecursiveCallback::call"), ("plain loop without catch", "Callback::call")],
  ["exception seen by the caller", "handlers run by later calls"])
p("C05", "Tracked connections report registration status truthfully",
  "A tracked connection reports connected exactly while its handler is registered: it turns to disconnected as soon as the handler is removed through this connection, another copy of it, a clear, an assignment that replaces all handlers, or destruction of the callback, and never earlier. Untouched handlers keep their connections connected. This holds for recursive and plain callbacks, inside and outside of running calls.",
  ["histories"], "every history of operations and every way of removing a handler, for each of any number of connections",
  "Tests check single removals of the first handler; wrong notification of a neighbouring entry only shows at other positions or in deferred clean-up.",
  RC + [N+"callback.hpp", N+"connection.hpp"], [("shared identifier value", "TrackedConnectionID"), ("removal notifications", "disconnect / clear / removeOld / destructors")],
  ["connected() of every connection"])
p("C06", "Every handler receives the caller's arguments; results come in order",
  "A call of a plain or recursive callback hands every handler it runs the argument values given by the caller: an earlier handler cannot consume or alter a by-value argument seen by a later one, and reference arguments refer to the caller's object. For non-void signatures the returned sequence holds exactly the results of the handlers that ran, in the order they ran.",
  ["inputs", "histories"], "all argument values and value types, any number of handlers",
  "Tests pass ints to callbacks, for which moving from an argument is invisible; only types with destructive moves and several handlers show a difference.",
  RC + [N+"callback.hpp"], [("argument forwarding inside the handler loop", "RecursiveCallback::call, Callback::call"), ("result vector", "call")],
  ["argument values seen by handlers", "returned vector"])
p("C07", "A plain callback calls all registered handlers in registration order",
  "Without re-entrancy, a plain callback call runs exactly the currently registered handlers once each, in registration order. Every successful add yields an id that differs from all earlier ones and connects exactly that handler; adding an empty function throws invalid_argument and changes nothing. Disconnecting a registered id removes exactly that handler and returns true, any other id returns false without effect; clear and replacing assignment remove all earlier handlers.",
  ["histories"], "every sequence of add, disconnect, clear, replace and call, over any number of handlers",
  "Tests exercise fewer than five handlers in fixed order; the binary search over ids and the erase must be right for every size and position.",
  [N+"callback.hpp"], [("ids ascending in the vector; binary search", "Callback::disconnect"), ("monotone id counter", "Callback::add")],
  ["order of invocations", "return value of disconnect"], [("subs_", "subscriptions ordered by id", "callback.hpp"), ("subID_", "highest id handed out", "callback.hpp")])
p("C08", "Connections disconnect once; unique connections own theirs",
  "Disconnecting a connection object disconnects its own id from its own connectable at most once and leaves it empty; an empty connection never reports connected and disconnecting it does nothing. A unique connection disconnects the connection it owns exactly once, when disconnected, destroyed or overwritten; a standard exception thrown while disconnecting does not escape destruction or overwriting. Moving from it or releasing it transfers that duty, with connectable and id, and leaves it empty.",
  ["histories", "inputs"], "every sequence of construction, move, assignment, release, disconnect and destruction, for every connectable and id",
  "The one connection test destroys a single guard; double disconnects after moves, self ownership and release are not exercised.",
  [N+"connection.hpp"], [("owner resets", "ConnectionT, UniqueConnectionT move/assign/release/destructor")],
  ["calls made to the connectable's disconnect", "connected(), id(), connectable()"])
p("C09", "Scope guards run exactly on the exits they promise",
  "Leaving a guarded scope runs the guard's function exactly once if the exit is of the promised kind: a scope guard on any exit, a success guard only when no new exception is propagating, an exception guard only when a new one is; an unset guard runs nothing. Exceptions already in flight when the guard was created do not count as failures of its scope. Exceptions thrown by the function itself never leave the guard.",
  ["fault_sequences", "inputs"], "every exit kind, every number of exceptions in flight at creation, guard functions that return or throw anything",
  "Tests cover guards at exception depth zero or one; the rule must hold for any number of in-flight exceptions and any throwing guard function.",
  [N+"scope.hpp"], [("uncaught exception count at construction versus destruction", "ScopeGuard")],
  ["invocations of the guard function", "exceptions escaping the destructor"])
p("C10", "Cloning preserves the dynamic type and state of an object",
  "Cloning an object through a reference to any of its cloneable bases yields a distinct object of the same dynamic type, holding a copy of the full state, owned through a pointer valid for that base. Clone-moving yields an object of the same dynamic type that received the source's state by move. This holds for every hierarchy built from the provided helpers, including multiple bases and bases not placed first in the object.",
  ["programs", "inputs"], "all class hierarchies built with the helpers and all object states",
  "The tests clone through first bases, where an untyped pointer happens to coincide with the base pointer.",
  [N+"clone.hpp"], [("virtual doClone/doCloneMove returning untyped pointers", "clone, cloneMove, DeriveCloneable")],
  ["dynamic type, state and address of the clone"])
p("C11", "UTF-8 character counting and indexing agree with the encoding",
  "For every valid UTF-8 string the character count equals the number of encoded code points, and looking up character n yields exactly the bytes of the n-th code point (zero terminated in the array form, with its byte length and a reference to its first byte in the reference forms). Looking up an index not below the character count throws out_of_range. No byte outside the string is read.",
  ["inputs"], "all valid UTF-8 byte strings of any length, all indices",
  "Tests use three short literals; code point lengths 1 to 4 at every offset and indices beyond the end are not covered.",
  [N+"utf.hpp"], [("lead byte decoding loop", "charCount, nth")], ["return values", "memory reads"])
p("C12", "UTF transcoding is lossless",
  "Converting any sequence of Unicode scalar values between UTF-8, UTF-16 and UTF-32 yields the standard encoding of the same sequence in the target form, so converting there and back returns the original string.",
  ["inputs"], "all valid strings in any of the three encodings",
  "Tests convert one short literal; surrogate pairs, 3- and 4-byte sequences and embedded zeros are not sampled.",
  [N+"utf.hpp"], [("wstring_convert facets", "toUtf8, toUtf16, toUtf32")], ["converted strings"])
p("C13", "Spans view exactly the described elements",
  "A span made from a pointer and count, pointer pair, array, container or other span refers to exactly those elements: data, size, byte size, emptiness, iteration in both directions and indexed access all agree with the source, and no construction copies elements. First, last and subspan views refer to exactly the requested sub-range for every valid request, and byte views cover exactly the bytes of the elements. Span comparisons equal lexicographic comparison of the viewed sequences (of equal length for equality).",
  ["inputs"], "all element counts, offsets and counts within range, fixed and dynamic extents, several element types",
  "Tests view a few small arrays with constant offsets.",
  [N+"span.hpp"], [("pointer/extent storage", "span, extent_type, make_subspan"), ("byte size computation", "as_bytes, as_writeable_bytes")], ["data(), size(), element addresses, comparison results"])
p("C14", "Byte buffers round-trip every value sequence",
  "Writing convertible objects to a fixed or growing byte buffer stores exactly their object representation one after the other, advances a fixed buffer by exactly that amount, and touches nothing else; reading the same types back in order yields equal values and advances by the same amount. Skipping advances without modification, and copying leaves both buffers' positions unchanged. Within the buffer sizes no access leaves the buffers.",
  ["inputs", "histories"], "all values, all sequences of writes/reads/skips within the buffer sizes",
  "There is no test for the byte buffers at all in the suite.",
  [N+"bytes.hpp"], [("memcpy and view advancing", "write, read, skip, copy, copyExact, bytes")], ["buffer contents", "remaining size and position"])
p("C15", "Flag sets behave as bit sets of their enumeration",
  "Combining flags and enumeration values with or, and, xor and their assigning forms, in either operand order, yields exactly the bitwise result on the stored values; equality compares all bits; inverting a value yields the bitwise complement in the storage type. Construction from a value stores exactly that value and the default is empty.",
  ["inputs"], "all bit patterns and several underlying types",
  "Tests use three enumerators; wrong bits appear only for other patterns or storage widths.",
  [N+"flags.hpp"], [("bitwise operators", "Flags, NYTL_FLAG_OPS")], ["value() of the results"])
p("C16", "Integer mappings and pairing are unique and reversible",
  "Mapping signed to unsigned numbers follows 0,-1,1,-2,2,... to 0,1,2,3,4,... for every int and never collides; the reverse mapping inverts it on its whole range. Pairing two unsigned numbers yields the Cantor number of the pair whenever that number is representable, so distinct pairs then give distinct results.",
  ["inputs"], "all 2^32 ints; all pairs of unsigned ints whose Cantor number fits",
  "Tests do not touch these functions; overflow at the ends of the range is invisible to sampled inputs.",
  [N+"math.hpp"], [("zigzag arithmetic", "mapUnsigned, unmapUnsigned"), ("Cantor pairing", "pair")], ["return values"])
p("C17", "Scalar helpers compute their mathematical definitions",
  "Degrees and radians convert with the factor 180/pi and invert each other; mix is the linear interpolation that yields the end points at 0 and 1; smoothstep is the cubic Hermite step, clamped outside its range and monotone within. Factorial is exact for every n up to 20. Clamp-and-store returns the clamped value and reports -1, 0 or 1 for hitting or passing the lower bound, lying strictly inside, or hitting or passing the upper bound.",
  ["inputs"], "all real arguments (in exact arithmetic), all representable factorials",
  "Tests never call these helpers.",
  [N+"math.hpp"], [("closed formulas", "degrees, radians, mix, smoothstep, factorial, clampStore")], ["return values"])
V = [N+"vec.hpp", N+"vec2.hpp", N+"vec3.hpp", N+"vecOps.hpp"]
p("C18", "Vector arithmetic is component-wise over every dimension",
  "For vectors of any dimension, sum, difference, negation, scaling from either side, division by and of a scalar, and their assigning forms give in every component the result of the scalar operation and change nothing else. Equality holds exactly when all components are equal and inequality is its negation. Iteration and indexed access visit the components in order.",
  ["inputs", "configurations"], "all component values; dimensions and value types as template parameters (2, 3 specialised, others generic; int, float, double)",
  "Tests compute a few literal vectors; a wrong component or a missed one in a specialisation shows only for other values or dimensions.",
  V, [("component loops", "operator+ - * / == of Vec, operators namespaces"), ("specialised storage", "Vec<2,T>, Vec<3,T>")], ["component values of the results"])
p("C19", "Vector products, norms and angles satisfy their definitions",
  "Over the reals: component sum and product, dot product, length, distance and mirroring equal their definitions; normalising (by value or in place) a non-null vector gives a unit vector of the same direction. The cross product equals its determinant form in three and two dimensions. The angle between non-null vectors lies in [0, pi] and has the cosine dot over lengths; left and right normals are the perpendiculars for the stated orientation.",
  ["inputs", "configurations"], "all real component values, several dimensions",
  "Tests use a few literal vectors with tolerance.",
  V, [("accumulation loops and sqrt/acos", "sum, multiply, dot, length, distance, angle, angleNormed, normalized, normalize, mirror, cross, lnormal, rnormal")], ["return values"])
p("C20", "Component-wise vector functions apply to every component",
  "The component-wise minimum, maximum, product, quotient, clamp, power and the elementary functions (abs, trigonometric and inverse, square root, logarithm, exponentials, rounding) give in each component the scalar function of the corresponding components; the in-place forms modify the given vector to the same result. Adding or subtracting a scalar component-wise works with the scalar on either side.",
  ["inputs", "configurations"], "all component values and dimensions, each listed function in both forms",
  "Tests call a few of these functions on one literal vector each.",
  [N+"vecOps.hpp"], [("component loops", "namespace vec::cw, vec::cw::ip, vec::cw::operators")], ["component values of the results"])
p("C21", "Conversions keep shared components; checked access rejects bad indices",
  "Converting a vector, matrix, rectangle or simplex to another dimension or precision keeps every component present in both, value-initialises the components only the target has, and drops the rest. Checked access (matrix at, and indexing of 2- and 3-vectors) returns the addressed element for every valid index and throws out_of_range for every other index.",
  ["inputs", "configurations"], "all component values, growing and shrinking conversions between all dimensions, all 2^64 indices",
  "Tests convert single literals and never pass an invalid index.",
  V + [N+"mat.hpp", N+"rect.hpp", N+"simplex.hpp"], [("copy loop up to the smaller dimension", "explicit conversion operators"), ("range check", "Mat::at, Vec<2,T>/Vec<3,T>::operator[]")], ["components of the result", "exceptions"])
M = [N+"mat.hpp", N+"matOps.hpp"]
p("C22", "Matrix arithmetic equals its algebraic definition",
  "Matrix product, matrix-vector product, scaling, sum, difference, negation and the assigning forms equal their entry-wise algebraic definitions for every shape, the square product assignment also when both operands are the same object. Equality holds exactly when all entries are equal and inequality is its negation.",
  ["inputs", "configurations"], "all entry values, square and rectangular shapes, several value types",
  "Tests multiply a few literal matrices; wrong index order or aliasing shows only for other shapes or for self-products.",
  [N+"mat.hpp"], [("row/column loops", "operators of Mat")], ["entries of the results"])
p("C23", "Structural matrix operations move exactly the entries they name",
  "Transposing, reading or replacing a column, swapping two rows or two columns (also a row or column with itself), filling with ones and setting the identity change or return exactly the named entries and preserve all others. Trace and diagonal product combine exactly the diagonal entries, and symmetry holds exactly when the matrix equals its transpose. Pivoting swaps the given row with a row of largest magnitude in the given column among the considered rows, keeps all other rows, and returns the new entry.",
  ["inputs", "configurations"], "all entries, all row/column indices, square and rectangular shapes",
  "Tests use one literal matrix per function.",
  [N+"matOps.hpp"], [("entry loops", "transpose, col, swapRow, swapCol, one, identity, trace, multiplyDiagonal, symmetric, pivot")], ["entries of the results"])
p("C24", "Row reduction yields the (reduced) echelon form of the same row space",
  "For every matrix over the reals, of any rank and shape, bringing it into row echelon form yields leading entries equal to one that move strictly right from row to row with zeros below and zero rows last; the reduced form additionally has zeros above every leading entry. Both results have the same row space as the input, the copying variants leave the input unchanged, and no entry outside the matrix is accessed.",
  ["inputs", "configurations"], "all real matrices, including rank-deficient and rectangular ones",
  "Tests reduce one full-rank literal; zero rows, repeated pivots and rank deficiency take other paths.",
  [N+"matOps.hpp"], [("Gaussian elimination loops", "rowEcholon, reducedRowEcholon, rowEcholonCopy, reducedRowEcholonCopy")], ["entries of the result"])
p("C25", "LU decomposition satisfies PA = LU for every square matrix",
  "For every square matrix A over the reals, also singular ones, the decomposition yields a permutation P, a lower triangular L with unit diagonal and an upper triangular U with PA = LU, and reports the sign of P.",
  ["inputs", "configurations"], "all square matrices of the checked dimensions, every pattern of zero pivots",
  "Tests decompose three literals; zero pivots in every position select different paths.",
  [N+"matOps.hpp"], [("elimination with row exchange on zero pivots", "luDecomp")], ["L, U, P and sign"])
p("C26", "Determinants, inverses and linear solves are exact over the reals",
  "The determinant, computed from a matrix or from its decomposition, equals the algebraic determinant for every square matrix, and a matrix is reported invertible exactly when it is not zero. For every invertible matrix the inverse multiplies with it to the identity, and solving with a decomposition or with its triangular factors gives the vector mapped to the right-hand side.",
  ["inputs", "configurations"], "all square matrices of the checked dimensions, including ones that need row exchanges",
  "Tests use matrices for which no or only symmetric exchanges occur, hiding wrong signs and permutations.",
  [N+"matOps.hpp"], [("LU based formulas", "determinant, invertible, inverse, luEvaluate")], ["return values"])
R = [N+"rectOps.hpp", N+"rect.hpp"]
p("C27", "Rectangle containment and intersection agree with the point sets",
  "A rectangle contains (strictly contains) a point exactly when every coordinate lies within (strictly within) its range. Two rectangles of non-negative size intersect exactly when they share a point, and properly intersect (for positive sizes) exactly when they share an interior point; the intersection covers exactly the shared points and is the empty rectangle at the origin if there are none. Both relations are symmetric, the size is the product of the extents, the center is the midpoint, and equality compares position and size.",
  ["inputs", "configurations"], "all pairs of rectangles and points, dimensions 1 to 3, integer and real coordinates (no overflow)",
  "Tests use four literal pairs; cross-shaped overlaps, where no corner lies in the other rectangle, are missing.",
  R, [("per-axis comparisons", "contains, containsReal, intersects, intersectsReal, intersection, size, center")], ["return values"])
p("C28", "Rectangle difference partitions exactly the remaining area",
  "The difference of two rectangles of positive size is a list of rectangles with positive size whose interiors are pairwise disjoint and whose union is, up to boundaries, exactly the part of the first not covered by the second. If they do not properly overlap the list is just the first rectangle, and it is empty when the first lies inside the second.",
  ["inputs", "configurations"], "all pairs of rectangles of positive size in two and three dimensions",
  "Tests check three literal layouts; each relative position per axis takes a different branch combination.",
  R, [("per-axis slab splitting", "difference")], ["returned rectangles"])
p("C29", "Approximate comparison is a symmetric tolerance test",
  "Comparing a floating-point number with an approximate value of the same type holds exactly when their distance is below epsilon times one plus the larger magnitude; the operand order does not matter and unequal is the negation. Complex numbers, vectors and matrices compare equal exactly when all their components do with the same epsilon, and vectors of different dimension are never equal. The default epsilon is 1e-8.",
  ["inputs", "configurations"], "all finite values and epsilons, every supported container type and dimension",
  "Tests compare a few literals close to and far from each other.",
  [N+"approx.hpp", N+"approxVec.hpp"], [("relative tolerance test", "operator== / != of Approx")], ["comparison results"])
p("C30", "Quaternion algebra and rotation follow the Hamilton product",
  "Quaternion product, sum, difference, scaling, equality, conjugation, norm and dot product equal their algebraic definitions; normalising gives a unit quaternion of the same direction, or the identity for zero. Applying a quaternion q to a vector v equals q v q* (so for unit q it preserves lengths, angles and orientation, and applying a product equals applying its factors in sequence). An axis-angle quaternion of a unit axis is a unit quaternion that rotates by that angle around that axis, right-handed.",
  ["inputs"], "all real quaternions, vectors, unit axes and angles",
  "The suite has no quaternion tests.",
  [N+"quaternion.hpp"], [("closed formulas", "Quaternion operators, conjugated, norm, normalized, dot, apply, axisAngle")], ["return values"])
p("C31", "Quaternions convert consistently to matrices and Euler angles",
  "For unit quaternions the rotation matrix maps every vector like applying the quaternion and extends to larger sizes by the identity; building a quaternion from that matrix gives the same quaternion up to sign, whichever component dominates. The yaw-pitch-roll constructor equals the product of the three axis rotations. For each of the twelve rotation sequences, the Euler angles extracted from a unit quaternion rebuild the same rotation outside the degenerate middle angles.",
  ["inputs", "configurations"], "all unit quaternions (non-degenerate ones for Euler angles), all rotation matrices, all twelve sequences",
  "The suite has no quaternion tests; sign and branch errors show only in particular octants.",
  [N+"quaternion.hpp"], [("closed formulas and branch on the largest component", "toMat, fromMat, yxz, eulerAngles")], ["return values"])
p("C32", "Spherical interpolation follows the shorter arc",
  "Interpolating between two unit quaternions starts at the first for t = 0, ends at the rotation of the second for t = 1 and, for quaternions that are not almost equal, stays of unit length for every t while moving along the shorter arc at constant angular speed. Almost equal quaternions are interpolated linearly and normalised.",
  ["inputs"], "all pairs of unit quaternions and all t",
  "The suite has no quaternion tests; the negative-dot branch and the near-equal branch need particular inputs.",
  [N+"quaternion.hpp"], [("dot sign flip, threshold, sin ratio", "slerp, dot")], ["return value"])
T = [N+"transform.hpp"]
p("C33", "Affine transform matrices perform the transform they name",
  "Translation and scaling matrices translate and scale every point; rotation matrices and vector rotation rotate by the angle around the axis, right-handed, preserving lengths; orienting matrices map the first direction to the second and are rotations for unit vectors. The in-place forms apply the transform after the existing matrix; flips negate exactly one output coordinate; expanding embeds the matrix in an identity. The base of a unit vector completes it to an orthonormal basis (up to 1e-2 close to the negative z axis).",
  ["inputs", "configurations"], "all real parameters, angles, unit axes and points; matrix sizes 3 and 4, float and double",
  "The suite has no transform tests.",
  T, [("closed formulas", "translateMat, scaleMat, rotateMat, rotate, orientMat, translate, scale, flipAxis, flippedY, expandIdentity, multPos, base")], ["transformed points"])
p("C34", "Projection matrices map their volume onto clip space",
  "Orthographic and frustum projections map the near-plane corners (left, bottom) and (right, top) to (-1,-1) and (1,1), the near plane to depth 0 and the far plane to depth 1, keeping straight lines through the eye; reversed variants swap the depths and infinite ones send infinity to depth 0. Perspective projections map the view cone of the given field of view and aspect ratio to [-1,1] squared with the same depth rules, for positive and negative near and far planes.",
  ["inputs"], "all admissible volumes, fields of view, aspect ratios and near/far planes of either sign; float and double",
  "The suite has no transform tests.",
  T, [("closed formulas", "ortho, frustum, frustumRev, frustumRevInf, perspective, perspectiveRev, perspectiveRevInf")], ["projected points"])
p("C35", "Look-at matrices move the eye to the origin and orient the axes",
  "A look-at matrix is a rigid transform that maps the given position to the origin. In the direction form it maps the unit direction z onto the positive z axis, keeps the up reference in the half plane x = 0, y > 0, and the translation-free form agrees with it. In the quaternion form it undoes the given rotation after the translation, and both forms agree for the axes of the quaternion.",
  ["inputs"], "all positions, unit directions, non-parallel up vectors and unit quaternions; float and double",
  "The suite has no transform tests.",
  T, [("orthonormal frame rows and translated column", "lookAt overloads")], ["transformed points"])
p("C36", "Null-terminated string parameters keep the text and its terminator",
  "A string parameter built from a null-terminated character pointer or from a standard string denotes the characters up to the first terminator, and its C string is the same memory followed by a terminator.",
  ["inputs"], "all strings of any length and the supported character types",
  "The suite does not test this class.",
  [N+"stringParam.hpp"], [("view over c_str()", "BasicStringParam constructors, c_str")], ["size, data and terminator"])
p("C37", "Compile-time helpers classify types correctly",
  "Function traits report return and argument types of every callable form, expression validity tests are true exactly for valid expressions, the last-type helper picks the last type, and non-copyable or non-movable classes reject exactly the operations they forbid.",
  ["programs"], "all types",
  "The tests are static assertions for sample types.",
  [N+"functionTraits.hpp", N+"tmpUtil.hpp", N+"nonCopyable.hpp"], [("template specialisations", "FunctionTraits, validExpression, LastType, NonCopyable, NonMovable")], ["compile-time constants"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
