#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.py (kept in step with what is claimed)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
P = []; NA = {}


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


CE = "lib/h/ce/ce.h"
p("T01", "Integer to_text writes the canonical decimal form", "For every value of each of the ten built-in integer types, to_text writes exactly the canonical decimal representation (optional minus sign, no leading zeros, no terminator) and returns the position one past the last character. It never writes outside the number of bytes measure<T> promises for the type.", ["inputs"], "every value of signed/unsigned char, short, int, long, long long", "the tests print a handful of constants; the multiply-and-shift digit kernels go wrong for single values among 2^64", ["lib/to_text_from_integer.h", "lib/to_text.cpp", CE], [("digit kernels", "lib/to_text_from_integer.h:JEAIII_A/JEAIII_D"), ("measure", CE + ":measure")])
p("T02", "as_string is exactly sized, NUL-terminated and never overruns", "as_string of any list of values holds exactly the concatenation of the texts of the values followed by a NUL, and building it never reads or writes outside its arguments or its own storage. A character array argument contributes its characters up to its first NUL or its full extent, whichever comes first; a char pointer given together with other values contributes at most 1024 characters; the text of an array of numbers fits however long it is.", ["inputs"], "every content of character arrays (terminated or not), strings, integers, characters, booleans and arrays of integers, alone and combined", "the tests use terminated literals and small numbers only", [CE, "lib/to_text.cpp"], [("as_string", CE + ":as_string"), ("to_text_m", CE + ":to_text_m"), ("measure", CE + ":measure")])
p("T03", "Composite values print in their documented text form", "to_text prints booleans as #<F>/#<T>, enumerations as #<enum N> with N the underlying value, null pointers as #<nil>, other object pointers as #<ptr ADDRESS>, arrays and vectors as [a, b, ...] with every element in order, char as itself, character arrays and strings as their characters up to the NUL or the array's end, and several values as their concatenation. The returned position is always one past the last character written and nothing is written beyond it.", ["inputs"], "every value of the element types, every array content up to the stated extents", "tests only print such values to the log and compare nothing", [CE], [("to_text overloads", CE + ":to_text, to_text_n, to_text_s, to_text_p")])
p("H01", "crc32 equals the polynomial definition for every width and split", "For any data, the 8-, 32- and 64-bit-word forms of crc32 all return the reflected CRC-32 of the bytes of the data (words in little-endian order) under the type's polynomial, with the usual initial and final inversion; crc32c of a literal is the CRC-32C of its characters. Feeding the result of one call as the start of the next equals one call over the concatenation.", ["inputs"], "every start value and every data content up to the stated length; two polynomials", "a few constants are compared at compile time; table entries and index order matter for every byte value", [CE], [("crc32", CE + ":crc32, crc32c"), ("tables", CE + ":detail::crc32")])
p("H02", "fnv1a equals the published FNV-1a hash", "fnv1a32 and fnv1a64 return the published FNV-1a hash of the bytes of the data, elements wider than a byte being hashed little-endian byte by byte; the text form hashes the characters up to the terminator. A caller-supplied basis continues the hash of an earlier part.", ["inputs"], "every data content and basis, element types of 1, 2, 4 and 8 bytes, up to the stated length", "one literal is compared at compile time", [CE], [("fnv1a", CE + ":hash::fnv1a, fnv1a32, fnv1a64")])
p("R01", "The random generators produce their published sequences", "From every state, xoroshiro64**, xoroshiro128++ and the 64-bit-state PCG32 (XSH-RR) return the same output and move to the same next state as their published reference algorithms; the 64-bit form of a 32-bit generator is two successive outputs, first one high. Seeding from bytes or a number is the documented function of the seed only.", ["inputs"], "every generator state and seed value; seed bytes up to the stated length", "no test compares against the reference; a wrong rotation shows only statistically", [CE], [("xoroshiro64ss", CE + ":random::xoroshiro64ss"), ("xoroshiro128pp", CE + ":random::xoroshiro128pp"), ("pcg32", CE + ":random::read, step, seed")])
p("R02", "Ranged random numbers stay in range; the unbiased form is exactly uniform", "next_ranged and next_unbiased return a value below n for every nonzero n and advance the generator at least once. Over all 2^32 raw outputs, next_unbiased accepts the same number of raw outputs for every result below n (rejected raw outputs draw again), so the result is exactly uniform when the generator is.", ["inputs", "histories"], "every n and every raw output sequence up to the stated number of draws", "bias of one part in 2^32 / n cannot be sampled; the existing test uses one n", [CE], [("next_ranged", CE + ":random::next_ranged"), ("next_unbiased", CE + ":random::next_unbiased")])
p("B01", "base64 size and decode follow RFC 4648", "The decoded size of a text is the number of whole bytes its leading run of base64 characters encodes, and decode writes exactly those bytes as RFC 4648 defines them; padding or any other character ends the text. decode writes only the destination bytes asked for and reads no further than the text requires.", ["inputs"], "every text over all 256 characters up to the stated length, every destination size up to its decoded size", "one or two literals are decoded at compile time", [CE], [("size", CE + ":base64::size"), ("decode", CE + ":base64::decode")])
p("B02", "lziii size and decode agree and stay within their buffers", "For every well-formed compressed stream, size returns the number of bytes the stream decodes to and decode reproduces exactly the literals and back-references the format describes, including references that overlap the bytes being produced. decode writes exactly the destination bytes and reads only the stream and bytes already produced.", ["inputs"], "every stream of literals and spans up to the stated length, spans of every length 3 to 18 and every reachable offset", "the test decodes one constant", ["lib/h/ce/lziii.h"], [("size", "lib/h/ce/lziii.h:size"), ("decode", "lib/h/ce/lziii.h:decode")])
p("C01", "bulk behaves as a bounded sequence", "A bulk of capacity N holds at most N items; append adds at the end, resize and append_n change the length (added items default-constructed), remove_at removes exactly the given item (moving the last item into its place, or keeping the order in the ordered form), and copying and assigning give an equal, independent sequence. An operation that would exceed the capacity or names no item returns false and changes nothing; no operation touches memory outside the container.", ["histories", "inputs"], "every sequence of operations up to the stated length, every index, count and item value, full and empty containers included", "the tests run a few fixed sequences", [CE], [("bulk", CE + ":bulk"), ("assign_items", CE + ":assign_items, construct_at, destroy_at, construct_copy")], [("size", "number of live items")])
p("C02", "bulk constructs and destroys every item exactly once", "Across every sequence of operations, each item slot of a bulk below its length holds exactly one live object and slots at or above it none: nothing is constructed over a live object, nothing is destroyed twice, assigned to or read while not alive. When the container dies every object it constructed has been destroyed.", ["histories"], "every sequence of append, append_n, resize, clear, remove_at, copy construction and assignment between containers up to the stated length", "the tests use one counted type in one fixed sequence", [CE], [("lifetimes", CE + ":construct_at, destroy_at, assign_items, bulk::remove_at")])
p("C03", "min_priority_queue hands out a minimum and loses nothing", "Every dequeue from a non-empty queue returns an item no larger than any other held, removing exactly that item, and head shows the same item beforehand; enqueue adds exactly one item and fails exactly when the queue is full, changing nothing. Only the less-than operation of the items is used.", ["histories", "inputs"], "every sequence of operations up to the stated length and every item value, duplicates included; a single operation from every valid heap of the stated sizes", "no test covers ties or the full queue", [CE], [("heap_raise", CE + ":heap_raise"), ("heap_lower", CE + ":heap_lower"), ("queue", CE + ":min_priority_queue")])
p("C04", "bitset keeps every bit independent", "After any sequence of set and reset operations, reading an index returns the value last given to that index (or to all indices), for every index below N and N not a multiple of eight included. No operation changes another bit or touches memory outside the set.", ["inputs", "histories"], "every prior content, every index and value, several sizes", "tests set a few bits", [CE], [("bitset", CE + ":bitset")])
p("C05", "span skip and trim yield the exact sub-range", "skip drops the first n items and trim the last n; dropping at least as many as there are gives an empty span, and the result always lies within the original. Iterating a span visits exactly its items.", ["inputs"], "every span size and count", "no test covers counts beyond the size", [CE], [("skip/trim", CE + ":span")])
p("C06", "dictionary is a map from names to values", "A name that was bound finds exactly the value last bound to it and a name never bound is reported as nil, for every name value including zero; binding an existing name replaces its value in place and other entries keep theirs. Binding a new name fails with nil exactly when the storage is full, and then changes nothing.", ["histories", "inputs"], "every sequence of bind and find up to the stated length over every name value; a single operation from every valid content", "the test binds a few names once", ["lib/h/ce/dictionary.h"], [("find", "lib/h/ce/dictionary.h:find"), ("bind", "lib/h/ce/dictionary.h:bind")], [("size/heap/names", "bound entries and the part of them that is ordered as a heap")])
p("C07", "pool queues are independent FIFOs over a shared fixed store", "Queues sharing one pool each behave as their own double-ended sequence: append_tail adds at the end, insert_head at the front, remove_head removes the front, and head and tail show the ends; no operation on one queue changes another's items or order. Together the queues hold at most N-1 items: an insertion succeeds exactly while fewer are held and otherwise changes nothing, and every removed node becomes usable again.", ["histories", "inputs"], "every sequence of operations over several queues up to the stated length; a single operation from every valid arrangement", "the test runs one fixed sequence on one queue", ["lib/h/ce/pool.h"], [("alloc/free", "lib/h/ce/pool.h:alloc_index, free_index"), ("queues", "lib/h/ce/pool.h:append_tail, insert_head, remove_head")], [("next", "circular links and the free list")])
p("S01", "Sorting orders the range and permutes it", "insertion_sort and intro_sort leave the range in non-decreasing order holding exactly the items it held before, and touch nothing outside it; partition leaves its pivot between smaller-or-equal and greater-or-equal items. Only less-than on the items is used.", ["inputs"], "every content of ranges up to the stated length, duplicates included, several small-range thresholds", "tests sort random data with the default threshold, so partition corner cases are hit by luck", ["lib/h/ce/sort.h"], [("insertion_sort", "lib/h/ce/sort.h"), ("partition/median", "lib/h/ce/sort.h"), ("intro_sort", "lib/h/ce/sort.h")])
p("S02", "lower_bound and upper_bound find the exact boundary", "On a sorted range lower_bound returns the first position whose item is not less than the key and upper_bound the first whose item is greater, the end if there is none, reading nothing outside the range.", ["inputs"], "every sorted range up to the stated length and every key", "tests probe a few keys in one array", ["lib/h/ce/sort.h"], [("bounds", "lib/h/ce/sort.h:lower_bound, upper_bound")])
p("Z01", "z-order codes are order-preserving and box tests exact", "The z-order code interleaves the bits of the two offset coordinates, so distinct points have distinct codes, and the box test between two codes is true exactly when both coordinates lie within the box's inclusive bounds. Splitting a box yields two boxes that together cover every point of the original, the first wholly before the second in code order, with no point of the box between them.", ["inputs"], "every pair of 32-bit coordinates and every box", "the test prints a single query", ["lib/h/ce/zorder.h"], [("z_encode", "lib/h/ce/zorder.h:z_encode, z_expand"), ("z_inside", "lib/h/ce/zorder.h:z_inside"), ("z_split", "lib/h/ce/zorder.h:z_split")])
p("Z02", "A z-order range query returns every point in the box and stays in bounds", "For every sorted array of codes and every box with ordered corners, the query returns every element inside the box, each at most once and in order, and every element it returns is an element of the array. It reads and writes nothing outside the array, its working storage and the first size elements of the output.", ["inputs"], "every sorted array up to the stated length and every box", "the test file exercises no query result", ["lib/h/ce/zorder.h"], [("z_query", "lib/h/ce/zorder.h:z_query"), ("z_lower_bound", "lib/h/ce/zorder.h:z_lower_bound")])
p("G01", "Vector products and product comparison are exact", "On 32-bit coordinates sqrx, dotx and crossx of scalars and of 2- and 3-vectors return the exact mathematical value whenever it fits in 64 bits, vector arithmetic acts component by component, and the comparison of two 64-bit by 64-bit products is exact for all operands.", ["inputs"], "every operand value for which the result is representable", "tests check a few small vectors", [CE, "lib/h/ce/math.h"], [("products", CE + ":sqrx, dotx, crossx"), ("ab_less_cd", "lib/h/ce/math.h:ab_less_cd"), ("operators", CE + ":operator+ ...")])
p("G02", "Every point is inside exactly one triangle around a shared edge or vertex", "inside(a,b) is antisymmetric with ties broken consistently: for different vectors exactly one of inside(a,b) and inside(b,a) holds and for equal vectors neither. For a point on a shared edge or vertex of triangles tiling its neighbourhood, the point is inside exactly one of the triangles.", ["inputs"], "every pair of vectors whose products are representable; every two triangles sharing an edge and every vertex fan of the stated size with coordinates in the stated range", "the tests use a fixed square", ["lib/h/ce/math.h"], [("inside", "lib/h/ce/math.h:inside")])
p("G03", "The point-in-polygon winding number is exact off the boundary", "For every polygon and every point not on its boundary, in_polygon returns the winding number of the polygon around the point (as an unsigned count, clockwise negative or positive consistently); reversing the vertex order negates it and rotating the starting vertex does not change it. An empty polygon contains nothing.", ["inputs"], "every polygon of up to the stated number of vertices and every point, coordinates in the stated range", "tests probe one polygon at a few points", [CE], [("in_polygon", CE + ":in_polygon, in_polygon_xy")])
p("G04", "Distance predicates decide exact squared-distance comparisons", "The point, line, edge, ray and segment range predicates return true exactly when the exact Euclidean distance from the point to the named figure through the origin (for the edge form: the perpendicular foot also lying on the edge) is less than the radius, decided without rounding. The ball_hits forms are the same for translated figures.", ["inputs"], "every point, direction and squared radius within the range whose products are representable", "no test covers these", ["lib/h/ce/math.h"], [("in_range_rr*", "lib/h/ce/math.h:in_range_rr_line, _edge, _ray, _segment"), ("ball_hits", "lib/h/ce/math.h:ball_hits_edge, ball_hits_ray")])
p("G05", "Line intersection and scaling stay within their documented error", "Intersecting two lines reports failure exactly when they are parallel, and otherwise the reported point is within the rounding error of the exact intersection; scaling a vector by a 32-bit fraction truncates the exact product toward zero; converting degrees to an angle is exact to the last unit for every degree value in range.", ["inputs"], "every pair of lines with coordinates in the stated range; every vector, numerator and nonzero denominator for which the result is representable", "one intersection is tested", ["lib/h/ce/math.h"], [("intersect/muldiv", "lib/h/ce/math.h:intersect, muldiv"), ("degrees", "lib/h/ce/math.h:degrees_to_angle")])
p("G06", "Fixed-point trigonometry is accurate to a few units", "Rotating a radius by any fixed-point angle gives Cartesian coordinates that differ from the exact radius times cosine and sine by at most three units (two for radii up to 2^24), a quarter turn more turns the result exactly, and a full turn changes nothing; converting to polar form returns the magnitude within two units, and an angle of at most half a turn either way that turns the magnitude back into the vector within eight units (two for vectors of up to a million). Radius and magnitude below 2^31 - 8.", ["inputs"], "every angle, and every radius or vector within the stated range", "tests probe multiples of 45 degrees", ["lib/h/ce/math.h"], [("cordic", "lib/h/ce/math.h:detail::cordic_n")])
p("G07", "Integer square root and hypotenuse are rounded to nearest", "isqrt and hypot return the integer nearest to the exact square root for every argument below 2^50, and beyond that less than one away from the exact root as long as the root is at most 2^31 - 1; roots of perfect squares are exact.", ["inputs"], "every argument in the stated range", "tests probe a few values", ["lib/h/ce/math.h"], [("isqrt/hypot", "lib/h/ce/math.h:isqrt, hypot")])
p("G08", "The Microsoft forms of product comparison and scaling are exact", "With Microsoft's compiler, too, the comparison of two 64-bit by 64-bit products is exact for all operands, scaling a vector by a 64-bit fraction truncates the exact product toward zero (the vector itself for a zero denominator), and the intersection of two lines is within the rounding error, however short the lines are. The processor's 128-bit division is never asked for a quotient that does not fit.", ["inputs", "configurations"], "every operand of the stated families", "the tests here build with another compiler", ["lib/h/ce/math.h"], [("ab_less_cd", "lib/h/ce/math.h:ab_less_cd"), ("muldiv", "lib/h/ce/math.h:muldiv, msvc::xmul, msvc::xdiv"), ("intersect", "lib/h/ce/math.h:intersect")])
p("D01", "Triangulation lookup finds the one triangle holding the point", "In every triangulation reached by inserting points, locate returns the one triangle that the tie-breaking inside test assigns to the queried point, whatever starting hint is given; every point strictly inside the outer square is found, every point strictly outside yields zero; no point is in two triangles; the search always terminates (coordinate scales of up to 2^15).", ["histories", "inputs"], "every sequence of point insertions up to the stated number, every query point and every hint", "the test inserts a few points and queries nothing", ["lib/h/ce/cdt.h"], [("locate", "lib/h/ce/cdt.h:locate")])
p("D02", "Inserting points keeps a valid triangulation", "After any sequence of point insertions the mesh is a valid triangulation: neighbouring triangles refer to each other across the same two vertices, every triangle has strictly consistent orientation, every inserted point, rounded down to even mesh coordinates, is a vertex exactly once, and the triangles cover the outer square without gaps or overlap. Inserting an existing point succeeds and changes nothing; a point outside the square, on its outer edges or beyond the capacity is refused and changes nothing.", ["histories", "inputs"], "every sequence of insertions up to the stated number of points, in general and degenerate position (on edges and on vertices), every hint", "the test checks nothing beyond internal assertions on a few fixed points", ["lib/h/ce/cdt.h"], [("insert", "lib/h/ce/cdt.h:insert_point_at_node, locate_insertion_node"), ("flip", "lib/h/ce/cdt.h:do_flip, flip")], [("vs/fs/es", "vertex, face and edge views of the same nodes")])
p("D03", "Unconstrained triangulations are Delaunay", "After any sequence of point insertions no vertex lies strictly inside the circumcircle of a triangle across an unconstrained edge, and the circle test itself is exact for every vertex position the mesh can hold.", ["histories", "inputs"], "every four vertices over the full coordinate range for the circle test; every sequence of insertions up to the stated number for the mesh", "no test checks the Delaunay condition", ["lib/h/ce/cdt.h"], [("incircle", "lib/h/ce/cdt.h:incircle"), ("flip", "lib/h/ce/cdt.h:flip")])
p("D04", "An inserted edge appears as a chain of constrained edges", "When inserting an edge between two points strictly inside the square succeeds, its ends are joined by a chain of constrained edges that follows the straight segment exactly, except that each point where it had to cross another edge is rounded to the integer grid and may move by up to one unit; every edge inserted earlier is still such a chain, and whether insertion succeeds or fails the mesh stays a valid triangulation. With no other edges between, insertion succeeds.", ["histories", "inputs"], "every edge inserted into the stated family of meshes", "the test inserts a fixed set and looks at nothing", ["lib/h/ce/cdt.h"], [("insert_edge", "lib/h/ce/cdt.h:insert_edge, constrain_edge, split_constraint, try_flip")])
p("D05", "fill labels exactly the region bounded by constrained edges", "Filling from a triangle sets the label of exactly the triangles reachable from it without crossing a constrained edge or a triangle that already carries the label, and of no others; filling from no triangle changes nothing. This holds however large the region is.", ["histories", "inputs"], "every mesh of the stated family, every start triangle and every label arrangement", "the test does not look at labels", ["lib/h/ce/cdt.h"], [("fill", "lib/h/ce/cdt.h:fill, fill_ex")])
p("D06", "The mesh shows every triangle and edge exactly as it is stored", "Visiting the triangles of a mesh yields each one exactly once with its three corners in user coordinates, its neighbouring edges, its constraint flags and its label; visiting the edges yields each triangle's three edges once with both ends and the constraint flag; reading a triangle or an edge by its number, and the ends and the opposite vertex of an edge by name, gives the same. Of the two sides of a line exactly one is primary. A mesh without triangles shows none.", ["inputs", "histories"], "every stored vertex position, link, constraint and label of meshes up to the stated size", "no test reads a mesh back", ["lib/h/ce/cdt.h"], [("views", "lib/h/ce/cdt.h:edge_view, face_view, operator[]"), ("edge ends", "lib/h/ce/cdt.h:edge_vert_a, edge_vert_b, edge_vert_o")])
p("U01", "Value helpers: members, character classes, colours, sequences, mapped items", "get<N> of a pair, tuple or plain aggregate of up to four members is its N-th member; the ASCII character classes hold for exactly their characters among all 256; a colour read as an array lists red, green, blue and alpha of the same storage; sequence<T, N> is 0 to N - 1 in order; a mapped file seen as items is as many whole items as the file holds, at the mapped place, and empty when mapping fails.", ["inputs"], "every member value and every character", "no test uses them", [CE], [("get", CE + ":get, detail::crack"), ("classes", CE + ":ascii"), ("rgba", CE + ":rgba"), ("sequence", CE + ":sequence"), ("map_span", CE + ":os::map_span")])
p("L01", "Log keys are the argument expressions, split only at top-level commas", "The keys given to a log hook are the source texts of the arguments: the text is split at commas outside brackets, strings and character literals, each piece trimmed of surrounding white space and otherwise unchanged, with characters of any language kept, and there are exactly as many keys as arguments (argument texts without digit separators and without commas in template argument lists). The splitting never reads beyond the text or writes beyond its own storage.", ["inputs", "programs"], "every argument text up to the stated length over all characters", "the tests print a few expressions", [CE, "lib/h/ce/io.h"], [("names", CE + ":names"), ("names_t", "lib/h/ce/io.h:names_t")])
p("L02", "Checks report exactly when they fail, with the right texts", "CE_ASSERT, CE_VERIFY and CE_REJECT evaluate the condition exactly once; when it holds nothing is reported and CE_VERIFY yields true; when it does not, the log hook and then the error hook each see one report carrying the kind, the condition's text, the file and line, and the text of every argument, a break occurs exactly if the error hook asks for it, and CE_VERIFY yields false. CE_REJECT is the opposite convention: it reports exactly when its condition holds, and yields the condition. CE_ERROR always reports and breaks. Arguments are evaluated only for a report.", ["inputs"], "every condition value, argument value and hook answer", "the tests cannot let an assertion fail", [CE], [("hooks", CE + ":CE_AFFIRM, error_hook, call_error_hook")])
p("L03", "Log and error records are written completely and in order", "A log record is written as one level letter (levels outside the range are clamped to the nearest), then every key and value pair in order, quoted and separated, and nothing else; an error report writes the location, kind, condition and every argument in order. The default error handler asks for a break exactly for level zero.", ["inputs"], "every level, every number of pairs up to the stated one and every text content", "tests only look at the output by eye", ["lib/os.cpp", CE], [("log", "lib/os.cpp:log"), ("error", "lib/os.cpp:error"), ("call_log_hook", CE + ":call_log_hook")])
p("A01", "Atomic operations are linearizable and lose no update", "Under every interleaving of threads each atomic operation takes effect exactly once at a single instant between its call and its return, returning the value held just before: concurrent fetch-add, fetch-sub, fetch-and, fetch-or, fetch-xor, exchange and compare-exchange lose nothing, and compare-exchange stores exactly when the expected value was held and otherwise reports the value seen. This includes the types whose add and subtract are built from a retry loop, and data written before an atomic store is visible after a load that sees it.", ["schedules", "inputs"], "every interleaving of the stated number of threads and operations and every operand value", "the test increments a counter and hopes for a race", ["lib/h/ce/atomic_std.h"], [("operations", "lib/h/ce/atomic_std.h")])
p("M01", "Mutexes exclude and shared mutexes admit readers only together", "Between acquiring and releasing a mutex no other thread holds it; a shared mutex is held either by one exclusive owner or by any number of shared owners. The try forms never block and succeed exactly when the lock is free for the requested mode; releasing lets a waiter proceed.", ["schedules"], "every interleaving of the stated number of threads and lock operations", "the test runs one schedule", ["lib/mutex_std.cpp", "lib/h/ce/mutex.h"], [("wrappers", "lib/mutex_std.cpp")])
p("K01", "The tick clock never drifts", "However often and irregularly the clock is read, the ticks counted since reset equal the elapsed time multiplied by the tick rate and rounded down, each reading returns exactly the ticks gained since the previous one, and time is never lost or counted twice, for every time span whose number of ticks fits in 64 bits.", ["histories", "inputs"], "every non-decreasing sequence of timestamps up to the stated number of readings within the representable range, several rates", "the test samples real time", ["lib/h/ce/clock.h"], [("elapsed", "lib/h/ce/clock.h:clock")], [("residual", "remainder carried to the next reading")])
p("O01", "Time primitives convert without loss", "The monotonic timestamp is the system's monotonic time in nanoseconds exactly, at the reported frequency, and zero if the system reports an error; sleeping asks the system for exactly the requested duration, split into seconds and a nanosecond part below one second. Writing debug text passes exactly the text's bytes and ignores a null text. The file functions, which this system does not provide, never claim a success they do not have.", ["inputs"], "every system time value, every duration and every text up to the stated length", "the tests only call them", ["lib/os_posix.cpp"], [("monotonic_timestamp", "lib/os_posix.cpp"), ("sleep_ns", "lib/os_posix.cpp"), ("debug_out", "lib/os_posix.cpp")])
p("I01", "Reflection visits every bound member once, in order, by name", "Visiting a bound type enters the object, visits each bound member exactly once in declaration order under its own name, and leaves; fixed arrays and vectors visit every element in order with their extent, lists exactly their current items, and a visitor that changes what it visits changes the original object. Member names are the texts given in the binding with surrounding white space removed.", ["inputs", "programs"], "every list size and element value of the stated types, every binding text up to the stated length", "the test prints one object", ["lib/h/ce/io.h"], [("io", "lib/h/ce/io.h:io, reflection"), ("names", "lib/h/ce/io.h:names_t")])
p("N01", "Enum names and values convert both ways", "The name of an enumerator with a value from 0 to 255 is its identifier, without any enclosing scope, and the name of a value that has no enumerator is ???, for every value of the enumeration's type; converting a text to an enumeration yields the enumerator (with a value from 0 to 255) of exactly that name, and the given default when no enumerator has it, never accepting a prefix or an extension of a name. The name of a type is its whole name, however many words it has.", ["inputs"], "every value of the underlying type (8 to 64 bits) and every text up to the stated length", "tests look up a few names", ["lib/h/ce/nameof.h"], [("nameof", "lib/h/ce/nameof.h:nameof_enum"), ("as_enum", "lib/h/ce/nameof.h:as_enum")])
p("F01", "float and double to_text give the shortest round-tripping text", "Printing a float or double writes the shortest text that reads back as exactly the same value of its own type, within 32 characters, and returns the position past it, alone and inside arrays, vectors and strings. In the bit form (a build option) it writes #<f32:BITS> and #<f64:BITS>.", ["inputs"], "every float and double", "a few constants are printed", ["lib/to_text.cpp", "lib/h/ce/ce.h"], [("ieee754", "lib/to_text.cpp:to_text(float), to_text(double), to_text_from_ieee754")])
p("F02", "Normalising a vector gives a unit vector", "The normal of a float vector whose squared length neither overflows nor underflows has length one up to the precision of the processor's reciprocal square root, and the vector's direction.", ["inputs"], "every vector of the stated families and every error the reciprocal square root may have", "not tested", ["lib/h/ce/math.h"], [("normal", "lib/h/ce/math.h:normal")])
p("W01", "The Windows functions and mutexes keep the same promises", "Every valid UTF-8 text is turned into exactly its UTF-16 units, and a file is opened under exactly that path, for reading only and only if it exists. Mapping a file shows the whole file, read-only, exactly when the system succeeds at every step and nothing otherwise, closes the mapping's handle once and, when it opened the file, closes that once; unmapping, closing, allocating, time and debug text pass exactly what was given to the system. Sleeping waits the whole milliseconds in the time asked for, at least one for any time, none for none. The Windows mutexes exclude, admit and release exactly as the portable ones.", ["inputs", "schedules"], "every text up to the stated length, every answer of the system, every file size and duration; every interleaving of the stated lock users", "the tests here build the Linux configuration only", ["lib/os_win32.cpp", "lib/mutex_win32.cpp"], [("win32", "lib/os_win32.cpp:to_utf16, os::open_file, os::map_span, os::sleep_ns"), ("locks", "lib/mutex_win32.cpp")])
p("A02", "The Microsoft atomics keep the same promises", "With Microsoft's compiler on x86 every atomic operation takes effect exactly once at a single instant between its call and its return and returns the value held just before; nothing is lost, compare-exchange stores exactly when the expected value was held and otherwise reports the value seen, and no value is ever torn, values larger than the machine's (which the library locks) included. Data written before an atomic store is visible after a load that sees it, and of two threads that each write and then look at the other, one sees the other's write.", ["schedules", "inputs"], "every interleaving of the stated numbers of threads and operations and every operand", "the tests here build with another compiler", ["lib/h/ce/atomic_msvc_x86.h"], [("operations", "lib/h/ce/atomic_msvc_x86.h:atomic_load, atomic_store, atomic_exchange, atomic_compare_exchange, atomic_fetch_add, atomic_fetch_sub"), ("lock", "lib/h/ce/atomic_msvc_x86.h:scope_spin_lock")])

TECH = "symbolic execution of the compiled code (LLVM IR) with SMT (z3, cvc5), counterexamples replayed natively"
NOTE = {}


def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    checks = []; na = []
    for q in P:
        i = q["id"]
        if i in CHECKS:
            c = CHECKS[i]
            note = "Every assertion holds for all values within the bounds: %s. Outside: %s. Trusts the IR encoding (validated by replaying solver-chosen inputs natively on every run), clang's lowering and the SMT solvers.%s" % (c["bounds"] if isinstance(c["bounds"], str) else "quick: " + c["bounds"]["quick"] + "; thorough: " + c["bounds"].get("thorough", "same"), c["outside"] or "nothing", " Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "")
            checks.append({"property": i, "quick_cmd": "python3 vs.py %s quick" % i, "thorough_cmd": "python3 vs.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    for i in CHECKS: assert any(q["id"] == i for q in P), i
    json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=$PWD/build", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    print("%d properties, %d checks, %d not applicable" % (len(P), len(checks), len(na)))


main()

# DESIGN.md: prose from tools/design_head.md and design_tail.md, tables from checks.py and seeded/
def cell(x): return str(x).replace("|", "/").replace("\n", " ")
T = {p["id"]: p["title"] for p in P}
with open(os.path.join(H, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(H, "tools", "design_head.md")).read())
    for p in P:
        c = CHECKS.get(p["id"])
        if not c: continue
        b = c["bounds"]
        b = b if isinstance(b, str) else b["quick"] + "; thorough: " + b["thorough"]
        f.write("| %s | %s | %s | %s |\n" % (p["id"], cell(p["title"]), cell(b), cell(c["outside"])))
    f.write(open(os.path.join(H, "tools", "design_tail.md")).read())
    d = os.path.join(H, "seeded")
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            m = json.load(open(os.path.join(d, n, "meta.json")))
            f.write("| %s | %s | %s |\n" % (n, m["property"], cell(m["needs"])))
