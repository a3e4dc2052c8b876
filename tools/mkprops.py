"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "differt2d/scene.py"
G = "differt2d/geometry.py"
L = "differt2d/logic.py"
O = "differt2d/optimize.py"
A = "differt2d/abc.py"
U = "differt2d/utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=observe or [], state=state or []))


prop("C01", "Path candidates are exactly the walks of the requested orders",
     "For any number of objects, any window of orders and any object filter, the path candidates listed for a scene are every "
     "sequence of allowed objects whose length is in the window and that never uses the same object twice in a row, each exactly once and by increasing length. "
     "A fixed order overrides the window, order zero contributes the one empty candidate, and an empty window gives no candidate. "
     "The filter is evaluated on the scene's own current objects on every call, whatever was traced before.",
     ["inputs", "configurations", "histories"],
     "every object count, order window, filter, and sequence of earlier calls",
     "the tests count candidates for a few complete scenes; filters, overridden windows and repeated calls with other objects are not compared with the set of all walks",
     [S], [("all_path_candidates / Scene.all_path_candidates", S)],
     "TLC proves the depth-first enumeration equals the set of walks for every filter up to 4 objects and order 3, and decides each recorded list; larger instances are sampled")

prop("C02", "Tracing yields one well-formed path per tx, rx and candidate",
     "Tracing all paths of a scene yields exactly one entry for every (transmitter, receiver, candidate), transmitters outermost and candidates innermost, each in the scene's order and correctly named. "
     "Each path starts at that transmitter, ends at that receiver and has exactly one point per object of its candidate in between. "
     "Tracing the valid paths yields exactly the entries whose validity is true, unchanged and in the same order.",
     ["inputs", "configurations"],
     "every scene, path method, order window, filter and validity option",
     "the tests trace one receiver-transmitter pair of a named scene and count paths",
     [S, G], [("Scene.all_paths", S), ("Scene.all_valid_paths", S), ("Path.from_tx_objects_rx", G)],
     "every yielded entry is compared by TLC with the nested enumeration of the specification")

prop("C03", "Image-method paths obey specular reflection",
     "A path traced with the image method through any sequence of walls has every bounce point at the exact specular point on the line of its wall, so the angles of incidence and reflection match at every bounce. "
     "Its loss is zero when every bounce is a true reflection, and otherwise is the sum of the misfits of its bounces (4 for a wall crossed instead of bounced on). "
     "When the loss is zero its length is the straight distance from the last image of the transmitter to the receiver.",
     ["inputs"], "every wall sequence and every pair of ends for which the bounces are well defined",
     "the tests compare a handful of hand-computed points for axis-aligned rooms",
     [G], [("ImagePath.from_tx_objects_rx", G), ("Wall.image_of", G), ("Wall.evaluate_cartesian", G)],
     "points, loss and length are compared with exact rational reflections computed by TLC; ill-conditioned (near-parallel) bounces are left open")

prop("C04", "The crisp validity verdict is exactly the three requirements",
     "Without smoothing, a path is reported valid exactly when every interaction point lies within its object (both ends of a wall included), no segment meets any object other than those it touches at its own two ends (walls being extended at both ends by the patch ratio), and its loss is strictly below the tolerance. "
     "The verdict is a boolean, and a path whose loss is undefined (NaN) is never valid.",
     ["inputs", "configurations"], "every path, scene, candidate, tolerance and patch",
     "the tests check validity of a few paths in one scene, never at boundaries, with patches, with revisited objects or non-walls",
     [G, S], [("Path.is_valid, on_objects, intersects_with_objects", G), ("segments_intersect", G), ("Wall.intersects_cartesian", G)],
     "exact margins on a lattice decide every verdict that rounding cannot influence; exact boundaries are decided on dyadic coordinates")

prop("C05", "Smoothed validity is the smoothing of the crisp margins",
     "With smoothing enabled, the validity of a path is a number between 0 and 1: the minimum over the three requirements of the chosen activation (with the chosen slope) applied to the signed margin of each elementary comparison. "
     "Away from boundaries it therefore tends to the crisp verdict, it is thresholded consistently when valid paths are selected, and an undefined path gives 0.",
     ["inputs", "configurations"], "every path, scene, slope, activation, tolerance and patch",
     "the tests compare smoothed and crisp results for a few paths at the default slope",
     [G, L], [("Path.is_valid", G), ("segments_intersect", G), ("activation", L)],
     "the activation of the exact margin interval is computed by TLC (exactly for the hard sigmoid, through its inverse for the sigmoid)")

prop("C06", "Accumulating over paths sums validity times function per pair",
     "Accumulating a function over the paths of a scene gives, for every (transmitter, receiver) pair in order, the sum over all its candidates of validity times the function of that transmitter, that receiver, that path and the objects of that candidate in order, with the caller's extra arguments. "
     "Every pair is present, with zero when it has no path, and the reduced form is the sum over all pairs.",
     ["inputs", "configurations"], "every scene, function, order window, filter and validity option",
     "the tests accumulate received power for a couple of pairs and compare with the library's own functions",
     [S], [("Scene.accumulate_over_paths", S)],
     "the accumulated function is an exact polynomial of all its arguments, so TLC recomputes each total from the geometry")

prop("C07", "Grid maps equal tracing point by point",
     "Accumulating over a grid of receiver (or transmitter) positions gives, for every fixed end by name and order, an array of the grid's shape whose element (i, j) is the value accumulated with the moving end at (X[i,j], Y[i,j]) and the fixed end where it is, whatever the number of fixed ends, the order of the grid or repeated positions. "
     "The moving points are built with the requested point class, the reduced form is the sum over the fixed ends, and the scene's own points on the moving side play no role.",
     ["inputs", "configurations"], "every scene, grid, side, function, class, order window and option",
     "the tests compare one mesh of one scene with the pointwise loop, in one configuration",
     [S], [("Scene.accumulate_on_receivers_grid_over_paths", S), ("Scene.accumulate_on_transmitters_grid_over_paths", S)],
     "every cell is recomputed exactly by TLC, including cells at the other end and on walls")

prop("C08", "Grid gradients are the true derivatives and always finite",
     "Gradients over a grid are the derivatives of the accumulated value with respect to the position of the moving end, with a trailing axis for (x, y), given alone or together with the values (which take precedence). "
     "They are finite everywhere, also when the moving end coincides with the other end, lies on a wall or makes a path degenerate, and they are zero where no path contributes.",
     ["inputs", "configurations"], "every scene, grid, side and smoothing, including degenerate positions",
     "the tests check shapes and finiteness on one grid that avoids the degenerate positions",
     [S, G], [("value_and_grad / grad branches of the grid methods", S), ("path_length, normalize, segments_intersect", G)],
     "exact gradients (from the image chain) are computed by TLC where every truth value is saturated; elsewhere finiteness is required")

prop("C09", "Scene edits return exactly the edited scene and change nothing else",
     "Every edit of a scene (setting, updating, renaming transmitters or receivers, setting, adding or filtering objects) returns a new scene that differs exactly as asked, in the documented order, and leaves the original scene and every scene derived earlier unchanged. "
     "Updates replace same-named points in place and append new names; renames keep the order and the points; filters keep exactly the objects for which the predicate holds, in order.",
     ["histories"], "every sequence of edits applied to any scene of the tree of derived scenes",
     "the tests apply single edits to a named scene",
     [S], [("with_*, update_*, rename_*, add_objects, filter_objects", S), ("PyTreeDict", S)],
     "behaviours generated by TLC from SceneEdits.tla are replayed on the real class and every scene ever derived is re-read at the end")

prop("C10", "The smoothing flag is scoped, restored and consistent under threads",
     "Within a smoothing (or unsmoothing) context the flag has the requested value for that thread's computations, contexts nest, and leaving one, normally or by an exception, restores the value seen when it was entered. "
     "Concurrent contexts and setters of different threads never leak: each context's body sees its own value throughout, and once all threads are done the flag has the value given by a serial order of what they did. "
     "The flag starts enabled exactly when the ENABLE_APPROX environment variable is set.",
     ["schedules", "histories"], "every nesting, exception point and interleaving of threads using contexts and setters",
     "the tests nest two contexts in one thread",
     [L], [("enable_approx, disable_approx, set_approx", L)],
     "TLC explores every interleaving of the protocol; the same schedules are forced on the real context managers and every observation must be a behaviour of the specification",
     state=[("ENABLE_APPROX", "the process-wide flag", L)])

prop("C11", "An explicit smoothing choice always wins over the global flag",
     "Whenever a smoothing choice is given explicitly to a logic operation, a geometric test, a validity query or a tracing request, the result is of that kind (boolean or number in [0, 1]) and has the same value whatever the global flag and the history of earlier calls. "
     "Without an explicit choice, an uncompiled call follows the flag in force when it is made.",
     ["histories", "configurations"], "every sequence of flag changes and calls with and without explicit choice",
     "the tests call each function once per setting with cleared caches",
     [L, G, S], [("approx parameter", L), ("approx parameter of geometry and scene", G)],
     "histories generated from the specification interleave flag changes and calls; TLC decides kind and value of every result")

prop("C12", "Smoothed logic keeps the laws of logic",
     "Smoothed comparisons are the activation of the signed difference, in [0, 1], 1/2 at equality, nondecreasing in the difference and complementary when the operands are swapped; and/or/not/all/any are min/max/1-x over the same elements as their crisp versions, so De Morgan, double negation, idempotence, absorption and the reduction over any axes hold. "
     "At saturated inputs they agree with the crisp results, crisp results are the exact boolean ones (strict and non-strict at equality included), and is-true/is-false follow their tolerance.",
     ["inputs"], "every operand (shape, mix of booleans and numbers), axis, slope, activation and tolerance",
     "the tests compare each function with its numpy counterpart on random data, one call at a time",
     [L], [("greater ... logical_any, is_true, is_false, activation", L)],
     "values are exact rationals (hard sigmoid) or checked through the inverse (sigmoid); shapes and reductions are recomputed by TLC")

prop("C13", "GeoJSON import gives one wall per edge of every polygon",
     "Importing a GeoJSON document from text, bytes or a readable creates exactly one wall for every pair of consecutive positions of the outer ring of every polygon feature (the last and the first included, so that a ring given closed also yields one zero-length wall), in document order and with the edge's coordinates; holes, altitudes and other features contribute nothing and never make the import fail. "
     "The transmitter and the receiver are placed at the requested locations of the bounding box of the walls, or at (0, 0) and (1, 1) when there are no walls.",
     ["inputs"], "every document, mixture of features, ring and pair of locations",
     "the tests import one fixed document",
     [S], [("Scene.from_geojson", S)],
     "TLC derives the expected walls and positions from the document and compares them with the imported scene")

prop("C14", "Extents, locations, grids and nearest points are exact",
     "The bounding box of a point, wall, path or scene is the least box holding all of its coordinates, and center and named locations are the corresponding points of that box. "
     "A grid of m by n samples spans the box from its lower to its upper corner with evenly spaced rows and columns, x varying along the columns and y along the rows. "
     "The nearest transmitter or receiver is the first one at the least distance, returned by name with that distance.",
     ["inputs"], "every object, scene, location, grid size and query point",
     "the tests check the unit square and one query",
     [A, G, S], [("bounding_box, grid, center, get_location", A), ("closest_point", G), ("get_closest_*", S)],
     "exact lattice arithmetic in TLC, ties and degenerate boxes included")

prop("C15", "The minimizer follows its optimizer and returns the loss of its result",
     "Minimizing applies exactly the requested number of optimizer steps to the objective (with its extra arguments) from the initial guess, and returns the final point with the objective's value at that very point. "
     "The multi-start version returns the best of its starts: its loss is the objective at its solution and no other start ends lower, and everything is a deterministic function of the key.",
     ["inputs", "configurations"], "every objective, start, step count, optimizer, key and number of starts",
     "the tests minimize convex functions and compare with loose tolerances",
     [O], [("minimize, minimize_random_uniform, minimize_many_random_uniform", O)],
     "gradient descent, momentum and constant-step optimizers on piecewise-quadratic objectives are stepped exactly in TLC")

prop("C16", "Walls, rays and vertices have consistent geometry",
     "For any wall, direction, unit normal (perpendicular to it), image (the mirror point; mirroring twice is the identity), end points, vertices, parametric coordinates (0 and 1 at its ends, inverse of each other, projection for points off the wall), containment and crossing tests all describe the same segment, with the degenerate zero-length wall handled without undefined values. "
     "Rotating a ray by an angle around a point moves both end points by that rotation.",
     ["inputs"], "every wall, ray, vertex, point, parameter and angle",
     "the tests use random walls for some of these relations and two fixed rotations",
     [G], [("Ray.*, Wall.*, Vertex.*, normalize, segments_intersect, path_length", G)],
     "exact lattice geometry in TLC; the rotation defect is a known finding pinned by a doctest")

prop("C17", "Interaction scores measure the deviation from the object's law",
     "The score of an interaction is the squared distance between the unit outgoing direction and the direction required by the object: the mirrored unit incoming direction for a wall, the fixed angle from the normal for a reconfigurable surface whatever the incoming direction, and anything for a vertex (score 0). "
     "It is never negative nor undefined, is 0 exactly for a perfect interaction, does not depend on the lengths of the two segments or on the order of the wall's ends, and path losses are sums of these scores.",
     ["inputs"], "every wall, surface angle, vertex and triple of points, degenerate ones included",
     "the tests check a few perfect reflections",
     [G], [("evaluate_cartesian of Wall, RIS, Vertex", G)],
     "directions with rational norms make the score an exact rational that TLC computes")

prop("C18", "Minimization-based paths visit their objects in order and find the optimum",
     "Paths found by Fermat's principle or by minimizing interactions visit the given objects in order, each interaction point on the line of its object (at the vertex itself for a vertex), between the given ends, with the loss of the path as found. "
     "Where the reflection path of a sequence of walls lies inside them, Fermat's principle agrees with the image method; minimal-interaction paths do so for a single wall and whenever their loss vanishes. Both are a deterministic function of the key.",
     ["inputs", "configurations"], "every sequence of walls, surfaces and vertices, ends, key, number of starts and steps",
     "the tests compare the methods in one square scene",
     [G, O], [("FermatPath, MinPath.from_tx_objects_rx", G), ("parametric_to_cartesian", G)],
     "points are located by TLC relative to the exact objects and, where the convex problem has its optimum inside the walls, compared with the exact specular path")

prop("C19", "Received power follows the documented law",
     "The received power of a path is the reflection coefficient raised to its number of interactions, divided by the sum of the squared height and the squared path length, with the given or default coefficient and height. "
     "It depends on nothing else, decreases with the length, and is finite for zero-length paths with a nonzero height.",
     ["inputs"], "every path (number of points and length), coefficient and height",
     "the tests evaluate it for one geometry and the defaults",
     [U], [("received_power", U)],
     "lattice paths with rational lengths: TLC computes the exact power")

prop("C20", "Named and random scenes have their documented layout",
     "Each named scene has the documented walls, transmitter and receiver for every value of its parameters, the walls enclosing closed rooms and obstacles, and building it by name is the same as building it directly. "
     "A random scene has exactly the requested numbers of transmitters, walls and receivers, named tx_0.. and rx_0.., all drawn as distinct samples in the unit square, and is a deterministic function of its key.",
     ["inputs", "configurations"], "every scene name, ratio, coordinates, counts and key",
     "the tests count objects and compare bounding boxes",
     [S], [("basic_scene, square_scene*, random_uniform_scene, from_scene_name", S)],
     "TLC compares every coordinate with the documented layout, and decides distinctness and range of the drawn ones")

prop("C21", "Tracing is reciprocal",
     "Exchanging transmitters and receivers maps every image-method path to its reverse: same points in reverse order, same length and loss, same validity (crisp or smoothed) and the reversed candidate, with no path gained or lost.",
     ["inputs", "configurations"], "every scene, order window, filter and validity option",
     "no test traces a scene both ways",
     [S, G], [("Scene.all_paths", S), ("ImagePath, Path.is_valid", G)],
     "reciprocity is an invariant of the tracer model, and the two recorded tracings are compared by TLC for every well-conditioned path")

prop("C22", "Plotting draws exactly what the scene holds",
     "Plotting a scene draws exactly its transmitters, objects and receivers that are not switched off, each at its coordinates and in that order, with one annotation carrying its name per point when annotations are on, and returns exactly the artists it added to the axes. "
     "Per-category and common arguments reach the elements concerned and no others (positional ones of the category first), and the scene is left unchanged.",
     ["inputs", "configurations"], "every scene and combination of plotting options",
     "the tests check the number of artists for a few options",
     [S, G], [("Scene.plot", S), ("plot of Point, Ray, Path, Vertex, RIS", G)],
     "the artists found on the axes are read back and compared by TLC with the drawing derived from the scene")

prop("C23", "Stacking, indexing and flattening objects lose nothing",
     "Stacking objects and unstacking them gives back the same objects in the same order, with their types and all of their data; scenes built from arrays or stacked objects hold exactly those objects. "
     "Looking up an object by index gives that object (clamped to the valid range), the interacting objects of a candidate are those objects in that order, and flattening and rebuilding a scene as a pytree preserves names, order and values.",
     ["inputs"], "every list of objects of any type, index and candidate",
     "the tests round-trip a few walls",
     [G, S], [("stack_leaves, unstack_leaves", G), ("get_object, get_interacting_objects, from_walls_array, stacked_objects, PyTreeDict", S)],
     "objects carry distinguishable lattice data, so TLC can tell any loss, swap or change of type")

prop("C24", "Results do not depend on compilation mode or call history",
     "The same request gives the same result whether it runs compiled, uncompiled, inside a user's jit or vmapped over positions, on whichever scene of the same structure was traced before and however often it is repeated. "
     "In particular earlier calls with other coordinates, filters, tolerances, flags or keys never influence a later result.",
     ["histories", "configurations"], "every mode and every sequence of requests in one process",
     "each test calls a function once, in one mode, in a fresh state",
     [S, G, L], [("jit caching of traced functions", S), ("filter_jit methods", G)],
     "sequences of requests generated from the specification are run in one process in different modes; TLC requires each answer to be the function of its own request")

prop("C25", "Derivatives with respect to every number of a scene are the true ones",
     "Automatic differentiation of accumulated results, traced points, lengths, losses, validities, object-level functions and minimizers, with respect to end points, object coordinates, phases, "
     "slopes, tolerances, patches and function arguments, in reverse, forward and compiled mode, gives the derivative of the value that is returned wherever that value is differentiable, and a finite number elsewhere.",
     ["inputs", "configurations"], "all scenes, path classes, options, quantities, parameters and modes of differentiation",
     "tests compare a handful of gradients with a fixed expected value, for one parameter",
     [G, S, L], [("from_tx_objects_rx, is_valid", G), ("accumulate_over_paths", S), ("activation", L), ("minimize", "differt2d/optimize.py")],
     "increments of the real functions over two step sizes and the claimed derivative are recorded as exact integers; TLC decides whether the claim is their derivative where they are smooth")

prop("C26", "Tracing commutes with moving, mirroring, scaling and relabeling a scene",
     "Rotating, mirroring, translating or scaling a whole scene moves its traced paths accordingly and leaves losses, verdicts and (scale-free) accumulated results unchanged; gradients turn along. "
     "The order in which objects and end points are listed, the end of a wall that comes first, and the names of the end points change nothing but the labels.",
     ["inputs", "configurations"], "all scenes in general position, all similarities of the plane, all orders and names, every path class",
     "tests trace each scene in one fixed layout",
     [G, S], [("image_of, normal, segments_intersect, is_valid", G), ("all_paths, accumulate_over_paths, grids", S)],
     "pairs of traced scenes are recorded; TLC moves every path of the first one and compares it with its counterpart; TLC checks on the tracer of the specification that it commutes")

prop("C27", "Adding to a scene never disturbs or revives existing paths",
     "An additional transmitter or receiver leaves the paths, verdicts, results and maps of all the other pairs unchanged. An additional object leaves the points, length and loss of every path that does not touch it "
     "unchanged, and can only lower its validity, never raise it.",
     ["inputs", "histories"], "all scenes, all additions at any place in the lists, crisp and smooth logic",
     "tests do not compare a scene with its extensions",
     [G, S], [("intersects_with_objects", G), ("all_paths, get_interacting_objects, all_transmitter_receiver_pairs", S)],
     "pairs of traced scenes, one being part of the other, are recorded; TLC matches their paths and compares; TLC checks monotonicity on the margins of the specification")

prop("C28", "Objects written by the user are traced on equal terms",
     "Any object that implements the documented interface takes part in a scene like the built-in ones, whatever its type, shape and number of parameters: it is a candidate for interactions, its own tests decide "
     "with the caller's options whether a path is on it or blocked by it (never on the segments that end on it), its own score enters losses, minimizing paths find their points among its own parametrisation, "
     "user functions receive it with its data, and samples are points of all its parameters drawn from the unit cube.",
     ["inputs", "configurations"], "all mixtures and orders of objects with zero, one or two parameters, path classes, options and user-defined path methods",
     "tests only use the built-in objects",
     [G, S, A], [("on_objects, intersects_with_objects, parametric_to_cartesian, MinPath, FermatPath", G), ("get_interacting_objects, all_paths", S), ("Interactable", A)],
     "scenes of user-defined disks, slabs, curves, walls and vertices are traced, accumulated, mapped, minimised over and sampled; TLC recomputes every answer from the objects' own laws; TLC checks that a verdict is a function of the objects' answers")

prop("C29", "Lazy results can be consumed in any order and are independent",
     "Iterators returned by a scene (pairs, paths, valid paths, accumulated results, grid maps) yield exactly their entries, once and in order, however slowly they are consumed, in whatever interleaving with other iterators of the same or other scenes, "
     "from whichever threads, and whether or not others are abandoned. Edits made meanwhile give new scenes and do not reach iterators that are open, each keeps its own random keys, and pulling an entry leaves the global smoothing flag as it was.",
     ["schedules", "histories"], "all scenes, requests, and interleavings of pulls, edits, flag changes, contexts and threads",
     "tests consume every iterator at once and alone",
     [S, L], [("all_paths, all_valid_paths, accumulate_over_paths, grids, all_transmitter_receiver_pairs", S), ("set_approx, enable_approx", L)],
     "TLC-generated schedules are replayed on several open iterators with a user-defined path method whose validity is known exactly; TLC recomputes every entry; TLC checks a machine that advances two streams candidate by candidate in every interleaving")


def main():
    sys.path.insert(0, os.path.join(HERE, "harness"))
    from vf.checks import CHECKS, load_all
    load_all()
    todo = {}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["public API"], "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        if p["id"] in CHECKS:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.py {p['id']} --tier quick",
                "thorough_cmd": f"./check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "TLA+ model checked with TLC; executions of the real code validated against it by TLC",
                "level": "model_checking",
                "level_note": p["note"] + ". Trusted: TLC, JAX's float arithmetic within stated tolerances, the recording harness.",
            })
        else:
            na.append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "TLA+/TLC. No hooks: everything is observed through the public API."}, f, indent=1)


main()
