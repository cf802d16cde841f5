#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/Meshing/"
FUZZ = "property-based testing"
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=(), technique=None, note=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if "/" in f else M + f for f in files], mechanism=mechanism, observe=list(observe),
                  technique=technique, note=note, state=list(state)))

prop("C01", "Spatial point index answers equal an exhaustive search",
     "Whatever points have been added to the spatial index, in whatever order, dimension and distribution, and after any "
     "rebuild, renumbering, clear or query in between, every closest-point query (plain, excluding given points, or "
     "restricted by surface smoothness) returns a truly closest admissible stored point with its true distance, and every ball "
     "query returns exactly the stored points inside the ball, none missing and none twice. Stored coordinates, normals, attributes "
     "and links read back exactly as written.",
     ["inputs", "histories"],
     "any history of insertions (1 to 5 dimensions, duplicates, collinear or sorted points, hundreds of points so that storage grows), "
     "rebuilds, renumberings, clears and links, any query point and radius",
     "The tests run nine fixed models end to end and check only that the program exits with status 0; a wrong neighbour changes the mesh silently.",
     ["MeshingSmartTree.cpp"],
     [{"name": "kd-tree insertion, balanced rebuild and pruned recursive search", "where": M + "MeshingSmartTree.cpp"}],
     ["index query API"],
     "stateful property-based testing of operation histories against an exhaustive-scan reference model (plain and ASan/UBSan builds)",
     "Generated histories only; distances compared within 1e-10 relative, points within 2e-6 of a ball's surface may go either way. Trusts the reference scan, Hypothesis and the sanitizers.")

prop("C02", "Point, sphere and seed files read back as what was written",
     "A point set with normals and attributes, a sphere list and a seed list that the system saves to its CSV files and loads again come back "
     "with the same entries in the same order, coordinates and sizes equal to the precision written (sixteen digits), attributes and region ids "
     "exactly equal, whatever the number of entries, including none, and whether or not the file contains or ends in blank lines. "
     "Loading into an index that already holds points appends to them, and queries on the loaded index are answered as on any other.",
     ["inputs", "histories"],
     "any number of entries and any finite coordinates; any sequence of save, load, and further insertion",
     "No test ever loads a file the program wrote and compares it.",
     ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp", "MeshingMemoryHandler.cpp"],
     [{"name": "save/load of point sets", "where": M + "MeshingSmartTree.cpp"}, {"name": "save/load of spheres", "where": M + "MeshingVoronoiMesher.cpp"},
      {"name": "reading of seeds", "where": M + "MeshingVoroCrust.cpp"}], ["the CSV files", "loaded structures"],
     "round-trip property-based testing of generated files against the data written (plain and ASan/UBSan builds)",
     "Up to three files of up to 401 entries, numbers from 1e-290 to 1e290. The seed-file reader is private and skipped should its interface change.")

prop("C03", "The explicit mesh is the Voronoi diagram of its seeds",
     "For any set of seeds in which every non-exterior cell is bounded, each non-exterior cell of the explicit mesh is exactly the Voronoi "
     "cell of its seed: its corners are equidistant from the cell's seed and the seeds of its other faces and no seed is closer, "
     "its faces lie on bisector planes, are shared by exactly the two cells whose seeds they separate, and together close the cell; "
     "the volumes, face areas and neighbours equal those of an independently computed diagram. "
     "The result does not depend on the number of threads.",
     ["inputs", "schedules"],
     "any seed set in general or regular position, any 1-8 threads",
     "The tests never look at the mesh, and one schedule of one fixed model cannot show independence of the thread count.",
     ["MeshingVoronoiMesher.cpp"],
     [{"name": "per-seed cell construction and merge of cells into a mesh", "where": M + "MeshingVoronoiMesher.cpp"}],
     ["explicit mesh arrays", "mesh.vcg"],
     "differential property-based testing of generated seed sets against Qhull's Voronoi diagram, and of thread counts against each other (plain and ASan/UBSan builds)",
     "Generated seed sets of tens to a few hundred seeds; corner/face topology is compared only in general position, areas and volumes always. Trusts Qhull within 1e-7.")

prop("C04", "The written mesh file is a consistent finite-volume grid of the seeds",
     "In a written mesh file there is one cell per non-exterior seed, positioned at that seed and carrying its region and its true volume; "
     "one connection for every pair of non-exterior cells that share a face, with the true shared area, a unit normal along the line of the two seeds and the midpoint of the two seeds as its centre; "
     "and one boundary connection, of a cell with itself, for every face between a non-exterior and an exterior cell, with its area and outward normal. "
     "So the connections of every cell satisfy the divergence theorem. In a full run, interior seeds whose cells touch belong to one region and unconnected regions stay apart; meshing from a saved seed file "
     "keeps the regions of the file and gives the same cells and connections as the run that produced the seeds, and an empty or all-exterior seed file is no error.",
     ["inputs", "configurations"],
     "any seed set and region assignment, any thread count, from-model and from-seeds modes",
     "One test writes this file for one model and does not read it.",
     ["MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp"],
     [{"name": "grid file writer", "where": M + "MeshingVoronoiMesher.cpp"}, {"name": "from-seeds mode", "where": M + "MeshingVoroCrust.cpp"}],
     ["mesh.vcg", "seeds.csv"],
     "differential property-based testing of the program's mesh files against Qhull's Voronoi diagram: generated seed files, generated region assignments, whole runs meshed again (plain and ASan/UBSan builds)",
     "Seed sets of tens to a few hundred seeds with bounded meshed cells; whole runs of small generated models. Areas and volumes within 1e-7 of the scale.")

prop("C05", "Meshed regions reproduce the input solids",
     "For a watertight input bounding one or more touching or nested solid regions, whose triangles are consistently oriented shell by shell, the run terminates, every seed strictly inside a solid region carries that region's "
     "own nonzero id, every seed outside carries the exterior id, two different solid regions never share an id, and for planar-faced models "
     "whose edges are all sharp the cells of each region sum to exactly that region's volume (for curved models to within the discretization, 10% on those generated). "
     "This does not depend on the placement or scale of the model, the order of its triangles and vertices, whether a shell is oriented inwards or outwards, how the model is split into files, or the sizing parameters.",
     ["inputs", "configurations"],
     "generated solids (convex, non-convex, cavities, several regions sharing faces), rotations, sizes, R_MAX, Lipschitz constant, angle, threads, RNG seeds",
     "The tests mesh a few fixed models and never compare volumes or regions with the input.",
     ["MeshingVoroCrust.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp"],
     [{"name": "sphere sampling, seed colouring and interior seeding", "where": M + "MeshingVoroCrustSampler.cpp"}],
     ["mesh.vcg", "seeds.csv"],
     "property-based testing of whole runs on generated solids against winding numbers and exact volumes",
     "About 55 whole runs per quick check on 18 model families of up to a few dozen triangles. Known finding: solids that do not touch.")

prop("C06", "Interior seeds respect spacing, protection, sizing and regions",
     "Generated interior seeds lie outside every protecting sphere and no nearer to an earlier seed than that seed's size, carry the region of the closest of the earlier seeds, and so of the part of "
     "the domain they lie in, and never exceed the maximum size or the value of the sizing function nearest to them; sizes within reach of each other are graded, none falls below the smallest size asked for, "
     "and the seeds that existed before keep their position, region and order, their size only shrinking. The interior is filled: nearly everywhere the nearest seed is within twice its size. "
     "With one thread the same call gives the same seeds.",
     ["inputs", "schedules", "configurations"],
     "any boundary seeds and spheres, model, sizing file, maximum size, gradation and number of threads",
     "The tests never inspect the seeds; spacing is a property of all pairs under all schedules.",
     ["MeshingVoronoiMesher.cpp"],
     [{"name": "spoke-dart advancing front", "where": M + "MeshingVoronoiMesher.cpp"}], ["seeds.csv"],
     "property-based testing of the interior seeding on generated domains, and of whole runs, against direct evaluation over all pairs (plain and ASan/UBSan builds)",
     "Domains of up to a few hundred boundary seeds. Filling is judged on 2500 probe points: none over 6 sizes away, at most a fifth over 2.")

prop("C07", "Protecting spheres sit on their features, obey limits and cover them",
     "Every protecting sphere is centred on its feature (sharp corner, sharp edge, or face), exactly one corner sphere exists per sharp corner, "
     "no sphere exceeds the requested maximum radius or the value of the sizing function at its centre, no sphere reaches half way to a part of the surface or a sharp edge that is not on its own plane or line, "
     "no sphere's centre is inside a sphere of a lower feature, spheres of one kind keep the spacing set by the coverage ratio, "
     "and every point of every sharp edge lies inside a corner or edge sphere and every point of the surface inside at least one sphere.",
     ["inputs", "schedules", "configurations"],
     "any watertight model, any R_MAX, angle, gradation, sizing file, RNG seed and number of threads",
     "The tests never inspect the sphere files; coverage is a for-all-points property.",
     ["MeshingVoroCrustSampler.cpp", "MeshingSpheresMethods.cpp"],
     [{"name": "maximal Poisson-disk sampling with shrinking", "where": M + "MeshingVoroCrustSampler.cpp"}],
     ["corner_spheres.csv", "edges_spheres.csv", "surface_spheres.csv"],
     "property-based testing of whole runs on generated solids and configurations against exact geometric oracles (interval union on edges, recursive coverage of faces)",
     "About 55 whole runs per quick check; coverage is decided exactly up to 1e-7 of the model size.")

prop("C08", "Surface seeds are valid sphere intersections and the surface closes",
     "The surface seeds are exactly the pairs of points common to three overlapping protecting spheres, at least one of them a surface sphere, that lie inside no other sphere; no such pair is left with one of its points inside a sphere; "
     "the two seeds of a pair have different regions, their size does not exceed the spheres they come from, and no seed lies inside any sphere. "
     "The reconstructed surface mesh has one triangle per pair, its vertices are the sphere centres, every edge that touches a surface sphere has exactly two triangles and every other edge at least two, "
     "and for planar-faced models its area (and for a single solid the enclosed volume) equals the input's.",
     ["inputs", "schedules", "configurations"],
     "any watertight model, sizing, angle, gradation, RNG seed and number of threads",
     "The tests never inspect seeds or the reconstructed surface.",
     ["MeshingVoroCrustSampler.cpp"],
     [{"name": "triple intersections, sliver elimination and seed colouring", "where": M + "MeshingVoroCrustSampler.cpp"}],
     ["seeds.csv", "surface_mesh.obj"],
     "property-based testing of whole runs on generated solids against an independent computation of all sphere intersections",
     "About 50 whole runs per quick check; points within 1e-6 of a further sphere may go either way.")

prop("C09", "Sphere and seed sizes grow no faster than the Lipschitz constant",
     "After gradation the radius of every sphere exceeds that of any other of the same kind by at most the Lipschitz constant times their distance, and the same holds for seeds "
     "within reach of each other (distance below twice the larger size); gradation only ever shrinks sizes, never below what these limits need, so never below the smallest size present, moves nothing, "
     "reports whether it shrank a sphere, and its outcome does not depend on the number of threads. The spheres and seeds a run writes are graded.",
     ["inputs", "schedules", "configurations"],
     "any sphere set, constant in (0,1), thread count",
     "No test measures gradation.",
     ["MeshingSpheresMethods.cpp", "MeshingVoronoiMesher.cpp"],
     [{"name": "iterative size relaxation", "where": M + "MeshingSpheresMethods.cpp"}, {"name": "the same for seeds", "where": M + "MeshingVoronoiMesher.cpp"}],
     ["sphere sizes", "seed sizes"],
     "property-based testing of generated sphere and seed sets against the closed form of the gradation, and of whole runs pair by pair (plain and ASan/UBSan builds)",
     "Sets of 1 to 400 spheres with distinct centres; about 30 whole runs per quick check.")

prop("C10", "Runs are reproducible and thread counts only change the schedule",
     "With one thread and the same random seed, running the same control file on the same input twice writes identical files, whatever the environment variables, the contents of fresh memory, the directory and the files "
     "an earlier run left in it; another random seed gives other seeds. Different random seeds and thread counts give the same number of regions with the same volumes and samples of the same density; "
     "meshing a given seeds file gives the same cells, volumes and areas with any number of threads.",
     ["inputs", "schedules", "configurations"],
     "any model and control file, repeated runs, 1-8 threads",
     "Each test runs once and compares nothing.",
     ["MeshingVoroCrust.cpp", "MeshingRandomSampler.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp"],
     [{"name": "seeded per-thread generators", "where": M + "MeshingRandomSampler.cpp"}], ["all output files"],
     "metamorphic property-based testing: generated runs of the real program repeated in other surroundings and with other seeds and thread counts",
     "Tens of full runs and hundreds of seeds files in the quick tier, on ten families of small planar models; the random seed is given through a replacement of time(), from which the program seeds itself. "
     "Fresh memory is varied with glibc's MALLOC_PERTURB_.")

prop("C11", "The cleaned input mesh is the input surface",
     "Reading one or several OBJ files yields exactly their vertices and triangles (any face syntax with slashes; comments, blank lines, other records, further columns, the order of the records and the line ends make no difference; "
     "several files are joined with offset indices), and cleaning merges every vertex with the closest of the vertices kept before it that is nearer than the weld tolerance and no other, drops the triangles that collapse by it, keeps every other triangle "
     "with its orientation and every other vertex at its place, and writes a mesh that reads back as itself.",
     ["inputs"],
     "any OBJ text in the supported subset, any duplication of vertices, any number of files",
     "The tests read nine fixed, already clean files.",
     ["MeshingPolyMesh.cpp", "MeshingVoroCrust.cpp"],
     [{"name": "OBJ reader, welding, merging", "where": M + "MeshingPolyMesh.cpp"}, {"name": "joining of several files", "where": M + "MeshingVoroCrust.cpp"}],
     ["clean.obj", "model_combined.obj", "mesh arrays"],
     "property-based testing of generated OBJ files and meshes against the definition and by round trip (plain and ASan/UBSan builds)",
     "Up to four files of up to 1500 vertices; triangles only. Distances within 0.1% of the tolerance are not decided.")

prop("C12", "Geometric kernels agree with their mathematical definitions",
     "Distance, dot product, normalization, cosine of an angle, polar angle, component normal to an orthonormal set, sphere overlap, triangle area and normal, closest point of a triangle, "
     "of a segment and of a line, power vertex of two or of several spheres in any dimension, sphere containment and the smallest shrinkage that resolves a sliver "
     "give the mathematically defined result, to rounding, for every input that is not degenerate within 1e-10, wherever the point or triangle lies and whatever its size, "
     "position, dimension and the order of its corners; degenerate vectors are reported as such; arguments are left unchanged.",
     ["inputs"],
     "any coordinates in dimensions 1 to 6, sizes 1e-2 to 1e3, needle and axis-aligned triangles, points on corners, edges, extensions and planes",
     "No unit tests exist for these kernels.",
     ["MeshingGeometricalMethods.cpp", "MeshingSpheresMethods.cpp"],
     [{"name": "kernels", "where": M + "MeshingGeometricalMethods.cpp"}, {"name": "sphere kernels", "where": M + "MeshingSpheresMethods.cpp"}], ["kernel API"],
     "differential property-based testing of each kernel against an independent formula (plain and ASan/UBSan builds)",
     "Generated non-degenerate inputs, tolerance about 1e-9 relative (1e-6 for power vertices).")

prop("C13", "Linear solvers solve the system they are given",
     "For any matrix with at least as many rows as columns, including rank-deficient ones and ones with a zero column, the Householder factorization gives finite factors with Q orthogonal, R upper triangular and Q R equal to the matrix, "
     "and the least-squares solver returns a finite solution, which for full rank is the least-squares solution to rounding amplified by the condition number; inputs are not modified. "
     "For any sparse symmetric positive definite matrix, the Cholesky factor and its transpose multiply back to the matrix after any history of rank-one updates, row removals and row additions, "
     "its solver solves the resulting system, the sparse rows stay sorted and within their capacity, and indefinite matrices and redundant rows are refused.",
     ["inputs", "histories"],
     "any size, sparsity and conditioning up to 1e6; any history of updates",
     "No unit tests exist for the solvers.",
     ["MeshingLinearSolver.cpp"],
     [{"name": "Householder QR, least squares, sparse Cholesky with updates", "where": M + "MeshingLinearSolver.cpp"}], ["solver API"],
     "differential property-based testing against dense linear algebra, stateful for the Cholesky updates (plain and ASan/UBSan builds)",
     "Systems of up to 25 unknowns and histories of up to 6 updates; tolerances scale with the condition number.")

prop("C14", "Random sampling stays in its domain, is uniform and reproducible",
     "Uniform numbers lie in [0,1] and are uniform and serially uncorrelated; box samples lie in the box, sampled directions are unit vectors without preferred direction in any dimension, samples of a simplex "
     "(point, segment, triangle and up) lie in it and are uniform over it, and weighted cells are chosen in proportion to their weight, never one of weight zero (uniformly when all weights are zero); "
     "the same seed gives the same stream however it is drawn and whatever was drawn before, and the streams of different threads and of different samplers of a process are unrelated.",
     ["inputs", "histories"],
     "any seed, stream position and length, dimension, simplex and weights, any two threads",
     "No unit tests exist for the sampler.",
     ["MeshingRandomSampler.cpp"],
     [{"name": "lagged subtract-with-borrow generator and samplers", "where": M + "MeshingRandomSampler.cpp"}], ["sampler API"],
     "property-based testing with domain checks and statistical tests (Kolmogorov-Smirnov, moments, correlations) over generated seeds and domains",
     "Statistical statements are tested on up to 20000 samples per case and fail only at p below 1e-12; seeds equal modulo 2^24 share a stream.")

prop("C15", "Sharp features are exactly the creases and corners of the input",
     "In a consistently oriented surface an edge is treated as sharp exactly when it has other than two faces or its two faces meet at more than the requested angle, and a vertex is a sharp corner exactly when other than zero or two "
     "sharp edges meet there or the two turn by more than the angle; the result does not depend on triangle order, orientation, rigid motion, scale or threads. "
     "The points drawn on faces and sharp edges lie on them, carry their normal or tangent, and are spread in proportion to area and length; the input is left unchanged.",
     ["inputs", "configurations"],
     "any consistently oriented triangulated surface (manifold, open or non-manifold) and any angle",
     "The tests never check feature classification.",
     ["MeshingVoroCrustSampler.cpp", "MeshingPolyMesh.cpp"],
     [{"name": "feature detection", "where": M + "MeshingVoroCrustSampler.cpp"}], ["sharp edge/corner lists", "corner_spheres.csv"],
     "property-based testing of feature detection on generated triangle soups against a direct evaluation of the definition, with distribution tests of the drawn points (plain and ASan/UBSan builds)",
     "Surfaces of up to a few hundred faces; angles within 1e-9 (in the cosine) of the threshold are not decided; distribution tests fail only at p below 1e-12.")

prop("C16", "Command line and control file are honoured and errors are reported",
     "Every option of the control file takes effect with the value given, whatever the order of the options, spaces, tabs, line ends, blank lines, comments and unknown options in the file; "
     "of an option given several times the last one counts (all input meshes do), flags are on unless they say false, and an omitted option has its default; equivalent control files give identical results. "
     "Exactly the requested mesh and monitoring-point files are written and input files are left as they are. "
     "A call without a method or file, a missing control file, mesh, sizing or seeds file, an option without a value or with one that is no number, fewer than one thread, and input without a mesh or a mesh without faces "
     "are reported and end the run with a non-zero status; no text in a control file makes the program crash or hang.",
     ["inputs", "configurations"],
     "any control file built from the documented keys in any order and layout, any random words in it, any command line, any missing file",
     "Two tests pass -h and one control file; the others use one layout and never check the exit status of a failing run.",
     [M + "vc_mesh.cxx", "MeshingVoroCrust.cpp", "MeshingOptionParser.h"],
     [{"name": "control-file reader", "where": M + "MeshingVoroCrust.cpp"}, {"name": "option parser", "where": M + "MeshingOptionParser.h"}], ["exit status", "log", "output files"],
     "property-based testing of generated control files, layouts and faulty calls of the real program against the definition, and metamorphic pairs of equivalent control files (plain and ASan/UBSan builds)",
     "Names of files without spaces; a number followed by other characters is taken up to where it stops being one; R_MIN other than 0 is only followed up to the parameters shown. The full runs are pairs on seven kinds of small models.")

prop("C17", "Monitoring points are imposed faithfully",
     "Requested monitoring points that lie inside a solid region and outside every protecting sphere become seeds at exactly their position, with the requested size and the region that contains them; all others are rejected; "
     "the seeds that were there before stay as they are, and no generated interior seed is left inside the sphere of an imposed point. The reported closest seed "
     "of each monitoring point is the closest seed of the final set. Generated monitoring points are up to a hundred distinct interior seeds.",
     ["inputs", "schedules", "configurations"],
     "any list of distinct points, any model, any number of threads",
     "One test imposes points in one model and does not look at the result.",
     ["MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp"],
     [{"name": "imposed seeds", "where": M + "MeshingVoronoiMesher.cpp"}, {"name": "closest seeds and generated points", "where": M + "MeshingVoroCrust.cpp"}],
     ["seeds.csv", "monitoring point files"],
     "property-based testing of generated domains and points, and of pairs of whole runs (generate, then impose), against direct evaluation and winding numbers (plain and ASan/UBSan builds)",
     "Up to 60 points on domains of a few hundred seeds; about 24 pairs of whole runs per quick check. Points within 1e-8 (whole runs 1e-6) of a sphere may go either way.")

prop("C18", "Sorting, growable arrays and number parsing behave as their models",
     "Sorting a range of an array leaves it an ascending permutation of itself, carries every companion along with its key and touches nothing outside the range; appending to a growable array of any initial capacity keeps "
     "every entry in order and never exceeds the capacity it reports; parsing a written integer or real number returns the number, and zero for text that is not a number.",
     ["inputs", "histories"],
     "any array contents, order and length, any sub-range, any sequence of appends, any written number",
     "No unit tests exist.",
     ["MeshingMemoryHandler.cpp"],
     [{"name": "quicksort, growable arrays, parsing", "where": M + "MeshingMemoryHandler.cpp"}], ["helper API"],
     "property-based testing against sorted/list models (plain and ASan/UBSan builds)",
     "Arrays of up to 400 keys and 600 appends.")

prop("C19", "Surface mesh topology queries describe the triangle soup",
     "Vertex-to-face and edge-to-face incidences contain exactly the incident elements and face normals follow the face's orientation; a surface is found watertight exactly when every edge has at least two faces. "
     "A processed surface model has the used points in their order and the same triangles but for orientation, in which every two faces sharing an edge of two faces agree whenever an agreeing orientation exists; its normals, bounding box, sharp edges "
     "(other than two faces, or a bend above the angle) and sharp corners belong to that surface. Queries change nothing.",
     ["inputs"],
     "any triangle soup (open, non-manifold, unorientable, in several pieces) with any index order and orientation",
     "The tests only use already oriented files.",
     ["MeshingPolyMesh.cpp"],
     [{"name": "incidence building, orientation and feature extraction", "where": M + "MeshingPolyMesh.cpp"}], ["mesh API"],
     "property-based testing of generated triangle soups against a direct evaluation of the definitions (plain and ASan/UBSan builds)",
     "Surfaces of up to a few hundred faces; angles within 1e-9 (in the cosine) of the threshold are not decided.")

prop("C21", "Sphere coverage and overlap queries equal direct evaluation",
     "For a graded set of spheres and a coverage ratio, a point is reported covered exactly when it lies inside some sphere shrunk by that ratio, a segment or triangle exactly when all its corners lie inside one such sphere, "
     "the list of spheres covering a point, some excepted, is complete and free of others and repetitions, and the overlapping spheres of a sphere are exactly those whose balls intersect it, "
     "whatever the sizes, placement and number of spheres. Queries change nothing.",
     ["inputs", "configurations"],
     "any graded sphere set, query, coverage ratio",
     "No unit tests exist.",
     ["MeshingSpheresMethods.cpp", "MeshingPolyMesh.cpp"],
     [{"name": "neighbour search bounded by gradation", "where": M + "MeshingSpheresMethods.cpp"}],
     ["query API"],
     "property-based testing of generated graded sphere sets and queries against evaluation over all spheres (plain and ASan/UBSan builds)",
     "Sets of 1 to 400 spheres; within 1e-7 of a boundary either answer is accepted.")

prop("C22", "Local cells and trimmed spokes of the point index equal half-space clipping",
     "A spoke from any point of a seed's cell (the seed stored or not, any dimension, any initial length, any seeds left out) trimmed by the point index ends exactly where the ray first crosses a bisector between that seed and another, "
     "names a seed of that bisector, and keeps its length if it ends before. The Voronoi vertex of d+1 seeds is equidistant from them and any other number is refused. The three-dimensional cell built for one stored seed has "
     "exactly the faces, corners, areas and volume of the intersection of all bisecting half-spaces. Neighbours found by random spokes are Voronoi neighbours, listed once with the number of spokes that hit them and their layer; "
     "the ends of the spokes lie on the cell's boundary; neighbours asked for one by one are each neighbours behind those before.",
     ["inputs"],
     "any set of distinct seeds in one to six dimensions, any direction and length, cells with up to 160 faces",
     "No unit tests exist.",
     ["MeshingSmartTree.cpp"],
     [{"name": "spoke trimming and cell clipping", "where": M + "MeshingSmartTree.cpp"}], ["index query API"],
     "differential property-based testing of generated seed sets and spokes against clipping by every bisector and against Qhull (plain and ASan/UBSan builds)",
     "Up to 400 seeds; cells and their neighbours in three dimensions in general position (no fifth seed within 1e-4 of a corner); directions within 1e-6 of a bisector are not decided. Trusts Qhull.")

NOT_BUILT = "not claimed: its check is not part of this delivery yet"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) and p["technique"]:
            checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s quick" % p["id"],
                           "thorough_cmd": "python3-vt run.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NOT_BUILT})
    m = {"version": 1, "setup_cmd": "python3-vt -m vlib.build --all",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harnesses compile /repo's sources with a build file of their own; the random seed is fixed by interposing time() in the harness build."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
