#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json,os
G="source/girgs/include/girgs/"; GS="source/girgs/source/"; H="source/hypergirgs/include/hypergirgs/"; HS="source/hypergirgs/source/"
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,title
    P.append(d)
p("C01","Cell coordinates and Morton codes are mutually inverse in every dimension",
 "For every dimension 1 to 5, encoding D grid coordinates of floor(32/D) bits interleaves their bits (bit i of coordinate d is bit i*D+d of the code) and decoding returns exactly those coordinates, so distinct coordinate tuples never share a code. The hardware and the portable implementation give the same codes.",
 ["inputs","configurations"],"every coordinate tuple and every 32-bit code, D=1..5, both implementations",
 "2^32 codes per dimension; the tests sample random values and only the implementation this CPU selects.",
 [G+"BitManipulation.h",G+"BitManipulationGeneric.inl",G+"BitManipulationBMI2.inl"],
 [("BitManipulation<D>::deposit/extract (generic shift-mask ladders)",G+"BitManipulationGeneric.inl"),("pdep/pext masks",G+"BitManipulationBMI2.inl")])
p("C02","Cells are numbered as one consistent tree over all levels",
 "In both libraries, level l has exactly 2^(D*l) cells with consecutive numbers following those of level l-1, every cell of level l has exactly 2^D children in level l+1 which are consecutive and disjoint from the children of any other cell, and parent(child) returns the cell itself. No cell of a level that the 32-bit numbering can hold is lost, duplicated or numbered into another level.",
 ["inputs","configurations"],"every level and every cell number representable in 32 bits, D=1..5 and the one-dimensional hyperbolic grid",
 "The tests walk a few levels of small dimensions; an off-by-one at a level boundary or an overflow at deep levels is outside them.",
 [G+"SpatialTreeCoordinateHelper.h",G+"SpatialTreeCoordinateHelper.inl",H+"AngleHelper.h"],
 [("numCellsInLevel, firstCellOfLevel, parent, firstChild, lastChild",G+"SpatialTreeCoordinateHelper.h"),("AngleHelper numbering",H+"AngleHelper.h")])
p("C03","Every point lies in the one cell it is assigned to, at every level",
 "For every point of the torus [0,1)^D (every angle in [0,2pi)), the cell it is assigned to on a level contains it within the cell's reported bounds, and the cell assigned on the next deeper level is a child of it. Cell bounds of a level tile the ground space without overlap.",
 ["inputs"],"every coordinate vector / angle, every level, D=1..5",
 "Continuum of points, including those on cell boundaries and just below 1 or 2pi; tests use a few random points.",
 [G+"SpatialTreeCoordinateHelper.inl",H+"AngleHelper.h",HS+"AngleHelper.cpp"],
 [("cellForPoint / bounds",G+"SpatialTreeCoordinateHelper.inl"),("AngleHelper::cellForPoint / bounds",HS+"AngleHelper.cpp")])
p("C04","GIRG cell touching and cell distance agree with the torus geometry",
 "For every two cells of a level, they are reported touching exactly when their closures share a point on the torus, and the reported cell distance is the exact maximum-norm torus distance between them, hence a lower bound on the distance of any point in one to any point in the other. Both are symmetric, and the vertex distance is the maximum-norm torus distance.",
 ["inputs"],"every pair of cells of every level and every pair of points, D=1..5",
 "Quadratically many cell pairs per level; tests compare a handful, mostly D<=2.",
 [G+"SpatialTreeCoordinateHelper.inl",G+"Node.h"],
 [("touching, dist",G+"SpatialTreeCoordinateHelper.inl"),("Node::distance",G+"Node.h")])
p("C05","Hyperbolic cell touching and angular cell distance are exact on the circle",
 "For every two cells of a level of the hyperbolic angle grid, they are reported touching exactly when equal or adjacent on the circle, the number of cells strictly between them is the smaller of the two ways round, and the reported distance is the minimal angle between a point of one and a point of the other. All are symmetric.",
 ["inputs"],"every pair of cells of every level up to the deepest representable one",
 "Quadratically many pairs; wrap-around cases are rare in the sampled tests.",
 [H+"AngleHelper.h",HS+"AngleHelper.cpp"],[("touching, cellsBetween, dist",HS+"AngleHelper.cpp")])
p("C06","Layer pairs are compared on the right level, each in exactly one",
 "For all weights, a GIRG layer pair (i,j) is compared on level max(0, floor((log2(W/w0^2)-i-j-2)/D)) computed from the minimum weight w0 and weight sum W, which never exceeds the insertion level of either layer, so cells there are at least as large as the pair's connection volume or it is level 0. Every ordered layer pair is scheduled on exactly one level, exactly once; the same one-level-each scheduling holds for hyperbolic radius layers.",
 ["inputs"],"every weight vector (every W/w0^2, every weight range) and every radius R, D=1..5",
 "The rounding and clamping cases depend on real-valued ratios the tests do not vary.",
 [G+"SpatialTree.inl",G+"SpatialTree.h",H+"HyperbolicTree.inl",H+"RadiusLayer.h"],
 [("partitioningBaseLevel, weightLayerTargetLevel, constructor",G+"SpatialTree.inl"),("RadiusLayer::partitioningBaseLevel",H+"RadiusLayer.h"),("HyperbolicTree constructor",H+"HyperbolicTree.inl")])
p("C07","GIRG sampling considers every vertex pair exactly once, for any thread count",
 "For every set of weights and positions, dimension and number of threads, the GIRG sampler decides every unordered pair of distinct vertices exactly once (in threshold mode: every pair that can be an edge), and never pairs a vertex with itself. Hence no graph contains a self-loop or a duplicate edge, and with alpha = 0 every graph is complete.",
 ["inputs","schedules","configurations"],"every weight/position vector, D=1..5, every thread count and every order in which the threads work",
 "The debug counters of the code only compare totals, on the sampled instances and the thread count of the test run; a pair visited twice and another missed cancel out.",
 [G+"SpatialTree.inl",G+"WeightLayer.h"],
 [("visitCellPair recursion",G+"SpatialTree.inl"),("visitCellPair_sequentialStart and generateEdges",G+"SpatialTree.inl"),("sampleTypeI/II loops",G+"SpatialTree.inl"),("WeightLayer::cellIterators",G+"WeightLayer.h")],
 ["edge callback of makeSpatialTree","girgs::generateEdges"])
p("C08","HRG sampling terminates and considers every pair exactly once with any threads",
 "For every radii/angles vector and every number of threads, hyperbolic sampling terminates and decides every unordered pair of distinct vertices exactly once (in threshold mode: every pair that can be an edge), never a vertex with itself. The split of the recursion into worker shares and tasks neither loses nor repeats work.",
 ["inputs","schedules","configurations"],"every point set, every thread count, every interleaving of the task producer and its consumers",
 "The tests run one machine's thread count on a few sizes; work lost for a particular thread count, or a hang on a small graph, is outside them.",
 [H+"HyperbolicTree.inl"],
 [("generate: task queue, wait/notify",H+"HyperbolicTree.inl"),("visitCellPair / visitCellPairCreateTasks / visitCellPairSample",H+"HyperbolicTree.inl")],
 ["edge callback of makeHyperbolicTree","hypergirgs::generateEdges"])
p("C09","Threshold GIRGs have exactly the edges of the model",
 "With alpha = infinity, for every weights and positions, the edges returned are exactly the pairs {u,v} with dist(u,v)^D < w_u*w_v/W, each once, where dist is the maximum-norm torus distance and W the sum of weights. The result does not depend on seed or thread count as a set.",
 ["inputs","configurations"],"every weight/position vector, D=1..5, every seed and thread count",
 "The tests compare a few random instances; edges lost for unusual weight ranges, positions on cell borders or extreme dimensions are not sampled.",
 [G+"SpatialTree.inl",G+"Node.h",G+"Helper.h",GS+"Generator.cpp"],
 [("sampleTypeI threshold test",G+"SpatialTree.inl"),("non-touching cells are skipped",G+"SpatialTree.inl"),("pow_to_the",G+"Helper.h")],["girgs::generateEdges"])
p("C10","GIRG edges appear with exactly the model's probability",
 "For finite alpha, each pair {u,v} becomes an edge independently with probability min(1, (w_u*w_v/(W*dist(u,v)^D))^alpha), whether it is decided by a direct coin toss or by skipping; the only deviation allowed is that a group of pairs whose expected number of edges is below 1e-6 may be skipped. The bound used for skipping is never smaller than the probability of any pair in the group.",
 ["inputs"],"every weight/position vector, every alpha in (0,inf), D=1..5, every pair",
 "A probability is a property of the distribution; tests check a few aggregate degree counts with wide tolerance.",
 [G+"SpatialTree.inl",G+"SpatialTreeCoordinateHelper.inl"],
 [("sampleTypeI coin toss",G+"SpatialTree.inl"),("sampleTypeII geometric skipping and rejection",G+"SpatialTree.inl")],["girgs::generateEdges"])
p("C11","Threshold HRGs have exactly the edges of the model",
 "With T = 0, for every radii and angles, the edges returned are exactly the pairs whose hyperbolic distance is below R, each once (up to rounding of the distance at R). The result does not depend on seed or thread count as a set.",
 ["inputs","configurations"],"every radii/angles vector in the disk of radius R, every thread count",
 "The tests compare a few random instances of typical size.",
 [H+"HyperbolicTree.inl",H+"Point.h",H+"RadiusLayer.h"],
 [("Point::isDistanceBelowR",H+"Point.h"),("sampleTypeI",H+"HyperbolicTree.inl"),("partitioningBaseLevel: non-adjacent cells cannot connect",H+"RadiusLayer.h")],["hypergirgs::generateEdges"])
p("C12","HRG edges appear with exactly the model's probability",
 "For T in (0,1), each pair becomes an edge independently with probability 1/(1+exp((d-R)/(2T))) where d is its hyperbolic distance, on both the direct and the skipping path. The precomputed distance filter never changes a decision: it accepts or rejects early only when the exact comparison of the drawn number with the probability would do the same.",
 ["inputs"],"every radii/angles vector, every T in (0,1) and R, every drawn random number",
 "A filter entry that is slightly off flips decisions only for numbers drawn in a narrow interval; tests compare aggregate degrees.",
 [H+"HyperbolicTree.inl",H+"DistanceFilter.h",H+"Point.h"],
 [("DistanceFilter bounds",H+"DistanceFilter.h"),("sampleTypeI/II decisions",H+"HyperbolicTree.inl"),("Point::hyperbolicDistanceCosh",H+"Point.h")],["hypergirgs::generateEdges"])
p("C13","The GIRG point index returns exactly the vertices of a layer and cell",
 "For every weights, positions and thread count, after construction, asking for the vertices of weight layer i in a cell of any level not deeper than the layer's insertion level returns every vertex whose weight lies in [2^i*w0, 2^(i+1)*w0) and whose position lies in that cell, each exactly once, and nothing else. Empty cells and layers return empty ranges.",
 ["inputs","schedules","configurations"],"every weight/position vector, every layer, level and cell, any number of threads repairing the prefix sums",
 "The code's debug assertions check one execution; gaps spanning several threads' chunks need particular sizes and occupancies.",
 [G+"SpatialTree.inl",G+"WeightLayer.h"],
 [("buildPartition: classify, sort, mark, repair gaps",G+"SpatialTree.inl"),("levelledCell, cellIterators, kthPoint, pointsInCell",G+"WeightLayer.h")])
p("C14","The HRG point index returns exactly the vertices of a layer and cell",
 "For every radii, angles, R and thread count, after construction, asking for the vertices of a radius layer in a cell of any level not deeper than the layer's insertion level returns every vertex whose radius lies in that layer's band and whose angle lies in that cell, each exactly once, and nothing else; every vertex belongs to some layer. Empty cells return empty ranges.",
 ["inputs","schedules","configurations"],"every radii/angles vector, every layer, level and cell, any number of threads",
 "The code's debug assertions check one execution; gaps spanning several threads' chunks need particular sizes and occupancies.",
 [HS+"RadiusLayer.cpp",H+"RadiusLayer.h"],
 [("RadiusLayer::buildPartition",HS+"RadiusLayer.cpp"),("levelledCell, cellIterators, pointsInCell",H+"RadiusLayer.h")])
p("C15","The parallel integer sort returns a stable sorted permutation",
 "For every sequence, every key function with keys not above the stated maximum and every thread count, the integer sort leaves a permutation of the input in ascending key order with equal keys in their original order. It never reads or writes outside the sequence and its buffer.",
 ["inputs","schedules","configurations"],"every input sequence, length, key range and thread count",
 "No test covers the sort directly; it is exercised only through small trees.",
 [G+"IntSort.h",H+"IntSort.h"],[("IntSortImpl::sort, move_to_queues, ilog2",G+"IntSort.h")],["intsort::intsort"])
p("C16","Generated weights and positions follow the documented distributions",
 "For n >= 2 each generated weight lies in [1, n/2], and it is the inverse-transform of a uniform number for the power law with the given exponent truncated at n/2; each generated coordinate is uniform in [0,1). Exactly n entries (with the given dimension) are produced, all filled, for every n, seed and thread count.",
 ["inputs","configurations"],"every n, exponent in (2,3], dimension, seed and thread count",
 "Distribution and completeness for all n and thread counts; tests look at one n and one seed.",
 [GS+"Generator.cpp",G+"Generator.h"],[("generateWeights, generatePositions",GS+"Generator.cpp")],["girgs::generateWeights","girgs::generatePositions"])
p("C17","Weight scaling gives the requested expected average degree",
 "Scaling multiplies all weights by one common positive factor, which it returns, such that the model's exact expected average degree under the scaled weights and uniform positions equals the requested one within the documented search accuracy, for threshold and finite-alpha models and every dimension (as documented, the threshold model's degree stands in for alpha > 8, and alpha = 1 is refused with an error). Weights that make single pairs saturate (probability 1 everywhere) are accounted for.",
 ["inputs"],"every weight vector, desired degree, dimension and alpha in the supported range",
 "The estimate is a sum over all pairs with error terms that only matter for skewed weights; the tests use a few random power-law vectors and wide tolerance.",
 [GS+"WeightScaling.cpp",GS+"Generator.cpp"],[("estimateWeightScalingThreshold, estimateWeightScaling, exponentialSearch, LazySorter",GS+"WeightScaling.cpp"),("scaleWeights",GS+"Generator.cpp")],["girgs::scaleWeights"])
p("C18","Sampled hyperbolic coordinates and the radius follow the documented formulas",
 "Each sampled radius lies in (0,R] and is the inverse-transform of a uniform number for the density alpha*sinh(alpha*r)/(cosh(alpha*R)-1), each angle is uniform in [0,2pi), all n entries are filled, and the radius computed for n, alpha, T and degree follows the published closed formula (or, in the NetworKit-compatible variant, meets that variant's target degree). This holds for every n >= 1, seed and thread count.",
 ["inputs","configurations"],"every n, alpha in (0.5,1], T in [0,1), degree, seed and thread count",
 "The formulas are evaluated by the tests at a few parameter values only.",
 [HS+"Generator.cpp",H+"Generator.h"],[("calculateRadius, calculateRadiusLikeNetworKit, sampleRadiiAndAnglesHelper",HS+"Generator.cpp")],["hypergirgs::sampleRadii","hypergirgs::sampleAngles","hypergirgs::calculateRadius"])
p("C19","Returned edge lists contain every sampled edge exactly once",
 "The edge list returned by either generator is exactly the multiset of edges the sampler reported, for every number of edges and threads, including lists larger than the internal per-thread block of 2^20 edges. No edge is lost, duplicated or altered by buffering or flushing.",
 ["inputs","schedules","histories"],"every sequence of reported edges per thread and every interleaving of flushes",
 "Tests never produce more than 2^20 edges on a thread, so the block flush is never taken.",
 [GS+"Generator.cpp",HS+"Generator.cpp"],[("addEdge, flush lambdas and final flush",GS+"Generator.cpp"),("addEdge, flush lambdas and final flush",HS+"Generator.cpp")],["girgs::generateEdges","hypergirgs::generateEdges"])
p("C20","Equal seeds and thread counts reproduce the same graph",
 "For every non-negative seed, repeating a call with the same inputs, seed and thread count yields the same weights, positions, radii, angles and the same edge set, independent of scheduling. Distinct threads never share a random number generator, and different seeds are actually used: changing a seed changes the sampled values.",
 ["inputs","schedules","configurations"],"every seed and thread count, every interleaving of the threads",
 "Whether a draw depends on scheduling is a property of all interleavings; a test repeats one run.",
 [G+"SpatialTree.inl",GS+"Generator.cpp",H+"HyperbolicTree.inl",HS+"Generator.cpp"],
 [("per-thread / per-task generators",G+"SpatialTree.inl"),("initialize_prngs and task-indexed generators",H+"HyperbolicTree.inl"),("static schedules",GS+"Generator.cpp")])
p("C21","The command line tools reject out-of-range parameters",
 "gengirg and genhrg exit with an error status and write no output for any value outside the ranges their help documents (dimension, exponent, alpha, temperature, degree in [1,n-1], threads), including not-a-number, and accept every value inside, with the open and closed ends as documented. Each flag sets the parameter of that name.",
 ["inputs","configurations"],"every argument vector and parameter value",
 "No test runs the command line tools.",
 ["source/cli/gengirg/main.cpp","source/cli/genhrg/main.cpp"],[("rangeCheck and its call sites, parseArgs","source/cli/gengirg/main.cpp"),("rangeCheck and its call sites, parseArgs","source/cli/genhrg/main.cpp")])
p("C22","Output files describe exactly the generated graph",
 "The edge list file holds the vertex count and edge count followed by one line per edge of the generated graph, the coordinate file one line per vertex that parses back to the same doubles, and the dot file one labelled node line per vertex and one edge line per edge. When a file cannot be opened the writer reports an error.",
 ["inputs"],"every graph, size and parameter choice",
 "The tests do not parse back written files.",
 ["source/cli/gengirg/main.cpp","source/cli/genhrg/main.cpp",GS+"Generator.cpp"],[("saveDot",GS+"Generator.cpp"),("edge list / coordinate writers","source/cli/genhrg/main.cpp")])
p("C23","Hyperbolic and GIRG coordinates convert back and forth consistently",
 "Converting a radius to a GIRG weight and back, or an angle to a GIRG position and back, returns the original value up to rounding, larger radii give smaller weights with weight exp((R-r)/2), and angles in [0,2pi) map onto [0,1) monotonically.",
 ["inputs"],"every radius, R, scaling and angle",
 "Identities over the reals; the existing tests evaluate them only indirectly.",
 [G+"Hyperbolic.h"],[("radiusToGirgWeight, girgWeightToRadius, angleToGirgPosition, girgPositionToAngle",G+"Hyperbolic.h")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
