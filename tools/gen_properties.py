#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
B = "barbarosa/src/"
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    fs = [os.path.normpath(B + f) for f in files]
    a = {"files": fs, "mechanism": [{"name": mechanism, "where": ", ".join(fs)}]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": fs[0]} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Face turns of the 2x2 and 3x3 move every piece as the physical puzzle does",
 "Applying any sequence of face turns to a 2x2 or 3x3, from any reachable state, leaves every corner and edge in exactly the place and with exactly the sticker orientation that the physical puzzle would show. In particular only the pieces of the turned face move, a double turn is two single turns, and four equal quarter turns restore the state.",
 ["inputs", "histories"], "all move sequences over the 18 face turns, from every reachable state of the 2x2 and 3x3",
 "The tests apply a handful of named algs (sexy move, T perm) and mostly check that cycles return to solved, which a consistently wrong model also does; no test compares stickers with an independent model over arbitrary histories.",
 ["cube_n/pieces/edge.rs", "cube_n/pieces/corner.rs", "cube_n/moves/rotation.rs", "cube_n/space/face.rs", "cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs"],
 "Movable<AxisMove> for Edge/Corner/PieceSet; Rotatable for Edge, Corner, Vec3, Axis, Face",
 [("Edge{normal_axis,slice_position,oriented}", "where an edge is and whether its orientation sticker is on the orientation face"), ("Corner{position,orientation_axis}", "where a corner is and the axis of its U/D sticker")])

prop("C02", "Turns of the 4x4 to 7x7 move exactly the layers they name",
 "On a 4x4, 5x5, 6x6 or 7x7, a turn of a face with depth d (from 0 up to the largest the cube accepts) turns exactly the d+1 outermost layers on that side and nothing else, and every corner, edge, wing and movable centre in those layers lands where it does on the physical puzzle. A plain face turn given to a big cube turns only the outer layer, and a turn typed for a smaller maximum depth does the same as the equal turn typed for the cube's own maximum.",
 ["inputs", "histories"], "all sequences of face turns at every legal depth, from every reachable state, for N = 4..7",
 "Existing tests exercise a few commutators and cycle lengths on 4x4-7x7; the pieces reached only by particular depth/face/history combinations (inner wings, oblique centres, centre edges) are never compared with a reference.",
 ["cube_n/moves/wide.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs"],
 "DepthPiece::is_in_wide_move, Movable<WideAxisMove<M>> for DepthPieceSet, impl_movable_wide_move_inductively!",
 [("DepthPieceSet<P, N, ND, TD>", "pieces of one orbit with their normal and tangent depth")])

prop("C03", "A cube reports solved exactly when every sticker is on its home face",
 "For every size from 2x2 to 7x7 and every reachable state, the cube reports being solved if and only if every face shows a single, its own, colour. Centre pieces of equal colour are interchangeable for this purpose, while pieces that can be told apart must each be home and correctly oriented. Held another way than the default, it does not report being solved unless the faces so seen do.",
 ["inputs", "histories"], "all reachable states of each cube size, with emphasis on states in which only one kind of piece is disturbed or only equal-coloured centres are permuted",
 "Tests check solvedness only after a few known identities; they never visit states where a single orbit is wrong or where only same-coloured centres have been exchanged.",
 ["generic/mod.rs", "generic/piece/set.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/corner.rs"],
 "Cube::is_solved, PieceSet::is_solved, Piece::is_solved")

prop("C04", "Undoing a move or a sequence always restores the exact previous state",
 "For every kind of move (face turn, quarter turn, merged two-face turn, wide turn, rotation, slice) and every cube that accepts it, a move followed by its inverse, and any sequence followed by its reversal, restores exactly the state before, and inverting or reversing twice gives back the original. The empty sequence changes nothing.",
 ["inputs", "histories"], "all moves of every move type at every depth, all sequences of them, all start states and (for orientable cubes) all 24 orientations",
 "One test undoes one random 30-move face-turn sequence on the 3x3; other move kinds, sizes and orientations are not covered.",
 ["generic/alg.rs", "generic/moves.rs", "cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "cube_n/moves/extended.rs", "cube_n/moves/quarter.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/rotation.rs", "cube_n/moves/amount.rs"],
 "Move::inverse for every move type, Alg::reversed, Amount * Direction")

prop("C05", "Moves on a held cube act in the viewer's frame for every orientation and size",
 "On an orientable cube of any size 2 to 7, a face turn, wide turn, slice or whole-cube rotation acts on what the viewer currently sees at that face: the visible result equals that of the physical puzzle held in the same orientation, for every one of the 24 orientations. A wide turn of any depth is accepted and never fails: one that covers every layer is the whole-cube rotation, and a slice turns every layer but the two outer ones, or, in its wide form, only the middle layer.",
 ["inputs", "histories"], "all sequences of extended moves (any wide depth up to the largest representable number) on Orientable cubes of size 2..7",
 "Tests cover a few rotations and slice moves from the default orientation on the 3x3, mostly involutions; wide moves whose depth passes the middle and moves made in a non-default orientation are not compared with a model.",
 ["cube_n/moves/extended.rs", "cube_n/orientable/mod.rs", "cube_n/orientable/orientation.rs"],
 "Movable<ExtendedAxisMove> for Orientable<CubeN>, Movable<M> for Orientable",
 [("Orientable{base_cube, orientation}", "state in the cube's own frame and how it is held")])

prop("C06", "An orientation's rotations lead exactly to that orientation",
 "Each of the 24 ways to hold a cube can be built from where its right and up faces point and reports those faces back, and its list of rotations, applied in order to the default orientation, produces exactly it. Rotating an orientation moves its right and up faces as rotating a physical cube does; building one from two parallel faces is refused.",
 ["inputs", "histories"], "all 36 face pairs, all 24 orientations, all rotation sequences",
 "Only connecting rotations between single faces are tested; the two-step rotation lists and their composition over orientations are not.",
 ["cube_n/orientable/orientation.rs"],
 "Orientation::{rotations, r_face, u_face}, TryFrom<[Face; 2]>, Rotatable for Orientation",
 [("Orientation{r_face, handedness, side_direction}", "current positions of the original R and U faces")])

prop("C07", "Parsing accepts exactly the documented notation and means what it says",
 "For every input string, parsing a face turn, wide turn, rotation, slice, extended move or a whitespace-separated sequence of them either returns the value the notation denotes or returns an error, and never panics, hangs or accepts trailing or partial text. A sequence parses if and only if each of its words does, and depth limits of wide turns are enforced by an error.",
 ["inputs"], "all Unicode strings, with emphasis on strings near the grammar",
 "Tests parse a dozen valid moves and three invalid ones; arbitrary near-miss strings, Unicode digits, overlong numbers and whitespace variants are not reached.",
 ["cube_n/parser/mod.rs", "../grammar/cube_n.pest", "generic/parse.rs", "generic/alg.rs"],
 "CubeNParser (pest grammar), FromPest for every move type, Parsable for Alg")

prop("C08", "Printing a move or a sequence and parsing it back gives the same value",
 "Every face turn, merged turn, wide turn and sequence of them prints to text that parses back to an equal value (for merged turns, to the same face turns), and parsing any accepted canonical text and printing it reproduces that text. Distinct values of the same type never print to the same text.",
 ["inputs"], "all moves of each printable type at each depth, all sequences of them",
 "Three strings are printed in tests; no test closes the loop over all values.",
 ["cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "cube_n/moves/amount.rs", "cube_n/moves/non_redundant.rs", "cube_n/space/face.rs", "generic/alg.rs", "cube_n/parser/mod.rs"],
 "Display and Parsable implementations of the move types and Alg")

prop("C09", "Normalising a sequence keeps its effect and leaves no redundancy",
 "For every sequence of face turns, its normalised form has the same effect on every cube state, is never longer, contains no two turns of the same face that are adjacent or separated only by turns of the opposite face, and normalising again changes nothing.",
 ["inputs"], "all face-turn sequences, with emphasis on long runs on one axis and nested cancellations",
 "One doc example is tested; cancellations that expose a further merge several moves back need particular multi-step inputs.",
 ["cube_n/moves/non_redundant.rs"],
 "Alg<AxisMove>::normalized, absorve")

prop("C10", "Random sequences have the asked length and contain no redundancy",
 "A random face-turn sequence of any requested length has exactly that length and never contains two turns of one face adjacent or separated only by turns of the opposite face; every turn that is legal at a position can occur there. The unnormalised variants, for face turns, quarter turns and wide turns, have exactly the requested length and draw every representable move, and a seeded generator gives the same sequence every time.",
 ["inputs", "histories"], "all lengths (including 0 and 1) and all generator states",
 "Tests use random sequences only as scrambles; neither length, redundancy at the truncated tail nor coverage of the move set is asserted.",
 ["cube_n/moves/non_redundant.rs", "generic/alg.rs", "cube_n/moves/wide.rs", "cube_n/moves/mod.rs"],
 "Alg::random_with_rng, Alg::random_unnormalized_with_rng, Distribution<WideAxisMove<N>>")

prop("C11", "Merging a move into a same-axis pair is exact and reported truthfully",
 "Merging a face turn into an optional one-axis move leaves an effect equal to doing both in turn whenever it reports absorbed, added or collapsed, changes nothing when it reports not added, and reports not added exactly when the axes differ. The reported outcome tells truthfully whether the number of turns stayed, grew or shrank (merged into nothing, the result is that turn alone, reported as absorbed), and the enumerations of non-redundant moves list every one-axis combination exactly once (15 per axis, 30 after a given axis, 45 in all).",
 ["inputs", "histories"], "all optional one-axis moves times all face turns, and all sequences of merges",
 "A single doc example walks one path through the table.",
 ["cube_n/moves/non_redundant.rs", "cube_n/moves/amount.rs"],
 "absorve, AbsorveResult, NonRedundantAxisMove::{of_axis, given_last_axis, all, moves}, Amount + Amount")

prop("C12", "Converting between move notations preserves the effect on every cube",
 "Converting a sequence of face turns to quarter turns, a merged sequence to face turns, a face turn or sequence to a wide turn of a depth, a wide turn to another maximum depth, or any of these to an extended move, never changes what the sequence does to any cube that accepts both forms. Conversions that cannot be represented are refused with an error, and quarter-turn conversion contains one move per quarter turn.",
 ["inputs"], "all sequences of each move type, all depths and maximum depths, all cube sizes",
 "One fixed-seed sequence is converted to quarter turns in the tests; the other conversions are untested.",
 ["cube_n/moves/quarter.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/wide.rs", "cube_n/moves/extended.rs", "cube_n/moves/mod.rs"],
 "From<Alg<AxisMove>> for Alg<QuarterAxisMove>, From<Alg<NonRedundantAxisMove>>, widen, set_max_depth, From<..> for ExtendedAxisMove")

prop("C13", "Random cubes are always solvable and cover the whole state space evenly",
 "Every randomly generated 2x2 or 3x3 is a state reachable from solved by turns: each piece occurs once, corner twist sums to zero, and on the 3x3 edge flip is even and both permutations have equal parity. Over many draws every piece appears in every place with every orientation with equal frequency, and the same seed gives the same cube.",
 ["inputs"], "all generator states",
 "One test checks a few random cubes for validity; impossible states that appear for some seeds, or a part of the state space that is never produced, do not show.",
 ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/invariants.rs", "generic/piece/set.rs"],
 "Distribution<Cube2>/Distribution<Cube3> for Standard, PieceSet::shuffle, fix_*")

prop("C14", "Repairing an arbitrary assembly yields a solvable cube and touches nothing else",
 "For every assembly of a 3x3 from its pieces in arbitrary places and orientations, the parity, flip and twist repairs make the cube solvable. Each repair leaves an assembly that already satisfies its constraint untouched, changes at most the exchange of two edges, the flip of one edge or the twist of one corner, and applying it again changes nothing.",
 ["inputs"], "all 12!*8!*2^12*3^8 assemblies of the 3x3 pieces",
 "The repairs are only exercised through random cubes drawn in tests, never compared with an independent parity or twist computation.",
 ["cube_n/invariants.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs"],
 "fix_swap_parity, fix_edge_flip_parity, fix_corner_multiplicity, Corner::{orientation_index, twist}")

prop("C15", "State indices are a bijection onto a contiguous range and invert exactly",
 "Every reachable arrangement of the eight corners and of six edges has an index below the stated set size, distinct arrangements have distinct indices, and rebuilding from an index gives back the arrangement with that index, for every index in the range. The whole 3x3 converts to its corner and two edge indices and back to an equal cube, and the solved cube has all indices zero.",
 ["inputs"], "all 88,179,840 corner indices, all 42,577,920 half-edge indices, all 3x3 states",
 "Tests index the first, last and a few hand-picked arrangements and round-trip one fixed-seed cube.",
 ["cube_n/cube3/mus/index/mod.rs", "cube_n/cube3/mus/index/implementations.rs", "cube_n/cube3/mus/deindex/mod.rs", "cube_n/cube3/mus/deindex/implementations.rs"],
 "Indexable::index, Deindexable::from_index, Cube3::indices, Cube3::from_indices")

prop("C16", "The cached distance tables hold the exact number of moves for every entry",
 "After the cache is built, every entry is exactly the least number of face turns that solves that corner arrangement or half-edge arrangement, the files written to disk hold those same tables, and the value reported for a cube is the maximum of its corner value and its two edge values. Hence the reported value never exceeds the true distance of the cube and is zero for the solved cube.",
 ["inputs"], "all entries of both tables and all 3x3 states",
 "The only test of the cache is ignored because it takes too long, and would check only an upper bound on scrambles of known length.",
 ["cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/cache/mod.rs", "cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/heuristics/mus.rs"],
 "build_partial, cache_neighbours_at_depth, Cache::get, mus",
 [("Cache{edges, corners}", "moves-until-solved tables")])

prop("C17", "A damaged or missing distance cache is never used silently",
 "Loading the cache succeeds only if both files are present with exactly the expected size, and then every value used is the one stored; a missing or unreadable file is reported as an error, and a truncated, empty or oversized file, at any length, is refused loudly. The same holds for what a build leaves behind that died or ran into an error while writing, at any byte. While no cache is loaded, the heuristic with fallback returns the fallback's value, and after loading it returns the cache's.",
 ["crash_points", "fault_sequences", "inputs"], "all file lengths and presence combinations of the two cache files, all file contents, all bytes at which writing stops (by death or by error), both orders of query and load",
 "No test touches the files on disk.",
 ["cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/mod.rs", "cube_n/cube3/heuristics/mus.rs"],
 "load_partial, assert_correct_cache_size, load_or_build, mus_with_fallback, Cache::load")

prop("C18", "The search returns a valid solution, the shortest one for admissible estimates",
 "Whenever the iterative-deepening search returns, the returned moves lead from the start to the returned state and that state satisfies the goal; with an admissible estimate the number of moves is the least possible. A start that already satisfies the goal yields the empty solution, and with an admissible estimate the search gives up only if no solution lies within its depth bound.",
 ["inputs"], "all start states, goals, admissible and inadmissible estimates, successor functions and depth bounds",
 "Tests solve three fixed short scrambles with fixed heuristics and check solvedness only, not optimality or failure.",
 ["generic/search/ida.rs", "generic/search/mod.rs", "cube_n/search.rs", "cube_n/cube3/mod.rs"],
 "IDASearcher::search, Solver::solve, Cube3::solve_with_heuristic, Cube3::successors")

prop("C19", "Solving a cross really solves that cross, and optimally where promised",
 "For every 3x3 state and every face, both cross solvers return a sequence that, applied to the cube, gives the returned state with all four cross edges of that face home and oriented; the optimal solver's sequence is of least possible length. The cross-piece count is the number of those four edges that are home and oriented, and the four listed cross pieces are the edges of that face.",
 ["inputs"], "all 3x3 states (190,080 cross states) times 6 faces",
 "One fixed-seed scramble is solved for one face with the fast solver only.",
 ["cube_n/cube3/cfop/cross.rs"],
 "solve_cross, solve_cross_fast, count_cross_pieces, get_cross_pieces, is_cross_edge")

prop("C20", "Single-edge move counts are exact; the safe cross estimate never overestimates",
 "The minimum-moves figure for an edge equals the true least number of face turns that brings that edge home oriented, for every home place and every current place and orientation. The admissible cross estimate is the largest of the four figures and so never exceeds the true cross distance, is zero exactly when the cross is solved, and the fast estimate is half their sum.",
 ["inputs"], "all 12 x 24 edge placements; all 3x3 states times 6 faces",
 "The hand-written case table is tested on a few placements; admissibility over all cross states is not tested.",
 ["cube_n/pieces/edge.rs", "cube_n/cube3/cfop/cross.rs"],
 "min_moves_to_solve, good_cross_heuristic, worse_but_admissable_cross_heuristic, Edge::direction_on_axis")

prop("C21", "The unfolded view shows every sticker of the cube in its true place",
 "For every reachable 3x3, each of the 54 stickers of the unfolded view has the colour that the physical cube shows there, and the printed net shows those colours at the documented places (U above F, L left and R right of F, D below, B below D, as unfolded paper). The six centres never change, and a custom colour scheme only changes the colours shown.",
 ["inputs", "histories"], "all reachable 3x3 states, all colour schemes",
 "Tests check the solved net and a few stickers after one move.",
 ["cube_n/visualization/mod.rs", "cube_n/visualization/unfolded/mod.rs"],
 "Colored for Corner/Edge, Unfolded<3>::from, Square::{basis, at_mut}, Unfolded::write, Display for Cube3")

prop("C22", "A recorded sequence of states is turned back into the moves that made it",
 "Given the successive states of any cube under any sequence of enumerable moves, the recovered sequence has one move per step and replaying it reproduces every state; two states that no single move connects give an error naming the first such pair. A single state or none gives the empty sequence.",
 ["histories", "inputs"], "all state histories of the 2x2 and 3x3 (and single pieces) under face turns, with arbitrary breaks inserted",
 "Two doc examples cover a single step.",
 ["generic/moves.rs", "generic/alg.rs"],
 "connect, Alg::try_from_states, TryFrom<&[T]> for Alg")

prop("C23", "Piece sets accept only complete sets and look pieces up consistently",
 "Building a piece set succeeds if and only if no two pieces share a place, and a set made by moves always stays valid. The piece that started at a place, the place where the piece now at a place started, indexed access and iteration with home places all agree with each other, swapping two places exchanges just those two entries, and shuffling only permutes.",
 ["inputs", "histories"], "all arrays of edges and of corners (valid or with duplicates) and all sequences of moves, swaps and shuffles on edge, corner and wing sets",
 "Tests use sets only through cubes; duplicates and lookups after arbitrary histories are not covered.",
 ["generic/piece/set.rs", "generic/piece/mod.rs"],
 "PieceSet::{new, validate, piece_originally_at, original_position_of_piece_at, swap, shuffle, iter_with_pos, at_index}")

prop("C24", "A wide move never holds a depth beyond its declared maximum",
 "No sequence of public operations (construction, setting the depth, changing the maximum, widening, parsing, inverting, random drawing, conversion) yields a wide move whose depth exceeds its maximum: each operation that would do so returns an error and leaves its operand unchanged. Operations that succeed keep face and amount and give exactly the requested depth.",
 ["inputs", "histories"], "all depths up to the largest representable number, all maxima, all operation sequences",
 "One test sets legal depths; the refusal paths and their combinations are not explored.",
 ["cube_n/moves/wide.rs", "cube_n/moves/mod.rs", "cube_n/parser/mod.rs", "cube_n/moves/extended.rs"],
 "WideAxisMove::{new, set_depth, set_max_depth}, AxisMove::widen, Alg::widen, FromPest for WideAxisMove",
 [("WideAxisMove.depth", "invariant: depth <= N")])

prop("C25", "Faces, axes and rotations obey the geometry of the cube",
 "Rotating a face, an axis, a position vector, an orientation, a move or any piece by a quarter, half or inverse turn about any axis does what the corresponding rotation of space does, so rotations compose, invert and return after four quarters. Opposite, next and previous faces, cross products, handedness, offsets, coordinates, containment and face indices agree with vector arithmetic in the documented right-handed frame. A piece made from faces lies on them (parallel faces are refused), its listed faces, directions and coordinates are the ones it touches, twisting a corner turns it a third counter-clockwise and flipping an edge swaps its two sides; a center piece counts as solved exactly on its own face.",
 ["inputs", "histories"], "all faces, axes, directions, amounts and piece positions; all rotation sequences over the 24-element rotation group",
 "Tests check two faces and two edges under a few rotations.",
 ["cube_n/space/face.rs", "cube_n/space/axis.rs", "cube_n/space/direction.rs", "cube_n/moves/rotation.rs", "cube_n/moves/amount.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/wing.rs"],
 "Rotatable implementations, Face::{next_around, prev_around, cross, opposite, contains_edge, contains_vector, coords, index}, Axis::{basis, offset, other, get_handedness, map_on_slice}")

prop("C26", "The interactive playground survives any input and shows the true state",
 "For every sequence of input lines, the playground shows the solved cube first and then, after each line that is a valid sequence of moves, the state the 3x3 has (relative to its centres) after all valid lines so far; a line that is not valid changes nothing and is reported as an error. It never crashes, and ends cleanly when its input ends.",
 ["inputs", "histories"], "all byte streams on standard input",
 "The binary has no tests.",
 ["main.rs", "cube_n/visualization/mod.rs", "generic/alg.rs", "cube_n/parser/mod.rs"],
 "playground_3x3, playground_loop")

prop("C27", "Cubes compare, hash and copy by their physical state",
 "Two cubes of the same size made in any two ways are equal exactly if they show the same arrangement of distinguishable pieces (orientations included), equal cubes hash alike, a copy equals its source and is independent of it, and new cubes equal the solved one. Held cubes are equal exactly if the cube and the way it is held are; assemblies and single pieces follow the same rule.",
 ["histories", "inputs"], "all pairs of turn sequences on sizes 2 to 7, all assemblies of 3x3 and 2x2, all pairs of edges and corners in any orientation",
 "Searches and caches depend on equality and hashing of all states; tests compare a handful.",
 ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "generic/piece/set.rs", "cube_n/orientable/mod.rs", "cube_n/orientable/orientation.rs"],
 "PartialEq, Hash and Clone of cubes, PieceSet, Orientable and pieces; Cube::new_solved")

prop("C28", "Displacement estimates are the true sums of piece distances",
 "The displacement of a piece is the sum over the three axes of the distance between its home and its present place, with neighbouring layers one apart. The estimate for a set, or for a chosen part of it, is the sum over its pieces (for a 3x3, divided by 16), so it is zero exactly when every piece is in its place; the trivial estimate is always zero.",
 ["inputs"], "all 3x3 assemblies, all selections of pieces, all pairs of piece places, all vectors",
 "Tests check the estimate on the solved cube and after one turn.",
 ["cube_n/cube3/heuristics/manhattan.rs", "cube_n/cube3/heuristics/mod.rs"],
 "manhattan, piece_manhattan, vec_manhattan, manhattan_filtered, zero")

prop("C29", "Named sequences do what their documentation says on any cube",
 "On any 3x3 the T perm exchanges the contents of RUF with RUB and of RU with LU, the J perm those of RUF with RUB and of RU with UF, and the U perm (Ua) cycles three edges of the last layer counter-clockwise; all keep every other piece and the orientation of the last layer, and so return the cube after two, two and three times. The sexy move is R U R' U' and returns after six. Applying a sequence by its name equals applying its turns, on cubes of any size.",
 ["inputs", "histories"], "all 3x3 states, all reachable states of other sizes",
 "One test repeats two of the sequences on a solved cube.",
 ["cube_n/moves/perms.rs", "generic/moves.rs"],
 "SEXY_MOVE, pll::{T, U, J}, Movable for Lazy")

prop("C30", "The successors of a cube are the eighteen turned states, each once",
 "For every 3x3 state the listed successors are exactly the eighteen face turns, each once and each with the state that the physical cube has after that turn; the cube itself is not changed.",
 ["inputs"], "all 3x3 assemblies",
 "No test looks at the listed states.",
 ["cube_n/cube3/mod.rs", "cube_n/moves/mod.rs"],
 "Cube::successors, AxisMove::all")

prop("C31", "Nets of any size put every point and piece on the right square",
 "On a net of N by N squares per face, for any N, the colour at a point of a face (its projection, with coordinates from -1 to 1) is that of the nearest square, for reading and for changing, and points far outside have none. Painting corners, for odd N edges, or pieces of one's own into it colours exactly the squares they cover with the stickers they show there; the printed net has every square once, in its documented place.",
 ["inputs"], "all sizes N, all faces, all points and all arrangements of corners and edges",
 "The tests look at a few points of one face for N = 3 and N = 4.",
 ["cube_n/visualization/unfolded/mod.rs", "cube_n/visualization/mod.rs"],
 "Square::{at, at_mut, transform_coord, basis}, Unfolded::{populate_with, at_mut, iter, write}")

prop("C32", "Each cube's own sequences are exactly the sequences of its turns",
 "The sequences of a cube (Alg<Cube2> to Alg<Cube7>) can be written with every turn of that cube (outer layers, and wide turns up to half of its layers) and with no deeper one; applied, they make those turns, at once or one by one, and reversed they undo them. Drawn at random they have the asked length and only turns of that cube, and every turn of it is drawn sometimes.",
 ["inputs", "histories"], "all six cubes, all reachable states, all texts of turns",
 "The tests use the sequences of the 3x3 only.",
 ["cube_n/cube2/mod.rs", "cube_n/cube7/mod.rs", "generic/alg.rs", "generic/moves.rs", "cube_n/moves/wide.rs"],
 "AsMove for Cube2..7, Alg::{parse, random_unnormalized, reversed}, Movable for Alg")

prop("C33", "Arrangements of any kind of piece are ranked one number each, without gaps",
 "For pieces of any kind, with up to 64 places and any number of orientations, the rank of an arrangement of N pieces in P places is a number below P!/(P-N)!, and no two arrangements share one; so is the rank of N orientations with O each, below O to the power N. A piece's index is below its number of states, and unlike that of any other state. The factorial is exact up to 20, and 0 beyond.",
 ["inputs"], "all piece types with up to 64 places, all numbers of orientations and pieces whose arrangements can be counted in a usize",
 "The tests rank a handful of arrangements of 6 of 12 and 8 of 8 places.",
 ["cube_n/cube3/mus/index/mod.rs"],
 "position_disposition_index, orientation_permutation_index, disposition_multipliers, Indexable::{index, TOTAL_SET_SIZE}, factorial")

prop("C34", "Piece sets, sequences and notation serve any puzzle alike",
 "With a user's own pieces, moves and grammar, in sets of any size: a set is accepted exactly if no two pieces are equal and no two share a place, and lookups, exchanges, shuffles, moves and the solved state follow the pieces' own rules. A sequence does what its moves do in order, however it is applied; reversed, it is the inverses in reverse order; printed, its moves with spaces between. A text is read exactly if each word as a whole fits the grammar.",
 ["inputs", "histories"], "all piece types and set sizes, all sequences of moves and edits, all texts",
 "The tests use the cubes' own pieces and moves only, which are never equal at different places.",
 ["generic/piece/set.rs", "generic/alg.rs", "generic/parse.rs", "generic/moves.rs", "generic/mod.rs"],
 "PieceSet, Alg, Parsable for FromPest, Movable for slices, sequences and lazy sequences, Cube::{is_solved, new_solved}")

prop("C35", "Random moves, faces and amounts are all equally likely and independent",
 "A face, an axis, a direction, an amount, a face turn, a quarter turn or a wide turn (of any maximal depth) drawn at random is any of the possible ones with equal probability, independently of what was drawn before, also as the first draw of a fresh source. The moves of a free random sequence are such draws; in random sequences without redundancy, no amount is preferred at any place, and no axis either, at the start or after another one.",
 ["inputs", "histories"], "all types of moves, all maximal depths, all lengths and seeds",
 "The tests draw single values and never look at how often each comes up.",
 ["cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/quarter.rs", "cube_n/space/face.rs", "generic/alg.rs"],
 "Distribution<WideAxisMove>, RandGen of AxisMove, QuarterAxisMove, Face, Axis, Direction, Amount, Alg::{random_unnormalized_with_rng, random_with_rng}")

prop("C36", "Pieces of cubes of any size turn with exactly the layers they are in",
 "The wings, corner centers, edge centers and center wings at any depth, which cubes of any size are made of, are moved by a wide turn of any depth exactly as in a real cube: those in the turned layers, and only those, go where the turn takes them. This does not depend on the largest depth that the type of the turn allows, and undoing the turns one by one leads back. A set says it is solved exactly if every center is on its own side (every wing in its own place), equals the initial one exactly if every piece is at home, and tells where each piece is.",
 ["inputs", "histories"], "all kinds of pieces, depths, pairs of depths, turns and sequences of turns",
 "The tests turn cubes up to 5x5x5, in which no piece is deeper than the second layer.",
 ["cube_n/moves/wide.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "generic/piece/set.rs"],
 "DepthPieceSet<P, N, ND, TD>::apply for Wing, CenterCorner, CenterEdge, CenterWing; DepthPiece; WideAxisMove<MAX>; PieceSet::{is_solved, piece_originally_at, original_position_of_piece_at}")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
