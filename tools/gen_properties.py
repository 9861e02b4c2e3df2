#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": ["src/sqrid/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/sqrid/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/sqrid/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A position is created exactly when its coordinates are inside the grid",
  "Creating a position from a pair of coordinates (in any of the supported integer forms), from a linear index, or from a position of a grid of another size succeeds exactly when the requested coordinates lie inside the grid, and the position then has exactly those coordinates. Every other request is refused with the out-of-bounds error (the panicking constructor panics); no value wraps around, is truncated or is clamped into the grid.",
  ["inputs", "configurations"],
  "every grid size (1x1 up to 65536x65536), every u16/i32 coordinate pair, every usize index, every source grid",
  "The tests try about a dozen coordinate pairs on three grid sizes; wrap-around only shows for coordinates beyond the 16-bit range or negative, which no test passes.",
  ["pos.rs", "postrait.rs", "boundedint.rs"],
  [("Pos::new / new_unwrap / TryFrom tuples / TryFrom<usize>", "pos.rs"), ("PosT::new, tryfrom_pos, tryfrom_usize", "postrait.rs"), ("BoundedU16::new, TryFrom", "boundedint.rs")],
  observe=["Pos::new", "Pos::new_unwrap", "Pos::try_from", "PosT::new", "PosT::tryfrom_pos", "PosT::tryfrom_usize"])

p("C02", "Positions and linear indices correspond one to one in reading order",
  "For every grid, converting a position to its linear index and back gives the same position, and the indices of the positions are exactly 0 up to the number of squares minus one, in row-major reading order (left to right, then top to bottom). An index outside that range is refused, and the reported width, height and size and the named corner and centre positions agree with that numbering.",
  ["inputs", "configurations"],
  "every grid size and shape, every position in it, every usize index; fixed grids, pairs of unsigned integers and user-defined position types",
  "The tests convert index 0 and the last index of two grids; a swap of width and height, or an overflow on wide grids, needs other sizes.",
  ["postrait.rs", "pos.rs"],
  [("PosT::to_usize / tryfrom_usize / width / height / dimensions", "postrait.rs"), ("Pos::WIDTH, HEIGHT, SIZE, FIRST, LAST, CENTER, corners", "pos.rs")],
  observe=["usize::from(pos)", "Pos::try_from(usize)", "PosT::width/height/dimensions", "PosT::WIDTH/HEIGHT"])

p("C03", "Stepping forward and back through positions never skips or repeats a square",
  "From any square, the next (previous) position horizontally is the following (preceding) square in reading order and the next (previous) position vertically is the following (preceding) square in column order; the result is none exactly at the last (first) square. Forward and backward steps undo each other everywhere.",
  ["inputs", "configurations"],
  "every grid size and shape and position type (fixed grids, signed and unsigned integer pairs, user-defined), every square",
  "Tests check the four squares of a 2x2 grid and one square of a large one; row and column ends of non-square grids are not covered.",
  ["postrait.rs", "boundedint.rs"],
  [("PosT::next, next_y, prev, prev_y", "postrait.rs"), ("BoundedInt::inc, dec", "boundedint.rs")],
  observe=["PosT::next", "PosT::next_y", "PosT::prev", "PosT::prev_y"])

p("C04", "Every traversal yields each of its squares exactly once and in order",
  "Iterating a whole grid (horizontally or vertically), a row, a column, an inclusive rectangular range, or the coordinates of one axis yields exactly the squares concerned, each once and in the documented order, and then ends for good. Iterators that can be driven from both ends do so for every interleaving of taking from the front and from the back, and the size hint of a fresh iterator brackets the number of squares it yields.",
  ["inputs", "configurations", "histories"],
  "every grid size and position type; every row, column and (top-left, bottom-right) rectangle; every interleaving of front and back steps, including steps after the end",
  "Tests iterate a handful of grids, one 2x2 range and the interleavings of a 2x2 grid; ranges touching the bottom row and traversals of other position types are never run.",
  ["postrait.rs", "boundedint.rs"],
  [("PosTIter, PosTIterRange, PosTIterInX, PosTIterInY", "postrait.rs"), ("BoundedIntIterator", "boundedint.rs")],
  state=[("cur/end, value, start/end", "front and back cursors", "postrait.rs, src/sqrid/boundedint.rs")],
  observe=["PosT::iter*", "Iterator::next", "DoubleEndedIterator::next_back"])

p("C05", "Flips, rotations, distance and containment of positions follow the geometry",
  "Flipping a position mirrors exactly one coordinate within the grid, and on square grids rotating clockwise takes (x, y) to (n-1-y, x) with counter-clockwise as its inverse. Manhattan distance is |dx|+|dy|; a position is inside two corner positions (given in any order) exactly when both coordinates lie between theirs; corner and side predicates hold exactly on the corners and border; and the bounding box of a non-empty collection is its smallest enclosing rectangle, while an empty one is an error.",
  ["inputs", "configurations"],
  "every grid size and shape, every position, pair and triple of positions, every collection of positions",
  "Tests check corners and a few squares of a 5x5 and 6x7 grid and one 2x2 distance; asymmetric grids, swapped corners and most pairs are not covered.",
  ["postrait.rs"],
  [("PosT::flip_h, flip_v, rotate_cw, rotate_cc", "postrait.rs"), ("PosT::manhattan, inside, is_corner, is_side, tlbr_of", "postrait.rs")],
  observe=["PosT methods"])

p("C06", "The direction from one square to another leads there by the shortest way",
  "Between two distinct squares the reported direction, followed step by step and recomputed at every step, stays in the grid and arrives in exactly the minimum number of steps: Manhattan distance when only the four cardinal directions are allowed, the larger of |dx| and |dy| when diagonals are allowed. With cardinal directions only, no diagonal is ever reported, and none is reported exactly when the squares are the same.",
  ["inputs", "configurations"],
  "every grid size and position type, every ordered pair of squares, with and without diagonals",
  "No existing test calls this function at all.",
  ["posdir.rs"],
  [("direction_to", "posdir.rs")],
  observe=["direction_to::<P, D>"])

p("C07", "A move lands on the adjacent square or is refused at the edge",
  "Adding a direction to a position (a grid position or a pair of any supported integers, plain or bounded) gives exactly the adjacent coordinates in that direction if both are within bounds, and the out-of-bounds error otherwise; it never wraps around or panics. A successful move is undone by moving in the opposite direction, and all the ways of writing the move agree.",
  ["inputs", "configurations"],
  "every grid size, every position, all eight directions, every integer type and mixed pairs of types including their extreme values",
  "Tests move from the centre of one grid and from (0,0) and (0,2) of the integer pairs; the edges of the types and of the grids are not covered.",
  ["dir.rs", "posdir.rs", "boundedint.rs"],
  [("Add<Dir> for (T, U) and &(T, U)", "dir.rs"), ("Add<Dir> for Pos and &Pos, pos_dir_add, pos_dir_add_ok", "posdir.rs"), ("BoundedInt::inc/dec", "boundedint.rs")],
  observe=["pos + dir", "&pos + dir", "pos_dir_add", "pos_dir_add_ok"])

p("C08", "Directions form a compass: rotation, reversal, order and names are consistent",
  "The eight directions behave as 45-degree steps on a compass: adding directions adds their clockwise angles from north, negation is the half turn, and iteration lists them once each clockwise from north, all eight or only the four cardinal ones. Conversion to a coordinate offset and back is exact for every integer type, every one-character name or symbol of a direction parses back to it (cardinal letters in either case), and any offset, character or string that names no direction is rejected.",
  ["inputs"],
  "all directions and pairs of directions; every offset pair of every integer type; every Unicode character; every string",
  "Tests cover one row of the addition table, one offset per type and no rejected characters; wrong acceptance needs inputs no test tries.",
  ["dir.rs"],
  [("Dir::rotate, flip, next, iter, Neg, Add, AddAssign", "dir.rs"), ("TryFrom<(T,T)>, From<Dir>, TryFrom<char>, FromStr", "dir.rs")],
  observe=["Dir API"])

p("C09", "Bounded integers hold only values within their bounds and compute exactly",
  "A bounded integer can be constructed or converted (from every integer type) exactly when the value lies within its bounds, keeping that value, and is refused with the out-of-bounds error otherwise; its default value is the one within bounds that is closest to zero. Checked addition, subtraction, increment and decrement give the exact mathematical result when that lies within the bounds and none otherwise, order follows the numeric value, and iteration yields every value between the bounds once, from either end in any interleaving.",
  ["inputs", "configurations", "histories"],
  "every built-in integer type and every bounded integer type, every pair of bounds, every value and pair of values, every source integer type, every interleaving of iteration from both ends",
  "Tests use the bounds 0..20 and -2..5 and the values near 5; conversions from wide types, extreme bounds and bounds that exclude zero or one are not covered.",
  ["boundedint.rs"],
  [("BoundedInt implementations, boundedint_type_create!", "boundedint.rs"), ("TryFrom implementations", "boundedint.rs"), ("BoundedIntIterator", "boundedint.rs")],
  observe=["new, new_unwrap, try_from, checked_add, checked_sub, inc, dec, iter, default"])

p("C10", "A grid is an independent cell per position, however it is accessed",
  "After any sequence of writes through any of the access paths (indexing by position or reference, mutable access, mutable iteration, lines, the underlying array, bulk extension, map interface), reading any cell through any of the reading paths returns the last value written to that position, and a write changes no other cell. Whole-grid reads list the cells in reading order with their own positions, and line y is exactly row y. Negating a grid negates every cell in its place.",
  ["histories", "inputs", "configurations"],
  "every grid size and shape (and user-defined position types), every sequence of writes by every access path, every reading path",
  "Tests write one or two cells of a 5x3 grid; aliasing between cells needs other sizes and combinations of access paths.",
  ["grid.rs", "mappos.rs"],
  [("Grid::get/get_mut (unchecked indexing), line, line_mut, iter, iter_mut, iter_pos", "grid.rs"), ("Index/IndexMut, AsRef/AsMut, IntoIterator, Extend, Neg, repeat, Default", "grid.rs")],
  state=[("Grid.0", "row-major cell array", "grid.rs")],
  observe=["all Grid readers"])

p("C11", "Building a grid from a sequence or nested rows accepts exactly what fits",
  "Collecting a sequence into a grid (of values or booleans) puts the k-th item in the k-th square and panics unless the sequence has exactly one item per square; collecting positions into a boolean grid sets exactly those squares. Converting nested rows places each item at its row and column, leaves uncovered squares at the default value (for a new grid) or unchanged (when extending an existing one), and reports out-of-bounds whenever an item falls outside the grid, never storing it elsewhere.",
  ["inputs", "configurations"],
  "every grid size and shape, every sequence length, every shape of nested rows including too many or too long rows, including grids 65536 wide or high",
  "Tests use three nested shapes on a 3x3 grid and lengths one off on one grid.",
  ["grid.rs", "gridbool.rs"],
  [("FromIterator<T>, FromIterator<&T>, TryFrom<Vec<Vec<T>>>, extend_from_vecvec", "grid.rs"), ("FromIterator<bool>, FromIterator<P>", "gridbool.rs")],
  observe=["collect", "Grid::try_from", "Grid::extend_from_vecvec"])

p("C12", "Flipping or rotating a grid moves every cell to the transformed position",
  "Flipping a grid or boolean grid horizontally or vertically, or rotating a square one, moves the content of every square to the square given by the same transformation of positions and to no other, for every grid size, odd or even. In particular no content is lost or duplicated, flips are their own inverses, the two rotations are inverse to each other, and four equal rotations restore the original.",
  ["histories", "inputs", "configurations"],
  "every grid size and shape, every content, every sequence of transformations, for both grids of values and boolean grids",
  "Tests rotate odd-sized grids (3x3, 5x5) only, and the boolean grid only with one pattern; even sizes and other patterns are never tried.",
  ["grid.rs", "gridbool.rs", "postrait.rs"],
  [("Grid::flip_h, flip_v, rotate_cw, rotate_cc", "grid.rs"), ("Gridbool::flip_h, flip_v, rotate_cw, rotate_cc", "gridbool.rs")],
  observe=["Grid/Gridbool readers after the transformation"])

p("C13", "A boolean grid is an independent boolean per position",
  "After any sequence of setting and clearing squares one by one or in bulk, through the boolean grid's own operations or through its set interface, reading any square by any path returns the last value set there, and no other square changes. Listing the true (false) squares yields exactly those squares, each once, in reading order.",
  ["histories", "inputs", "configurations"],
  "every grid size, in particular sizes around multiples of the storage word and with either way of computing the storage size; every sequence of set and clear operations",
  "Tests set the four corners of two grids; interference across storage word boundaries needs sizes and sequences no test has.",
  ["gridbool.rs", "setpos.rs"],
  [("Gridbool::set_t, set_f, set, get, byte_bit, iter*, set_iter_*", "gridbool.rs"), ("SetPos for Gridbool", "setpos.rs")],
  state=[("Gridbool.0", "bitmap words", "gridbool.rs")],
  observe=["get, index, iter, iter_pos, iter_t, iter_f, SetPos::contains"])

p("C14", "Grids compare by content, whatever history produced them",
  "Two boolean grids of the same type, or two grids of the same type, are equal exactly when they hold the same value at every position, no matter how they were created and modified; equal ones hash alike. Ordering is the lexicographic order of the contents in reading order and is consistent with equality.",
  ["histories", "inputs", "configurations"],
  "every grid size, every pair of contents and every pair of histories (initial constructor followed by operations) producing them",
  "Tests compare all-false with all-true; equality of the same content reached through different histories is never tested.",
  ["gridbool.rs", "grid.rs"],
  [("derived PartialEq/Ord/Hash over storage words; repeat / ALL_TRUE", "gridbool.rs"), ("derived PartialEq/Ord/Hash", "grid.rs")],
  state=[("Gridbool.0", "words including bits beyond the last square", "gridbool.rs")],
  observe=["==, cmp, Hash"])

p("C15", "Every position map and position set implementation behaves as a map and a set",
  "Each map implementation (grid, hash map, tree map) returns for every position the last item set there, or the initial item if none was, after any sequence of operations. Each set implementation (boolean grid, hash set, tree set) contains exactly the positions inserted and not removed since, so the implementations are interchangeable.",
  ["histories", "configurations"],
  "every sequence of new/set/get operations and of insert/remove/set/contains operations, on every grid size",
  "No test drives these interfaces directly; searches only ever insert.",
  ["mappos.rs", "setpos.rs"],
  [("MapPos for Grid, (HashMap, Item), (BTreeMap, Item)", "mappos.rs"), ("SetPos for Gridbool, HashSet, BTreeSet", "setpos.rs")],
  observe=["MapPos::get", "SetPos::contains"])

p("C16", "Breadth-first traversal yields exactly the squares at each distance",
  "For any movement function, the k-th group yielded by a breadth-first traversal is exactly the set of squares whose shortest distance from the origin is k moves (k = 1, 2, ...): every reachable square appears exactly once, unreachable ones and the origin never, and the traversal then ends. The direction reported with a square is the reverse of a move that enters it from a square of the previous group.",
  ["inputs", "configurations"],
  "every movement function (arbitrary partial functions of position and direction, including staying in place, one-way and jumping moves), every origin, every grid size, with and without diagonals, every storage variant",
  "Tests traverse one 3x3 grid with and without two walls and count squares on a large one; distances and directions are not checked.",
  ["bf.rs"],
  [("BfIterator::new, next", "bf.rs"), ("bf_iter, bf_iter_grid, bf_iter_hash, bf_iter_btree", "bf.rs")],
  state=[("visited / nextfront", "squares already scheduled and the next group", "bf.rs")],
  observe=["Sqrid::bf_iter*", "bf::bf_iter*"])

p("C17", "Breadth-first search returns a shortest path to a nearest goal",
  "For any obstacles and one-way passages (a movement function that allows or forbids each step to an adjacent square) and any goal predicate, breadth-first search returns a goal square at minimum distance from the origin together with a path of allowed steps from the origin to it of exactly that length; if the origin is itself a goal the answer is the origin and the empty path. If no goal is reachable it reports that the destination is unreachable; it always terminates and never reports any other error.",
  ["inputs", "configurations"],
  "every allowed-step relation, every origin, every set of goal squares, every grid size and shape (in particular taller than wide), with and without diagonals, every storage variant and position type",
  "Tests run six mazes on one 30x15 grid with unit steps in four directions; shape-dependent and layout-dependent failures are out of their reach.",
  ["bf.rs", "mappos.rs"],
  [("bf::search_mapmov, search_path", "bf.rs"), ("camefrom_into_path", "mappos.rs")],
  observe=["Sqrid::bfs_path, bfs_path_grid, bfs_path_hash, bfs_path_btree"])

p("C18", "A* returns a shortest path whenever there is one",
  "For any obstacles and one-way passages, any origin and any destination, A* returns a path of allowed steps from origin to destination whose number of steps is the minimum possible, with four directions and with diagonals alike; the path is empty when they coincide. If there is no path it reports that the destination is unreachable; it always terminates and never reports any other error.",
  ["inputs", "configurations"],
  "every allowed-step relation, every origin and destination, every grid size and shape, with and without diagonals, every storage variant and position type",
  "Tests run six mazes with four directions on one grid size; A* with diagonals is never run.",
  ["astar.rs", "mappos.rs"],
  [("AstarIterator::next, search_mapmov, search_path", "astar.rs"), ("camefrom_into_path", "mappos.rs")],
  state=[("cost / frontier", "best known cost per square and priority queue with possibly outdated entries", "astar.rs")],
  observe=["Sqrid::astar_path, astar_path_grid, astar_path_hash, astar_path_btree"])

p("C19", "Uniform-cost search returns a path of lowest total cost",
  "For any assignment of non-negative costs to the allowed steps between adjacent squares, any origin and any destination, uniform-cost search returns a path of allowed steps from origin to destination whose total cost is the minimum possible; the path is empty when they coincide. If there is no path it reports that the destination is unreachable; it always terminates, whatever the costs (including zero and very large ones), and never reports any other error.",
  ["inputs", "configurations"],
  "every cost per (square, direction), including asymmetric, zero and near-maximal costs; every origin and destination; every grid size and shape, with and without diagonals, every storage variant",
  "Every existing uniform-cost test uses cost one for every step, so cost handling is in effect untested.",
  ["ucs.rs", "mappos.rs"],
  [("UcsIterator::next, search_mapmov, search_path", "ucs.rs"), ("camefrom_into_path", "mappos.rs")],
  state=[("cost / frontier", "best known cost per square and priority queue with possibly outdated entries", "ucs.rs")],
  observe=["Sqrid::ucs_path, ucs_path_grid, ucs_path_hash, ucs_path_btree"])

p("C20", "Search results do not depend on the storage variant or on repetition",
  "For the same arguments, the default, array-backed, hash-backed and tree-backed variants of each search and of the breadth-first traversal return identical results, and running a search again returns the identical result. When every allowed step costs the same positive amount, breadth-first, A* and uniform-cost search agree on the path length and on unreachability.",
  ["inputs", "configurations"],
  "every allowed-step relation and step cost, every origin and destination, every grid size and shape, with and without diagonals",
  "Tests compare lengths of the variants on six mazes only.",
  ["bf.rs", "astar.rs", "ucs.rs", "mappos.rs", "setpos.rs"],
  [("search_path_grid/_hash/_btree in each module; Sqrid wrappers", "bf.rs, astar.rs, ucs.rs")],
  observe=["Sqrid::*_path*"])

p("C21", "Following a came-from map gives the path, or the right error, for every map",
  "For any map from positions to optional directions, turning it into a path reports destination-unreachable if the destination has no direction, and otherwise returns the reversed steps from origin to destination whenever following the directions from the destination reaches the origin. Otherwise it reports invalid-movement if the walk leaves the grid or meets a position without direction, and loop if the walk never ends; it always terminates.",
  ["inputs", "configurations"],
  "every map content, every origin and destination, every grid size and shape, every map implementation",
  "Tests cover one looping map on one grid that is wider than high.",
  ["mappos.rs"],
  [("camefrom_into_path", "mappos.rs"), ("Sqrid::camefrom_into_path", "mappos.rs")],
  observe=["camefrom_into_path"])

p("C22", "A grid type whose storage does not match its dimensions cannot be used",
  "A grid or boolean grid can only be created when its storage parameter matches the dimensions of its position type (exactly the number of squares; enough 32-bit words and at most 32 bits to spare), and otherwise the program does not compile, whichever constructor or search would create it. The creation macros always produce matching types, for every size.",
  ["configurations", "programs"],
  "every combination of dimensions and storage parameter, every safe constructor and search that creates a grid, fixed grids and pairs of unsigned integers as position types",
  "Tests only instantiate matching sizes, so a missing check is invisible to them; without it safe code reads and writes outside the array.",
  ["grid.rs", "gridbool.rs", "base.rs", "postrait.rs"],
  [("impl_assert!(_ASSERTS), instantiated by the constructors", "grid.rs"), ("impl_assert!(_ASSERTS), instantiated by repeat", "gridbool.rs"), ("grid_create!, gridbool_create!, sqrid_create!", "grid.rs, gridbool.rs, base.rs"), ("PosT::WIDTH, HEIGHT", "postrait.rs")],
  observe=["the compiler's verdict"])

p("C23", "The printed form of a grid shows every cell at its row and column",
  "Printing a grid or boolean grid gives identical header and footer lines spelling each column number vertically above its column, and between them one line per row, in order, made of the right-aligned row number, a space and the row's cells in column order, each padded to the requested width. Boolean grids print one mark for true and another for false.",
  ["inputs", "configurations"],
  "every grid size and shape, every content, every width and alignment",
  "Tests print grids without looking at the output.",
  ["grid.rs", "gridbool.rs"],
  [("display_fmt_helper, Display", "grid.rs"), ("Display", "gridbool.rs")],
  observe=["format!"])

p("C24", "Uniform-cost exploration yields every reachable square once, by rising cost",
  "Exploring from an origin with any non-negative step costs yields the origin first and then every reachable square exactly once, in non-decreasing order of its lowest total cost from the origin, and nothing else. The direction reported with a square is the reverse of the last step of one of its lowest-cost paths.",
  ["inputs", "configurations"],
  "every cost per (square, direction), every origin, every grid size, with and without diagonals, every cost-map variant",
  "No test uses the iterator directly or with unequal costs.",
  ["ucs.rs"],
  [("UcsIterator::new, next", "ucs.rs")],
  state=[("frontier", "priority queue with possibly outdated entries", "ucs.rs")],
  observe=["ucs::UcsIterator"])

p("C25", "Positions, bounded integers and directions are plain values",
  "Two positions of a type are equal exactly when both coordinates are, however they were made, and equal ones hash alike; positions are totally ordered by x and then y, bounded integers by their value and directions clockwise from north, consistently with equality. They can therefore serve as keys of hash and tree collections: distinct squares never merge and the same square is never entered twice. A position is printed as its coordinates, (x,y), and a bounded integer as its value.",
  ["inputs", "configurations"],
  "every grid size up to 65536x65536, every pair of squares made in any way, every bounded integer type and pair of values, every pair of directions",
  "Tests compare positions of small grids for equality only; a comparison or hash that packs coordinates too tightly needs large grids and particular pairs.",
  ["pos.rs", "boundedint.rs", "dir.rs"],
  [("Pos: PartialEq, Ord, Hash, Display", "pos.rs"), ("Bounded types: PartialEq, Ord, Hash, Display", "boundedint.rs"), ("Dir: PartialEq, Ord, Hash", "dir.rs")],
  observe=["==, cmp, hash, to_string"])

p("C26", "Searches ask only about squares they reached, and no further than needed",
  "For movement functions that lead to adjacent squares, every search and traversal asks its movement function only about the origin and squares reachable from it, only in the directions it is to use, and at most once per square and direction; the goal predicate likewise, at most once per square. A search does not look beyond its answer: breadth-first search asks about no square farther than the nearest goal, uniform-cost search about none dearer than the destination, A* about none whose distance from the origin plus distance in a grid without obstacles to the destination exceeds the length of the shortest path. The breadth-first, uniform-cost and A* iterators, when paused, have asked about no square beyond the level of what they yielded so far.",
  ["inputs", "configurations", "histories"],
  "every movement function, cost assignment, origin, destination and goal predicate, every storage variant, every point at which an iteration is paused",
  "No test counts or records the questions; a search that looks too far or repeats itself returns the right path all the same, only late, or never on huge position types.",
  ["bf.rs", "astar.rs", "ucs.rs"],
  [("BfIterator::next, search_mapmov", "bf.rs"), ("AstarIterator::next, heuristic", "astar.rs"), ("UcsIterator::next", "ucs.rs")],
  observe=["calls of the movement function and of the goal predicate"])

p("C27", "A* exploration yields every reachable square once, best estimate first",
  "Run to its end, the A* iterator yields the origin first and then every square reachable by allowed steps to adjacent squares exactly once, and nothing else, whether or not the destination can be reached. Squares come in non-decreasing order of their distance from the origin plus their distance to the destination in a grid without obstacles, and each is reported with the reverse of the last step of one of its shortest paths.",
  ["inputs", "configurations"],
  "every set of obstacles and one-way passages, every origin and destination, every grid size, with and without diagonals, every storage of the distances",
  "No test uses the iterator directly; the path searches stop at the destination and so hide what happens behind it.",
  ["astar.rs"],
  [("AstarIterator::new, next, heuristic", "astar.rs")],
  state=[("frontier", "priority queue with possibly outdated entries", "astar.rs")],
  observe=["astar::AstarIterator"])

p("C28", "What is made at compile time is checked there and equals what run time makes",
  "A call of the compile-time constructor of a position or bounded integer, wherever it is made, and a constant made by the panicking constructor, compile exactly when the value is within the bounds, and then give what is made at run time. Every function that can be evaluated at compile time gives the same result there as at run time.",
  ["inputs", "configurations"],
  "every bounded integer type and pair of bounds, every grid size, every value, in constants, statics and functions; all constant functions of positions, directions and boolean grids",
  "A test can not fail to compile; the documentation has one example, of a constant.",
  ["boundedint.rs", "pos.rs", "dir.rs", "gridbool.rs"],
  [("new_static, new_unwrap, new", "boundedint.rs"), ("Pos::new_static, new_unwrap, new", "pos.rs"), ("Dir::rotate, flip, next, names", "dir.rs"), ("Gridbool::repeat, ALL_TRUE, ALL_FALSE", "gridbool.rs")],
  observe=["verdict of the compiler, values of constants"])

p("C29", "Searches and iterations under way at the same time do not influence one another",
  "Several searches, traversals and iterations can be under way at the same time: taking turns, copied at any point (original and copy both go on from there), run inside the movement function or goal predicate of one another, on several threads, or given up half way (dropped, or ended by a panic of a function of the user, which reaches the caller). Each gives exactly the results that it gives when run alone.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "every pair of searches and iterators (all algorithms and storage variants) and every way in which their steps and questions are interleaved, nested, cloned, dropped, preempted or cut off by a panic",
  "Tests run one search at a time to its end; memory shared between searches (a buffer kept for reuse, a cache) shows only if one is begun, or breaks off, while another is under way.",
  ["bf.rs", "astar.rs", "ucs.rs", "postrait.rs", "dir.rs"],
  [("BfIterator, search_mapmov", "bf.rs"), ("AstarIterator", "astar.rs"), ("UcsIterator", "ucs.rs"), ("iterators of positions", "postrait.rs")],
  state=[("search in progress", "frontier, visited squares and costs held by the iterator alone", "bf.rs")],
  observe=["results of searches, items of iterators, panics"])

p("C30", "Every item put into a grid or map is owned exactly once",
  "An item put into a grid (collected, taken from nested rows, written by any path, extended, made by default or by cloning the grid) or into a position map is in exactly one place, and is dropped exactly once: when it is overwritten, when the grid is dropped, or by whoever took it out. Flips and rotations move items and drop none. The same holds when a sequence has the wrong length, when rows are refused, and when a function of the user (an iterator, default, clone, drop, comparison, movement function) panics half way; such a panic leaves in every square of an existing grid its old item or the one given for it. Functions given to a search are dropped exactly once as well.",
  ["histories", "fault_sequences"],
  "every sequence of operations that make, change and take apart a grid, with a panic at every call of a function of the user",
  "Tests use numbers, which need no dropping: items that are forgotten, dropped twice or copied bit by bit go unnoticed, above all after a panic at an inconvenient point.",
  ["grid.rs", "mappos.rs"],
  [("FromIterator, TryFrom<Vec<Vec>>, Extend, extend_from_vecvec, Default", "grid.rs"), ("flip_h, flip_v, rotate_cw, rotate_cc", "grid.rs"), ("into_inner, IntoIterator", "grid.rs"), ("MapPos for HashMap and BTreeMap", "mappos.rs")],
  state=[("cells", "array of owned items", "grid.rs")],
  observe=["drops of items, items held by grids and maps, panics"])

p("C31", "No use of a grid from safe code reaches memory outside it",
  "Every access to a grid or boolean grid through the safe interface, for every position type that a user can define in safe code (coordinates that start anywhere, declared width and height that disagree with the coordinates, an index or width computed by the type itself), either reaches the grid's own cells or panics: no reference or slice it returns lies outside the grid, it changes nothing outside, and no result depends on the memory around the grid. The same holds for grids made from or extended by iterators that announce another number of items than they yield.",
  ["inputs", "configurations", "programs"],
  "every position type and every value of it, every access path, bulk operation, printing and search that keeps its marks in a grid, every length and announced length of an iterator",
  "Tests use well-behaved positions only; the array of a grid was indexed unchecked, relying on a property that safe implementations of the position trait need not have.",
  ["grid.rs", "gridbool.rs", "postrait.rs"],
  [("Grid::get, get_mut, line, line_mut", "grid.rs"), ("Gridbool::byte_bit, get, set", "gridbool.rs"), ("PosT::to_usize, width, WIDTH, HEIGHT", "postrait.rs"), ("FromIterator, Extend", "grid.rs")],
  state=[("cells", "array of the grid", "grid.rs")],
  observe=["addresses of references, memory around a grid, panics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
