prop('R01', 'Cached attributes of a rich line equal their recomputation',
     'After any sequence of construction, conversion between the eager and the lazy kind, copying, moving, assignment, erasing of points, taking sub-lines and merging, every attribute a line reports (length, azimuth, summed and absolute directions, and the per-segment and per-corner values) equals the value recomputed from its current points alone. Segments between coinciding points count as undefined and are skipped in the sums; a position is rejected exactly when it is out of range.',
     ['inputs', 'histories'], 'every line (any number of points, including repeated and coinciding ones), every sequence of operations and every order in which lazy attributes are first asked for',
     'the tests compare a few fixed lines after single operations; the defect lies in the history (which caches were filled when an operation ran) and in positions (first/last point, one segment) that the samples do not hit',
     [RT + 'rich_line_data.hpp', RT + 'rich_line.hpp', RT + 'eager_rich_line.hpp', RT + 'lazy_rich_line.hpp'],
     [('cache, invalidate and rebuild of attributes', RT + 'rich_line_data.hpp'), ('eager rebuild after mutation', RT + 'eager_rich_line.hpp'), ('lazy computation on access', RT + 'lazy_rich_line.hpp')],
     note='all constructors, conversions, assignments, accessors, sub-lines, erase(index) and merge(line) of the eager and lazy rich line are under contract and proved for all inputs and iterations (cartesian instantiation); erase of several indices, merge of several lines and geographic instantiations are bounded harness checks. Distances, azimuths and direction differences are uninterpreted pure functions.')
AL = 'src/library/include/geometry/algorithm/'
prop('A03', 'Angle differences, per-segment values, sums and cached answers are as defined',
     'For angles between 0 and 360 degrees the difference of two angles lies in [-180, 180], is congruent to a - b modulo a full turn, is antisymmetric, zero for equal angles and equal to a - b when that is already smaller than a half turn. For every list of joined segments the azimuth and length lists hold exactly one value per segment and the direction lists one value per corner (none for an empty list), each equal to the value of its own segment or corner, whether or not azimuths are supplied; the summed, absolute and combined directions of a line are the sums over all its corners. Lengths and distances of spherical and geographic lines are in meter. With the distance and azimuth caches enabled every answer equals the one computed without cache, in every coordinate system and for any history of earlier questions and resets.',
     ['inputs', 'histories'], 'every pair of angles, every list of segments or line of any length, every sequence of questions asked with the caches on or off in any coordinate system',
     'the tests compare a few fixed lines; cache answers depend on which questions were asked before, and the corner cases (empty list, reversal, angles at the wrap-around) are not sampled',
     ['src/library/include/geometry/common.hpp', AL + 'direction.hpp', AL + 'azimuth.hpp', AL + 'distance.hpp', AL + 'length.hpp', 'src/library/include/geometry/cache.hpp', 'src/library/src/geometry/cache.cpp'],
     [('wrap-around of angle differences', 'src/library/include/geometry/common.hpp'), ('lists and sums of directions', AL + 'direction.hpp'), ('azimuth cache', AL + 'azimuth.hpp'), ('distance cache', AL + 'distance.hpp')],
     note='angle differences are proved in exact IEEE double arithmetic; lists, sums and both caches for all inputs with boost azimuth and distance as uninterpreted pure functions; their numeric values are compared with independent formulas by the bounded harness only.')
prop('A04', 'Medians and median absolute deviations are those of the sorted list',
     'For every non-empty list the median is the middle element of its sorted order, or half the sum of the two middle elements when the size is even, and computing it keeps the elements of the list (up to order). The median absolute deviation is the median of the absolute differences of every element to the given center, or to the median of the list. The median point of a list of points has as each coordinate the median of that coordinate over all points.',
     ['inputs'], 'every non-empty list of any size and order of elements, with repetitions; points of one, two and three dimensions',
     'for even sizes the result depends on how partial sorting happened to leave the elements, which a sample of lists does not determine',
     [AL + 'median.hpp'], [('median by partial sorting', AL + 'median.hpp'), ('deviations', AL + 'median.hpp'), ('median point', AL + 'median.hpp')],
     note='proved for all lists (double elements, std::vector) over order statistics; std::nth_element is trusted to follow the standard. Other element types and containers are bounded harness checks.')
prop('L01', 'Viterbi selects the best sequence of candidates',
     'For every model of finitely many observations, each with a finite list of candidates (lists may be empty, candidates may be unreachable), the policy the Viterbi search returns names one candidate per observation of an unbroken range that ends with the last observation, consecutive choices are reachable from each other, and the total weight (initial, transition and observation weights along the path) is the maximum over all paths; nothing is selected exactly when no path ends at the last observation. An aborted search selects nothing.',
     ['inputs', 'histories'], 'every number of observations and candidates, every table of weights including minus infinity, ties, empty candidate lists and late starts, abort at any point',
     'the module is not compiled by the tests at all; a wrong predecessor or index only shows where the greedy and the optimal choice differ',
     ['src/library/include/learning/algorithms/viterbi.hpp'], [('dynamic programming over the tables and back-tracking', 'src/library/include/learning/algorithms/viterbi.hpp')],
     note='viterbi::operator() is proved for all inputs: every table entry is the best step from the row before, the selected last state is the best, back-tracking follows the predecessors; optimality follows by the induction-step lemma (weights not NaN). The environment is an arbitrary one handing in tables of fitting sizes. Enumeration of whole paths is a bounded harness check.')
GR = 'src/library/include/graph/'
prop('G01', 'Adjacency lists keep vertices, edges and their mutual references consistent',
     'For directed, undirected and bidirectional graphs and every history of operations: the outgoing (and ingoing) edges listed at a vertex are exactly the edges that start (end) there, each once and in order of insertion, an undirected edge being listed at both ends; adding a vertex or an edge appends exactly that one, returns its descriptor and leaves everything else alone, also when memory runs out in between (then nothing changed); removing vertices and edges removes exactly these and, with a vertex, the edges at it; clearing a vertex removes exactly its edges; source, target, degrees, data and descriptor queries answer for exactly the vertex or edge asked; copying, assigning (also to itself) and moving give the same graph.',
     ['inputs', 'histories', 'fault_sequences'], 'every graph of any size with self loops and parallel edges, every sequence of additions, removals, copies, an allocation failure at any point',
     'the tests build a few small graphs; dangling descriptors and half-added edges need a particular sequence (self loop, parallel edge, removal in the middle, allocation failing between two lists)',
     [GR + 'adjacency_list.hpp', GR + 'container_view.hpp', GR + 'graph_traits.hpp'],
     [('edge lists at vertices kept in step with the list of edges', GR + 'adjacency_list.hpp'), ('undoing half-done additions', GR + 'adjacency_list.hpp'), ('copying with mapped descriptors', GR + 'adjacency_list.hpp')],
     note='add_vertex, add_edge (with failing allocations), all accessors, and the copies of directed and undirected graphs are proved for vector graphs of any size over a counting function with induction lemmas; removals, clearing, list graphs and copies of bidirectional graphs are bounded harness checks under sanitizers.')

prop('G03', 'Searches visit exactly what is reachable and shortest paths are shortest',
     'On directed and bidirectional adjacency lists and compressed graphs: breadth first and depth first search discover the start and every vertex reachable from it exactly once, nothing else, and finish each; breadth first search takes vertices in the order they were discovered. Dijkstra and A* (with a consistent heuristic and weights that are not negative) give every reached vertex the length of some path, and the length of a shortest one once the vertex is finished, also when the visitor stops the search early; without a stop every reachable vertex is reached and finished; following the predecessors from any reached vertex leads back to the start, whose predecessor it is itself, along edges that make up exactly its distance. Self loops, parallel edges, ties and outdated queue entries change none of this.',
     ['inputs'], 'every graph of any size, every start and goal, all weights, every time the visitor may stop',
     'the tests search a few fixed graphs; an error shows only with ties, self loops, parallel edges, outdated queue entries or a stop at a particular time',
     [GR + 'algorithm/' + f for f in ('breadth_first_search.hpp', 'depth_first_search.hpp', 'dijkstra_shortest_path.hpp', 'a_star_shortest_path.hpp', 'priority_type_comparator.hpp')],
     [('loop invariants of the searches', GR + 'algorithm/breadth_first_search.hpp'), ('colors, distances and predecessors', GR + 'algorithm/dijkstra_shortest_path.hpp'), ('entries outdated by shorter ones', GR + 'algorithm/a_star_shortest_path.hpp')],
     note='all four algorithms are proved for the three graph kinds with integer weights, queues as contracts; the harness runs the real queues and double weights.')

prop('G02', 'Compressed graphs hold exactly the graph they came from, views what they view',
     'Converting any well-formed adjacency list gives a compressed graph with the same vertices in the same order, each with its data, and every edge of the list exactly once (an undirected one at its source), with its source, target and data, grouped by source and in the order the source listed it; the list is left alone. Sources, targets, data, degrees and out edges asked of the compressed graph are those of exactly the vertex or edge asked for, the out edges being precisely the ones between two starts. A view of a container or of a part of it has the size, ends, first and last element of what it views; positions count from the front or, when negative, from the back, and at() refuses exactly those outside.',
     ['inputs'], 'every graph of any size and direction with self loops and parallel edges, every vertex, edge, part and position, negative ones included',
     'the tests convert a few fixed graphs; off-by-one starts, the last vertex, vertices without edges, reverse listings of undirected edges and positions at the ends need particular graphs',
     [GR + 'compressed_sparse_row.hpp', GR + 'container_view.hpp', GR + 'container_subview.hpp'],
     [('conversion loops and starts', GR + 'compressed_sparse_row.hpp'), ('ranges of out edges', GR + 'compressed_sparse_row.hpp'), ('positions of views', GR + 'container_view.hpp'), ('positions of partial views', GR + 'container_subview.hpp')],
     note='conversion of all three graph kinds, accessors and views are proved for vector containers with int data; list containers, converters and serialization are bounded harness checks under sanitizers.')

NW = 'src/library/include/geometry/network/network.hpp'
prop('N01', 'Routing finds every goal within the maximum distance, by a shortest way',
     'For every road network, start, set of goals (or single goal), maximum distance and factor: the network searches return for a goal a path exactly when the goal is reachable within factor times the maximum (any distance when the factor is negative; the start itself always), one path per goal (with Dijkstra the search may end once all goals are found), and no path otherwise. Every path leads from the start to its goal along edges of the network and has the shortest length of all paths, an edge between coinciding points counting as zero. A vertex too far along one edge is still reached along a shorter way. The maps and the queue handed in are left empty. The route of a path has one edge per step, the shortest of parallel ones; no path gives an invalid route, a path of one vertex an empty valid one.',
     ['inputs'], 'every network of any size with parallel edges, loops, coinciding nodes and unreachable parts, every start, goals, maximum and factor',
     'the module is not compiled by the tests; errors show only when a vertex is reachable both too far and near enough, when a goal is unreachable or beyond the maximum, with parallel or zero length edges',
     [NW, GR + 'algorithm/dijkstra_shortest_path.hpp', GR + 'algorithm/a_star_shortest_path.hpp', GR + 'algorithm/visitor.hpp'],
     [('limiting the search by colors', NW), ('stopping when all goals are found', NW), ('paths from predecessors', NW), ('edges of a path', NW)],
     note='the two searches with the real visitors, path extraction and extract_route are proved for the compressed network of any size with real numbers as lengths; the real queue, rounding and lines are bounded harness checks.')

prop('T01', 'A tag and its number give each other back; nodes and edges keep their tags',
     'For every history of a tag helper: a key and value asked for a number get the same number whenever they are asked for again, different ones get different numbers, new ones the next number; the number gives back exactly its key and value, unknown numbers are refused. When memory runs out while a tag is added, all tags known before keep number, key and value, and nothing is half added. After finalize numbers still give their tags back and new ones are refused. Setting, copying or cloning tags gives an id without tags exactly these, in order (a clone the same keys and values under the numbers of its own helper), an id that has tags keeps them, no tags leave none; merging keeps the tags of the id first and adds exactly those of the other it has not. Other ids, the other kind (nodes, edges) and the other helper are left alone.',
     ['inputs', 'histories', 'fault_sequences'], 'every history of additions, copies, clones and merges over any strings and ids, allocation failing at any point',
     'the tests store a few tags once; mixed up numbers need keys and values in different orders, merges with common tags, clones between helpers with different numbers or a failure between two insertions',
     ['src/library/include/io/helper/tag_helper.hpp', 'src/library/include/io/memory_mapped/storage/tag_storage.hpp'],
     [('numbering of keys, values and tags, undoing half-done additions', 'src/library/include/io/helper/tag_helper.hpp'), ('copies, clones and merges of lists', 'src/library/include/io/helper/tag_helper.hpp'), ('maps of the storage', 'src/library/include/io/memory_mapped/storage/tag_storage.hpp')],
     note='id (also with failing allocations), tag, finalize, set, copy, clone, merge and the accessors are proved for the helper in memory; OSM tag lists and memory mapped files are bounded harness checks.')
prop('R02', 'Attributes of multi lines equal their recomputation from the lines',
     'After any sequence of construction, conversion between the plain, eager and lazy kind, copying, moving, assignment and merging, every attribute a multi line reports (length, azimuth, summed and absolute directions, and whether each exists) equals the value recomputed from its current lines alone: the length is the sum over all lines that have one, the azimuth leads from the first to the last point and exists only between distinct points (a single line answers itself), the directions are those of the lines plus the turn between neighbouring lines that touch. Asking never changes the lines or other attributes; plain multi lines refuse exactly the attributes that do not exist.',
     ['inputs', 'histories'], 'every list of lines (touching or not, with repeated points, without length or direction), every sequence of operations and every order of questions',
     'the tests look at one or two multi lines after construction; stale or doubled caches need a history of assignments and questions, wrong sums need lines that touch, gaps or lines without attributes',
     [RT + 'multi_rich_line_data.hpp', RT + 'multi_rich_line.hpp', RT + 'eager_multi_rich_line.hpp', RT + 'lazy_multi_rich_line.hpp'],
     [('cache, invalidate and rebuild of attributes', RT + 'multi_rich_line_data.hpp'), ('recomputation from the lines', RT + 'multi_rich_line.hpp'), ('rebuild after assignment and merge', RT + 'eager_multi_rich_line.hpp'), ('computation when first asked', RT + 'lazy_multi_rich_line.hpp')],
     note='constructors, conversions, assignments and all accessors are proved for multi lines of plain cartesian lines; merge, other line kinds and coordinate systems are bounded harness checks.')
RO = 'src/library/include/geometry/network/route/'
prop('R03', 'Attributes of routes equal their recomputation; what routes refer to stays valid',
     'After any sequence of construction from lines or references, copying, moving, assignment, merging, joining and cutting, every attribute a plain, eager or lazy route reports (length, azimuth, directions, whether it is connected, and whether each exists) equals the value recomputed from the lines it refers to, empty lines being skipped and a gap between neighbouring lines with points making it unconnected. Asking never changes the lines. Every line a route refers to stays valid as long as the route (or, for foreign lines, their owner) lives, in particular after the route it was made from is gone. Cutting at positions gives exactly the points between them; invalid positions are refused with out_of_range.',
     ['inputs', 'histories'], 'every list of lines of any kind (own, referenced, empty, of one point, with gaps), every sequence of operations, cutting at any positions',
     'the tests build a few fixed routes; dangling references and stale attributes depend on the history and on how own and referenced lines are mixed',
     [RO + 'route.hpp', RO + 'route_data.hpp', RO + 'eager_route.hpp', RO + 'lazy_route.hpp'],
     [('cache, invalidate and rebuild of attributes', RO + 'route_data.hpp'), ('recomputation, copying, cutting, joining', RO + 'route.hpp'), ('rebuild after mutation', RO + 'eager_route.hpp'), ('computation when first asked', RO + 'lazy_route.hpp')],
     note='construction, moves, move assignment and all accessors of the three kinds are proved for any list of references; copying, sub_route, merge and join are bounded harness checks under sanitizers.')
prop('P01', 'Matching in parallel gives the results of matching one track after another',
     'For every set of tracks, number of threads and interleaving, the coordinated run hands every track to exactly one worker, every result to the writer exactly once, and ends when all are done, and each result equals that of a single-threaded run.',
     ['inputs', 'schedules'], 'every interleaving of producers, workers and the writer',
     'tests run one schedule', ['src/library/include/util/coordinator.hpp'],
     [('queues, condition variables and limits', 'src/library/include/util/coordinator.hpp')],
     claim=False, reason='the guarantee is about interleavings of threads over condition variables and queues; the sequential weakest-precondition generator built here has no ownership or permission logic for shared state, and no verifier with one for C++ is installed; a model of the schedule would be another technique')
prop('M01', 'Stored graphs, indices and tags are read back unchanged',
     'Whatever network is stored, opening the store again gives the same graph, spatial index and tags, also after the files had to grow, and an interrupted import never leaves a store that opens as complete.',
     ['inputs', 'fault_sequences'], 'every network and size of file, growth at any allocation, interruption at any point',
     'tests write one small network and read it back at once', ['src/library/include/io/memory_mapped/', 'src/library/include/io/helper/'],
     [('growing and retrying allocations', 'src/library/include/io/memory_mapped/')],
     claim=False, reason='decided by the memory layout of Boost.Interprocess segments, offset pointers and the page cache, for which no contracts can be stated on code in this repository; the Boost release installed here can moreover not map the flat maps at another address, so growth and reopening cannot run')
prop('I01', 'Imported networks contain exactly the usable roads of the map data',
     'For every map file and tag selection, the imported network has one directed edge per usable direction of each kept way between consecutive nodes, with the geometry and tags of the way, inside the filter area; simplification and removal of unconnected parts keep the lengths of all shortest ways among what is kept.',
     ['inputs'], 'every map file, tag selection and filter', 'tests import small fixed files', ['src/library/include/io/network/', 'src/library/include/geometry/network/network_import.hpp'],
     [('ways to edges', 'src/library/include/geometry/network/network_import.hpp'), ('handlers for map data', 'src/library/include/io/network/')],
     claim=False, reason='import runs inside callbacks of libosmium over file buffers, and simplification removes edges while iterating over list graphs through stored list iterators; the verifier models containers as values and has no theory of iterator stability or of the osmium buffers, so no obligation could be stated on the real functions')
prop('O01', 'Learned policies choose the action with the largest expected return',
     'For every track and its candidates, value and policy iteration end with a policy that is optimal for the stated rewards, and Q-learning with the episodes it is allowed returns the best sequence it has seen.',
     ['inputs'], 'every environment, discount and number of episodes', 'tests compare one track', ['src/library/include/learning/algorithms/'],
     [('fixed points of the value functions', 'src/library/include/learning/')],
     claim=False, reason='optimality is a statement on the fixed point of a floating-point iteration (convergence of reals, random exploration); contracts over uninterpreted floating point can state a step but neither convergence nor optimality, and partial facts would not decide the property (the Viterbi model, whose optimum is reached exactly, is L01)')
prop('C01', 'Comparison with a reference counts exactly the differing parts',
     'For every match and reference, correct, added and missing parts partition both routes, and lengths and fractions are the sums of the parts.',
     ['inputs'], 'every pair of routes, overlapping in any way', 'tests compare a few pairs', ['src/library/include/compare/'],
     [('walking along both routes', 'src/library/include/compare/')],
     claim=False, reason='parts are found by tolerant Boost geometry predicates on cut lines; the partition rests on their geometric laws (being within, projecting, cutting), which neither hold exactly in floating point nor can be stated as contracts weak enough to be true of Boost and strong enough for the proof')
