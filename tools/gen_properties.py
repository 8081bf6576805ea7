#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
I = "include/altruct/"; E = "experimental/include/altruct/"; S = "src/"
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

C = I+"structure/container/"; G = I+"structure/graph/"; M = I+"structure/math/"; AM = I+"algorithm/math/"

p("C01", "Ordered tree containers behave as an ordered multiset after any history",
  "After any sequence of insertions (with any multiplicity), erasures (by key, by position, of n copies, by range), clears, copies, moves and swaps, the plain search tree and the treap contain exactly the elements an ordered multiset with the same duplicate policy (ignore, count, or store duplicates) would contain. Size, lookups, lower/upper bound, equal range, count, k-th element, element rank, (lexicographic) comparison of the stored entries, and forward and backward iteration all agree with that multiset, and iterators to surviving elements remain valid. Each stored entry is one live object, destroyed exactly once, and all memory is given back to the allocator it came from. The treap's answers do not depend on the random priorities it draws.",
  ["histories", "inputs"], "every operation sequence up to a depth over a small key set, for each duplicate policy and both trees, and for every choice of the random priorities from a small range",
  "Tests run a handful of fixed or pseudo-random histories; whether a rotation, splice or parent/size update goes wrong depends on the exact tree shape reached by the history and on the priorities drawn.",
  [C+"binary_search_tree.h", C+"treap.h"],
  [("insert/erase/splice with size propagation", C+"binary_search_tree.h"), ("rotations by priority", C+"treap.h")])

p("C02", "A rope behaves as a sequence under every editing history",
  "A rope that is edited by appending elements, inserting elements or ranges at any position, erasing elements or ranges, clearing, copying, moving and swapping always holds exactly the sequence that the same edits produce on a plain array. Indexing, size, forward/backward iteration and comparison agree with that sequence, for every outcome of its internal random balancing.",
  ["histories", "inputs"], "every edit sequence up to a depth with every position, and every choice of priorities",
  "The tests exercise a few positions of one sequence; positions interact with the current tree shape.",
  [C+"rope.h", C+"treap.h", C+"binary_search_tree.h"],
  [("positional insert and erase on an implicit-key treap", C+"rope.h")])

p("C03", "A binary heap always yields its least element and sorts completely",
  "After any sequence of insertions, removals of the front, overwriting of elements followed by a rebuild, and construction from any initial array, the front of the heap is a minimal remaining element under the given comparison and the heap holds exactly the remaining multiset. Draining or heap-sorting any array yields all of its elements in order.",
  ["histories", "inputs"], "every operation sequence up to a depth over a small key set with duplicates, every array up to a length, both comparison directions",
  "Sift-up/down errors only show for particular shapes and tie patterns that sampled tests need not reach.",
  [C+"binary_heap.h"], [("sift up / sift down", C+"binary_heap.h")])

p("C04", "Range-aggregate structures answer every range like the naive fold",
  "After any sequence of point updates, range updates, resets and rebuilds, the segment tree, the lazily updated segment tree, the Fenwick tree and the range-minimum structure answer every range query (including empty and full ranges, at any capacity that is or is not a power of two) exactly as folding the current elements from left to right would. This holds for non-commutative combination functions where the structure accepts one, and queries never change later answers.",
  ["histories", "inputs", "configurations"], "every update/query history up to a depth at every size up to a bound, with non-commutative and idempotent monoids and every range",
  "Tests sample ranges on one or two sizes; boundary masks and pending lazy updates depend on the size, the range and the order of updates together.",
  [C+"segment_tree.h", C+"lazy_segment_tree.h", M+"fenwick_tree.h", E+"structure/container/range_minimum_query.h"],
  [("bottom-up aggregation", C+"segment_tree.h"), ("lazy propagation", C+"lazy_segment_tree.h"), ("cartesian/block masks", E+"structure/container/range_minimum_query.h")])

p("C05", "A bit vector behaves as a sequence of booleans for every size and range",
  "For every size (including sizes that are not a multiple of the machine word) every operation of the bit vector - reading, setting, clearing and flipping single bits or ranges, resizing, counting, the bitwise operators, shifts, reversal, swapping of ranges, comparison and bulk conversion - yields exactly what it would on a plain sequence of booleans. Bits outside the operated range, including unused tail bits, never influence an observable result.",
  ["inputs", "histories"], "every size around the word boundaries, every range, every shift amount, with short histories of operations in between",
  "Word-boundary and tail-bit mistakes appear only for particular (size, range, shift) combinations; the tests try a few.",
  [C+"bit_vector.h"], [("word-wise range masks and tail trimming", C+"bit_vector.h")])

p("C06", "Sparse low/high and divisor-indexed maps behave as a map on their keys",
  "For every bound n and every sequence of insertions, lookups, erasures, resets and copies, the low/high map and the divisor-indexed map store for each admissible key (every k up to the low bound, and every quotient n/k) exactly the last value written to that key, and report presence and absence accordingly. Distinct admissible keys never share a slot.",
  ["inputs", "histories"], "every bound n up to a limit, every admissible key, every operation sequence up to a depth",
  "Tests use one bound; slot collisions and off-by-one errors around the square root depend on n.",
  [C+"lohi_map.h", C+"sqrt_map.h"], [("split of keys into low and high tables", C+"sqrt_map.h")])

p("C07", "Dynamic forests and disjoint sets track connectivity and path sums exactly",
  "After any sequence of linking, cutting, node additions and queries, the dynamic forest reports the same connectivity, roots, parents, depths and lowest common ancestors as an explicit forest with the same edges. After any sequence of unions the disjoint-set structure reports the same partition, component count and component sizes as an explicit partition, whichever representative it chooses.",
  ["histories"], "every valid operation sequence up to a depth on a small number of nodes",
  "Self-adjusting trees change shape on every query, so correctness depends on the full history; tests follow a few.",
  [C+"link_cut_tree.h", G+"disjoint_set.h"], [("splay/access with lazy reversal", C+"link_cut_tree.h"), ("union by size with path compression", G+"disjoint_set.h")])

p("C08", "Containers own their elements: no leak, double destruction or stale access",
  "Over any history of operations including copying, assigning (also to itself), moving, swapping, clearing and destroying, each element stored by a tree container is constructed once and destroyed once, copies are independent of their originals, and all memory is returned when the containers are gone. This also holds with the bounded contiguous allocator, which never hands out the same slot twice, reuses freed slots, and respects its capacity.",
  ["histories"], "every sequence of lifecycle operations up to a depth on two or three containers with instrumented elements",
  "Tests do not count object lifetimes, and leaks or double frees need a specific order of clear/copy/move/destroy.",
  [C+"binary_search_tree.h", C+"treap.h", C+"rope.h", C+"bounded_contiguous_allocator.h"],
  [("node allocation and release", C+"binary_search_tree.h"), ("free list", C+"bounded_contiguous_allocator.h")])

p("C09", "A lazy treap holds the sorted multiset through pending range updates",
  "After any history of insertions (by key or before a position), erasures (by key, position or range), range updates and range queries, and for every sequence of random priorities, a lazily propagating treap holds exactly the inserted and not erased elements in sorted order, equal keys in insertion order, each with exactly the range updates applied to it while it was inside, in order. Range queries return the left-to-right fold of the current elements of the range, and the root always aggregates all of them; neither updates nor aggregation need commute. Callers push pending updates to both ends before a query or update and pull aggregates up from both ends after an update. Copies are independent.",
  ["histories", "schedules", "configurations"], "every operation history up to a depth with every choice of the priorities, every tree shape up to a size with pending updates followed by one structural change, every range queried",
  "Whether a pending update or a stale aggregate is exposed depends on the random tree shape and on which nodes an earlier update touched, so tests only meet it by luck.",
  [C+"lazy_treap.h", C+"binary_search_tree.h"], [("structural changes below pending updates", C+"lazy_treap.h")])

p("C10", "Graph editing and traversal reflect exactly the current edge set",
  "After any sequence of adding and deleting nodes and edges, a graph's adjacency, node and edge counts and transpose are those of the resulting edge set, with remaining nodes renumbered as documented. Depth-first traversal visits every node exactly once with properly nested entry/exit events, and topological sorting returns an order respecting every edge whenever the graph is acyclic, and reports failure otherwise.",
  ["histories", "inputs"], "every edit history up to a depth on a few nodes; every directed graph with up to five nodes (with loops)",
  "Tests use a few hand-made graphs.",
  [G+"graph.h", E+"algorithm/graph/iterative_dfs.h", E+"algorithm/graph/topological_sort.h"],
  [("adjacency list editing", G+"graph.h"), ("explicit-stack DFS", E+"algorithm/graph/iterative_dfs.h")])

p("C11", "Shortest paths and spanning trees are optimal on every graph",
  "For every weighted graph in the supported domain, the single-source and all-pairs shortest path algorithms return exactly the minimal distances (unreachable marked as infinite) and parent/next links that realise a path of that length. The spanning-tree algorithm returns a tree (forest from its start) of minimal total weight covering every node reachable from the start.",
  ["inputs"], "every graph with up to four or five nodes with every weight assignment from a small set, including zero-weight, missing and parallel edges",
  "Tests use one sample graph per algorithm.",
  [E+"algorithm/graph/dijkstra.h", E+"algorithm/graph/floyd_warshall.h", E+"algorithm/graph/prim_spanning_tree.h"],
  [("priority queue with stale entries", E+"algorithm/graph/dijkstra.h")])

p("C12", "Flows, matchings and assignments are feasible and optimal on every network",
  "For every network the two maximum-flow algorithms return the maximum flow value (equal to the minimum cut) together with per-edge flows that respect capacities and conservation. For every bipartite graph the matching algorithm returns a matching of maximum cardinality, and for every cost matrix the assignment algorithm returns a valid assignment of minimal total cost.",
  ["inputs"], "every small network with every capacity assignment from a small set; every bipartite graph up to 4x4; every small cost matrix",
  "Optimality failures need a particular augmenting structure that a sample graph does not contain.",
  [E+"algorithm/graph/dinic_flow.h", E+"algorithm/graph/push_relabel_flow.h", E+"algorithm/graph/bipartite_matching.h", E+"algorithm/graph/hungarian.h"],
  [("blocking flow", E+"algorithm/graph/dinic_flow.h"), ("relabel-to-front", E+"algorithm/graph/push_relabel_flow.h"), ("augmenting paths", E+"algorithm/graph/bipartite_matching.h"), ("dual potentials", E+"algorithm/graph/hungarian.h")])

p("C13", "Connectivity analyses match the definition on every graph",
  "For every directed graph, the strongly connected components, their order, the transitive closure and the transitive reduction (of acyclic graphs) are those given by reachability. For every undirected graph, cut vertices, cut edges (bridges) and biconnected components are those given by removing a vertex or an edge, and a 2-satisfiability instance is declared satisfiable exactly when it is, with a satisfying assignment.",
  ["inputs"], "every directed/undirected graph with up to four/five nodes; every 2-SAT instance up to a small size",
  "Tests use one or two sample graphs.",
  [E+"algorithm/graph/tarjan_scc.h", E+"algorithm/graph/transitive_closure.h", E+"algorithm/graph/chain_decomposition.h", E+"algorithm/graph/sat2.h"],
  [("low-link computation", E+"algorithm/graph/tarjan_scc.h"), ("ear/chain decomposition", E+"algorithm/graph/chain_decomposition.h")])

p("C14", "Tree decompositions answer ancestor and path queries exactly on every tree",
  "For every rooted tree (and forest), the lowest-common-ancestor structure and the heavy-light decomposition report the same parents, depths, ancestors at distance k, lowest common ancestors and path decompositions as walking the tree. The path decomposition covers each node of the path exactly once.",
  ["inputs"], "every labelled rooted tree/forest up to seven nodes and every pair of nodes",
  "Tests use one sample tree.",
  [E+"algorithm/graph/lowest_common_ancestor.h", E+"algorithm/graph/heavy_light_decomposition.h"],
  [("binary lifting", E+"algorithm/graph/lowest_common_ancestor.h"), ("heavy paths", E+"algorithm/graph/heavy_light_decomposition.h")])

p("C15", "The chromatic polynomial counts proper colourings of every graph",
  "For every simple undirected graph, evaluating the computed chromatic polynomial at k gives exactly the number of proper colourings with k colours, for every k.",
  ["inputs"], "every graph with up to six nodes and every number of colours",
  "Tests check a few named graphs.",
  [E+"algorithm/graph/chromatic_polynomial.h"], [("deletion-contraction", E+"algorithm/graph/chromatic_polynomial.h")])

p("C16", "String indexes report exactly the occurrences a naive scan finds",
  "For every text and every pattern (or set of patterns), the linear-time search, the multi-pattern automaton, the suffix array with its longest-common-prefix and substring queries, the palindrome tree and the prefix tree report exactly the occurrences, orders, counts and distinct substrings/palindromes that a naive scan of the text yields, including overlapping occurrences, duplicates and patterns that are suffixes of one another.",
  ["inputs", "histories"], "every text over a two/three letter alphabet up to a length with every pattern set of bounded size; every insertion/erasure history of the prefix tree up to a depth",
  "Failure-link mistakes only show for particular periodic strings.",
  [I+"algorithm/search/kmp_search.h", E+"structure/container/aho_corasick_trie.h", E+"structure/container/suffix_array.h", E+"structure/container/palindrome_tree.h", E+"structure/container/prefix_tree.h"],
  [("failure function", I+"algorithm/search/kmp_search.h"), ("suffix links", E+"structure/container/palindrome_tree.h")])

p("C17", "Polynomial hashes depend only on content and compose consistently",
  "Equal strings have equal polynomial hashes however they were produced: computed directly, extracted as a substring of a cumulative hash, extended element by element, concatenated, or after re-assignment of new contents. The combination and difference operations on hashes correspond exactly to the same operations on strings, and hash-map hashers of equal tuples/containers agree.",
  ["inputs", "histories"], "every string over a small alphabet up to a length, every substring, every split and every construction history",
  "Tests compare a handful of strings.",
  [I+"algorithm/hash/polynomial_hash.h", I+"algorithm/hash/std_tuple_hash.h", I+"algorithm/hash/std_hash_combine.h"],
  [("cumulative powers", I+"algorithm/hash/polynomial_hash.h")])

p("C20", "Parallel execution runs each job once and serialises its collaborators",
  "In every interleaving of the worker threads, each job produced by the job provider is processed exactly once by exactly one worker and its result is collected exactly once, each thread uses its own worker, and the call returns (never deadlocking or losing a thread) once all jobs are done. Calls into the job provider, the worker provider and the result collector are mutually exclusive, so none of them needs to be thread safe; the range job provider covers its range exactly, in chunks no longer than requested.",
  ["schedules", "inputs"], "all thread interleavings with up to a bounded number of preemptions for 1-4 threads and 0-5 jobs; all small ranges and chunk lengths",
  "A test run sees a few OS schedules; lost or overlapping calls need a preemption between particular instructions.",
  [I+"concurrency/concurrency.h"], [("mutex around provider and collector", I+"concurrency/concurrency.h")])

p("C21", "Readers deliver exactly the underlying bytes regardless of buffering",
  "For every input and every way in which the underlying source splits it into pieces, every reader (string, file, stream, buffered, fast) delivers exactly the underlying bytes once and in order through any mix of single-character reads, block reads, peeks, skips and un-reads, reports end of input exactly when the bytes are exhausted, and counts correctly. All byte values, including zero and 255, are delivered unchanged and distinguished from end of input. The raw buffer that is handed out holds exactly the next bytes followed by a terminator. (A block read, skip or reservation larger than the buffer of a buffered reader may deliver only a buffer-full.)",
  ["inputs", "histories", "fault_sequences"], "every read-operation sequence up to a depth, every buffer capacity up to a bound, every pattern of short reads of the source, every byte value",
  "Tests read short ASCII text with a roomy buffer.",
  [I+"io/reader.h", I+"io/fast_io.h"], [("refill", I+"io/reader.h")])

p("C22", "Typed reading parses every well-formed value and consumes only its text",
  "Reading typed values (signed and unsigned integers of each width, floating point, characters, tokens, lines) from text yields the values written in the text, separated by arbitrary whitespace, independent of where buffer boundaries fall, and leaves the position just after the value. The token reader returns exactly the maximal runs of non-separator characters in order, for text that starts with a token.",
  ["inputs", "configurations"], "every text over a small alphabet of digits, signs, separators and letters up to a length, at every buffer capacity; all boundary integers",
  "Tests use a few literals.",
  [I+"io/reader.h", I+"io/fast_io.h", I+"io/stream_tokenizer.h"], [("number parsing", I+"io/reader.h"), ("tokenizing", I+"io/stream_tokenizer.h")])

p("C23", "Writers emit exactly the given bytes and numbers that read back",
  "Whatever mix of characters, blocks, strings and numbers is written, with any buffer size and any flush points, the output is the exact concatenation in order once flushed or closed. Every integer is written as its exact decimal representation, and every floating point number is written as a well-formed decimal with the requested number of digits whose value is within half a unit of the last digit of it, up to a few units in the last place of the number itself. Streaming a container or a math type lists exactly its elements in order, and formatting manipulators take effect exactly within their scope.",
  ["inputs", "histories"], "every write sequence up to a depth at every buffer capacity; all 8/16-bit integers and the boundary values of wider types; a grid of floating point values with all precisions",
  "Tests use a few literals.",
  [I+"io/writer.h", I+"io/fast_io.h", I+"io/iostream_overloads.h"], [("digit generation", I+"io/writer.h"), ("buffer flush", I+"io/writer.h")])

p("C25", "Infix expressions evaluate by the declared precedence and associativity",
  "For every well-formed infix expression built from numbers, parentheses, prefix and postfix unary operators, binary operators of any declared precedence and associativity, and functions of any number of arguments, parsing and evaluating yields the value prescribed by that grammar. Comma-separated expressions yield one value each, in order.",
  ["inputs", "configurations"], "every token sequence up to a length over a small token alphabet, for every assignment of precedence/associativity to the operators",
  "Tests evaluate a few expressions.",
  [I+"algorithm/parser/shunting_yard.h"], [("operator stack popping rule", I+"algorithm/parser/shunting_yard.h")])

p("C26", "Collection helpers and searches match their definitions on every sequence",
  "For every input sequence, each collection helper (sorting, reversing, taking a prefix, filtering, mapping, run-length encoding, membership, three-way comparison, capacity reservation) returns what its definition prescribes, without losing or inventing elements. Binary searches over any monotone predicate or sorted sequence return the exact boundary, for every range and boundary position including the extremes of the index type.",
  ["inputs"], "every sequence over a small alphabet up to a length; every boundary position in every range up to a size, including ranges at the extremes of small integer types",
  "Tests use one or two sequences.",
  [I+"algorithm/collections/collections.h", I+"algorithm/search/binary_search.h"], [("collection helpers", I+"algorithm/collections/collections.h"), ("midpoint without overflow", I+"algorithm/search/binary_search.h")])

p("C28", "Random generators are reproducible and range reduction is unbiased",
  "From a given seed each generator produces exactly the published reference sequence of its algorithm, from any saved state the same continuation, and never leaves its non-degenerate state space. Range reduction returns only values inside the inclusive range, for every range including the full range and negative bounds, and maps equally many accepted generator outputs to each value.",
  ["inputs", "histories"], "every range over 8-bit values with every raw generator output; reference sequences of all generator variants over many seeds and lengths",
  "Tests compare a few outputs and a few ranges.",
  [I+"algorithm/random/random.h", I+"algorithm/random/xorshift.h", I+"algorithm/random/mersenne_twister.h"], [("rejection sampling", I+"algorithm/random/random.h"), ("state update", I+"algorithm/random/mersenne_twister.h")])

p("C30", "Basic integer arithmetic is exact on the whole supported range",
  "Powers, squares, cubes, integer square and cube roots, gcd/extended gcd/lcm, floor/ceiling/rounded division, rounding to multiples, min/max/abs and sign helpers return the mathematically exact result for every argument whose result is representable, for every supported integer type and sign combination. The extended gcd returns Bezout coefficients satisfying its identity.",
  ["inputs"], "all pairs of 8-bit values and a dense grid around every power/perfect-square/cube/type boundary for wider types, for each instantiation",
  "Tests sample a few values; sign and boundary combinations matter.",
  [AM+"base.h", S+"algorithm/math/base.cpp"], [("integer roots and divisions", AM+"base.h")])

p("C31", "Bit tricks agree with the bit-by-bit definition at every width",
  "For every unsigned value at 8, 16, 32 and 64 bits, logarithm, leading/trailing zero counts, population count, bit reversal, prefix/suffix propagation, Gray code conversion, lowest/highest set bit, power-of-two tests and rounding, single-bit access, mask building and combination enumeration agree with their bit-by-bit definitions. Inverse pairs are inverses.",
  ["inputs"], "all 8- and 16-bit values, structured exhaustive 32/64-bit patterns (all values with up to three runs of ones), for every width overload",
  "Tests check a few values per function.",
  [AM+"bits.h", S+"algorithm/math/bits.cpp", AM+"intrinsic.h"], [("bit folding", S+"algorithm/math/bits.cpp")])

p("C32", "Modular numbers form the ring of residues for every modulus and storage",
  "For every modulus, every pair of residues and every integer type supported, modular addition, subtraction, negation, multiplication, division by any invertible element (and by divisors where a quotient exists), inversion, powers, comparison and conversion give the unique canonical residue in [0, modulus) prescribed by modular arithmetic, even when intermediate products exceed the machine word. Run-time and compile-time moduli agree.",
  ["inputs"], "every modulus up to a bound with all pairs of residues; moduli near the limits of each integer type with boundary residues",
  "Tests use one or two moduli.",
  [M+"modulo.h"], [("overflow-safe multiplication and extended-gcd inverse", M+"modulo.h")])

p("C33", "Modular equation solvers return exactly the solutions that exist",
  "For every admissible modulus and argument, Chinese remaindering, mixed-radix reconstruction, the Jacobi symbol, modular square roots (prime, prime power, composite), multiplicative orders, primitive roots, roots of unity, k-th roots and discrete logarithms return values that satisfy the defining equation; where all or the least solutions are promised, exactly those are returned; and absence of a solution is reported as documented.",
  ["inputs"], "every modulus up to a bound with all residues, exponents and pairs of moduli (coprime or not)",
  "Tests check a few moduli.",
  [AM+"modulos.h", S+"algorithm/math/modulos.cpp"], [("CRT, Cipolla, Hensel, Pohlig-Hellman", AM+"modulos.h")])

p("C34", "Sieves and factorization-derived functions match their definitions",
  "For every bound and every segment, the sieves (primes, prime flags, prime counts, totient, Moebius, number of prime factors, divisor counts and sums, smallest/biggest factor, and their segmented versions) give for each number exactly the value defined by trial division. Functions derived from a factorization (divisors, square-free divisors, totient, Carmichael function, divisor counts, digits) agree with direct computation, and the prime holder serves the same values whatever order and bounds it is asked in.",
  ["inputs", "histories"], "every bound up to a limit, every segment [b,e) up to a limit, every integer below a limit; every request order of the holder",
  "Tests check a prefix for one bound; off-by-one errors at the sieve bound or segment edges depend on the bound.",
  [AM+"primes.h", S+"algorithm/math/primes.cpp", M+"prime_holder.h", M+"factorial_holder.h"], [("sieving loops", S+"algorithm/math/primes.cpp"), ("lazy growth", M+"prime_holder.h")])

p("C35", "Primality testing and integer factoring are exact",
  "For every integer, the primality test answers prime exactly when it is prime, and factoring returns a set of distinct primes with positive exponents whose product is the integer, for machine integers including those with repeated, squared and large prime factors. Small-factor extraction and cofactor helpers divide out exactly the powers they report.",
  ["inputs"], "every integer up to a bound, all products of up to four primes from a structured set, known strong pseudoprimes and Carmichael numbers",
  "Tests check a few composites.",
  [AM+"factorization.h"], [("Miller-Rabin bases", AM+"factorization.h"), ("Pollard rho", AM+"factorization.h")])

p("C36", "Combinatorial enumeration and counting are complete and exact",
  "Stepping through combinations, partitions and permutations visits every object exactly once in lexicographic order and then reports the end, and the n-th permutation is the n-th in that order. Stirling numbers, partition numbers and related counts equal the number of objects found by explicit enumeration.",
  ["inputs"], "every size up to a bound, enumerating all objects",
  "Tests check selected counts and one enumeration.",
  [AM+"combinatorics.h", AM+"counting.h"], [("successor functions", AM+"combinatorics.h"), ("counting recurrences", AM+"counting.h")])

p("C37", "Factorials and binomials modulo prime powers equal the exact values",
  "For every prime power modulus and all arguments, the prime exponent and the reduced residue of factorials, binomials and multinomials, and binomials modulo the prime power, equal those of the exact integers.",
  ["inputs"], "every prime power up to a bound with all arguments up to a bound exceeding several multiples of the modulus",
  "Tests check a few moduli.",
  [AM+"comb_primes.h", AM+"comb_mod_pp.h"], [("Legendre formula and Wilson sign", AM+"comb_mod_pp.h")])

p("C38", "Every fast convolution and transform equals its quadratic definition",
  "For all inputs, the fast and/or/xor/max/min, ordinary and cyclic convolutions equal the sums given by their definitions, for every length including empty, unequal and non-power-of-two lengths. The transforms are inverted exactly by their inverses, over complex numbers (within rounding) and over residues.",
  ["inputs"], "every pair of basis (and small-valued) sequences up to a length; transforms of every basis vector at every supported length",
  "Tests check one or two vectors; by bilinearity all basis pairs decide each length.",
  [AM+"convolutions.h", AM+"fft.h", M+"root_wrapper.h"], [("butterflies", AM+"fft.h")])

p("C39", "Polynomial arithmetic is exact for every degree and multiplication strategy",
  "For all polynomials, addition, multiplication by any of the available strategies, division with remainder, power, evaluation, composition, derivative, integral, shifts and comparison satisfy their defining identities (a = q*b + r with deg r < deg b, the product is the convolution), whatever lengths, leading zeros and aliasing between operands. Modular polynomial multiplication agrees with schoolbook multiplication for every modulus and size, and root finding and discrete summation return values satisfying their defining equations.",
  ["inputs"], "every polynomial over a small field up to a degree with every partner; all length pairs around each strategy threshold",
  "Strategy selection depends on the lengths; tests use a few.",
  [M+"polynom.h", AM+"polynom_mod.h", AM+"polynoms.h"], [("multiplication dispatch by size", M+"polynom.h"), ("three-prime/hi-lo splitting", AM+"polynom_mod.h")])

p("C40", "Formal power series operations satisfy their identities to full precision",
  "For all truncated power series, sum, product, quotient, inverse, power, square root, logarithm, exponential, derivative, integral and composition satisfy their defining identities coefficient by coefficient up to the series' precision, for static and dynamic precision and for every precision including one and two.",
  ["inputs"], "every series over small finite fields up to a precision; every precision up to a bound",
  "Newton iterations behave differently for each precision; tests use one.",
  [M+"series.h"], [("Newton iteration", M+"series.h")])

p("C41", "Matrices and linear recurrences satisfy linear algebra exactly",
  "Over every field, matrix sum, product, power, transpose, determinant, inverse, rank and elimination agree with their definitions, including singular matrices and (for sums, products and transposes) non-square ones. The n-th term of every linear recurrence equals iterating it, recovering a recurrence from terms reproduces the sequence with minimal order, and the Fibonacci/Lucas/Bernoulli values equal their definitions.",
  ["inputs"], "every matrix over GF(2)/GF(3)/small residues up to 3x3; every recurrence of small order with every initial state",
  "Singular pivots need specific matrices.",
  [M+"matrix.h", AM+"recurrence.h"], [("Gaussian elimination", M+"matrix.h"), ("Berlekamp-Massey", AM+"recurrence.h")])

p("C42", "Number types (fractions, quadratic, complex, extended) obey their algebra",
  "Fractions, quadratic extensions, complex numbers, numbers extended with infinity, Moebius transformations, double-width integers and symbolic values compute exactly what their definitions prescribe: the ring/field laws hold, results are in canonical form so equal values compare equal, order is a total order where provided, and conversions preserve value.",
  ["inputs"], "all pairs/triples from a small exhaustive domain of each type; all limb boundary patterns for double-width integers",
  "Tests check a few values.",
  [M+"fraction.h", M+"quadratic.h", M+"complex.h", M+"with_infinity.h", M+"moebius_tr.h", M+"symbolic.h", E+"structure/math/double_int.h"], [("normalisation", M+"fraction.h"), ("carry propagation", E+"structure/math/double_int.h")])

p("C43", "Permutations convert, compose, invert and exponentiate faithfully",
  "For every permutation, conversion between array, cycle and transposition notations preserves the mapping; composition, inverse, powers (positive, negative, zero), sign, degree and cycle structure are those of the mapping; roots (with a requested parity) are found exactly when they exist; permutations with the same mapping and size compare equal; and applying a permutation to a sequence places at each position the element at that position's image, a product applying its right factor first.",
  ["inputs"], "all permutations up to six elements, all pairs up to four/five, all small exponents",
  "Tests check a few permutations.",
  [M+"permutation.h"], [("cycle conversion", M+"permutation.h")])

p("C44", "Geometric algebra and vector types satisfy their defining products",
  "Vectors and the multivectors of the geometric algebras compute sums, scalar/dot/cross, geometric, inner, outer and regressive products, reversals, duals, norms and sandwich transformations exactly as the algebra's basis multiplication table prescribes, for every combination of operand kinds. Conversions between partial (graded) types lose nothing that the type can hold.",
  ["inputs"], "all pairs of basis elements of every operand type combination (products are bilinear), plus small integer coefficient vectors",
  "There are hundreds of typed product combinations; the tests check coefficients of one generic pair each.",
  [M+"clifford3.h", M+"pga.h", M+"vector2d.h", M+"vector3d.h", M+"vectorNd.h"], [("hand-expanded product tables", M+"pga.h")])

p("C45", "Nimber and GF(2) arithmetic form the prescribed fields",
  "Nimber sums, products, quotients, powers and square roots equal the recursive game-theoretic definition and satisfy the field laws for every pair of values, and GF(2) arithmetic is arithmetic modulo two.",
  ["inputs"], "all pairs (and triples) of nimbers below 256, boundary values at each power-of-two level up to 64 bits",
  "Tests check a small table.",
  [M+"nimber.h", M+"galois_field_2.h"], [("recursive nim multiplication", M+"nimber.h")])

p("C46", "Summatory functions equal the direct sum for every bound",
  "For every n, the sublinear sums - prime counts and prime power sums, Mertens and its odd/even parts, totient sums, square-free counts, sums over floor(n/k), power sums, floor-linear sums, Dirichlet convolutions/quotients/inverses, Moebius transforms and sums of multiplicative functions - equal the straightforward summation of the defining terms, for every admissible sieve size and table prefill.",
  ["inputs", "configurations"], "every n up to a bound with every sieve bound/table prefill, and every parameter combination of the floor-sum on a small grid",
  "Errors at perfect squares, n=1, or particular quotient patterns are missed by spot values.",
  [AM+"divisor_sums.h", AM+"mertens.h", AM+"prime_counting.h", AM+"prime_pi.h", AM+"sums.h"], [("quotient blocks", AM+"sums.h"), ("recursive summation", AM+"divisor_sums.h")])

p("C47", "Pell equation solvers find every solution up to the bound and no others",
  "For every non-square D and every non-zero N, the ordinary and generalised Pell solvers return only true solutions of x^2 - D y^2 = N, return the minimal solution where promised, and list exactly all solutions up to the requested limits (or report that there is none).",
  ["inputs"], "every D and N up to a bound, compared with exhaustive search over x,y up to a bound",
  "Tests check a few D and N.",
  [AM+"pell.h"], [("PQa continued fraction", AM+"pell.h")])

p("C48", "Triples and sums of two squares are enumerated completely and once",
  "For every bound, the generators of Pythagorean, almost-Pythagorean and Eisenstein triples list every triple satisfying the equation (primitive or all, with a fixed leg) exactly once and nothing else, and for every n the representations of n as a sum of two squares and their count are complete.",
  ["inputs"], "every bound/n up to a limit compared with brute force",
  "Tests check one bound.",
  [AM+"triples.h", AM+"squares_r.h"], [("tree generation", AM+"triples.h")])

p("C49", "Rational approximation and lattice algorithms return the true optimum",
  "For every fraction and bound, convergents and semi-convergents, best approximations to square roots, Farey neighbours and sequences, periodic decimal expansions, rational digits, and closest-lattice-point/minimisation queries return exactly the object that exhaustive search over all candidates finds.",
  ["inputs"], "every small fraction/line/bound compared with brute force over all candidates",
  "Tests check a few fractions.",
  [AM+"convergents.h", AM+"fractions.h"], [("continued fraction expansion", AM+"convergents.h")])

p("C50", "Range builders, reductions and closed-form sequences match their formulas",
  "For every length and parameter, the range builders (arithmetic ranges, powers, factorials, inverse factorials, inverses, batch inversion, prefix sums, differences, sign alternation) produce exactly the table their definition prescribes without touching elements outside the range; reductions (sum, product, min, max, mex) equal the fold; figurate sequences equal their formulas.",
  ["inputs"], "every length up to a bound (including zero and one), every parameter up to a bound, every small sequence",
  "Tests check one length per builder.",
  [AM+"ranges.h", AM+"reduce.h", AM+"sequences.h"], [("table recurrences", AM+"ranges.h")])

p("C51", "Big-integer helpers agree with exact arithmetic and machine-word casts",
  "The arbitrary-precision helpers convert between 64-bit integers and big integers without changing the value (modulo the word size when it does not fit), multiply and raise to powers modulo any positive 64-bit modulus without overflow, divide rounding down and up as named, take floor and ceiling square roots and n-th roots, greatest common divisors, inverses and primality exactly, make modular numbers over big integers a ring of residues, and print integers, fractions and floats with their value and sign.",
  ["inputs"], "every pair and triple over a set of machine-word boundary values, every residue pair for several moduli, every number up to a bound and around powers up to 2^200 for the roots",
  "The header has no tests; overflow and sign mistakes show only at the ends of the word range.",
  [AM+"gmp_helpers.h"], [("word casts and modular helpers", AM+"gmp_helpers.h")])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
