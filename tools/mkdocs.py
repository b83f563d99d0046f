#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT = "rosemary/number_theory/"
AR = NT + "arithmetic_functions/"
CO = "rosemary/combinatorics/"
GA = "rosemary/graphs/algorithms/"
BEYOND = "The tests run a handful of fixed inputs per function; "

# id, title, statement, quantifier text, why tests can't, files, mechanisms, technique note
P = [
("N01", "Integer primitives are exact for integers of every size",
 "gcd, lcm and their list forms, ext_gcd (with a valid Bezout identity), integer_sqrt, integer_nth_root, integer_log, bit_count and valuation return the mathematically exact value for all integers in their domain, including zero, negative and arbitrarily large ones. The root of a perfect power is exact and the root of its neighbours is the floor. Arguments outside the domain are refused with ValueError.",
 "all integers, in particular 0, +-1, perfect powers and their neighbours, and values beyond 2^53",
 BEYOND + "floating-point shortcuts and sign handling only fail at powers, boundaries and beyond 2^53.",
 [NT + "core.py"], [("Euclid, Newton and bit-length iterations", NT + "core.py")],
 "results compared with math/int arithmetic identities and defining inequalities"),
("N02", "Modular primitives: powers, inverses, CRT and Jacobi symbols are exact",
 "power_mod, inverse_mod, chinese, crt_preconditioning_data with chinese_preconditioned, and jacobi_symbol return the least nonnegative residue (or the symbol) defined by number theory for every modulus, negative arguments and non-coprime arguments included. A result exists exactly when the mathematics says so; otherwise ValueError is raised.",
 "all integer arguments and moduli, including moduli 1 and 2, negative bases and exponents, non-coprime pairs and large systems of congruences",
 BEYOND + "wrong signs and residues appear for negative arguments, modulus 1 or even parts the samples miss.",
 [NT + "core.py"], [("binary exponentiation, extended Euclid, Garner recombination, quadratic reciprocity", NT + "core.py")],
 "results compared with pow(), the defining congruences and an independent Jacobi evaluation"),
("N03", "Primality verdicts are correct; next and random primes are prime and in range",
 "is_prime is correct for every integer within its provable range, is_probable_prime, miller_rabin and solovay_strassen never reject a prime, and the single-base tests agree with their definition. next_prime and next_probable_prime return the least (probable) prime strictly larger than the argument; random_prime returns a prime within the interval. lucas_lehmer decides Mersenne primality exactly.",
 "all integers: strong pseudoprimes, Carmichael numbers, prime squares, twin primes, neighbours of powers of two, and random large primes and composites",
 BEYOND + "pseudoprimes to a base are rare and adversarial.",
 [NT + "primes/primality.py"], [("Miller-Rabin base sets, deterministic thresholds", NT + "primes/primality.py")],
 "verdicts compared with an independent Baillie-PSW plus sieve oracle on adversarial integers"),
("N04", "Every sieve enumerates exactly the primes of its range",
 "primes, eratosthenes1, eratosthenes2, luo, chartres and pritchard return all primes up to the bound, each once and in increasing order; primes_first_n returns exactly the first n primes. prime_range yields exactly the primes of the half-open interval [a, b) in order, for any placement of the interval.",
 "all bounds and intervals: around squares of primes, multiples of the wheel, segment and table boundaries, empty and tiny ranges, far-away windows",
 BEYOND + "off-by-one errors sit at wheel, segment and table boundaries.",
 [NT + "primes/sieves.py", NT + "prime_list.py"], [("wheel and segment index arithmetic", NT + "primes/sieves.py")],
 "lists compared with an independent sieve at exhaustive small and boundary bounds"),
("N05", "All prime counting and prime summing methods are exact and agree",
 "prime_count, legendre, meissel, lehmer, lmo and lmo_bit return the number of primes not exceeding the argument, prime_sum and prime_sum2 their sum, and pi_table tabulates the counting function. All methods agree with each other for every argument.",
 "all nonnegative arguments: every small value, values around primes, prime powers and cube/fourth-root thresholds, and large values",
 BEYOND + "combinatorial counting errors depend on the position of n relative to roots and table limits.",
 [NT + "primes/prime_counting.py", "rosemary/data_structures/bit_sieve.py"], [("partial sieve function, P2/P3 corrections, special leaves", NT + "primes/prime_counting.py")],
 "values compared with an independent sieve and with each other"),
("N06", "Factorizations are complete, sorted and prime; divisor listings are exact",
 "factor returns the prime factorization of every nonzero integer in increasing order of primes with exact multiplicities under every option, and factor_back inverts it. divisors, xdivisors, prime_divisors, unitary_divisors and divisor_pairs list exactly the divisors of their kind, each once, whether given the integer or its factorization; factored_range yields every integer of the interval with its factorization.",
 "all nonzero integers: prime powers, squarefull numbers, semiprimes with close or distant factors, Carmichael numbers, negative numbers, and all intervals",
 BEYOND + "the probabilistic and staged methods fail on particular shapes of composites.",
 [NT + "factorization/factorization.py", NT + "factorization/algorithms.py"], [("trial division stage, power detection, recursive splitting, divisor products", NT + "factorization/factorization.py")],
 "product, primality and order of factors checked; divisor lists compared with brute force or product construction"),
("N07", "Each factor-finding method returns only genuine information",
 "trial_division, fermat, lehman, pollard_p_minus_1, pollard_rho, pollard_rho_brent and cfrac return, for a composite in their domain, a factor or splitting that really divides the argument, and the deterministic methods find one whenever their documented bound guarantees it. smooth_factor succeeds exactly on integers that are smooth over the factor base and returns the exact exponents.",
 "all composites (squares, cubes, close and far prime pairs, even numbers), all bounds and iteration counts",
 BEYOND + "non-trivial gcds and loop bounds fail on specific composites.",
 [NT + "factorization/algorithms.py"], [("difference-of-squares searches, rho cycles, smooth relations and Z2 elimination", NT + "factorization/algorithms.py")],
 "divisibility and completeness of every returned splitting checked; step counter bounds progress"),
("N08", "Arithmetic functions equal their definition, from integers or factorizations",
 "euler_phi, moebius_mu, divisor_sigma (every exponent k), divisor_tau, carmichael_lambda, factorial and primorial return the exact values of their definition for every positive integer. Passing the factorization gives the same value as passing the integer.",
 "all positive integers: prime powers, powers of two, highly composite and squarefree numbers, and all exponents k",
 BEYOND + "prime-power and power-of-two cases are easily mishandled.",
 [AR + "functions.py"], [("products over the factorization", AR + "functions.py")],
 "values compared with counting definitions for small n and multiplicative formulas on planted factorizations"),
("N09", "Tables of arithmetic functions agree entry by entry with the definition",
 "euler_phi_list, moebius_list, sigma_list (every k) and tau_list contain the exact value of the function at every index up to the bound. moebius_range yields the exact Moebius values of the half-open interval, wherever it lies.",
 "all bounds, all exponents and all intervals, including windows starting at squares and far from the origin",
 BEYOND + "a table has thousands of entries and the wrong ones are at specific indices.",
 [AR + "sieves.py"], [("sieving by primes and prime powers, segment offsets", AR + "sieves.py")],
 "every entry compared with an independently sieved table"),
("N10", "Summatory functions equal the sum of their terms",
 "euler_phi_sum (totient_sum), euler_phi_weighted_sum, moebius_sum (mertens) and sigma_sum equal the sum of the corresponding function over 1..n for every n >= 1.",
 "all n: every small value, squares, cubes and their neighbours, where the hyperbola-method blocks change, and large n",
 BEYOND + "sublinear block summation fails at particular n only.",
 [AR + "sums.py"], [("hyperbola-method block boundaries and cached tables", AR + "sums.py")],
 "values compared with running sums of an independent table"),
("N11", "Totient preimages are complete",
 "euler_phi_inverse and inverse_phi return, in increasing order and without repetition, exactly the integers m with phi(m) = n, for every positive n, including those without preimages. Passing the factorization of n gives the same list; non-positive n are refused.",
 "all positive n, in particular nontotients, powers of two and factorials",
 BEYOND + "missing preimages depend on the divisor structure of n.",
 [AR + "inverse_functions.py"], [("divisor-by-divisor combination of prime powers", AR + "inverse_functions.py")],
 "lists compared with an exhaustive inverse of an independent totient table"),
("N12", "Power, square and squarefree recognition is exact",
 "is_square returns the exact root of every perfect square and False otherwise; is_power returns the base and the maximal exponent (or the requested exponent) exactly when the integer is such a power; is_squarefree and is_factorial decide their property. Integers of any size and factorizations give the same answer.",
 "all integers, especially k-th powers +-1 beyond floating-point precision and residues accepted by modular filters",
 BEYOND + "modular filter tables and float roots fail for specific residues or large values.",
 [NT + "classification.py"], [("residue tables, integer roots, gcd of exponents", NT + "classification.py")],
 "compared with math.isqrt and exact integer roots"),
("N13", "Modular roots and congruence solvers return the complete reduced solution set",
 "sqrts_mod_p, sqrts_mod_n, linear_congruence, quadratic_congruence, nth_roots_of_unity_mod_p and nth_roots_of_minus1_mod_p return all solutions in [0, n), sorted and without repetition, and an empty list exactly when there are none. This holds for every modulus (powers of two, prime powers dividing the argument, composite, one) and with or without a supplied factorization.",
 "all coefficients and moduli: p = 2, p = 1 mod high powers of two, prime powers with a divisible by p, many-factor moduli",
 BEYOND + "the degenerate cases (p | a, powers of two) are exponentially many.",
 [NT + "zn_arithmetic.py"], [("Tonelli-Shanks, Hensel lifting, CRT recombination", NT + "zn_arithmetic.py")],
 "solution sets compared with exhaustive search, and with root counts and planted roots for large moduli"),
("N14", "Orders, primitive roots and discrete logarithms are correct and least",
 "multiplicative_order returns the least positive exponent, is_primitive_root and primitive_root (least one) and fibonacci_primitive_roots match the group structure modulo n, and discrete_log returns an exponent that solves the equation exactly when one exists. Elements or moduli without an answer raise ValueError (or yield False); supplied factorizations of phi do not change the answer.",
 "all moduli 1, 2, 4, p^k, 2p^k and those without primitive roots; all residues, unit or not",
 BEYOND + "minimality fails only for elements of special order.",
 [NT + "zn_arithmetic.py"], [("reduction of the group order by its prime divisors, baby-step giant-step", NT + "zn_arithmetic.py")],
 "compared with the power table of each residue, and planted group elements for large moduli"),
("N15", "Continued fractions of quadratic irrationals are exact",
 "For every (p + sqrt(d))/q the partial quotients are those of its continued fraction, the period and pre-period lengths are exact and minimal, and the convergents are exact best rational approximations satisfying the standard recurrences. Perfect-square d and q = 0 are refused with ValueError; printing the object never fails.",
 "all (d, p, q) with d nonsquare, including negative p and q and q not dividing d - p^2",
 BEYOND + "floor and normalisation errors occur for negative or non-reduced parameters.",
 [NT + "continued_fractions.py"], [("integer floor recurrence with scaled parameters and cycle detection", NT + "continued_fractions.py")],
 "expansion compared with exact floors computed by integer arithmetic"),
("N16", "Pell equation solutions are valid, fundamental and complete",
 "pell_fundamental_solution, farey and PellEquation resolvents return the least positive solution of x^2 - D y^2 = +-1 exactly when one exists; pell_minimal_positive_solutions returns the least positive solution of every class for any N, and pell_solution_generator and pell_small yield exactly the solutions they promise, in order and without repetition. Square or non-positive D are refused.",
 "all nonsquare D and all nonzero N (negative, square, divisible by D) and all bounds",
 BEYOND + "missing classes appear for particular (D, N).",
 [NT + "diophantine_equations/pell.py"], [("convergents, class enumeration by modular square roots, automorph stepping", NT + "diophantine_equations/pell.py")],
 "compared with exhaustive search for solutions below the fundamental bound"),
("N17", "Divisor search, Bernoulli numbers and progressions are exact and optimal",
 "largest_divisor returns the largest divisor not above the bound, maximize_divisors an integer up to the bound with the most divisors, and bernoulli_list the exact Bernoulli numbers. has_three_term_ap and longest_ap decide existence and length of arithmetic progressions in a set of integers exactly.",
 "all integers and bounds; all finite sets of integers including negative, tiny and gapped ones",
 BEYOND + "optimality must hold against every alternative.",
 [NT + "misc.py", NT + "arithmetic_progressions.py"], [("branch and bound over divisors, recurrences, two-pointer search", NT + "misc.py")],
 "compared with exhaustive search and recurrence identities"),
("A01", "Matrices obey exact linear algebra and never share entries",
 "Construction, indexing, addition, subtraction, negation, products with matrices and scalars, row and column deletion and determinant of integer and rational matrices of every shape equal those of exact linear algebra; det(AB) = det(A)det(B). Incompatible dimensions raise ValueError, and no result shares entries with an operand.",
 "all shapes (1x1, rows, columns, singular, zero pivots), all integer and rational entries and all sequences of operations",
 BEYOND + "zero pivots, rational entries, non-square shapes and aliasing need specific matrices.",
 ["rosemary/algebra/matrices/matrices.py"], [("fraction-free elimination with pivoting", "rosemary/algebra/matrices/matrices.py")],
 "compared with list-of-lists arithmetic and Leibniz/Laplace determinants over Fractions"),
("A02", "Polynomial objects form a ring with correct division and gcd",
 "Sums, differences, products, powers, negation, comparison and evaluation of polynomials (with polynomials, scalars or coefficient lists on either side) agree with coefficientwise arithmetic in normal form (no trailing zeros; degree and leading coefficient consistent). quo_rem, pseudo_quo_rem, gcd, content and primitive_part satisfy their defining identities, and operands are never changed.",
 "all coefficient lists: zero polynomial, constants, trailing zeros, cancellation, degrees on both sides of the multiplication threshold",
 BEYOND + "cancellation, zero and threshold cases are combinations the tests do not reach.",
 ["rosemary/algebra/polynomials/polynomials.py", "rosemary/algebra/polynomials/algorithms.py"],
 [("coefficient normalisation, Karatsuba, subresultant gcd", "rosemary/algebra/polynomials/polynomials.py")],
 "compared with schoolbook list arithmetic and division identities over Fractions"),
("A03", "Coefficient-list and power-series algorithms are exact",
 "mul_classical, mul_karatsuba, ps_mult_classical and ps_mult_karatsuba (any threshold) compute the exact convolution for lists of any lengths; power_jcp and ps_power the exact power, list_add and list_subtract the exact sum and difference, ps_invert the exact inverse series, and eta_series and delta_series the exact expansions. Input lists are not modified.",
 "all lengths (unequal, 1, around thresholds), all integer or rational coefficients including zeros at either end, all precisions",
 BEYOND + "split points and zero leading coefficients fail at specific lengths.",
 ["rosemary/algebra/polynomials/algorithms.py", "rosemary/algebra/power_series/power_series.py"],
 [("recursive splitting and recombination, power recurrence", "rosemary/algebra/polynomials/algorithms.py")],
 "compared with schoolbook convolution"),
("C01", "Combinatorial generators list every object exactly once, in documented order",
 "phillips and knuth_algorithm_l and its (r-)variations, n_tuples and combinations yield every permutation, variation, tuple or combination exactly once and in lexicographic order where documented, for multisets too. What a caller does with one yielded object does not influence the following ones, and the input is left alone.",
 "all element lists (repeated, empty, single), all sizes r, all radix vectors, and callers that overwrite yielded objects",
 BEYOND + "repetition and degenerate sizes are not sampled.",
 [CO + "generation/permutations.py", CO + "generation/tuples.py", CO + "generation/combinations.py"],
 [("next-object successor rules", CO + "generation/permutations.py")],
 "sequences compared with itertools-style enumeration"),
("C02", "Integer partition generation is complete under every restriction",
 "integer_partitions yields every partition of n satisfying the given restriction (number of parts, allowed parts, distinct parts) exactly once, each summing to n with parts in the documented order; when none exists it yields nothing.",
 "all n and all restrictions, including n = 0, more parts than n and part lists that cannot represent n",
 BEYOND + "restriction combinations at the edges are unsampled.",
 [CO + "generation/partitions.py"], [("recursive and iterative partition successors", CO + "generation/partitions.py")],
 "compared with a reference enumeration"),
("C03", "Counting functions equal the number of objects they count",
 "bell_number, stirling_number2, binomial, multinomial, bipartitions, partition_list, partition_number, rth_power_partition_number, number_of_domino_tilings, triomino_tilings and necklaces (with or without prescribed content) equal the number of the combinatorial objects for every argument, zero and out-of-range ones included.",
 "all arguments, including zero, k > n, degenerate boards, composite lengths and arbitrary necklace contents",
 BEYOND + "recurrences and Burnside sums fail at particular arguments.",
 [CO + "enumeration/enumeration.py"], [("recurrences, pentagonal sums, transfer matrices, Burnside sums", CO + "enumeration/enumeration.py")],
 "compared with brute-force counting and independent recurrences"),
("C04", "Knapsack solvers: exact methods optimal, every selection feasible",
 "depth_first, dynamic_programming and branch_and_bound_depth_first return the maximal total value within the capacity together with a selection realising exactly that value; simulated_annealing always returns a feasible selection with its true value. Items are never modified.",
 "all item lists (weightless, valueless, oversized, equal-ratio, empty) and capacities",
 BEYOND + "a bound that is too tight loses the optimum only on special item sets.",
 [CO + "optimization/knapsack.py"], [("value/weight bound, DP table, backtracking", CO + "optimization/knapsack.py")],
 "optimum compared with subset enumeration / independent DP; selections re-evaluated"),
("C05", "Travelling-salesman solvers: valid tours, true costs, optimal exact methods",
 "Every solver returns a tour that visits each point once together with its true cost; depth_first and branch_and_bound are optimal, the 2-opt searches end in tours that no 2-opt move improves beyond tolerance, and farthest_insertion follows the insertion rule. The genetic solver never returns a tour worse than its initial population.",
 "all point sets (collinear, duplicate, tiny) and all symmetric distance matrices, and all random schedules of the heuristics",
 BEYOND + "pruning errors and stale costs depend on the point set.",
 [CO + "optimization/tsp.py", CO + "optimization/genetic_tsp.py"], [("partial-tour bounds, edge exchange deltas", CO + "optimization/tsp.py")],
 "compared with Held-Karp; each tour re-costed and re-scanned for improving moves"),
("C06", "Exact cover: every cover found exactly once, and covers are exact",
 "algorithmx, algorithm_dlx, ExactCover and ExactCoverBinary yield exactly the sub-collections that partition the target, each once, and number_of_solutions counts them; the search leaves its input intact. Langford pairings, domino tilings, Latin squares and sudoku built on top are complete and correct.",
 "all set systems (duplicate sets, uncoverable elements, empty targets) and all puzzles",
 BEYOND + "cover/uncover order errors only show in searches that backtrack through particular structures.",
 [CO + "optimization/exact_cover.py"], [("dancing-links cover/uncover, bitmask search", CO + "optimization/exact_cover.py")],
 "solution sets compared with brute-force sub-collection search; puzzle answers verified"),
("C07", "Alphametic solver finds all and only the valid assignments",
 "solve yields every assignment of distinct digits to letters that makes the sum true with no leading zero, exactly once, and nothing else, for any number of words on either side.",
 "all puzzles: repeated words, one-letter words, several words on both sides, unsolvable ones, up to ten letters",
 BEYOND + "carry and leading-letter pruning fails on specific letter patterns.",
 [CO + "recreational/alphametics.py"], [("column-wise search", CO + "recreational/alphametics.py")],
 "solutions compared with exhaustive digit assignment; planted solutions for wide puzzles"),
("D01", "Heaps return minima in order through any sequence of operations",
 "LeftistHeap and PairingHeap behave as priority queues under every interleaving of insert, merge, find_min, delete_min and decrease_key: the minimum is always returned, no element is lost or duplicated, sizes and iteration agree with the contents, and empty heaps answer as documented. Ties and equal keys are handled without comparing unrelated payloads incorrectly.",
 "all operation histories with repeated and equal keys, merges of empty heaps, and decrease_key at the root, in the middle and on leaves",
 BEYOND + "link corruption needs particular multi-step histories.",
 ["rosemary/data_structures/heaps.py"], [("leftist rank rule, sibling/child/prev links and two-pass pairing", "rosemary/data_structures/heaps.py")],
 "online monitor compares every answer with a model multiset and walks the internal contents through the public iterators"),
("D02", "Union-find structures represent exactly the merged partition",
 "After any sequence of unions and finds, two elements have the same representative exactly when they have been connected (UnionFind), or the class carries the name given at its last union (NamedUnionFind). Finds never change the partition.",
 "all histories of unions (repeated, self, chained in adversarial order) and finds",
 BEYOND + "rank and path-compression errors need specific histories.",
 ["rosemary/data_structures/unionfind.py"], [("union by rank/size and path compression", "rosemary/data_structures/unionfind.py")],
 "compared with an explicit partition model after each step"),
("D03", "Bit sieves count the surviving integers exactly",
 "After any sequence of mark_multiples and update operations, partial_sum(m) of BITSieve and BITSieveArray equals the number of unmarked entries up to m for every m, and entries lists exactly the unmarked integers.",
 "all sizes (powers of two and neighbours) and all marking histories, repeated marks included",
 BEYOND + "Fenwick index errors are visible only at specific indices after specific marks.",
 ["rosemary/data_structures/bit_sieve.py"], [("Fenwick tree prefix updates", "rosemary/data_structures/bit_sieve.py")],
 "compared with an explicit set model after each step"),
("X01", "A call depends on its arguments only, whatever happened before or alongside",
 "The result of a library call with given arguments (and given random state) is the same in a fresh process as after any history of other calls, even if the caller has overwritten earlier results and arguments. Arguments are left unchanged, iterators over the same or different inputs can be advanced alternately, and concurrent threads calling library functions on shared read-only inputs do not influence each other.",
 "all histories of calls, all interleavings of iterators and all thread schedules",
 "Each test calls a function once or twice in a fixed order and in one thread; hidden shared state only shows in longer histories.",
 ["rosemary/utilities.py", GA + "paths.py", NT + "core.py", CO + "generation/permutations.py"],
 [("absence of shared mutable state: defaults, module tables, caches, yielded buffers", "rosemary")],
 "offline comparison of fresh-process results with results from long random histories, interleaved iterators and 4 threads with a 2 microsecond switch interval"),
("X02", "Memoization returns what the function would return, computing each call once",
 "A function wrapped by cached_function returns, for every argument tuple, exactly what the unwrapped function returns, calls the original at most once per distinct argument tuple, keeps separate wrapped functions separate, and propagates exceptions without caching them.",
 "all sequences of calls, arguments (None, tuples, falsy results) and recursive definitions",
 "The tests do not exercise it.",
 ["rosemary/utilities.py"], [("dictionary of argument tuples per wrapped function", "rosemary/utilities.py")],
 "call log of the wrapped function compared with the history"),
("X03", "Operations keep the running cost their documentation promises",
 "As the size of the input grows, the work of an operation (interpreter steps inside the library plus comparisons and hashings of keys, a deterministic count) grows no faster than documented: LeftistHeap construction O(n), its insert, delete_min and merge and the PairingHeap operations O(log n) amortized, a sequence of UnionFind or NamedUnionFind operations almost linear, partial sums of the bit sieves O(log n), BFS, DFS and connected components O(|V| + |E|), the Dijkstra variants, prim, kruskal, cheriton_tarjan and the Steiner heuristics (for a fixed number of terminals) O(|E| log |V|), dijkstra_buckets O(m + n*C), bellman_ford O(|V||E|), floyd_warshall O(n^3), gcd, ext_gcd, lcm, inverse_mod, jacobi_symbol and power_mod linear in the number of digits, integer_sqrt, integer_log and valuation logarithmic in it, the sieves of Eratosthenes O(n log log n), trial_division and discrete_log O(sqrt(n)), lehman O(n^(1/3)), the rho methods O(sqrt(p)), and the summatory functions sublinear.",
 "all inputs of growing size, in particular sorted, reversed and equal keys, chains of unions, paths, stars and sparse graphs, Fibonacci numbers and long moduli",
 "The tests run each function on inputs so small that a lost heuristic (path compression, a rank or balance rule, early exit, memoization) leaves every result and every test unchanged.",
 ["rosemary/data_structures/heaps.py", "rosemary/data_structures/unionfind.py", "rosemary/data_structures/bit_sieve.py", GA + "traversal.py", GA + "paths.py", GA + "spanning_trees.py", GA + "steiner_trees.py", GA + "connectivity.py", NT + "core.py", NT + "zn_arithmetic.py", NT + "primes/sieves.py", AR + "sums.py", NT + "factorization/algorithms.py"],
 [("path compression, leftist ranks, priority queues, binary splitting, memoized recursion", "rosemary/data_structures/heaps.py")],
 "step meter on the running code; the count relative to the documented bound must not grow over 16- to 1000-fold sizes"),
("G01", "Graph objects obey the model of a weighted simple undirected graph",
 "After any sequence of vertex and edge insertions and deletions every query (vertices in each documented order, edges, weights, degrees, leaves, density, neighbours, matrices, induced subgraphs, complements, removals returning new graphs) equals that of the mathematical graph. Copies and derived graphs are independent of the original; deleting a malformed edge, or asking for the extreme degrees of the empty graph, raises ValueError and changes nothing.",
 "all histories of mutations and queries, all vertex types and weights, isolated and re-added vertices",
 BEYOND + "asymmetric adjacency, aliasing and stale data need multi-step histories.",
 ["rosemary/graphs/graphs.py"], [("symmetric adjacency dictionaries", "rosemary/graphs/graphs.py")],
 "online model checking of every operation of random histories against a set-based model"),
("G02", "Graph constructors and file loaders build the named graph",
 "complete_graph, petersen_graph, odd_graph, grid_graph, coprime_pairs_graph and random_graph build a graph with exactly the vertices and edges of the definition for every parameter; load_graph and load_dimacs_graph reproduce the graph described by any well-formed file.",
 "all parameters, including the smallest, and all well-formed files",
 BEYOND + "one-vertex and larger parameters are unsampled.",
 ["rosemary/graphs/graphs.py"], [("constructors and line parsers", "rosemary/graphs/graphs.py")],
 "compared with independent constructions; files written by the monitor and read back"),
("G03", "Traversals visit exactly the reachable vertices in a valid order",
 "breadth_first_search visits each vertex within the depth limit exactly once in order of distance from the start, depth_first_search visits each reachable vertex once in a genuine depth-first order, and the corresponding trees record a valid parent (and level) for every visited vertex. A start that is not a vertex is refused.",
 "all graphs (disconnected, single vertex, dense, with cycles), all starts and depth limits including 0",
 BEYOND + "order violations depend on the graph structure.",
 [GA + "traversal.py"], [("queue and stack discipline with visited sets", GA + "traversal.py")],
 "trace specification checked online: level order, parent validity, depth-first edge condition"),
("G04", "Connectivity answers are exact",
 "connected_components partitions the vertices into exactly the connected components, connected_component returns the component of a vertex, and is_connected (also restricted to an allowed set) holds exactly for connected graphs.",
 "all graphs including empty, edgeless and many-component ones, and all allowed subsets",
 BEYOND + "disconnected shapes are hardly sampled.",
 [GA + "connectivity.py", GA + "hamiltonian_paths.py"], [("repeated traversal of unvisited vertices", GA + "connectivity.py")],
 "compared with independent component labelling"),
("G05", "Shortest-path algorithms return exact distances and realising paths",
 "dijkstra, dijkstra_buckets, dijkstra_pairing_heap, bellman_ford, dijkstra_bidirectional, floyd_warshall and dijkstra_iterator return the exact distance of every reachable vertex, infinity otherwise, and predecessors or paths that realise it; dijkstra_iterator settles vertices in nondecreasing distance. Negative cycles (bellman_ford, floyd_warshall), non-integral bucket weights and unknown vertices raise ValueError.",
 "all weighted graphs: zero, huge, fractional and tied weights, disconnected graphs, all source/target pairs",
 BEYOND + "early termination and relaxation errors need particular weight patterns.",
 [GA + "paths.py", "rosemary/data_structures/heaps.py"], [("label settling, bidirectional stopping rule, bucket queue, heap decrease", GA + "paths.py")],
 "distances compared with exhaustive relaxation; predecessors walked and re-weighed"),
("G06", "Spanning trees are spanning, acyclic and of minimum weight",
 "prim, kruskal and cheriton_tarjan return a spanning tree of minimum total weight on connected graphs with the correct total (and the minimum spanning forest, or the root's component for prim, on others); gabow yields spanning trees in nondecreasing weight, each once, exactly the k lightest or all of them. Edges are reported in normalised, sorted form.",
 "all weighted graphs: ties, negative weights, disconnected and one-vertex graphs, all roots and k",
 BEYOND + "tie handling and tree exchange need particular weights.",
 [GA + "spanning_trees.py", "rosemary/data_structures/unionfind.py", "rosemary/data_structures/heaps.py"],
 [("cut and cycle rules, edge exchanges with inclusion/exclusion lists", GA + "spanning_trees.py")],
 "weight compared with an independent forest; acyclicity and spanning checked; gabow compared with full enumeration"),
("G07", "Steiner heuristics return valid trees within twice the optimum",
 "distance_network_heuristic and minimum_cost_paths_heuristic return a tree of graph edges that connects all terminals, whose leaves are all terminals, with its true total weight, never more than 2(1 - 1/t) times the optimum for t terminals.",
 "all connected positively weighted graphs and terminal sets (single, adjacent, all vertices)",
 BEYOND + "pruning and ratio failures need particular graphs.",
 [GA + "steiner_trees.py"], [("shortest paths between terminals, MST, pruning of non-terminal leaves", GA + "steiner_trees.py")],
 "trees verified and compared with an exact Steiner optimum by subset enumeration"),
("G08", "Clique algorithms: all maximal cliques once, maximum cliques optimal",
 "bron_kerbosch, bron_kerbosch_binary, tomita and maximal_cliques yield every maximal clique exactly once (the binary variant in lexicographic order); pardalos, ostergard, their binary variants and maximum_clique return a clique of maximum size, and maximum_weight_clique one of maximum weight, for default and given weights.",
 "all graphs: edgeless, complete, Moon-Moser, disconnected, with arbitrary vertex labels and positive weights",
 BEYOND + "pruning bounds fail on particular graphs.",
 [GA + "cliques.py"], [("pivoting, colour bounds, bit sets", GA + "cliques.py")],
 "compared with subset-table or independently pivoted enumeration"),
("G09", "Independent sets are independent, maximal, and maximum where promised",
 "branch_and_bound and maximum_independent_set return a maximum independent set, maximal_independent_sets yields every maximal one exactly once, and greedy and culberson return a maximal independent set with its size; greedy stays within the documented ratio.",
 "all graphs including edgeless and complete ones",
 BEYOND + "bounds fail on particular graphs.",
 [GA + "independent_sets.py"], [("branching with colouring bounds, minimum-degree greedy, truncated backtracking", GA + "independent_sets.py")],
 "compared with cliques of an independently built complement"),
("G10", "Colourings are proper and complete; exact methods reach the chromatic number",
 "dsatur, greedy_sequential, maxis, branch_and_bound, korman and exact_coloring assign every vertex a colour different from its neighbours' and report the number of colours used, as classes or as a map. The exact methods use the chromatic number of colours; dsatur is optimal on bipartite graphs and the greedy methods never exceed maximum degree + 1; a given vertex order is coloured first-fit and a second pass never uses more colours.",
 "all graphs, all options (classes, limits, passes, orders)",
 BEYOND + "bounds and class bookkeeping fail on particular graphs and options.",
 [GA + "coloring.py", GA + "independent_sets.py"], [("saturation ordering, backtracking bounds, repeated extraction of independent sets", GA + "coloring.py")],
 "properness checked edge by edge; chromatic number by inclusion-exclusion"),
("G11", "Hamiltonian path generators and counters agree with the definition",
 "hamiltonian_paths and hamiltonian_paths_con yield every directed Hamiltonian path exactly once, every counting variant returns their number, and walks returns the exact number of walks of the given length inside the allowed set for each end vertex.",
 "all graphs, including single vertices, disconnected ones, stars and cycles",
 BEYOND + "connectivity pruning fails on particular graphs.",
 [GA + "hamiltonian_paths.py"], [("backtracking with connectivity pruning, bit masks", GA + "hamiltonian_paths.py")],
 "compared with exhaustive search and subset dynamic programming"),
("G12", "Graphic-sequence tests decide realisability exactly",
 "is_graphic and is_graphic_erdos_gallai return True exactly for the degree sequences of simple graphs, in any order of the entries, and leave the input unchanged; is_graphic returns False for sequences with negative entries.",
 "all integer sequences: odd sums, zeros, near-misses, large entries, the empty sequence",
 BEYOND + "borderline Erdos-Gallai inequalities are rare.",
 [GA + "degree_sequences.py"], [("Havel-Hakimi reduction, Erdos-Gallai inequalities", GA + "degree_sequences.py")],
 "compared with all graphs on up to 5 vertices and an exhaustive realisation search"),
]

# What the quick workload explores (thorough: about eight times the random cases, larger tops where a pair is given)
BOUNDS = {
"N01": "exhaustive pairs around 0, Fibonacci pairs, k-th powers +-1 to k = 70, values to 300+ bits, all negative/zero refusals",
"N02": "exhaustive m <= 60 / a in [-30, 90), random to hundreds of bits, 1-6 moduli, all odd m < 120 for Jacobi",
"N03": "all n < 6000, table edge 10^6, the known psi thresholds and Carmichael/strong-pseudoprime lists, adversarial composites to 120 bits",
"N04": "all bounds < 1500, all small (a, b), table edge 999983/10^6, square-of-prime and segment edges to 10^12, the 10^7 crossover",
"N05": "all n < 400, random to 3e7 (thorough 2e8), values around squares, cubes and table edges; 7000 arguments beyond the built-in table shaped so that floor quotients meet exact powers",
"N06": "all |n| < 3000, planted composites to 60 bits and beyond (powers, factorials), every option; intervals to 10^10",
"N07": "all n < 4000, semiprimes of 10-60 bits, close pairs to 160 bits; success of the random methods judged as rates",
"N08": "all n < 1500, planted shapes to 10^12+, k <= 9, factorials to 4000, primorials to 20000",
"N09": "all bounds < 260, tables to 20011, k <= 5, windows to 10^12",
"N10": "all n < 1500, squares/pronics to 240^2, random to 10^6, published values at 10^6 and 10^7",
"N11": "all n up to 20500-bound totients, random totients of planted integers to 10^11",
"N12": "all n < 4000, boundary powers to 300 bits, factored inputs",
"N13": "exhaustive (a, n) for small n, all prime powers small, planted roots to 80 bits",
"N14": "every residue of every small modulus, planted generators and logs for moduli to 10^6 and above",
"N15": "all small (d, p, q) incl. negative, random d to 10^5+, huge d with short prefix",
"N16": "all small D, all small |N|, exhaustive search below the class bound; known large-period D",
"N17": "exhaustive small n and bounds, all subsets of small ranges, planted progressions",
"A01": "shapes 1..6 x 1..6, determinants to 9x9, small/huge/rational/zero-heavy entries",
"A02": "degrees on both sides of the Karatsuba threshold, all coefficient kinds, scalars and lists on both sides",
"A03": "lengths 1..300, thresholds 1..64, precisions to 40, eta/delta to several hundred terms",
"C01": "all multisets of <= 4-5 elements exhaustive shapes, random to 7; combinations to n = 40 by prefix",
"C02": "all n <= 18 with every number of parts, random part lists, totals to n = 33 by count",
"C03": "Bell to 60, Stirling to 26, binomials to 3000, partitions to 400, boards to 28-36 cells by profile DP",
"C04": "0..40 items in seven families, capacities at and around subset sums",
"C05": "2..9 points for exact methods, 2..25 heuristics, asymmetric matrices for the exact ones",
"C06": "random set systems with planted covers, Langford to n = 8, boards, Latin squares, 9x9 sudoku with one or more solutions",
"C07": "1-10 letters, up to six words on either side, planted wide sums",
"D01": "histories of up to 150 operations, a 30000-element chain, plus heaps driven by real Dijkstra/Prim clients",
"D02": "histories of up to 3n unions, n to hundreds",
"D03": "all small sizes and powers of two +-1, random marking histories",
"X01": "239 registered library calls, random histories, all interleavings of two iterators sampled, 4 threads with a 2 us switch interval",
"X03": "178 operation/shape families at 3-4 sizes each (n to 2400 for structures and graphs, 4096-bit integers, 10^5 to 10^8 for searches and sieves)",
"X02": "histories of 80 calls, unhashable-free argument tuples, raising and falsy functions",
"G01": "540 histories of up to 40 mutations with full audits, graphs to 40 vertices, deletions from graphs of 900",
"G02": "all small parameters, random graph parameters, files with comments and repeated edges",
"G03": "18 graph families, 1..60 vertices, every depth limit class; 11 sparse families of 100..1500 vertices (paths thousands of levels deep)",
"G04": "18 graph families, random allowed sets; sparse graphs to 2000 vertices with one to hundreds of components",
"G05": "18 families x weight kinds (unit, small, tied, zero, huge, fractional, float), n to 60, every start; sparse families to 500 vertices against a heap Dijkstra of the harness",
"G06": "n to 50, ties and negative weights; gabow against all spanning trees of graphs to ~9 vertices and, to 30 vertices, against the k lightest by Lawler partition; forests of graphs to 900 vertices",
"G07": "exact Steiner optimum by subsets for n <= 8 and by Dreyfus-Wagner to 150 vertices with 6 terminals, structural checks to n = 30",
"G08": "n to 24 incl. Moon-Moser; subset tables for n <= 12; cographs, interval graphs, multipartite and disjoint cliques to 60 vertices, whose answers follow from the construction",
"G09": "n to 22 exact; cographs, interval and multipartite graphs to 55 vertices with known answers; greedy to 300",
"G10": "n to 30, complete graphs to 104, edgeless to 120; perfect graphs to 45 vertices (chromatic = clique number), sparse ones to 300",
"G11": "n to 7 with explicit paths, n to 11 by subset DP, families of known count to 40 vertices, walks to length 120",
"G12": "every graph on <= 5 vertices, all short sequences, random near-graphic sequences to 60 entries; sequences of 200 entries: threshold sequences (extreme) and their one-unit perturbations",
}

# the units of rt/props/n20_large.py, c20_large.py and g20_large.py: the same property far from the origin
LARGE = {
"N01": "operands to 30000 bits, gcd lists of thousands of bits, roots, logarithms and valuations to thousands",
"N02": "moduli and residues to 1500 bits",
"N03": "Carmichael and strong-liar composites, Fermat and Proth forms to 256 bits, next primes beyond 10^6",
"N04": "every sieve to 1.3-5 million, segments to 5*10^6",
"N05": "counts to 4*10^8 and the published value at 10^8",
"N06": "products of up to nine primes just past the table, powers to exponent 900, intervals at 10^8",
"N07": "relation matrices of 90 columns, factor bases of 168 primes, continued fraction factoring of 72-bit to 88-bit semiprimes, close factors of 300 bits",
"N08": "factorials and primorials to 40000",
"N09": "tables to 125000, windows at 10^9 and 10^12",
"N10": "sums to 10^8 and differences F(n) - F(n - 1) at squares, pronics and random places to 10^10",
"N11": "totients 2^k to k = 130, k!, values with thousands of preimages",
"N12": "powers to 2500 bits and their neighbours",
"N13": "moduli to 521 bits, p - 1 with long powers of two, many square roots through many factors",
"N14": "groups of order far beyond factoring with known p - 1, logarithms and orders by construction",
"N15": "radicands to 10^9 with whole periods, and to 10^240 next to squares",
"N16": "families of known least solutions with 90-bit parameters, classes to |N| = 10^7, solutions to 10^40",
"N17": "almost-prime and smooth searches to 85-bit bounds",
"A01": "shapes to 130 rows or 900 columns, determinants of 30+ rows with planted value, entries 10^-40 and 2^-700",
"A02": "degrees to hundreds, gcds built from remainder sequences with large degree drops, coefficients of hundreds of digits",
"A03": "operands to 1300 terms, powers of hundreds",
"C01": "whole enumerations of tens of thousands of items",
"C02": "whole enumerations of tens of thousands of partitions, parts to hundreds",
"C03": "binomials of 300-bit arguments, tables to 320, boards of hundreds of rows, necklaces of 3000 beads",
"C04": "50+ items, capacities and values to 10^20",
"C05": "11 points for branch and bound, 70 for the heuristics",
"C06": "universes of hundreds of elements, counts far beyond 2^64",
"C07": "words of 140 digits, many addends",
"D02": "thousands of elements, merged as chains, stars and tournaments",
"D03": "sizes to 131072",
"G01": "dense graphs on 160 vertices: derived graphs, matrices, orders",
"G02": "complete and coprime graphs to 300 vertices, grids to 36 x 36, random graphs of 300, files of 1500 vertices",
"G03": "dense graphs to 350 vertices", "G04": "unions of dense graphs",
"G05": "hubs of 1300 spokes, late-improvement instances, gaps beyond 4096, weights at both ends of the float range, negative cycles of 10^-15",
"G06": "k lightest trees over long chains of exclusions, weights in units of 2^-1000 to 10^301, dense graphs of 160",
"G07": "all vertices terminals (equals the spanning tree), half of them (closure bounds), extreme scales",
"G08": "planted cliques in 480 vertices, interval graphs on 200, weighted to 480",
"G09": "independence numbers to 50, dense graphs of 150",
"G10": "k-partite graphs with a k-clique to 60 vertices where dsatur is not optimal, 100 colors",
"G11": "fans, wheels, ladders to 24 vertices with every path listed", "G12": "sequences of 900 entries",
}

HIST = {"D01", "D02", "D03", "X01", "X02", "G01"}


def planted():
    rows = []
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        cell = [str(meta[k]).replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs")]
        rows.append("| %s | %s | %s | %s |" % (d, meta["property"], cell[0], cell[1]))
    return ("<!-- SEEDED -->\n\n%d kept. The quick check of the property named in the second column reports each of "
            "them.\n\n| id | property, caught by | what it breaks | what it needs |\n|---|---|---|---|\n%s\n"
            % (len(rows), "\n".join(rows)))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i, title, st, q, why, files, mech, tech in P:
            over = ["histories", "inputs"] if i in HIST else ["inputs"]
            if i == "X01":
                over = ["histories", "schedules", "inputs"]
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({
                "id": i, "title": title, "statement": st,
                "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": ["public functions and objects of the listed modules"],
                            "hook_needed": None}}) + "\n")
    design = os.path.join(HERE, "DESIGN.md")
    text = open(design).read()
    head, rest = text.split("<!-- PROPS -->")
    tail = rest.split("<!-- /PROPS -->")[1]
    body = []
    for i, title, st, q, why, files, mech, tech in P:
        body.append("### %s %s\n\n*Specified:* %s\n\n*Oracle:* %s.\n\n*Quantified over:* %s. *Explored (quick):* %s.\n\n"
                    "*Beyond the tests:* %s\n" % (i, title, st, tech, q, BOUNDS[i] + ("; far from the origin: " + LARGE[i] if i in LARGE else ""), why))
    tail = tail.split("<!-- SEEDED -->")[0] + planted()
    with open(design, "w") as f:
        f.write(head + "<!-- PROPS -->\n\n" + "\n".join(body) + "\n<!-- /PROPS -->" + tail)
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; assert sys.version_info >= (3, 12)\"",
         "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the monitors wrap the public API from outside (see DESIGN.md)."}
    for i, title, st, q, why, files, mech, tech in P:
        m["checks"].append({
            "property": i, "quick_cmd": "bash check.sh %s" % i,
            "thorough_cmd": "bash check.sh %s --tier thorough" % i,
            "technique": "runtime monitoring: guarded calls under exhaustive-small, adversarial and random workloads; " + tech,
            "level": "exploration",
            "level_note": "Held on every execution observed (counts in the evidence file). Trusts the monitors' own "
                          "oracles (rt/oracles.py, rt/graphgen.py and the models in rt/props), CPython, and the domain "
                          "stated in the property; inputs outside it are not judged."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


main()
