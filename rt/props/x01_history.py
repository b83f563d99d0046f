"""X01: a call depends on its arguments only.  Histories: results in a long-lived process, with earlier
results and arguments overwritten by the caller, equal those of a fresh process.  Interleavings:
generators advanced alternately, and calls running in concurrent threads, do not influence each other."""
import bisect
import itertools
import os
import random
import signal
import sys
import threading
from fractions import Fraction

from rt import graphgen as GG
from rt import oracles as O
from rt.core import Harness, StepLimit, short, unit

from rosemary.algebra.matrices import matrices as MA
from rosemary.algebra.polynomials import algorithms as PL
from rosemary.algebra.polynomials import polynomials as PP
from rosemary.algebra.power_series import power_series as PS
from rosemary.combinatorics.enumeration import enumeration as EN
from rosemary.combinatorics.generation import combinations as CB
from rosemary.combinatorics.generation import partitions as PT
from rosemary.combinatorics.generation import permutations as PM
from rosemary.combinatorics.generation import tuples as TU
from rosemary.combinatorics.optimization import exact_cover as EC
from rosemary.combinatorics.optimization import knapsack as KN
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.combinatorics.recreational import alphametics as AL
from rosemary.data_structures import bit_sieve as BS
from rosemary.data_structures import heaps as HE
from rosemary.data_structures import unionfind as UF
from rosemary.graphs import graphs as GR
from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import degree_sequences as DS
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import independent_sets as IS
from rosemary.graphs.algorithms import paths as PA
from rosemary.graphs.algorithms import spanning_trees as ST
from rosemary.graphs.algorithms import steiner_trees as SN
from rosemary.graphs.algorithms import traversal as TR
from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import classification as KL
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import core as NC
from rosemary.number_theory import misc as MI
from rosemary.number_theory import zn_arithmetic as ZN
from rosemary.number_theory.arithmetic_functions import functions as AF
from rosemary.number_theory.arithmetic_functions import inverse_functions as IF
from rosemary.number_theory.arithmetic_functions import sieves as SV
from rosemary.number_theory.arithmetic_functions import sums as SU
from rosemary.number_theory.diophantine_equations import pell as PE
from rosemary.number_theory.factorization import algorithms as FA
from rosemary.number_theory.factorization import factorization as FF
from rosemary.number_theory.primes import primality as PR
from rosemary.number_theory.primes import prime_counting as PC
from rosemary.number_theory.primes import sieves as PV


# ------------------------------------------------------------------------------------- registry
CALLS = {}                      # label -> (make, limit of items drained from an iterator)


def reg(label, make, limit=60):
    CALLS[label] = (make, limit)


def ints(r, hi=10**6):
    return r.choice((r.randint(1, min(hi, 40)), r.randint(1, min(hi, 2000)), r.randint(1, hi)))


def one(mod, names, hi=10**6, lo=1):
    for n in names.split():
        reg(n, lambda r, f=getattr(mod, n): (f, (max(lo, ints(r, hi)),), {}))


def fac_of(n):
    out, p = [], 2
    while n > 1:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out.append((p, e))
        p += 1
    return out


one(NC, "integer_sqrt bit_count", 10**30)
one(FF, "factor", 10**14, 2)
one(FF, "divisors prime_divisors unitary_divisors divisor_pairs xdivisors", 10**8)
for _n in "divisors prime_divisors unitary_divisors divisor_pairs xdivisors".split():
    reg(_n + "(factorization)", lambda r, f=getattr(FF, _n): (f, (), {"factorization": fac_of(ints(r, 5000) + 1)}))
reg("factored_range", lambda r: (FF.factored_range, (a := ints(r, 10**5), a + r.randint(0, 60)), {}))
reg("factor_back", lambda r: (FF.factor_back, (fac_of(ints(r, 5000) + 1),), {}))
one(AF, "euler_phi moebius_mu divisor_sigma divisor_tau carmichael_lambda", 10**9)
for _n in "euler_phi moebius_mu divisor_sigma divisor_tau carmichael_lambda".split():
    reg(_n + "(factorization)", lambda r, f=getattr(AF, _n): (f, (fac_of(ints(r, 5000) + 1),), {}))
one(AF, "factorial", 300)
one(AF, "primorial", 200)
one(IF, "euler_phi_inverse inverse_phi", 3000)
reg("euler_phi_inverse(factorization)", lambda r: (IF.euler_phi_inverse, (fac_of(2 * r.randint(1, 400)),), {}))
one(SV, "euler_phi_list moebius_list sigma_list tau_list totient_list", 800)
reg("moebius_range", lambda r: (SV.moebius_range, (a := ints(r, 10**5), a + r.randint(1, 80)), {}))
one(SU, "euler_phi_sum euler_phi_weighted_sum moebius_sum mertens sigma_sum", 3000)
reg("has_three_term_ap", lambda r: (AP.has_three_term_ap, (sorted(r.sample(range(90), r.randint(3, 12))),), {}))
reg("longest_ap", lambda r: (AP.longest_ap, (sorted(r.sample(range(60), r.randint(3, 14))),), {}))
one(KL, "is_square is_power is_squarefree is_power2", 10**9, 2)
one(KL, "is_factorial", 10**6)
reg("is_power(factorization)", lambda r: (KL.is_power, ([(p, 2 * e) for p, e in fac_of(ints(r, 900) + 1)],), {}))
reg("gcd_list", lambda r: (NC.gcd_list, ([ints(r) for _ in range(r.randint(1, 5))],), {}))
reg("lcm_list", lambda r: (NC.lcm_list, ([ints(r, 999) for _ in range(r.randint(1, 5))],), {}))
reg("ext_gcd", lambda r: (NC.ext_gcd, (ints(r), ints(r)), {}))


def congruences(r):
    ms = r.sample((4, 9, 5, 7, 11, 13, 17), r.randint(2, 5))
    return [(r.randrange(m), m) for m in ms], ms


reg("chinese", lambda r: (NC.chinese, (congruences(r)[0],), {}))
reg("crt_preconditioning_data", lambda r: (NC.crt_preconditioning_data, (congruences(r)[1],), {}))


def preconditioned(r):
    c, ms = congruences(r)
    return NC.chinese_preconditioned, (c, NC.crt_preconditioning_data(ms)), {}


reg("chinese_preconditioned", preconditioned)
reg("jacobi_symbol", lambda r: (NC.jacobi_symbol, (ints(r), 2 * ints(r) + 1), {}))
one(MI, "bernoulli_list", 16)
one(MI, "maximize_divisors", 3000)
reg("largest_divisor", lambda r: (MI.largest_divisor, (ints(r, 5000), r.randint(1, 300)), {}))
SMALLP = [p for p in range(3, 400) if all(p % q for q in range(2, p))]
reg("sqrts_mod_p", lambda r: (ZN.sqrts_mod_p, (r.randint(0, 500), r.choice(SMALLP)), {}))
reg("sqrts_mod_n", lambda r: (ZN.sqrts_mod_n, (r.randint(0, 50)**2, r.randint(2, 900)), {}))


def with_fac(r):
    n = r.randint(2, 900)
    return ZN.sqrts_mod_n, (r.randint(0, 50)**2, n, fac_of(n)), {}


reg("sqrts_mod_n(factorization)", with_fac)
reg("linear_congruence", lambda r: (ZN.linear_congruence, (r.randint(0, 90), r.randint(0, 90), r.randint(1, 90)), {}))
reg("quadratic_congruence", lambda r: (ZN.quadratic_congruence, ([r.randint(0, 9) for _ in range(3)], r.randint(2, 200)), {}))
reg("nth_roots_of_unity_mod_p", lambda r: (ZN.nth_roots_of_unity_mod_p, (r.randint(1, 12), r.choice(SMALLP)), {}))
reg("nth_roots_of_minus1_mod_p", lambda r: (ZN.nth_roots_of_minus1_mod_p, (r.randint(1, 12), r.choice(SMALLP)), {}))
reg("fibonacci_primitive_roots", lambda r: (ZN.fibonacci_primitive_roots, (r.choice(SMALLP[3:]),), {}))
reg("primitive_root", lambda r: (ZN.primitive_root, (r.choice(SMALLP),), {}))


def with_phi(r):
    p = r.choice(SMALLP)
    return ZN.primitive_root, (p, [(p, 1)], p - 1, [q for q, _ in fac_of(p - 1)]), {}


reg("primitive_root(phi)", with_phi)
reg("multiplicative_order", lambda r: (ZN.multiplicative_order, (2, 2 * r.randint(1, 4000) + 1), {}))


def dlog(r):
    p = r.choice(SMALLP)
    g = next(g for g in range(2, p) if len({pow(g, i, p) for i in range(p - 1)}) == p - 1)
    return ZN.discrete_log, (g, r.randint(1, p - 1), p), {}


reg("discrete_log", dlog)
one(PR, "is_prime next_prime", 10**8)
one(PR, "is_probable_prime next_probable_prime", 10**18)
one(PC, "prime_count legendre meissel lehmer lmo prime_sum lmo_bit", 10**6)
one(PC, "pi_table", 3000, 2)
one(PV, "primes eratosthenes1 eratosthenes2 luo chartres pritchard", 5000, 2)
one(PV, "primes_first_n", 700)
reg("prime_range", lambda r: (PV.prime_range, (a := ints(r, 10**6), a + r.randint(0, 400)), {}))
reg("trial_division", lambda r: (FA.trial_division, (ints(r, 10**8) + 1,), {}))
reg("lehman", lambda r: (FA.lehman, (r.choice(SMALLP) * r.choice(SMALLP),), {}))
reg("fermat", lambda r: (FA.fermat, (r.choice(SMALLP) * r.choice(SMALLP),), {}))
reg("smooth_factor", lambda r: (FA.smooth_factor, (2**r.randint(0, 5) * 3**r.randint(0, 5) * 7, [2, 3, 5, 7]), {}))


def nonsquare(r):
    return r.choice([d for d in range(2, 400) if not KL.is_square(d)])


reg("pell_fundamental_solution", lambda r: (PE.pell_fundamental_solution, (nonsquare(r),), {}))
reg("pell_minimal_positive_solutions", lambda r: (PE.pell_minimal_positive_solutions, (r.choice((2, 3, 5, 6, 7, 8, 10)), r.randint(1, 60)), {}))
reg("pell_solution_generator", lambda r: (PE.pell_solution_generator, (r.choice((2, 3, 5, 6, 7, 8, 10)), r.choice((1, 4, 9, 36)), 10**6), {}))
reg("convergents", lambda r: (lambda d: CF.QuadraticIrrational(d).convergents(), (nonsquare(r),), {}), 20)
reg("partial_quotients", lambda r: (lambda d: CF.QuadraticIrrational(d, 1, 3).partial_quotients(), (nonsquare(r),), {}), 20)


# algebra
def poly(r, n=8):
    return [r.randint(-9, 9) for _ in range(r.randint(1, n))] + [r.randint(1, 9)]


for _n in "mul_classical mul_karatsuba list_add list_subtract".split():
    reg(_n, lambda r, f=getattr(PL, _n): (f, (poly(r, 60), poly(r, 60)), {}))
reg("power_jcp", lambda r: (PL.power_jcp, (poly(r), r.randint(0, 6)), {}))
for _n, _f in (("poly add", lambda a, b: a + b), ("poly mul", lambda a, b: a * b), ("poly sub", lambda a, b: a - b),
               ("poly pseudo_quo_rem", lambda a, b: a.pseudo_quo_rem(b)), ("poly gcd", lambda a, b: a.gcd(b)),
               ("poly neg", lambda a, b: -a), ("poly coefficients", lambda a, b: a.coefficients())):
    reg(_n, lambda r, f=_f: (f, (PP.PolyZZ(poly(r)), PP.PolyZZ(poly(r))), {}))
reg("poly quo_rem", lambda r: (lambda a, b: a.quo_rem(b), (PP.PolyZZ(poly(r)), PP.PolyZZ(poly(r)[:-1] + [1])), {}))
reg("poly pow", lambda r: (lambda a, k: a**k, (PP.PolyZZ(poly(r)), r.randint(0, 5)), {}))
reg("poly primitive_part", lambda r: (lambda a: a.primitive_part(), (PP.PolyZZ(poly(r)),), {}))


def matrix(r, n=None, m=None):
    n, m = n or r.randint(1, 4), m or r.randint(1, 4)
    return MA.MatrixZZ([[r.randint(-9, 9) for _ in range(m)] for _ in range(n)])


for _n, _f in (("matrix add", lambda a, b: a + b), ("matrix mul", lambda a, b: a * b), ("matrix sub", lambda a, b: a - b),
               ("matrix neg", lambda a, b: -a), ("matrix det", lambda a, b: a.determinant())):
    reg(_n, lambda r, f=_f: (f, (matrix(r, k := r.randint(1, 4), k), matrix(r, k, k)), {}))
reg("matrix scale", lambda r: (lambda a, c: c * a, (matrix(r), r.randint(-5, 5)), {}))
reg("eta_series", lambda r: (PS.eta_series, (r.randint(2, 90),), {}))
reg("delta_series", lambda r: (PS.delta_series, (r.randint(2, 40),), {}))
reg("ps_invert", lambda r: (PS.ps_invert, ([1] + poly(r, 20),), {}))
reg("ps_power", lambda r: (PS.ps_power, ([1] + poly(r, 20), r.randint(1, 6)), {}))
reg("ps_mult_karatsuba", lambda r: (PS.ps_mult_karatsuba, (poly(r, 70), poly(r, 70), 8), {}))

# combinatorics
one(EN, "bell_number", 25)
one(EN, "partition_number partition_list", 60)
reg("stirling_number2", lambda r: (EN.stirling_number2, (r.randint(0, 14), r.randint(0, 14)), {}))
reg("binomial", lambda r: (EN.binomial, (r.randint(0, 60), r.randint(0, 60)), {}))
reg("multinomial", lambda r: (EN.multinomial, (sum(k := [r.randint(0, 6) for _ in range(3)]), k), {}))
reg("bipartitions", lambda r: (EN.bipartitions, (r.randint(0, 8), r.randint(0, 8)), {}))
reg("rth_power_partition_number", lambda r: (EN.rth_power_partition_number, (r.randint(1, 3), r.randint(1, 60)), {}))
reg("number_of_domino_tilings", lambda r: (EN.number_of_domino_tilings, (r.randint(1, 8), r.randint(1, 8)), {}))
reg("triomino_tilings", lambda r: (EN.triomino_tilings, (r.randint(1, 5), r.randint(1, 6)), {}))
reg("necklaces", lambda r: (EN.necklaces, (r.randint(1, 12), r.randint(1, 5)), {}))
reg("combinations", lambda r: (CB.combinations, (r.randint(1, 7), r.randint(1, 4)), {}))
reg("integer_partitions", lambda r: (PT.integer_partitions, (r.randint(1, 16),), {}))
reg("integer_partitions(num_parts)", lambda r: (PT.integer_partitions, (r.randint(4, 14),), {"num_parts": r.randint(1, 4)}))
reg("integer_partitions(parts)", lambda r: (PT.integer_partitions, (r.randint(1, 14),), {"parts": [1, 2, 5, 7]}))
reg("integer_partitions(distinct)", lambda r: (PT.integer_partitions, (r.randint(1, 18),), {"distinct": True}))
for _n in "phillips knuth_algorithm_l knuth_algorithm_l_variations".split():
    reg(_n, lambda r, f=getattr(PM, _n): (f, (sorted(r.sample(range(20), r.randint(1, 5))),), {}), 130)
reg("knuth_algorithm_l_rvariations", lambda r: (PM.knuth_algorithm_l_rvariations, (sorted(r.sample(range(20), 5)), r.randint(1, 4)), {}), 130)
reg("n_tuples", lambda r: (TU.n_tuples, (n := r.randint(1, 4), [r.randint(1, 3) for _ in range(n)]), {}), 90)


def cover(r):
    n = r.randint(1, 7)
    sets = [r.sample(range(n), r.randint(1, n)) for _ in range(r.randint(1, 12))]
    return list(range(n)), sets


reg("algorithmx", lambda r: (EC.algorithmx, (*cover(r),), {}))
reg("algorithm_dlx", lambda r: (EC.algorithm_dlx, (*cover(r),), {}))
reg("langford_pairings", lambda r: (EC.langford_pairings, (r.choice((3, 4, 5)),), {}), 40)
reg("domino_tilings", lambda r: (EC.domino_tilings, (r.choice((2, 4)),), {}), 20)


def items(r):
    return [(r.randint(1, 30), r.randint(1, 15)) for _ in range(r.randint(1, 9))], r.randint(0, 60)


for _n in "depth_first dynamic_programming branch_and_bound_depth_first".split():
    reg("knapsack " + _n, lambda r, f=getattr(KN, _n): (f, items(r), {}))


def points(r):
    return [(r.randint(0, 99), r.randint(0, 99)) for _ in range(r.randint(4, 7))]


for _n in "depth_first branch_and_bound euclidean_distance_matrix".split():
    reg("tsp " + _n, lambda r, f=getattr(TS, _n): (f, (points(r),), {}))
reg("alphametics", lambda r: (AL.solve, (r.choice((["ab", "ba"], ["xy", "zx"], ["ab", "b", "c"])), [r.choice(("cbc", "xxy", "bca"))]), {}))


# graphs
def graph(r, n=None, kind=None, weights="tiny"):
    m = GG.model(r, n or r.randint(2, 8), kind=kind, weights=weights)
    return GG.build(r, m)


def some_vertex(r, g):
    return r.choice(sorted(g.vertex_set()))


def graph_call(label, f, vertices=0, **kw):
    opt = {k: v for k, v in kw.items() if k in ("n", "kind", "weights")}
    rest = {k: v for k, v in kw.items() if k not in opt}

    def make(r):
        g = graph(r, **opt)
        return f, (g,) + tuple(some_vertex(r, g) for _ in range(vertices)), dict(rest)
    reg(label, make)


for _n in "bron_kerbosch bron_kerbosch_binary tomita maximal_cliques pardalos pardalos_binary ostergard ostergard_binary maximum_clique".split():
    graph_call(_n, getattr(CL, _n))


def weighted(r):
    g = graph(r)
    return CL.maximum_weight_clique, (g, {v: r.randint(1, 9) for v in g.vertex_set()}), {}


reg("maximum_weight_clique", weighted)
for _n in "dsatur greedy_sequential maxis branch_and_bound korman".split():
    graph_call("coloring " + _n, getattr(CO, _n))
    graph_call("coloring map " + _n, getattr(CO, _n), classes=False)
graph_call("connected_components", CN.connected_components)
graph_call("connected_component", CN.connected_component, 1)
graph_call("is_connected", CN.is_connected)
reg("is_graphic", lambda r: (DS.is_graphic, ([r.randint(0, 5) for _ in range(r.randint(1, 9))],), {}))
reg("is_graphic_erdos_gallai", lambda r: (DS.is_graphic_erdos_gallai, ([r.randint(0, 5) for _ in range(r.randint(1, 9))],), {}))
for _n in ("hamiltonian_paths hamiltonian_paths_con number_of_hamiltonian_paths number_of_hamiltonian_paths_bits "
           "number_of_hamiltonian_paths_bits_con number_of_hamiltonian_paths5 number_of_hamiltonian_paths5_con").split():
    graph_call(_n, getattr(HP, _n), n=5)
for _n in "branch_and_bound greedy culberson maximum_independent_set maximal_independent_sets".split():
    graph_call("independent " + _n, getattr(IS, _n), n=5)
for _n in "dijkstra dijkstra_iterator dijkstra_buckets dijkstra_pairing_heap bellman_ford".split():
    graph_call(_n, getattr(PA, _n), 1)
graph_call("dijkstra_bidirectional", PA.dijkstra_bidirectional, 2, kind="connected")
graph_call("floyd_warshall", PA.floyd_warshall)
for _n in "prim kruskal gabow".split():
    graph_call(_n, getattr(ST, _n), kind="connected")
for _n in "breadth_first_search breadth_first_search_tree depth_first_search depth_first_search_tree".split():
    graph_call(_n, getattr(TR, _n), 1)


def steiner(f):
    def make(r):
        g = graph(r, kind="connected")
        vs = sorted(g.vertex_set())
        return f, (g, r.sample(vs, r.randint(1, len(vs)))), {}
    return make


reg("distance_network_heuristic", steiner(SN.distance_network_heuristic))
reg("minimum_cost_paths_heuristic", steiner(SN.minimum_cost_paths_heuristic))
for _n in "copy vertices edges vertex_set edge_set leaves maximum_degree minimum_degree adjacency_matrix degree_matrix laplacian_matrix complement".split():
    reg("graph " + _n, lambda r, n=_n: (lambda g: getattr(g, n)(), (graph(r),), {}))
for _n in "neighbors closed_neighborhood remove_vertex remove_neighborhood remove_closed_neighborhood degree".split():
    reg("graph " + _n, lambda r, n=_n: (lambda g, v: getattr(g, n)(v), (g := graph(r), some_vertex(r, g)), {}))
reg("graph induced_subgraph", lambda r: (lambda g, v: g.induced_subgraph(v), (g := graph(r), sorted(g.vertex_set())[::2]), {}))
reg("complete_graph", lambda r: (GR.complete_graph, (r.randint(1, 7),), {}))
reg("petersen_graph", lambda r: (GR.petersen_graph, (), {}))
reg("grid_graph", lambda r: (GR.grid_graph, (r.randint(1, 4),), {}))
reg("coprime_pairs_graph", lambda r: (GR.coprime_pairs_graph, (r.randint(1, 12),), {}))
reg("odd_graph", lambda r: (GR.odd_graph, (r.randint(2, 4),), {}))


# structures: a whole client per call
def sort_leftist(vals):
    h = HE.LeftistHeap(vals)
    return [h.delete_min() for _ in range(len(vals))]


def union_client(n, pairs):
    u = UF.UnionFind(list(range(n)))
    for a, b in pairs:
        u.union(u.find(a), u.find(b))
    return [[u.find(a) == u.find(b) for b in range(n)] for a in range(n)]


reg("LeftistHeap client", lambda r: (sort_leftist, ([r.randint(0, 9) for _ in range(r.randint(0, 12))],), {}))
reg("UnionFind client", lambda r: (union_client, (9, [(r.randrange(9), r.randrange(9)) for _ in range(6)]), {}))


def sieve_client(cls, n, ps):
    s = cls(n)
    out = [s.partial_sum(n)]
    for p in ps:
        s.mark_multiples(p)
        out.append(s.partial_sum(n))
    return out


reg("BITSieve client", lambda r: (sieve_client, (BS.BITSieve, r.randint(10, 90), [2, 3, 5]), {}))
reg("BITSieveArray client", lambda r: (sieve_client, (BS.BITSieveArray, r.randint(10, 90), [2, 3, 5]), {}))


# results that depend on the random module: seeded before the call, and left out of the concurrent units
RANDOM = {"independent greedy", "hamiltonian_paths", "hamiltonian_paths_con", "independent culberson",
          "sqrts_mod_p", "nth_roots_of_unity_mod_p", "nth_roots_of_minus1_mod_p"}


# ------------------------------------------------------------------------------------- values
def norm(x, limit, depth=0):
    if depth > 12:
        return "deep"
    if isinstance(x, (bool, int, str, float, Fraction, type(None))):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return "%s(%s)" % (type(x).__name__, ",".join(norm(y, limit, depth + 1) for y in x))
    if isinstance(x, dict):
        return "dict(%s)" % ",".join(sorted(norm(k, limit, depth + 1) + ":" + norm(v, limit, depth + 1) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return "set(%s)" % ",".join(sorted(norm(y, limit, depth + 1) for y in x))
    if hasattr(x, "graph_dict"):
        return "graph(%s)" % norm(GG.read(x), limit, depth + 1)
    if hasattr(x, "coefficients") and callable(x.coefficients):
        return "poly(%s,%s)" % (x.variable, norm(x.coefficients(), limit, depth + 1))
    if isinstance(x, MA.Matrix):
        return "matrix(%s)" % norm([[x[i, j] for j in range(x.num_cols)] for i in range(x.num_rows)] if hasattr(x, "num_cols") else repr(x), limit, depth + 1)
    if hasattr(x, "__next__") or hasattr(x, "__iter__"):
        return "iter(%s)" % ",".join(norm(y, limit, depth + 1) for y in itertools.islice(x, limit))
    return "<%s>" % type(x).__name__


def overwrite(x, depth=0):
    """What a caller may do to a value it owns."""
    if depth > 6:
        return
    try:
        if isinstance(x, list):
            for y in x[:20]:
                overwrite(y, depth + 1)
            x.reverse()
            x.append(-7)
            if len(x) > 2:
                x[0] = -1
        elif isinstance(x, tuple):
            for y in x[:20]:
                overwrite(y, depth + 1)
        elif isinstance(x, dict):
            for y in list(x.values())[:20]:
                overwrite(y, depth + 1)
            for k in list(x)[:2]:
                del x[k]
            x[-99] = -99
        elif isinstance(x, set):
            x.clear()
            x.add(-99)
        elif hasattr(x, "graph_dict"):
            for v in list(x.vertex_set())[:2]:
                x.delete_vertex(v)
            x.add_edge(-5, -6, 77)
        elif isinstance(x, MA.Matrix):
            x[0, 0] = 10**6
        elif hasattr(x, "close"):
            x.close()
    except (TypeError, ValueError, AttributeError, IndexError, KeyError):
        pass


def evaluate(label, seed, shared=None):
    make, limit = CALLS[label]
    fn, args, kw = shared or make(random.Random("%s|%s" % (label, seed)))
    if label in RANDOM:
        random.seed(seed)
    return norm(fn(*args, **kw), limit)


def seeded(fn, seed):
    def run(*args, **kw):
        random.seed(seed)
        return fn(*args, **kw)
    return run


def fresh(ctx, label, seed):
    """The result in a process that has made no other call."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            ctx.progress.start()
            try:
                s = "ok " + evaluate(label, seed)
            except StepLimit:
                s = "hang"
            except Exception as e:
                s = "raise " + type(e).__name__
            with os.fdopen(wr, "wb") as f:
                f.write(s.encode())
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        s = f.read().decode()
    status = os.waitpid(pid, 0)[1]
    if s == "hang" or os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
        ctx.fail("no return within the progress bound in a process that has made no other call", label,
                 {"seed": seed, "args": short(CALLS[label][0](random.Random("%s|%s" % (label, seed)))[1], 3000)})
    if not s:
        raise Harness("no answer for %s seed %s" % (label, seed))
    return s


def plan(ctx, per):
    out = []
    for i, label in enumerate(sorted(CALLS)):
        if ctx.mine(i):
            for _ in range(per):
                out.append((label, ctx.rng.randrange(10**9)))
    return out


@unit("X01", shards=8)
def histories(ctx):
    r = ctx.rng
    pairs = plan(ctx, ctx.n(10, 30))
    base = {p: fresh(ctx, *p) for p in pairs}
    ctx.count("fresh processes", len(base))
    usable = [p for p in pairs if base[p].startswith("ok ")]
    ctx.count("calls that refuse their input", len(pairs) - len(usable))
    if len(usable) < .8 * len(pairs):
        bad = sorted({(p[0], base[p]) for p in pairs if p not in usable})
        ctx.fail("documented inputs are refused: %r" % bad[:6], "registry", None)
    live = []
    for rnd in range(ctx.n(12, 40)):
        r.shuffle(usable)
        for label, seed in usable:
            make, limit = CALLS[label]
            fn, args, kw = make(random.Random("%s|%s" % (label, seed)))
            if label in RANDOM:
                fn = seeded(fn, seed)
            val = ctx.call(label, fn, *args, **kw)
            lazy = hasattr(val, "__next__") and label not in RANDOM
            if lazy and r.random() < .5:               # consumed later, after other calls
                live.append((label, seed, val))
            else:
                if label in RANDOM:
                    random.seed(seed)
                got = "ok " + ctx.call("drain", norm, val, limit)
                ctx.check(got == base[label, seed], "%s: result differs from that of a fresh process" % label, got, base[label, seed])
                if r.random() < .7:
                    overwrite(val)
                    overwrite(list(args))
                    overwrite(kw)
            while len(live) > 6:
                label, seed, val = live.pop(r.randrange(len(live)))
                got = "ok " + ctx.call("drain", norm, val, CALLS[label][1])
                ctx.check(got == base[label, seed], "%s: delayed iterator differs" % label, got, base[label, seed])


@unit("X01")
def returned_tables(ctx):
    """Long lists handed out at the ends of the stored table: the caller overwrites them, later calls must
    not notice. (The stored primes end just below 10**6; 78498 of them.)"""
    r = ctx.rng
    top = O.primes_upto(1000100)
    last = max(p for p in top if p < 10**6)
    k = top.index(last) + 1
    jobs = []
    for n in (last - 2, last - 1, last, last + 1, top[k - 2], top[k - 2] - 1, 10**6, 10**6 - 1, top[k]):
        jobs.append(("primes(%d)" % n, PV.primes, n, top[:bisect.bisect_right(top, n)]))
    for n in (k - 2, k - 1, k, k + 1):
        jobs.append(("primes_first_n(%d)" % n, PV.primes_first_n, n, top[:n]))
    probes = [(PR.is_prime, 999981, False), (PR.is_prime, last, True), (PC.legendre, 999000, bisect.bisect_right(top, 999000)),
              (FF.factor, 999979 * 999961, [(999961, 1), (999979, 1)])]
    for _ in range(ctx.n(3)):
        r.shuffle(jobs)
        for what, fn, n, want in jobs:
            L = ctx.call(what, fn, n)
            ctx.check(L == want, "%s: a different list than before" % what, len(L), len(want))
            how = r.randrange(4)
            if how == 0:
                L.append(-7)
            elif how == 1:
                L.reverse()
            elif how == 2:
                del L[len(L) // 2:]
            else:
                L[:] = [4] * len(L)
            for f, x, w in probes:
                ctx.eq(ctx.call(f.__name__, f, x), w, "%s(%d) after the caller overwrote %s" % (f.__name__, x, what))


@unit("X01", shards=4)
def interleaved(ctx):
    """Several iterators of the same function advanced alternately."""
    r = ctx.rng
    lazy = []
    for i, label in enumerate(sorted(CALLS)):
        make, limit = CALLS[label]
        fn, args, kw = make(random.Random(5))
        try:
            if label not in RANDOM and hasattr(fn(*args, **kw), "__next__"):
                lazy.append(label)
        except Exception:
            pass
    ctx.check(len(lazy) > 20, "iterator functions", lazy)
    switches = 0
    for i, label in enumerate(lazy):
        if not ctx.mine(i):
            continue
        make, limit = CALLS[label]
        for _ in range(ctx.n(12)):
            seeds = [r.randrange(10**9)]
            seeds += [r.choice((seeds[0], r.randrange(10**9))) for _ in range(r.randint(1, 3))]
            want, its = [], []
            for s in seeds:
                try:
                    want.append(evaluate(label, s))
                except Exception as e:
                    want.append(e)
            if any(isinstance(w, Exception) for w in want):
                continue
            for s in seeds:
                fn, args, kw = make(random.Random("%s|%s" % (label, s)))
                its.append(ctx.call(label, fn, *args, **kw))
            got = [[] for _ in seeds]
            alive = set(range(len(seeds)))
            while alive:
                k = r.choice(sorted(alive))
                for _ in range(r.randint(1, 3)):
                    x = next(its[k], ctx) if len(got[k]) < limit else ctx
                    if x is ctx:
                        alive.discard(k)
                        break
                    got[k].append(norm(x, limit, 1))
                switches += 1
            for k in range(len(seeds)):
                ctx.check("iter(%s)" % ",".join(got[k]) == want[k], "%s: interleaved iterators influence each other" % label,
                          got[k], want[k])
    ctx.count("iterator switches", switches)


@unit("X01", shards=4)
def threads(ctx):
    """Concurrent callers, sharing their (read-only) arguments."""
    r = ctx.rng
    pairs = plan(ctx, ctx.n(8, 16))
    shared, want = {}, {}
    for p in pairs:
        try:
            shared[p] = CALLS[p[0]][0](random.Random("%s|%s" % p))
            want[p] = evaluate(*p)
        except Exception:
            continue
    usable = [p for p in want if p[0] not in RANDOM]
    bad, stats = [], {"calls": 0, "overlapping": 0}
    active = set()
    seeds = [r.randrange(10**9) for _ in range(4)]

    def client(k):
        q = random.Random(seeds[k])
        for _ in range(ctx.n(1500)):
            if bad:
                return
            p = q.choice(usable)
            if any(o is not k for o in list(active)):
                stats["overlapping"] += 1
            active.add(k)
            try:
                got = evaluate(p[0], p[1], shared[p])
            except Exception as e:
                got = "raised %r" % e
            active.discard(k)
            stats["calls"] += 1
            if got != want[p]:
                bad.append((p, got, want[p]))
                return
    old = sys.getswitchinterval()
    threading.stack_size(64 << 20)
    sys.setswitchinterval(2e-6)
    ts = [threading.Thread(target=client, args=(k,), daemon=True) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(300)
    sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Harness("threads did not finish")
    ctx.evals += stats["calls"]
    ctx.checks += stats["calls"]
    for p in usable:
        ctx.distinct.add(hash(p))
    ctx.count("concurrent calls", stats["calls"])
    ctx.count("calls started while another was running", stats["overlapping"])
    if bad:
        p, got, w = bad[0]
        ctx.fail("%s (arguments %s): concurrent callers influence each other: got %s want %s"
                 % (p[0], ctx and shared[p][1:], got[:800], w[:800]), p[0], {"call": p})
    # the shared arguments are still what they were
    for p in usable:
        fresh_args = CALLS[p[0]][0](random.Random("%s|%s" % p))
        ctx.check(norm(list(shared[p][1]), 60) == norm(list(fresh_args[1]), 60), "shared arguments changed", p)


# ------------------------------------------------------------------------------------- changed in place
def components(adj):
    seen, n = set(), 0
    for v in adj:
        if v not in seen:
            n += 1
            todo = [v]
            seen.add(v)
            while todo:
                for w in adj[todo.pop()] - seen:
                    seen.add(w)
                    todo.append(w)
    return n


def change(r, x, only_order=False):
    """Change a mutable argument in place, deterministically in r; True if something changed."""
    if hasattr(x, "graph_dict"):
        vs = sorted(x.vertex_set(), key=repr)
        es = sorted({tuple(sorted((u, v), key=repr)) for u in vs for v in x.neighbors(u)}, key=repr)
        k = r.randrange(5)
        if k in (2, 3) and es:                         # keep a connected graph connected
            def parts(drop):
                adj = {v: set() for v in vs}
                for a, b in es:
                    if (a, b) != drop:
                        adj[a].add(b)
                        adj[b].add(a)
                return components(adj)
            cut = r.choice(es)
            if parts(cut) != parts(None):
                k = 0
            else:
                es = [cut]
        if k <= 1 and es:                              # only a weight
            u, v = r.choice(es)
            x.add_edge(u, v, r.randint(1, 9))
        elif k == 2 and es and len(vs) > 2:            # same number of edges
            u, v = r.choice(es)
            non = [(a, b) for i, a in enumerate(vs) for b in vs[i + 1:] if b not in x.neighbors(a)]
            x.delete_edge((u, v))
            if non:
                x.add_edge(*r.choice(non))
        elif k == 3 and es:
            x.delete_edge(r.choice(es))
        elif len(vs) > 1:
            x.add_edge(*r.sample(vs, 2), r.randint(1, 9))
        else:
            return False
        return True
    if isinstance(x, MA.Matrix):
        x[0, 0] = x[0, 0] + r.randint(1, 5)
        return True
    if isinstance(x, list) and len(x) > 1:
        if isinstance(x[0], list) and r.random() < .5:
            return change(r, r.choice(x))
        i, j = r.sample(range(len(x)), 2)
        k = 0 if only_order else r.randrange(4)
        if k == 0:
            x[i], x[j] = x[j], x[i]
        elif k == 1:
            x[i] = x[j]
        elif k == 2:
            x.reverse()
        elif len(x) > 2:
            x.pop()
        return True
    if isinstance(x, dict):
        return any([change(r, v) for v in x.values()])
    return False


@unit("X01", shards=4)
def changed_arguments(ctx):
    """The caller changes an argument in place and calls again: the answer is that of an argument which
    went through the same changes without having been passed to any call before."""
    r = ctx.rng
    changed = 0
    for i, label in enumerate(sorted(CALLS)):
        if not ctx.mine(i):
            continue
        make, limit = CALLS[label]
        for _ in range(ctx.n(20)):
            key = "%s|%s" % (label, r.randrange(10**9))
            fn, a, kwa = make(random.Random(key))
            if not any(hasattr(x, "graph_dict") or isinstance(x, (list, MA.Matrix)) for x in list(a) + list(kwa.values())):
                break

            graphs = any(hasattr(x, "graph_dict") for x in a)       # then a list names vertices

            def result(args, kw):
                def run():
                    random.seed(key)
                    return norm(fn(*args, **kw), limit)
                return run
            past = []
            for _ in range(r.randint(1, 4)):
                ctx.outcome(label, result(a, kwa))
                past.append(r.randrange(10**9))
                q = random.Random(past[-1])
                changed += any([change(q, x, graphs) for x in a] + [change(q, kwa)])
            ctx.distinct.add(hash((key, tuple(past))))
            _, b, kwb = make(random.Random(key))
            for s in past:
                q = random.Random(s)
                [change(q, x, graphs) for x in b] + [change(q, kwb)]
            got, want = [(x[0], x[1] if x[0] == "ok" else type(x[1]).__name__)
                         for x in (ctx.outcome(label, result(*c)) for c in ((a, kwa), (b, kwb)))]
            ctx.check(got == want, "%s: an argument changed in place is answered from its past" % label, got, want, past)
    ctx.count("arguments changed in place", changed)
    ctx.check(changed > 0, "nothing was changed")
