#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GA = ["src/core/ga_base.impl.hpp", "src/core/ga_base.decl.hpp", "src/core/ga_info.hpp"]

prop("G01", "A run's generations, counters, metrics and callbacks follow the documented cycle",
 "A run evaluates an initial generation and then advances one generation at a time until the stop condition holds or the generation limit is reached, and it never produces more generations than the limit. Once for every generation, in order, the stop condition is consulted, the tracked metrics record exactly one entry and the end-of-generation callback is invoked, and all of them see that generation's index, population and fitness values. When the run returns, the counters describe the last generation, and a generation limit given for that run only has left the solver's own limit unchanged.",
 ["configurations", "histories"],
 "For every encoding, population size, generation limit, stop condition and sequence of runs on one solver.",
 "The unit tests never run the solver loop; the integration tests only compare final fitness values of a few fixed problems.",
 GA, [("solve/advance loop", "src/core/ga_base.impl.hpp: solve, initializeAlgorithm, advance"), ("stop condition base", "src/stop_condition/stop_condition_base.cpp")],
 state=[("generation_cntr_", "index of the current generation", "src/core/ga_info.hpp")],
 observe=["generation-end callback", "custom metric", "custom stop condition", "return of solve"])

prop("G02", "Population is complete and every fitness belongs to its chromosome",
 "After the initial generation and after every later generation the population holds exactly the configured number of candidates, all of them evaluated, and the published fitness matrix has the fitness vector of the i-th candidate as its i-th row. With a fitness function that depends only on the chromosome, the fitness stored in every candidate of every population and of the returned solutions is what the fitness function returns for that candidate's chromosome.",
 ["configurations", "inputs", "histories"],
 "For every encoding (user defined ones with chromosomes of varying length included), algorithm, operator combination, population size (odd ones included), cache size, number of threads and fitness function.",
 "Assertions only compare sizes; no test recomputes the fitness of population members over whole runs, with operators that copy, mutate or repair candidates.",
 GA + ["src/core/population.hpp", "src/mutation/mutation_base.impl.hpp", "src/crossover/crossover_base.impl.hpp"],
 [("evaluation skip flag", "src/core/ga_base.impl.hpp: evaluate"), ("fitness inheritance in operators", "src/crossover/crossover_base.impl.hpp, src/mutation/mutation_base.impl.hpp")],
 observe=["generation-end callback", "fitness function calls"])

prop("G03", "Fitness evaluations are counted exactly and never repeated needlessly",
 "The reported number of fitness evaluations of a run equals the number of times the fitness function was invoked for candidates of that run, on any number of threads, apart from at most one initial call made to learn the number of objectives. A chromosome whose fitness is already known to be valid because the candidate is unchanged from an evaluated parent, or because it is held by the cache when n generations are cached (the chromosomes of earlier populations, the ones stored first being dropped when there would be more than n times the population size of them), is not evaluated again when the fitness function is static; nothing else may be skipped. A dynamic fitness function is called for every newly created candidate, whether or not a cache was requested.",
 ["configurations", "histories", "schedules"],
 "For every cache size, static and dynamic fitness functions, every operator sequence, and every interleaving of the evaluating threads.",
 "No test counts evaluations during a run; the cache is only tested as a container.",
 GA + ["src/utility/cache.hpp"], [("evaluate and cache lookup", "src/core/ga_base.impl.hpp: evaluate, updatePopulation")],
 state=[("num_fitness_evals_", "evaluations in the current run", "src/core/ga_info.hpp"), ("fitness_cache_", "fitness of recent populations", "src/core/ga_base.decl.hpp")],
 observe=["fitness function calls", "num_fitness_evals in the callback"])

prop("G04", "A given initial population is used first and completed to the population size",
 "The first generation of a run starts with the candidates of the initial population given by the user, in their order, up to the population size; missing candidates are generated and superfluous ones are ignored. A given candidate that already carries a fitness is not evaluated again by a static fitness function.",
 ["inputs", "configurations"], "For every size of the given population relative to the population size, evaluated or not, for every encoding.",
 "No test passes an initial population to a run.",
 GA, [("generatePopulation", "src/core/ga_base.impl.hpp")], observe=["callback of generation 0", "fitness function calls"])

prop("G05", "Every candidate the solver evaluates or returns is valid for its encoding",
 "With the library's own operators and a valid initial population, every chromosome passed to the fitness function, present in any population, or returned has the required length and is valid for its encoding: zeros and ones for the binary, a permutation of 0..n-1 for the permutation, and genes within their own bounds for the integer and real encodings, including bounds where the lower and upper value are equal.",
 ["inputs", "configurations", "histories"], "For every built-in crossover and mutation operator and its parameters, every chromosome length from 1 up, all finite bounds whose width is representable, all rates in [0,1], over whole runs with at least two candidates.",
 "The operator unit tests check single calls with one parameter choice and one chromosome length each.",
 ["src/crossover/*.cpp", "src/mutation/*.cpp", "src/encoding/*.cpp", "src/core/ga_base.impl.hpp"],
 [("bounds clamping", "src/crossover/real.cpp, src/mutation/real.cpp"), ("candidate generation", "src/encoding/*.cpp")], observe=["fitness function argument", "population in the callback"])

prop("G06", "The returned solutions are exactly the optimal candidates, without duplicates",
 "The solutions returned by a run are the non-dominated candidates of the last population, each chromosome once and no other candidate. When keeping all optimal solutions is enabled they are instead the non-dominated ones among the candidates of all populations of that run, again without duplicates, so no candidate of any generation dominates a returned one and every non-dominated one of them is returned. Fitness values within the configured tolerances count as equal.",
 ["histories", "configurations", "inputs"], "For every encoding, algorithm, number of objectives, number of generations (including none after the first) and every sequence of populations.",
 "Tests cover the pareto set helper functions on random matrices, not their accumulation over a run.",
 GA + ["src/core/population.hpp", "src/core/population.cpp"], [("updateOptimalSolutions", "src/core/ga_base.impl.hpp"), ("mergeParetoSets", "src/core/population.hpp")], observe=["return value of solve", "populations in the callback"])

prop("G07", "A solver is reusable: runs are independent and survive failures",
 "Starting a run forgets the previous run's population, solutions, counters, cache, metrics and stop condition progress, while everything the user configured stays in force, so a run on a used solver behaves like the same run on a fresh one. If the fitness function, an operator, the stop condition or the callback throws, the exception reaches the caller of the run, the settings are those from before the run, and the next run behaves as on a fresh solver.",
 ["histories", "fault_sequences"], "For every sequence of runs with changing fitness functions, limits and settings, and a failure at any call of any user supplied function.",
 "No test runs a solver twice with different settings or lets a user supplied function throw.",
 GA + ["src/stop_condition/stop_condition.cpp", "src/utility/scope_exit.hpp"], [("reset at start of run", "src/core/ga_base.impl.hpp: initializeAlgorithm"), ("limit restored on exit", "src/core/ga_base.impl.hpp: solve")], observe=["fitness calls, callbacks and results of consecutive runs"])

prop("G08", "Unspecified settings are deduced from the problem, specified ones are kept",
 "When no algorithm was specified, a run uses the single-objective algorithm for one objective and a multi-objective one for more, chosen anew for each run; an algorithm specified by the user is never replaced. When no mutation rate was specified for the default mutation operator, the rate is deduced from the chromosome length for each run; a rate or operator specified by the user is kept.",
 ["configurations", "histories"], "For every constructor and setter combination, in every order, and every sequence of runs on problems of different kinds.",
 "Tests construct solvers in a few ways and never inspect the deduced settings.",
 GA + ["src/core/ga_info.cpp"], [("default flags", "src/core/ga_base.impl.hpp: constructors, setters, initializeAlgorithm")], observe=["algorithm() and mutation_rate() during and after runs"])

prop("G09", "Each generation is made by select, recombine, mutate, repair, evaluate, replace",
 "In every generation, pairs of current population members are selected and recombined to create exactly as many children as the population size, and every child is then mutated once, repaired once if a repair function is set, and evaluated, in that order and never out of it. The next population is chosen from the current population and those children only, each of them at most as often as the replacement names it, and what is selected from is the population of the previous generation.",
 ["configurations", "histories", "schedules"], "For every population size (odd and 1 included), thread count, and any user supplied selection, replacement, crossover, mutation and repair function.",
 "No test observes the sequence of operator calls of a run.",
 GA + ["src/algorithm/algorithm_base.impl.hpp", "src/algorithm/single_objective.cpp"], [("advance", "src/core/ga_base.impl.hpp"), ("nextPopulation", "src/algorithm/algorithm_base.impl.hpp")], observe=["calls of user supplied operators"])

prop("G10", "Generated candidates are drawn uniformly from the whole search space",
 "The candidates that a run generates for its first population, where the user gave none, are drawn uniformly and independently: every binary or integer gene takes each of its allowed values with the same probability, a real gene is uniform between its bounds, every permutation is equally likely, and neither the genes of a candidate (other than through being a permutation) nor successive candidates depend on each other.",
 ["inputs", "configurations"], "For every encoding, chromosome length and bounds, equal bounds included, and any number of given candidates.",
 "The unit tests do not look at the generated candidates; a skewed or partly constant first population still leads to solutions.",
 ["src/encoding/*.cpp", "src/core/ga_base.impl.hpp"], [("generateCandidate", "src/encoding/*.cpp")], observe=["population in the callback of generation 0"])

prop("S01", "Early-stop conditions stop at exactly the first generation their criterion holds",
 "An evaluation limit stops a run at the first generation whose evaluation count has reached the limit. A fitness threshold stops it at the first generation containing a candidate whose fitness reaches the threshold in every objective. A stall condition stops it at the first generation at which no objective of the tracked statistic (mean or best) has improved by at least the given amount on its value at its last improvement for more than the given number of consecutive generations, counted afresh in every run.",
 ["histories", "inputs"], "For every sequence of fitness matrices and evaluation counts, every threshold, patience and improvement amount, one or more objectives.",
 "The stop conditions have no unit tests; integration tests use them only as limits.",
 ["src/stop_condition/stop_condition.cpp", "src/stop_condition/stop_condition.hpp"], [("per condition criteria", "src/stop_condition/stop_condition.cpp")],
 state=[("cntr_", "remaining patience", "src/stop_condition/stop_condition.hpp"), ("best so far", "best statistic seen", "src/stop_condition/stop_condition.hpp")], observe=["result of the stop condition in each generation"])

prop("S02", "Composite stop conditions equal the logical combination of their parts",
 "A stop condition built from others with and, or and not holds in a generation exactly when the same logical combination of the individual conditions, each observing every generation of the run from its start, holds in that generation, or when the generation limit is reached. Any callable given as a stop condition is consulted once per generation and its answer is used.",
 ["programs", "histories"], "For every expression over the three operators and every built-in and user supplied condition, over every history of generations.",
 "No test exercises composite stop conditions.",
 ["src/stop_condition/composite.hpp", "src/stop_condition/stop_condition_base.cpp"], [("composite evaluation", "src/stop_condition/composite.hpp")], observe=["result of the composite condition in each generation"])

prop("A01", "Single-objective replacement keeps exactly the candidates its policy names",
 "Keeping the children makes the next population consist of the children only; elitism with n elites keeps n of the best parents, with no better parent left out, together with children only, in a population of unchanged size; keeping the best chooses a set of parents and children such that no candidate left out is better than one kept. Each chosen candidate is a distinct one, so with at least one elite, or when keeping the best, the best fitness of the population never decreases over a run.",
 ["inputs", "histories"], "For every fitness assignment (ties, negative and infinite values included), population size and number of elites.",
 "The unit tests check a couple of fixed fitness matrices.",
 ["src/algorithm/soga_replacement.cpp", "src/algorithm/single_objective.cpp"], [("replacement policies", "src/algorithm/soga_replacement.cpp")], observe=["indices chosen for the next population"])

prop("A02", "Selection favours better candidates with the advertised probabilities",
 "Every selection method returns only members of the current population. Tournament selection returns the best of its uniformly drawn participants; roulette, rank, sigma and Boltzmann selection choose each candidate with a probability proportional to its documented weight (the fitness; the weight interpolated over the position in the order by fitness; 1 + (fitness - mean) / (scale * deviation), at least 0; the exponential of the fitness normalised to 0..1 over the temperature), so never with a smaller probability for a better candidate than for a worse one. With every method except rank, whose ties share their positions in some order, equally fit candidates are equally likely. This holds for any population size from 1 up.",
 ["inputs", "configurations"], "For every fitness assignment the method accepts and every parameter value of each selection method.",
 "The unit tests only check that better solutions are selected more often on one fixed matrix.",
 ["src/algorithm/soga_selection.cpp", "src/utility/rng.hpp"], [("selection weights and cdf sampling", "src/algorithm/soga_selection.cpp")], observe=["indices returned by selection"])

prop("A03", "Non-dominated sorting yields the exact dominance depth of every candidate",
 "Sorting a set of fitness vectors into pareto fronts lists every vector exactly once, ordered by front, and assigns front 0 to the vectors that no other one dominates and front k+1 to those dominated only by vectors of fronts up to k, whichever of the available sorting procedures is used. Duplicate vectors get the same front.",
 ["inputs"], "For every matrix of fitness values, any number of rows and objectives, with duplicates and values within the comparison tolerance.",
 "The unit tests compare the procedures on a few random matrices and one fixed example.",
 ["src/algorithm/nd_sort.cpp", "src/algorithm/nd_sort.hpp"], [("dominance sorting procedures", "src/algorithm/nd_sort.cpp")], observe=["returned front list"])

prop("A04", "NSGA-II survival keeps better fronts, then less crowded candidates",
 "For finite fitness values, the next population has the configured size, consists of distinct candidates, and leaves out no candidate of a better pareto front than one it keeps; among the candidates of the last front that does not fit entirely, no one left out has a larger crowding distance than one kept, where the candidates with the smallest and the largest value of an objective have an infinite distance (one of them if several share that value). Binary tournament selection between two members prefers the better front and then the larger crowding distance of the current population.",
 ["inputs", "histories"], "For every combination of parent and child fitness vectors with two or more objectives and every population size.",
 "The algorithm is only run on benchmark problems with loose convergence limits.",
 ["src/algorithm/nsga2.cpp", "src/algorithm/nd_sort.cpp"], [("crowded comparison", "src/algorithm/nsga2.cpp")], state=[("ranks and distances", "front rank and crowding distance of the current population", "src/algorithm/nsga2.cpp")], observe=["next population", "selected indices"])

prop("A05", "NSGA-III survival keeps better fronts and fills niches from the emptiest up",
 "For finite fitness values, the next population has the configured size, consists of distinct candidates, and leaves out no candidate of a better pareto front than one it keeps. The candidates taken from the last front that does not fit entirely are associated with reference directions whose niches were among the least filled at that moment, so no other niche that still had candidates available was emptier, and within a niche the candidates closest to its direction are taken first.",
 ["inputs", "histories"], "For every combination of parent and child fitness vectors with two or more objectives, degenerate fronts included, and every set of reference directions.",
 "The algorithm is only run on benchmark problems with loose convergence limits.",
 ["src/algorithm/nsga3.cpp", "src/algorithm/nsga3.hpp"], [("niche preserving selection", "src/algorithm/nsga3.cpp")], observe=["next population"])

prop("A06", "Reference directions are on the simplex and nearest-direction search is exact",
 "Every generated set of reference directions contains the requested number of points, each with non-negative coordinates that sum to one. A sparse subset of generated points is spread out: no point left out of it is farther from it than its points are from each other. Looking up the stored direction with the largest scalar product for a query point returns one that attains the maximum over all stored directions, for any set of directions with duplicates and degenerate ones included.",
 ["inputs"], "For every dimension, number of points, and query point.",
 "The unit tests use a few sizes of random points.",
 ["src/algorithm/reference_lines.cpp", "src/utility/cone_tree.cpp"], [("cone tree search", "src/utility/cone_tree.cpp"), ("simplex sampling", "src/algorithm/reference_lines.cpp")], observe=["returned points and search results"])

prop("P01", "Fitness comparison and pareto front extraction implement pareto dominance",
 "One fitness vector is worse than another exactly when it is not better in any objective and worse in at least one, where values within the configured tolerances count as equal, and all forms of the comparison agree. A setting of the tolerances is in force exactly during the lifetime of its object, nested settings included. The pareto front of a set consists of exactly the vectors that no other vector of the set is better than, duplicates included, whichever of the available procedures computes it.",
 ["inputs"], "For every set of fitness vectors with any number of objectives, including infinite values, duplicates, and values at the tolerance.",
 "The unit tests use a few fixed sets and compare the procedures on random matrices.",
 ["src/core/population.cpp", "src/utility/math.cpp", "src/utility/math.hpp"], [("dominance comparison", "src/utility/math.cpp"), ("front procedures", "src/core/population.cpp")], observe=["comparison results and front indices"])

prop("P02", "Merging two pareto sets gives the pareto set of their union in every schedule",
 "Merging two sets, each without internally dominated candidates, returns exactly those candidates of the two sets that no candidate of the other one dominates, each with its chromosome and fitness unchanged, for any sizes of the two sets and any interleaving of the threads that compute it. The nadir point of a set of fitness vectors is the vector of the worst values over its pareto front.",
 ["inputs", "schedules"], "For every pair of pareto sets with shared and duplicate vectors, and every interleaving.",
 "The unit tests merge a few fixed sets under whatever schedule occurs.",
 ["src/core/population.hpp", "src/core/population.cpp"], [("parallel merge with shared state flags", "src/core/population.hpp: mergeParetoSets")], observe=["merged set"])

prop("C01", "A parallel loop runs its body exactly once per index before it returns",
 "A parallel loop invokes its body exactly once for every element of its range, and when it returns every invocation has finished and its effects are visible to the caller, whatever the number of threads, the range length and the block size. This holds for loops started from inside loop bodies, for loops started concurrently from several threads, and after the number of threads was changed, and none of them deadlocks. Bodies run on the calling threads and at most the configured number of threads less one besides (none of them for a count of 0 or 1), and the configured number is the one reported.",
 ["schedules", "programs", "configurations"], "For every interleaving of the worker threads, loop size, block size, nesting and number of workers.",
 "The tests run a few loops under whatever schedule the machine happens to produce.",
 ["src/utility/thread_pool.hpp", "src/utility/latch.hpp", "src/utility/concurrent_queue.hpp"], [("task distribution and completion latch", "src/utility/thread_pool.hpp: execute_loop"), ("latch", "src/utility/latch.hpp")], observe=["body invocations and loop return"])

prop("C02", "An exception in a parallel loop body reaches the caller after all work has ended",
 "If one or more invocations of a parallel loop's body throw, the loop throws one of those exceptions to its caller exactly once and only after every other invocation that was started has ended, no element is processed twice, and the thread pool stays fully usable. This holds no matter which element throws and which thread it was processed on, the calling thread included.",
 ["fault_sequences", "schedules"], "For every set of throwing elements, every thread they run on, every interleaving and nesting.",
 "One test throws from a loop body under one schedule; none throws on the calling thread while other work is still pending.",
 ["src/utility/thread_pool.hpp"], [("exception capture", "src/utility/thread_pool.hpp: execute_loop")], observe=["body invocations and exception at the caller"])

prop("C03", "The work queue is FIFO, loses nothing, and closing it releases every waiter",
 "Every element put into the work queue is taken out exactly once, elements are taken in the order they were put, and a taker blocks only while the queue is empty and open. Closing the queue makes later puts fail, lets takers drain the remaining elements, and then makes every waiting and later taker return with nothing.",
 ["schedules", "histories"], "For every number of producers and consumers and every interleaving of put, take, close and empty.",
 "The tests use the queue only indirectly and under accidental schedules.",
 ["src/utility/concurrent_queue.hpp"], [("mutex and condition variable", "src/utility/concurrent_queue.hpp")], observe=["results of queue operations"])

prop("C04", "Locks exclude and publish: one writer or many readers, never both",
 "Between acquiring and releasing the exclusive lock no other thread is inside an exclusive or shared section of the same lock, while shared sections may overlap each other; whoever enters next sees all writes of those who left before. A try operation succeeds only if it acquired the lock, fails without side effects otherwise, and every lock that is requested while holders keep releasing is eventually acquired.",
 ["schedules"], "For every number of threads and every interleaving of lock, unlock, shared lock, shared unlock and try operations, under the C++ memory model.",
 "The tests hammer a counter with a few threads; weak memory effects do not show on this machine.",
 ["src/utility/spinlock.hpp", "src/utility/shared_spinlock.hpp"], [("spinlock", "src/utility/spinlock.hpp"), ("reader counting lock", "src/utility/shared_spinlock.hpp")], observe=["entry and exit of critical sections"])

prop("C05", "Read-copy-update never frees an object a reader may still be using",
 "An object reached inside a read-side section stays intact until that section ends, and a reader always sees a fully constructed object, the latest one published before its section began or a newer one. Waiting for readers returns only after all sections that began before it have ended, and it always returns once they have.",
 ["schedules"], "For every number of readers and updaters and every interleaving of read sections, updates and grace periods, under the C++ memory model including delayed visibility of stores.",
 "The only test is an endless stress program that is built but not run.",
 ["src/utility/rcu.hpp"], [("epoch based grace periods", "src/utility/rcu.hpp")], observe=["object reads, frees and grace period ends"])

prop("R01", "Seeding the generator makes whole runs reproducible",
 "If the generator is seeded with the same value before two runs of identically configured solvers, started by the same thread of one process with an unchanged number of threads, both runs pass the same chromosomes to the fitness function in every generation, go through the same populations with the same evaluation counts and return the same solutions. This holds for every encoding, algorithm, operator, thread count and thread timing, for fitness functions that draw random numbers themselves, and whatever was run in between, as long as no older thread that drew random numbers has ended in between.",
 ["schedules", "configurations", "histories"], "For every solver configuration, thread count, thread timing, and history of earlier runs in the process.",
 "The tests compare a few pairs of runs with the default thread count.",
 ["src/utility/rng.hpp", "src/utility/thread_pool.hpp", "src/core/ga_base.impl.hpp"], [("generator reseeding", "src/utility/rng.hpp"), ("scheduler reset at run start", "src/utility/thread_pool.hpp: reset_scheduler")], observe=["fitness calls and results of both runs"])

prop("R02", "Random utilities respect their ranges and draw distinct samples",
 "Random integers and reals lie within the requested closed or half-open range and are evenly spread over it, binomial counts lie between zero and the number of trials, and sampling without replacement returns the requested number of distinct values inside the requested range, for every range including single-element ones and the full range of the type. Sampling from a cumulative distribution never returns an element of zero weight, and every element that a random choice may return is returned eventually.",
 ["inputs"], "For every integer range of every width of type, every real range of representable width, every sample size, number of trials, probability and weight vector with a positive total.",
 "The tests use a few ranges and sample sizes.",
 ["src/utility/rng.hpp", "src/utility/distribution.hpp", "src/utility/qrng.hpp"], [("random utilities", "src/utility/rng.hpp")], observe=["returned values"])

prop("R03", "Every thread draws from its own random stream and seeding resets all of them",
 "Threads that use the global generator concurrently draw from distinct non-overlapping streams and never disturb each other's sequence, threads may start and end at any time, and a number drawn by one thread is never drawn again by another because of a race. Seeding restarts the stream of every live thread from the new seed, each thread's stream being determined by the seed and the order in which the threads first used the generator.",
 ["schedules", "histories"], "For every number of threads, order of first use and thread exits, and every interleaving with draws.",
 "The tests draw from a single thread, or check that two threads differ once.",
 ["src/utility/rng.hpp"], [("per-thread generators registered in a shared list", "src/utility/rng.hpp")], observe=["drawn values per thread"])

prop("R04", "The bundled generators produce the published sequences",
 "From any seed the bundled Splitmix64 and Xoroshiro128+ generators produce exactly the number sequences of the published algorithms they name, where the state of the second is filled with the first two numbers of a Splitmix64 generator of the same seed. Jumping is the same as drawing 2^96 numbers. A copy continues the sequence of its original independently, seeding restarts the sequence of the new seed, and two generators compare equal exactly when their states, and so all their later numbers, are equal.",
 ["inputs", "histories"], "For every 64 bit seed and every sequence of draws, jumps, copies and seedings.",
 "The tests only use the generators, they never look at their numbers.",
 ["src/utility/rng.hpp"], [("generators", "src/utility/rng.hpp: Splitmix64, Xoroshiro128p")], observe=["drawn numbers", "comparison results"])

prop("V01", "Crossovers only recombine parental material and keep the encoding valid",
 "For permutations every child is again a permutation of the same elements, and the order, position, cycle and partially mapped children are those of their documented construction for some range, positions or cycles of the parents, while the edge crossover mostly keeps edges of the parents. Exchange type crossovers of binary, integer and real chromosomes give at every position the two parental genes to the two children in some order, swapped exactly at the positions their exchange points or indices define; arithmetic, blend, simulated binary and Wright crossovers produce genes inside the gene bounds and distributed around the parents as documented, genes and children drawn independently of each other where they are. Every choice of range, positions, points or indices that the definition allows can occur. Parents are never modified.",
 ["inputs"], "For every pair of parents of any equal length, every choice of crossover points and indices, and every parameter value.",
 "The unit tests check a few hand-made examples per operator.",
 ["src/crossover/crossover_impl.hpp", "src/crossover/*.cpp", "src/crossover/neighbour_list.hpp"], [("crossover kernels", "src/crossover/crossover_impl.hpp")], observe=["children of crossover calls"])

prop("V02", "Mutations stay in the encoding and change only what their definition allows",
 "A mutated permutation is a permutation that differs from the original as its operator defines: one inverted range, one exchanged pair, one rotated triple, one shuffled range or one moved range, with ranges no longer than the configured fraction of the chromosome but at least the shortest that has an effect, and every such range, exchange and move (in both directions) can occur. A binary mutation only flips genes, and integer and real mutations leave every gene inside its own bounds and draw its new value from the distribution the operator documents for that gene's own bounds; with rate zero nothing changes, with rate one every gene or candidate is subjected to mutation, and with other rates each is mutated with the probability of the rate, independently of the others, for every chromosome length from 1 up, every bound and every parameter value.",
 ["inputs", "configurations"], "For every chromosome, bounds of representable width, rate and operator parameter in their documented ranges.",
 "The unit tests call each operator once with fixed parameters.",
 ["src/mutation/permutation.cpp", "src/mutation/binary.cpp", "src/mutation/integer.cpp", "src/mutation/real.cpp"], [("mutation kernels", "src/mutation/*.cpp")], observe=["mutated chromosomes"])

prop("V03", "A candidate is marked evaluated only while its fitness matches its chromosome",
 "After recombination a child counts as evaluated only if its chromosome equals one of the parents', and then it carries that parent's fitness; after mutation or repair a candidate counts as evaluated only if it was before and its chromosome is unchanged. With crossover rate zero, or equal parents, the children are the parents, and the crossover is performed with the configured probability.",
 ["inputs", "configurations"], "For every pair of parents, crossover rate, user supplied crossover, mutation and repair function.",
 "The unit tests check flags for a handful of calls.",
 ["src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/core/ga_base.impl.hpp"], [("flag handling", "src/crossover/crossover_base.impl.hpp, src/mutation/mutation_base.impl.hpp")], observe=["flags and fitness of children"])

prop("D01", "The fitness cache is a bounded first-in first-out map",
 "The cache answers a lookup with the value most recently stored for that key if the key is among the stored ones and with nothing otherwise, never holds more entries than its capacity, and makes room by discarding the entries that were inserted first, where storing an existing key again replaces its value and keeps its age. Inserting a range that fits into the cache equals inserting its elements one after the other, and resetting empties it and sets the new capacity, zero included.",
 ["histories"], "For every sequence of insertions of single elements and ranges, lookups, resets, copies and moves, for every capacity.",
 "The unit tests run a few short fixed sequences.",
 ["src/utility/cache.hpp", "src/utility/circular_buffer.hpp"], [("hash map with insertion ring", "src/utility/cache.hpp")], state=[("order_", "insertion order", "src/utility/cache.hpp")], observe=["lookup results and size"])

prop("D02", "The circular buffer is a bounded queue that overwrites its oldest element",
 "The circular buffer behaves like a sequence of at most its capacity: pushing to a full buffer at one end drops the element at the other end, popping removes the element at the named end, and indexing, iteration, size, copying, moving, swapping and changing the capacity all agree with that sequence. Every element is constructed and destroyed exactly once, also when an element's copy or an allocation throws.",
 ["histories", "fault_sequences"], "For every sequence of operations and every capacity, including capacity changes at every rotation of the ring and a throw at any element copy or allocation.",
 "The unit tests run a few short fixed sequences.",
 ["src/utility/circular_buffer.hpp"], [("ring arithmetic", "src/utility/circular_buffer.hpp")], observe=["contents, size, element lifetimes"])

prop("D03", "The small vector behaves as a sequence in and out of its inline buffer",
 "The small vector behaves like an ordinary sequence under construction, assignment, insertion and erasure at any position, appending, removal, resizing, reserving, swapping, copying and moving, whether its elements are held inline or on the heap and across the transition. Every element is constructed and destroyed exactly once, and an exception thrown by an element's copy or by an allocation loses or leaks nothing. Memory is returned to an allocator equal to the one it came from, whichever of their allocators the vectors propagate.",
 ["histories", "fault_sequences"], "For every sequence of operations, element and allocator type, size relative to the inline capacity, and a throw at any element copy or allocation.",
 "The unit tests call each operation a few times on small examples.",
 ["src/utility/small_vector.hpp"], [("inline/heap storage management", "src/utility/small_vector.hpp")], observe=["contents, size, element lifetimes"])

prop("D04", "The dynamic bitset behaves as a sequence of bits",
 "The bitset behaves like a sequence of bits under construction, reading, writing, filling, resizing and complementing: resizing keeps the existing bits and gives the new ones the requested value, and counting, searching for the first set or cleared bit, the any, all and none queries and equality agree with that sequence, for every size including zero and sizes around multiples of the word size.",
 ["histories", "inputs"], "For every sequence of operations and every size.",
 "The unit tests use a few sizes.",
 ["src/utility/dynamic_bitset.hpp"], [("block arithmetic", "src/utility/dynamic_bitset.hpp")], observe=["query results"])

prop("D05", "The matrix behaves as a rectangular table of rows",
 "The matrix behaves like a list of equally long rows under construction, appending and removing rows, resizing, row assignment and swapping, copying and moving, and element, row, column and iterator access, row references included, agree with that table, where resizing keeps the elements in row-major order.",
 ["histories"], "For every sequence of operations and every shape, empty ones included.",
 "The unit tests call each operation once.",
 ["src/utility/matrix.hpp", "src/utility/iterators.hpp"], [("flat storage with row proxies", "src/utility/matrix.hpp")], observe=["contents and shape"])

prop("D06", "Iterators keep to positions of their sequence",
 "The iterators of the library (stable iterators over any random access container, those of the circular buffer, of the rows of a matrix and of the small vector, and iota iterators) behave like positions in the sequence: any chain of increments, decrements, jumps, comparisons and signed differences agrees with arithmetic on positions, and reading or writing through an iterator reaches exactly the element at its position at the time of the access. Iterators that are documented as stable keep their position while the container grows, shrinks behind them or reallocates, and standard algorithms run over the iterators give the same result as on a plain array.",
 ["histories"], "For every sequence, every position in it and every sequence of iterator operations, mixed with changes of the container.",
 "The unit tests use each operator once on one short container.",
 ["src/utility/iterators.hpp", "src/utility/circular_buffer.hpp", "src/utility/matrix.hpp", "src/utility/small_vector.hpp"], [("iterator base classes derive all operators from few", "src/utility/iterators.hpp")], observe=["positions and elements"])
prop("D07", "Range algorithms return what their definitions say",
 "For every range, forward or reversed, the range algorithms of the library return what they are defined to: index sorting and partial index sorting give the indices of the (first) elements in order, searches and bounds find the first matching position, extremes and their indices are those of the range, selection, mapping, element-wise minima and maxima, removal of duplicates and of single elements, modular steps, predicates and bit helpers agree with their definitions element by element, the input is not changed where it is not meant to be, and a partial shuffle is a permutation that gives every ordered choice of the first elements the same probability.",
 ["inputs"], "For every range of any length (the internal switches between methods included) with ties, any middle and any comparison.",
 "The unit tests use one range per function.",
 ["src/utility/algorithm.hpp", "src/utility/functional.hpp", "src/utility/bit.hpp"], [("methods chosen by the size of the range", "src/utility/algorithm.hpp: partial_argsort, lower_bound")], observe=["returned values"])
prop("D08", "Callable wrappers and scope guards run exactly what they hold",
 "A move-only function calls exactly the callable that it was last given, with that callable's state, through any sequence of assignments, moves, swaps and calls, calls that throw included, it is empty exactly when it holds none, and every held callable is destroyed exactly once; an assignment of a callable that cannot be stored because moving it throws leaves the wrapper as it was; a function reference calls the object it was last bound to. A scope guard that was not released runs its action exactly once when its scope is left, normally or by an exception, in reverse order of construction, and a released one never does; restored variables have their old values again after the scope. An indestructible object is usable and never destroyed.",
 ["histories"], "For every sequence of operations on any number of wrappers.",
 "The unit tests check single operations.",
 ["src/utility/functional.hpp", "src/utility/scope_exit.hpp", "src/utility/indestructible.hpp"], [("ownership through moves", "src/utility/functional.hpp: move_only_function")], observe=["calls and live objects"])
prop("D09", "Candidates are equal exactly when their chromosomes are",
 "Two candidates are equal exactly when their chromosomes have the same length and equal genes (genes within the tolerances for the real encoding), whatever their fitness values and flags, and the inequality is its negation. Equal candidates have the same hash for the other encodings, so that a hash set keeps exactly one of them, and the hash tells most different candidates apart. Copying or moving a candidate takes its chromosome, fitness and evaluated flag along.",
 ["inputs"], "For every pair of candidates of every gene type, user defined ones included, of any lengths.",
 "The unit tests compare a handful of candidates of one length.",
 ["src/core/candidate.hpp"], [("comparison and hash of chromosomes", "src/core/candidate.hpp")], observe=["results of ==, != and the hash"])
prop("P03", "Vector functions compute their definitions",
 "The numeric helpers that the algorithms are built from compute their definitions: the norm of a vector, the squared distance of two points, the volume of the box between two points, the normalised vector, the squared distance of a point to a line through the origin, the mean and the (population) standard deviation of a vector (zero for a single value), the equality of two vectors up to the tolerance (false for different lengths), and the antiderivative of a power of the sine.",
 ["inputs"], "For every vector of any length, signs, zeros and equal components included.",
 "The unit tests compare two or three fixed vectors.",
 ["src/utility/math.hpp", "src/utility/math.cpp"], [("numeric helpers", "src/utility/math.cpp")], observe=["values"])

prop("M01", "Metrics report the true statistics of every generation",
 "For every generation of a run, initial generation included, the tracked minimum, maximum, mean, sample variance (zero for a single candidate), standard deviation, nadir point and number of evaluations are those of that generation's population, and after the run each metric holds exactly one entry per generation. The metrics of an earlier run or of untracked kinds are never mixed in.",
 ["histories", "inputs", "configurations"], "For every population and fitness values, any number of objectives and population size (1 included), any set of tracked metrics and consecutive runs.",
 "The unit tests check the statistics helpers on fixed matrices and never a run.",
 ["src/metrics/fitness_metrics.cpp", "src/metrics/pop_stats.cpp", "src/metrics/distribution_metrics.cpp", "src/metrics/misc_metrics.cpp", "src/metrics/metric_set.hpp"], [("per generation updates", "src/metrics/*.cpp")], observe=["metric values after and during runs"])

prop("M02", "Reported hypervolumes equal the volume dominated by the population",
 "The hypervolume of a set of fitness vectors relative to a reference point equals the volume of the region that is dominated by at least one of them and dominates the reference point, for any number of objectives, duplicates and dominated vectors included, on any number of threads. The automatic variant reports for every generation the hypervolume relative to the worst point met during the whole run, earlier generations being corrected when that point moves.",
 ["inputs", "histories", "schedules"], "For every set of vectors and reference point, any number of objectives, every sequence of populations.",
 "The unit tests compare a few fixed sets and check monotonicity for two objectives.",
 ["src/metrics/pop_stats.cpp", "src/metrics/distribution_metrics.cpp"], [("exclusive volume recursion", "src/metrics/pop_stats.cpp"), ("reference point correction", "src/metrics/distribution_metrics.cpp: AutoHypervolume")], observe=["metric values"])

prop("F01", "The benchmark problems have their documented values, optima and domains",
 "Every benchmark problem supplied with the library has at every point of its domain the value that its documentation and the cited publication define, negated for maximization, with the stated number of objectives and variables and the stated bounds. Evaluating the stated optimal point gives the stated optimal value, no point of the domain is better than the stated ideal point (which is approximate for Kursawe), and the points of the stated optimal sets satisfy the stated equations. A binary chromosome is evaluated at the point whose variables are the binary numbers of their own groups of bits scaled onto their bounds. The fitness of a travelling salesman problem is the negated length of the closed tour through the cities in the order of the chromosome, ending at the last city, and the fitness of a string finder is the number of matching characters.",
 ["inputs"], "For every problem, dimension, number of objectives, number of bits per variable and point of its domain.",
 "The unit tests evaluate only the optimal points of some problems.",
 ["src/problems/*.cpp", "src/problems/*.hpp"], [("problem definitions", "src/problems/*.cpp")], observe=["fitness values", "stated bounds, optima, ideal and nadir points"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
