NA = {}
NOTE["D01"] = NOTE["D02"] = NOTE["D03"] = NOTE["D04"] = NOTE["D05"] = (
 "TLA+ sequence model; TLC-generated operation sequences (one per model transition) and random ones replayed on the real container, traces validated by TLC",
 "All transitions of the bounded model are replayed on the real container under ASan with instrumented elements, and random longer histories; contents, queries and element lifetimes are compared with the model after every operation. Bounded by container sizes and sequence lengths.")
for _i in ("G01", "G02", "G03", "G04", "G06", "G07", "G09"):
    NOTE[_i] = ("TLA+ state machine of the solver (GaRun), model-checked (GaMC) and used by TLC to generate behaviours for the real solver; recorded whole runs validated by TLC",
     "Whole runs of the real solver of all four encodings with recording fitness functions, operators, algorithms, stop conditions, metrics and callbacks; every recorded event must be a transition of GaRun. Bounded by short chromosomes, small populations and few generations.")
for _i in ("S01", "S02", "M01"):
    NOTE[_i] = ("TLA+ definition over the history of generations (Hist); TLC-enumerated fitness histories and random ones replayed through the real solver; traces validated by TLC",
     "The fitness history of a run is chosen by the test algorithm, so that every history of the bounded model is realised on the real conditions and metrics. Bounded by history length and small fitness values.")
NOTE["M02"] = ("TLA+ exact integer definition of the dominated volume (Hist); traces of real metrics validated by TLC", "Volumes are computed by counting unit cells in TLA+; random sets and histories with up to four objectives. Bounded by small integer coordinates.")
NOTE["G08"] = ("TLA+ state machine of settings (Conf), TLC enumerates the setter/run sequences replayed on the real solver; traces validated by TLC", "All orders of constructor, setters and runs up to the model's bound plus longer random ones.")
NOTE["A01"] = NOTE["A04"] = NOTE["A05"] = (
 "TLA+ definition of replacement, fronts, crowding and niching (Algo, Moo) over the recorded runs of the real algorithms; traces validated by TLC",
 "The fitness of every candidate that will exist in a run is chosen by the harness (ties, infinities, degenerate fronts); TLC decides for every generation whether the population that the real algorithm kept is one that the definition allows, and for recorded selections whether their frequencies are. Bounded by small populations, few generations and integer fitness.")
NOTE["A02"] = ("TLA+ definition of the selection weights in exact integer arithmetic (Algo); frequencies of real selections validated by TLC",
 "Selections are drawn from the real methods with random parameters and fitness assignments and their frequencies compared with the exact weights, with a tolerance of at least six standard deviations.")
NOTE["A03"] = NOTE["P01"] = (
 "TLA+ definitions of dominance, pareto front and dominance depth with tolerances (Moo), model-checked on all small sets; TLC-generated and random sets evaluated by the real procedures, results validated by TLC",
 "Every set of the bounded model and thousands of random sets go through all procedures of the library; bounded by set size and small integer values scaled to multiples of the tolerance.")
NOTE["A06"] = ("TLA+ definition of the simplex and of the exact maximum scalar product (Algo); results of the real generators and of the real search validated by TLC", "Random sets of directions (duplicates, degenerate, unbalanced) and queries with integer coordinates, also under AddressSanitizer.")
NOTE["P02"] = ("TLA+ definition of the merged pareto set and of the nadir point (Algo); results of the real functions on several threads validated by TLC", "Random pareto sets with shared and duplicate vectors merged by the real code with 1 to 8 threads, several times each.")
_S = "random-walk and priority schedules with weak-memory reads; happens-before race detection; bounded by programs of few threads and operations"
NOTE["C01"] = NOTE["C02"] = ("TLA+ model of the pool (PoolMC: exactly once, no deadlock) and TLA+ trace specification (Conc) of parallel loops; executions of the real pool under a deterministic scheduler validated by TLC",
    "Random trees of loops (nested, concurrent, empty, block sizes, thread counts, throwing bodies) on the real thread pool compiled against scheduled synchronisation types; " + _S)
NOTE["C03"] = ("TLA+ model of the queue (QueueMC), TLC-generated client programs, linearisability of real executions judged by TLC (Conc)", "All client programs of the bounded generator and random ones on the real queue under the scheduler; " + _S)
NOTE["C04"] = ("TLA+ model of the lock (SpinMC), TLC-generated client programs, real executions judged by TLC (Conc)", "All client programs of the bounded generator and random ones on the real locks under the scheduler; " + _S)
NOTE["C05"] = ("TLA+ model of the scheme with store buffers (RcuMC), TLC-generated client programs, real executions judged by TLC (Conc)", "All client programs of the bounded generator and random ones on the real read-copy-update objects under the scheduler; " + _S)
NOTE["R03"] = ("TLA+ trace specification of streams (Conc); executions of the real generator under the scheduler validated by TLC", "Threads that draw, end, start and are re-seeded; every number is attributed to a stream and position; " + _S)

NOTE["V01"] = NOTE["V02"] = (
 "TLA+ definitions of the operators (Ops), all pairs of short permutations generated by TLC (XoMC) and random chromosomes through the real operators; outcomes, frequencies and distributions validated by TLC",
 "Every pair of parents up to the bounded length and random ones up to length 70 of all encodings; every distinct outcome must be explained by the documented construction for some choice of points. Real operators are judged with a resolution of 1/256 and by histograms with a tolerance of six standard deviations.")
NOTE["V03"] = ("TLA+ rules for what a candidate remembers (Ops, GaRun); calls of the real operators and whole runs of the real solver validated by TLC",
 "Direct calls with user defined and built-in operators (equal parents, children equal to a parent, unevaluated inputs) and whole runs in which every evaluation is recorded.")
NOTE["G05"] = ("TLA+ definition of valid chromosomes (Ops, GaRun) over whole runs of the real solver; traces validated by TLC",
 "Random configurations of encodings, operators, parameters, rates, bounds (equal, tiny, huge), algorithms and initial populations; every chromosome that is evaluated, kept or returned is checked.")
NOTE["R02"] = ("TLA+ definition of ranges, distinctness and frequencies of the random utilities (Rnd); results of the real functions validated by TLC",
 "All integer widths, both common real types, full, single-element and extreme ranges, samples around every internal limit, weights with zeros and denormal totals; frequencies with a tolerance of six standard deviations.")
NOTE["R01"] = ("TLA+ model of streams, workers and the scheduler (ReproMC) and TLA+ specification of a run as a function of configuration and seed (Repro); digests of every generation of repeated real runs validated by TLC",
 "Random configurations of all encodings, algorithms, operators and noisy fitness functions run repeatedly on 1 to 6 threads with perturbed timing and, under the deterministic scheduler, on sampled schedules, with other runs, failures and draws in between.")
NOTE["F01"] = ("TLA+ fixed point definitions of every benchmark problem (Bench), model-checked on grids (BenchMC) and compared with the values of the real problems on all model points and random ones; traces validated by TLC",
 "Every problem with 1 to 9 variables or 2 to 6 objectives, at grid points, corners, documented optimal sets and random points, real and binary encoded (1 to 64 bits per variable); tours of random and supplied city lists. Resolution about 1/500 of a value.")
NOTE["R04"] = ("TLA+ definition of the generators over 64-bit words (Prng); TLC checks that the published jump is the 2^96th power of the step (PrngMC) and validates recorded sequences of the real generators",
 "Random programs of draws, jumps, copies and seedings on two generators of each kind, with extreme and random seeds; every number and every comparison is recomputed by the specification.")
NOTE["D06"] = ("TLA+ model of positions in a changing sequence (Iter, IterMC); TLC-generated operation sequences (one per model transition) and random ones replayed on the real iterators under ASan, traces validated by TLC",
 "All kinds of iterators of the library over short sequences (any rotation of the ring, any growth of the container), all operators after every step. Bounded by sequence length and number of iterators.")
NOTE["D07"] = ("TLA+ definitions of the range algorithms (Range); all short ranges generated by TLC (RangeMC) and random ones up to 120 elements through the real functions under ASan, results validated by TLC",
 "Every sequence of the bounded model with every middle, and random ranges with ties across the internal size switches, forward, reversed, rings and deques; partial shuffles by frequencies with a tolerance of six standard deviations.")
NOTE["D08"] = ("TLA+ state machine of wrappers, their targets and live objects (Range); random histories of operations on the real wrappers under ASan, traces validated by TLC",
 "Random histories of up to 20 operations on three move-only functions and two references, with throwing calls; every result, emptiness and the number of live targets is compared after each step.")
NOTE["G10"] = ("TLA+ definition of uniform, independent generation over tables of counts (Ops.Gen0Ok); tables counted over the real first populations of 3000 candidates, validated by TLC",
 "Random lengths up to 6 and bounds with up to 4 values per gene; single genes, pairs of genes, successive candidates and whole permutations (length up to 4) by frequencies, with a tolerance above six standard deviations; real genes in quarters of their range.")
NOTE["D09"] = ("TLA+ definition of candidate equality and of what a hash set keeps (Range); results of the real operators on random candidates validated by TLC",
 "Random candidates of up to 4 genes over small alphabets in the four encodings and a user defined gene type, built by different constructors, with perturbations below the tolerance for the real encoding.")
NOTE["P03"] = ("TLA+ definitions in integer and fixed point arithmetic (Range); values of the real functions validated by TLC",
 "Random vectors of small integers up to 12 components; resolution 1/256 to 1/1024 of a unit, the antiderivative through its differences and its reduction formula.")
