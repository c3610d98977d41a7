N = {}
T["C02"] = ("TLA+ spec Beliefs: TLC exhaustive + TLC validation of recorded whole-system runs (BeliefsTrace)",
            "Exhaustive for one concept, 3 inputs and derived beliefs with all overlaps, 5 time steps; every belief update of ~100 (quick) random whole-system runs is checked against the specification. Reals in 1e-8 fixed point; runs use reduced memory sizes.")
T["C03"] = ("TLA+ spec BoundedQueue: TLC exhaustive + replay of TLC behaviours + TLC validation of recorded calls",
            "Exhaustive for capacity 3; replayed and recorded operation sequences for capacities 1 to 400, full state of the queue compared after every call.")
T["C01"] = ("TLA+ spec Evidence: TLC exhaustive + TLC validation of the evidence lists in recorded whole-system runs (EvidenceTrace)",
            "Exhaustive for evidence lists of length 3 over 4 inputs; every evidence list that appears in ~100 (quick) random whole-system runs must arise as specified. One known finding: implications are revised without an overlap check.")
T["C22"] = ("TLA+ spec Lookup: TLC exhaustive + TLC validation of recorded calls (LookupTrace) and of the recent-event memory in whole-system runs (RecentTrace)",
            "Exhaustive for 3 keys, 3 cells; random operation sequences on the real structures with colliding and extreme hashes, full content compared after every call; recent-event memory checked in whole-system runs.")
T["C04"] = ("TLA+ spec Concepts: TLC exhaustive + TLC validation of concept memory, lookup and atom index in recorded whole-system runs (ConceptsTrace)",
            "Exhaustive for capacity 2 and 4 terms; every creation, eviction and re-ordering of concepts in ~50 (quick) random runs with 24 and 120 concepts is checked, with the complete lookup table and atom index compared after each.")
T["C05"] = ("TLA+ spec Links: TLC exhaustive + TLC validation of recorded table calls (TableTrace) and of all tables in recorded whole-system runs (LinksTrace)",
            "Exhaustive for capacity 2, two memory cells, three antecedents; 60 random call sequences on the real table and every table change in ~24 (quick) whole-system runs checked for placement, order, eviction, merging.")
T["C06"] = ("TLA+ spec Links: TLC exhaustive + TLC validation of every use of a learned implication in recorded whole-system runs (LinksTrace)",
            "Exhaustive for two memory cells that are recycled; in ~110 (quick) runs with 9 to 120 concepts every use for prediction, subgoaling and deciding must be of a link whose antecedent's concept is the one it was learned with.")
T["C08"] = ("TLA+ spec Unify: TLC exhaustive over small terms + TLC validation of recorded matching and substitution calls (UnifyTrace)",
            "Exhaustive for all 118098 pairs of patterns and terms of depth 2; ~6400 (quick) random calls of the real matching, substitution and term functions up to the size limit of 64 places must return exactly what the specification computes.")
T["C14"] = ("TLA+ spec Goals: TLC exhaustive (GoalsModel) + TLC validation of every sequence goal in recorded whole-system runs (GoalsTrace)",
            "Exhaustive for three sequences with variables over five concepts in all situations with strong, weak or no events at 3 times; in ~50 (quick) runs every sequence goal must lead to exactly the subgoal the specification allows, with term, truth, evidence, time, priority and level.")
T["C23"] = ("TLA+ spec Goals: TLC exhaustive (GoalsModel) + TLC validation of all goals in recorded whole-system runs (GoalsTrace)",
            "In ~50 (quick) runs the subgoals of every processed goal must be exactly those of the valid matching implications in memory, with term, truth, evidence, time, priority and level, and every added goal must stem from input, a sequence goal or such an implication.")
T["C12"] = ("TLA+ spec Decision: TLC exhaustive (DecisionModel) + TLC validation of every decision in recorded whole-system runs (DecisionTrace)",
            "Exhaustive for 5850 states of two goals, two operations and general, special, competing and harmful links; in ~56 (quick) runs every candidate implication, its expected fulfilment, the outcomes weighed, refutation, babbling and the final choice must be as specified.")
T["C13"] = ("TLA+ spec Decision: TLC exhaustive (DecisionModel) + TLC validation of every execution in recorded whole-system runs (DecisionTrace)",
            "In ~56 (quick) runs with succeeding and failing operations each execution must be the decided one, call its procedure once, enter the feedback once unless it failed, and find the goal queues emptied; nothing else calls a procedure or drops pending goals.")
T["C18"] = ("TLA+ spec Server: TLC exhaustive (ServerModel) + TLC validation of runs of the real server under a scheduler that decides every interleaving (ServerTrace)",
            "Exhaustive for every interleaving of the server's threads and a client with three datagrams, spurious wakeups and a stop at any time (30445 states); 1500 (quick) random schedules of the real UDPNAR.c and UDP.c, one thread at a time with a scheduling decision at every lock, condition, socket, sleep and reasoner call; the reasoner itself is replaced by stand-ins that announce when they begin and end. Weak-memory effects below the level of these calls are not explored.")
T["C19"] = ("TLA+ spec Anticipation: TLC exhaustive (AnticipationModel) + TLC validation of every prediction in recorded whole-system runs (AnticipationTrace)",
            "Exhaustive for three links (without, with, and generally with an operation), 3 events of different truths; in ~52 (quick) runs each anticipation must make exactly the predictions of the matching valid implications, with belief, time, truth, evidence and negative evidence as specified.")
T["C20"] = ("TLA+ spec Attention: TLC exhaustive (AttentionModel) + TLC validation of every queue change in recorded whole-system runs (AttentionTrace)",
            "Exhaustive for 3 queues of 2 items, 7 inputs, 3 cycles; in ~64 (quick) runs with queues of 6 to 40 items every entry, rejection, eviction, selection and decay, and the order of processing in each cycle, must be as specified.")
T["C24"] = ("TLA+ spec Generalize: TLC exhaustive (GeneralizeModel) + TLC validation of recorded generalization calls (GeneralizeTrace)",
            "Exhaustive for 40320 implications and conjunctions of small statements with sets, products, images, operations and variables; 4800 (quick) random calls of the real functions up to the size limit must return exactly what the specification computes.")
T["C10"] = ("TLA+ spec Truth/TruthLaws: TLC exhaustive on a grid (TruthModel) + TLC validation of recorded calls of all truth functions (TruthTrace)",
            "19845 combinations of truth values and steps satisfy the laws in 1e-8 fixed point; ~16400 (quick) calls of each of the 27 real functions on a grid of corner values and random ones must give the specified value (tolerance 6e-6), with range, order and symmetry compared exactly in double precision by the harness. Revision of two truth values without any evidence is outside.")
T["C11"] = ("TLA+ spec Learning: TLC exhaustive (LearningModel) + TLC validation of all temporal learning in recorded whole-system runs (LearningTrace)",
            "Exhaustive for 4 events or operations at 5 distances (108481 states); in ~40 (quick) runs each link, sequence and activation must be licensed by the remembered events, with term, truth, evidence and offset as specified, and every licensed one must be made.")
T["C09"] = ("TLA+ spec Inference/Rules: TLC exhaustive over small premises (InferenceModel) + TLC validation of recorded rule applications (RulesTrace) and of all inference in recorded whole-system runs (InferenceTrace)",
            "Exhaustive for 10100 pairs of small statements in every copula; recorded calls of the real rule engine on random terms with one and two premises must yield exactly the specified set of conclusions with their truth values, and in whole-system runs each inference step must combine exactly the premises and store exactly the conclusions specified.")
T["C21"] = ("TLA+ spec Shell: TLC exhaustive (ShellModel) + TLC validation of every shell line in recorded whole-system runs (ShellTrace)",
            "Exhaustive for 43485 states of command sequences; in ~50 (quick) runs the kind, effect on each setting, return code and printed report of every line, including lines that nearly are commands, must be as specified.")
T["C07"] = ("TLA+ spec Grammar: TLC exhaustive (GrammarModel) + TLC validation of recorded parser and printer calls (GrammarTrace) and of the inputs of recorded whole-system runs (InputTrace)",
            "Exhaustive for all terms of up to two levels over 3 atoms and all copulas, in four ways of writing; ~2900 (quick) random texts up to the size limit and beyond on the real parser under AddressSanitizer; inputs and questions of 18 whole-system runs.")
T["C15"] = ("TLA+ spec Questions: TLC exhaustive (QuestionsModel) + TLC validation of every question and query in recorded whole-system runs (QuestionsTrace)",
            "Exhaustive for memories of 2 concepts with beliefs, events, predictions and links; in ~48 (quick) runs each printed answer (term, times, evidence, truth) must be a best candidate of the recorded memory within 6e-6, each query list exactly the candidates above its threshold, and nothing but the answering concept's attention may change. Equally good candidates may be chosen between freely. Questions about an implication with an open consequence are asked without tense.")
T["C16"] = ("TLA+ spec Reset: TLC exhaustive self-composition (ResetModel) + TLC validation of pairs of recorded runs, compared line by line (ResetTrace)",
            "Exhaustive for 6 lines of any kind before and after a reset (4066 states); in ~36 (quick) pairs of runs, one after an arbitrary history and *reset and one newly started with the same settings and seed, every line must change the memory (all concepts, slots, links, queues, indexes, attention, settings) and print exactly alike; ~18 scripts are run twice, in differently built programs at different times; the shell program itself is compared in the same two ways by its output.")
T["C17"] = ("TLA+ spec Clock: TLC exhaustive (ClockModel) + TLC validation of the time in recorded whole-system runs (ClockTrace, LearningTrace, AnticipationTrace)",
            "Exhaustive for 4 lines of any kind with nested executions (257784 states); in ~64 (quick) runs with lines of all kinds every section must begin at the specified time, every line cost the specified cycles, every event carry a permitted time. The clock is set by command only forward.")
