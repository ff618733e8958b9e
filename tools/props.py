"""Property table; tools/gen.py turns it into properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append({"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why,
              "files": ["src/rxn_network/" + f for f in files], "mech": mech, "technique": technique, "note": note})


BASE = ("Exhaustive within the bounds printed in the evidence file (which counts the states, transitions and traces of the run); "
        "the real code of /repo is executed on every one of them, so every trace is validated against the implementation by construction. ")

prop("P01", "Balancing finds the right coefficients or reports that none exist",
     "For any disjoint reactant and product phases, balancing returns coefficients that conserve every element exactly when such non-zero "
     "coefficients exist, and otherwise flags the reaction as unbalanced instead of returning one that looks valid. When the balanced reaction is "
     "unique up to scale, the result is that reaction with reactants consumed and products formed (or with its sign errors counted when this is impossible), "
     "independent of the order in which the phases are listed and of how their formulas are scaled; data given with the request is carried over and the caller's own dictionary is left alone.",
     ["inputs"], "every ordered pair of disjoint reactant/product sets up to the size bound from five pools of compositions, in every listing order (small sizes)",
     "The tests balance a handful of hand-picked reactions; the space of phase combinations, orders and scalings is combinatorial.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
     [("SVD null-space balancing", "BasicReaction._balance_coeffs")],
     "exhaustive enumeration of balancing problems against an exact rational null-space model",
     BASE + "Oracle: Fraction arithmetic (no floats). Same phase listed twice is outside the property.")

prop("P02", "Reversing, normalising, copying and opening reactions keep their meaning",
     "Along any sequence of reversal, copying, normalisation to a phase or element, change of chemical potential, serialisation and parsing, a reaction's "
     "coefficients, phases, energy, energy per atom, atomic fractions, chemical systems and chemical potentials stay those of the same physical reaction: "
     "reversal is an involution that negates energies, normalisation is a positive rescaling that sets the requested amount to one, and extensive "
     "quantities scale with it while intensive ones do not. The original object is never changed by such an operation.",
     ["histories", "inputs"], "every sequence of operations up to the depth bound, from every start reaction of the pool (closed and open)",
     "Unit tests apply single operations to single reactions; the property is about arbitrary sequences.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
     [("derived reactions", "BasicReaction.normalize_to / reverse / copy, ComputedReaction.reverse, OpenComputedReaction")],
     "breadth-first state-space exploration of operation sequences on the real objects against a scalar reference model",
     BASE + "Oracle: a reference model carrying exact formula-unit coefficients and energies.")

prop("P03", "Reaction energies equal the stoichiometric sum of entry energies",
     "The energy of any computed reaction between phases of distinct compositions is the sum over its phases of coefficient times energy per formula unit of the phase's entry, whatever formula unit or "
     "supercell the entry is stored in; energy per atom divides by the number of atoms on one side, and the energy uncertainty combines independent "
     "per-element correction uncertainties in quadrature. For a reaction open to elements at given chemical potentials, the energy is the grand potential "
     "change, in which each open element's atoms are exchanged at its chemical potential, and the per-atom value counts the closed elements' atoms only.",
     ["inputs", "configurations"], "every reaction of the pool x every per-phase supercell multiple x every entry type mix x every open-element/chemical-potential choice",
     "The tests compare a few stored numbers, which cannot separate e.g. per-formula from per-cell energies for every entry type and multiplicity.",
     ["reactions/computed.py", "reactions/open.py", "reactions/basic.py"],
     [("energy sums", "ComputedReaction.energy/energy_per_atom/energy_uncertainty, OpenComputedReaction.energy")],
     "exhaustive enumeration of reactions, supercell multiplicities, entry types and chemical potentials against a reference energy model",
     BASE + "Oracle: direct sums in float with tolerance 1e-6.")

prop("P04", "Reaction equality is an equivalence consistent with hashing",
     "Two reactions compare equal exactly when they contain the same phases with the same coefficients (and, where entries exist, entries of the same energies), regardless of the order in "
     "which phases are listed; equality is reflexive, symmetric and transitive, and equal reactions have equal hashes. Reactions with different "
     "coefficients, phases or directions are unequal, and a reaction is an identity exactly when it changes nothing.",
     ["inputs"], "every ordered pair (and triple) of a pool of reactions in all listing orders and perturbations",
     "Equality laws quantify over all pairs and triples; the tests compare a few objects.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
     [("__eq__/__hash__", "BasicReaction, ComputedReaction, OpenComputedReaction")],
     "exhaustive pairwise enumeration of reaction states against canonical-form equality",
     BASE)

prop("P05", "Serialised objects come back with the same content",
     "Converting any reaction, reaction set, pathway set, entry, entry set, enumerator, cost function or network to its dictionary/JSON form and back yields an object with the same "
     "content and behaviour (energies, coefficients, entries, flags, parameters), repeatedly and without altering the dictionary or the original object. Printing a reaction "
     "and parsing the string back gives the same phases and coefficients.",
     ["inputs", "histories"], "every object of the pools x every number of round trips up to the bound x every configuration of the constructor options enumerated",
     "The tests round-trip one default-configured object of some classes, if at all.",
     ["reactions/basic.py", "reactions/computed.py", "reactions/open.py", "reactions/reaction_set.py", "entries/gibbs.py", "entries/experimental.py",
      "entries/interpolated.py", "entries/entry_set.py", "network/network.py", "enumerators/basic.py", "costs/functions.py", "pathways/pathway_set.py"],
     [("MSONable", "as_dict/from_dict of every class")],
     "exhaustive enumeration of object configurations through repeated serialisation cycles",
     BASE)

prop("P06", "A reaction set contains exactly the reactions put into it",
     "Along any sequence of building a reaction set from reactions (with or without an explicit entry list), adding reactions or another set over the same entries, changing the open element or its chemical "
     "potential and round-tripping it, iterating the set yields exactly the reactions put in, each with its own entries, coefficients and attached data, at the set's "
     "chemical potential; its length and the order of computed costs agree with iteration. Operations return new sets and leave the old ones unchanged.",
     ["histories"], "every operation sequence up to the depth bound from every start set and construction variant",
     "Tests build one set from one enumeration; polymorphs, mixed sizes, data and sequences of operations are not covered.",
     ["reactions/reaction_set.py"], [("indexed storage", "ReactionSet.from_rxns/get_rxns/add_rxns/add_rxn_set/set_chempot")],
     "breadth-first state-space exploration of container operation histories against a list model", BASE)

prop("P07", "Duplicate filtering keeps exactly one of each distinct reaction",
     "Filtering duplicates returns a set in which every reaction of the input is represented by exactly one reaction with the same phases and entries that is a positive multiple of it, "
     "reverse reactions and reactions over different polymorphs are not confused, and every reaction that was asked to be kept is kept. "
     "The outcome is the same serially and in parallel, for any number of CPUs and any completion order of the parallel work.",
     ["inputs", "schedules", "configurations"], "every multiset (bounded) of a reaction pool with multiples, reversals, permutations; every CPU count 1-5; every completion order with bounded deviations",
     "Tests filter one set once; orders, CPU counts and kept subsets are not enumerated.",
     ["reactions/reaction_set.py", "utils/ray.py"], [("filter_duplicates", "ReactionSet.filter_duplicates, _get_idxs_to_keep, to_iterator")],
     "stateless model checking of the parallel filter under a controlled Ray scheduler plus exhaustive small inputs", BASE + "Ray is replaced by an in-process scheduler with pickle isolation (vlib/fakeray.py).")

prop("P08", "Queries by reactants or product find exactly the matching reactions",
     "Asking a reaction set for the reactions with given reactants returns exactly those whose reactant formulas all lie in the given list, and asking for a product exactly those "
     "that form a phase with that formula, for any polymorph, any position of the phase in the set and any spelling of the formula. The answer has the same reactions whether requested as a list or as a reaction set.",
     ["inputs"], "every bounded subset of a reaction pool x every product formula x every reactant subset",
     "Tests query one set for one formula.",
     ["reactions/reaction_set.py"], [("index queries", "ReactionSet.get_rxns_by_reactants/get_rxns_by_product")],
     "exhaustive enumeration of sets and queries against direct filtering", BASE)

prop("P09", "Re-evaluating a reaction set at new conditions equals rebuilding it",
     "Recomputing a reaction or a reaction set at a new temperature (or list of temperatures) or chemical potential gives exactly the reactions obtained by rebuilding the same reactions from entries at that "
     "temperature: same phases and polymorphs, same coefficients and attached data, with the energies of the new conditions. The result does not depend on the temperatures visited before, and the original is unchanged.",
     ["histories", "inputs"], "every sequence of temperature/chemical-potential changes up to the depth bound on sets with polymorphs, experimental and gas entries",
     "The tests recompute a set without polymorphs once and compare one energy.",
     ["reactions/reaction_set.py", "reactions/computed.py", "reactions/open.py", "entries/gibbs.py"],
     [("set_new_temperature", "ReactionSet.set_new_temperature/compute_at_temperatures/set_chempot")],
     "breadth-first exploration of condition-change histories against rebuilt reaction sets", BASE)

prop("P10", "The basic enumerator yields exactly the reactions that match its options",
     "For any set of entries and any combination of precursors, targets, size limit, exclusivity and calculation options, basic enumeration yields exactly the distinct balanced reactions among combinations of at most the given number of "
     "reactants and products that satisfy the request: reactants drawn from precursors and products from targets where exclusivity is demanded, at least one requested precursor or target involved otherwise, "
     "no phase on both sides, and energies of the given entries. No reaction is missing, repeated, unbalanced or outside the request.",
     ["inputs", "configurations"], "every combination of the enumerator options on several small chemical systems",
     "The tests count the reactions of one system for a few option settings.",
     ["enumerators/basic.py", "enumerators/utils.py"], [("combinatorial enumeration", "BasicEnumerator.enumerate and hooks; react, apply_calculators")],
     "explicit enumeration of every candidate reaction with exact arithmetic, compared with the enumerator over every option setting", BASE)

prop("P11", "The open enumerator adds the open phases correctly",
     "Enumeration with open phases yields exactly the balanced reactions with at least one and at most the allowed number of closed phases on each side and one or more of the open phases, all added to the same side, each balanced with "
     "non-zero amounts of the phases shown, satisfying the same precursor and target request as closed enumeration. No reaction is missing, repeated or unbalanced.",
     ["inputs", "configurations"], "every option combination x every choice of open phases on several small systems",
     "The tests count reactions of one system with one open phase.",
     ["enumerators/basic.py"], [("open combinations", "BasicOpenEnumerator")],
     "explicit enumeration of every candidate reaction with exact arithmetic, compared with the enumerator over every option setting", BASE)

prop("P12", "Enumeration does not depend on chunking, CPUs or completion order",
     "For every enumerator, the set of reactions found is the same for every chunk size, every limit on in-flight jobs, every number of CPUs, parallel or serial execution and every order in which parallel work completes. "
     "Combining several enumerators yields the union of their reactions without duplicates.",
     ["schedules", "configurations"], "every chunk size x job cap x CPU count on small systems; every completion order with bounded deviations from FIFO and LIFO",
     "Tests run with one chunk size on whatever order the machine produced.",
     ["enumerators/basic.py", "enumerators/minimize.py", "enumerators/utils.py", "utils/ray.py", "jobs/core.py"],
     [("parallel driver", "BasicEnumerator._get_rxns_from_items / to_iterator / run_enumerators")],
     "stateless model checking of the parallel enumeration under a controlled Ray scheduler", BASE + "Ray is replaced by an in-process scheduler with pickle isolation.")

prop("P13", "Thermodynamic-minimisation enumeration finds the hull reactions",
     "The free-energy-minimising enumerators yield, for each pair of reactants, exactly the reactions to product assemblages that are on the lower convex hull of the compositions spanned by the reactants "
     "(at the given chemical potential for open systems), filtered by the request. No metastable assemblage is reported and none on the hull is missing.",
     ["inputs", "configurations"], "every pair of reactants of several systems x option settings x chemical potentials",
     "Tests count reactions of one system.",
     ["enumerators/minimize.py", "enumerators/utils.py", "reactions/hull.py"], [("interface reactions", "MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator")],
     "explicit enumeration with an independent lower-hull model over all reactant pairs", BASE)

prop("P14", "An entry set behaves as a set with consistent cached views",
     "Along any sequence of additions, removals, filtering, copying and queries, an entry set's membership, size, iteration, entry list, minimum-energy entries, chemical system and lookups all reflect the current members "
     "and nothing else. Lookup by formula returns the lowest-energy entry with that formula, copies have independent membership and keep the set's options, and queries never change the set. Entries that compare equal have equal hashes.",
     ["histories"], "every operation sequence up to the depth bound over a pool of entries with polymorphs",
     "Tests build one set from a fixture and check single operations; stale caches need sequences.",
     ["entries/entry_set.py"], [("cached views", "GibbsEntrySet.add/remove/discard/_clear_cache/entries_list/min_entries_by_formula")],
     "breadth-first exploration of mutation/query histories against a plain-set model", BASE)

prop("P15", "Stability queries agree with the convex hull",
     "The energy above hull, stability filtering, stabilised copies and interpolated entries of an entry set agree with the exact lower convex hull of its formation energies: filtering at a cutoff keeps precisely the lowest-energy polymorphs "
     "whose energy above the hull is within the cutoff, a stabilised entry lies on (or below by the requested tolerance) the hull with the same composition, and an interpolated entry has the hull energy of its composition. "
     "Sub-diagrams assembled for large chemical systems give the same answers as the full diagram.",
     ["inputs", "configurations"], "every subset of the entry pool up to the bound x cutoffs x options",
     "Tests check a few fixed numbers on one fixture.",
     ["entries/entry_set.py", "thermo/utils.py", "entries/interpolated.py"], [("hull queries", "GibbsEntrySet.filter_by_stability/get_e_above_hull/get_stabilized_entry/get_interpolated_entry, expand_pd")],
     "exhaustive enumeration of entry sets against an exact vertex-enumeration hull model", BASE)

prop("P16", "Entry energies at a temperature are independent of how it was reached",
     "For computed, experimental and interpolated entries, the energy at a temperature depends only on the entry's data and that temperature: changing temperature step by step, in any order, through copies or serialisation, gives the same energy as constructing the entry at that "
     "temperature directly, with every correction evaluated at that temperature. Intermediate temperatures interpolate the tabulated data, tabulated temperatures reproduce it, and temperatures outside the supported range are refused.",
     ["histories", "inputs"], "every path of temperature changes up to the depth bound for every entry of the pool and every supported temperature step",
     "Tests evaluate a few temperatures on one entry.",
     ["entries/gibbs.py", "entries/experimental.py", "entries/nist.py", "entries/freed.py", "entries/corrections.py", "entries/interpolated.py"],
     [("temperature dependence", "GibbsComputedEntry.gibbs_adjustment/get_new_temperature, ExperimentalReferenceEntry")],
     "breadth-first exploration of temperature-change histories against direct construction and a table-interpolation model", BASE)

prop("P17", "Building entry sets includes and corrects the right entries",
     "Constructing a Gibbs entry set from computed entries or a phase diagram keeps every computed phase once (elements in their reference form), replaces phases having experimental data by the chosen experimental tables when these are enabled (and only then), "
     "and applies carbonate and atmospheric CO2 corrections exactly when enabled and chemically applicable. The result depends only on the entries and options, not on the order of the entries or on how the chemical system is split.",
     ["configurations", "inputs"], "every combination of data-source and correction options x entry orders x chemical systems of the pool",
     "Tests use the default options on one fixture.",
     ["entries/entry_set.py", "entries/corrections.py"], [("construction", "GibbsEntrySet.from_computed_entries/from_pd")],
     "exhaustive enumeration of construction configurations against a reference model of inclusion and corrections", BASE)

prop("P19", "The reaction network has exactly the nodes and edges of its reactions",
     "Building a network from any reaction set gives a node for each reactant set and each product set, one edge per reaction with that reaction and its cost, "
     "and zero-cost links from a product node to every reactant node whose phases are all available from it together with the precursors. No other reaction edge exists.",
     ["inputs"], "every bounded subset of a reaction pool x precursor and target choices",
     "Tests check counts on one network.",
     ["network/network.py", "network/entry.py", "network/base.py"], [("graph construction", "ReactionNetwork.build/set_precursors/set_target")],
     "exhaustive enumeration of reaction sets against a reference graph model", BASE)

prop("P20", "Setting precursors and target is independent of earlier settings",
     "Whatever precursors and targets were set before, in whatever order, setting precursors and target leaves the network with the structure it would have had if they had been the first ones set on a fresh network. "
     "Pathways found afterwards only start from the current precursors and only end at the current target.",
     ["histories"], "every sequence of set-precursors/set-target/find operations up to the depth bound",
     "Tests set precursors and target once.",
     ["network/network.py"], [("special nodes", "ReactionNetwork.set_precursors/set_target")],
     "breadth-first exploration of set-precursors/set-target histories compared with fresh networks", BASE)

prop("P21", "Path finding returns the k cheapest loopless paths",
     "For any directed graph with non-negative weights, asking for the k shortest paths between two nodes returns the k cheapest distinct loopless paths in order of increasing total cost, or all of them if fewer exist. "
     "Pathways found in a network are those paths, each giving the sequence of reactions along it with their costs; where several reactions lead from one node to another, the cheapest is used.",
     ["inputs"], "every directed graph with up to the bound number of nodes and edge weights from a small set, every k",
     "Tests search one network with k of a few.",
     ["network/network.py", "network/base.py", "utils/funcs.py"], [("Yen's algorithm", "yens_ksp, shortest_path_to_reactions, ReactionNetwork.find_pathways")],
     "exhaustive enumeration of small graphs against brute-force path enumeration", BASE)

prop("P22", "The pathway solver returns exactly the balanced pathways",
     "Given reactions from candidate pathways and a net reaction, the solver returns every combination of at most the allowed number of linearly independent reactions (other than the net reaction itself) that balances to the net reaction with all multiplicities positive, "
     "and nothing that does not balance: each returned pathway conserves all phases, sums to the net reaction with its multiplicities, and uses each reaction once. A pathway is interdependent when its steps cannot be ordered so that each uses only precursors and products of earlier steps; such pathways are flagged or removed as requested. None of this depends on which other entry sets the entries take part in.",
     ["inputs", "configurations"], "every subset (bounded) of a pool of pathways x net reactions x options",
     "Tests count solutions of one problem.",
     ["pathways/solver.py", "pathways/balanced.py"], [("pseudo-inverse balancing", "PathwaySolver.solve, _balance_path_arrays")],
     "explicit enumeration of all reaction combinations with exact arithmetic", BASE)

prop("P23", "Pathway solving does not depend on chunking, CPUs or completion order",
     "The set of balanced pathways, with their multiplicities and costs, is the same for every chunk size, batch size, number of CPUs and every order in which parallel work completes.",
     ["schedules", "configurations"], "every chunk size x batch size x CPU count; every completion order with bounded deviations from FIFO and LIFO",
     "Tests run one configuration.",
     ["pathways/solver.py", "utils/ray.py"], [("parallel driver", "PathwaySolver.solve")],
     "stateless model checking of the solver under a controlled Ray scheduler", BASE + "Ray is replaced by an in-process scheduler with pickle isolation.")

prop("P24", "Pathway objects report consistent properties",
     "A balanced pathway's average cost, balance status, interdependence and matrices are those implied by its reactions, multiplicities and costs, whatever the order of the reactions. "
     "Pathways compare equal exactly when they contain the same reactions in the same order (balanced pathways: also with the same multiplicities and costs), and a pathway set reproduces the pathways it was built from.",
     ["inputs"], "every subset and order of a reaction pool with multiplicities from a small set",
     "Tests check one pathway.",
     ["pathways/balanced.py", "pathways/basic.py", "pathways/base.py", "pathways/pathway_set.py"], [("pathway algebra", "BalancedPathway, BasicPathway, PathwaySet")],
     "exhaustive enumeration of pathways against a reference model", BASE)

prop("P25", "The interface reaction hull is the convex hull of its reactions",
     "For any set of reactions between two reactants, the hull's stable reactions are exactly the vertices of the lower convex hull of reaction energy against mixing ratio, every reaction's energy above the hull is its vertical distance to it, and stable reactions have zero. "
     "Coordinates, maxima, areas and heights derived from the hull agree with that geometry and do not depend on the order of the reactions.",
     ["inputs"], "every bounded set of points over a grid of mixing ratios and energies, in several orders",
     "Tests use one hull.",
     ["reactions/hull.py"], [("2-D hull", "InterfaceReactionHull")],
     "exhaustive enumeration of small reaction sets against an exact rational lower hull", BASE)

prop("P26", "Competition metrics follow their definitions",
     "Primary competition, primary area competition and secondary competition of a reaction on an interface hull equal their defining expressions, the recursive and the enumerating evaluation of the decomposition sequences agree, and the number of "
     "decomposition sequences for n intermediate vertices is the n-th Catalan number. Competition energies are never negative and do not depend on the order of the reactions.",
     ["inputs"], "every hull shape (bounded number of vertices, grid energies)",
     "Tests check one number.",
     ["reactions/hull.py", "costs/calculators.py"], [("decomposition sequences", "InterfaceReactionHull.get_secondary_competition/get_decomposition_energy/_recursive")],
     "exhaustive enumeration of hull shapes against the definitions", BASE)

prop("P27", "Chemical potential diagrams are correct and unaffected by queries",
     "The stability domain of each phase is exactly the region of chemical potentials where that phase minimises the grand potential; phases on the hull have a domain (its vertices lie within the elemental limits, no chemical potential above zero) and others only a metastable one, and the shortest distance between two domains is symmetric and zero exactly for phases that can coexist. "
     "Queries, including those about metastable phases, leave the diagram unchanged, so answers do not depend on the order of queries. A diagram of fewer than two elements, or lacking a terminal element, is refused.",
     ["inputs", "histories"], "every subset of the entry pool x every sequence of queries up to the depth bound",
     "Tests check a few distances on one diagram, once.",
     ["thermo/chempot_diagram.py"], [("half-space intersection", "ChemicalPotentialDiagram")],
     "exhaustive query histories and entry sets against a constraint-checking model", BASE)

prop("P28", "Cost functions and calculators compute their definition without side effects",
     "A cost function's value equals its defining formula of the reaction's parameters, finite for every realistic reaction and strictly increasing with energy, and raises for a missing parameter. "
     "Calculators return the defined value for every reaction and decorating a reaction does not change the original; decorating many equals decorating each.",
     ["inputs", "configurations"], "every parameter combination on a grid x reactions of the pool x calculators",
     "Tests evaluate single points.",
     ["costs/functions.py", "costs/calculators.py", "costs/base.py"], [("evaluation", "Softplus, WeightedSum, Calculator.decorate/decorate_many")],
     "exhaustive enumeration of parameter grids against closed-form models", BASE)

prop("P29", "The Pareto front contains exactly the non-dominated rows",
     "For any table, cost columns and maximise/minimise choice, the Pareto front consists of exactly the rows that no other row dominates, including ties and duplicates, with all their columns, whatever the row order (when maximising, the first metric, the reaction energy, stays minimised). Rows lacking a metric displace no other row.",
     ["inputs"], "every table with up to the bound rows over a small value grid and 1-3 columns",
     "Tests use one table.",
     ["costs/pareto.py"], [("dominance", "is_pareto_efficient, get_pareto_front")],
     "exhaustive enumeration of small tables against pairwise dominance", BASE)

prop("P30", "Tabulated reactions list every reaction with its own values",
     "The table made from a reaction set (whose reactions carry the same extra data keys) has one row per reaction, each with that reaction's energy, uncertainty, added elements, separability, extra data and cost, sorted by cost; it is the same for repeated calls and reflects the arguments of each call.",
     ["inputs", "histories"], "every bounded subset of a pool x argument combinations x call sequences",
     "Tests tabulate one set once.",
     ["reactions/reaction_set.py", "reactions/computed.py"], [("to_dataframe", "ReactionSet.to_dataframe")],
     "exhaustive enumeration of sets, arguments and call sequences against a reference table", BASE)

prop("P31", "Workflow jobs and flows pass data and options through unchanged",
     "The workflow jobs (entry sets, enumeration, competition scores, network construction, pathway solving) give the same results as calling the library directly with the same inputs and options, independent of how the work is chunked, and the network flow wires its jobs so that every option set on the flow or its makers reaches the job it configures and every job consumes the output of the right predecessor. Makers and inputs are left unchanged.",
     ["configurations", "inputs"], "every option combination enumerated for each job and flow",
     "Tests run one flow with defaults.",
     ["jobs/core.py", "jobs/utils.py", "jobs/schema.py", "flows/core.py"], [("maker wiring", "jobs.core makers, flows.core makers")],
     "exhaustive enumeration of configurations; job graph and results compared with direct library calls", BASE)

prop("P32", "Parallel and iteration helpers deliver every item exactly once",
     "Waiting for parallel results yields the result of every submitted task exactly once in any completion order and propagates task errors; grouping, chunking and bounded power sets produce every item or subset exactly once and in order.",
     ["schedules", "inputs"], "every completion order (all permutations up to the bound) and every input size/limit up to the bound",
     "Tests cover one order and size.",
     ["utils/ray.py", "utils/funcs.py"], [("helpers", "to_iterator, grouper, limited_powerset, initialize_ray")],
     "stateless model checking of completion orders; exhaustive inputs", BASE)

prop("P33", "Retrieval from databases returns exactly the requested, processed data",
     "Retrieving entries for a chemical system (of any size, given in any order) returns every matching entry of every chemical subsystem, processed with the requested temperature, stability and option filters, whichever source (entry database or Materials Project) is used; formulas that must be included are always present and nothing else is added. Retrieving stored reactions returns those of the most recent run matching the requested target, open element, chemical potential and run identifier.",
     ["inputs", "configurations"], "every combination of retrieval options over a small in-memory database; every bounded history of stored runs x every query",
     "The tests that cover this need the network or a fixture database.",
     ["entries/utils.py", "utils/database.py", "jobs/core.py"], [("retrieval", "get_all_entries_in_chemsys_from_entry_db, process_entries, GetEntrySetMaker, get_rxns_from_db")],
     "exhaustive enumeration of retrieval options over an in-memory store", BASE)

prop("P34", "Plots and filtered tables show exactly the data they are given",
     "A reaction scatter plot (two or three metrics) shows every row of its table exactly once at its own values, the Pareto front trace holding exactly the non-dominated rows, with the colours and hover texts of the right rows, whatever the row labels of the table. "
     "Filtering a table by available precursors keeps exactly the rows whose reactants are all available, however the precursors' formulas are written. "
     "A pathway plotter turns phase amounts along a temperature profile (optionally median-smoothed) into the matching amounts, elemental amounts, compositions and energy above the hull of the same composition at each temperature (also for profiles which hold or revisit a temperature, and formulas which are not reduced). "
     "A network plot draws each node of the network once, nodes sharing a colour exactly when they are of one chemical system. No plot or filter changes the data it is given, and results do not depend on earlier plots.",
     ["inputs", "histories"], "every small table over a value grid x row labels x options x call sequences; every subset of precursors; every small amount/temperature profile; every small network",
     "No test looks at the content of a plot or filtered table.",
     ["reactions/plotting.py", "pathways/plotting.py", "network/visualize.py"], [("plotted data", "plot_reaction_scatter, filter_df_by_precursors, PathwayPlotter, plot_network")],
     "exhaustive enumeration of small tables, profiles and networks; plotted data compared with reference computations (pairwise dominance, exact hull minimum)", BASE)
