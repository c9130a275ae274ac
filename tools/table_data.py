P = "pywr-core/src/parameters/"
prop("C09", "Piecewise linear interpolation is exact, bounded and total on its domain",
     "Interpolating at x through points with increasing abscissae returns exactly the value of the straight line between the two neighbouring points, so a point's own abscissa returns its own ordinate and the result never leaves the range of the two neighbouring ordinates. Outside the points the end value is returned, or an error when the caller asked for errors on bounds. Fewer than two points is always an error.",
     ["inputs"], "every x, every list of points with increasing abscissae, both bounds modes, at every timestep",
     "Unit tests sample a handful of (x, points) pairs; the claim is over all real x and all curves, including ties at the points themselves.",
     [("interpolate", P + "interpolate.rs"), ("linear_interpolation", P + "interpolate.rs"), ("InterpolatedParameter::before", P + "interpolated.rs")],
     ["interp"], "interpolate, linear_interpolation and InterpolatedParameter on random curves, incl. ties and ends", METRIC)
prop("C16", "Arithmetic parameters compute their documented formula at every timestep",
     "At every timestep min, max, negative, negative-min, negative-max, offset, division, difference, deficit, polynomial and discount-factor parameters return exactly the documented formula of the current values of their inputs. Division by a denominator equal to zero is an error and never a value; a deficit is never negative; a difference is clamped by its optional minimum and maximum. The result does not depend on whether an input is a literal, a constant or time-varying parameter, or on the phase (before or after solving) it is evaluated in.",
     ["inputs", "configurations"], "all values of all inputs, all thresholds, coefficients, rates and dates, constant and time-varying inputs",
     "Tests check one or two value pairs per parameter; sign, tie, zero and negative-power cases and the duplicated simple/general/before/after code paths are not sampled.",
     [("MinParameter::before", P + "min.rs"), ("MaxParameter::before", P + "max.rs"), ("NegativeParameter::before", P + "negative.rs"), ("NegativeMaxParameter::before", P + "negativemax.rs"), ("NegativeMinParameter::before", P + "negativemin.rs"), ("OffsetParameter::before", P + "offset.rs"), ("DivisionParameter::{before,after}", P + "division.rs"), ("DifferenceParameter::before, difference", P + "difference.rs"), ("DeficitParameter::after", P + "deficit.rs"), ("Polynomial1DParameter::before", P + "polynomial.rs"), ("DiscountFactorParameter::before", P + "discount_factor.rs")],
     ["arith"], "every listed parameter in a stepped model with random constant and time-varying inputs", METRIC + TIME)
prop("C21", "Variable values set through the API take effect; bad sizes are refused",
     "Setting the variable values of a constant, offset or RBF-profile parameter, for all scenarios or for one, makes reads of the variables and every later evaluation in exactly those scenarios use the new values (passed through the activation function, which clamps to its bounds, for constant and offset). A wrong number of values is an error that leaves the state as it was. Sizes and bounds reported match the parameter's points and configuration, and an RBF profile passes through each of its current points.",
     ["inputs", "histories"], "every sequence of set calls with any values, activation functions and scenarios, before a run",
     "Tests set one value once; interleavings of per-scenario and global sets, partial x/y updates and refused updates are histories that are not sampled.",
     [("ActivationFunction", P + "activation_function.rs"), ("ConstantParameter", P + "constant.rs"), ("OffsetParameter", P + "offset.rs"), ("RbfProfileParameter, RbfProfileInternalState", P + "profiles/rbf.rs"), ("set_f64_parameter_variable_values", "pywr-core/src/network.rs")],
     ["variables"], "random sequences of set calls followed by a run, all basis functions", METRIC + ["the RBF linear solve (nalgebra) is an uninterpreted function of points and basis function in the proofs", "internal state is downcast to the type that setup returns"],
     bounded_only=["RBF profile passes through its points (numerical solve)", "network-level routing of variables to scenarios"])
prop("C10", "Control curve parameters select and interpolate within the band of the value",
     "A control-curve parameter finds the first curve its metric is at or above (exact equality belongs to the band above) and, at every timestep and scenario, the index form returns that curve's position, the simple form that band's value, and the interpolated and piecewise forms the linear interpolation across the band between the neighbouring curves, reaching a band's end values exactly at its curves. The returned value never leaves the range of the band's two end values. Apportion splits its metric into two parts that always add up to the metric, and volume-between is the total times the difference of its (optional) upper and lower curves.",
     ["inputs", "configurations"], "all values of the metric, curves and band values, any number of curves, at every timestep and scenario",
     "Unit tests walk a single storage trajectory through fixed curves; the claim concerns every curve configuration, including touching, crossing and coincident curves and values exactly at a curve.",
     [("ControlCurveIndexParameter::before", P + "control_curves/index.rs"), ("ControlCurveParameter::before", P + "control_curves/simple.rs"), ("ControlCurveInterpolatedParameter::before", P + "control_curves/interpolated.rs"), ("PiecewiseInterpolatedParameter::before", P + "control_curves/piecewise.rs"), ("ApportionParameter::before", P + "control_curves/apportion.rs"), ("VolumeBetweenControlCurvesParameter::compute", P + "control_curves/volume_between.rs"), ("interpolate", P + "interpolate.rs")],
     ["curves"], "every control-curve parameter in stepped models with random, touching and crossing curves, and one driven by a reservoir", METRIC + ["an interpolated control curve has two more values than curves and a simple or piecewise one has one more (the caller's obligation; not checked by the code)", "string-keyed maps behave as finite maps"])
prop("C11", "Threshold and switch parameters decide exactly and ratchet permanently",
     "A threshold parameter is 1 exactly when its predicate holds for the current value and threshold, a multi-threshold parameter returns the position of the first threshold whose predicate holds (their number if none does), and an asymmetric switch turns on when its on-input is non-zero and off only when both inputs are zero. With a ratchet the result never decreases during a run, and without one it depends on the current values only. Each scenario keeps its own latch.",
     ["inputs", "histories"], "all values, predicates and thresholds, and every history of input values over a run and scenarios",
     "The ratchet and the switch depend on the whole history of inputs; tests follow one short sequence.",
     [("Predicate::apply, ThresholdParameter::before", P + "threshold.rs"), ("MultiThresholdParameter::before", P + "multi_threshold.rs"), ("AsymmetricSwitchIndexParameter::before", P + "asymmetric.rs")],
     ["threshold"], "random histories of inputs over several scenarios for every predicate, with and without a ratchet", METRIC + ["the internal state downcast returns the value setup created (per scenario)"])
prop("C08", "Aggregation functions compute exactly what their names say",
     "An aggregated parameter returns the sum, arithmetic mean, product, smallest, largest, number of non-zero or any-above-tolerance value of its metrics, and an aggregated index parameter the sum, product, smallest, largest, any or all of its indices. The result is the same whether the parameter is evaluated once (all inputs constant), as a simple parameter, or before or after solving. A non-empty extremum is always one of the values and bounds all of them; an empty list gives the neutral element.",
     ["inputs", "configurations"], "every list of values of every length, each function, each evaluation phase",
     "Unit tests aggregate a couple of fixed lists; neutral elements, single elements, ties, negative and zero values and the four duplicated evaluation paths are not sampled.",
     [("AggFuncF64::calc_iter_f64, AggFuncU64::calc_iter_u64", "pywr-core/src/agg_funcs/mod.rs"), ("AggregatedParameter::{before,after,compute}", P + "aggregated.rs"), ("AggregatedIndexParameter::{before,after,compute}", P + "aggregated_index.rs")],
     ["aggfuncs"], "every function in every phase over random metric lists incl. empty ones and user-supplied count functions", METRIC + ["sums and products of indices are assumed to fit in u64 (an overflow is a panic in debug builds)", "the user-function variants (CountFunc, Python) are outside the verifier's reach and are dropped from the enum"],
     bounded_only=["CountFunc variant"])
prop("C07", "Delayed and rolling values see exactly the values of past time-steps",
     "A delay parameter returns what its metric was its delay of time-steps earlier, and its initial value until then. A rolling parameter returns the aggregate of the metric's values in the last window of time-steps before the current one (all of them while there are fewer), and its initial value while that window holds fewer than its minimum number of values; the current time-step's value is never included. Each scenario remembers its own values, and the result is the same whether the metric is known before solving or only after it.",
     ["inputs", "histories"], "every delay, window, minimum, initial value, aggregation and history of metric values, for floating point and index values",
     "What is returned depends on the whole history through a queue in four duplicated implementations each; tests follow one series with one delay and one window.",
     [("DelayParameter::{setup,before,after,compute}", P + "delay.rs"), ("RollingParameter::{setup,before,after,compute}", P + "rolling.rs")],
     ["memory"], "random delays (also chained) and windows over node flows, parameters known before and after solving, and several scenarios", METRIC + ["VecDeque's push_back/pop_front/len/iter are those of a sequence", "the internal state downcast returns the value setup created (per scenario)", "before is called once before and after once after each time-step's solve (checked end to end by the bounded run)", "a delay of zero on a metric known only after solving is outside the property (it is an error)"],
     bounded_only=["the parameter builders (choice between the simple and the general implementation)"])
prop("C20", "Routing keeps account of water in the reach; turbines yield their target power",
     "The outflow that a Muskingum parameter's coefficients ask for any inflow is the only one for which the water held in the reach, travel time times weighted flow, changes by exactly the mean inflow less the mean outflow of the two time-steps; on the first time-step it starts from the flows specified, or passes the inflow through when in steady state. A hydropower target parameter asks for the flow that yields its target power at the current head, limited to its maximum and then its minimum flow, and reports after solving the power of the actual flow at that head. Both are zero at or below the minimum head.",
     ["inputs", "histories"], "all travel times, weights and flows; all heads, efficiencies, unit conversions, targets and limits",
     "Tests compare one reach with tabulated numbers and one turbine at one head; conservation for all coefficients, the choice of the previous flows and the order of limits and thresholds are not sampled.",
     [("MuskingumParameter::before", P + "muskingum.rs"), ("HydropowerTargetParameter::{before,after}", P + "hydropower.rs"), ("hydropower_calculation, inverse_hydropower_calculation", "pywr-core/src/utils.rs"), ("MultiValue", "pywr-core/src/state/mod.rs")],
     ["routing"], "random reaches and turbines over several scenarios and time-steps", METRIC + ["HashMap<String, _> is a finite map from strings", "the denominator 2K(1-X)+1 of the coefficients and the power of one unit of flow are not zero"],
     bounded_only=["HydropowerTargetParameterBuilder::new (defaults)"])
prop("C17", "Look-up parameters return the entry of the current timestep and scenario",
     "A vector or array parameter returns the entry at the current timestep's index (shifted by its optional offset and held at the first and last entry), in the column of the current scenario, and a scenario-constant parameter the entry of the current scenario as numbered in the full ensemble, also when only a subset of scenarios is simulated. An indexed-array parameter returns the current value of the metric its index selects. Reading past the end is an error and never a value.",
     ["inputs", "configurations"], "all array shapes, offsets, timesteps, scenario groups and subsets",
     "Offsets, ends of arrays, several groups and subsets interact; unit tests read a few fixed entries.",
     [("Array1Parameter, Array2Parameter, subset_array2", P + "array.rs"), ("VectorParameter::before", P + "vector.rs"), ("ConstantScenarioParameter::compute", P + "constant_scenario.rs"), ("IndexedArrayParameter::before", P + "indexed_array.rs"), ("ScenarioIndex::{simulation_index_for_group,schema_index_for_group}", "pywr-core/src/scenario.rs")],
     ["lookup"], "vectors, arrays and scenario constants of random shape, offset, group sizes and subsets", METRIC + ["ndarray's get/len_of/stack behave as bounds-checked finite arrays", "timestep indices and lengths fit in i32 when an offset is used", "the table of a scenario-constant parameter has one entry per scenario of its group (checked by its builder)"],
     bounded_only=["subset_array2 (ndarray slicing) and the parameter builders"])
prop("C04", "Timesteps tile the simulation period without gaps, and each is visited once",
     "A time domain starts with its first step at the start date, numbers its steps consecutively from zero, begins each step exactly where the previous one ends, and stops with the step that contains the end date; every step lasts the configured hours or days, or ends one calendar frequency period further from the start. An end before the start, or a zero or negative frequency, is an error. A run visits every step of every scenario exactly once, in order.",
     ["inputs", "configurations"], "all start and end instants, step sizes and calendar frequencies",
     "Tests build a few schedules; month ends, leap years, times of day, mixed frequencies and ends between steps are not sampled.",
     [("TimeDomainBuilder, TimeDomain, Timestep, PywrDuration", "pywr-core/src/timestep.rs")],
     ["timedomain"], "random starts, ends and steps against an independent calendar, and the steps a run visits", ["jiff's instants are integer nanoseconds; adding a calendar span is strictly monotone in the span; polars' parsed durations have non-negative components", "the period spans fewer than 2^64 seconds and dates and spans stay within jiff's documented range"],
     bounded_only=["that Model::run visits each step once per scenario"])
prop("C05", "Profile parameters return the documented value for every calendar instant",
     "A daily profile returns the value of its day in a 366-entry calendar (29 February is skipped in other years), a diurnal profile that of the hour, a monthly or weekly profile that of the month or week, and with interpolation the straight line between the two neighbouring values by the exact fraction of time passed, which never leaves their range. A uniform drawdown profile falls linearly from one on its reset day to its residual fraction over the year to the next reset (as in Pywr v1 the calendar slot of 29 February counts when the reset day is before it). Every instant of every year gets a value.",
     ["inputs", "configurations"], "every instant (any year, leap day, time of day), every profile and interpolation mode",
     "Tests look at a few days of one or two years; month ends, leap days, week 53, reset days late in the year and sub-daily times interact.",
     [("Timestep::{day_of_year_index,fractional_day_of_year}", "pywr-core/src/timestep.rs"), ("DailyProfileParameter", P + "profiles/daily.rs"), ("DiurnalProfileParameter", P + "profiles/diurnal.rs"), ("MonthlyProfileParameter", P + "profiles/monthly.rs"), ("WeeklyProfileParameter", P + "profiles/weekly.rs"), ("UniformDrawdownProfileParameter", P + "profiles/uniform_drawdown.rs")],
     ["profiles"], "every profile at random instants, daily and sub-daily, against independent formulas", ["jiff's civil date arithmetic follows the Gregorian calendar, and an instant is its day number and time of day", "dates lie within jiff's supported years with one year of room at both ends"])
prop("C06", "A scenario domain simulates exactly the requested combinations, once each",
     "Without combinations a domain simulates, in order and once each, every member of the cross product of its groups that every group's subset (slice, indices or labels) includes; with combinations, exactly the listed ones in their order, and an unknown label, an index outside its group, a list of the wrong length, a repeated group name, an invalid slice, or combinations together with subsets is an error. Scenarios are numbered consecutively from zero, a scenario's simulation index in a group points into that group's subset at its index in the full ensemble, and its label is that member's label. No groups means one scenario.",
     ["configurations"], "any number of groups of any size, all subsets, labels and combination lists",
     "Tests use two or three fixed groups; subsets given out of order, as labels, over several groups, and mixed label and index combinations are not sampled.",
     [("ScenarioDomainBuilder::{build,build_scenario_map_from_subsets,build_scenario_map_from_combinations,with_group}", "pywr-core/src/scenario.rs"), ("ScenarioGroupBuilder::build, ScenarioGroup::label_position", "pywr-core/src/scenario.rs"), ("ScenarioDomain::{group_index,group_size,group_scenario_subset}", "pywr-core/src/scenario.rs"), ("ScenarioIndex", "pywr-core/src/scenario.rs")],
     ["scenario"], "random groups, subsets and combinations against an independent enumeration, and refused configurations", ["the size of the full ensemble fits in 64 bits", "std's BTreeSet is a strictly increasing sequence, strings are opaque values with equality"])
prop("C19", "Recorded values aggregate correctly over periods, metrics, time, scenarios",
    "A periodic aggregator cuts every value at the boundaries of its months, years or day periods, assigns each piece to its period, and yields per completed period, in order, its function of those pieces (sum, mean weighted by duration, product, min, max, counts), starting at the period's first value and lasting until the next period's; finalising yields the partial last period, and a nested aggregator aggregates what its child yields. A memory recorder keeps every scenario's values of every period in order, and its aggregated value is the metric, time and scenario functions applied in the configured order. A dimension with one value needs no function; with several, a missing function is an error.",
    ["inputs"], "all sequences of contiguous values, all three frequencies, all functions, nesting to any depth",
    "Tests aggregate a few years of daily constants; values that straddle boundaries, irregular durations, nesting and combinations of functions are not sampled.",
    [("AggregationFrequency, PeriodicAggregator(State), Aggregator", "pywr-core/src/recorders/aggregator/mod.rs"), ("AggFuncF64::calc_period_values", "pywr-core/src/agg_funcs/mod.rs"), ("Aggregation, MemoryRecorderResult", "pywr-core/src/recorders/memory.rs"), ("MetricSet", "pywr-core/src/recorders/metric_set.rs")],
    ["recorder"], "whole models with memory recorders and directly driven nested aggregators against an hour by hour oracle; MetricSet::{save,finalise} and MemoryRecorder::{save,finalise} only by this bounded check", ["a value completes at most one period of every level (the code panics otherwise) and dates stay within jiff's calendar", "periods of days have a positive number of days", "jiff's civil date arithmetic follows the Gregorian calendar"])
S = "pywr-core/src/state/"
NETA = ["parameter values are read from the state by index; the state has one entry per node, edge and virtual storage (the sizes are a precondition proved for NetworkState::new and preserved by every function under contract)",
        "references handed out by Vec and HashMap behave as std documents"]
prop("C02", "Reservoir volumes account for every flow and stay within their bounds",
     "After every time-step a reservoir holds exactly its previous volume plus its inflows and minus its outflows times the length of the step, held to its minimum and maximum volume when it passes them by no more than the rounding tolerance; a larger excursion stops the run. Its proportional volume is its volume over its current maximum, and one if that is zero. Steps of other nodes and other scenarios never change it.",
     ["inputs", "histories"], "every network, every history of flows, any step length, constant and time-varying bounds",
     "The accounting has to hold after every step of every run; tests compare a few final volumes of fixed models.",
     [("StorageState, clamp, finalise", S + "storage.rs"), ("NetworkState::{add_flow,finalise_node_volume}, State::complete", S + "mod.rs"), ("StorageNode volume bounds", "pywr-core/src/node.rs")],
     ["state", "nodes"], "random networks of every node kind with imposed flows over several scenarios: volumes, proportional volumes and maxima after every step; reservoirs driven to limits that change and become zero", NETA + ["the solver hands add_flow one flow per edge (checked by C01's bounded run)"],
     focus={"state": r"Storage(?!.*Virtual)|NodeState|NetworkState::(add_flow|finalise_node|get_node|set_volume|reset$|new)|State::complete|node_balance|store_completed|volume_accounted|edge_balance|stores_same", "nodes": r"[Vv]olume"})
prop("C03", "Every edge flow is counted once at both its ends and nothing else moves",
     "After a time-step each node's inflow is the sum of the flows of the edges that end at it and its outflow the sum of those that start at it, each edge reports the flow the solver gave it, and flows start from zero in every step. Recording a flow on one edge changes only that edge and its two nodes, and writing one parameter value changes only that entry. An index that does not exist is an error and changes nothing.",
     ["inputs", "histories"], "every network and every assignment of flows to its edges, in every time-step",
     "Tests look at totals of fixed small models; the frame (what must not change) is never observed.",
     [("FlowState", S + "flow.rs"), ("NetworkState::{reset,add_flow}, ParameterValues, State setters and getters", S + "mod.rs")],
     ["state"], "random networks with imposed flows: all node and edge flows after every step", NETA,
     focus={"state": r"Flow|flow|NodeState|EdgeState|Values|reset|State::(set|get)|node_balance|edge_balance|NetworkState::new|State::new"})
prop("C12", "Virtual storage counts, resets and recovers exactly what its members use",
     "While active a virtual storage loses, in every step, the sum over its members of factor times flow (the outflow of inputs, the inflow of others) times the step length, held to its bounds; while inactive it is unchanged. On its first step, on activation and when its reset rule says so (day and month, number of months, never) it is set to its initial or its current maximum volume and its history forgets. A rolling one recovers the use that falls out of its window, and no more.",
     ["inputs", "histories"], "every member list, factor, reset rule, active period, window and history of flows",
     "Resets, active periods, windows and first steps interact over long runs; tests use one annual licence.",
     [("VirtualStorageNode, VirtualStorageReset, VirtualStorageActivePeriod", "pywr-core/src/virtual_storage.rs"), ("VirtualStorageState, VirtualStorageHistory, update_derived_states", S + "mod.rs")],
     ["vstorage", "state", "lpupdate"], "random virtual storages in stepped models with imposed flows against an independent account", NETA + ["jiff's civil date arithmetic follows the Gregorian calendar"],
     focus={"state": r"[Vv]irtual|derived|complete|vs_|use_of|History", "lpupdate": r"virtual_storage"})
prop("C13", "Nodes pass the solver exactly their configured bounds and costs",
     "A node's flow bounds are the current values of its configured minimum and maximum flow, zero and unlimited when not configured; a reservoir's are its current volume above its minimum and its room below its maximum, per step length. An edge costs the outgoing cost of its first node plus the incoming cost of its second: inputs and outputs their full cost, a link half on each side, a reservoir its cost when filling and minus its cost when emptying. A node in virtual storages combines its own and their costs by its cost function.",
     ["inputs", "configurations"], "every node kind, constant and time-varying bounds and costs, all states",
     "Wrong bounds or costs give plausible answers in most models; tests check a few totals.",
     [("Node::{get_bounds,get_const_bounds,get_outgoing_cost,get_incoming_cost}, NodeCost, FlowConstraints, StorageConstraints", "pywr-core/src/node.rs"), ("Edge::cost", "pywr-core/src/edge.rs"), ("VirtualStorageNode::{get_cost,get_available_volume…}", "pywr-core/src/virtual_storage.rs")],
     ["nodes"], "random networks: all bounds and costs in every step and scenario, incl. virtual storage costs", NETA,
     focus={"nodes": r"^(?!.*(initial|before|default_state)).*"})
prop("C24", "Reservoirs and virtual storages start from their configured initial volume",
     "On the first time-step, and on no later one, a reservoir is set to its initial volume: the absolute amount, the proportion of its maximum volume at that time, or, when distributed, the total it shares less the volume of those before it, no less than zero and no more than its maximum. Each scenario starts from its own value.",
     ["inputs", "configurations"], "all kinds of initial volume, constant and time-varying maxima, all scenarios",
     "Tests start from one absolute and one proportional volume; distributed volumes and scenario-dependent maxima are not sampled.",
     [("StorageInitialVolume::get_absolute_initial_volume, StorageNode::before, Node::before", "pywr-core/src/node.rs")],
     ["nodes"], "random networks: volumes seen on the first step, and that later steps never reset them; virtual storages with every kind of initial volume and maxima from parameters", NETA,
     focus={"nodes": r"nitial|before|default_state|[Vv]olume"})
prop("C25", "A metric reads exactly the quantity of the node, edge or parameter it names",
     "A metric's value is the current value of what it names: a node's inflow, outflow, volume, maximum or proportional volume, an edge's flow, the sums over an aggregated node or aggregated storage, a virtual storage's volume, a parameter's value from before or after solving, a constant or a node's flow bounds. A metric is reported constant only if its value cannot change. A name or index that does not exist is an error and never a value.",
     ["inputs", "configurations"], "every metric kind, every network and state",
     "There are dozens of kinds of metric, each with its own look-up; tests read a few.",
     [("MetricF64::get_value, MetricU64::get_value, SimpleMetricF64, ConstantMetricF64", "pywr-core/src/metric.rs"), ("Network getters", "pywr-core/src/network.rs"), ("AggregatedStorageNode, ParameterValues", S + "mod.rs")],
     ["metrics", "state"], "every kind of metric read back in random networks with imposed flows, before and after solving", NETA + ["the network's aggregated nodes list nodes that exist"],
     focus={"state": r"get_|Values|Ref"})

LP = ["the linear programming back ends (microlp, HiGHS, CLP, CBC) return an optimal solution of the problem they are given; where a solver reports failure, a time limit or a result outside its own tolerances there is no verdict", "the network handed to the solver is one that NetworkBuilder built (precondition net_ok and ends_known: proved of every built network in unit assembly, lemma_built)", "at each step factors that divide are not zero"]
prop("C22", "A network is built exactly as described, or building it is an error",
     "A built network has one node, edge, aggregated node, aggregated storage and virtual storage per described one, in the described order and numbering, with its name, attributes and connections, and every edge is listed at exactly its two ends. Duplicate names or edges, unknown names, self-connections, inputs, outputs and links that lack or have the wrong connections, and reservoirs without an initial volume are errors. A reference by name stands for the thing of exactly that full name; an unknown name, or a parameter that is not available in the phase that asks for it, is an error.",
     ["configurations"], "all descriptions: any number of nodes, edges, aggregated nodes and storages, virtual storages, and any references between them",
     "Tests build a few correct networks; that nothing is dropped, renumbered or wired differently, and that every kind of wrong description is refused wherever it appears, is not sampled.",
     [("NetworkBuilder::build, ResolutionMaps", "pywr-core/src/network.rs"), ("NodeBuilder::build, NodeMeta::from_unresolved_name", "pywr-core/src/node.rs"), ("AggregatedNodeBuilder, RelationshipBuilder", "pywr-core/src/aggregated_node.rs"), ("AggregatedStorageNodeBuilder", "pywr-core/src/aggregated_storage_node.rs"), ("VirtualStorageNodeBuilder", "pywr-core/src/virtual_storage.rs"), ("MetricSetBuilder, UnresolvedOutputMetric", "pywr-core/src/recorders/metric_set.rs"), ("Network::get_*_by_name", "pywr-core/src/network.rs"), ("UnresolvedMetricF64::resolve, UnresolvedMetricU64::resolve", "pywr-core/src/metric.rs")],
     ["assembly"], "random descriptions, right and wrong, and random references in each phase, against an independent reading of the description",
     ["HashMap is a finite map with equality by value; strings are opaque values with equality", "building the boxed recorders is given by contract only; that building the parameters changes the maps of parameters only is proved in unit collection (C18), where the boxed parameter builders are given by contract"],
     bounded_only=["that building a correct description never fails (the contracts say what a built network is and that wrong ones are errors)"])
prop("C18", "Each parameter is evaluated once a step, after what it depends on",
     "In every step and scenario each parameter is evaluated exactly once in each phase it was described for: constants once at setup, then in every step simple ones, general ones before the solve, and general ones after it (a parameter may be in both). A parameter is only evaluated when everything it refers to has been, reads their values of the same step, and its own value stays as it wrote it until its next evaluation; its internal state goes on from its previous evaluation. The order of the description does not matter: missing and circular references and duplicate names are errors, and building always ends.",
     ["configurations", "histories"], "any number of parameters of any type and phase, in any order of description, with any references between them",
     "The evaluation order follows from a retry loop over builders and four schedules for three value types; tests have a few parameters, described in an order that happens to work.",
     [("ParameterCollectionBuilder::build, ParameterCollection::{push_*, before_general, after_general, compute_simple, compute_const}", "pywr-core/src/parameters/mod.rs"), ("State and ParameterStates setters", S + "mod.rs")],
     ["evaluation", "collection"], "random acyclic networks of parameters (counters with internal state, sums, arrays, constants) of all value types and phases, described in any order, against an independent evaluation; missing, duplicate and circular references",
     ["HashMap is a finite map with equality by value; strings are opaque values with equality", "a parameter's builder either builds a parameter of its own name, reports that it needs another one, or fails; a parameter's compute is a relation of its inputs and internal state (the contracts of the parameters themselves are under C08-C11, C05, C07, C17, C20, C21)"],
     bounded_only=["that a described network without missing or circular references is always built (the contracts say what a built one is, and that building ends)"])
prop("C01", "Solved flows balance at every link, respect every bound, at least cost",
     "After every solved time-step the flows into a link equal the flows out of it, flows are never negative, every node's flow lies within its minimum and maximum flow, no reservoir or virtual storage is drawn below its minimum or filled above its maximum, and no other feasible flows have a lower total cost. If feasible flows exist the solver finds them.",
     ["inputs", "configurations", "histories"], "every network of every node kind, constant and time-varying bounds and costs, every step and scenario, each solver",
     "The constraint matrix is assembled by several merging and updating passes that interact (merged edges, shared rows, rows updated in later steps); tests check a few networks whose answer is obvious.",
     [("SolverBuilder, BuiltSolver, LpBuilder, ColumnEdgeMap", "pywr-core/src/solvers/builder.rs"), ("Node::{get_bounds,get_outgoing_cost,get_incoming_cost}", "pywr-core/src/node.rs"), ("NetworkState::{add_flow,finalise_node_volume}", S + "mod.rs")],
     ["nodes", "state", "lp", "lpbuild", "lpupdate"], "random networks with links, storages, virtual storages and aggregated nodes solved by MicroLP and HiGHS; every step compared with an independently written linear programme", NETA + LP,
     level="exploration", note="The bounds, costs and flow accounting are proved (units nodes and state), and so is the linear programme built at setup: its columns, and that its rows state the balance of links, the constant bounds and known factors, and are the flows of nodes whose bounds are set at each step (units lp and lpbuild), and the bounds, coefficients and costs written into it at each step (unit lpupdate); lemma step_means concludes that the flows satisfying all rows of a step are exactly those that satisfy the network's requirements in that step, and that the objective is their cost. The optimum is found by an external solver and checked by bounded runs against an independent formulation.",
     focus={"nodes": r"^(?!.*(initial|before|default_state)).*", "state": r"Flow|flow|balance|Storage|add_flow|finalise"})
prop("C14", "Aggregated nodes hold their factor relationship and flow bounds",
     "After every solve the flows of an aggregated node's groups stand in the configured relationship: proportions of the total (the first group takes the rest), ratios between groups, or coefficients whose weighted sum is the right-hand side; the total stays within the aggregated node's minimum and maximum flow. This holds whether factors are constant or change over time. Negative ratios, or proportions that add up to one or more, are errors.",
     ["inputs", "configurations"], "every number of groups and nodes, all node kinds, constant and time-varying positive factors, every step and scenario",
     "Constant and time-varying factors take different code paths and rows are rewritten in place every step; tests use constant factors of two nodes.",
     [("AggregatedNode, NodeFactorPair, NodeConstFactor, get_norm_factor_pairs", "pywr-core/src/aggregated_node.rs"), ("create_aggregated_node_factor_constraints, update_aggregated_node_factor_constraints", "pywr-core/src/solvers/builder.rs")],
     ["aggnode", "lp", "lpbuild", "lpupdate"], "random aggregated nodes with every relationship solved by MicroLP and HiGHS, flows compared with an independent linear programme; refused factors", NETA + LP + ["factors are not zero and there is at least one group"])
prop("C15", "Mutual exclusivity: no more sets of nodes flow at once than allowed",
     "With a mutual exclusivity constraint, after every solve at most the configured maximum number of node sets carry flow and at least the configured minimum number are active, an active set meeting its nodes' minimum flows. It holds in every step, with constant and with changing bounds of the nodes, and only for solvers that declare integer support.",
     ["inputs", "configurations"], "any number of sets of nodes, active limits, constant and time-varying node bounds, every step",
     "Rows and binary columns are shared and updated in later steps; the tests have one model with two nodes.",
     [("Exclusivity, AggregatedNode::get_exclusivity", "pywr-core/src/aggregated_node.rs"), ("create_mutual_exclusivity_constraints, update_mutual_exclusivity_bounds", "pywr-core/src/solvers/builder.rs"), ("NodeBounds", "pywr-core/src/node.rs")],
     ["aggnode", "lp", "lpbuild", "lpupdate"], "random exclusive sets solved by MicroLP (integer), active sets counted and flows compared with an enumeration of the active sets", NETA + LP,
     level="exploration", note="The limits handed to the solver are proved (unit aggnode), and so are the binary columns and rows made at setup (unit lpbuild) and the bounds and coefficients written at each step (unit lpupdate); the whole is checked by bounded runs against an enumeration of all active sets.", focus={"aggnode": r"xclusiv|index|flow|bounds"})
