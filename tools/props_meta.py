"""Property texts. tools/mkprops.py turns them into properties.jsonl and MANIFEST.json."""
D = "skdecide/builders/domain/"
P = []


def p(id, title, statement, over, text, tests, files, mech, na=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, na=na, note=note, tech=tech))


T = "The 96 tests only exercise automatic conversion on one toy domain family; "

p("C01", "Environment and simulator memory follows the declared history length",
  "After a reset, the current memory of an environment or simulator holds exactly the initial state in the form its domain class declares "
  "(a bounded or unbounded history, a single state, or nothing), and after every step it additionally holds the reached state, keeping only the most recent ones allowed by the declared length. "
  "Stepping and sampling return the observation, value, termination flag and information of that same transition, obtained from the memory held before it. "
  "Sampling and setting the memory of a simulator never change any other state, and sampling does not advance the current memory.",
  ["histories", "inputs"], "every domain class combining an environment or simulator with any memory, observability and initialisation level; every sequence of reset, step, sample and set-memory calls",
  T + "no test steps an environment with a history memory or checks what is kept.",
  [D + "dynamics.py", D + "initialization.py", D + "memory.py"],
  [("environment and simulation step pipelines", D + "dynamics.py"), ("reset pipelines", D + "initialization.py"), ("memory construction", D + "memory.py")])

p("C02", "An omitted memory or state means the current one",
  "Every public query that accepts an optional memory or state (applicable actions, enabled events, applicability of an action or event, rendering and their like) answers for the domain's current memory exactly when none is given, "
  "and for the given one otherwise, even when the given one is empty or false-like.",
  ["inputs", "histories"], "every public query with an optional memory, every current memory, every memory value including falsy ones",
  T + "none omits the memory or passes a falsy one.",
  [D + "events.py", D + "renderability.py"], [("optional memory arguments", D + "events.py")])

p("C03", "Samples, distributions and deterministic answers agree",
  "Sampling a transition, an initial state, an observation or an action draws from the distribution the same object exposes for the same inputs, and where the answer is deterministic the exposed distribution has that single value. "
  "Distributions return the values and probabilities they were built with, and converting a distribution converts every value and preserves its probability.",
  ["inputs", "programs"], "every domain and policy at every determinism level, every memory and action",
  T + "equality of a sampler with an exposed distribution concerns all memories, actions and user-defined distributions.",
  [D + "dynamics.py", D + "initialization.py", D + "observability.py", "skdecide/builders/solver/policy.py", "skdecide/core.py"],
  [("sampling defaults", D + "dynamics.py"), ("distribution classes", "skdecide/core.py")])

p("C04", "Declared constants are computed once per instance and returned unchanged",
  "Information a domain declares constant (spaces of actions, events, observations, goals, initial distribution, memory length, value dependence, constraints and their like) is obtained from its definition at most once per instance and every later call returns that same object. "
  "No two instances share a cached constant.",
  ["histories", "programs"], "every domain class, every sequence and interleaving of calls over the instances alive (up to the 128 remembered at once)",
  T + "identity over call histories and across instances is not examined.",
  [D + "events.py", D + "goals.py", D + "initialization.py", D + "observability.py", D + "memory.py", D + "value.py", D + "constraints.py", D + "agent.py"],
  [("cached constant getters", D + "events.py")])

p("C05", "Public methods answer through their overridable definition",
  "Every public method of a domain or solver capability returns exactly what the overridable method that a user defines for it returns for the same arguments, and the shortcut classes combine exactly the capabilities they document, so that a user-defined answer is never lost, replaced or asked with other arguments.",
  ["programs", "inputs"], "every user domain or solver class overriding any subset of the overridable methods, every argument",
  T + "only the methods of a few test domains are called.",
  [D + "dynamics.py", D + "events.py", D + "goals.py", D + "value.py", D + "observability.py", D + "initialization.py", D + "constraints.py", D + "renderability.py",
   "skdecide/builders/solver/policy.py", "skdecide/builders/solver/assessability.py", "skdecide/domains.py", "skdecide/solvers.py"],
  [("public-to-overridable delegation", D + "dynamics.py"), ("shortcut class bases", "skdecide/domains.py")])

p("C06", "Automatic conversion between a domain and a solver keeps every answer",
  "When a solver is built for less general characteristics than those of the domain (or conversely), every argument and result crossing between them is converted position by position according to the declared types of both sides: "
  "agent dictionaries become the single agent's value and back, histories become their latest state and back, concurrent collections become their single element and back, and nested structures are converted at every depth. "
  "Values whose declared types agree are passed unchanged, and None stays None.",
  ["inputs", "programs"], "every pair of domain and solver characteristics, every annotated method, every value including nested, empty and None ones",
  "The 96 tests convert one-element values on a fixed set of method signatures; they never convert longer histories, empty containers or nested annotations.",
  ["skdecide/core.py", D + "agent.py", D + "concurrency.py"],
  [("type-hint driven conversion", "skdecide/core.py")])

p("C07", "Values and outcomes are consistent and copies keep their fields",
  "The reward and the cost of a transition value are always opposite numbers whichever one is given, and a value given neither is zero. "
  "Outcomes built without a value or information get a neutral one, and converting an outcome or value to a dictionary, a tuple or a modified copy keeps every field not explicitly replaced.",
  ["inputs"], "every combination of given and omitted fields, every numeric value including zero",
  T + "the construction rules are never tested over all combinations of omitted and zero fields.",
  ["skdecide/core.py"], [("dataclasses of values and outcomes", "skdecide/core.py")])

p("C08", "Membership tests agree with the space they are about",
  "An action, event, observation or goal is accepted exactly when the space the domain declares for it contains it, an enumerable space contains exactly its elements, an action is applicable exactly when it is among the applicable ones, and a value is accepted exactly when it meets the declared kind of value.",
  ["inputs", "programs"], "every domain, every memory, every candidate element",
  T + "membership is not tested at all.",
  ["skdecide/core.py", D + "events.py", D + "goals.py", D + "observability.py", D + "value.py"], [("membership defaults", D + "events.py")])

p("C09", "Constraints are checked against the declared relation and bound",
  "A bound constraint holds exactly when its evaluated quantity is in the declared strict or non-strict relation with its bound, in the declared direction, and its dependence on the next state is reported as declared or, when undeclared, always evaluated with it. "
  "A constraint built from a function answers exactly that function.",
  ["inputs"], "every evaluated quantity and bound including equality, each of the four relations, with and without a next state",
  T + "no test evaluates a constraint.", ["skdecide/core.py"], [("constraint classes", "skdecide/core.py")])

p("C10", "Solvers are matched only to domains meeting all their requirements",
  "A domain is compatible with a solver exactly when it has every characteristic the solver requires and passes the solver's additional check; matching returns the compatible solvers and only those, ranked and limited as requested. "
  "Solving resets the solver, gives it the domain (adapted when requested) exactly once, starts from the requested memory or from every initial state, and using a solver as a context manager initialises it on entry and cleans it up on every exit, including exceptional ones.",
  ["programs", "fault_sequences", "configurations"], "every solver class, every domain class, every set of registered entries including ones that fail to load, every exit path",
  T + "no test calls matching, compatibility checks or the solver life cycle on failures.",
  ["skdecide/solvers.py", "skdecide/utils.py", "skdecide/domains.py"], [("matching", "skdecide/utils.py"), ("solver life cycle", "skdecide/solvers.py")])

p("C11", "A rollout reproduces the interaction it reports",
  "A rollout runs the requested number of episodes, each started afresh from a reset or from the given memory and action, applies exactly the action the policy (or a random applicable choice) gives for the current observation, and stops an episode at termination or at the step limit, never later. "
  "What it returns or saves lists every observation, action and value of every episode in order, the first observation included.",
  ["histories", "inputs"], "every domain, policy, number of episodes and steps, with or without a starting memory or saving",
  T + "no test performs a rollout.", ["skdecide/utils.py"], [("rollout functions", "skdecide/utils.py")])

p("C12", "Parallel domains answer as the worker's own domain, once per request",
  "A request sent to a parallel domain is executed exactly once by one free worker, on its own copy of the domain, with exactly the given arguments, and its result (or failure) is delivered to that request and no other, after which that worker becomes available again. "
  "No worker is given two requests at once, a failed start or request never leaves a waiting caller blocked or a worker lost, and closing ends every worker and releases its resources. "
  "Data exchanged through shared memory decodes to what was encoded.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of concurrent requests, wake-ups and completions, every failing job, both exchange mechanisms",
  T + "no test starts a parallel domain; interleavings and failures cannot be enumerated by running it.",
  ["skdecide/domains.py"], [("process pool with pipes", "skdecide/domains.py"), ("process pool with shared memory", "skdecide/domains.py")])

p("C13", "Parallel solvers own and release their worker domains",
  "A solver asked to run in parallel starts its pool of worker domains once on initialisation and closes it on cleanup on every path, a sequential one builds its domain from the given factory, and calls it makes on the domain reach the domain with the same arguments and give back its result.",
  ["histories", "fault_sequences"], "every sequence of initialise, solve, query and cleanup, with each configuration of parallelism",
  T + "no test instantiates a parallel solver.", ["skdecide/builders/solver/parallelability.py"], [("parallel solver base", "skdecide/builders/solver/parallelability.py")])

S = "skdecide/builders/scheduling/"
H = "skdecide/hub/"

p("C14", "Best-first search expands, relaxes and extracts plans consistently",
  "The best-first solver starts from the given or initial state, always expands the open state with the smallest path cost plus weighted heuristic, records for a reached state the cheapest path found so far and its predecessor, re-opens a state whose path improves, and stops at the first expanded goal. "
  "The policy it gives then maps every state of the found path to the action that was taken from it, is defined exactly on those states, and the utility it reports is minus the remaining cost along the path. When no goal is reachable, no policy is claimed.",
  ["inputs", "programs"], "every deterministic domain, heuristic, weight and start state",
  "The tests that run solvers need compiled or learning back ends; the best-first solver is not exercised on re-opened states, weights or unreachable goals.",
  [H + "solver/lazy_astar/lazy_astar.py"], [("search loop and plan extraction", H + "solver/lazy_astar/lazy_astar.py")])

p("C15", "Real-time, greedy and sampling planners act on their own estimates",
  "The real-time solver updates the value of the visited state with the best one-step estimate before moving, moves with the action achieving it, never exceeds its depth and iteration limits and stops at a goal; the greedy solver picks an applicable action with the best immediate transition value; "
  "the Monte-Carlo solver keeps visit counts and running means consistent with its simulations, filters its belief by the observation received and answers with the action of best estimate. Estimates are those stored for the very state or belief asked about.",
  ["inputs", "histories"], "every domain accepted by these solvers, every heuristic, every sequence of solve and action queries",
  "No baseline test runs these solvers; their updates concern all domains and all simulated trajectories.",
  [H + "solver/lrtastar/lrtastar.py", H + "solver/simple_greedy/simple_greedy.py", H + "solver/pomcp/pomcp.py"],
  [("real-time search", H + "solver/lrtastar/lrtastar.py"), ("greedy choice", H + "solver/simple_greedy/simple_greedy.py"), ("belief tree search", H + "solver/pomcp/pomcp.py")])

p("C16", "An explored graph describes the domain it was built from",
  "Exploring a domain records, for each expanded state and applicable action, the successor states with the probabilities and costs the domain gives, and for each reached state whether it is a goal or terminal. No state is expanded twice, goal and terminal states are not expanded, and exploration stops only when nothing is left or its node or edge limits are passed. "
  "The resulting graph domain answers transitions, costs, goals, terminality and applicable actions from that record, and merging two graphs keeps the content of both.",
  ["inputs", "programs"], "every enumerable domain, deterministic or with discrete distributions, every limit and start state",
  "No baseline test explores a domain.",
  [H + "solver/graph_explorer/GraphDomain.py", H + "solver/graph_explorer/DFSExploration.py", H + "solver/graph_explorer/DFS_Uncertain_Exploration.py", H + "solver/graph_explorer/FullSpaceExploration.py"],
  [("exploration", H + "solver/graph_explorer/DFS_Uncertain_Exploration.py"), ("explored graph as a domain", H + "solver/graph_explorer/GraphDomain.py")])

p("C17", "Spaces convert to and from their unwrapped and JSON forms without loss",
  "Membership, sampling, enumeration and conversions of the wrapped, enumerated, listed and structured spaces describe the same set: sampled and enumerated values are members, converting values to unwrapped or JSON form and back gives the same values element by element, and the conversion pairs use the same element order.",
  ["inputs"], "every space of these kinds and every list of its values",
  "No baseline test converts a space value.", [H + "space/gym/gym.py"], [("gym-backed spaces", H + "space/gym/gym.py")])

p("C18", "Gym environments and domains wrap each other faithfully",
  "A domain wrapping a gym environment resets and steps that environment exactly once per call with the given action, reports its observation, reward, termination and information unchanged, and (for the variants that save and restore it) plays an action from the requested state and not from the one the environment was left in. State proxies are equal and hash alike exactly on the wrapped state. "
  "Wrapping a domain as a gym environment, unwrapping its spaces and feeding actions back loses nothing; discretised actions lie in the original action space and cover every listed combination.",
  ["inputs", "histories"], "every environment and domain, every sequence of reset, step, save, restore and render",
  "No baseline test wraps an environment.", [H + "domain/gym/gym.py"], [("gym wrappers", H + "domain/gym/gym.py")])

p("C19", "The bundled example domains follow their published rules",
  "The maze, grid world, mastermind and rock-paper-scissors domains apply their rules in every state: moves stop at walls and borders, costs and goals are those documented, the hint for a guess counts exact and misplaced colours without counting a position twice, and a round's outcome is the same whichever player is considered.",
  ["inputs"], "every state and action of these domains, every size",
  "No baseline test checks the rules of these domains.", [H + "domain/maze/maze.py", H + "domain/mastermind/mastermind.py", H + "domain/rock_paper_scissors/rock_paper_scissors.py", H + "domain/simple_grid_world/simple_grid_world.py"],
  [("rules", H + "domain/mastermind/mastermind.py")])

p("C20", "Evolved and learned policies are applied to the inputs they were built for",
  "The evolutionary graph policy evaluates exactly the nodes its outputs depend on, with operands in order, keeps every gene within its legal range when mutated, and survives cloning, saving and loading unchanged; the values it exchanges with the domain are scaled and restored element by element to the declared bounds. "
  "The linear-policy and inverse-reinforcement learners normalise observations, perturb in matched opposite pairs, update from returns in that order, and map observations and actions to and from their index without collision.",
  ["inputs"], "every genome, observation, action space and parameter setting",
  "No baseline test evaluates one of these policies.",
  [H + "solver/cgp/cgp.py", H + "solver/cgp/pycgp/cgp.py", H + "solver/cgp/pycgp/cgpes.py", H + "solver/cgp/pycgp/cgpfunctions.py", H + "solver/ars/ars.py", H + "solver/maxent_irl/maxent_irl.py"],
  [("graph policy", H + "solver/cgp/pycgp/cgp.py"), ("linear policy", H + "solver/ars/ars.py")])

p("C21", "Scheduling transitions move tasks and resources together",
  "Playing a scheduling action moves the task between remaining, ongoing, paused and complete in exactly the way the action says, records its start, pause, resume and end times and its mode, and takes or releases exactly the resources the task uses: renewable resources are free again when a task is paused, completed or completed at once, and the total used always equals the sum over running tasks. "
  "Time advances by one for a time action only, together with the progress of every ongoing task and no other. The deterministic, simulated and distribution forms of the transition agree, the probabilities of the outcomes are kept, the given state is left untouched unless in-place mode is on, and outcomes share no mutable part.",
  ["histories", "inputs"], "every scheduling domain, every state reachable by any sequence of actions, every duration, condition and resource uncertainty",
  "The scheduling tests cannot be imported here and sample a few toy instances without pausing, multiple modes or branching conditions.",
  [S + "scheduling_domains.py", S + "scheduling_domains_modelling.py", S + "task.py", S + "task_progress.py"],
  [("transition pipeline", S + "scheduling_domains.py"), ("state and its copy", S + "scheduling_domains_modelling.py"), ("active time of a task", S + "task.py")])

p("C22", "Offered scheduling actions are exactly the feasible ones",
  "The actions offered in a scheduling state are: starting a remaining task, in any of its modes, whose existing predecessors are complete and whose needs at its start fit in what is free; pausing an ongoing preemptive task; resuming a paused task that fits; and letting time pass. Starting and resuming are refused while resources are overused. "
  "Feasibility uses the need at the task's own elapsed time, the free quantity of every resource and the required skills, and combinations of resource units that are offered cover every required skill.",
  ["inputs", "histories"], "every scheduling domain and reachable state",
  "The scheduling tests cannot be imported here and never compare the offered actions with the feasible ones.",
  [S + "scheduling_domains.py"], [("possible tasks and action spaces", S + "scheduling_domains.py")])

p("C23", "Scheduling building blocks give consistent answers",
  "The scheduling features a domain combines answer consistently with the definitions a user gives: predecessors are the inverse of successors, a task exists when all its conditions hold, durations are sampled from the distribution for the same task, mode and progress and remembered once sampled, bounds and distributions of durations agree, quantities, costs, windows, lags, skills and renewability come from the user's definition for that very task, mode or resource, and each 'without' feature gives its neutral answer for every task or resource.",
  ["programs", "inputs"], "every combination of scheduling features and every user definition, task, mode, resource and time",
  "The scheduling tests cannot be imported here and cover a few combinations.",
  [S + x for x in ("conditional_tasks.py", "graph_toolbox.py", "modes.py", "precedence.py", "preemptivity.py", "resource_availability.py", "resource_costs.py", "resource_renewability.py", "resource_type.py", "skills.py", "task_duration.py", "time_windows.py")],
  [("durations", S + "task_duration.py"), ("skills", S + "skills.py"), ("conditions", S + "conditional_tasks.py")])

H = "skdecide/hub/"
p("C24", "Compiled planners get exactly what their Python class was given",
  "Every wrapper of a compiled planner keeps each setting it was constructed with and hands it to the planner in the place the compiled binding reads it, resets and rebuilds the planner for the domain it solves, starts it from the state it is asked about, "
  "and gives back the planner's own answer (next action, value, explored states, plan) for that same state. A setting of the Python class is never lost, swapped with another or left at a different default than its signature shows.",
  ["inputs", "programs"], "every compiled-planner wrapper, every constructor setting, every solved domain and queried observation",
  "The compiled planners are not built here and no test constructs one.",
  [H + "solver/" + x for x in ("aostar/aostar.py", "astar/astar.py", "bfws/bfws.py", "ilaostar/ilaostar.py", "iw/iw.py", "lrtdp/lrtdp.py", "mcts/mcts.py", "riw/riw.py")],
  [("planner construction", H + "solver/mcts/mcts.py"), ("compiled binding", "cpp/src/hub/solver/mcts/py_mcts.cc")])

p("C25", "Learner wrappers translate faithfully between a domain and a learning library",
  "A wrapper of a learning library presents the domain's own spaces to it, unwraps every observation before the learner sees it and wraps every action it returns, agent by agent where there are several, steps and resets the wrapped domain once per request, "
  "and uses the trained policy on the same form of observation as it was trained with. Saving and loading go through the given path, and construction settings reach the algorithm.",
  ["inputs", "histories"], "every domain, algorithm and configuration; every observation the policy is asked about",
  "The learning libraries are not installed here, so no test runs a wrapper.",
  [H + "solver/stable_baselines/stable_baselines.py", H + "solver/ray_rllib/ray_rllib.py"],
  [("policy query", H + "solver/stable_baselines/stable_baselines.py"), ("environment proxy", H + "solver/ray_rllib/ray_rllib.py")])

p("C26", "The bundled scheduling domains answer from the instance they hold",
  "Every bundled project-scheduling domain answers questions on tasks, successors, modes, durations, quantities, costs, skills and horizon from the very instance it was constructed with, for the task, mode, resource or unit asked about, with the sampled variants drawing from the distribution they expose. "
  "Building a domain from an optimisation model or an instance file keeps every task, link, requirement, capacity and calendar of it.",
  ["inputs"], "every instance, task, mode, resource and time; every model or file a domain is built from",
  "No test builds these domains or compares their answers with the instance.",
  [H + "domain/rcpsp/rcpsp_sk.py", H + "domain/rcpsp/rcpsp_sk_parser.py"],
  [("domain answers", H + "domain/rcpsp/rcpsp_sk.py"), ("building from a model", H + "domain/rcpsp/rcpsp_sk_parser.py")])

DO = "skdecide/builders/discrete_optimization/"
p("C27", "Optimisation heuristics keep the best solutions in the sense of the problem",
  "The hill climber, simulated annealing, large neighbourhood search and genetic algorithms of the optimisation toolbox compare, accept, store and report solutions in the sense (minimisation or maximisation) they were set up with: what they return holds the solutions as they were when evaluated, with the fitness they were given, and the best stored is the best under that sense. "
  "Result storages rank, truncate, merge and filter their solutions in their own sense, and a Pareto front holds exactly the non-dominated points added to it. Objectives are aggregated with the weights and senses of the objectives handled, whichever heuristic asks.",
  ["inputs", "histories"], "every problem, initial solution, mutator, acceptance and restart rule, iteration count and optimisation sense",
  "No test runs these heuristics; a storage ranked in the wrong sense or holding a solution modified afterwards still returns a plausible result.",
  [DO + "generic_tools/ls", DO + "generic_tools/lns_mip.py", DO + "generic_tools/lns_cp.py", DO + "generic_tools/ea", DO + "generic_tools/result_storage", DO + "generic_tools/do_problem.py"],
  [("accept and record", DO + "generic_tools/ls/hill_climber.py"), ("result storage", DO + "generic_tools/result_storage/result_storage.py"), ("objective aggregation", DO + "generic_tools/do_problem.py"), ("improvement bookkeeping", DO + "generic_tools/lns_mip.py")])

p("C28", "Neighbourhood moves stay in range and are undone exactly",
  "Every mutation of the optimisation toolbox proposes a variable of the same length holding the same elements (permutations) or values within the range of each position (booleans, integers), and returns a move that, applied to the variable it was drawn for, gives the proposal and, undone on the proposal, gives back that variable. "
  "Portfolios and wrappers pass the proposal, move and objective of the mutation they picked on unchanged.",
  ["inputs"], "every solution, attribute mutated and draw of the random generator",
  "No test applies these mutations, and each draw of the random generator is one of many.",
  [DO + "generic_tools/mutations", DO + "generic_tools/do_mutation.py"],
  [("moves", DO + "generic_tools/mutations/permutation_mutations.py"), ("mixed moves", DO + "generic_tools/mutations/mixed_mutation.py"), ("integer and boolean moves", DO + "generic_tools/mutations/mutation_bool.py")])

p("C29", "Project schedules are built and judged by the rules of the project",
  "Generated schedules of the project-scheduling model start every task after its predecessors end and only while its mode's resource needs fit in what is left of every resource at each time; a task list or mode the project cannot schedule is reported as infeasible. "
  "Makespan, resource and penalty evaluations, feasibility tests, conversions between encodings, mode and permutation repair, critical-path times, neighbourhoods of the large neighbourhood search, and the integer and constraint models built for exact solving are those of the instance: the same tasks, modes, durations, resources and precedences.",
  ["inputs"], "every instance, priority list, mode assignment, partial schedule and resource calendar",
  "No test builds schedules or models of this toolbox; each instance exercises few of the interleavings of precedences, calendars and partial schedules.",
  [DO + "rcpsp"],
  [("schedule generation", DO + "rcpsp/rcpsp_model.py"), ("heuristics", DO + "rcpsp/solver/rcpsp_pile.py"), ("critical path", DO + "rcpsp/solver/cpm.py"), ("exact models", DO + "rcpsp/solver/rcpsp_lp_solver.py")])

p("C30", "Multi-skill schedules assign skilled, available employees",
  "Multi-skill schedules give every task employees that are available over its whole duration and together hold the skills of its mode, respect precedences and resources, and are evaluated, repaired, converted between encodings, perturbed and modelled for exact solving with the instance's own tasks, modes, skills, calendars and employees.",
  ["inputs"], "every instance, priority list, employee order, mode assignment and calendar",
  "No test builds multi-skill schedules or the models made from them.",
  [DO + "rcpsp_multiskill"],
  [("schedule generation and evaluation", DO + "rcpsp_multiskill/rcpsp_multiskill.py"), ("exact models", DO + "rcpsp_multiskill/solvers/cp_solvers.py")])

p("C31", "Knapsack, colouring and facility solutions are judged and built by the instance",
  "Values, weights, penalties and feasibility reported for knapsack, graph-colouring and facility-location solutions are those of the instance, in any encoding; greedy, dynamic-programming, integer, constraint and neighbourhood solvers build solutions over the instance's own items, nodes, edges, facilities and customers, report them in the sense they were set up with, and moves keep the stored value and weight in step with the items taken.",
  ["inputs"], "every instance, solution and encoding",
  "No test builds these problems or their solvers.",
  [DO + "knapsack", DO + "coloring", DO + "facility"],
  [("knapsack", DO + "knapsack/knapsack_model.py"), ("colouring", DO + "coloring/coloring_model.py"), ("facilities", DO + "facility/facility_model.py")])

p("C32", "Scheduling policies start only tasks whose turn it is",
  "The policies built on a permutation, a schedule or a priority rule start, at each state, the first task of their order that the method in use allows (the scheduled one, the first ready one, or one within the freedom given in time or position), in its stated mode and with its allocated resource units, and let time pass when no such task can be started. "
  "Learnt heuristics rank tasks by the features and the pool they were built with, the meta policy answers with the action of the policy whose simulated end is earliest, and policy evaluators return the expected cost of following a policy, with the successors and predecessors it actually reaches.",
  ["inputs", "histories"], "every scheduling domain, state, permutation, schedule, freedom and set of policies",
  "No test runs these policies; each state offers few of the choices they decide between.",
  [H + "solver/sgs_policies", H + "solver/pile_policy", H + "solver/meta_policy", H + "solver/policy_evaluators", H + "solver/gphh"],
  [("next action", H + "solver/sgs_policies/sgs_policies.py"), ("priority rules", H + "solver/pile_policy/pile_policy.py"), ("evaluation", H + "solver/policy_evaluators/policy_evaluator.py"), ("heuristics", H + "solver/gphh/gphh.py")])

p("C33", "Scheduling domains and optimisation models describe the same project",
  "Converting a scheduling domain to an optimisation model, or a model to a domain, keeps its tasks, modes, durations, resource needs and availabilities, renewability, skills, employees, successors and horizon. Solving a domain by optimisation runs a solver of the method asked for that is compatible with the model, and the policy built from the solution follows its schedule, modes, order and employees; the final state of an execution converts back to the solution executed.",
  ["inputs"], "every scheduling domain, optimisation model and solution",
  "No test converts domains or solves them by optimisation.",
  [H + "solver/do_solver"],
  [("conversion", H + "solver/do_solver/sk_to_do_binding.py"), ("solving and policies", H + "solver/do_solver/do_solver_scheduling.py")])

p("C34", "Tours and routes are judged and built by the instance",
  "Tour and route lengths, capacity violations, feasibility and conversions of travelling-salesman, vehicle-routing and travelling-thief solutions are those of the instance; greedy, routing and integer solvers and tour moves (2-opt, swap) keep a tour visiting every place once between its start and end and report its length.",
  ["inputs"], "every instance, start and end place, tour and move",
  "No test builds these problems or their solvers.",
  [DO + "vrp", DO + "tsp", DO + "ttp"],
  [("tours", DO + "tsp/tsp_model.py"), ("tour moves", DO + "tsp/mutation/mutation_tsp.py"), ("routes", DO + "vrp/vrp_model.py"), ("travelling thief", DO + "ttp/ttp_model.py")])

p("C35", "Constraint-programming models state the instance's own constraints",
  "Every MiniZinc model handed to a constraint solver declares the same parameters and decision variables, states exactly the constraints and the objective of its problem "
  "(colouring, facility location, knapsack, project scheduling with modes, calendars or skills, tours, routes: assignment, capacity, precedence, resource and calendar limits, mode choice, cost), for every instance; "
  "the solver fills in every parameter a model leaves open; every model a solver offers exists.",
  ["inputs"], "every instance (every value of the parameters a model leaves open)",
  "No test builds or solves a MiniZinc model (no constraint solver is needed by the tests).",
  [DO + x + "/minizinc" for x in ("coloring", "facility", "knapsack", "rcpsp", "rcpsp_multiskill", "tsp", "vrp")],
  [("multi-mode scheduling model", DO + "rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn"), ("multi-skill scheduling model", DO + "rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn"),
   ("models filled in and solved", DO + "rcpsp/solver/cp_solvers.py")],
  note="Decides that the items of every MiniZinc model (parameters, variables, constraints, goal) equal, in a normal form, those of hand-reviewed reference models, so the solution sets are equal for every instance; trusts the references, the normal form "
       "and MiniZinc's library. A redundant constraint added or removed is reported although it keeps the solutions. Not a machine-checked proof.",
  tech="static normal-form equality of MiniZinc models with reviewed reference models (parse, expand definitions, normalise), and a lint of parameters and model files")

p("N01", "Search solvers return optimal policies under their stated assumptions",
  "With an admissible heuristic and non-negative costs, the best-first and tree-search solvers return a policy of minimal expected cost.",
  ["inputs"], "every domain and admissible heuristic", T + "optimality over all inputs is not sampled.",
  ["skdecide/hub/solver/lazy_astar/lazy_astar.py"], [("search loops", "skdecide/hub/solver/lazy_astar/lazy_astar.py")],
  na="Optimality is an inductive argument over runtime heuristic values and costs, which no dataflow or structural analysis in reach bounds; the decidable part (queue order, relaxation, goal test, policy extraction steps) is claimed separately as the search-step property.")

p("N02", "Samplers realise their stated probabilities",
  "Over many draws, the empirical frequency of a sampled value tends to its stated probability.",
  ["inputs"], "every distribution", T + "no statistical test exists.", ["skdecide/core.py"], [("sampling", "skdecide/core.py")],
  na="A statement about limiting frequencies of a random generator; static analysis only decides that the stated values and weights reach the generator, which is claimed under the sampling property.")

p("N03", "C++ solvers are free of data races and match their Python interface",
  "The compiled solvers may be run in parallel mode without data races and give the same result as in sequential mode.",
  ["schedules"], "every interleaving of worker threads", "No test runs a compiled solver.", ["cpp/src/hub/solver"], [("C++ solvers", "cpp/src/hub/solver")],
  na="The C++ dependencies (pybind11 and the vendored libraries are git submodules) are not in the sandbox, so the C++ sources cannot be parsed with their types; only the argument lists of the exposed bindings are read (claimed under the planner-wrapper property), and races or equality of results cannot be decided from those.")

p("N04", "Optimisation models encode exactly the scheduling problem",
  "Every solution of the generated integer or constraint-programming models corresponds to a feasible schedule and conversely.",
  ["inputs"], "every instance", "No test builds these models (their solvers are not installed).",
  ["skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py"], [("model builders", "skdecide/discrete_optimization/rcpsp/solver")],
  na="Equivalence of a set of linear or finite-domain constraints with schedule feasibility is a semantic theorem about their solutions; the model text is partly in MiniZinc files outside Python, and no static rule short of solving decides it. That the models keep stating the constraints of their reviewed references is claimed (scheduling, CP-model properties).")

p("N05", "Learning solvers improve or reach a good policy",
  "Training a learning or evolutionary solver for longer yields a policy that is not worse.",
  ["inputs"], "every domain and random seed", "No test trains a policy.", ["skdecide/hub/solver/ars/ars.py"], [("training loops", "skdecide/hub/solver/ars/ars.py")],
  na="Quality of a stochastic search depends on runtime returns and random draws; no static argument bounds it.")
