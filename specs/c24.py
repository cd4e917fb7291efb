# C24: wrappers of the C++ planners


@spec("hub/solver/astar/astar.py", "Astar.__init__")
def _(self, domain_factory=None, heuristic=None, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._debug_logs = debug_logs
    if heuristic is None:
        self._heuristic = lambda d, s: 0
    else:
        self._heuristic = heuristic
    self._lambdas = [self._heuristic]
    self._ipc_notify = True


@spec("hub/solver/astar/astar.py", "Astar._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = astar_solver(domain=self.get_domain(), goal_checker=lambda d, s: d.is_goal(s), heuristic=lambda d, s: self._heuristic(d, s) if not self._parallel else d.call(None, 0, s), parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/astar/astar.py", "Astar._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/astar/astar.py", "Astar._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/astar/astar.py", "Astar._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/astar/astar.py", "Astar._get_next_action")
def _(self, observation):
    if not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    return self._solver.get_next_action(observation)


@spec("hub/solver/astar/astar.py", "Astar._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/aostar/aostar.py", "AOstar.__init__")
def _(self, domain_factory, heuristic=None, discount=1.0, max_tip_expanions=1, parallel=False, shared_memory_proxy=None, detect_cycles=False, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._discount = discount
    self._max_tip_expansions = max_tip_expanions
    self._detect_cycles = detect_cycles
    self._debug_logs = debug_logs
    if heuristic is None:
        self._heuristic = lambda d, s: 0
    else:
        self._heuristic = heuristic
    self._lambdas = [self._heuristic]
    self._ipc_notify = True


@spec("hub/solver/aostar/aostar.py", "AOstar._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = aostar_solver(domain=self.get_domain(), goal_checker=lambda d, s: d.is_goal(s), heuristic=lambda d, s: self._heuristic(d, s) if not self._parallel else d.call(None, 0, s), discount=self._discount, max_tip_expansions=self._max_tip_expansions, detect_cycles=self._detect_cycles, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/aostar/aostar.py", "AOstar._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/aostar/aostar.py", "AOstar._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/aostar/aostar.py", "AOstar._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/aostar/aostar.py", "AOstar._get_next_action")
def _(self, observation):
    if not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    return self._solver.get_next_action(observation)


@spec("hub/solver/aostar/aostar.py", "AOstar._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/bfws/bfws.py", "BFWS.__init__")
def _(self, domain_factory, state_features, heuristic, termination_checker, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._domain = None
    self._state_features = state_features
    self._termination_checker = termination_checker
    self._debug_logs = debug_logs
    if heuristic is None:
        self._heuristic = lambda d, s: 0
    else:
        self._heuristic = heuristic
    self._lambdas = [self._state_features, self._heuristic, self._termination_checker]
    self._ipc_notify = True


@spec("hub/solver/bfws/bfws.py", "BFWS._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = bfws_solver(domain=self.get_domain(), state_features=lambda d, s: self._state_features(d, s) if not self._parallel else d.call(None, 0, s), heuristic=lambda d, s: self._heuristic(d, s) if not self._parallel else d.call(None, 1, s), termination_checker=lambda d, s: self._termination_checker(d, s) if not self._parallel else d.call(None, 2, s), parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/bfws/bfws.py", "BFWS._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/bfws/bfws.py", "BFWS._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/bfws/bfws.py", "BFWS._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/bfws/bfws.py", "BFWS._get_next_action")
def _(self, observation):
    if not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    return self._solver.get_next_action(observation)


@spec("hub/solver/bfws/bfws.py", "BFWS._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar.__init__")
def _(self, domain_factory, heuristic=None, discount=1.0, epsilon=0.001, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._discount = discount
    self._epsilon = epsilon
    self._debug_logs = debug_logs
    if heuristic is None:
        self._heuristic = lambda d, s: 0
    else:
        self._heuristic = heuristic
    self._lambdas = [self._heuristic]
    self._ipc_notify = True


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = ilaostar_solver(domain=self.get_domain(), goal_checker=lambda d, s: d.is_goal(s), heuristic=lambda d, s: self._heuristic(d, s) if not self._parallel else d.call(None, 0, s), discount=self._discount, epsilon=self._epsilon, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._get_next_action")
def _(self, observation):
    if not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    return self._solver.get_next_action(observation)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar.get_nb_of_explored_states")
def _(self):
    return self._solver.get_nb_of_explored_states()


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar.best_solution_graph_size")
def _(self):
    return self._solver.best_solution_graph_size()


@spec("hub/solver/ilaostar/ilaostar.py", "ILAOstar.get_policy")
def _(self):
    return self._solver.get_policy()


@spec("hub/solver/iw/iw.py", "IW.__init__")
def _(self, domain_factory, state_features, use_state_feature_hash=False, node_ordering=None, time_budget=0, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._domain = None
    self._state_features = state_features
    self._use_state_feature_hash = use_state_feature_hash
    self._node_ordering = node_ordering
    self._time_budget = time_budget
    self._debug_logs = debug_logs
    self._lambdas = [self._state_features]
    self._ipc_notify = True


@spec("hub/solver/iw/iw.py", "IW._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = iw_solver(domain=self.get_domain(), state_features=lambda d, s: self._state_features(d, s) if not self._parallel else d.call(None, 0, s), use_state_feature_hash=self._use_state_feature_hash, node_ordering=self._node_ordering, time_budget=self._time_budget, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/iw/iw.py", "IW._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/iw/iw.py", "IW._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/iw/iw.py", "IW._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/iw/iw.py", "IW._get_next_action")
def _(self, observation):
    if not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    return self._solver.get_next_action(observation)


@spec("hub/solver/iw/iw.py", "IW._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/iw/iw.py", "IW._reset")
def _(self):
    self._solver.clear()


@spec("hub/solver/iw/iw.py", "IW.get_nb_of_explored_states")
def _(self):
    return self._solver.get_nb_of_explored_states()


@spec("hub/solver/iw/iw.py", "IW.get_nb_of_pruned_states")
def _(self):
    return self._solver.get_nb_of_pruned_states()


@spec("hub/solver/iw/iw.py", "IW.get_intermediate_scores")
def _(self):
    return self._solver.get_intermediate_scores()


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP.__init__")
def _(self, domain_factory=None, heuristic=None, use_labels=True, time_budget=3600000, rollout_budget=100000, max_depth=1000, discount=1.0, epsilon=0.001, online_node_garbage=False, continuous_planning=True, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    if heuristic is None:
        self._heuristic = lambda d, s: 0
    else:
        self._heuristic = heuristic
    self._lambdas = [self._heuristic]
    self._use_labels = use_labels
    self._time_budget = time_budget
    self._rollout_budget = rollout_budget
    self._max_depth = max_depth
    self._discount = discount
    self._epsilon = epsilon
    self._online_node_garbage = online_node_garbage
    self._continuous_planning = continuous_planning
    self._debug_logs = debug_logs
    self._ipc_notify = True


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = lrtdp_solver(domain=self.get_domain(), goal_checker=lambda d, s, i=None: d.is_goal(s) if not self._parallel else d.is_goal(s, i), heuristic=lambda d, s, i=None: self._heuristic(d, s) if not self._parallel else d.call(i, 0, s), use_labels=self._use_labels, time_budget=self._time_budget, rollout_budget=self._rollout_budget, max_depth=self._max_depth, discount=self._discount, epsilon=self._epsilon, online_node_garbage=self._online_node_garbage, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._get_next_action")
def _(self, observation):
    if self._continuous_planning or not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    action = self._solver.get_next_action(observation)
    if action is None:
        return self.call_domain_method('get_action_space').sample()
    else:
        return action


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP.get_nb_of_explored_states")
def _(self):
    return self._solver.get_nb_of_explored_states()


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP.get_nb_rollouts")
def _(self):
    return self._solver.get_nb_rollouts()


@spec("hub/solver/lrtdp/lrtdp.py", "LRTDP.get_policy")
def _(self):
    return self._solver.get_policy()


@spec("hub/solver/mcts/mcts.py", "MCTS.__init__")
def _(self, domain_factory, time_budget=3600000, rollout_budget=100000, max_depth=1000, discount=1.0, uct_mode=True, ucb_constant=1.0 / sqrt(2.0), online_node_garbage=False, custom_policy=None, heuristic=None, transition_mode=Options.TransitionMode.Distribution, tree_policy=Options.TreePolicy.Default, expander=Options.Expander.Full, action_selector_optimization=Options.ActionSelector.UCB1, action_selector_execution=Options.ActionSelector.BestQValue, rollout_policy=Options.RolloutPolicy.Random, back_propagator=Options.BackPropagator.Graph, continuous_planning=True, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._domain = None
    self._time_budget = time_budget
    self._rollout_budget = rollout_budget
    self._max_depth = max_depth
    self._discount = discount
    self._uct_mode = uct_mode
    self._ucb_constant = ucb_constant
    self._online_node_garbage = online_node_garbage
    self._custom_policy = custom_policy
    self._heuristic = heuristic
    self._transition_mode = transition_mode
    self._tree_policy = tree_policy
    self._expander = expander
    self._action_selector_optimization = action_selector_optimization
    self._action_selector_execution = action_selector_execution
    self._rollout_policy = rollout_policy
    self._back_propagator = back_propagator
    self._continuous_planning = continuous_planning
    self._debug_logs = debug_logs
    self._lambdas = [self._custom_policy, self._heuristic]
    self._ipc_notify = True


@spec("hub/solver/mcts/mcts.py", "MCTS._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = mcts_solver(domain=self.get_domain(), time_budget=self._time_budget, rollout_budget=self._rollout_budget, max_depth=self._max_depth, discount=self._discount, uct_mode=self._uct_mode, ucb_constant=self._ucb_constant, online_node_garbage=self._online_node_garbage, custom_policy=None if self._custom_policy is None else lambda d, s, i=None: self._custom_policy(d, s) if not self._parallel else d.call(i, 0, s), heuristic=None if self._heuristic is None else lambda d, s, i=None: self._heuristic(d, s) if not self._parallel else d.call(i, 1, s), transition_mode=self._transition_mode, tree_policy=self._tree_policy, expander=self._expander, action_selector_optimization=self._action_selector_optimization, action_selector_execution=self._action_selector_execution, rollout_policy=self._rollout_policy, back_propagator=self._back_propagator, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/mcts/mcts.py", "MCTS._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/mcts/mcts.py", "MCTS._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/mcts/mcts.py", "MCTS._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/mcts/mcts.py", "MCTS._get_next_action")
def _(self, observation):
    if self._continuous_planning or not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    action = self._solver.get_next_action(observation)
    if action is None:
        return self.call_domain_method('get_action_space').sample()
    else:
        return action


@spec("hub/solver/mcts/mcts.py", "MCTS._reset")
def _(self):
    self._solver.clear()


@spec("hub/solver/mcts/mcts.py", "MCTS._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/mcts/mcts.py", "MCTS.get_nb_of_explored_states")
def _(self):
    return self._solver.get_nb_of_explored_states()


@spec("hub/solver/mcts/mcts.py", "MCTS.get_nb_rollouts")
def _(self):
    return self._solver.get_nb_rollouts()


@spec("hub/solver/mcts/mcts.py", "MCTS.get_policy")
def _(self):
    return self._solver.get_policy()


@spec("hub/solver/mcts/mcts.py", "MCTS.get_action_prefix")
def _(self):
    return self._solver.get_action_prefix()


@spec("hub/solver/mcts/mcts.py", "UCT.__init__")
def _(self, domain_factory, time_budget=3600000, rollout_budget=100000, max_depth=1000, discount=1.0, ucb_constant=1.0 / sqrt(2.0), online_node_garbage=False, custom_policy=None, heuristic=None, transition_mode=mcts_options.TransitionMode.Distribution, rollout_policy=mcts_options.RolloutPolicy.Random, continuous_planning=True, parallel=False, shared_memory_proxy=None, debug_logs=False):
    super().__init__(domain_factory=domain_factory, time_budget=time_budget, rollout_budget=rollout_budget, max_depth=max_depth, discount=discount, uct_mode=True, ucb_constant=ucb_constant, online_node_garbage=online_node_garbage, custom_policy=custom_policy, heuristic=heuristic, transition_mode=transition_mode, rollout_policy=rollout_policy, continuous_planning=continuous_planning, parallel=parallel, shared_memory_proxy=shared_memory_proxy, debug_logs=debug_logs)


@spec("hub/solver/riw/riw.py", "RIW.__init__")
def _(self, domain_factory, state_features, use_state_feature_hash=False, use_simulation_domain=False, time_budget=3600000, rollout_budget=100000, max_depth=1000, exploration=0.25, discount=1.0, online_node_garbage=False, continuous_planning=True, parallel=False, shared_memory_proxy=None, debug_logs=False):
    ParallelSolver.__init__(self, domain_factory=domain_factory, parallel=parallel, shared_memory_proxy=shared_memory_proxy)
    self._solver = None
    self._domain = None
    self._state_features = state_features
    self._use_state_feature_hash = use_state_feature_hash
    self._use_simulation_domain = use_simulation_domain
    self._time_budget = time_budget
    self._rollout_budget = rollout_budget
    self._max_depth = max_depth
    self._exploration = exploration
    self._discount = discount
    self._online_node_garbage = online_node_garbage
    self._continuous_planning = continuous_planning
    self._debug_logs = debug_logs
    self._lambdas = [self._state_features]
    self._ipc_notify = True


@spec("hub/solver/riw/riw.py", "RIW._init_solve")
def _(self, domain_factory):
    self._domain_factory = domain_factory
    self._solver = riw_solver(domain=self.get_domain(), state_features=lambda d, s, i=None: self._state_features(d, s) if not self._parallel else d.call(i, 0, s), use_state_feature_hash=self._use_state_feature_hash, use_simulation_domain=self._use_simulation_domain, time_budget=self._time_budget, rollout_budget=self._rollout_budget, max_depth=self._max_depth, exploration=self._exploration, discount=self._discount, online_node_garbage=self._online_node_garbage, parallel=self._parallel, debug_logs=self._debug_logs)
    self._solver.clear()


@spec("hub/solver/riw/riw.py", "RIW._solve_domain")
def _(self, domain_factory):
    self._init_solve(domain_factory)


@spec("hub/solver/riw/riw.py", "RIW._solve_from")
def _(self, memory):
    self._solver.solve(memory)


@spec("hub/solver/riw/riw.py", "RIW._is_solution_defined_for")
def _(self, observation):
    return self._solver.is_solution_defined_for(observation)


@spec("hub/solver/riw/riw.py", "RIW._get_next_action")
def _(self, observation):
    if self._continuous_planning or not self._is_solution_defined_for(observation):
        self._solve_from(observation)
    action = self._solver.get_next_action(observation)
    if action is None:
        return self.call_domain_method('get_action_space').sample()
    else:
        return action


@spec("hub/solver/riw/riw.py", "RIW._reset")
def _(self):
    self._solver.clear()


@spec("hub/solver/riw/riw.py", "RIW._get_utility")
def _(self, observation):
    return self._solver.get_utility(observation)


@spec("hub/solver/riw/riw.py", "RIW.get_nb_of_explored_states")
def _(self):
    return self._solver.get_nb_of_explored_states()


@spec("hub/solver/riw/riw.py", "RIW.get_nb_of_pruned_states")
def _(self):
    return self._solver.get_nb_of_pruned_states()


@spec("hub/solver/riw/riw.py", "RIW.get_nb_rollouts")
def _(self):
    return self._solver.get_nb_rollouts()


@spec("hub/solver/riw/riw.py", "RIW.get_policy")
def _(self):
    return self._solver.get_policy()


@spec("hub/solver/riw/riw.py", "RIW.get_action_prefix")
def _(self):
    return self._solver.get_action_prefix()
