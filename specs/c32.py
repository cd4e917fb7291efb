# C32: policies of the scheduling solvers: schedule generation schemes, priority rules, evaluation, hyper-heuristics


@spec("hub/solver/sgs_policies/sgs_policies.py", "PolicyMethodParams.__init__")
def _(self, base_policy_method, delta_time_freedom=10, delta_index_freedom=10):
    self.base_policy_method = base_policy_method
    self.delta_time_freedom = delta_time_freedom
    self.delta_index_freedom = delta_index_freedom


@spec("hub/solver/sgs_policies/sgs_policies.py", "PolicyRCPSP.__init__")
def _(self, domain, policy_method_params, permutation_task, modes_dictionnary, schedule=None, resource_allocation=None, resource_allocation_priority=None):
    self.domain = domain
    self.policy_method_params = policy_method_params
    self.permutation_task = permutation_task
    self.modes_dictionnary = modes_dictionnary
    self.schedule = schedule
    self.store_start_date = {}
    if self.schedule is not None:
        for task_id in self.schedule:
            start_date = self.schedule[task_id]['start_time']
            if start_date not in self.store_start_date:
                self.store_start_date[start_date] = set()
            self.store_start_date[start_date].add(task_id)
    self.resource_allocation = resource_allocation
    self.resource_allocation_priority = resource_allocation_priority
    self.build_function()


@spec("hub/solver/sgs_policies/sgs_policies.py", "PolicyRCPSP.build_function")
def _(self):
    func = partial(map_method_to_function[self.policy_method_params.base_policy_method], policy_rcpsp=self, check_if_applicable=False, domain_sk_decide=self.domain, delta_time_freedom=self.policy_method_params.delta_time_freedom, delta_index_freedom=self.policy_method_params.delta_index_freedom)
    self.func = func


@spec("hub/solver/sgs_policies/sgs_policies.py", "PolicyRCPSP._get_next_action")
def _(self, observation):
    return self.func(state=observation)


@spec("hub/solver/sgs_policies/sgs_policies.py", "PolicyRCPSP._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/sgs_policies/sgs_policies.py", "action_in_applicable_actions")
def _(domain_sk_decide, observation, the_action):
    return domain_sk_decide.check_if_action_can_be_started(observation, the_action)


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_follow_static_gantt")
def _(policy_rcpsp, state, check_if_applicable=False, **kwargs):
    obs = state
    t = obs.t
    ongoing_task = obs.tasks_ongoing
    complete_task = obs.tasks_complete
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    if t in policy_rcpsp.store_start_date:
        tasks = [task for task in policy_rcpsp.store_start_date[t] if task not in ongoing_task and task not in complete_task and (task in possible_task_to_launch)]
        if len(tasks) > 0:
            the_action = SchedulingAction(task=tasks[0], action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[tasks[0]], time_progress=False, resource_unit_names=None)
            if policy_rcpsp.resource_allocation is not None:
                if tasks[0] in policy_rcpsp.resource_allocation:
                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tasks[0]]
    if True:
        action_available = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if not action_available[0]:
            the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    return the_action


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_sgs_first_task_precedence_ready")
def _(policy_rcpsp, state, check_if_applicable=False, **kwargs):
    obs = state
    next_task_to_launch = None
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    sorted_task_not_done = sorted([(index, policy_rcpsp.permutation_task[index]) for index in range(len(policy_rcpsp.permutation_task)) if policy_rcpsp.permutation_task[index] in state.tasks_remaining], key=lambda x: x[0])
    for i in range(len(sorted_task_not_done)):
        task = sorted_task_not_done[i][1]
        if task in possible_task_to_launch:
            next_task_to_launch = task
            break
    if next_task_to_launch is not None:
        if policy_rcpsp.schedule is not None:
            original_time_start_task = policy_rcpsp.schedule[next_task_to_launch]['start_time']
            other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done if task_id != next_task_to_launch and policy_rcpsp.schedule[task_id]['start_time'] == original_time_start_task and (task_id in possible_task_to_launch)]
        else:
            other_tasks_same_time = []
        tasks_of_interest = [next_task_to_launch] + other_tasks_same_time
        the_action = None
        for tinterest in tasks_of_interest:
            the_action = SchedulingAction(task=tinterest, action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[tinterest], time_progress=False, resource_unit_names=None)
            if policy_rcpsp.resource_allocation is not None:
                if tinterest in policy_rcpsp.resource_allocation:
                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tinterest]
            applicable = action_in_applicable_actions(domain_sk_decide=policy_rcpsp.domain, observation=state, the_action=the_action)
            if applicable[0]:
                break
            else:
                the_action = None
        if the_action is None:
            the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
        return the_action
    else:
        return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_sgs_first_task_ready")
def _(policy_rcpsp, state, check_if_applicable=False, domain_sk_decide=None, **kwargs):
    obs = state
    t = obs.t
    sorted_task_not_done = sorted([(index, policy_rcpsp.permutation_task[index]) for index in range(len(policy_rcpsp.permutation_task)) if policy_rcpsp.permutation_task[index] in state.tasks_remaining], key=lambda x: x[0])
    next_task_to_launch = None
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    for i in range(len(sorted_task_not_done)):
        task = sorted_task_not_done[i][1]
        if task not in possible_task_to_launch:
            continue
        the_action = SchedulingAction(task=task, action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[task], time_progress=False, resource_unit_names=None)
        if policy_rcpsp.resource_allocation is not None:
            if task in policy_rcpsp.resource_allocation:
                the_action.resource_unit_names = policy_rcpsp.resource_allocation[task]
        action_available = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if action_available[0]:
            return the_action
    the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    return the_action


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_sgs_strict")
def _(policy_rcpsp, state, check_if_applicable=False, domain_sk_decide=None, **kwargs):
    obs = state
    t = obs.t
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    sorted_task_not_done = sorted([(index, policy_rcpsp.permutation_task[index]) for index in range(len(policy_rcpsp.permutation_task)) if policy_rcpsp.permutation_task[index] in state.tasks_remaining and policy_rcpsp.permutation_task[index] in possible_task_to_launch], key=lambda x: x[0])
    the_action = None
    if len(sorted_task_not_done) > 0:
        other_tasks_same_time = [sorted_task_not_done[0][1]]
        if policy_rcpsp.schedule is not None:
            scheduled_time = policy_rcpsp.schedule[sorted_task_not_done[0][1]]['start_time']
            other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done if policy_rcpsp.schedule[task_id]['start_time'] == scheduled_time]
        for tinterest in other_tasks_same_time:
            the_action = SchedulingAction(task=tinterest, action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[tinterest], time_progress=False, resource_unit_names=None)
            if policy_rcpsp.resource_allocation is not None:
                if tinterest in policy_rcpsp.resource_allocation:
                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tinterest]
            applicable = action_in_applicable_actions(policy_rcpsp.domain, observation=state, the_action=the_action)
            if applicable[0]:
                break
            else:
                the_action = None
    if the_action is None:
        the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    return the_action


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_sgs_time_freedom")
def _(policy_rcpsp, state, check_if_applicable=False, domain_sk_decide=None, delta_time_freedom=10, **kwargs):
    obs = state
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    sorted_task_not_done = sorted([(index, policy_rcpsp.permutation_task[index]) for index in range(len(policy_rcpsp.permutation_task)) if policy_rcpsp.permutation_task[index] in state.tasks_remaining and policy_rcpsp.permutation_task[index] in possible_task_to_launch], key=lambda x: x[0])
    the_action = None
    if len(sorted_task_not_done) > 0:
        other_tasks_same_time = [sorted_task_not_done[0][1]]
        if policy_rcpsp.schedule is not None:
            scheduled_time = policy_rcpsp.schedule[sorted_task_not_done[0][1]]['start_time']
            other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done if scheduled_time <= policy_rcpsp.schedule[task_id]['start_time'] <= scheduled_time + delta_time_freedom]
        for tinterest in other_tasks_same_time:
            the_action = SchedulingAction(task=tinterest, action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[tinterest], time_progress=False, resource_unit_names=None)
            if policy_rcpsp.resource_allocation is not None:
                if tinterest in policy_rcpsp.resource_allocation:
                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tinterest]
            applicable = action_in_applicable_actions(policy_rcpsp.domain, observation=state, the_action=the_action)
            if applicable[0]:
                break
            else:
                the_action = None
    if the_action is None:
        the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    return the_action


@spec("hub/solver/sgs_policies/sgs_policies.py", "next_action_sgs_index_freedom")
def _(policy_rcpsp, state, check_if_applicable=False, domain_sk_decide=None, delta_index_freedom=10, **kwargs):
    obs = state
    possible_task_to_launch = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    sorted_task_not_done = sorted([(index, policy_rcpsp.permutation_task[index]) for index in range(len(policy_rcpsp.permutation_task)) if policy_rcpsp.permutation_task[index] in state.tasks_remaining and policy_rcpsp.permutation_task[index] in possible_task_to_launch], key=lambda x: x[0])
    the_action = None
    if len(sorted_task_not_done) > 0:
        index_t = sorted_task_not_done[0][0]
        other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done if ind <= index_t + delta_index_freedom]
        for tinterest in other_tasks_same_time:
            the_action = SchedulingAction(task=tinterest, action=SchedulingActionEnum.START, mode=policy_rcpsp.modes_dictionnary[tinterest], time_progress=False, resource_unit_names=None)
            if policy_rcpsp.resource_allocation is not None:
                if tinterest in policy_rcpsp.resource_allocation:
                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tinterest]
            applicable = action_in_applicable_actions(policy_rcpsp.domain, observation=state, the_action=the_action)
            if applicable[0]:
                break
            else:
                the_action = None
    if the_action is None:
        the_action = SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True, resource_unit_names=None)
    return the_action


@spec("hub/solver/pile_policy/pile_policy.py", "PilePolicy.__init__")
def _(self, greedy_method=GreedyChoice.MOST_SUCCESSORS):
    self.greedy_method = greedy_method


@spec("hub/solver/pile_policy/pile_policy.py", "PilePolicy._solve_domain")
def _(self, domain_factory):
    self.domain = domain_factory()
    self.graph = self.domain.graph
    self.nx_graph = self.graph.to_networkx()
    self.successors_map = {}
    self.predecessors_map = {}
    self.successors = {n: list(nx.algorithms.descendants(self.nx_graph, n)) for n in self.nx_graph.nodes()}
    self.source = 1
    for k in self.successors:
        self.successors_map[k] = {'succs': self.successors[k], 'nb': len(self.successors[k])}
    self.predecessors = {n: list(nx.algorithms.ancestors(self.nx_graph, n)) for n in self.nx_graph.nodes()}
    for k in self.predecessors:
        self.predecessors_map[k] = {'succs': self.predecessors[k], 'nb': len(self.predecessors[k])}


@spec("hub/solver/pile_policy/pile_policy.py", "PilePolicy._get_next_action")
def _(self, observation):
    s = observation
    predecessors = {n: nx.algorithms.ancestors(self.nx_graph, n) for n in self.nx_graph.nodes()}
    for k in predecessors:
        self.predecessors_map[k] = {'succs': predecessors[k], 'nb': len(predecessors[k])}
    greedy_choice = self.greedy_method
    possible_task_to_launch = self.domain.task_possible_to_launch_precedence(state=s)
    possible_task_to_launch = [t for t in possible_task_to_launch if self.domain.check_if_action_can_be_started(state=s, action=SchedulingAction(task=t, action=SchedulingActionEnum.START, time_progress=False, mode=1))[0]]
    if len(possible_task_to_launch) > 0:
        if greedy_choice == GreedyChoice.MOST_SUCCESSORS:
            next_activity = max(possible_task_to_launch, key=lambda x: self.successors_map[x]['nb'])
        if greedy_choice == GreedyChoice.SAMPLE_MOST_SUCCESSORS:
            prob = np.array([self.successors_map[possible_task_to_launch[i]]['nb'] for i in range(len(possible_task_to_launch))])
            s = np.sum(prob)
            if s != 0:
                prob = prob / s
            else:
                prob = 1.0 / len(possible_task_to_launch) * np.ones(len(possible_task_to_launch))
            next_activity = np.random.choice(np.arange(0, len(possible_task_to_launch)), size=1, p=prob)[0]
            next_activity = possible_task_to_launch[next_activity]
        if greedy_choice == GreedyChoice.FASTEST:
            next_activity = min(possible_task_to_launch, key=lambda x: self.domain.sample_task_duration(x, 1, 0.0))
        if greedy_choice == GreedyChoice.TOTALLY_RANDOM:
            next_activity = random.choice(possible_task_to_launch)
        return SchedulingAction(task=next_activity, mode=1, action=SchedulingActionEnum.START, time_progress=False)
    else:
        return SchedulingAction(task=None, mode=1, action=SchedulingActionEnum.TIME_PR, time_progress=True)


@spec("hub/solver/pile_policy/pile_policy.py", "PilePolicy._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/meta_policy/meta_policies.py", "MetaPolicy.__init__")
def _(self, policies, execution_domain, known_domain, nb_rollout_estimation=1, verbose=True):
    self.known_domain = known_domain
    self.known_domain.fast = True
    self.execution_domain = execution_domain
    self.policies = policies
    self.current_states = {method: None for method in policies}
    self.nb_rollout_estimation = nb_rollout_estimation
    self.verbose = verbose


@spec("hub/solver/meta_policy/meta_policies.py", "MetaPolicy.reset")
def _(self):
    self.current_states = {method: None for method in self.policies}


@spec("hub/solver/meta_policy/meta_policies.py", "MetaPolicy._get_next_action")
def _(self, observation):
    results = {}
    actions_map = {}
    self.known_domain.set_inplace_environment(True)
    actions_c = [self.policies[method].get_next_action(observation) for method in self.policies]
    if len(set(actions_c)) > 1:
        for method in self.policies:
            results[method] = 0.0
            for j in range(self.nb_rollout_estimation):
                states, actions, values = rollout_episode(domain=self.known_domain, solver=self.policies[method], outcome_formatter=None, action_formatter=None, verbose=False, from_memory=observation.copy())
                results[method] += states[-1].t - observation.t
                actions_map[method] = actions[0]
        if self.verbose:
            pass
        return actions_map[min(results, key=lambda x: results[x])]
    else:
        return actions_c[0]


@spec("hub/solver/meta_policy/meta_policies.py", "MetaPolicy._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "construct_dict_policy")
def _(domain, policy):
    stack = [domain.get_initial_state()]
    preds = defaultdict(set)
    succs = defaultdict()
    policy_dict = {}
    while len(stack) > 0:
        s = stack.pop()
        if domain.is_terminal(s) or s in policy_dict:
            continue
        action = policy.get_next_action(s)
        policy_dict[s] = action
        successors = [(succ, prob) for succ, prob in domain.get_next_state_distribution(s, action).get_values() if prob != 0]
        succs[s] = successors
        for succ, prob in successors:
            stack.append(succ)
            preds[succ].add(s)
    for state, successor_pairs in succs.items():
        for succ, prob in successor_pairs:
            assert state in preds[succ]
    return (policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "expected_costs_for_policy")
def _(domain, policy_dict, preds, succs):
    opt_val = dict()
    stack = set()
    for s in preds.keys():
        if domain.is_goal(s):
            opt_val[s] = 0
            stack.update(preds[s])
    while len(stack) > 0:
        s = stack.pop()
        if s in opt_val or not successor_value_is_known(succs[s], opt_val):
            continue
        a = policy_dict[s]
        main_cost = 0
        for succ, prob in succs[s]:
            val = domain.get_transition_value(s, a, succ)
            main_cost += prob * (val.cost + opt_val[succ])
        opt_val[s] = main_cost
        stack.update(preds[s])
    return opt_val


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "compute_expected_cost_for_policy")
def _(domain, policy):
    policy_dict, preds, succs = construct_dict_policy(domain, policy)
    value_function_dict = expected_costs_for_policy(domain, policy_dict, preds, succs)
    return (value_function_dict, policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "my_custom_rollout")
def _(domain, state, policy):
    states = [state]
    values = []
    summed_value = 0.0
    actions = []
    while True:
        action = policy.get_next_action(states[-1])
        next_state = SchedulingDomain._state_sample(domain, states[-1], action).state
        value = domain.get_transition_value(states[-1], action, next_state)
        values += [value.cost]
        summed_value += value.cost
        states += [next_state]
        actions += [action]
        if domain.is_goal(states[-1]):
            break
        if domain.is_terminal(states[-1]):
            summed_value += 1000
            break
    return (states, summed_value, values, actions)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "rollout_based_policy_estimation")
def _(domain, policy, nb_rollout=1):
    policy_dict = {}
    nb_visit_dict = {}
    summed_value = {}
    final_value = {}
    preds = {}
    succs = {}
    for rollout in range(nb_rollout):
        states, summed_value_rollout, values, actions = my_custom_rollout(domain, domain.get_initial_state(), policy)
        values_np = np.array(values[::-1]).cumsum()
        k = 0
        for j in range(len(states) - 2, -1, -1):
            if states[j] not in nb_visit_dict:
                nb_visit_dict[states[j]] = 0
                summed_value[states[j]] = 0
                final_value[states[j]] = 0
                policy_dict[states[j]] = actions[j]
                preds[states[j]] = set()
                succs[states[j]] = set()
            summed_value[states[j]] += values_np[k]
            nb_visit_dict[states[j]] += 1
            if j > 0:
                preds[states[j]].add(states[j - 1])
            succs[states[j]].add(states[j + 1])
            k += 1
    final_value = {st: summed_value[st] / nb_visit_dict[st] for st in summed_value}
    return (final_value, policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "rollout_based_policy_estimation_fast_scheduling")
def _(domain, policy, nb_rollout=1):
    policy_dict = {}
    nb_visit_dict = {}
    summed_value = {}
    final_value = {}
    preds = {}
    succs = {}
    s = domain.get_initial_state()
    summed_value[s] = 0
    nb_visit_dict[s] = 0
    domain.set_inplace_environment(True)
    for rollout in range(nb_rollout):
        states, summed_value_rollout, values, actions = my_custom_rollout(domain, s.copy(), policy)
        summed_value[s] += states[-1].t - s.t
        nb_visit_dict[s] += 1
    final_value = {st: summed_value[st] / nb_visit_dict[st] for st in summed_value}
    return (final_value, policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "rollout_based_compute_expected_cost_for_policy")
def _(domain, policy, nb_rollout=100):
    final_value, policy_dict, preds, succs = rollout_based_policy_estimation(domain=domain, policy=policy, nb_rollout=nb_rollout)
    return (final_value, policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "rollout_based_compute_expected_cost_for_policy_scheduling")
def _(domain, policy, nb_rollout=100):
    final_value, policy_dict, preds, succs = rollout_based_policy_estimation_fast_scheduling(domain=domain, policy=policy, nb_rollout=nb_rollout)
    return (final_value, policy_dict, preds, succs)


@spec("hub/solver/policy_evaluators/policy_evaluator.py", "successor_value_is_known")
def _(successors, opt_val):
    for succ, prob in successors:
        if prob != 0 and succ not in opt_val:
            return False
    return True


@spec("hub/solver/gphh/gphh.py", "if_then_else")
def _(input, output1, output2):
    if input:
        return output1
    else:
        return output2


@spec("hub/solver/gphh/gphh.py", "protected_div")
def _(left, right):
    if right != 0.0:
        return left / right
    else:
        return 1.0


@spec("hub/solver/gphh/gphh.py", "max_operator")
def _(left, right):
    return max(left, right)


@spec("hub/solver/gphh/gphh.py", "min_operator")
def _(left, right):
    return min(left, right)


@spec("hub/solver/gphh/gphh.py", "feature_task_duration")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return domain.sample_task_duration(task_id)


@spec("hub/solver/gphh/gphh.py", "feature_total_n_res")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    val = 0
    mode_consumption = domain.get_task_modes(task_id)[1]
    for res in mode_consumption.get_ressource_names():
        val += mode_consumption.get_resource_need(res)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_n_successors")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return len(domain.get_successors_task(task_id)) / len(domain.get_tasks_ids())


@spec("hub/solver/gphh/gphh.py", "feature_n_predecessors")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return len(domain.get_predecessors_task(task_id)) / len(domain.get_tasks_ids())


@spec("hub/solver/gphh/gphh.py", "get_resource_requirements_across_duration")
def _(domain, task_id, **kwargs):
    values = []
    mode_consumption = domain.get_task_modes(task_id)[1]
    duration = domain.get_latest_sampled_duration(task_id, 1, 0.0)
    if duration > 0:
        for res in mode_consumption.get_ressource_names():
            tmp = 0
            for t in range(duration):
                need = domain.get_task_modes(task_id)[1].get_resource_need_at_time(res, t)
                total = domain.sample_quantity_resource(res, t)
                tmp += need / total
            values.append(tmp / duration)
    else:
        values = [0.0]
    return values


@spec("hub/solver/gphh/gphh.py", "feature_average_resource_requirements")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    values = get_resource_requirements_across_duration(domain=domain, task_id=task_id)
    val = np.mean(values)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_minimum_resource_requirements")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    values = get_resource_requirements_across_duration(domain=domain, task_id=task_id)
    val = np.min(values)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_non_zero_minimum_resource_requirements")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    values = get_resource_requirements_across_duration(domain=domain, task_id=task_id)
    if np.sum(values) > 0.0:
        val = np.min([x for x in values if x > 0.0])
    else:
        val = np.min(values)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_maximum_resource_requirements")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    values = get_resource_requirements_across_duration(domain=domain, task_id=task_id)
    val = np.max(values)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_resource_requirements")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    values = get_resource_requirements_across_duration(domain=domain, task_id=task_id)
    val = len([x for x in values if x > 0.0]) / len(values)
    return val


@spec("hub/solver/gphh/gphh.py", "feature_all_descendants")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return len(domain.full_successors[task_id]) / len(domain.get_tasks_ids())


@spec("hub/solver/gphh/gphh.py", "feature_precedence_done")
def _(domain, cpm, cpm_esd, task_id, state, **kwargs):
    return task_id in domain.task_possible_to_launch_precedence(state=state)


@spec("hub/solver/gphh/gphh.py", "compute_cpm")
def _(do_domain):
    cpm_solver = CPM(do_domain)
    path = cpm_solver.run_classic_cpm()
    cpm = cpm_solver.map_node
    cpm_esd = cpm[path[-1]]._ESD
    return (cpm, cpm_esd)


@spec("hub/solver/gphh/gphh.py", "feature_esd")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return cpm[task_id]._ESD / cpm_esd


@spec("hub/solver/gphh/gphh.py", "feature_lsd")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return cpm[task_id]._LSD / cpm_esd


@spec("hub/solver/gphh/gphh.py", "feature_efd")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return cpm[task_id]._EFD / cpm_esd


@spec("hub/solver/gphh/gphh.py", "feature_lfd")
def _(domain, cpm, cpm_esd, task_id, **kwargs):
    return cpm[task_id]._LFD / cpm_esd


@spec("hub/solver/gphh/gphh.py", "ParametersGPHH.__init__")
def _(self, set_feature, set_primitves, tournament_ratio, pop_size, n_gen, min_tree_depth, max_tree_depth, crossover_rate, mutation_rate, base_policy_method, delta_index_freedom, delta_time_freedom, deap_verbose, evaluation, permutation_distance):
    self.set_feature = set_feature
    self.set_primitves = set_primitves
    self.tournament_ratio = tournament_ratio
    self.pop_size = pop_size
    self.n_gen = n_gen
    self.min_tree_depth = min_tree_depth
    self.max_tree_depth = max_tree_depth
    self.crossover_rate = crossover_rate
    self.mutation_rate = mutation_rate
    self.base_policy_method = base_policy_method
    self.delta_index_freedom = delta_index_freedom
    self.delta_time_freedom = delta_time_freedom
    self.deap_verbose = deap_verbose
    self.evaluation = evaluation
    self.permutation_distance = permutation_distance


@spec("hub/solver/gphh/gphh.py", "ParametersGPHH.default")
def _():
    set_feature = {FeatureEnum.EARLIEST_FINISH_DATE, FeatureEnum.EARLIEST_START_DATE, FeatureEnum.LATEST_FINISH_DATE, FeatureEnum.LATEST_START_DATE, FeatureEnum.N_PREDECESSORS, FeatureEnum.N_SUCCESSORS, FeatureEnum.ALL_DESCENDANTS, FeatureEnum.RESSOURCE_REQUIRED, FeatureEnum.RESSOURCE_AVG, FeatureEnum.RESSOURCE_MAX, FeatureEnum.RESSOURCE_NZ_MIN}
    pset = PrimitiveSet('main', len(set_feature))
    pset.addPrimitive(operator.add, 2)
    pset.addPrimitive(operator.sub, 2)
    pset.addPrimitive(operator.mul, 2)
    pset.addPrimitive(protected_div, 2)
    pset.addPrimitive(max_operator, 2)
    pset.addPrimitive(min_operator, 2)
    pset.addPrimitive(operator.neg, 1)
    return ParametersGPHH(set_feature=set_feature, set_primitves=pset, tournament_ratio=0.1, pop_size=40, n_gen=100, min_tree_depth=1, max_tree_depth=4, crossover_rate=0.7, mutation_rate=0.3, base_policy_method=BasePolicyMethod.FOLLOW_GANTT, delta_index_freedom=0, delta_time_freedom=0, deap_verbose=True, evaluation=EvaluationGPHH.SGS, permutation_distance=PermutationDistance.KTD)


@spec("hub/solver/gphh/gphh.py", "ParametersGPHH.fast_test")
def _():
    set_feature = {FeatureEnum.EARLIEST_FINISH_DATE, FeatureEnum.EARLIEST_START_DATE, FeatureEnum.LATEST_FINISH_DATE, FeatureEnum.LATEST_START_DATE, FeatureEnum.N_PREDECESSORS, FeatureEnum.N_SUCCESSORS, FeatureEnum.ALL_DESCENDANTS, FeatureEnum.RESSOURCE_REQUIRED, FeatureEnum.RESSOURCE_AVG, FeatureEnum.RESSOURCE_MAX, FeatureEnum.RESSOURCE_NZ_MIN}
    pset = PrimitiveSet('main', len(set_feature))
    pset.addPrimitive(operator.add, 2)
    pset.addPrimitive(operator.sub, 2)
    pset.addPrimitive(operator.mul, 2)
    pset.addPrimitive(protected_div, 2)
    pset.addPrimitive(max_operator, 2)
    pset.addPrimitive(min_operator, 2)
    pset.addPrimitive(operator.neg, 1)
    return ParametersGPHH(set_feature=set_feature, set_primitves=pset, tournament_ratio=0.1, pop_size=10, n_gen=2, min_tree_depth=1, max_tree_depth=4, crossover_rate=0.7, mutation_rate=0.3, base_policy_method=BasePolicyMethod.FOLLOW_GANTT, delta_index_freedom=0, delta_time_freedom=0, deap_verbose=True, evaluation=EvaluationGPHH.SGS, permutation_distance=PermutationDistance.KTD)


@spec("hub/solver/gphh/gphh.py", "ParametersGPHH.default_for_set_features")
def _(set_feature):
    pset = PrimitiveSet('main', len(set_feature))
    pset.addPrimitive(operator.add, 2)
    pset.addPrimitive(operator.sub, 2)
    pset.addPrimitive(operator.mul, 2)
    pset.addPrimitive(max_operator, 2)
    pset.addPrimitive(min_operator, 2)
    pset.addPrimitive(operator.neg, 1)
    return ParametersGPHH(set_feature=set_feature, set_primitves=pset, tournament_ratio=0.25, pop_size=20, n_gen=20, min_tree_depth=1, max_tree_depth=4, crossover_rate=0.7, mutation_rate=0.1, base_policy_method=BasePolicyMethod.SGS_READY, delta_index_freedom=0, delta_time_freedom=0, deap_verbose=True, evaluation=EvaluationGPHH.PERMUTATION_DISTANCE, permutation_distance=PermutationDistance.KTD)


@spec("hub/solver/gphh/gphh.py", "GPHH.__init__")
def _(self, training_domains, domain_model, weight, params_gphh=ParametersGPHH.default(), reference_permutations=None, training_domains_names=None, verbose=False):
    self.training_domains = training_domains
    self.domain_model = domain_model
    self.params_gphh = params_gphh
    self.set_feature = self.params_gphh.set_feature
    self.list_feature = list(self.set_feature)
    self.verbose = verbose
    self.pset = self.init_primitives(self.params_gphh.set_primitves)
    self.weight = weight
    self.evaluation_method = self.params_gphh.evaluation
    self.initialize_cpm_data_for_training()
    if self.evaluation_method == EvaluationGPHH.PERMUTATION_DISTANCE:
        self.init_reference_permutations(reference_permutations, training_domains_names)
        self.permutation_distance = self.params_gphh.permutation_distance


@spec("hub/solver/gphh/gphh.py", "GPHH.init_reference_permutations")
def _(self, reference_permutations={}, training_domains_names=[]):
    self.reference_permutations = {}
    for i in range(len(self.training_domains)):
        td = self.training_domains[i]
        td_name = training_domains_names[i]
        if td_name not in reference_permutations.keys():
            td.set_inplace_environment(False)
            solver = DOSolver(policy_method_params=PolicyMethodParams(base_policy_method=BasePolicyMethod.SGS_PRECEDENCE, delta_index_freedom=0, delta_time_freedom=0), method=SolvingMethod.CP)
            solver.solve(domain_factory=lambda: td)
            raw_permutation = solver.best_solution.rcpsp_permutation
            full_permutation = [x + 2 for x in raw_permutation]
            full_permutation.insert(0, 1)
            full_permutation.append(np.max(full_permutation) + 1)
            self.reference_permutations[td] = full_permutation
        else:
            self.reference_permutations[td] = reference_permutations[td_name]


@spec("hub/solver/gphh/gphh.py", "GPHH._solve_domain")
def _(self, domain_factory):
    self.domain = domain_factory()
    tournament_ratio = self.params_gphh.tournament_ratio
    pop_size = self.params_gphh.pop_size
    n_gen = self.params_gphh.n_gen
    min_tree_depth = self.params_gphh.min_tree_depth
    max_tree_depth = self.params_gphh.max_tree_depth
    crossover_rate = self.params_gphh.crossover_rate
    mutation_rate = self.params_gphh.mutation_rate
    creator.create('FitnessMin', Fitness, weights=(self.weight,))
    creator.create('Individual', PrimitiveTree, fitness=creator.FitnessMin)
    self.toolbox = Toolbox()
    self.toolbox.register('expr', genHalfAndHalf, pset=self.pset, min_=min_tree_depth, max_=max_tree_depth)
    self.toolbox.register('individual', tools.initIterate, creator.Individual, self.toolbox.expr)
    self.toolbox.register('population', tools.initRepeat, list, self.toolbox.individual)
    self.toolbox.register('compile', gp.compile, pset=self.pset)
    if self.evaluation_method == EvaluationGPHH.SGS:
        self.toolbox.register('evaluate', self.evaluate_heuristic, domains=self.training_domains)
    elif self.evaluation_method == EvaluationGPHH.PERMUTATION_DISTANCE:
        self.toolbox.register('evaluate', self.evaluate_heuristic_permutation, domains=self.training_domains)
    self.toolbox.register('select', tools.selTournament, tournsize=int(tournament_ratio * pop_size))
    self.toolbox.register('mate', gp.cxOnePoint)
    self.toolbox.register('expr_mut', gp.genFull, min_=0, max_=max_tree_depth)
    self.toolbox.register('mutate', gp.mutUniform, expr=self.toolbox.expr_mut, pset=self.pset)
    self.toolbox.decorate('mate', gp.staticLimit(key=operator.attrgetter('height'), max_value=17))
    self.toolbox.decorate('mutate', gp.staticLimit(key=operator.attrgetter('height'), max_value=17))
    stats_fit = tools.Statistics(lambda ind: ind.fitness.values)
    stats_size = tools.Statistics(len)
    mstats = tools.MultiStatistics(fitness=stats_fit, size=stats_size)
    mstats.register('avg', np.mean)
    mstats.register('std', np.std)
    mstats.register('min', np.min)
    mstats.register('max', np.max)
    pop = self.toolbox.population(n=pop_size)
    hof = tools.HallOfFame(1)
    self.hof = hof
    pop, log = algorithms.eaSimple(pop, self.toolbox, crossover_rate, mutation_rate, n_gen, stats=mstats, halloffame=hof, verbose=True)
    self.best_heuristic = hof[0]
    self.func_heuristic = self.toolbox.compile(expr=self.best_heuristic)
    self.policy = GPHHPolicy(self.domain, self.domain_model, self.func_heuristic, features=self.list_feature, params_gphh=self.params_gphh, recompute_cpm=True)


@spec("hub/solver/gphh/gphh.py", "GPHH._get_next_action")
def _(self, observation):
    action = self.policy.sample_action(observation)
    return action


@spec("hub/solver/gphh/gphh.py", "GPHH._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/gphh/gphh.py", "GPHH.init_primitives")
def _(self, pset):
    for i in range(len(self.list_feature)):
        pset.renameArguments(**{'ARG' + str(i): self.list_feature[i].value})
    return pset


@spec("hub/solver/gphh/gphh.py", "GPHH.evaluate_heuristic")
def _(self, individual, domains):
    vals = []
    func_heuristic = self.toolbox.compile(expr=individual)
    for domain in domains:
        initial_state = domain.get_initial_state()
        do_model = build_do_domain(domain)
        modes = [initial_state.tasks_mode.get(j, 1) for j in sorted(domain.get_tasks_ids())]
        modes = modes[1:-1]
        cpm = self.cpm_data[domain]['cpm']
        cpm_esd = self.cpm_data[domain]['cpm_esd']
        raw_values = []
        for task_id in domain.get_available_tasks(initial_state):
            input_features = [feature_function_map[lf](domain=domain, cpm=cpm, cpm_esd=cpm_esd, task_id=task_id, state=initial_state) for lf in self.list_feature]
            output_value = func_heuristic(*input_features)
            raw_values.append(output_value)
        normalized_values = [x + 1 for x in sorted(range(len(raw_values)), key=lambda k: raw_values[k], reverse=False)]
        normalized_values_for_do = [normalized_values[i] - 2 for i in range(len(normalized_values)) if normalized_values[i] not in {1, len(normalized_values)}]
        solution = RCPSPSolution(problem=do_model, rcpsp_permutation=normalized_values_for_do, rcpsp_modes=modes)
        last_activity = max(list(solution.rcpsp_schedule.keys()))
        do_makespan = solution.rcpsp_schedule[last_activity]['end_time']
        vals.append(do_makespan)
    fitness = [np.mean(vals)]
    return fitness


@spec("hub/solver/gphh/gphh.py", "GPHH.initialize_cpm_data_for_training")
def _(self):
    self.cpm_data = {}
    for domain in self.training_domains:
        do_model = build_do_domain(domain)
        cpm, cpm_esd = compute_cpm(do_model)
        self.cpm_data[domain] = {'cpm': cpm, 'cpm_esd': cpm_esd}


@spec("hub/solver/gphh/gphh.py", "GPHH.evaluate_heuristic_permutation")
def _(self, individual, domains):
    vals = []
    func_heuristic = self.toolbox.compile(expr=individual)
    for domain in domains:
        raw_values = []
        initial_state = domain.get_initial_state()
        regenerate_cpm = False
        if regenerate_cpm:
            do_model = build_do_domain(domain)
            cpm, cpm_esd = compute_cpm(do_model)
        else:
            cpm = self.cpm_data[domain]['cpm']
            cpm_esd = self.cpm_data[domain]['cpm_esd']
        for task_id in domain.get_available_tasks(state=initial_state):
            input_features = [feature_function_map[lf](domain=domain, cpm=cpm, cpm_esd=cpm_esd, task_id=task_id, state=initial_state) for lf in self.list_feature]
            output_value = func_heuristic(*input_features)
            raw_values.append(output_value)
        most_common_raw_val = max(raw_values, key=raw_values.count)
        most_common_count = raw_values.count(most_common_raw_val)
        heuristic_permutation = [x + 1 for x in sorted(range(len(raw_values)), key=lambda k: raw_values[k], reverse=False)]
        if self.permutation_distance == PermutationDistance.KTD:
            dist, p_value = stats.kendalltau(heuristic_permutation, self.reference_permutations[domain])
            dist = -dist
        if self.permutation_distance == PermutationDistance.HAMMING:
            dist = distance.hamming(heuristic_permutation, self.reference_permutations[domain])
        if self.permutation_distance == PermutationDistance.KTD_HAMMING:
            ktd, _ = stats.kendalltau(heuristic_permutation, self.reference_permutations[domain])
            dist = -ktd + distance.hamming(heuristic_permutation, self.reference_permutations[domain])
        penalty = most_common_count / len(raw_values)
        penalized_distance = dist + penalty
        vals.append(penalized_distance)
    fitness = [np.mean(vals)]
    return fitness


@spec("hub/solver/gphh/gphh.py", "GPHH.test_features")
def _(self, domain, task_id, observation):
    cpm, cpm_esd = compute_cpm(build_do_domain(domain))
    for f in FeatureEnum:
        calculated_feature = feature_function_map[f](domain=domain, cpm=cpm, cpm_esd=cpm_esd, task_id=task_id, state=observation)


@spec("hub/solver/gphh/gphh.py", "GPHH.set_domain")
def _(self, domain):
    self.domain = domain
    if self.policy is not None:
        self.policy.domain = domain


@spec("hub/solver/gphh/gphh.py", "GPHHPolicy.__init__")
def _(self, domain, domain_model, func_heuristic, features=None, params_gphh=None, recompute_cpm=True, cpm_data=None):
    self.domain = domain
    self.domain_model = domain_model
    self.func_heuristic = func_heuristic
    self.list_feature = features
    self.params_gphh = params_gphh
    self.recompute_cpm = recompute_cpm
    self.cpm_data = cpm_data


@spec("hub/solver/gphh/gphh.py", "GPHHPolicy._get_next_action")
def _(self, observation):
    run_sgs = True
    cheat_mode = False
    do_model = build_do_domain(self.domain_model)
    modes = [observation.tasks_mode.get(j, 1) for j in sorted(self.domain.get_tasks_ids())]
    modes = modes[1:-1]
    if run_sgs:
        scheduled_tasks_start_times = {}
        for j in observation.tasks_details.keys():
            if observation.tasks_details[j].start is not None:
                scheduled_tasks_start_times[j] = observation.tasks_details[j].start
                do_model.mode_details[j][1]['duration'] = observation.tasks_details[j].sampled_duration
    if self.recompute_cpm:
        cpm, cpm_esd = compute_cpm(do_model)
    else:
        cpm = self.cpm_data[self.domain]['cpm']
        cpm_esd = self.cpm_data[self.domain]['cpm_esd']
    t = observation.t
    raw_values = []
    for task_id in self.domain.get_available_tasks(observation):
        input_features = [feature_function_map[lf](domain=self.domain, cpm=cpm, cpm_esd=cpm_esd, task_id=task_id, state=observation) for lf in self.list_feature]
        output_value = self.func_heuristic(*input_features)
        raw_values.append(output_value)
    normalized_values = [x + 1 for x in sorted(range(len(raw_values)), key=lambda k: raw_values[k], reverse=False)]
    normalized_values_for_do = [normalized_values[i] - 2 for i in range(len(normalized_values)) if normalized_values[i] not in {1, len(normalized_values)}]
    modes_dictionnary = {}
    for i in range(len(normalized_values)):
        modes_dictionnary[i + 1] = 1
    if run_sgs:
        solution = RCPSPSolution(problem=do_model, rcpsp_permutation=normalized_values_for_do, rcpsp_modes=modes)
        solution.generate_schedule_from_permutation_serial_sgs_2(current_t=t, completed_tasks={j: observation.tasks_details[j] for j in observation.tasks_complete}, scheduled_tasks_start_times=scheduled_tasks_start_times)
        schedule = solution.rcpsp_schedule
    else:
        schedule = None
    sgs_policy = PolicyRCPSP(domain=self.domain, schedule=schedule, policy_method_params=PolicyMethodParams(base_policy_method=self.params_gphh.base_policy_method, delta_index_freedom=self.params_gphh.delta_index_freedom, delta_time_freedom=self.params_gphh.delta_time_freedom), permutation_task=normalized_values, modes_dictionnary=modes_dictionnary)
    action = sgs_policy.sample_action(observation)
    return action


@spec("hub/solver/gphh/gphh.py", "GPHHPolicy._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/gphh/gphh.py", "PooledGPHHPolicy.__init__")
def _(self, domain, domain_model, func_heuristics, pool_aggregation_method=PoolAggregationMethod.MEAN, remove_extremes_values=0, features=None, params_gphh=None):
    self.domain = domain
    self.domain_model = domain_model
    self.func_heuristics = func_heuristics
    self.list_feature = features
    self.params_gphh = params_gphh
    self.pool_aggregation_method = pool_aggregation_method
    self.remove_extremes_values = remove_extremes_values


@spec("hub/solver/gphh/gphh.py", "PooledGPHHPolicy._get_next_action")
def _(self, observation):
    run_sgs = True
    cheat_mode = False
    regenerate_cpm = True
    do_model = build_do_domain(self.domain_model)
    modes = [observation.tasks_mode.get(j, 1) for j in sorted(self.domain.get_tasks_ids())]
    modes = modes[1:-1]
    if run_sgs:
        scheduled_tasks_start_times = {}
        for j in observation.tasks_details.keys():
            if observation.tasks_details[j].start is not None:
                scheduled_tasks_start_times[j] = observation.tasks_details[j].start
                do_model.mode_details[j][1]['duration'] = observation.tasks_details[j].sampled_duration
    if regenerate_cpm:
        cpm, cpm_esd = compute_cpm(do_model)
    t = observation.t
    raw_values = []
    for task_id in self.domain.get_available_tasks(observation):
        input_features = [feature_function_map[lf](domain=self.domain, cpm=cpm, cpm_esd=cpm_esd, task_id=task_id, state=observation) for lf in self.list_feature]
        output_values = []
        for f in self.func_heuristics:
            output_value = f(*input_features)
            output_values.append(output_value)
        if self.remove_extremes_values > 0:
            the_median = float(np.median(output_values))
            tmp = {}
            for i in range(len(output_values)):
                tmp[i] = abs(output_values[i] - the_median)
            tmp = sorted(tmp.items(), key=lambda x: x[1], reverse=True)
            to_remove = [tmp[i][0] for i in range(self.remove_extremes_values)]
            output_values = list(np.delete(output_values, to_remove))
        if self.pool_aggregation_method == PoolAggregationMethod.MEAN:
            agg_value = np.mean(output_values)
        elif self.pool_aggregation_method == PoolAggregationMethod.MEDIAN:
            agg_value = np.median(output_values)
        elif self.pool_aggregation_method == PoolAggregationMethod.RANDOM:
            index = random.randrange(len(output_values))
            agg_value = output_values[index]
        raw_values.append(agg_value)
    normalized_values = [x + 1 for x in sorted(range(len(raw_values)), key=lambda k: raw_values[k], reverse=False)]
    normalized_values_for_do = [normalized_values[i] - 2 for i in range(len(normalized_values)) if normalized_values[i] not in {1, len(normalized_values)}]
    modes_dictionnary = {}
    for i in range(len(normalized_values)):
        modes_dictionnary[i + 1] = 1
    if run_sgs:
        solution = RCPSPSolution(problem=do_model, rcpsp_permutation=normalized_values_for_do, rcpsp_modes=modes)
        solution.generate_schedule_from_permutation_serial_sgs_2(current_t=t, completed_tasks={j: observation.tasks_details[j] for j in observation.tasks_complete}, scheduled_tasks_start_times=scheduled_tasks_start_times)
        schedule = solution.rcpsp_schedule
    else:
        schedule = None
    sgs_policy = PolicyRCPSP(domain=self.domain, schedule=schedule, policy_method_params=PolicyMethodParams(base_policy_method=self.params_gphh.base_policy_method, delta_index_freedom=self.params_gphh.delta_index_freedom, delta_time_freedom=self.params_gphh.delta_time_freedom), permutation_task=normalized_values, modes_dictionnary=modes_dictionnary)
    action = sgs_policy.sample_action(observation)
    return action


@spec("hub/solver/gphh/gphh.py", "PooledGPHHPolicy._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/gphh/gphh.py", "FixedPermutationPolicy.__init__")
def _(self, domain, domain_model, fixed_perm):
    self.domain = domain
    self.domain_model = domain_model
    self.fixed_perm = fixed_perm


@spec("hub/solver/gphh/gphh.py", "FixedPermutationPolicy._get_next_action")
def _(self, observation):
    run_sgs = True
    cheat_mode = False
    do_model = build_do_domain(self.domain_model)
    modes = [observation.tasks_mode.get(j, 1) for j in sorted(self.domain.get_tasks_ids())]
    modes = modes[1:-1]
    if run_sgs:
        scheduled_tasks_start_times = {}
        for j in observation.tasks_details.keys():
            if observation.tasks_details[j].start is not None:
                scheduled_tasks_start_times[j] = observation.tasks_details[j].start
                do_model.mode_details[j][1]['duration'] = observation.tasks_details[j].sampled_duration
    normalized_values = self.fixed_perm
    normalized_values_for_do = [normalized_values[i] - 2 for i in range(len(normalized_values)) if normalized_values[i] not in {1, len(normalized_values)}]
    t = observation.t
    modes_dictionnary = {}
    for i in range(len(normalized_values)):
        modes_dictionnary[i + 1] = 1
    if run_sgs:
        solution = RCPSPSolution(problem=do_model, rcpsp_permutation=normalized_values_for_do, rcpsp_modes=modes)
        solution.generate_schedule_from_permutation_serial_sgs_2(current_t=t, completed_tasks={j: observation.tasks_details[j] for j in observation.tasks_complete}, scheduled_tasks_start_times=scheduled_tasks_start_times)
        schedule = solution.rcpsp_schedule
    else:
        schedule = None
    sgs_policy = PolicyRCPSP(domain=self.domain, schedule=schedule, policy_method_params=PolicyMethodParams(base_policy_method=BasePolicyMethod.FOLLOW_GANTT), permutation_task=normalized_values, modes_dictionnary=modes_dictionnary)
    action = sgs_policy.sample_action(observation)
    return action


@spec("hub/solver/gphh/gphh.py", "FixedPermutationPolicy._is_policy_defined_for")
def _(self, observation):
    return True
