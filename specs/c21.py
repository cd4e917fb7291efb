# C21: scheduling transitions


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._state_sample")
def _(self, memory, action):
    current_state = memory
    next_state = current_state if self.inplace_environment else current_state.copy()
    next_state = self.update_pause_tasks_simulation(next_state, action)
    next_state = self.update_resume_tasks_simulation(next_state, action)
    next_state = self.update_start_tasks_simulation(next_state, action)
    next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
    next_state = self.update_conditional_tasks_simulation(next_state, action)
    next_state = self.update_time_simulation(next_state, action)
    next_state = self.update_resource_availability_simulation(next_state, action)
    is_terminal = self._is_terminal(next_state)
    is_goal = self._is_goal(next_state)
    return TransitionOutcome(state=next_state, value=self._get_transition_value(memory, action, next_state), termination=is_goal or is_terminal, info=None)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_next_state_distribution")
def _(self, memory, action):
    current_state = memory
    next_state = current_state if self.inplace_environment else current_state.copy()
    next_state = self.update_pause_tasks_uncertain(next_state, action)
    next_state = self.update_resume_tasks_uncertain(next_state, action)
    next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
    next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
    next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
    next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
    next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib, action)
    return next_state_distrib


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_next_state")
def _(self, memory, action):
    current_state = memory
    next_state = current_state if self.inplace_environment else current_state.copy()
    next_state = self.update_pause_tasks(next_state, action)
    next_state = self.update_resume_tasks(next_state, action)
    next_state = self.update_start_tasks(next_state, action)
    next_state = self.update_complete_dummy_tasks(next_state, action)
    next_state = self.update_conditional_tasks(next_state, action)
    next_state = self.update_time(next_state, action)
    next_state = self.update_resource_availability(next_state, action)
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_initial_state_")
def _(self):
    s = State(task_ids=self.get_tasks_ids(), tasks_available=self.get_all_unconditional_tasks())
    s.t = 0
    resource_availability = {r: self.sample_quantity_resource(resource=r, time=s.t) for r in self.get_resource_types_names()}
    resource_availability.update({runit: self.sample_quantity_resource(resource=runit, time=s.t) for runit in self.get_resource_units_names()})
    s.resource_availability = resource_availability
    s.resource_used = {r: 0 for r in s.resource_availability}
    return s


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_goals_")
def _(self):
    return ImplicitSpace(lambda state: len(state.tasks_remaining) == 0 and len(state.tasks_ongoing) == 0 and (len(state.tasks_paused) == 0))


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.get_max_horizon")
def _(self):
    return self._get_max_horizon()


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.initialize_domain")
def _(self):
    self.sampled_durations = {}
    self.graph = self.compute_graph()
    self.ancestors = self.graph.predecessors_map()
    self.successors = self.graph.successors_map()
    self.full_predecessors = self.graph.ancestors_map()
    self.full_successors = self.graph.descendants_map()
    self.inplace_environment = False


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.set_inplace_environment")
def _(self, inplace_environment):
    self.inplace_environment = inplace_environment


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.compute_graph")
def _(self):
    task_ids = self.get_tasks_ids()
    successors = self.get_successors()
    mode_details = self.get_tasks_modes()
    nodes = [(n, {mode: self.sample_task_duration(task=n, mode=mode) for mode in mode_details[n]}) for n in task_ids]
    edges = []
    for n in successors:
        for succ in successors[n]:
            edges += [(n, succ, {})]
    return Graph(nodes, edges, False)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_time")
def _(self, state, action):
    next_state = state
    if action.time_progress:
        next_state = self.update_progress(next_state)
        next_state = self.update_complete_tasks(next_state)
        next_state = self.update_res_consumption(next_state)
        next_state.t = state.t + 1
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_time_uncertain")
def _(self, states, action):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    if action.time_progress:
        next_states = self.update_progress_uncertain(next_states)
        next_states = self.update_complete_tasks_uncertain(next_states)
        next_states = self.update_res_consumption_uncertain(next_states)
        for next_state, _ in next_states.get_values():
            next_state.t = next_state.t + 1
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_time_simulation")
def _(self, state, action):
    next_state = state
    if action.time_progress:
        next_state = self.update_progress_simulation(next_state)
        next_state = self.update_complete_tasks_simulation(next_state)
        next_state = self.update_res_consumption_simulation(next_state)
        next_state.t = state.t + 1
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_res_consumption")
def _(self, state):
    next_state = state
    for task_id in state.tasks_ongoing:
        resource_to_use = self.get_resource_used(task=task_id, mode=state.tasks_mode[task_id], resource_unit_names=set(), time_since_start=state.tasks_details[task_id].get_task_active_time(state.t + 1))
        for r in resource_to_use:
            prev = next_state.resource_used_for_task[task_id][r]
            new = resource_to_use[r]
            next_state.resource_used_for_task[task_id][r] = resource_to_use[r]
            next_state.resource_used[r] += new - prev
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_res_consumption_uncertain")
def _(self, states):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    for next_state, _ in next_states.get_values():
        for task_id in next_state.tasks_ongoing:
            resource_to_use = self.get_resource_used(task=task_id, mode=next_state.tasks_mode[task_id], resource_unit_names=set(), time_since_start=next_state.tasks_details[task_id].get_task_active_time(next_state.t + 1))
            for r in resource_to_use:
                prev = next_state.resource_used_for_task[task_id][r]
                new = resource_to_use[r]
                next_state.resource_used_for_task[task_id][r] = resource_to_use[r]
                next_state.resource_used[r] += new - prev
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_res_consumption_simulation")
def _(self, state):
    return self.update_res_consumption(state)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_progress")
def _(self, state):
    next_state = state
    for task_id in next_state.tasks_ongoing:
        next_state.tasks_progress[task_id] += self.get_task_progress(task_id, t_from=next_state.t, t_to=next_state.t + 1, mode=next_state.tasks_mode[task_id], sampled_duration=next_state.tasks_details[task_id].sampled_duration)
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_progress_uncertain")
def _(self, states):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    for next_state, _ in next_states.get_values():
        for task_id in next_state.tasks_ongoing:
            next_state.tasks_progress[task_id] += self.get_task_progress(task_id, t_from=next_state.t, t_to=next_state.t + 1, mode=next_state.tasks_mode[task_id], sampled_duration=next_state.tasks_details[task_id].sampled_duration)
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_progress_simulation")
def _(self, state):
    return self.update_progress(state)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_tasks")
def _(self, state):
    next_state = state
    completed_tmp = []
    for task_id in next_state.tasks_ongoing:
        if next_state.tasks_progress[task_id] >= 0.9999:
            next_state.tasks_progress[task_id] = 1
            completed_tmp.append(task_id)
    for completed_task in completed_tmp:
        next_state.tasks_complete.add(completed_task)
        next_state.tasks_ongoing.remove(completed_task)
        for res in next_state.resource_used_for_task[completed_task]:
            res_consumption = next_state.resource_used_for_task[completed_task][res]
            if self.is_renewable(res):
                next_state.resource_used[res] -= res_consumption
        next_state.resource_used_for_task.pop(completed_task)
        next_state.tasks_details[completed_task].end = next_state.t + 1
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_tasks_uncertain")
def _(self, states):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    states_and_proba = []
    for next_state, state_proba in next_states.get_values():
        completed_tmp = []
        for task_id in next_state.tasks_ongoing:
            if next_state.tasks_progress[task_id] >= 0.9999:
                next_state.tasks_progress[task_id] = 1
                completed_tmp.append(task_id)
        all_values = []
        all_models = {}
        for completed_task in completed_tmp:
            next_state.tasks_complete.add(completed_task)
            next_state.tasks_ongoing.remove(completed_task)
            for res in next_state.resource_used_for_task[completed_task]:
                res_consumption = next_state.resource_used_for_task[completed_task][res]
                if self.is_renewable(res):
                    next_state.resource_used[res] -= res_consumption
            next_state.resource_used_for_task.pop(completed_task)
            next_state.tasks_details[completed_task].end = next_state.t + 1
            if completed_task in self.get_task_on_completion_added_conditions():
                for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
                    all_models[completed_task, i] = []
                    for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                        all_values.append({'task': completed_task, 'cond': self.get_task_on_completion_added_conditions()[completed_task][i].get_values()[j][0], 'prob': self.get_task_on_completion_added_conditions()[completed_task][i].get_values()[j][1]})
                        all_models[completed_task, i].append(len(all_values) - 1)
        combinations = list(product(*all_models.values()))
        for comb in combinations:
            do_copy = len(comb) > 0
            next_state_2 = next_state.copy() if do_copy else next_state
            proba = state_proba
            for i in comb:
                next_state_2._current_conditions.add(all_values[i]['cond'])
                proba *= all_values[i]['prob']
            states_and_proba += [(next_state_2, proba)]
    return DiscreteDistribution(states_and_proba)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_tasks_simulation")
def _(self, state):
    next_state = state
    next_state = self.update_complete_tasks_uncertain(states=DiscreteDistribution([(next_state, 1.0)])).sample()
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_dummy_tasks")
def _(self, state, action):
    next_state = state
    if action.action == SchedulingActionEnum.START:
        task = action.task
        if next_state.tasks_details[task].sampled_duration == 0:
            next_state.tasks_complete.add(task)
            next_state.tasks_progress[task] = 1
            next_state.tasks_ongoing.remove(task)
            next_state.tasks_details[task].end = next_state.t
            for res, res_consumption in next_state.resource_used_for_task[task].items():
                if self.is_renewable(res):
                    next_state.resource_used[res] -= res_consumption
            next_state.resource_used_for_task.pop(task)
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_dummy_tasks_uncertain")
def _(self, states, action):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    if action.action == SchedulingActionEnum.START:
        task = action.task
        for next_state, _ in next_states.get_values():
            if next_state.tasks_details[task].sampled_duration == 0:
                next_state.tasks_complete.add(task)
                next_state.tasks_progress[task] = 1
                next_state.tasks_ongoing.remove(task)
                next_state.tasks_details[task].end = next_state.t
                for res, res_consumption in next_state.resource_used_for_task[task].items():
                    if self.is_renewable(res):
                        next_state.resource_used[res] -= res_consumption
                next_state.resource_used_for_task.pop(task)
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_complete_dummy_tasks_simulation")
def _(self, state, action):
    return self.update_complete_dummy_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_pause_tasks")
def _(self, state, action):
    next_state = state
    if action.action == SchedulingActionEnum.PAUSE:
        paused_task = action.task
        next_state.tasks_paused.add(paused_task)
        next_state.tasks_ongoing.remove(paused_task)
        for res in next_state.resource_used_for_task[paused_task]:
            res_consumption = next_state.resource_used_for_task[paused_task][res]
            if self.is_renewable(res) or (not self.is_renewable(res) and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                next_state.resource_used[res] -= res_consumption
        next_state.resource_used_for_task.pop(paused_task)
        next_state.tasks_details[paused_task].paused.append(next_state.t)
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_pause_tasks_uncertain")
def _(self, state, action):
    return self.update_pause_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_pause_tasks_simulation")
def _(self, state, action):
    return self.update_pause_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resume_tasks")
def _(self, state, action):
    next_state = state
    if action.action == SchedulingActionEnum.RESUME:
        resumed_task = action.task
        mode = action.mode
        if mode is None:
            mode = state.tasks_mode[resumed_task]
        time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
        b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
        if not b:
            return next_state
        next_state.tasks_ongoing.add(resumed_task)
        next_state.tasks_paused.remove(resumed_task)
        next_state.tasks_details[resumed_task].resumed.append(next_state.t)
        for res in resource_to_use:
            next_state.resource_used[res] += resource_to_use[res]
        next_state.resource_used_for_task[resumed_task] = resource_to_use
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resume_tasks_uncertain")
def _(self, state, action):
    return self.update_resume_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resume_tasks_simulation")
def _(self, state, action):
    return self.update_resume_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_start_tasks")
def _(self, state, action):
    if action.action == SchedulingActionEnum.START:
        can_be_started, resource_to_use = self.check_if_action_can_be_started(state, action)
        if not can_be_started:
            return state
        next_state = state
        started_task = action.task
        mode = action.mode
        next_state.tasks_mode[started_task] = mode
        next_state.tasks_ongoing.add(started_task)
        next_state.tasks_remaining.remove(started_task)
        next_state.tasks_details[started_task].start = next_state.t
        next_state.tasks_details[started_task].resources = dict(resource_to_use)
        next_state.tasks_details[started_task].sampled_duration = self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.0)
        for res in resource_to_use:
            next_state.resource_used[res] += resource_to_use[res]
        next_state.resource_used_for_task[started_task] = resource_to_use
        next_state.tasks_progress[started_task] = 0.0
        return next_state
    return state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_start_tasks_uncertain")
def _(self, state, action):
    if action.action == SchedulingActionEnum.START:
        can_be_started, resource_to_use = self.check_if_action_can_be_started(state, action)
        if not can_be_started:
            return DiscreteDistribution([(state, 1)])
        started_task = action.task
        mode = action.mode
        duration_distrib = self.get_task_duration_distribution(started_task, mode, multivariate_settings={'t': state.t})
        states_and_proba = []
        for value_duration in duration_distrib.get_values():
            next_state = state.copy()
            next_state.tasks_mode[started_task] = mode
            next_state.tasks_ongoing.add(started_task)
            next_state.tasks_remaining.remove(started_task)
            next_state.tasks_details[started_task].start = next_state.t
            next_state.tasks_details[started_task].resources = dict(resource_to_use)
            next_state.tasks_details[started_task].sampled_duration = value_duration[0]
            for res in resource_to_use:
                next_state.resource_used[res] += resource_to_use[res]
            next_state.resource_used_for_task[started_task] = dict(resource_to_use)
            next_state.tasks_progress[started_task] = 0.0
            states_and_proba += [(next_state, value_duration[1])]
        return DiscreteDistribution(states_and_proba)
    return DiscreteDistribution([(state, 1)])


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_start_tasks_simulation")
def _(self, state, action):
    return self.update_start_tasks(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resource_availability")
def _(self, state, action):
    if action.time_progress:
        next_state = state
        for res in self.get_resource_units_names():
            next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
        for res in self.get_resource_types_names():
            next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
        return next_state
    return state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resource_availability_uncertain")
def _(self, states, action):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    if action.time_progress:
        for next_state, _ in next_states.get_values():
            for res in self.get_resource_units_names():
                next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
            for res in self.get_resource_types_names():
                next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_resource_availability_simulation")
def _(self, state, action):
    return self.update_resource_availability(state, action)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_conditional_tasks")
def _(self, state, action):
    return state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_conditional_tasks_uncertain")
def _(self, states, action):
    next_states = DiscreteDistribution([(state, prob) for state, prob in states.get_values()])
    if action.time_progress:
        for next_state, _ in next_states.get_values():
            all_available_tasks = self.get_available_tasks(next_state)
            all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(next_state.tasks_progress).union(next_state.tasks_complete)
            new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
            for task in new_tasks:
                next_state.tasks_remaining.add(task)
        return next_states
    return next_states


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.update_conditional_tasks_simulation")
def _(self, state, action):
    next_state = state
    next_state = self.update_conditional_tasks_uncertain(states=DiscreteDistribution([(next_state, 1.0)]), action=action).sample()
    return next_state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_transition_value")
def _(self, memory, action, next_state=None):
    transition_makespan = 0.0
    transition_cost = 0.0
    if SchedulingObjectiveEnum.MAKESPAN in self.get_objectives():
        transition_makespan = next_state.t - memory.t
    if SchedulingObjectiveEnum.COST in self.get_objectives():
        mode_cost_val = 0.0
        if action.action == SchedulingActionEnum.START:
            mode_cost_val += self.get_mode_costs()[action.task][action.mode]
        renewable_type_cost_val = 0.0
        nonrenewable_type_cost_val = 0.0
        for res in self.get_resource_types_names():
            if self.is_renewable(res):
                renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
            else:
                nonrenewable_type_cost_val += next_state.resource_used[res] - memory.resource_used[res]
        renewable_unit_cost_val = 0.0
        nonrenewable_unit_cost_val = 0.0
        for res in self.get_resource_units_names():
            if self.is_renewable(res):
                renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
            else:
                nonrenewable_unit_cost_val += next_state.resource_used[res] - memory.resource_used[res]
        transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
    weighed_transition_cost = 1.0 * transition_makespan + 1.0 * transition_cost
    return TransitionValue(cost=weighed_transition_cost)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._is_terminal")
def _(self, state):
    all_task_possible = self.all_tasks_possible(state)
    return state.t > self.get_max_horizon() or not all_task_possible or (len(state.tasks_remaining) == 0 and len(state.tasks_ongoing) == 0 and (len(state.tasks_paused) == 0))


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.get_objectives")
def _(self):
    return self._get_objectives()


@spec("builders/scheduling/scheduling_domains.py", "UncertainSchedulingDomain._state_sample")
def _(self, memory, action):
    return UncertainTransitions._state_sample(self, memory, action)


@spec("builders/scheduling/scheduling_domains.py", "DeterministicSchedulingDomain._state_sample")
def _(self, memory, action):
    return DeterministicTransitions._state_sample(self, memory, action)


@spec("builders/scheduling/scheduling_domains.py", "DeterministicSchedulingDomain._get_next_state_distribution")
def _(self, memory, action):
    return DeterministicTransitions._get_next_state_distribution(self, memory, action)


@spec("builders/scheduling/task.py", "Task.__init__")
def _(self, id):
    self.id = id
    self.start = None
    self.end = None
    self.sampled_duration = None
    self.mode = None
    self.paused = []
    self.resumed = []
    self.resources = {}


@spec("builders/scheduling/task.py", "Task.get_task_active_time")
def _(self, t=None):
    tt = t
    if self.end is not None:
        tt = min(t, self.end)
    if self.start is None:
        return 0
    time_since_start = tt - self.start
    time_paused = 0
    for i in range(len(self.paused)):
        time_paused += (self.resumed[i] if i < len(self.resumed) else tt) - self.paused[i]
    total_active_time = time_since_start - time_paused
    return total_active_time


@spec("builders/scheduling/task.py", "Task.__str__")
def _(self):
    out = ''
    for key in sorted(self.__dict__.keys()):
        out += str(key) + ':' + str(getattr(self, key)) + ','
    return out


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.__init__")
def _(self, task_ids, tasks_available=None):
    self.t = 0
    self.task_ids = task_ids
    self.tasks_remaining = tasks_available
    self.tasks_ongoing = set()
    self.tasks_complete = set()
    self.tasks_paused = set()
    self.tasks_progress = {}
    self.tasks_mode = {}
    self.resource_to_task = {}
    self.resource_availability = {}
    self.resource_used = {}
    self.resource_used_for_task = {}
    self.tasks_details = {}
    for task_id in task_ids:
        self.tasks_details[task_id] = Task(task_id)
    self._current_conditions = set()


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.copy")
def _(self):
    s = State(task_ids=self.task_ids)
    s.t = self.t
    s.tasks_remaining = deepcopy(self.tasks_remaining)
    s.tasks_ongoing = deepcopy(self.tasks_ongoing)
    s.tasks_complete = deepcopy(self.tasks_complete)
    s.tasks_paused = deepcopy(self.tasks_paused)
    s.tasks_progress = deepcopy(self.tasks_progress)
    s.tasks_mode = deepcopy(self.tasks_mode)
    s.resource_to_task = deepcopy(self.resource_to_task)
    s.resource_availability = deepcopy(self.resource_availability)
    s.resource_used = deepcopy(self.resource_used)
    s.resource_used_for_task = deepcopy(self.resource_used_for_task)
    s.tasks_details = deepcopy(self.tasks_details)
    s._current_conditions = deepcopy(self._current_conditions)
    return s


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.__str__")
def _(self):
    s = 'State : ' + '\n'
    for key in sorted(self.__dict__.keys()):
        if key == 'tasks_details':
            for key2 in sorted(self.tasks_details.keys()):
                s += str(self.tasks_details[key2]) + '\t'
        else:
            s += str(key) + ':' + str(getattr(self, key)) + '\n'
    return s


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.__repr__")
def _(self):
    return str(self)


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.__hash__")
def _(self):
    return hash(str(self))


@spec("builders/scheduling/scheduling_domains_modelling.py", "State.__eq__")
def _(self, other):
    return self.__hash__() == other.__hash__()


@spec("builders/scheduling/scheduling_domains_modelling.py", "SchedulingAction.__init__")
def _(self, task, action, mode, time_progress, resource_unit_names=None):
    self.task = task
    self.action = action
    self.mode = mode
    self.time_progress = time_progress
    self.resource_unit_names = resource_unit_names


@spec("builders/scheduling/scheduling_domains_modelling.py", "SchedulingAction.__str__")
def _(self):
    s = 'Action \n'
    s += 'Task : ' + str(self.task) + '\n'
    s += 'Mode : ' + str(self.mode) + '\n'
    s += 'Action type ' + str(self.action.name) + '\n'
    s += 'Time progress ' + str(self.time_progress) + '\n'
    s += 'Resource : ' + str(self.resource_unit_names)
    return s


@spec("builders/scheduling/scheduling_domains_modelling.py", "SchedulingAction.__repr__")
def _(self):
    return str(self)


@spec("builders/scheduling/task_progress.py", "CustomTaskProgress.get_task_progress")
def _(self, task, t_from, t_to, mode, sampled_duration=None):
    return self._get_task_progress(task, t_from, t_to, mode, sampled_duration)


@spec("builders/scheduling/task_progress.py", "DeterministicTaskProgress._get_task_progress")
def _(self, task, t_from, t_to, mode, sampled_duration=None):
    duration = self.get_latest_sampled_duration(task, mode) if sampled_duration is None else sampled_duration
    if duration == 0.0:
        progress = 1
    else:
        progress = float(t_to - t_from) / float(duration)
    return progress

