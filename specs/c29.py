# C29: scheduling problems and their solvers


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "tree")
def _():
    return defaultdict(tree)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.__init__")
def _(self, problem, rcpsp_permutation=None, rcpsp_schedule=None, rcpsp_modes=None, rcpsp_schedule_feasible=None, standardised_permutation=None):
    self.problem = problem
    self.rcpsp_permutation = rcpsp_permutation
    self.rcpsp_schedule = rcpsp_schedule
    self.rcpsp_modes = rcpsp_modes
    self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
    self.standardised_permutation = standardised_permutation
    if self.rcpsp_modes is None:
        if not self.problem.is_rcpsp_multimode():
            self.rcpsp_modes = [1 for i in range(self.problem.n_jobs)]
        else:
            self.rcpsp_modes = self.problem.fixed_modes
    self._schedule_to_recompute = rcpsp_schedule is None
    if self.rcpsp_permutation is None:
        if isinstance(self.problem, MultiModeRCPSPModel):
            self.rcpsp_permutation = self.problem.fixed_permutation
        if self.rcpsp_schedule is not None:
            self.standardised_permutation = self.generate_permutation_from_schedule()
            self.rcpsp_permutation = deepcopy(self.standardised_permutation)
            self._schedule_to_recompute = False
    if rcpsp_schedule is None:
        if not isinstance(problem, Aggreg_RCPSPModel):
            self.generate_schedule_from_permutation_serial_sgs()
        if isinstance(problem, RCPSP_H_Model):
            self.rcpsp_schedule = problem.rcpsp_pre_helper_correction(self)
    if self.standardised_permutation is None:
        if not isinstance(problem, Aggreg_RCPSPModel):
            self.standardised_permutation = self.generate_permutation_from_schedule()


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, rcpsp_permutation=self.rcpsp_permutation, rcpsp_modes=self.rcpsp_modes)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.__setattr__")
def _(self, key, value):
    super.__setattr__(self, key, value)
    if key in ('rcpsp_permutation', 'rcpsp_modes'):
        self._schedule_to_recompute = True


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.copy")
def _(self):
    sol = RCPSPSolution(problem=self.problem, rcpsp_permutation=deepcopy(self.rcpsp_permutation), rcpsp_modes=deepcopy(self.rcpsp_modes), rcpsp_schedule=self.rcpsp_schedule, rcpsp_schedule_feasible=self.rcpsp_schedule_feasible, standardised_permutation=self.standardised_permutation)
    sol._schedule_to_recompute = self._schedule_to_recompute
    return sol


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.lazy_copy")
def _(self):
    sol = RCPSPSolution(problem=self.problem, rcpsp_permutation=self.rcpsp_permutation, rcpsp_modes=self.rcpsp_modes, rcpsp_schedule=self.rcpsp_schedule, rcpsp_schedule_feasible=self.rcpsp_schedule_feasible, standardised_permutation=self.standardised_permutation)
    sol._schedule_to_recompute = self._schedule_to_recompute
    return sol


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.generate_permutation_from_schedule")
def _(self):
    sorted_task = [i - 2 for i in sorted(self.rcpsp_schedule, key=lambda x: self.rcpsp_schedule[x]['start_time'])]
    sorted_task.remove(-1)
    sorted_task.remove(max(sorted_task))
    return sorted_task


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.compute_mean_resource_reserve")
def _(self):
    if not self.rcpsp_schedule_feasible:
        return 0.0
    last_activity = max(list(self.rcpsp_schedule.keys()))
    makespan = self.rcpsp_schedule[last_activity]['end_time']
    resource_avail_in_time = {}
    for res in list(self.problem.resources.keys()):
        if isinstance(self.problem, RCPSPModelCalendar):
            resource_avail_in_time[res] = self.problem.resources[res][:makespan + 1]
        else:
            resource_avail_in_time[res] = np.full(makespan, self.problem.resources[res], dtype=int).tolist()
    for act_id in self.problem.mode_details.keys():
        if act_id != 1 and act_id != self.problem.n_jobs + 2:
            start_time = self.rcpsp_schedule[act_id]['start_time']
            end_time = self.rcpsp_schedule[act_id]['end_time']
            mode = self.rcpsp_modes[act_id - 2]
            for t in range(start_time, end_time):
                for res in resource_avail_in_time.keys():
                    resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][mode][res]
                    if res in self.problem.non_renewable_resources and t == end_time - 1:
                        for tt in range(end_time, makespan):
                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][mode][res]
    mean_avail = {}
    for res in list(self.problem.resources.keys()):
        mean_avail[res] = np.mean(resource_avail_in_time[res])
    mean_resource_reserve = np.mean([mean_avail[res] / self.problem.resources[res] for res in list(self.problem.resources.keys())])
    return mean_resource_reserve


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.generate_schedule_from_permutation_serial_sgs")
def _(self):
    perm = deepcopy(self.rcpsp_permutation)
    activity_end_times = {}
    unfeasible_non_renewable_resources = False
    new_horizon = self.problem.horizon * self.problem.horizon_multiplier
    resource_avail_in_time = {}
    for res in list(self.problem.resources.keys()):
        if isinstance(self.problem, RCPSPModelCalendar):
            resource_avail_in_time[res] = self.problem.resources[res][:new_horizon + 1]
        else:
            resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
    minimum_starting_time = {}
    for act in list(self.problem.successors.keys()):
        minimum_starting_time[act] = 0
    perm_extended = [x + 2 for x in perm]
    perm_extended.insert(0, 1)
    perm_extended.append(self.problem.n_jobs + 2)
    modes_extended = deepcopy(self.rcpsp_modes)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    for i in range(len(modes_extended)):
        if modes_extended[i] not in list(self.problem.mode_details[i + 1].keys()):
            modes_extended[i] = 1
            if i != 0 and i != len(modes_extended) - 1:
                self.rcpsp_modes[i - 1] = modes_extended[i]
    while len(perm_extended) > 0 and (not unfeasible_non_renewable_resources):
        for id in perm_extended:
            respected = True
            for pred in self.problem.successors.keys():
                if id in self.problem.successors[pred] and pred in perm_extended:
                    respected = False
                    break
            if respected:
                act_id = id
                break
        current_min_time = minimum_starting_time[act_id]
        valid = False
        while not valid:
            valid = True
            for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                for res in resource_avail_in_time.keys():
                    if t < new_horizon:
                        if resource_avail_in_time[res][t] < self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]:
                            valid = False
                    else:
                        unfeasible_non_renewable_resources = True
            if not valid:
                current_min_time += 1
        if not unfeasible_non_renewable_resources:
            end_t = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration'] - 1
            for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                for res in resource_avail_in_time.keys():
                    resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                    if res in self.problem.non_renewable_resources and t == end_t:
                        for tt in range(end_t + 1, new_horizon):
                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                            if resource_avail_in_time[res][tt] < 0:
                                unfeasible_non_renewable_resources = True
            activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
            perm_extended.remove(act_id)
            for s in self.problem.successors[act_id]:
                minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])
    self.rcpsp_schedule = {}
    for act_id in activity_end_times:
        self.rcpsp_schedule[act_id] = {}
        self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
        self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
    if unfeasible_non_renewable_resources:
        self.rcpsp_schedule_feasible = False
        last_act_id = list(self.problem.successors.keys())[-1]
        if last_act_id not in self.rcpsp_schedule.keys():
            self.rcpsp_schedule[last_act_id] = {}
            self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
            self.rcpsp_schedule[last_act_id]['end_time'] = 9999999
    else:
        self.rcpsp_schedule_feasible = True
    self._schedule_to_recompute = False


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.generate_schedule_from_permutation_serial_sgs_2")
def _(self, current_t, completed_tasks, scheduled_tasks_start_times):
    perm = deepcopy(self.rcpsp_permutation)
    activity_end_times = {}
    unfeasible_non_renewable_resources = False
    new_horizon = self.problem.horizon * self.problem.horizon_multiplier
    resource_avail_in_time = {}
    for res in list(self.problem.resources.keys()):
        if isinstance(self.problem, RCPSPModelCalendar):
            resource_avail_in_time[res] = self.problem.resources[res][:new_horizon + 1]
        else:
            resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
    minimum_starting_time = {}
    for act in list(self.problem.successors.keys()):
        if act in list(scheduled_tasks_start_times.keys()):
            minimum_starting_time[act] = scheduled_tasks_start_times[act]
        else:
            minimum_starting_time[act] = current_t
    perm_extended = [x + 2 for x in perm]
    perm_extended.insert(0, 1)
    perm_extended.append(self.problem.n_jobs + 2)
    modes_extended = deepcopy(self.rcpsp_modes)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    all_activities = [x for x in list(self.problem.resources.keys()) if x not in list(completed_tasks)]
    perm_extended = [x for x in perm_extended if x not in list(completed_tasks)]
    for i in range(len(modes_extended)):
        if modes_extended[i] not in list(self.problem.mode_details[i + 1].keys()):
            modes_extended[i] = 1
            if i != 0 and i != len(modes_extended) - 1:
                self.rcpsp_modes[i - 1] = modes_extended[i]
    while len(perm_extended) > 0 and (not unfeasible_non_renewable_resources):
        for id in perm_extended:
            respected = True
            for pred in self.problem.successors.keys():
                if id in self.problem.successors[pred] and pred in perm_extended:
                    respected = False
                    break
            if respected:
                act_id = id
                break
        current_min_time = minimum_starting_time[act_id]
        valid = False
        while not valid:
            valid = True
            for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                for res in resource_avail_in_time.keys():
                    if t < new_horizon:
                        if resource_avail_in_time[res][t] < self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]:
                            valid = False
                    else:
                        unfeasible_non_renewable_resources = True
            if not valid:
                current_min_time += 1
        if not unfeasible_non_renewable_resources:
            end_t = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration'] - 1
            for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                for res in resource_avail_in_time.keys():
                    resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                    if res in self.problem.non_renewable_resources and t == end_t:
                        for tt in range(end_t + 1, new_horizon):
                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                            if resource_avail_in_time[res][tt] < 0:
                                unfeasible_non_renewable_resources = True
            activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
            perm_extended.remove(act_id)
            for s in self.problem.successors[act_id]:
                minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])
    self.rcpsp_schedule = {}
    for act_id in activity_end_times:
        self.rcpsp_schedule[act_id] = {}
        self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
        self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
    for act_id in completed_tasks:
        self.rcpsp_schedule[act_id] = {}
        self.rcpsp_schedule[act_id]['start_time'] = completed_tasks[act_id].start
        self.rcpsp_schedule[act_id]['end_time'] = completed_tasks[act_id].end
    if unfeasible_non_renewable_resources:
        self.rcpsp_schedule_feasible = False
        last_act_id = list(self.problem.successors.keys())[-1]
        if last_act_id not in self.rcpsp_schedule.keys():
            self.rcpsp_schedule[last_act_id] = {}
            self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
            self.rcpsp_schedule[last_act_id]['end_time'] = 9999999
    else:
        self.rcpsp_schedule_feasible = True
    self._schedule_to_recompute = False


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.__hash__")
def _(self):
    return hash((tuple(self.rcpsp_permutation), tuple(self.rcpsp_modes)))


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPSolution.__eq__")
def _(self, other):
    return self.rcpsp_permutation == other.rcpsp_permutation and self.rcpsp_modes == other.rcpsp_modes


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "PartialSolution.__init__")
def _(self, task_mode=None, start_times=None, end_times=None, partial_permutation=None, list_partial_order=None, start_together=None, start_at_end=None, start_at_end_plus_offset=None, start_after_nunit=None):
    self.task_mode = task_mode
    self.start_times = start_times
    self.end_times = end_times
    self.partial_permutation = partial_permutation
    self.list_partial_order = list_partial_order
    self.start_together = start_together if start_together is not None else []
    self.start_at_end = start_at_end if start_at_end is not None else []
    self.start_at_end_plus_offset = start_at_end_plus_offset if start_at_end_plus_offset is not None else []
    self.start_after_nunit = start_after_nunit if start_after_nunit is not None else []


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.__init__")
def _(self, resources, non_renewable_resources, mode_details, successors, horizon, horizon_multiplier=1, name_task=None):
    self.resources = resources
    self.resources_list = list(self.resources.keys())
    self.non_renewable_resources = non_renewable_resources
    self.mode_details = mode_details
    self.successors = successors
    self.n_jobs = len(self.mode_details.keys()) - 2
    self.horizon = horizon
    self.horizon_multiplier = horizon_multiplier
    self.name_task = name_task
    if name_task is None:
        self.name_task = {x: str(x) for x in self.mode_details}


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.is_rcpsp_multimode")
def _(self):
    if max([len(self.mode_details[key1].keys()) for key1 in self.mode_details.keys()]) > 1:
        return True
    else:
        return False


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.compute_graph")
def _(self):
    nodes = [(n, {mode: self.mode_details[n][mode]['duration'] for mode in self.mode_details[n]}) for n in range(1, self.n_jobs + 3)]
    edges = []
    for n in self.successors:
        for succ in self.successors[n]:
            edges += [(n, succ, {})]
    return Graph(nodes, edges, False)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.evaluate_function")
def _(self, rcpsp_sol):
    if rcpsp_sol._schedule_to_recompute:
        rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
    last_activity = max(list(rcpsp_sol.rcpsp_schedule.keys()))
    makespan = rcpsp_sol.rcpsp_schedule[last_activity]['end_time']
    obj_mean_resource_reserve = rcpsp_sol.compute_mean_resource_reserve()
    return (makespan, obj_mean_resource_reserve)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.evaluate")
def _(self, rcpsp_sol):
    obj_makespan, obj_mean_resource_reserve = self.evaluate_function(rcpsp_sol)
    return {'makespan': obj_makespan, 'mean_resource_reserve': obj_mean_resource_reserve}


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.evaluate_mobj")
def _(self, rcpsp_sol):
    return self.evaluate_mobj_from_dict(self.evaluate(rcpsp_sol))


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.evaluate_mobj_from_dict")
def _(self, dict_values):
    return TupleFitness(np.array([-dict_values['makespan'], dict_values['mean_resource_reserve']]), 2)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.satisfy")
def _(self, rcpsp_sol):
    if rcpsp_sol.rcpsp_schedule_feasible is False:
        return False
    else:
        modes_extended = deepcopy(rcpsp_sol.rcpsp_modes)
        modes_extended.insert(0, 1)
        modes_extended.append(1)
        last_activity = max(list(rcpsp_sol.rcpsp_schedule.keys()))
        makespan = rcpsp_sol.rcpsp_schedule[last_activity]['end_time']
        for t in range(makespan):
            resource_usage = {}
            for res in self.resources.keys():
                resource_usage[res] = 0
            for act_id in list(self.successors.keys()):
                start = rcpsp_sol.rcpsp_schedule[act_id]['start_time']
                end = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                mode = modes_extended[act_id - 1]
                for res in self.resources.keys():
                    if start <= t and t < end:
                        resource_usage[res] += self.mode_details[act_id][mode][res]
            for res in self.resources.keys():
                if resource_usage[res] > self.resources[res]:
                    return False
        for res in self.non_renewable_resources:
            usage = 0
            for act_id in list(self.successors.keys()):
                mode = modes_extended[act_id - 1]
                usage += self.mode_details[act_id][mode][res]
            if usage > self.resources[res]:
                return False
        for act_id in list(self.successors.keys()):
            for succ_id in self.successors[act_id]:
                start_succ = rcpsp_sol.rcpsp_schedule[succ_id]['start_time']
                end_pred = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                if start_succ < end_pred:
                    return False
        return True


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.get_solution_type")
def _(self):
    return RCPSPSolution


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.get_attribute_register")
def _(self):
    dict_register = {}
    dict_register['rcpsp_permutation'] = {'name': 'rcpsp_permutation', 'type': [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_RCPSP], 'range': range(self.n_jobs), 'n': self.n_jobs}
    max_number_modes = max([len(list(self.mode_details[x].keys())) for x in self.mode_details.keys()])
    dict_register['rcpsp_modes'] = {'name': 'rcpsp_modes', 'type': [TypeAttribute.LIST_INTEGER], 'n': self.n_jobs, 'arrity': max_number_modes}
    mode_arrity = [len(list(self.mode_details[list(self.mode_details.keys())[i]].keys())) for i in range(1, len(self.mode_details.keys()) - 1)]
    dict_register['rcpsp_modes_arrity_fix'] = {'name': 'rcpsp_modes', 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY], 'n': self.n_jobs, 'arrities': mode_arrity}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.get_objective_register")
def _(self):
    dict_objective = {'makespan': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'mean_resource_reserve': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.SINGLE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.compute_resource_consumption")
def _(self, rcpsp_sol):
    modes_extended = deepcopy(rcpsp_sol.rcpsp_modes)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    last_activity = max(rcpsp_sol.rcpsp_schedule)
    makespan = rcpsp_sol.rcpsp_schedule[last_activity]['end_time']
    consumptions = np.zeros((len(self.resources), makespan + 1))
    for act_id in rcpsp_sol.rcpsp_schedule:
        for ir in range(len(self.resources)):
            use_ir = self.mode_details[act_id][modes_extended[act_id - 1]][self.resources_list[ir]]
            consumptions[ir, rcpsp_sol.rcpsp_schedule[act_id]['start_time'] + 1:rcpsp_sol.rcpsp_schedule[act_id]['end_time'] + 1] += use_ir
    return consumptions


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.copy")
def _(self):
    return RCPSPModel(resources=deepcopy(self.resources), non_renewable_resources=self.non_renewable_resources, mode_details=deepcopy(self.mode_details), successors=deepcopy(self.successors), horizon=self.horizon, horizon_multiplier=self.horizon_multiplier, name_task=self.name_task)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModel.get_dummy_solution")
def _(self):
    sol = RCPSPSolution(problem=self, rcpsp_permutation=list(range(self.n_jobs)), rcpsp_modes=[1 for i in range(self.n_jobs)])
    return sol


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModelCalendar.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'rcpsp_permutation':
        single_mode_list = [1 for i in range(self.n_jobs)]
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=int_vector, rcpsp_modes=single_mode_list)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModelCalendar.__init__")
def _(self, resources, non_renewable_resources, mode_details, successors, horizon, horizon_multiplier=1, name_task=None, calendar_details=None, name_ressource_to_index=None):
    super().__init__(resources, non_renewable_resources, mode_details, successors, horizon, horizon_multiplier, name_task)
    self.calendar_details = calendar_details
    self.name_ressource_to_index = name_ressource_to_index


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModelCalendar.copy")
def _(self):
    return RCPSPModelCalendar(resources={w: deepcopy(self.resources[w]) for w in self.resources}, non_renewable_resources=self.non_renewable_resources, mode_details=deepcopy(self.mode_details), successors=deepcopy(self.successors), horizon=self.horizon, horizon_multiplier=self.horizon_multiplier, name_task=self.name_task, calendar_details=deepcopy(self.calendar_details), name_ressource_to_index=self.name_ressource_to_index)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSPModelCalendar.satisfy")
def _(self, rcpsp_sol):
    if rcpsp_sol.rcpsp_schedule_feasible is False:
        return False
    else:
        modes_extended = deepcopy(rcpsp_sol.rcpsp_modes)
        modes_extended.insert(0, 1)
        modes_extended.append(1)
        last_activity = max(list(rcpsp_sol.rcpsp_schedule.keys()))
        makespan = rcpsp_sol.rcpsp_schedule[last_activity]['end_time']
        for t in range(makespan):
            resource_usage = {}
            for res in self.resources.keys():
                resource_usage[res] = 0
            for act_id in list(self.successors.keys()):
                start = rcpsp_sol.rcpsp_schedule[act_id]['start_time']
                end = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                mode = modes_extended[act_id - 1]
                for res in self.resources.keys():
                    if start <= t and t < end:
                        resource_usage[res] += self.mode_details[act_id][mode][res]
            for res in self.resources.keys():
                if resource_usage[res] > self.resources[res][t]:
                    return False
        for res in self.non_renewable_resources:
            usage = 0
            for act_id in list(self.successors.keys()):
                mode = modes_extended[act_id - 1]
                usage += self.mode_details[act_id][mode][res]
            if usage > self.resources[res][0]:
                return False
        for act_id in list(self.successors.keys()):
            for succ_id in self.successors[act_id]:
                start_succ = rcpsp_sol.rcpsp_schedule[succ_id]['start_time']
                end_pred = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                if start_succ < end_pred:
                    return False
        return True


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "SingleModeRCPSPModel.__init__")
def _(self, resources, non_renewable_resources, mode_details, successors, horizon, horizon_multiplier=1):
    RCPSPModel.__init__(self, resources=resources, non_renewable_resources=non_renewable_resources, mode_details=mode_details, successors=successors, horizon=horizon, horizon_multiplier=horizon_multiplier)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "SingleModeRCPSPModel.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'rcpsp_permutation':
        single_mode_list = [1 for i in range(self.n_jobs)]
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=int_vector, rcpsp_modes=single_mode_list)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "SingleModeRCPSPModel.copy")
def _(self):
    return SingleModeRCPSPModel(resources=deepcopy(self.resources), non_renewable_resources=self.non_renewable_resources, mode_details=deepcopy(self.mode_details), successors=deepcopy(self.successors), horizon=self.horizon, horizon_multiplier=self.horizon_multiplier)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.__init__")
def _(self, resources, non_renewable_resources, mode_details, successors, horizon, horizon_multiplier=1):
    RCPSPModel.__init__(self, resources=resources, non_renewable_resources=non_renewable_resources, mode_details=mode_details, successors=successors, horizon=horizon, horizon_multiplier=horizon_multiplier)
    self.fixed_modes = None
    self.fixed_permutation = None


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.set_fixed_attributes")
def _(self, encoding_str, sol):
    att = self.get_attribute_register().dict_attribute_to_type[encoding_str]['name']
    if att == 'rcpsp_modes':
        self.set_fixed_modes(sol.rcpsp_modes)
    elif att == 'rcpsp_permutation':
        self.set_fixed_permutation(sol.rcpsp_permutation)


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.set_fixed_modes")
def _(self, fixed_modes):
    self.fixed_modes = fixed_modes


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.set_fixed_permutation")
def _(self, fixed_permutation):
    self.fixed_permutation = fixed_permutation


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'rcpsp_permutation':
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=int_vector, rcpsp_modes=self.fixed_modes)
    elif encoding_name == 'rcpsp_modes':
        modes_corrected = [x + 1 for x in int_vector]
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=self.fixed_permutation, rcpsp_modes=modes_corrected)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.copy")
def _(self):
    mm = MultiModeRCPSPModel(resources=deepcopy(self.resources), non_renewable_resources=self.non_renewable_resources, mode_details=deepcopy(self.mode_details), successors=deepcopy(self.successors), horizon=self.horizon, horizon_multiplier=self.horizon_multiplier)
    mm.fixed_permutation = self.fixed_permutation
    mm.fixed_modes = self.fixed_modes
    return mm


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MultiModeRCPSPModel.get_dummy_solution")
def _(self):
    sol = RCPSPSolution(problem=self, rcpsp_permutation=list(range(self.n_jobs)), rcpsp_modes=[1 for i in range(self.n_jobs)])
    return sol


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "Aggreg_RCPSPModel.__init__")
def _(self, list_problem, method_aggregating):
    RobustProblem.__init__(self, list_problem=list_problem, method_aggregating=method_aggregating)
    self.horizon = list_problem[0].horizon
    self.horizon_multiplier = list_problem[0].horizon_multiplier
    self.resources = list_problem[0].resources
    self.successors = list_problem[0].successors
    self.n_jobs = list_problem[0].n_jobs
    self.mode_details = list_problem[0].mode_details
    self.resources_list = list_problem[0].resources_list


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "Aggreg_RCPSPModel.get_dummy_solution")
def _(self):
    a = self.list_problem[0].get_dummy_solution()
    a._schedule_to_recompute = True
    return a


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "Aggreg_RCPSPModel.get_unique_rcpsp_model")
def _(self):
    model = self.list_problem[0].copy()
    for job in model.mode_details:
        for mode in model.mode_details[job]:
            for res in model.mode_details[job][mode]:
                rs = np.array([self.list_problem[i].mode_details[job][mode][res] for i in range(self.nb_problem)])
                agg = int(self.agg_vec(rs))
                model.mode_details[job][mode][res] = agg
    return model


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "Aggreg_RCPSPModel.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    fits = [self.list_problem[i].evaluate_from_encoding(int_vector, encoding_name) for i in range(self.nb_problem)]
    keys = fits[0].keys()
    aggreg = {}
    for k in keys:
        vals = np.array([fit[k] for fit in fits])
        aggreg[k] = self.agg_vec(vals)
    return aggreg


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "Aggreg_RCPSPModel.evaluate")
def _(self, variable):
    fits = []
    for i in range(self.nb_problem):
        var = variable.lazy_copy()
        var.rcpsp_schedule = None
        var._schedule_to_recompute = True
        var.problem = self.list_problem[i]
        fit = self.list_problem[i].evaluate(var)
        fits += [fit]
    keys = fits[0].keys()
    aggreg = {}
    for k in keys:
        vals = np.array([fit[k] for fit in fits])
        aggreg[k] = self.agg_vec(vals)
    return aggreg


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MethodRobustification.__init__")
def _(self, method_base, percentile=50):
    self.method_base = method_base
    self.percentile = percentile


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "create_poisson_laws_duration")
def _(rcpsp_model, range_around_mean=3):
    poisson_dict = {}
    source = 1
    sink = rcpsp_model.n_jobs + 2
    for job in rcpsp_model.mode_details:
        poisson_dict[job] = {}
        for mode in rcpsp_model.mode_details[job]:
            poisson_dict[job][mode] = {}
            duration = rcpsp_model.mode_details[job][mode]['duration']
            if job in {source, sink}:
                poisson_dict[job][mode]['duration'] = (duration, duration, duration)
            else:
                min_duration = max(1, duration - range_around_mean)
                max_duration = duration + range_around_mean
                poisson_dict[job][mode]['duration'] = (min_duration, duration, max_duration)
    return poisson_dict


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "create_poisson_laws_resource")
def _(rcpsp_model, range_around_mean=1):
    poisson_dict = {}
    source = 1
    sink = rcpsp_model.n_jobs + 2
    limit_resource = rcpsp_model.resources
    resources = rcpsp_model.resources_list
    resources_non_renewable = rcpsp_model.non_renewable_resources
    for job in rcpsp_model.mode_details:
        poisson_dict[job] = {}
        for mode in rcpsp_model.mode_details[job]:
            poisson_dict[job][mode] = {}
            for resource in rcpsp_model.mode_details[job][mode]:
                if resource == 'duration':
                    continue
                if resource in resources_non_renewable:
                    continue
                resource_consumption = rcpsp_model.mode_details[job][mode][resource]
                if job in {source, sink}:
                    poisson_dict[job][mode][resource] = (resource_consumption, resource_consumption, resource_consumption)
                else:
                    min_rc = max(0, resource_consumption - range_around_mean)
                    max_rc = min(resource_consumption + range_around_mean, limit_resource[resource])
                    poisson_dict[job][mode][resource] = (min_rc, resource_consumption, max_rc)
    return poisson_dict


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "create_poisson_laws")
def _(base_rcpsp_model, range_around_mean_resource=1, range_around_mean_duration=3, do_uncertain_resource=True, do_uncertain_duration=True):
    poisson_laws = tree()
    if do_uncertain_duration:
        poisson_laws_duration = create_poisson_laws_duration(base_rcpsp_model, range_around_mean=range_around_mean_duration)
        for job in poisson_laws_duration:
            for mode in poisson_laws_duration[job]:
                for res in poisson_laws_duration[job][mode]:
                    poisson_laws[job][mode][res] = poisson_laws_duration[job][mode][res]
    if do_uncertain_resource:
        poisson_laws_resource = create_poisson_laws_resource(base_rcpsp_model, range_around_mean=range_around_mean_resource)
        for job in poisson_laws_resource:
            for mode in poisson_laws_resource[job]:
                for res in poisson_laws_resource[job][mode]:
                    poisson_laws[job][mode][res] = poisson_laws_resource[job][mode][res]
    return poisson_laws


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "UncertainRCPSPModel.__init__")
def _(self, base_rcpsp_model, poisson_laws, uniform_law=True):
    self.base_rcpsp_model = base_rcpsp_model
    self.poisson_laws = poisson_laws
    self.probas = {}
    for activity in poisson_laws:
        self.probas[activity] = {}
        for mode in poisson_laws[activity]:
            self.probas[activity][mode] = {}
            for detail in poisson_laws[activity][mode]:
                min_, mean_, max_ = poisson_laws[activity][mode][detail]
                if uniform_law:
                    rv = randint(low=min_, high=max_ + 1)
                else:
                    rv = poisson(mean_)
                self.probas[activity][mode][detail] = {'value': np.arange(min_, max_ + 1, 1), 'proba': np.zeros(max_ - min_ + 1)}
                for k in range(len(self.probas[activity][mode][detail]['value'])):
                    self.probas[activity][mode][detail]['proba'][k] = rv.pmf(self.probas[activity][mode][detail]['value'][k])
                self.probas[activity][mode][detail]['proba'] /= np.sum(self.probas[activity][mode][detail]['proba'])
                self.probas[activity][mode][detail]['prob-distribution'] = rv_discrete(name=str(activity) + '-' + str(mode) + '-' + str(detail), values=(self.probas[activity][mode][detail]['value'], self.probas[activity][mode][detail]['proba']))


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "UncertainRCPSPModel.create_rcpsp_model")
def _(self, method_robustification):
    model = self.base_rcpsp_model.copy()
    for activity in self.probas:
        if activity in {self.base_rcpsp_model.n_jobs + 2, 1}:
            continue
        for mode in self.probas[activity]:
            for detail in self.probas[activity][mode]:
                if method_robustification.method_base == MethodBaseRobustification.AVERAGE:
                    model.mode_details[activity][mode][detail] = int(self.probas[activity][mode][detail]['prob-distribution'].mean())
                if method_robustification.method_base == MethodBaseRobustification.WORST_CASE:
                    model.mode_details[activity][mode][detail] = self.probas[activity][mode][detail]['prob-distribution'].support()[1]
                if method_robustification.method_base == MethodBaseRobustification.BEST_CASE:
                    model.mode_details[activity][mode][detail] = self.probas[activity][mode][detail]['prob-distribution'].support()[0]
                if method_robustification.method_base == MethodBaseRobustification.PERCENTILE:
                    model.mode_details[activity][mode][detail] = max(int(self.probas[activity][mode][detail]['prob-distribution'].isf(q=1 - method_robustification.percentile / 100)), 1)
                if method_robustification.method_base == MethodBaseRobustification.SAMPLE:
                    model.mode_details[activity][mode][detail] = self.probas[activity][mode][detail]['prob-distribution'].rvs(size=1)[0]
    return model


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSP_H_Model.__init__")
def _(self, base_rcpsp_model, pre_helper_activities, post_helper_activities):
    RCPSPModel.__init__(self, resources=base_rcpsp_model.resources, non_renewable_resources=base_rcpsp_model.non_renewable_resources, mode_details=base_rcpsp_model.mode_details, successors=base_rcpsp_model.successors, horizon=base_rcpsp_model.horizon, horizon_multiplier=base_rcpsp_model.horizon_multiplier)
    self.pre_helper_activities = pre_helper_activities
    self.post_helper_activities = post_helper_activities


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSP_H_Model.evaluate")
def _(self, rcpsp_sol):
    if rcpsp_sol._schedule_to_recompute:
        rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
    rcpsp_sol.rcpsp_schedule = self.rcpsp_pre_helper_correction(rcpsp_sol)
    obj_makespan, obj_mean_resource_reserve = self.evaluate_function(rcpsp_sol)
    cumulated_helper_gap = 0
    for main_act_id in self.pre_helper_activities.keys():
        pre_gap = rcpsp_sol.rcpsp_schedule[main_act_id]['start_time'] - rcpsp_sol.rcpsp_schedule[self.pre_helper_activities[main_act_id][0]]['end_time']
        post_gap = rcpsp_sol.rcpsp_schedule[self.post_helper_activities[main_act_id][0]]['start_time'] - rcpsp_sol.rcpsp_schedule[main_act_id]['end_time']
        cumulated_helper_gap += pre_gap + post_gap
    return {'makespan': obj_makespan, 'mean_resource_reserve': obj_mean_resource_reserve, 'cumulated_helper_gap': cumulated_helper_gap}


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSP_H_Model.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'rcpsp_permutation':
        single_mode_list = [1 for i in range(self.n_jobs)]
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=int_vector, rcpsp_modes=single_mode_list)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "RCPSP_H_Model.rcpsp_pre_helper_correction")
def _(self, rcpsp_sol):
    corrected_sol = rcpsp_sol.copy()
    pre_helper_ids = []
    pre_helper_starts = []
    for main_id in self.pre_helper_activities:
        pre_helper_ids.append(self.pre_helper_activities[main_id][0])
        pre_helper_starts.append(rcpsp_sol.rcpsp_schedule[self.pre_helper_activities[main_id][0]]['start_time'])
    sorted_pre_helper_ids = [x for _, x in sorted(zip(pre_helper_starts, pre_helper_ids), reverse=True)]
    for id in sorted_pre_helper_ids:
        all_successor_starts = [corrected_sol.rcpsp_schedule[s_id]['start_time'] for s_id in self.successors[id]]
        latest_end = min(all_successor_starts)
        duration = corrected_sol.rcpsp_schedule[id]['end_time'] - corrected_sol.rcpsp_schedule[id]['start_time']
        latest_start = latest_end - duration
        consumption = np.copy(self.compute_resource_consumption(corrected_sol))
        for i in range(len(list(self.resources.keys()))):
            res_str = list(self.resources.keys())[i]
            for t in range(corrected_sol.rcpsp_schedule[id]['start_time'], corrected_sol.rcpsp_schedule[id]['end_time']):
                consumption[i, t + 1] -= self.mode_details[id][1][res_str]
        stop = False
        while not stop:
            all_good = True
            for t in range(latest_start, latest_start + duration):
                for i in range(len(list(self.resources.keys()))):
                    res_str = list(self.resources.keys())[i]
                    if consumption[i, t + 1] + self.mode_details[id][1][res_str] > self.resources[res_str]:
                        all_good = False
                        break
            if all_good:
                corrected_sol.rcpsp_schedule[id]['start_time'] = latest_start
                corrected_sol.rcpsp_schedule[id]['end_time'] = latest_start + duration
                stop = True
            else:
                latest_start -= 1
    return corrected_sol.rcpsp_schedule


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MRCPSP_H_Model.__init__")
def _(self, base_rcpsp_model, pre_helper_activities, post_helper_activities):
    MultiModeRCPSPModel.__init__(self, resources=base_rcpsp_model.resources, non_renewable_resources=base_rcpsp_model.non_renewable_resources, mode_details=base_rcpsp_model.mode_details, successors=base_rcpsp_model.successors, horizon=base_rcpsp_model.horizon, horizon_multiplier=base_rcpsp_model.horizon_multiplier)
    self.pre_helper_activities = pre_helper_activities
    self.post_helper_activities = post_helper_activities


@spec("builders/discrete_optimization/rcpsp/rcpsp_model.py", "MRCPSP_H_Model.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'rcpsp_permutation':
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=int_vector, rcpsp_modes=self.fixed_modes)
    elif encoding_name == 'rcpsp_modes':
        modes_corrected = [x + 1 for x in int_vector]
        rcpsp_sol = RCPSPSolution(problem=self, rcpsp_permutation=self.fixed_permutation, rcpsp_modes=modes_corrected)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "compute_resource_consumption")
def _(rcpsp_model, rcpsp_sol, list_resources=None, future_view=True):
    modes_extended = deepcopy(rcpsp_sol.rcpsp_modes)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    last_activity = max(rcpsp_sol.rcpsp_schedule)
    makespan = rcpsp_sol.rcpsp_schedule[last_activity]['end_time']
    if list_resources is None:
        list_resources = rcpsp_model.resources_list
    consumptions = np.zeros((len(list_resources), makespan + 1))
    for act_id in rcpsp_sol.rcpsp_schedule:
        for ir in range(len(list_resources)):
            use_ir = rcpsp_model.mode_details[act_id][modes_extended[act_id - 1]][list_resources[ir]]
            if future_view:
                consumptions[ir, rcpsp_sol.rcpsp_schedule[act_id]['start_time'] + 1:rcpsp_sol.rcpsp_schedule[act_id]['end_time'] + 1] += use_ir
            else:
                consumptions[ir, rcpsp_sol.rcpsp_schedule[act_id]['start_time']:rcpsp_sol.rcpsp_schedule[act_id]['end_time']] += use_ir
    return (consumptions, np.arange(0, makespan + 1, 1))


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "compute_nice_resource_consumption")
def _(rcpsp_model, rcpsp_sol, list_resources=None):
    if list_resources is None:
        list_resources = rcpsp_model.resources_list
    c_future, times = compute_resource_consumption(rcpsp_model, rcpsp_sol, list_resources=list_resources, future_view=True)
    c_past, times = compute_resource_consumption(rcpsp_model, rcpsp_sol, list_resources=list_resources, future_view=False)
    merged_times = {i: [] for i in range(len(list_resources))}
    merged_cons = {i: [] for i in range(len(list_resources))}
    for r in range(len(list_resources)):
        for index_t in range(len(times)):
            merged_times[r] += [times[index_t], times[index_t]]
            merged_cons[r] += [c_future[r, index_t], c_past[r, index_t]]
    for r in merged_times:
        merged_times[r] = np.array(merged_times[r])
        merged_cons[r] = np.array(merged_cons[r])
    return (merged_times, merged_cons)


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "compute_schedule_per_resource_individual")
def _(rcpsp_model, rcpsp_sol, resource_types_to_consider=None, verbose=False):
    nb_ressources = len(rcpsp_model.resources_list)
    modes_extended = deepcopy(rcpsp_sol.rcpsp_modes)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    if resource_types_to_consider is None:
        resources = rcpsp_model.resources_list
    else:
        resources = resource_types_to_consider
    sorted_task_by_start = sorted(rcpsp_sol.rcpsp_schedule, key=lambda x: 100000 * rcpsp_sol.rcpsp_schedule[x]['start_time'] + x)
    sorted_task_by_end = sorted(rcpsp_sol.rcpsp_schedule, key=lambda x: 100000 * rcpsp_sol.rcpsp_schedule[x]['end_time'] + x)
    max_time = rcpsp_sol.rcpsp_schedule[sorted_task_by_end[-1]]['end_time']
    min_time = rcpsp_sol.rcpsp_schedule[sorted_task_by_end[0]]['start_time']
    with_calendar = isinstance(rcpsp_model, RCPSPModelCalendar)
    array_ressource_usage = {resources[i]: {'activity': np.zeros((max_time - min_time + 1, max(rcpsp_model.resources[resources[i]]) if with_calendar else rcpsp_model.resources[resources[i]])), 'binary_activity': np.zeros((max_time - min_time + 1, max(rcpsp_model.resources[resources[i]]) if with_calendar else rcpsp_model.resources[resources[i]])), 'total_activity': np.zeros(max(rcpsp_model.resources[resources[i]]) if with_calendar else rcpsp_model.resources[resources[i]]), 'activity_last_n_hours': np.zeros((max_time - min_time + 1, max(rcpsp_model.resources[resources[i]]) if with_calendar else rcpsp_model.resources[resources[i]])), 'boxes_time': []} for i in range(len(resources))}
    total_time = max_time - min_time + 1
    nhour = int(min(8, total_time / 2 - 1))
    index_to_time = {i: min_time + i for i in range(max_time - min_time + 1)}
    time_to_index = {index_to_time[i]: i for i in index_to_time}
    for activity in sorted_task_by_start:
        mode = modes_extended[activity - 1]
        start_time = rcpsp_sol.rcpsp_schedule[activity]['start_time']
        end_time = rcpsp_sol.rcpsp_schedule[activity]['end_time']
        if end_time == start_time:
            continue
        resources_needed = {r: rcpsp_model.mode_details[activity][mode][r] for r in resources}
        for r in resources_needed:
            if r not in array_ressource_usage:
                continue
            rneeded = resources_needed[r]
            if not with_calendar:
                range_interest = range(array_ressource_usage[r]['activity'].shape[1])
            else:
                range_interest = range(rcpsp_model.resources[r][time_to_index[start_time]])
            while rneeded > 0:
                availables_people_r = [i for i in range_interest if array_ressource_usage[r]['activity'][time_to_index[start_time], i] == 0]
                if verbose:
                    pass
                if len(availables_people_r) > 0:
                    resource = min(availables_people_r, key=lambda x: array_ressource_usage[r]['total_activity'][x])
                    array_ressource_usage[r]['activity'][time_to_index[start_time]:time_to_index[end_time], resource] = activity
                    array_ressource_usage[r]['binary_activity'][time_to_index[start_time]:time_to_index[end_time], resource] = 1
                    array_ressource_usage[r]['total_activity'][resource] += end_time - start_time
                    array_ressource_usage[r]['activity_last_n_hours'][:, resource] = np.convolve(array_ressource_usage[r]['binary_activity'][:, resource], np.array([1] * nhour + [0] + [0] * nhour), mode='same')
                    array_ressource_usage[r]['boxes_time'] += [[(resource - 0.25, start_time + 0.01, activity), (resource - 0.25, end_time - 0.01, activity), (resource + 0.25, end_time - 0.01, activity), (resource + 0.25, start_time + 0.01, activity), (resource - 0.25, start_time + 0.01, activity)]]
                    rneeded -= 1
                else:
                    rneeded = 0
    return array_ressource_usage


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "kendall_tau_similarity")
def _(rcpsp_sols):
    sol1 = rcpsp_sols[0]
    sol2 = rcpsp_sols[1]
    perm1 = sol1.generate_permutation_from_schedule()
    perm2 = sol2.generate_permutation_from_schedule()
    ktd, p_value = scipy.stats.kendalltau(perm1, perm2)
    return ktd


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "all_diff_start_time")
def _(rcpsp_sols):
    sol1 = rcpsp_sols[0]
    sol2 = rcpsp_sols[1]
    diffs = {}
    for act_id in sol1.rcpsp_schedule.keys():
        diff = sol1.rcpsp_schedule[act_id]['start_time'] - sol2.rcpsp_schedule[act_id]['start_time']
        diffs[act_id] = diff
    return diffs


@spec("builders/discrete_optimization/rcpsp/rcpsp_utils.py", "compute_graph_rcpsp")
def _(rcpsp_model):
    nodes = [(n, {mode: rcpsp_model.mode_details[n][mode]['duration'] for mode in rcpsp_model.mode_details[n]}) for n in range(1, rcpsp_model.n_jobs + 3)]
    edges = []
    for n in rcpsp_model.successors:
        for succ in rcpsp_model.successors[n]:
            dict_transition = {mode: rcpsp_model.mode_details[n][mode]['duration'] for mode in rcpsp_model.mode_details[n]}
            min_duration = min(dict_transition.values())
            max_duration = max(dict_transition.values())
            dict_transition['min_duration'] = min_duration
            dict_transition['max_duration'] = max_duration
            dict_transition['minus_min_duration'] = -min_duration
            dict_transition['minus_max_duration'] = -max_duration
            dict_transition['link'] = 1
            edges += [(n, succ, dict_transition)]
    return Graph(nodes, edges, False)


@spec("builders/discrete_optimization/rcpsp/rcpsp_parser.py", "get_data_available")
def _():
    files = [f for f in os.listdir(path_to_data) if 'pk' not in f and 'json' not in f]
    return [os.path.join(path_to_data, f) for f in files]


@spec("builders/discrete_optimization/rcpsp/rcpsp_parser.py", "parse_psplib")
def _(input_data):
    lines = input_data.split('\n')
    horizon_ref_line_index = lines.index('RESOURCES') - 1
    prec_ref_line_index = lines.index('PRECEDENCE RELATIONS:')
    prec_start_line_index = prec_ref_line_index + 2
    duration_ref_line_index = lines.index('REQUESTS/DURATIONS:')
    prec_end_line_index = duration_ref_line_index - 2
    duration_start_line_index = duration_ref_line_index + 3
    res_ref_line_index = lines.index('RESOURCEAVAILABILITIES:')
    duration_end_line_index = res_ref_line_index - 2
    res_start_line_index = res_ref_line_index + 1
    tmp = lines[horizon_ref_line_index].split()
    horizon = int(tmp[2])
    tmp1 = lines[res_start_line_index].split()
    tmp2 = lines[res_start_line_index + 1].split()
    resources = {str(tmp1[i * 2]) + str(tmp1[i * 2 + 1]): int(tmp2[i]) for i in range(len(tmp2))}
    non_renewable_resources = [name for name in list(resources.keys()) if name.startswith('N')]
    n_resources = len(resources.keys())
    multi_mode = False
    successors = {}
    for i in range(prec_start_line_index, prec_end_line_index + 1):
        tmp = lines[i].split()
        task_id = int(tmp[0])
        n_modes = int(tmp[1])
        n_successors = int(tmp[2])
        successors[task_id] = [int(x) for x in tmp[3:3 + n_successors]]
    mode_details = {}
    for i in range(duration_start_line_index, duration_end_line_index + 1):
        tmp = lines[i].split()
        if len(tmp) == 3 + n_resources:
            task_id = int(tmp[0])
            mode_id = int(tmp[1])
            duration = int(tmp[2])
            resources_usage = [int(x) for x in tmp[3:3 + n_resources]]
        else:
            multi_mode = True
            mode_id = int(tmp[0])
            duration = int(tmp[1])
            resources_usage = [int(x) for x in tmp[2:3 + n_resources]]
        if int(task_id) not in list(mode_details.keys()):
            mode_details[int(task_id)] = {}
        mode_details[int(task_id)][mode_id] = {}
        mode_details[int(task_id)][mode_id]['duration'] = duration
        for i in range(n_resources):
            mode_details[int(task_id)][mode_id][list(resources.keys())[i]] = resources_usage[i]
    if multi_mode:
        problem = MultiModeRCPSPModel(resources=resources, non_renewable_resources=non_renewable_resources, mode_details=mode_details, successors=successors, horizon=horizon, horizon_multiplier=30)
    else:
        problem = SingleModeRCPSPModel(resources=resources, non_renewable_resources=non_renewable_resources, mode_details=mode_details, successors=successors, horizon=horizon, horizon_multiplier=30)
    return problem


@spec("builders/discrete_optimization/rcpsp/rcpsp_parser.py", "parse_file")
def _(file_path):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        rcpsp_model = parse_psplib(input_data)
        return rcpsp_model


@spec("builders/discrete_optimization/rcpsp/rcpsp_data_generator.py", "generate_rcpsp_with_helper_tasks_data")
def _(rcpsp_model, original_duration_multiplier, n_assisted_activities, n_assistants, probability_of_cross_helper_precedences, fixed_helper_duration, random_seed):
    np.random.seed(random_seed)
    the_model = rcpsp_model.copy()
    n_renewables = len(list(the_model.resources.keys())) - len(the_model.non_renewable_resources)
    additional_resource_str = 'R' + str(n_renewables + 1)
    the_model.resources[additional_resource_str] = n_assistants
    for act_id in the_model.mode_details.keys():
        for mode_id in the_model.mode_details[act_id].keys():
            the_model.mode_details[act_id][mode_id]['duration'] *= original_duration_multiplier
    sorted_activities = list(sorted(the_model.mode_details.keys()))
    non_dummy_act_ids = sorted_activities[1:-1]
    assisted_activities = np.random.permutation(non_dummy_act_ids)[:n_assisted_activities].tolist()
    n_new_activities = n_assisted_activities * 2
    old_sink_activity_id = sorted_activities[-1]
    new_sink_activity_id = old_sink_activity_id + n_new_activities
    temp = the_model.mode_details[old_sink_activity_id].copy()
    del the_model.mode_details[old_sink_activity_id]
    the_model.mode_details[new_sink_activity_id] = temp
    the_model.n_jobs += n_new_activities
    for act_id in the_model.successors.keys():
        if old_sink_activity_id in the_model.successors[act_id]:
            del the_model.successors[act_id][the_model.successors[act_id].index(old_sink_activity_id)]
            the_model.successors[act_id].append(new_sink_activity_id)
    del the_model.successors[old_sink_activity_id]
    the_model.successors[new_sink_activity_id] = []
    for act_id in the_model.mode_details.keys():
        for mode_id in the_model.mode_details[act_id].keys():
            the_model.mode_details[act_id][mode_id][additional_resource_str] = 0
    for i in range(n_new_activities):
        the_model.mode_details[old_sink_activity_id + i] = {}
        the_model.mode_details[old_sink_activity_id + i][1] = {}
        the_model.mode_details[old_sink_activity_id + i][1]['duration'] = fixed_helper_duration
        for res_key in the_model.resources.keys():
            if res_key != additional_resource_str:
                the_model.mode_details[old_sink_activity_id + i][1][res_key] = 0
            else:
                the_model.mode_details[old_sink_activity_id + i][1][res_key] = 1
    pre_helper_activities = {}
    post_helper_activities = {}
    for i in range(n_assisted_activities):
        the_model.successors[old_sink_activity_id + i] = [assisted_activities[i]]
        pre_helper_activities[assisted_activities[i]] = [old_sink_activity_id + i]
        the_model.successors[assisted_activities[i]].append(old_sink_activity_id + n_assisted_activities + i)
        the_model.successors[old_sink_activity_id + n_assisted_activities + i] = []
        post_helper_activities[assisted_activities[i]] = [old_sink_activity_id + n_assisted_activities + i]
        if new_sink_activity_id in the_model.successors[assisted_activities[i]]:
            del the_model.successors[assisted_activities[i]][the_model.successors[assisted_activities[i]].index(new_sink_activity_id)]
            the_model.successors[old_sink_activity_id + n_assisted_activities + i].append(new_sink_activity_id)
    assisted_activities.sort()
    for main_act_id in assisted_activities:
        the_index = assisted_activities.index(main_act_id)
        for main_act_id_2 in assisted_activities[the_index + 1:]:
            if random.random() < probability_of_cross_helper_precedences:
                post_act_id = post_helper_activities[main_act_id][0]
                pre_act_id = pre_helper_activities[main_act_id_2][0]
                the_model.successors[post_act_id].append(pre_act_id)
    if isinstance(the_model, SingleModeRCPSPModel):
        rcpsp_h = RCPSP_H_Model(base_rcpsp_model=the_model, pre_helper_activities=pre_helper_activities, post_helper_activities=post_helper_activities)
    elif isinstance(the_model, MultiModeRCPSPModel):
        rcpsp_h = MRCPSP_H_Model(base_rcpsp_model=the_model, pre_helper_activities=pre_helper_activities, post_helper_activities=post_helper_activities)
    graph_precedence = rcpsp_h.compute_graph()
    predecessors_sink = graph_precedence.precedessors_nodes(new_sink_activity_id)
    if len(predecessors_sink) != rcpsp_h.n_jobs + 1:
        missing = [i for i in range(1, rcpsp_h.n_jobs + 2) if i not in predecessors_sink]
        for m in missing:
            rcpsp_h.successors[m].append(new_sink_activity_id)
    return rcpsp_h


@spec("builders/discrete_optimization/rcpsp/rcpsp_solvers.py", "look_for_solver")
def _(domain):
    class_domain = domain.__class__
    available = []
    for solver in solvers_compatibility:
        if class_domain in solvers_compatibility[solver]:
            available += [solver]
    return available


@spec("builders/discrete_optimization/rcpsp/rcpsp_solvers.py", "solve")
def _(method, rcpsp_model, **args):
    solver = method(rcpsp_model, **args)
    try:
        solver.init_model(**args)
    except:
        pass
    return solver.solve(**args)


@spec("builders/discrete_optimization/rcpsp/rcpsp_solvers.py", "return_solver")
def _(method, rcpsp_model, **args):
    solver = method(rcpsp_model, **args)
    try:
        solver.init_model(**args)
    except:
        pass
    return solver


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPMObject.__init__")
def _(self, ESD, EFD, LSD, LFD):
    self._ESD = ESD
    self._EFD = EFD
    self._LSD = LSD
    self._LFD = LFD


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPMObject.set_earliest_start_date")
def _(self, ESD):
    self._ESD = ESD


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPMObject.set_earliest_finish_date")
def _(self, EFD):
    self._EFD = EFD


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPMObject.set_latest_start_date")
def _(self, LSD):
    self._LSD = LSD


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPMObject.set_latest_finish_date")
def _(self, LFD):
    self._LFD = LFD


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.__init__")
def _(self, rcpsp_model):
    self.rcpsp_model = rcpsp_model
    self.graph = compute_graph_rcpsp(self.rcpsp_model)
    self.graph_nx = self.graph.to_networkx()
    self.source = min(self.rcpsp_model.mode_details)
    self.sink = max(self.rcpsp_model.mode_details)
    self.map_node = {n: CPMObject(None, None, None, None) for n in self.graph_nx.nodes()}
    successors = {n: nx.algorithms.descendants(self.graph_nx, n) for n in self.graph_nx.nodes()}
    self.immediate_successors = {n: set(nx.neighbors(self.graph_nx, n)) for n in self.graph_nx.nodes()}
    self.immediate_predecessors = {n: set(self.graph_nx.predecessors(n)) for n in self.graph_nx.nodes()}
    self.successors_map = {}
    self.predecessors_map = {}
    for k in successors:
        self.successors_map[k] = {'succs': successors[k], 'nb': len(successors[k])}
    predecessors = {n: nx.algorithms.ancestors(self.graph_nx, n) for n in self.graph_nx.nodes()}
    for k in predecessors:
        self.predecessors_map[k] = {'succs': predecessors[k], 'nb': len(predecessors[k])}


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.run_classic_cpm")
def _(self):
    done_forward = set()
    done_backward = set()
    current_succ = {k: {'succs': set(self.successors_map[k]['succs']), 'nb': self.successors_map[k]['nb']} for k in self.successors_map}
    current_pred = {k: {'succs': set(self.predecessors_map[k]['succs']), 'nb': self.predecessors_map[k]['nb']} for k in self.predecessors_map}
    available_activities = {n for n in current_pred if n not in done_forward and current_pred[n]['nb'] == 0}
    queue = [(0, n) for n in available_activities]
    forward = True
    while queue:
        time, node = heappop(queue)
        if forward and node in done_forward:
            continue
        elif not forward and node in done_backward:
            continue
        if forward:
            self.map_node[node].set_earliest_start_date(time)
            done_forward.add(node)
        else:
            self.map_node[node].set_latest_finish_date(-time)
            done_backward.add(node)
        min_duration = min([self.rcpsp_model.mode_details[node][k]['duration'] for k in self.rcpsp_model.mode_details[node]])
        if forward:
            self.map_node[node].set_earliest_finish_date(time + min_duration)
        else:
            self.map_node[node].set_latest_start_date(-time - min_duration)
        if forward:
            next_nodes = self.immediate_successors[node]
        else:
            next_nodes = self.immediate_predecessors[node]
        for next_node in next_nodes:
            pred = self.immediate_predecessors[next_node] if forward else self.immediate_successors[next_node]
            if forward:
                if all((self.map_node[n]._ESD is not None for n in pred)):
                    max_esd = max([self.map_node[n]._EFD for n in pred])
                    heappush(queue, (max_esd, next_node))
            elif all((self.map_node[n]._LSD is not None for n in pred)):
                max_esd = min([self.map_node[n]._LSD for n in pred])
                heappush(queue, (-max_esd, next_node))
        if node == self.sink:
            forward = False
            heappush(queue, (-self.map_node[node]._EFD, node))
    critical_path = [self.sink]
    cur_node = self.sink
    while cur_node is not self.source:
        nodes = [n for n in self.immediate_predecessors[cur_node] if self.map_node[n]._ESD == self.map_node[n]._LSD]
        cur_node = nodes[0]
        critical_path += [cur_node]
    return critical_path[::-1]


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.return_order_cpm")
def _(self):
    order = sorted(self.map_node, key=lambda x: (self.map_node[x]._ESD, self.map_node[x]._LSD))
    return order


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.run_sgs_on_order")
def _(self, map_nodes, critical_path, total_order=None, cut_sgs_by_critical=True):
    if total_order is None:
        total_order = self.return_order_cpm()
    index_in_order = {total_order[i]: i for i in range(len(total_order))}
    resource_avail_in_time = {}
    for res in list(self.rcpsp_model.resources.keys()):
        if isinstance(self.rcpsp_model, RCPSPModelCalendar):
            resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
        else:
            resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
    done = set()
    ressource_usage = {res: {time: {} for time in range(self.rcpsp_model.horizon)} for res in self.rcpsp_model.resources.keys()}
    current_schedule = {}
    min_time_to_schedule = {n: self.map_node[n]._ESD for n in self.map_node}
    if cut_sgs_by_critical:
        index_critical = 0
        cur_critical_task_to_schedule = critical_path[index_critical]
        sorted_task_to_do_before = sorted([n for n in self.predecessors_map[cur_critical_task_to_schedule]['succs'] if n not in done], key=lambda x: index_in_order[x])
    effects_on_delay = {}
    causes_of_delay = {}
    unlock_task_transition = {}
    while True:
        if cut_sgs_by_critical:
            sorted_task_to_do = sorted_task_to_do_before + [cur_critical_task_to_schedule]
        else:
            sorted_task_to_do = [t for t in total_order if t not in done]
        ll = list(sorted_task_to_do)
        while len(ll) > 0:
            j = next((t for t in ll if all((task in done for task in self.immediate_predecessors[t]))))
            ll.remove(j)
            early_start = min_time_to_schedule[j]
            ressource_consumption = {r: self.rcpsp_model.mode_details[j][1][r] for r in self.rcpsp_model.mode_details[j][1] if r != 'duration'}
            duration = self.rcpsp_model.mode_details[j][1]['duration']
            delayed_du_to_ressource = False
            for time in range(early_start, self.rcpsp_model.horizon):
                valid = True
                for res in resource_avail_in_time:
                    for t in range(time, time + duration):
                        if resource_avail_in_time[res][t] < ressource_consumption[res]:
                            valid = False
                            delayed_du_to_ressource = True
                            if j not in causes_of_delay:
                                causes_of_delay[j] = {'res_t_other_task': []}
                            causes_of_delay[j]['res_t_other_task'] += [(res, t, set([task for task in ressource_usage[res][t] if task not in self.predecessors_map[j]['succs']]))]
                            break
                    if not valid:
                        break
                if valid:
                    real_start = time
                    if delayed_du_to_ressource:
                        ressource_blocking = [res for res in resource_avail_in_time if resource_avail_in_time[res][time - 1] < ressource_consumption[res]]
                        task_blocking = [task for task in current_schedule if current_schedule[task]['end_time'] == time and any([res in ressource_blocking for res in ressource_usage if ressource_usage[res][time - 1].get(task, 0) > 0])]
                        if j not in unlock_task_transition:
                            unlock_task_transition[j] = set()
                        unlock_task_transition[j].update(set(task_blocking))
                    current_schedule[j] = {'start_time': time, 'end_time': time + duration}
                    done.add(j)
                    for res in resource_avail_in_time:
                        for t in range(time, time + duration):
                            resource_avail_in_time[res][t] -= ressource_consumption[res]
                            if ressource_consumption[res] > 0:
                                ressource_usage[res][t][j] = ressource_consumption[res]
                    for task in self.successors_map[j]['succs']:
                        prev = min_time_to_schedule[task]
                        min_time_to_schedule[task] = max(min_time_to_schedule[task], current_schedule[j]['end_time'])
                        if min_time_to_schedule[task] > prev and min_time_to_schedule[task] > self.map_node[task]._LSD:
                            if task not in effects_on_delay:
                                effects_on_delay[task] = {'task_causes': set()}
                            effects_on_delay[task]['task_causes'].add(j)
                    break
        if cut_sgs_by_critical:
            actual_time = current_schedule[cur_critical_task_to_schedule]['start_time']
            if not self.map_node[cur_critical_task_to_schedule]._ESD <= actual_time <= self.map_node[cur_critical_task_to_schedule]._LSD:
                pass
            index_critical += 1
            if index_critical == len(critical_path):
                break
            cur_critical_task_to_schedule = critical_path[index_critical]
            sorted_task_to_do_before = sorted([n for n in self.predecessors_map[cur_critical_task_to_schedule]['succs'] if n not in done], key=lambda x: index_in_order[x])
        else:
            break
    resource_links_to_add = []
    for j in causes_of_delay:
        delayed = current_schedule[j]['start_time'] > self.map_node[j]._ESD
        if delayed:
            for res, time, set_task in causes_of_delay[j]['res_t_other_task']:
                if time >= self.map_node[j]._LSD - 5:
                    for task in set_task:
                        resource_links_to_add += [(j, task)]
    self.unlock_task_transition = unlock_task_transition
    return (current_schedule, resource_links_to_add, effects_on_delay, causes_of_delay)


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.get_first_time_to_do_one_task")
def _(self, resource_avail_in_time, task_id):
    early_start = self.map_node[task_id]._ESD
    ressource_consumption = {r: self.rcpsp_model.mode_details[task_id][1][r] for r in self.rcpsp_model.mode_details[task_id][1] if r != 'duration'}
    duration = self.rcpsp_model.mode_details[task_id][1]['duration']
    time_start = None
    for time in range(early_start, self.rcpsp_model.horizon):
        valid = True
        for res in resource_avail_in_time:
            for t in range(time, time + duration):
                if resource_avail_in_time[res][t] < ressource_consumption[res]:
                    valid = False
                    time_start = time
                    break
            if not valid:
                break
    return (time_start, time_start + duration)


@spec("builders/discrete_optimization/rcpsp/solver/cpm.py", "CPM.run_sgs_time_loop")
def _(self, map_nodes, critical_path, total_order=None):
    if total_order is None:
        total_order = self.return_order_cpm()
    index_in_order = {total_order[i]: i for i in range(len(total_order))}
    resource_avail_in_time = {}
    for res in list(self.rcpsp_model.resources.keys()):
        if isinstance(self.rcpsp_model, RCPSPModelCalendar):
            resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
        else:
            resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
    done = set()
    ressource_usage = {res: {time: {} for time in range(self.rcpsp_model.horizon)} for res in self.rcpsp_model.resources.keys()}
    current_schedule = {}
    min_time_to_schedule = {n: self.map_node[n]._ESD for n in self.map_node}
    effects_on_delay = {}
    causes_of_delay = {}
    cur_time = 0
    nb_task = len(self.map_node)
    while len(done) < nb_task:
        sorted_task_to_do = [t for t in total_order if t not in done]
        index = 0
        for j in sorted_task_to_do[:10]:
            early_start = min_time_to_schedule[j]
            if all((t in done and current_schedule[t]['end_time'] <= cur_time for t in self.immediate_predecessors[j])):
                if early_start <= cur_time:
                    ressource_consumption = {r: self.rcpsp_model.mode_details[j][1][r] for r in self.rcpsp_model.mode_details[j][1] if r != 'duration'}
                    duration = self.rcpsp_model.mode_details[j][1]['duration']
                    for time in [cur_time]:
                        valid = True
                        for res in resource_avail_in_time:
                            for t in range(time, time + duration):
                                if resource_avail_in_time[res][t] < ressource_consumption[res]:
                                    valid = False
                                    if j not in causes_of_delay:
                                        causes_of_delay[j] = {'res_t_other_task': []}
                                    causes_of_delay[j]['res_t_other_task'] += [(res, t, set([task for task in ressource_usage[res][t] if task not in self.predecessors_map[j]['succs']]))]
                                    break
                        if not valid:
                            break
                    if valid:
                        current_schedule[j] = {'start_time': time, 'end_time': time + duration}
                        done.add(j)
                        for res in resource_avail_in_time:
                            for t in range(time, time + duration):
                                resource_avail_in_time[res][t] -= ressource_consumption[res]
                                if ressource_consumption[res] > 0:
                                    ressource_usage[res][t][j] = ressource_consumption[res]
                        for task in self.successors_map[j]['succs']:
                            prev = min_time_to_schedule[task]
                            min_time_to_schedule[task] = max(min_time_to_schedule[task], current_schedule[j]['end_time'])
                            if min_time_to_schedule[task] > prev and min_time_to_schedule[task] > self.map_node[task]._LSD:
                                if task not in effects_on_delay:
                                    effects_on_delay[task] = {'task_causes': set()}
                                effects_on_delay[task]['task_causes'].add(j)
                        break
            index += 1
        cur_time += 1
    resource_links_to_add = []
    for j in causes_of_delay:
        delayed = current_schedule[j]['start_time'] > self.map_node[j]._ESD
        if delayed:
            for res, time, set_task in causes_of_delay[j]['res_t_other_task']:
                if time >= self.map_node[j]._LSD - 5:
                    for task in set_task:
                        resource_links_to_add += [(j, task)]
    return (current_schedule, resource_links_to_add, effects_on_delay, causes_of_delay)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "PileSolverRCPSP.__init__")
def _(self, rcpsp_model, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.resources = rcpsp_model.resources
    self.non_renewable = rcpsp_model.non_renewable_resources
    self.n_jobs = rcpsp_model.n_jobs
    self.mode_details = rcpsp_model.mode_details
    self.graph = rcpsp_model.compute_graph()
    self.nx_graph = self.graph.to_networkx()
    self.successors_map = {}
    self.predecessors_map = {}
    successors = {n: nx.algorithms.descendants(self.nx_graph, n) for n in self.nx_graph.nodes()}
    self.source = 1
    self.sink = self.n_jobs + 2
    self.all_activities = set(range(1, self.n_jobs + 3))
    for k in successors:
        self.successors_map[k] = {'succs': successors[k], 'nb': len(successors[k])}
    predecessors = {n: nx.algorithms.ancestors(self.nx_graph, n) for n in self.nx_graph.nodes()}
    for k in predecessors:
        self.predecessors_map[k] = {'succs': predecessors[k], 'nb': len(predecessors[k])}
    self.aggreg_from_sol, self.aggreg_from_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)
    if isinstance(self.rcpsp_model, (MultiModeRCPSPModel, RCPSPModelCalendar)):
        solver = CP_MRCPSP_MZN_MODES(self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED)
        params_cp = ParametersCP.default()
        params_cp.time_limit = 1
        params_cp.pool_solutions = 10000
        params_cp.nr_solutions = 1000
        params_cp.all_solutions = False
        result_storage = solver.solve(parameters_cp=params_cp, verbose=True)
        one_mode_setting = result_storage[0]
        self.modes_dict = {}
        for i in range(len(one_mode_setting)):
            self.modes_dict[i + 1] = one_mode_setting[i]
    else:
        self.modes_dict = {t: 1 for t in self.mode_details}


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "PileSolverRCPSP.solve")
def _(self, **kwargs):
    greedy_choice = kwargs.get('greedy_choice', GreedyChoice.MOST_SUCCESSORS)
    verbose = kwargs.get('verbose', False)
    current_succ = {k: {'succs': set(self.successors_map[k]['succs']), 'nb': self.successors_map[k]['nb']} for k in self.successors_map}
    current_pred = {k: {'succs': set(self.predecessors_map[k]['succs']), 'nb': self.predecessors_map[k]['nb']} for k in self.predecessors_map}
    schedule = {}
    current_ressource_available = self.resources.copy()
    current_ressource_non_renewable = {nr: self.resources[nr] for nr in self.non_renewable}
    schedule[1] = {'start_time': 0, 'end_time': 0}
    available_activities = {n for n in current_pred if n not in schedule and current_pred[n]['nb'] == 0}
    available_activities.update({n for n in self.all_activities if n not in current_pred})
    for neighbor in current_pred:
        if 1 in current_pred[neighbor]['succs']:
            current_pred[neighbor]['succs'].remove(1)
            current_pred[neighbor]['nb'] -= 1
            if current_pred[neighbor]['nb'] == 0:
                available_activities.add(neighbor)
    if verbose:
        pass
    queue = []
    current_time = 0
    perm = []
    while len(schedule) < self.n_jobs + 2:
        if verbose:
            pass
        possible_activities = [n for n in available_activities if all((self.mode_details[n][self.modes_dict[n]][r] <= current_ressource_available[r] for r in current_ressource_available))]
        if verbose:
            pass
        while len(possible_activities) > 0:
            if greedy_choice == GreedyChoice.MOST_SUCCESSORS:
                next_activity = max(possible_activities, key=lambda x: current_succ[x]['nb'])
            if greedy_choice == GreedyChoice.SAMPLE_MOST_SUCCESSORS:
                prob = np.array([current_succ[possible_activities[i]]['nb'] for i in range(len(possible_activities))])
                s = np.sum(prob)
                if s != 0:
                    prob = prob / s
                else:
                    prob = 1.0 / len(possible_activities) * np.ones(len(possible_activities))
                next_activity = np.random.choice(np.arange(0, len(possible_activities)), size=1, p=prob)[0]
                next_activity = possible_activities[next_activity]
            if greedy_choice == GreedyChoice.FASTEST:
                next_activity = min(possible_activities, key=lambda x: self.mode_details[x][self.modes_dict[x]]['duration'])
            if greedy_choice == GreedyChoice.TOTALLY_RANDOM:
                next_activity = random.choice(possible_activities)
            available_activities.remove(next_activity)
            perm += [next_activity - 2]
            schedule[next_activity] = {}
            schedule[next_activity]['start_time'] = current_time
            schedule[next_activity]['end_time'] = current_time + self.mode_details[next_activity][self.modes_dict[next_activity]]['duration']
            push(queue, (schedule[next_activity]['end_time'], next_activity, 'end_'))
            for r in self.resources:
                current_ressource_available[r] -= self.mode_details[next_activity][self.modes_dict[next_activity]][r]
                if r in current_ressource_non_renewable:
                    current_ressource_non_renewable[r] -= self.mode_details[next_activity][self.modes_dict[next_activity]][r]
            if verbose:
                pass
            possible_activities = [n for n in available_activities if all((self.mode_details[n][self.modes_dict[n]][r] <= current_ressource_available[r] for r in current_ressource_available))]
        current_time, activity, descr = pop(queue)
        for neighbor in current_pred:
            if activity in current_pred[neighbor]['succs']:
                current_pred[neighbor]['succs'].remove(activity)
                current_pred[neighbor]['nb'] -= 1
                if current_pred[neighbor]['nb'] == 0:
                    available_activities.add(neighbor)
        for r in self.resources:
            if r not in current_ressource_non_renewable:
                current_ressource_available[r] += self.mode_details[activity][self.modes_dict[activity]][r]
    if verbose:
        pass
    sol = RCPSPSolution(problem=self.rcpsp_model, rcpsp_permutation=perm[:-1], rcpsp_schedule=schedule, rcpsp_modes=[self.modes_dict[i + 2] for i in range(self.n_jobs)], rcpsp_schedule_feasible=True)
    result_storage = ResultStorage(list_solution_fits=[(sol, self.aggreg_from_sol(sol))], best_solution=sol, mode_optim=self.params_objective_function.sense_function)
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "PileSolverRCPSP_Calendar.__init__")
def _(self, rcpsp_model, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.resources = rcpsp_model.resources
    self.non_renewable = rcpsp_model.non_renewable_resources
    self.n_jobs = rcpsp_model.n_jobs
    self.mode_details = rcpsp_model.mode_details
    self.graph = rcpsp_model.compute_graph()
    self.nx_graph = self.graph.to_networkx()
    self.successors_map = {}
    self.predecessors_map = {}
    successors = {n: nx.algorithms.descendants(self.nx_graph, n) for n in self.nx_graph.nodes()}
    self.source = 1
    self.sink = self.n_jobs + 2
    self.all_activities = set(range(1, self.n_jobs + 3))
    for k in successors:
        self.successors_map[k] = {'succs': successors[k], 'nb': len(successors[k])}
    predecessors = {n: nx.algorithms.ancestors(self.nx_graph, n) for n in self.nx_graph.nodes()}
    for k in predecessors:
        self.predecessors_map[k] = {'succs': predecessors[k], 'nb': len(predecessors[k])}
    self.aggreg_from_sol, self.aggreg_from_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)
    if isinstance(self.rcpsp_model, (MultiModeRCPSPModel, RCPSPModelCalendar)):
        solver = CP_MRCPSP_MZN_MODES(self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED)
        params_cp = ParametersCP.default()
        params_cp.time_limit = 1
        params_cp.pool_solutions = 10000
        params_cp.nr_solutions = 1000
        params_cp.all_solutions = False
        result_storage = solver.solve(parameters_cp=params_cp, verbose=True)
        one_mode_setting = result_storage[0]
        self.modes_dict = {}
        for i in range(len(one_mode_setting)):
            self.modes_dict[i + 1] = one_mode_setting[i]
    else:
        self.modes_dict = {t: 1 for t in self.mode_details}
    self.with_calendar = isinstance(self.rcpsp_model, RCPSPModelCalendar)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "Executor.__init__")
def _(self, rcpsp_model):
    super().__init__(rcpsp_model)
    self.immediate_predecessors = {n: list(self.nx_graph.predecessors(n)) for n in self.nx_graph.nodes()}
    self.immediate_successors = {n: list(self.nx_graph.neighbors(n)) for n in self.nx_graph.nodes()}


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "Executor.update")
def _(self, rcpsp_model):
    self.mode_details = rcpsp_model.mode_details
    self.resources = rcpsp_model.resources


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py", "Executor.compute_schedule_from_priority_list")
def _(self, permutation_jobs, modes_dict):
    current_pred = {k: {'succs': set(self.immediate_predecessors[k]), 'nb': len(self.immediate_predecessors[k])} for k in self.immediate_predecessors}
    schedule = {}
    current_ressource_available = self.resources.copy()
    current_ressource_non_renewable = {nr: self.resources[nr] for nr in self.non_renewable}
    schedule[1] = {'start_time': 0, 'end_time': 0}
    available_activities = {n for n in current_pred if n not in schedule and current_pred[n]['nb'] == 0}
    available_activities.update({n for n in self.all_activities if n not in current_pred})
    for neighbor in self.immediate_successors[1]:
        if 1 in current_pred[neighbor]['succs']:
            current_pred[neighbor]['succs'].remove(1)
            current_pred[neighbor]['nb'] -= 1
            if current_pred[neighbor]['nb'] == 0:
                available_activities.add(neighbor)
    permutation_jobs = [j for j in permutation_jobs if j != 1]
    queue = []
    current_time = 0
    perm = []
    while len(schedule) < self.n_jobs + 2:
        possible_activities = [n for n in available_activities if all((self.mode_details[n][modes_dict[n]][r] <= current_ressource_available[r] for r in current_ressource_available))]
        while len(possible_activities) > 0:
            next_activity = min(possible_activities, key=lambda x: permutation_jobs.index(x))
            available_activities.remove(next_activity)
            perm += [next_activity - 2]
            schedule[next_activity] = {}
            schedule[next_activity]['start_time'] = current_time
            schedule[next_activity]['end_time'] = current_time + self.mode_details[next_activity][modes_dict[next_activity]]['duration']
            permutation_jobs.remove(next_activity)
            push(queue, (schedule[next_activity]['end_time'], next_activity, 'end_'))
            for r in self.resources:
                current_ressource_available[r] -= self.mode_details[next_activity][modes_dict[next_activity]][r]
                if r in current_ressource_non_renewable:
                    current_ressource_non_renewable[r] -= self.mode_details[next_activity][modes_dict[next_activity]][r]
            possible_activities = [n for n in available_activities if all((self.mode_details[n][modes_dict[n]][r] <= current_ressource_available[r] for r in current_ressource_available))]
        current_time, activity, descr = pop(queue)
        for neighbor in self.immediate_successors[activity]:
            if activity in current_pred[neighbor]['succs']:
                current_pred[neighbor]['succs'].remove(activity)
                current_pred[neighbor]['nb'] -= 1
                if current_pred[neighbor]['nb'] == 0:
                    available_activities.add(neighbor)
        for r in self.resources:
            if r not in current_ressource_non_renewable:
                current_ressource_available[r] += self.mode_details[activity][modes_dict[activity]][r]
    sol = RCPSPSolution(problem=self.rcpsp_model, rcpsp_permutation=perm[:-1], rcpsp_schedule=schedule, rcpsp_modes=[modes_dict[i + 2] for i in range(self.n_jobs)], rcpsp_schedule_feasible=True)
    result_storage = ResultStorage(list_solution_fits=[(sol, self.aggreg_from_sol(sol))], best_solution=sol, mode_optim=self.params_objective_function.sense_function)
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py", "GA_RCPSP_Solver.__init__")
def _(self, rcpsp_model, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py", "GA_RCPSP_Solver.solve")
def _(self, parameters_ga=ParametersGa.default_rcpsp(), **args):
    ga_solver = Ga(self.rcpsp_model, encoding=parameters_ga.encoding, objective_handling=parameters_ga.objective_handling, objectives=parameters_ga.objectives, objective_weights=parameters_ga.objective_weights, mutation=parameters_ga.mutation, max_evals=parameters_ga.max_evals)
    return ga_solver.solve()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py", "GA_MRCPSP_Solver.__init__")
def _(self, rcpsp_model, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py", "GA_MRCPSP_Solver.solve")
def _(self, parameters_ga=ParametersAltGa.default_mrcpsp(), **args):
    ga_solver = AlternatingGa(self.rcpsp_model, encodings=parameters_ga.encodings, objective_handling=parameters_ga.objective_handling, objectives=parameters_ga.objectives, objective_weights=parameters_ga.objective_weights, mutations=parameters_ga.mutations, crossovers=parameters_ga.crossovers, max_evals=parameters_ga.max_evals, sub_evals=parameters_ga.sub_evals)
    return ga_solver.solve()


@spec("builders/discrete_optimization/rcpsp/solver/ls_solver.py", "LS_RCPSP_Solver.__init__")
def _(self, model, params_objective_function=None, ls_solver=LS_SOLVER.SA, **args):
    self.model = model
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.model, params_objective_function=params_objective_function)
    self.ls_solver = ls_solver


@spec("builders/discrete_optimization/rcpsp/solver/ls_solver.py", "LS_RCPSP_Solver.solve")
def _(self, **kwargs):
    model = self.model
    dummy = model.get_dummy_solution()
    if isinstance(model, MS_RCPSPModel):
        init = InitialSolutionMS_RCPSP(problem=self.model, initial_method=InitialMethodRCPSP.PILE_CALENDAR, params_objective_function=self.params_objective_function)
        sol = init.get_starting_solution()
        dummy = sol.get_best_solution()
    _, mutations = get_available_mutations(model, dummy)
    list_mutation = [mutate[0].build(model, dummy, **mutate[1]) for mutate in mutations if mutate[0] == PermutationMutationRCPSP]
    mixed_mutation = BasicPortfolioMutation(list_mutation, np.ones(len(list_mutation)))
    res = RestartHandlerLimit(200, cur_solution=dummy, cur_objective=model.evaluate(dummy))
    if self.ls_solver == LS_SOLVER.SA:
        ls = SimulatedAnnealing(evaluator=model, mutator=mixed_mutation, restart_handler=res, temperature_handler=TemperatureSchedulingFactor(temperature=2, restart_handler=res, coefficient=0.9999), mode_mutation=ModeMutation.MUTATE, params_objective_function=self.params_objective_function, store_solution=True, nb_solutions=10000)
    elif self.ls_solver == LS_SOLVER.HC:
        ls = HillClimber(evaluator=model, mutator=mixed_mutation, restart_handler=res, mode_mutation=ModeMutation.MUTATE, params_objective_function=self.params_objective_function, store_solution=True, nb_solutions=10000)
    result_sa = ls.solve(dummy, nb_iteration_max=kwargs.get('nb_iteration_max', 2000), pickle_result=False)
    return result_sa


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "RCPSPSolCP.__init__")
def _(self, objective, _output_item, **kwargs):
    self.objective = objective
    self.dict = kwargs


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "RCPSPSolCP.check")
def _(self):
    return True


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_RCPSP_MZN.__init__")
def _(self, rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['s']
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_RCPSP_MZN.init_model")
def _(self, **args):
    model_type = args.get('model_type', 'single')
    if model_type == 'single-preemptive':
        nb_preemptive = args.get('nb_preemptive', 2)
    model = Model(files_mzn[model_type])
    custom_output_type = args.get('output_type', False)
    if custom_output_type:
        model.output_type = RCPSPSolCP
        self.custom_output_type = True
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    instance = Instance(solver, model)
    if model_type == 'single-preemptive':
        instance['nb_preemptive'] = nb_preemptive
        instance['possibly_preemptive'] = [True for task in self.rcpsp_model.mode_details]
        instance['max_preempted'] = 3
    n_res = len(list(self.rcpsp_model.resources.keys()))
    instance['n_res'] = n_res
    sorted_resources = sorted(self.rcpsp_model.resources_list)
    self.resources_index = sorted_resources
    rc = [int(self.rcpsp_model.resources[r]) for r in sorted_resources]
    instance['rc'] = rc
    n_tasks = self.rcpsp_model.n_jobs + 2
    instance['n_tasks'] = n_tasks
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    d = [int(self.rcpsp_model.mode_details[key][1]['duration']) for key in sorted_tasks]
    instance['d'] = d
    rr = []
    index = 0
    for res in sorted_resources:
        rr.append([])
        for task in sorted_tasks:
            rr[index].append(int(self.rcpsp_model.mode_details[task][1][res]))
        index += 1
    instance['rr'] = rr
    suc = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
    instance['suc'] = suc
    self.instance = instance
    p_s = args.get('partial_solution', None)
    if p_s is not None:
        constraint_strings = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                string = 'constraint s[' + str(task) + '] == ' + str(p_s.start_times[task]) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                string = 'constraint s[' + str(t1) + '] <= s[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    string = 'constraint s[' + str(t1) + '] <= s[' + str(t2) + '];\n'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.start_together is not None:
            for t1, t2 in p_s.start_together:
                string = 'constraint s[' + str(t1) + '] == s[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_after_nunit is not None:
            for t1, t2, delta in p_s.start_after_nunit:
                string = 'constraint s[' + str(t2) + '] >= s[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end_plus_offset is not None:
            for t1, t2, delta in p_s.start_at_end_plus_offset:
                string = 'constraint s[' + str(t2) + '] >= s[' + str(t1) + ']+d[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end is not None:
            for t1, t2 in p_s.start_at_end:
                string = 'constraint s[' + str(t2) + '] == s[' + str(t1) + ']+d[' + str(t1) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_RCPSP_MZN.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    best_solution = None
    best_makespan = -float('inf')
    list_solutions_fit = []
    starts = []
    if intermediate_solutions:
        for i in range(len(result)):
            if isinstance(result[i], RCPSPSolCP):
                starts += [result[i].dict['s']]
            else:
                starts += [result[i, 's']]
    elif isinstance(result, RCPSPSolCP):
        starts += [result.dict['s']]
    else:
        starts = [result['s']]
    for start_times in starts:
        rcpsp_schedule = {}
        for k in range(len(start_times)):
            rcpsp_schedule[k + 1] = {'start_time': start_times[k], 'end_time': start_times[k] + self.rcpsp_model.mode_details[k + 1][1]['duration']}
        sol = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_schedule_feasible=True)
        objective = self.aggreg_from_dict_values(self.rcpsp_model.evaluate(sol))
        if objective > best_makespan:
            best_makespan = objective
            best_solution = sol.copy()
        list_solutions_fit += [(sol, objective)]
    result_storage = ResultStorage(list_solution_fits=list_solutions_fit, best_solution=best_solution, mode_optim=self.params_objective_function.sense_function, limit_store=False)
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_RCPSP_MZN.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    if self.instance is None:
        self.init_model(**args)
    timeout = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    try:
        result = self.instance.solve(timeout=timedelta(seconds=timeout), intermediate_solutions=intermediate_solutions)
    except Exception as e:
        return None
    verbose = args.get('verbose', False)
    if verbose:
        pass
    return self.retrieve_solutions(result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN.__init__")
def _(self, rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['start', 'mrun']
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)
    self.calendar = False
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        self.calendar = True


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN.init_model")
def _(self, **args):
    model_type = args.get('model_type', None)
    if model_type is None:
        model_type = 'multi' if not self.calendar else 'multi-calendar'
    model = Model(files_mzn[model_type])
    custom_output_type = args.get('output_type', False)
    if custom_output_type:
        model.output_type = RCPSPSolCP
        self.custom_output_type = True
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    resources_list = list(self.rcpsp_model.resources.keys())
    self.resources_index = resources_list
    instance = Instance(solver, model)
    n_res = len(resources_list)
    keys = []
    instance['n_res'] = n_res
    keys += ['n_res']
    n_tasks = self.rcpsp_model.n_jobs + 2
    instance['n_tasks'] = n_tasks
    keys += ['n_tasks']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    n_opt = sum([len(list(self.rcpsp_model.mode_details[key].keys())) for key in sorted_tasks])
    instance['n_opt'] = n_opt
    keys += ['n_opt']
    modes = []
    dur = []
    self.modeindex_map = {}
    general_counter = 1
    for act in sorted_tasks:
        tmp = sorted(self.rcpsp_model.mode_details[act].keys())
        set_mode_task = set()
        for i in range(len(tmp)):
            original_mode_index = tmp[i]
            set_mode_task.add(general_counter)
            self.modeindex_map[general_counter] = {'task': act, 'original_mode_index': original_mode_index}
            general_counter += 1
        modes.append(set_mode_task)
        dur = dur + [self.rcpsp_model.mode_details[act][key]['duration'] for key in tmp]
    instance['modes'] = modes
    keys += ['modes']
    instance['dur'] = dur
    keys += ['dur']
    rreq = []
    index = 0
    for res in resources_list:
        rreq.append([])
        for task in sorted_tasks:
            for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
        index += 1
    instance['rreq'] = rreq
    keys += ['rreq']
    if not self.calendar:
        rcap = [int(self.rcpsp_model.resources[x]) for x in resources_list]
    else:
        rcap = [int(max(self.rcpsp_model.resources[x])) for x in resources_list]
    instance['rcap'] = rcap
    keys += ['rcap']
    rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1 for res in resources_list]
    instance['rtype'] = rtype
    keys += ['rtype']
    succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
    instance['succ'] = succ
    keys += ['succ']
    if self.calendar:
        one_ressource = list(self.rcpsp_model.resources.keys())[0]
        instance['max_time'] = len(self.rcpsp_model.resources[one_ressource])
        keys += ['max_time']
        ressource_capacity_time = [[int(x) for x in self.rcpsp_model.resources[res]] for res in resources_list]
        instance['ressource_capacity_time'] = ressource_capacity_time
        keys += ['ressource_capacity_time']
    self.instance = instance
    p_s = args.get('partial_solution', None)
    if p_s is not None:
        constraint_strings = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                string = 'constraint start[' + str(task) + '] == ' + str(p_s.start_times[task]) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.task_mode is not None:
            for task in p_s.task_mode:
                indexes = [i for i in self.modeindex_map if self.modeindex_map[i]['task'] == task and self.modeindex_map[i]['original_mode_index'] == p_s.task_mode[task]]
                if len(indexes) >= 0:
                    string = 'constraint mrun[' + str(indexes[0]) + '] == 1;'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.start_together is not None:
            for t1, t2 in p_s.start_together:
                string = 'constraint start[' + str(t1) + '] == start[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_after_nunit is not None:
            for t1, t2, delta in p_s.start_after_nunit:
                string = 'constraint start[' + str(t2) + '] >= start[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end_plus_offset is not None:
            for t1, t2, delta in p_s.start_at_end_plus_offset:
                string = 'constraint start[' + str(t2) + '] >= start[' + str(t1) + ']+adur[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end is not None:
            for t1, t2 in p_s.start_at_end:
                string = 'constraint start[' + str(t2) + '] == start[' + str(t1) + ']+adur[' + str(t1) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    best_solution = None
    best_makespan = -float('inf')
    list_solutions_fit = []
    starts = []
    mruns = []
    if intermediate_solutions:
        for i in range(len(result)):
            if isinstance(result[i], RCPSPSolCP):
                starts += [result[i].dict['start']]
                mruns += [result[i].dict['mrun']]
            else:
                starts += [result[i, 'start']]
                mruns += [result[i, 'mrun']]
    elif isinstance(result, RCPSPSolCP):
        starts += [result.dict['start']]
        mruns += [result.dict['mrun']]
    else:
        starts = [result['start']]
        mruns = [result['mrun']]
    for start_times, mrun in zip(starts, mruns):
        modes = []
        for i in range(len(mrun)):
            if mrun[i] and self.modeindex_map[i + 1]['task'] != 1 and (self.modeindex_map[i + 1]['task'] != self.rcpsp_model.n_jobs + 2):
                modes.append(self.modeindex_map[i + 1]['original_mode_index'])
            elif self.modeindex_map[i + 1]['task'] == 1 or self.modeindex_map[i + 1]['task'] == self.rcpsp_model.n_jobs + 2:
                modes.append(1)
        rcpsp_schedule = {}
        for i in range(len(start_times)):
            rcpsp_schedule[i + 1] = {'start_time': start_times[i], 'end_time': start_times[i] + self.rcpsp_model.mode_details[i + 1][modes[i]]['duration']}
        sol = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_modes=modes[1:-1], rcpsp_schedule_feasible=True)
        objective = self.aggreg_from_dict_values(self.rcpsp_model.evaluate(sol))
        if objective > best_makespan:
            best_makespan = objective
            best_solution = sol.copy()
        list_solutions_fit += [(sol, objective)]
    result_storage = ResultStorage(list_solution_fits=list_solutions_fit, best_solution=best_solution, mode_optim=self.params_objective_function.sense_function, limit_store=False)
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    if self.instance is None:
        self.init_model(**args)
    timeout = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    result = self.instance.solve(timeout=timedelta(seconds=timeout), intermediate_solutions=intermediate_solutions)
    verbose = args.get('verbose', True)
    if verbose:
        pass
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "MRCPSP_Result.__init__")
def _(self, objective, _output_item, **kwargs):
    self.objective = objective
    self.dict = kwargs
    self.mode_chosen = json.loads(_output_item)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "MRCPSP_Result.check")
def _(self):
    return True


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_NOBOOL.__init__")
def _(self, rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['start', 'mrun']
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)
    self.calendar = False
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        self.calendar = True


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_NOBOOL.init_model")
def _(self, **args):
    model = Model(files_mzn['multi-no-bool'])
    model.output_type = MRCPSP_Result
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    resources_list = list(self.rcpsp_model.resources.keys())
    instance = Instance(solver, model)
    n_res = len(resources_list)
    keys = []
    instance['n_res'] = n_res
    keys += ['n_res']
    n_tasks = self.rcpsp_model.n_jobs + 2
    instance['n_tasks'] = n_tasks
    keys += ['n_tasks']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    n_opt = sum([len(list(self.rcpsp_model.mode_details[key].keys())) for key in sorted_tasks])
    instance['n_opt'] = n_opt
    keys += ['n_opt']
    modes = []
    dur = []
    counter = 0
    self.modeindex_map = {}
    general_counter = 1
    for act in sorted_tasks:
        tmp = sorted(self.rcpsp_model.mode_details[act].keys())
        set_mode_task = set()
        for i in range(len(tmp)):
            original_mode_index = tmp[i]
            set_mode_task.add(general_counter)
            self.modeindex_map[general_counter] = {'task': act, 'original_mode_index': original_mode_index}
            general_counter += 1
        modes.append(set_mode_task)
        dur = dur + [self.rcpsp_model.mode_details[act][key]['duration'] for key in tmp]
    instance['modes'] = modes
    keys += ['modes']
    instance['dur'] = dur
    keys += ['dur']
    rreq = []
    index = 0
    for res in resources_list:
        rreq.append([])
        for task in sorted_tasks:
            for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
        index += 1
    instance['rreq'] = rreq
    keys += ['rreq']
    if not self.calendar:
        rcap = [self.rcpsp_model.resources[x] for x in resources_list]
    else:
        rcap = [int(max(self.rcpsp_model.resources[x])) for x in resources_list]
    instance['rcap'] = rcap
    keys += ['rcap']
    rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1 for res in resources_list]
    instance['rtype'] = rtype
    keys += ['rtype']
    succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
    instance['succ'] = succ
    keys += ['succ']
    if self.calendar:
        one_ressource = list(self.rcpsp_model.resources.keys())[0]
        instance['max_time'] = len(self.rcpsp_model.resources[one_ressource])
        keys += ['max_time']
        ressource_capacity_time = [[int(x) for x in self.rcpsp_model.resources[res]] for res in resources_list]
        instance['ressource_capacity_time'] = ressource_capacity_time
        keys += ['ressource_capacity_time']
    self.instance = instance
    p_s = args.get('partial_solution', None)
    if p_s is not None:
        constraint_strings = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                string = 'constraint start[' + str(task) + '] == ' + str(p_s.start_times[task]) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.task_mode is not None:
            for task in p_s.task_mode:
                indexes = [i for i in self.modeindex_map if self.modeindex_map[i]['task'] == task and self.modeindex_map[i]['original_mode_index'] == p_s.task_mode[task]]
                if len(indexes) >= 0:
                    string = 'constraint mrun[' + str(indexes[0]) + '] == 1;'
                    self.instance.add_string(string)
                    constraint_strings += [string]


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_NOBOOL.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    best_solution = None
    best_makespan = -float('inf')
    list_solutions_fit = []
    starts = []
    mruns = []
    object_result = []
    if intermediate_solutions:
        for i in range(len(result)):
            object_result += [result[i]]
    else:
        object_result += [result]
    for res in object_result:
        modes = []
        for j in range(len(res.mode_chosen)):
            if self.modeindex_map[j + 1]['task'] != 1 and self.modeindex_map[j + 1]['task'] != self.rcpsp_model.n_jobs + 2:
                modes.append(self.modeindex_map[res.mode_chosen[j]]['original_mode_index'])
            elif self.modeindex_map[j + 1]['task'] == 1 or self.modeindex_map[j + 1]['task'] == self.rcpsp_model.n_jobs + 2:
                modes.append(1)
        rcpsp_schedule = {}
        start_times = res.dict['start']
        for i in range(len(start_times)):
            rcpsp_schedule[i + 1] = {'start_time': start_times[i], 'end_time': start_times[i] + self.rcpsp_model.mode_details[i + 1][modes[i]]['duration']}
        sol = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_modes=modes[1:-1], rcpsp_schedule_feasible=True)
        objective = self.aggreg_from_dict_values(self.rcpsp_model.evaluate(sol))
        if objective > best_makespan:
            best_makespan = objective
            best_solution = sol.copy()
        list_solutions_fit += [(sol, objective)]
    result_storage = ResultStorage(list_solution_fits=list_solutions_fit, best_solution=best_solution, mode_optim=self.params_objective_function.sense_function, limit_store=False)
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_NOBOOL.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    if self.instance is None:
        self.init_model(**args)
    timeout = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    result = self.instance.solve(timeout=timedelta(seconds=timeout), intermediate_solutions=intermediate_solutions)
    verbose = args.get('verbose', True)
    if verbose:
        pass
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_MODES.__init__")
def _(self, rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None):
    self.rcpsp_model = rcpsp_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['start', 'mrun']
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_MODES.init_model")
def _(self, **args):
    model = Model(files_mzn['modes'])
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    instance = Instance(solver, model)
    n_res = len(list(self.rcpsp_model.resources.keys()))
    instance['n_res'] = n_res
    n_tasks = self.rcpsp_model.n_jobs + 2
    instance['n_tasks'] = n_tasks
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    n_opt = sum([len(list(self.rcpsp_model.mode_details[key].keys())) for key in sorted_tasks])
    instance['n_opt'] = n_opt
    modes = []
    counter = 0
    self.modeindex_map = {}
    for act in sorted_tasks:
        tmp = sorted(self.rcpsp_model.mode_details[act].keys())
        for i in range(len(tmp)):
            original_mode_index = tmp[i]
            mod_index = counter + i + 1
            tmp[i] = mod_index
            self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
        modes.append(set(tmp))
        counter = tmp[-1]
    instance['modes'] = modes
    rreq = []
    index = 0
    for res in self.rcpsp_model.resources.keys():
        rreq.append([])
        for task in sorted_tasks:
            for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
        index += 1
    instance['rreq'] = rreq
    rcap = [val for val in self.rcpsp_model.resources.values()]
    if isinstance(rcap[0], list):
        rcap = [int(max(r)) for r in rcap]
    instance['rcap'] = rcap
    rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1 for res in self.rcpsp_model.resources.keys()]
    instance['rtype'] = rtype
    self.instance = instance
    p_s = args.get('partial_solution', None)
    if p_s is not None:
        constraint_strings = []
        if p_s.task_mode is not None:
            for task in p_s.task_mode:
                indexes = [i for i in self.modeindex_map if self.modeindex_map[i]['task'] == task and self.modeindex_map[i]['original_mode_index'] == p_s.task_mode[task]]
                if len(indexes) >= 0:
                    string = 'constraint mrun[' + str(indexes[0]) + '] == 1;'
                    self.instance.add_string(string)
                    constraint_strings += [string]


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_MODES.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    best_solution = None
    best_makespan = -float('inf')
    list_solutions_fit = []
    mruns = []
    if intermediate_solutions:
        for i in range(len(result)):
            mruns += [result[i, 'mrun']]
    else:
        mruns += [result['mrun']]
    all_modes = []
    for mrun in mruns:
        modes = [1] * (self.rcpsp_model.n_jobs + 2)
        for i in range(len(mrun)):
            if mrun[i] == 1 and self.modeindex_map[i + 1]['task'] != 1 and (self.modeindex_map[i + 1]['task'] != self.rcpsp_model.n_jobs + 2):
                modes[self.modeindex_map[i + 1]['task'] - 1] = self.modeindex_map[i + 1]['original_mode_index']
        all_modes += [modes]
    return all_modes


@spec("builders/discrete_optimization/rcpsp/solver/cp_solvers.py", "CP_MRCPSP_MZN_MODES.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    if self.instance is None:
        self.init_model(**args)
    timeout = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    result = self.instance.solve(timeout=timedelta(seconds=timeout), nr_solutions=parameters_cp.nr_solutions if not parameters_cp.all_solutions else None, all_solutions=parameters_cp.all_solutions, intermediate_solutions=intermediate_solutions)
    verbose = args.get('verbose', False)
    if verbose:
        pass
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerStartTimeInterval_CP.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2, delta_time_from_makepan_to_not_fix=5):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta
    self.delta_time_from_makepan_to_not_fix = delta_time_from_makepan_to_not_fix


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerStartTimeInterval_CP.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    constraints_dict = {}
    current_solution, fit = result_storage.get_best_solution_fit()
    max_time = max([current_solution.rcpsp_schedule[x]['end_time'] for x in current_solution.rcpsp_schedule])
    last_jobs = [x for x in current_solution.rcpsp_schedule if current_solution.rcpsp_schedule[x]['end_time'] >= max_time - self.delta_time_from_makepan_to_not_fix]
    nb_jobs = self.problem.n_jobs + 2
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    list_strings = []
    for job in jobs_to_fix:
        start_time_j = current_solution.rcpsp_schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        if isinstance(cp_solver, CP_RCPSP_MZN):
            string1 = 'constraint s[' + str(job) + '] <= ' + str(max_st) + ';\n'
            string2 = 'constraint s[' + str(job) + '] >= ' + str(min_st) + ';\n'
        elif isinstance(cp_solver, CP_MRCPSP_MZN):
            string1 = 'constraint start[' + str(job) + '] <= ' + str(max_st) + ';\n'
            string2 = 'constraint start[' + str(job) + '] >= ' + str(min_st) + ';\n'
        list_strings += [string1]
        list_strings += [string2]
        child_instance.add_string(string1)
        child_instance.add_string(string2)
    for job in current_solution.rcpsp_schedule:
        if isinstance(cp_solver, CP_RCPSP_MZN):
            string = 'constraint s[' + str(job) + '] <= ' + str(max_time + 50) + ';\n'
        if isinstance(cp_solver, CP_MRCPSP_MZN):
            string = 'constraint start[' + str(job) + '] <= ' + str(max_time + 50) + ';\n'
        child_instance.add_string(string)
    return list_strings


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerByPart_CP.__init__")
def _(self, problem, fraction_to_fix=0.9, nb_cut_part=10, minus_delta=2, plus_delta=2, delta_time_from_makepan_to_not_fix=5):
    self.fraction_to_fix = fraction_to_fix
    self.problem = problem
    self.nb_cut_part = nb_cut_part
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta
    self.delta_time_from_makepan_to_not_fix = delta_time_from_makepan_to_not_fix
    self.current_sub_part = 0


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerByPart_CP.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    constraints_dict = {}
    current_solution, fit = result_storage.get_best_solution_fit()
    max_time = max([current_solution.rcpsp_schedule[x]['end_time'] for x in current_solution.rcpsp_schedule])
    delta_t = max_time / self.nb_cut_part
    task_of_interest = [t for t in current_solution.rcpsp_schedule if delta_t * self.current_sub_part <= current_solution.rcpsp_schedule[t]['start_time'] <= delta_t * (self.current_sub_part + 1)]
    last_jobs = [x for x in current_solution.rcpsp_schedule if current_solution.rcpsp_schedule[x]['end_time'] >= max_time - self.delta_time_from_makepan_to_not_fix]
    nb_jobs = self.problem.n_jobs + 2
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    for t in task_of_interest:
        if t in jobs_to_fix:
            jobs_to_fix.remove(t)
    list_strings = []
    for job in jobs_to_fix:
        start_time_j = current_solution.rcpsp_schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        if isinstance(cp_solver, CP_RCPSP_MZN):
            string1 = 'constraint s[' + str(job) + '] <= ' + str(max_st) + ';\n'
            string2 = 'constraint s[' + str(job) + '] >= ' + str(min_st) + ';\n'
        elif isinstance(cp_solver, CP_MRCPSP_MZN):
            string1 = 'constraint start[' + str(job) + '] <= ' + str(max_st) + ';\n'
            string2 = 'constraint start[' + str(job) + '] >= ' + str(min_st) + ';\n'
        list_strings += [string1]
        list_strings += [string2]
        child_instance.add_string(string1)
        child_instance.add_string(string2)
    for job in current_solution.rcpsp_schedule:
        if isinstance(cp_solver, CP_RCPSP_MZN):
            string = 'constraint s[' + str(job) + '] <= ' + str(max_time + 50) + ';\n'
        if isinstance(cp_solver, CP_MRCPSP_MZN):
            string = 'constraint start[' + str(job) + '] <= ' + str(max_time + 50) + ';\n'
        child_instance.add_string(string)
    self.current_sub_part = (self.current_sub_part + 1) % self.nb_cut_part
    return list_strings


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "Params.__init__")
def _(self, fraction_to_fix=0.9, minus_delta=2, plus_delta=2, delta_time_from_makepan_to_not_fix=5):
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta
    self.delta_time_from_makepan_to_not_fix = delta_time_from_makepan_to_not_fix


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerMix.__init__")
def _(self, problem, list_params, list_proba):
    self.problem = problem
    self.list_params = list_params
    self.list_proba = list_proba
    if isinstance(self.list_proba, list):
        self.list_proba = np.array(self.list_proba)
    self.list_proba = self.list_proba / np.sum(self.list_proba)
    self.index_np = np.array(range(len(self.list_proba)), dtype=int)
    self.current_iteration = 0
    self.status = {i: {'nb_usage': 0, 'nb_improvement': 0} for i in range(len(self.list_params))}
    self.last_index_param = None
    self.last_fitness = None


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "ConstraintHandlerMix.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    new_fitness = result_storage.get_best_solution_fit()[1]
    if self.last_index_param is not None:
        if new_fitness != self.last_fitness:
            self.status[self.last_index_param]['nb_improvement'] += 1
            self.last_fitness = new_fitness
            self.list_proba[self.last_index_param] *= 1.05
            self.list_proba = self.list_proba / np.sum(self.list_proba)
        else:
            self.list_proba[self.last_index_param] *= 0.95
            self.list_proba = self.list_proba / np.sum(self.list_proba)
    else:
        self.last_fitness = new_fitness
    if random.random() <= 0.95:
        choice = np.random.choice(self.index_np, size=1, p=self.list_proba)[0]
    else:
        max_improvement = max([self.status[x]['nb_improvement'] / max(self.status[x]['nb_usage'], 1) for x in self.status])
        choice = random.choice([x for x in self.status if self.status[x]['nb_improvement'] / max(self.status[x]['nb_usage'], 1) == max_improvement])
    d_params = {key: getattr(self.list_params[int(choice)], key) for key in self.list_params[0].__dict__.keys()}
    ch = ConstraintHandlerStartTimeInterval_CP(problem=self.problem, **d_params)
    self.current_iteration += 1
    self.last_index_param = choice
    self.status[self.last_index_param]['nb_usage'] += 1
    return ch.adding_constraint_from_results_store(cp_solver, child_instance, result_storage)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "build_neighbor_operator")
def _(option_neighbor, rcpsp_model):
    params_om = [Params(fraction_to_fix=0.75, minus_delta=100, plus_delta=100)]
    params_all = [Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.85, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4), Params(fraction_to_fix=0.92, minus_delta=10, plus_delta=0), Params(fraction_to_fix=0.88, minus_delta=0, plus_delta=10), Params(fraction_to_fix=0.9, minus_delta=10, plus_delta=0), Params(fraction_to_fix=0.8, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=15, plus_delta=15), Params(fraction_to_fix=0.9, minus_delta=3, plus_delta=3), Params(fraction_to_fix=1.0, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2), Params(fraction_to_fix=0.98, minus_delta=2, plus_delta=2), Params(fraction_to_fix=0.9, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.98, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.98, minus_delta=8, plus_delta=8), Params(fraction_to_fix=0.98, minus_delta=10, plus_delta=10)]
    params_fast = [Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.8, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1), Params(fraction_to_fix=0.92, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.98, minus_delta=7, plus_delta=7), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5)]
    params_debug = [Params(fraction_to_fix=1.0, minus_delta=0, plus_delta=0)]
    params_large = [Params(fraction_to_fix=0.9, minus_delta=12, plus_delta=12), Params(fraction_to_fix=0.8, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.7, minus_delta=12, plus_delta=12), Params(fraction_to_fix=0.7, minus_delta=5, plus_delta=5), Params(fraction_to_fix=0.6, minus_delta=3, plus_delta=3), Params(fraction_to_fix=0.4, minus_delta=2, plus_delta=2), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4), Params(fraction_to_fix=0.7, minus_delta=4, plus_delta=4), Params(fraction_to_fix=0.8, minus_delta=5, plus_delta=5)]
    params = None
    if option_neighbor == OptionNeighbor.MIX_ALL:
        params = params_all
    if option_neighbor == OptionNeighbor.MIX_FAST:
        params = params_fast
    if option_neighbor == OptionNeighbor.MIX_LARGE_NEIGH:
        params = params_large
    if option_neighbor == OptionNeighbor.DEBUG:
        params = params_debug
    if option_neighbor == OptionNeighbor.OM:
        params = params_om
    probas = [1 / len(params)] * len(params)
    constraint_handler = ConstraintHandlerMix(problem=rcpsp_model, list_params=params, list_proba=probas)
    return constraint_handler


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "LNS_CP_RCPSP_SOLVER.__init__")
def _(self, rcpsp_model, option_neighbor=OptionNeighbor.MIX_ALL, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.solver = CP_MRCPSP_MZN(rcpsp_model=self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED)
    self.solver.init_model(output_type=True)
    self.parameters_cp = ParametersCP.default()
    params_objective_function = get_default_objective_setup(problem=self.rcpsp_model)
    self.constraint_handler = build_neighbor_operator(option_neighbor=option_neighbor, rcpsp_model=self.rcpsp_model)
    self.initial_solution_provider = InitialSolutionRCPSP(problem=self.rcpsp_model, initial_method=InitialMethodRCPSP.PILE, params_objective_function=params_objective_function)
    self.lns_solver = LNS_CP(problem=self.rcpsp_model, cp_solver=self.solver, initial_solution_provider=self.initial_solution_provider, constraint_handler=self.constraint_handler, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py", "LNS_CP_RCPSP_SOLVER.solve")
def _(self, **kwargs):
    return self.lns_solver.solve_lns(parameters_cp=kwargs.get('parameters_cp', self.parameters_cp), max_time_seconds=kwargs.get('max_time_seconds', 1000), nb_iteration_no_improvement=kwargs.get('nb_iteration_no_improvement', 100), nb_iteration_lns=kwargs.get('nb_iteration_lns', 100))


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "get_ressource_breaks")
def _(problem_calendar, problem_no_calendar, solution):
    ressources = problem_calendar.resources
    ressource_arrays = {}
    ressource_arrays_usage = {}
    for r in ressources:
        ressource_arrays[r] = np.zeros(len(problem_calendar.resources[r]))
        ressource_arrays_usage[r] = np.zeros((len(problem_calendar.resources[r]), len(solution.rcpsp_schedule)))
    sorted_keys_schedule = sorted(solution.rcpsp_schedule.keys())
    for ji in range(len(sorted_keys_schedule)):
        j = sorted_keys_schedule[ji]
        for r in problem_calendar.mode_details[j][1]:
            if r == 'duration':
                continue
            if r is None:
                continue
            if r == 'None':
                continue
            if problem_calendar.mode_details[j][1][r] == 0:
                continue
            if solution.rcpsp_schedule[j]['end_time'] == solution.rcpsp_schedule[j]['start_time']:
                continue
            ressource_arrays_usage[r][int(solution.rcpsp_schedule[j]['start_time']):int(solution.rcpsp_schedule[j]['end_time']), ji] = 1
            ressource_arrays[r][int(solution.rcpsp_schedule[j]['start_time']):int(solution.rcpsp_schedule[j]['end_time'])] += problem_calendar.mode_details[j][1][r]
    index_ressource = {}
    task_concerned = {}
    constraints = {}
    for r in ressource_arrays:
        index = np.argwhere(ressource_arrays[r] > problem_calendar.resources[r])
        index_ressource[r] = index
        task_concerned[r] = [j for j in range(ressource_arrays_usage[r].shape[1]) if any((ressource_arrays_usage[r][ind[0], j] == 1 for ind in index if problem_calendar.resources[r][ind[0]] == 0))]
        task_concerned[r] = [sorted_keys_schedule[rr] for rr in task_concerned[r]]
        constraints[r] = {}
        for t in task_concerned[r]:
            current_start = solution.rcpsp_schedule[t]['start_time']
            first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources[r])) if problem_calendar.resources[r][st] >= problem_calendar.mode_details[t][1][r]), None)
            first_possible_start_before = next((st for st in range(current_start, -1, -1) if problem_calendar.resources[r][st] >= problem_calendar.mode_details[t][1][r]), None)
            constraints[r][t] = (first_possible_start_before, first_possible_start_future)
    return (index_ressource, constraints)


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "PostProcessSolutionNonFeasible.__init__")
def _(self, problem_calendar, problem_no_calendar, partial_solution=None):
    self.problem_calendar = problem_calendar
    self.problem_no_calendar = problem_no_calendar
    self.partial_solution = partial_solution
    if self.partial_solution is None:

        def check_solution(problem, solution):
            return True
    else:

        def check_solution(problem, solution):
            start_together = partial_solution.start_together
            start_at_end = partial_solution.start_at_end
            start_at_end_plus_offset = partial_solution.start_at_end_plus_offset
            start_after_nunit = partial_solution.start_after_nunit
            for t1, t2 in start_together:
                b = solution.rcpsp_schedule[t1]['start_time'] == solution.rcpsp_schedule[t2]['start_time']
                if not b:
                    return False
            for t1, t2 in start_at_end:
                b = solution.rcpsp_schedule[t2]['start_time'] == solution.rcpsp_schedule[t1]['end_time']
                if not b:
                    return False
            for t1, t2, off in start_at_end_plus_offset:
                b = solution.rcpsp_schedule[t2]['start_time'] >= solution.rcpsp_schedule[t1]['end_time'] + off
                if not b:
                    return False
            for t1, t2, off in start_after_nunit:
                b = solution.rcpsp_schedule[t2]['start_time'] >= solution.rcpsp_schedule[t1]['start_time'] + off
                if not b:
                    return False
            return True
    self.check_sol = check_solution


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "PostProcessSolutionNonFeasible.build_other_solution")
def _(self, result_storage):
    for sol in result_storage.list_solution_fits:
        if 'satisfy' not in sol[0].__dict__.keys():
            rb, constraints = get_ressource_breaks(self.problem_calendar, self.problem_no_calendar, sol[0])
            sol[0].satisfy = not any((len(rb[r]) > 0 for r in rb))
            sol[0].constraints = constraints
        if sol[0].satisfy is False:
            if self.partial_solution is None:
                solution = RCPSPSolution(problem=self.problem_calendar, rcpsp_permutation=sol[0].rcpsp_permutation, rcpsp_modes=sol[0].rcpsp_modes)
                solution.satisfy = self.check_sol(self.problem_calendar, solution)
                result_storage.list_solution_fits += [(solution, -self.problem_calendar.evaluate(solution)['makespan'])]
    return result_storage


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "ConstraintHandlerAddCalendarConstraint.__init__")
def _(self, problem_calendar, problem_no_calendar, other_constraint):
    self.problem_calendar = problem_calendar
    self.problem_no_calendar = problem_no_calendar
    self.other_constraint = other_constraint


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "ConstraintHandlerAddCalendarConstraint.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    solution, fit = result_storage.get_best_solution_fit()
    if 'satisfy' in solution.__dict__.keys() and solution.satisfy:
        return self.other_constraint.adding_constraint_from_results_store(cp_solver, child_instance, result_storage)
    ressource_breaks, constraints = get_ressource_breaks(self.problem_calendar, self.problem_no_calendar, solution)
    list_strings = []
    max_time = max([solution.rcpsp_schedule[x]['end_time'] for x in solution.rcpsp_schedule])
    tasks = sorted(self.problem_calendar.mode_details.keys())
    for r in constraints:
        for t in constraints[r]:
            index = tasks.index(t)
            s = None
            if isinstance(cp_solver, CP_MRCPSP_MZN):
                if constraints[r][t][0] is not None and constraints[r][t][1] is not None:
                    s = 'constraint start[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ' \\/ start[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is None and constraints[r][t][1] is not None:
                    s = 'constraint start[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is not None and constraints[r][t][1] is None:
                    s = 'constraint start[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ';\n'
            elif isinstance(cp_solver, CP_RCPSP_MZN):
                if constraints[r][t][0] is not None and constraints[r][t][1] is not None:
                    s = 'constraint s[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ' \\/ s[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is None and constraints[r][t][1] is not None:
                    s = 'constraint s[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is not None and constraints[r][t][1] is None:
                    s = 'constraint s[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ';\n'
            if s is not None:
                child_instance.add_string(s)
                list_strings += [s]
    for r in ressource_breaks:
        index_ressource = cp_solver.resources_index.index(r)
        for index in ressource_breaks[r]:
            if random.random() < 0.1:
                continue
            ind = index[0]
            rq = self.problem_calendar.resources[r][ind]
            if isinstance(cp_solver, CP_MRCPSP_MZN):
                s = 'constraint ' + str(rq) + '>=sum( i in Act ) (\n                                    bool2int(start[i] <=' + str(ind) + ' /\\ ' + str(ind) + '< start[i] + adur[i]) * arreq[' + str(index_ressource + 1) + ',i]);\n'
            elif isinstance(cp_solver, CP_RCPSP_MZN):
                s = 'constraint ' + str(rq) + '>=sum( i in Tasks ) (\n                                                        bool2int(s[i] <=' + str(ind) + ' /\\ ' + str(ind) + '< s[i] + d[i]) * rr[' + str(index_ressource + 1) + ',i]);\n'
            child_instance.add_string(s)
            list_strings += [s]
    satisfiable = [(s, f) for s, f in result_storage.list_solution_fits if 'satisfy' in s.__dict__.keys() and s.satisfy]
    if len(satisfiable) > 0:
        res = ResultStorage(list_solution_fits=satisfiable, mode_optim=result_storage.mode_optim)
        self.other_constraint.adding_constraint_from_results_store(cp_solver, child_instance, res)
    return ['req'] + list_strings


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "SolverWithCalendarIterative.__init__")
def _(self, problem_calendar, partial_solution=None, **kwargs):
    self.problem_calendar = problem_calendar
    if not isinstance(problem_calendar, RCPSPModelCalendar):
        self.problem_calendar = RCPSPModelCalendar(resources={r: [problem_calendar.resources[r]] * problem_calendar.horizon for r in problem_calendar.resources}, non_renewable_resources=self.problem_calendar.non_renewable_resources, mode_details=self.problem_calendar.mode_details, successors=self.problem_calendar.successors, horizon=self.problem_calendar.horizon)
    self.problem_no_calendar = RCPSPModel(resources={r: int(max(self.problem_calendar.resources[r])) for r in self.problem_calendar.resources}, non_renewable_resources=self.problem_calendar.non_renewable_resources, mode_details=self.problem_calendar.mode_details, successors=self.problem_calendar.successors, horizon=self.problem_calendar.horizon, name_task=self.problem_calendar.name_task)
    solver = CP_MRCPSP_MZN(rcpsp_model=self.problem_no_calendar, cp_solver_name=CPSolverName.CHUFFED)
    solver.init_model(output_type=True, model_type='multi', partial_solution=partial_solution)
    parameters_cp = ParametersCP.default()
    parameters_cp.TimeLimit = 500
    parameters_cp.TimeLimit_iter0 = 500
    params_objective_function = get_default_objective_setup(problem=self.problem_no_calendar)
    constraint_handler = ConstraintHandlerStartTimeInterval_CP(problem=self.problem_no_calendar, fraction_to_fix=0.99, minus_delta=10, plus_delta=10, delta_time_from_makepan_to_not_fix=5)
    constraint_handler = build_neighbor_operator(option_neighbor=OptionNeighbor.MIX_LARGE_NEIGH, rcpsp_model=self.problem_no_calendar)
    constraint_handler = ConstraintHandlerAddCalendarConstraint(self.problem_calendar, self.problem_no_calendar, constraint_handler)
    initial_solution_provider = InitialSolutionRCPSP(problem=self.problem_calendar, initial_method=InitialMethodRCPSP.PILE_CALENDAR, params_objective_function=params_objective_function)
    self.initial_solution_provider = initial_solution_provider
    self.constraint_handler = constraint_handler
    self.params_objective_function = params_objective_function
    self.cp_solver = solver
    self.post_process_solution = PostProcessSolutionNonFeasible(self.problem_calendar, self.problem_no_calendar, partial_solution=partial_solution)


@spec("builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py", "SolverWithCalendarIterative.solve")
def _(self, parameters_cp, nb_iteration_lns, nb_iteration_no_improvement=None, max_time_seconds=None, skip_first_iteration=False, **args):
    sense = self.params_objective_function.sense_function
    if max_time_seconds is None:
        max_time_seconds = 3600 * 24
    if nb_iteration_no_improvement is None:
        nb_iteration_no_improvement = 2 * nb_iteration_lns
    current_nb_iteration_no_improvement = 0
    deb_time = time.time()
    if not skip_first_iteration:
        store_lns = self.initial_solution_provider.get_starting_solution()
        store_lns = self.post_process_solution.build_other_solution(store_lns)
        store_with_all = ResultStorage(list(store_lns.list_solution_fits), mode_optim=store_lns.mode_optim)
        init_solution, objective = store_lns.get_best_solution_fit()
        best_solution = init_solution.copy()
        satisfy = self.problem_calendar.satisfy(init_solution)
        best_objective = objective
    else:
        best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
        best_solution = None
        constraint_iterable = {'empty': []}
        store_lns = None
        store_with_all = None
    constraint_to_keep = set()
    for iteration in range(nb_iteration_lns):
        try:
            pass
        except:
            pass
        with self.cp_solver.instance.branch() as child:
            if iteration == 0 and (not skip_first_iteration) or iteration >= 1:
                for c in constraint_to_keep:
                    child.add_string(c)
                constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(cp_solver=self.cp_solver, child_instance=child, result_storage=store_lns)
                if len(constraint_iterable) > 0:
                    if constraint_iterable[0] == 'req':
                        constraint_to_keep.update(set([c for c in constraint_iterable[1:]]))
            if True:
                if iteration == 0:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit_iter0), intermediate_solutions=parameters_cp.intermediate_solution)
                else:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit), intermediate_solutions=parameters_cp.intermediate_solution)
                result_store = self.cp_solver.retrieve_solutions(result, parameters_cp=parameters_cp)
                if len(result_store.list_solution_fits) > 0:
                    bsol, fit = result_store.get_best_solution_fit()
                    result_store = self.post_process_solution.build_other_solution(result_store)
                    bsol, fit = result_store.get_best_solution_fit()
                    if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
                        if fit > best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MAXIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                        if fit < best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MINIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    if skip_first_iteration and iteration == 0:
                        store_lns = result_store
                        store_with_all = ResultStorage(list_solution_fits=list(store_lns.list_solution_fits), mode_optim=store_lns.mode_optim)
                    store_lns = result_store
                    for s, f in store_lns.list_solution_fits:
                        store_with_all.list_solution_fits += [(s, f)]
                    for s, f in store_with_all.list_solution_fits:
                        store_lns.list_solution_fits += [(s, f)]
                else:
                    current_nb_iteration_no_improvement += 1
                if skip_first_iteration and result.status == Status.OPTIMAL_SOLUTION and (iteration == 0) and best_solution.satisfy:
                    break
            else:
                current_nb_iteration_no_improvement += 1
            if time.time() - deb_time > max_time_seconds:
                break
            if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
                break
    return store_with_all


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_RCPSP.__init__")
def _(self, rcpsp_model, lp_solver=LP_RCPSP_Solver.CBC, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.model = None
    self.lp_solver = CBC
    if lp_solver == LP_RCPSP_Solver.GRB:
        self.lp_solver = GRB
    elif lp_solver == LP_RCPSP_Solver.CBC:
        self.lp_solver = CBC
    self.variable_decision = {}
    self.constraints_dict = {}
    self.constraints_dict['lns'] = []
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_RCPSP.init_model")
def _(self, **args):
    greedy_start = args.get('greedy_start', True)
    start_solution = args.get('start_solution', None)
    verbose = args.get('verbose', False)
    if start_solution is None:
        if greedy_start:
            if verbose:
                pass
            greedy_solver = PileSolverRCPSP(self.rcpsp_model)
            store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
            self.start_solution = store_solution.get_best_solution_fit()[0]
            makespan = self.rcpsp_model.evaluate(self.start_solution)['makespan']
        else:
            if verbose:
                pass
            solution = self.rcpsp_model.get_dummy_solution()
            self.start_solution = solution
            makespan = self.rcpsp_model.evaluate(solution)['makespan']
    else:
        self.start_solution = start_solution
        makespan = self.rcpsp_model.evaluate(start_solution)['makespan']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    p = [int(self.rcpsp_model.mode_details[key][1]['duration']) for key in sorted_tasks]
    u = []
    for task in sorted_tasks:
        tmp = []
        for r in self.rcpsp_model.resources.keys():
            tmp.append(self.rcpsp_model.mode_details[task][1][r])
        u.append(tmp)
    c = [x for x in self.rcpsp_model.resources.values()]
    S = []
    for task in sorted_tasks:
        for suc in self.rcpsp_model.successors[task]:
            S.append([task - 1, suc - 1])
    R, self.J, self.T = (range(len(c)), range(len(p)), range(sum(p)))
    self.T = range(int(makespan + 1))
    self.model = Model(sense=MINIMIZE, solver_name=self.lp_solver)
    self.x = [[self.model.add_var(name='x({},{})'.format(j, t), var_type=BINARY) for t in self.T] for j in self.J]
    self.model.objective = xsum((self.x[len(self.J) - 1][t] * t for t in self.T))
    for j in self.J:
        self.model += xsum((self.x[j][t] for t in self.T)) == 1
    for r, t in product(R, self.T):
        self.model += xsum((u[j][r] * self.x[j][t2] for j in self.J for t2 in range(max(0, t - p[j] + 1), t + 1))) <= c[r]
    for j, s in S:
        self.model += xsum((t * self.x[s][t] - t * self.x[j][t] for t in self.T)) >= p[j]
    start = []
    for j in self.J:
        for t in self.T:
            if self.start_solution.rcpsp_schedule[j + 1]['start_time'] == t:
                start += [(self.x[j][t], 1)]
            else:
                start += [(self.x[j][t], 0)]
    self.model.start = start
    p_s = args.get('partial_solution', None)
    self.constraints_partial_solutions = []
    if p_s is not None:
        constraints = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                constraints += [self.model.add_constr(xsum([j * self.x[task - 1][j] for j in range(len(self.x[task - 1]))]) == p_s.start_times[task])]
                constraints += [self.model.add_constr(self.x[task - 1][p_s.start_times[task]] == 1)]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                constraints += [self.model.add_constr(xsum([t * self.x[t1 - 1][t] - t * self.x[t2 - 1][t] for t in self.T]) <= 0)]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    constraints += [self.model.add_constr(xsum([t * self.x[t1 - 1][t] - t * self.x[t2 - 1][t] for t in self.T]) <= 0)]
        self.starts = {}
        for j in range(len(self.x)):
            self.starts[j] = self.model.add_var(name='start_' + str(j), lb=0, ub=makespan)
            self.model.add_constr(xsum((t * self.x[j][t] for t in self.T)) == self.starts[j])
        if p_s.start_at_end is not None:
            for i, j in p_s.start_at_end:
                constraints += [self.model.add_constr(self.starts[j - 1] == self.starts[i - 1] + p[i - 1])]
        if p_s.start_together is not None:
            for i, j in p_s.start_together:
                constraints += [self.model.add_constr(self.starts[j - 1] == self.starts[i - 1])]
        if p_s.start_after_nunit is not None:
            for t1, t2, delta in p_s.start_after_nunit:
                constraints += [self.model.add_constr(self.starts[t2 - 1] >= self.starts[t1 - 1] + delta)]
        if p_s.start_at_end_plus_offset is not None:
            for t1, t2, delta in p_s.start_at_end_plus_offset:
                constraints += [self.model.add_constr(self.starts[t2 - 1] >= self.starts[t1 - 1] + delta + p[t1 - 1])]
        self.constraints_partial_solutions = constraints


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_RCPSP.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = min(nb_solutions_max, self.model.num_solutions)
    if not retrieve_all_solution:
        nb_solution = 1
    list_solution_fits = []
    for s in range(nb_solution):
        rcpsp_schedule = {}
        objective = self.model.objective_values[s]
        for j, t in product(self.J, self.T):
            value = self.x[j][t].xi(s)
            if value >= 0.5:
                rcpsp_schedule[j + 1] = {'start_time': t, 'end_time': t + self.rcpsp_model.mode_details[j + 1][1]['duration']}
        try:
            solution = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_schedule_feasible=True)
            fit = self.aggreg_from_sol(solution)
            list_solution_fits += [(solution, fit)]
        except:
            pass
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_RCPSP.solve")
def _(self, parameters_milp=ParametersMilp.default(), **kwargs):
    if self.model is None:
        self.init_model()
    limit_time_s = parameters_milp.TimeLimit
    self.model.sol_pool_size = parameters_milp.PoolSolutions
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.optimize(max_seconds=limit_time_s, max_solutions=parameters_milp.n_solutions_max)
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP.__init__")
def _(self, rcpsp_model, lp_solver=LP_RCPSP_Solver.CBC, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.model = None
    self.lp_solver = CBC
    if lp_solver == LP_RCPSP_Solver.GRB:
        self.lp_solver = GRB
    elif lp_solver == LP_RCPSP_Solver.CBC:
        self.lp_solver = CBC
    self.variable_decision = {}
    self.constraints_dict = {}
    self.constraints_dict['lns'] = []
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP.init_model")
def _(self, **args):
    greedy_start = args.get('greedy_start', True)
    start_solution = args.get('start_solution', None)
    verbose = args.get('verbose', False)
    if start_solution is None:
        if greedy_start:
            if verbose:
                pass
            greedy_solver = PileSolverRCPSP(self.rcpsp_model)
            store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
            self.start_solution = store_solution.get_best_solution_fit()[0]
            makespan = self.rcpsp_model.evaluate(self.start_solution)['makespan']
        else:
            if verbose:
                pass
            solution = self.rcpsp_model.get_dummy_solution()
            self.start_solution = solution
            makespan = self.rcpsp_model.evaluate(solution)['makespan']
    else:
        self.start_solution = start_solution
        makespan = self.rcpsp_model.evaluate(start_solution)['makespan']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    p = [int(max([self.rcpsp_model.mode_details[key][mode]['duration'] for mode in self.rcpsp_model.mode_details[key]])) for key in sorted_tasks]
    c = [x for x in self.rcpsp_model.resources.values()]
    renewable = {r: self.rcpsp_model.resources[r] for r in self.rcpsp_model.resources if r not in self.rcpsp_model.non_renewable_resources}
    non_renewable = {r: self.rcpsp_model.resources[r] for r in self.rcpsp_model.non_renewable_resources}
    S = []
    for task in sorted_tasks:
        for suc in self.rcpsp_model.successors[task]:
            S.append([task, suc])
    R, self.J, self.T = (range(len(c)), range(len(p)), range(sum(p)))
    if self.start_solution.rcpsp_schedule_feasible:
        self.T = range(int(makespan + 1))
    self.model = Model(sense=MINIMIZE, solver_name=self.lp_solver)
    self.x = {}
    last_task = max(self.rcpsp_model.mode_details.keys())
    variable_per_task = {}
    for task in sorted_tasks:
        if task not in variable_per_task:
            variable_per_task[task] = []
        for mode in self.rcpsp_model.mode_details[task]:
            for t in self.T:
                self.x[task, mode, t] = self.model.add_var(name='x({},{}, {})'.format(task, mode, t), var_type=BINARY)
                variable_per_task[task] += [(task, mode, t)]
    self.model.objective = xsum((self.x[key] * key[2] for key in variable_per_task[last_task]))
    for j in variable_per_task:
        self.model += xsum((self.x[key] for key in variable_per_task[j])) == 1
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        renewable_quantity = {r: renewable[r] for r in renewable}
    else:
        renewable_quantity = {r: [renewable[r]] * len(self.T) for r in renewable}
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        non_renewable_quantity = {r: non_renewable[r] for r in non_renewable}
    else:
        non_renewable_quantity = {r: [non_renewable[r]] * len(self.T) for r in non_renewable}
    for r, t in product(renewable, self.T):
        self.model.add_constr(xsum((int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key] for key in self.x if key[2] <= t < key[2] + int(self.rcpsp_model.mode_details[key[0]][key[1]]['duration']))) <= renewable_quantity[r][t])
    for r in non_renewable:
        self.model.add_constr(xsum((int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key] for key in self.x)) <= non_renewable_quantity[r][0])
    durations = {j: self.model.add_var(name='duration_' + str(j), var_type=INTEGER) for j in variable_per_task}
    self.durations = durations
    self.variable_per_task = variable_per_task
    for j in variable_per_task:
        self.model.add_constr(xsum((self.rcpsp_model.mode_details[key[0]][key[1]]['duration'] * self.x[key] for key in variable_per_task[j])) == durations[j])
    for j, s in S:
        self.model.add_constr(xsum([key[2] * self.x[key] for key in variable_per_task[s]] + [-key[2] * self.x[key] for key in variable_per_task[j]]) >= durations[j])
    start = []
    for j in self.start_solution.rcpsp_schedule:
        start_time_j = self.start_solution.rcpsp_schedule[j]['start_time']
        mode_j = 1 if j == 1 or j == self.rcpsp_model.n_jobs + 2 else self.start_solution.rcpsp_modes[j - 2]
        start += [(self.durations[j], self.rcpsp_model.mode_details[j][mode_j]['duration'])]
        for k in self.variable_per_task[j]:
            task, mode, time = k
            if start_time_j == time and mode == mode_j:
                start += [(self.x[k], 1)]
            else:
                start += [(self.x[k], 0)]
    self.model.start = start
    p_s = args.get('partial_solution', None)
    self.constraints_partial_solutions = []
    if p_s is not None:
        constraints = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                constraints += [self.model.add_constr(xsum([self.x[k] for k in self.variable_per_task[task] if k[2] == p_s.start_times[task]]) == 1)]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                constraints += [self.model.add_constr(xsum([key[2] * self.x[key] for key in variable_per_task[t1]] + [-key[2] * self.x[key] for key in variable_per_task[t2]]) <= 0)]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    constraints += [self.model.add_constr(xsum([key[2] * self.x[key] for key in variable_per_task[t1]] + [-key[2] * self.x[key] for key in variable_per_task[t2]]) <= 0)]
        self.constraints_partial_solutions = constraints


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = min(nb_solutions_max, self.model.num_solutions)
    if not retrieve_all_solution:
        nb_solution = 1
    list_solution_fits = []
    for s in range(nb_solution):
        rcpsp_schedule = {}
        modes = {}
        objective = self.model.objective_values[s]
        for task, mode, t in self.x:
            value = self.x[task, mode, t].xi(s)
            if value >= 0.5:
                rcpsp_schedule[task] = {'start_time': t, 'end_time': t + self.rcpsp_model.mode_details[task][mode]['duration']}
                modes[task] = mode
        try:
            modes.pop(1)
            modes.pop(self.rcpsp_model.n_jobs + 2)
            modes_vec = [modes[k] for k in sorted(modes)]
            solution = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_modes=modes_vec, rcpsp_schedule_feasible=True)
            fit = self.aggreg_from_sol(solution)
            list_solution_fits += [(solution, fit)]
        except:
            pass
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP.solve")
def _(self, parameters_milp=ParametersMilp.default(), **kwargs):
    if self.model is None:
        self.init_model(greedy_start=False, **kwargs)
    limit_time_s = parameters_milp.TimeLimit
    self.model.sol_pool_size = parameters_milp.PoolSolutions
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.optimize(max_seconds=limit_time_s, max_solutions=parameters_milp.n_solutions_max)
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP_GUROBI.__init__")
def _(self, rcpsp_model, lp_solver=LP_RCPSP_Solver.CBC, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.model = None
    self.lp_solver = CBC
    if lp_solver == LP_RCPSP_Solver.GRB:
        self.lp_solver = GRB
    elif lp_solver == LP_RCPSP_Solver.CBC:
        self.lp_solver = CBC
    self.variable_decision = {}
    self.constraints_dict = {}
    self.constraints_dict['lns'] = []
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP_GUROBI.init_model")
def _(self, **args):
    greedy_start = args.get('greedy_start', True)
    start_solution = args.get('start_solution', None)
    max_horizon = args.get('max_horizon', None)
    verbose = args.get('verbose', False)
    if start_solution is None:
        if greedy_start:
            if verbose:
                pass
            if isinstance(self.rcpsp_model, RCPSPModelCalendar):
                greedy_solver = PileSolverRCPSP_Calendar(self.rcpsp_model)
            else:
                greedy_solver = PileSolverRCPSP(self.rcpsp_model)
            store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
            self.start_solution = store_solution.get_best_solution_fit()[0]
            makespan = self.rcpsp_model.evaluate(self.start_solution)['makespan']
        else:
            if verbose:
                pass
            solution = self.rcpsp_model.get_dummy_solution()
            self.start_solution = solution
            makespan = self.rcpsp_model.evaluate(solution)['makespan']
    else:
        self.start_solution = start_solution
        makespan = self.rcpsp_model.evaluate(start_solution)['makespan']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    p = [int(max([self.rcpsp_model.mode_details[key][mode]['duration'] for mode in self.rcpsp_model.mode_details[key]])) for key in sorted_tasks]
    c = [x for x in self.rcpsp_model.resources.values()]
    renewable = {r: self.rcpsp_model.resources[r] for r in self.rcpsp_model.resources if r not in self.rcpsp_model.non_renewable_resources}
    non_renewable = {r: self.rcpsp_model.resources[r] for r in self.rcpsp_model.non_renewable_resources}
    S = []
    for task in sorted_tasks:
        for suc in self.rcpsp_model.successors[task]:
            S.append([task, suc])
    R, self.J, self.T = (range(len(c)), range(len(p)), list(range(sum(p))))
    if self.start_solution.rcpsp_schedule_feasible:
        self.T = list(range(int(makespan + 1)))
    if max_horizon is not None:
        self.T = list(range(max_horizon + 1))
    self.model = gurobi.Model('MRCPSP')
    self.x = {}
    last_task = max(self.rcpsp_model.mode_details.keys())
    variable_per_task = {}
    keys_for_t = {}
    for task in sorted_tasks:
        if task not in variable_per_task:
            variable_per_task[task] = []
        for mode in self.rcpsp_model.mode_details[task]:
            for t in self.T:
                self.x[task, mode, t] = self.model.addVar(name='x({},{}, {})'.format(task, mode, t), vtype=gurobi.GRB.BINARY)
                for tt in range(t, t + self.rcpsp_model.mode_details[task][mode]['duration']):
                    if tt not in keys_for_t:
                        keys_for_t[tt] = set()
                    keys_for_t[tt].add((task, mode, t))
                variable_per_task[task] += [(task, mode, t)]
    self.model.update()
    self.model.setObjective(gurobi.quicksum((self.x[key] * key[2] for key in variable_per_task[last_task])))
    self.model.addConstrs((gurobi.quicksum((self.x[key] for key in variable_per_task[j])) == 1 for j in variable_per_task))
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        renewable_quantity = {r: renewable[r] for r in renewable}
    else:
        renewable_quantity = {r: [renewable[r]] * len(self.T) for r in renewable}
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        non_renewable_quantity = {r: non_renewable[r] for r in non_renewable}
    else:
        non_renewable_quantity = {r: [non_renewable[r]] * len(self.T) for r in non_renewable}
    self.model.addConstrs((gurobi.quicksum((int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key] for key in keys_for_t[t])) <= renewable_quantity[r][t] for r, t in product(renewable, self.T)))
    self.model.addConstrs((gurobi.quicksum((int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key] for key in self.x)) <= non_renewable_quantity[r][0] for r in non_renewable))
    self.model.update()
    durations = {j: self.model.addVar(name='duration_' + str(j), vtype=gurobi.GRB.INTEGER) for j in variable_per_task}
    self.durations = durations
    self.variable_per_task = variable_per_task
    self.model.addConstrs((gurobi.quicksum((self.rcpsp_model.mode_details[key[0]][key[1]]['duration'] * self.x[key] for key in variable_per_task[j])) == durations[j] for j in variable_per_task))
    self.model.addConstrs((gurobi.quicksum([key[2] * self.x[key] for key in variable_per_task[s]] + [-key[2] * self.x[key] for key in variable_per_task[j]]) >= durations[j] for j, s in S))
    start = []
    self.starts = {}
    for task in sorted_tasks:
        self.starts[task] = self.model.addVar(name='start({})'.format(task), vtype=gurobi.GRB.INTEGER, lb=0, ub=self.T[-1])
        self.starts[task].start = self.start_solution.rcpsp_schedule[task]['start_time']
        self.model.addConstr(gurobi.quicksum([self.x[key] * key[2] for key in variable_per_task[task]]) == self.starts[task])
    for j in self.start_solution.rcpsp_schedule:
        start_time_j = self.start_solution.rcpsp_schedule[j]['start_time']
        mode_j = 1 if j == 1 or j == self.rcpsp_model.n_jobs + 2 else self.start_solution.rcpsp_modes[j - 2]
        start += [(self.durations[j], self.rcpsp_model.mode_details[j][mode_j]['duration'])]
        for k in self.variable_per_task[j]:
            task, mode, time = k
            if start_time_j == time and mode == mode_j:
                start += [(self.x[k], 1)]
                self.x[k].start = 1
            else:
                start += [(self.x[k], 0)]
                self.x[k].start = 0
    p_s = args.get('partial_solution', None)
    self.constraints_partial_solutions = []
    self.model.update()
    if p_s is not None:
        constraints = []
        if p_s.start_times is not None:
            constraints = self.model.addConstrs((gurobi.quicksum([self.x[k] for k in self.variable_per_task[task] if k[2] == p_s.start_times[task]]) == 1 for task in p_s.start_times))
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                constraints += [self.model.addConstr(gurobi.quicksum([key[2] * self.x[key] for key in variable_per_task[t1]] + [-key[2] * self.x[key] for key in variable_per_task[t2]]) <= 0)]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    constraints += [self.model.addConstr(gurobi.quicksum([key[2] * self.x[key] for key in variable_per_task[t1]] + [-key[2] * self.x[key] for key in variable_per_task[t2]]) <= 0)]
        if p_s.start_at_end is not None:
            for i, j in p_s.start_at_end:
                constraints += [self.model.addConstr(self.starts[j] == self.starts[i] + durations[i])]
        if p_s.start_together is not None:
            for i, j in p_s.start_together:
                constraints += [self.model.addConstr(self.starts[j] == self.starts[i])]
        if p_s.start_after_nunit is not None:
            for t1, t2, delta in p_s.start_after_nunit:
                constraints += [self.model.addConstr(self.starts[t2] >= self.starts[t1] + delta)]
        if p_s.start_at_end_plus_offset is not None:
            for t1, t2, delta in p_s.start_at_end_plus_offset:
                constraints += [self.model.addConstr(self.starts[t2] >= self.starts[t1] + delta + durations[t1])]
        self.constraints_partial_solutions = constraints
        self.model.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP_GUROBI.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = min(nb_solutions_max, self.model.SolCount)
    if not retrieve_all_solution:
        nb_solution = 1
    list_solution_fits = []
    for s in range(nb_solution):
        self.model.params.SolutionNumber = s
        rcpsp_schedule = {}
        modes = {}
        objective = self.model.getAttr('ObjVal')
        for task, mode, t in self.x:
            value = self.x[task, mode, t].getAttr('Xn')
            if value >= 0.5:
                rcpsp_schedule[task] = {'start_time': t, 'end_time': t + self.rcpsp_model.mode_details[task][mode]['duration']}
                modes[task] = mode
        try:
            modes.pop(1)
            modes.pop(self.rcpsp_model.n_jobs + 2)
            modes_vec = [modes[k] for k in sorted(modes)]
            solution = RCPSPSolution(problem=self.rcpsp_model, rcpsp_schedule=rcpsp_schedule, rcpsp_modes=modes_vec, rcpsp_schedule_feasible=True)
            fit = self.aggreg_from_sol(solution)
            list_solution_fits += [(solution, fit)]
        except:
            pass
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py", "LP_MRCPSP_GUROBI.solve")
def _(self, parameters_milp=ParametersMilp.default(), **kwargs):
    if self.model is None:
        self.init_model(greedy_start=False, **kwargs)
    self.model.setParam('TimeLimit', parameters_milp.TimeLimit)
    self.model.setParam('MIPGapAbs', parameters_milp.MIPGapAbs)
    self.model.setParam('PoolSolutions', parameters_milp.PoolSolutions)
    self.model.modelSense = gurobi.GRB.MINIMIZE
    self.model.optimize()
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "InitialSolutionRCPSP.__init__")
def _(self, problem, params_objective_function=None, initial_method=InitialMethodRCPSP.PILE):
    self.problem = problem
    self.params_objective_function = params_objective_function
    if self.params_objective_function is None:
        self.params_objective_function = get_default_objective_setup(problem=self.problem)
    self.aggreg, _ = build_evaluate_function_aggregated(problem=self.problem, params_objective_function=self.params_objective_function)
    self.initial_method = initial_method


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "InitialSolutionRCPSP.get_starting_solution")
def _(self):
    if self.initial_method == InitialMethodRCPSP.PILE:
        greedy_solver = PileSolverRCPSP(self.problem)
        store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
    if self.initial_method == InitialMethodRCPSP.PILE_CALENDAR:
        greedy_solver = PileSolverRCPSP_Calendar(self.problem)
        store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
    elif self.initial_method == InitialMethodRCPSP.DUMMY:
        solution = self.problem.get_dummy_solution()
        fit = self.aggreg(solution)
        store_solution = ResultStorage(list_solution_fits=[(solution, fit)], best_solution=solution, mode_optim=self.params_objective_function.sense_function)
    elif self.initial_method == InitialMethodRCPSP.CP:
        solver = CP_MRCPSP_MZN(rcpsp_model=self.problem, params_objective_function=self.params_objective_function)
        store_solution = solver.solve(parameters_cp=ParametersCP.default())
    elif self.initial_method == InitialMethodRCPSP.LS:
        dummy = self.problem.get_dummy_solution()
        _, mutations = get_available_mutations(self.problem, dummy)
        list_mutation = [mutate[0].build(self.problem, dummy, **mutate[1]) for mutate in mutations if mutate[0] == PermutationMutationRCPSP]
        mixed_mutation = BasicPortfolioMutation(list_mutation, np.ones(len(list_mutation)))
        res = RestartHandlerLimit(500, cur_solution=dummy, cur_objective=self.problem.evaluate(dummy))
        sa = SimulatedAnnealing(evaluator=self.problem, mutator=mixed_mutation, restart_handler=res, temperature_handler=TemperatureSchedulingFactor(2, res, 0.9999), mode_mutation=ModeMutation.MUTATE, params_objective_function=self.params_objective_function, store_solution=True, nb_solutions=10000)
        store_solution = sa.solve(dummy, nb_iteration_max=10000, pickle_result=False)
    return store_solution


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.__init__")
def _(self, problem, fraction_fix_start_time=0.9):
    self.problem = problem
    self.fraction_fix_start_time = fraction_fix_start_time


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    nb_jobs = self.problem.n_jobs + 2
    constraints_dict = {}
    current_solution, fit = result_storage.get_best_solution_fit()
    start = []
    for j in milp_solver.J:
        start_time_j = current_solution.rcpsp_schedule[j + 1]['start_time']
        for t in milp_solver.T:
            if start_time_j == t:
                start += [(milp_solver.x[j][t], 1)]
            else:
                start += [(milp_solver.x[j][t], 0)]
    milp_solver.model.start = start
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_fix_start_time * nb_jobs)))
    constraints_dict['fix_start_time'] = []
    for job_to_fix in jobs_to_fix:
        for t in milp_solver.T:
            if current_solution.rcpsp_schedule[job_to_fix]['start_time'] == t:
                constraints_dict['fix_start_time'].append(milp_solver.model.add_constr(milp_solver.x[job_to_fix - 1][t] == 1))
            else:
                constraints_dict['fix_start_time'].append(milp_solver.model.add_constr(milp_solver.x[job_to_fix - 1][t] == 0))
        if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
            milp_solver.model.solver.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints['fix_start_time'])
    if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeInterval.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeInterval.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    constraints_dict = {}
    current_solution, fit = result_storage.get_best_solution_fit()
    start = []
    for j in milp_solver.J:
        start_time_j = current_solution.rcpsp_schedule[j + 1]['start_time']
        for t in milp_solver.T:
            if start_time_j == t:
                start += [(milp_solver.x[j][t], 1)]
            else:
                start += [(milp_solver.x[j][t], 0)]
    milp_solver.model.start = start
    constraints_dict['range_start_time'] = []
    max_time = max([current_solution.rcpsp_schedule[x]['end_time'] for x in current_solution.rcpsp_schedule])
    last_jobs = [x for x in current_solution.rcpsp_schedule if current_solution.rcpsp_schedule[x]['end_time'] >= max_time - 5]
    nb_jobs = self.problem.n_jobs + 2
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    for job in jobs_to_fix:
        start_time_j = current_solution.rcpsp_schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        for t in milp_solver.T:
            if t < min_st or t > max_st:
                constraints_dict['range_start_time'].append(milp_solver.model.add_constr(milp_solver.x[job - 1][t] == 0))
    if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
        milp_solver.model.solver.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeInterval.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints['range_start_time'])
    if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    current_solution, fit = result_storage.get_best_solution_fit()
    st = milp_solver.start_solution
    if self.problem.evaluate(st)['makespan'] < self.problem.evaluate(current_solution)['makespan']:
        current_solution = st
    start = []
    for j in current_solution.rcpsp_schedule:
        start_time_j = current_solution.rcpsp_schedule[j]['start_time']
        mode_j = 1 if j == 1 or j == self.problem.n_jobs + 2 else current_solution.rcpsp_modes[j - 2]
        start += [(milp_solver.durations[j], self.problem.mode_details[j][mode_j]['duration'])]
        for k in milp_solver.variable_per_task[j]:
            task, mode, time = k
            if start_time_j == time and mode == mode_j:
                start += [(milp_solver.x[k], 1)]
            else:
                start += [(milp_solver.x[k], 0)]
    milp_solver.model.start = start
    constraints_dict = {}
    constraints_dict['range_start_time'] = []
    max_time = max([current_solution.rcpsp_schedule[x]['end_time'] for x in current_solution.rcpsp_schedule])
    last_jobs = [x for x in current_solution.rcpsp_schedule if current_solution.rcpsp_schedule[x]['end_time'] >= max_time - 5]
    nb_jobs = self.problem.n_jobs + 2
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    for job in jobs_to_fix:
        start_time_j = current_solution.rcpsp_schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        for key in milp_solver.variable_per_task[job]:
            t = key[2]
            if t < min_st or t > max_st:
                constraints_dict['range_start_time'].append(milp_solver.model.add_constr(milp_solver.x[key] == 0))
    if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
        milp_solver.model.solver.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints['range_start_time'])
    if milp_solver.lp_solver == LP_RCPSP_Solver.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP_GRB.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP_GRB.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    current_solution, fit = result_storage.get_best_solution_fit()
    st = milp_solver.start_solution
    if self.problem.evaluate(st)['makespan'] < self.problem.evaluate(current_solution)['makespan']:
        current_solution = st
    start = []
    for j in current_solution.rcpsp_schedule:
        start_time_j = current_solution.rcpsp_schedule[j]['start_time']
        mode_j = 1 if j == 1 or j == self.problem.n_jobs + 2 else current_solution.rcpsp_modes[j - 2]
        start += [(milp_solver.durations[j], self.problem.mode_details[j][mode_j]['duration'])]
        for k in milp_solver.variable_per_task[j]:
            task, mode, time = k
            if start_time_j == time and mode == mode_j:
                milp_solver.x[k].start = 1
                milp_solver.starts[j].start = start_time_j
            else:
                milp_solver.x[k].start = 0
    constraints_dict = {}
    constraints_dict['range_start_time'] = []
    max_time = max([current_solution.rcpsp_schedule[x]['end_time'] for x in current_solution.rcpsp_schedule])
    last_jobs = [x for x in current_solution.rcpsp_schedule if current_solution.rcpsp_schedule[x]['end_time'] >= max_time - 5]
    nb_jobs = self.problem.n_jobs + 2
    jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    for job in jobs_to_fix:
        start_time_j = current_solution.rcpsp_schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        for key in milp_solver.variable_per_task[job]:
            t = key[2]
            if t < min_st or t > max_st:
                constraints_dict['range_start_time'].append(milp_solver.model.addConstr(milp_solver.x[key] == 0))
    milp_solver.model.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP_GRB.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints.get('range_start_time', []))
    milp_solver.model.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "LNS_LP_RCPSP_SOLVER.__init__")
def _(self, rcpsp_model, **kwargs):
    self.rcpsp_model = rcpsp_model
    solver = LP_MRCPSP(rcpsp_model=self.rcpsp_model, **kwargs)
    solver.init_model(greedy_start=False)
    self.parameters_milp = ParametersMilp(time_limit=100, pool_solutions=1000, mip_gap_abs=0.001, mip_gap=0.001, retrieve_all_solution=True, n_solutions_max=100)
    self.params_objective_function = get_default_objective_setup(problem=self.rcpsp_model)
    self.constraint_handler = ConstraintHandlerStartTimeIntervalMRCPSP(problem=rcpsp_model, fraction_to_fix=0.6, minus_delta=5, plus_delta=5)
    self.initial_solution_provider = InitialSolutionRCPSP(problem=self.rcpsp_model, initial_method=InitialMethodRCPSP.DUMMY, params_objective_function=self.params_objective_function)
    self.lns_solver = LNS_MILP(problem=self.rcpsp_model, milp_solver=solver, initial_solution_provider=self.initial_solution_provider, constraint_handler=self.constraint_handler, params_objective_function=self.params_objective_function)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py", "LNS_LP_RCPSP_SOLVER.solve")
def _(self, **kwargs):
    return self.lns_solver.solve_lns(parameters_milp=self.parameters_milp, nb_iteration_lns=kwargs.get('nb_iteration_lns', 100))


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "intersect")
def _(i1, i2):
    if i2[0] >= i1[1] or i1[0] >= i2[1]:
        return None
    else:
        s = max(i1[0], i2[0])
        e = min(i1[1], i2[1])
        return [s, e]


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "ConstraintTaskIndividual.__init__")
def _(self, list_tuple):
    self.list_tuple = list_tuple


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "ConstraintWorkDuration.__init__")
def _(self, ressource, individual, time_bounds, working_time_upper_bound):
    self.ressource = ressource
    self.individual = individual
    self.time_bounds = time_bounds
    self.working_time_upper_bound = working_time_upper_bound


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT.__init__")
def _(self, rcpsp_model, rcpsp_solution, lp_solver=MilpSolverName.CBC, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.lp_solver = lp_solver
    self.rcpsp_solution = rcpsp_solution
    self.jobs = sorted(list(self.rcpsp_model.mode_details.keys()))
    self.modes_dict = {i + 2: self.rcpsp_solution.rcpsp_modes[i] for i in range(len(self.rcpsp_solution.rcpsp_modes))}
    self.modes_dict[1] = 1
    self.modes_dict[self.jobs[-1]] = 1
    self.rcpsp_schedule = self.rcpsp_solution.rcpsp_schedule
    self.start_times_dict = {}
    for task in self.rcpsp_schedule:
        t = self.rcpsp_schedule[task]['start_time']
        if t not in self.start_times_dict:
            self.start_times_dict[t] = set()
        self.start_times_dict[t].add((task, t))
    self.graph_intersection_time = nx.Graph()
    for t in self.jobs:
        self.graph_intersection_time.add_node(t)
    for t in self.jobs:
        intersected_jobs = [task for task in self.rcpsp_schedule if intersect([self.rcpsp_schedule[task]['start_time'], self.rcpsp_schedule[task]['end_time']], [self.rcpsp_schedule[t]['start_time'], self.rcpsp_schedule[t]['end_time']]) is not None and t != task]
        for tt in intersected_jobs:
            self.graph_intersection_time.add_edge(t, tt)
    cliques = [c for c in nx.find_cliques(self.graph_intersection_time)]
    self.cliques = cliques


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT.init_model")
def _(self, **args):
    self.model = Model(sense=MINIMIZE, solver_name=map_solver[self.lp_solver])
    self.ressource_id_usage = {k: {i: {} for i in range(len(self.rcpsp_model.calendar_details[k]))} for k in self.rcpsp_model.calendar_details.keys()}
    variables_per_task = {}
    variables_per_individual = {}
    constraints_ressource_need = {}
    for task in self.jobs:
        start = self.rcpsp_schedule[task]['start_time']
        end = self.rcpsp_schedule[task]['end_time']
        for k in self.ressource_id_usage:
            needed_ressource = self.rcpsp_model.mode_details[task][self.modes_dict[task]][k] > 0
            if needed_ressource:
                for individual in self.ressource_id_usage[k]:
                    available = all([self.rcpsp_model.calendar_details[k][individual][time] for time in range(start, end)])
                    if available:
                        key_variable = (k, individual, task)
                        self.ressource_id_usage[k][individual][task] = self.model.add_var(name=str(key_variable), var_type=BINARY, obj=random.random())
                        if task not in variables_per_task:
                            variables_per_task[task] = set()
                        if k not in variables_per_individual:
                            variables_per_individual[k] = {}
                        if individual not in variables_per_individual[k]:
                            variables_per_individual[k][individual] = set()
                        variables_per_task[task].add(key_variable)
                        variables_per_individual[k][individual].add(key_variable)
                ressource_needed = self.rcpsp_model.mode_details[task][self.modes_dict[task]][k]
                if k not in constraints_ressource_need:
                    constraints_ressource_need[k] = {}
                constraints_ressource_need[k][task] = self.model.add_constr(xsum([self.ressource_id_usage[k][key[1]][key[2]] for key in variables_per_task[task] if key[0] == k]) == ressource_needed, name='ressource_' + str(k) + '_' + str(task))
    overlaps_constraints = {}
    for i in range(len(self.cliques)):
        tasks = set(self.cliques[i])
        for k in variables_per_individual:
            for individual in variables_per_individual[k]:
                keys_variable = [variable for variable in variables_per_individual[k][individual] if variable[2] in tasks]
                if len(keys_variable) > 0:
                    overlaps_constraints[i, k, individual] = self.model.add_constr(xsum([self.ressource_id_usage[key[0]][key[1]][key[2]] for key in keys_variable]) <= 1)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = min(nb_solutions_max, self.model.num_solutions)
    if not retrieve_all_solution:
        nb_solution = 1
    list_solution_fits = []
    for s in range(nb_solution):
        rcpsp_schedule = {}
        modes = {}
        objective = self.model.objective_values[s]
        resource_id_usage = {k: {individual: {task: self.ressource_id_usage[k][individual][task].xi(s) for task in self.ressource_id_usage[k][individual]} for individual in self.ressource_id_usage[k]} for k in self.ressource_id_usage}


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT.solve")
def _(self, parameters_milp=ParametersMilp.default(), **kwargs):
    if self.model is None:
        self.init_model(greedy_start=False, **kwargs)
    limit_time_s = parameters_milp.TimeLimit
    self.model.sol_pool_size = parameters_milp.PoolSolutions
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.optimize(max_seconds=limit_time_s, max_solutions=parameters_milp.n_solutions_max)
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.__init__")
def _(self, rcpsp_model, rcpsp_solution, lp_solver=MilpSolverName.CBC, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.lp_solver = lp_solver
    self.rcpsp_solution = rcpsp_solution
    self.jobs = sorted(list(self.rcpsp_model.mode_details.keys()))
    self.modes_dict = {i + 2: self.rcpsp_solution.rcpsp_modes[i] for i in range(len(self.rcpsp_solution.rcpsp_modes))}
    self.modes_dict[1] = 1
    self.modes_dict[self.jobs[-1]] = 1
    self.rcpsp_schedule = self.rcpsp_solution.rcpsp_schedule
    self.start_times_dict = {}
    for task in self.rcpsp_schedule:
        t = self.rcpsp_schedule[task]['start_time']
        if t not in self.start_times_dict:
            self.start_times_dict[t] = set()
        self.start_times_dict[t].add((task, t))
    self.graph_intersection_time = nx.Graph()
    for t in self.jobs:
        self.graph_intersection_time.add_node(t)
    for t in self.jobs:
        intersected_jobs = [task for task in self.rcpsp_schedule if intersect([self.rcpsp_schedule[task]['start_time'], self.rcpsp_schedule[task]['end_time']], [self.rcpsp_schedule[t]['start_time'], self.rcpsp_schedule[t]['end_time']]) is not None and t != task]
        for tt in intersected_jobs:
            self.graph_intersection_time.add_edge(t, tt)
    cliques = [c for c in nx.find_cliques(self.graph_intersection_time)]
    self.cliques = cliques
    self.constraint_additionnal = {}


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.init_model")
def _(self, **args):
    self.model = gurobi.Model('Gantt')
    self.ressource_id_usage = {k: {i: {} for i in range(len(self.rcpsp_model.calendar_details[k]))} for k in self.rcpsp_model.calendar_details.keys()}
    variables_per_task = {}
    variables_per_individual = {}
    constraints_ressource_need = {}
    for task in self.jobs:
        start = self.rcpsp_schedule[task]['start_time']
        end = self.rcpsp_schedule[task]['end_time']
        for k in self.ressource_id_usage:
            needed_ressource = self.rcpsp_model.mode_details[task][self.modes_dict[task]][k] > 0
            if needed_ressource:
                for individual in self.ressource_id_usage[k]:
                    available = all([self.rcpsp_model.calendar_details[k][individual][time] for time in range(start, end)])
                    if available:
                        key_variable = (k, individual, task)
                        self.ressource_id_usage[k][individual][task] = self.model.addVar(name=str(key_variable), vtype=gurobi.GRB.BINARY)
                        if task not in variables_per_task:
                            variables_per_task[task] = set()
                        if k not in variables_per_individual:
                            variables_per_individual[k] = {}
                        if individual not in variables_per_individual[k]:
                            variables_per_individual[k][individual] = set()
                        variables_per_task[task].add(key_variable)
                        variables_per_individual[k][individual].add(key_variable)
                ressource_needed = self.rcpsp_model.mode_details[task][self.modes_dict[task]][k]
                if k not in constraints_ressource_need:
                    constraints_ressource_need[k] = {}
                constraints_ressource_need[k][task] = self.model.addConstr(gurobi.quicksum([self.ressource_id_usage[k][key[1]][key[2]] for key in variables_per_task[task] if key[0] == k]) == ressource_needed, name='ressource_' + str(k) + '_' + str(task))
    overlaps_constraints = {}
    for i in range(len(self.cliques)):
        tasks = set(self.cliques[i])
        for k in variables_per_individual:
            for individual in variables_per_individual[k]:
                keys_variable = [variable for variable in variables_per_individual[k][individual] if variable[2] in tasks]
                if len(keys_variable) > 0:
                    overlaps_constraints[i, k, individual] = self.model.addConstr(gurobi.quicksum([self.ressource_id_usage[key[0]][key[1]][key[2]] for key in keys_variable]) <= 1)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.adding_constraint")
def _(self, constraint_description, constraint_name=''):
    if isinstance(constraint_description, ConstraintTaskIndividual):
        if constraint_name == '':
            constraint_name = str(ConstraintTaskIndividual.__name__)
        for tupl in constraint_description.list_tuple:
            ressource, ressource_individual, task, has_to_do = tupl
            if ressource in self.ressource_id_usage:
                if ressource_individual in self.ressource_id_usage[ressource]:
                    if task in self.ressource_id_usage[ressource][ressource_individual]:
                        if constraint_name not in self.constraint_additionnal:
                            self.constraint_additionnal[constraint_name] = []
                        self.constraint_additionnal[constraint_name] += [self.model.addConstr(self.ressource_id_usage[ressource][ressource_individual][task] == has_to_do)]
    if isinstance(constraint_description, ConstraintWorkDuration):
        if constraint_name == '':
            constraint_name = str(ConstraintWorkDuration.__name__)
        if constraint_name not in self.constraint_additionnal:
            self.constraint_additionnal[constraint_name] = []
        tasks_of_interest = [t for t in self.rcpsp_schedule if t in self.ressource_id_usage.get(constraint_description.ressource, {}).get(constraint_description.individual, {}) and (constraint_description.time_bounds[0] <= self.rcpsp_schedule[t]['start_time'] <= constraint_description.time_bounds[1] or constraint_description.time_bounds[0] <= self.rcpsp_schedule[t]['end_time'] <= constraint_description.time_bounds[1])]
        self.constraint_additionnal[constraint_name] += [self.model.addConstr(gurobi.quicksum([self.ressource_id_usage[constraint_description.ressource][constraint_description.individual][t] * (min(constraint_description.time_bounds[1], self.rcpsp_schedule[t]['end_time']) - max(constraint_description.time_bounds[0], self.rcpsp_schedule[t]['start_time'])) for t in tasks_of_interest]) <= constraint_description.working_time_upper_bound)]
        self.model.update()


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = self.model.getAttr('SolCount')
    solutions = []
    for s in range(nb_solution):
        self.model.params.SolutionNumber = s
        objective = self.model.getAttr('poolObjVal')
        solutions += [{k: {individual: {task: self.ressource_id_usage[k][individual][task].getAttr('Xn') for task in self.ressource_id_usage[k][individual]} for individual in self.ressource_id_usage[k]} for k in self.ressource_id_usage}]
    return solutions


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.solve")
def _(self, parameters_milp=ParametersMilp.default(), **kwargs):
    if self.model is None:
        self.init_model(greedy_start=False, **kwargs)
    self.model.modelSense = kwargs.get('sense', gurobi.GRB.MINIMIZE)
    self.model.setParam(gurobi.GRB.Param.PoolSolutions, parameters_milp.PoolSolutions)
    self.model.setParam('MIPGapAbs', parameters_milp.MIPGapAbs)
    self.model.setParam('MIPGap', parameters_milp.MIPGap)
    self.model.setParam('TimeLimit', parameters_milp.TimeLimit)
    self.model.setParam('PoolSearchMode', parameters_milp.pool_search_mode)
    self.model.optimize()
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver_gantt.py", "LP_MRCPSP_GANTT_GUROBI.build_objective_function_from_a_solution")
def _(self, ressource_usage, ignore_tuple=None):
    objective = gurobi.LinExpr(0.0)
    if ignore_tuple is None:
        ignore_tuple = set()
    for k in ressource_usage:
        for individual in ressource_usage[k]:
            for task in ressource_usage[k][individual]:
                if (k, individual, task) in ignore_tuple:
                    pass
                if ressource_usage[k][individual][task] >= 0.5:
                    objective.add(1 - self.ressource_id_usage[k][individual][task])
    self.model.setObjective(objective)
