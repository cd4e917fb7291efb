# C30: multi-skill scheduling problems and their solvers


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "tree")
def _():
    return defaultdict(tree)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution.__init__")
def _(self, problem, modes, schedule, employee_usage):
    self.problem = problem
    self.modes = modes
    self.schedule = schedule
    self.employee_usage = employee_usage


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution.copy")
def _(self):
    return MS_RCPSPSolution(problem=self.problem, modes=deepcopy(self.modes), schedule=deepcopy(self.schedule), employee_usage=deepcopy(self.employee_usage))


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution.change_problem")
def _(self, new_problem):
    self.problem = new_problem


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "schedule_solution_to_variant")
def _(solution):
    s = solution
    priority_list_task = sorted(s.schedule, key=lambda x: s.schedule[x]['start_time'])
    priority_list_task.remove(s.problem.source_task)
    priority_list_task.remove(s.problem.sink_task)
    workers = []
    for i in sorted(s.problem.tasks)[1:-1]:
        w = []
        if len(s.employee_usage.get(i, {})) > 0:
            w = [w for w in s.employee_usage.get(i)]
        w += [wi for wi in s.problem.employees if wi not in w]
        workers += [w]
    solution = MS_RCPSPSolution_Variant(problem=s.problem, priority_list_task=[p - 2 for p in priority_list_task], priority_worker_per_task=workers, modes_vector=[s.modes[i] for i in sorted(s.problem.tasks)[1:-1]])
    return solution


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution_Variant.__init__")
def _(self, problem, modes_vector=None, modes_vector_from0=None, priority_list_task=None, priority_worker_per_task=None, modes=None, schedule=None, employee_usage=None):
    super().__init__(problem, modes, schedule, employee_usage)
    self.priority_list_task = priority_list_task
    self.modes_vector = modes_vector
    self.modes_vector_from0 = modes_vector_from0
    if priority_worker_per_task is None:
        self.priority_worker_per_task = None
    elif any((isinstance(i, list) for i in priority_worker_per_task)):
        self.priority_worker_per_task = priority_worker_per_task
    else:
        self.priority_worker_per_task = self.problem.convert_fixed_priority_worker_per_task_from_permutation(priority_worker_per_task)
    if self.modes_vector is None and self.modes_vector_from0 is None:
        self.modes_vector = self.problem.fixed_modes
        self.modes_vector_from0 = [x - 1 for x in self.problem.fixed_modes]
    if self.modes_vector is None and self.modes_vector_from0 is not None:
        self.modes_vector = [x + 1 for x in self.modes_vector_from0]
    if self.modes_vector_from0 is None:
        self.modes_vector_from0 = [x - 1 for x in self.modes_vector]
    if self.priority_list_task is None:
        self.priority_list_task = self.problem.fixed_permutation
    if self.priority_worker_per_task is None:
        self.priority_worker_per_task = self.problem.fixed_priority_worker_per_task
    self._schedule_to_recompute = True
    if self.schedule is None:
        self.do_recompute()


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution_Variant.change_problem")
def _(self, new_problem):
    super().change_problem(new_problem)
    self._schedule_to_recompute = True


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution_Variant.do_recompute")
def _(self):
    rcpsp_schedule, modes_extended, employee_usage, modes_dict = sgs_multi_skill(solution=self)
    self.schedule = rcpsp_schedule
    self.modes = modes_dict
    self.employee_usage = employee_usage
    self._schedule_to_recompute = False


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPSolution_Variant.copy")
def _(self):
    return MS_RCPSPSolution_Variant(problem=self.problem, priority_list_task=deepcopy(self.priority_list_task), modes_vector=deepcopy(self.modes_vector), priority_worker_per_task=deepcopy(self.priority_worker_per_task), modes=deepcopy(self.modes), schedule=deepcopy(self.schedule), employee_usage=deepcopy(self.employee_usage))


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "sgs_multi_skill")
def _(solution):
    problem = solution.problem
    perm = deepcopy(solution.priority_list_task)
    activity_end_times = {}
    unfeasible_non_renewable_resources = False
    unfeasible_in_horizon = False
    new_horizon = problem.horizon * problem.horizon_multiplier
    resource_avail_in_time = {}
    for res in problem.resources_set:
        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
    worker_avail_in_time = {}
    for i in problem.employees:
        worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
    minimum_starting_time = {}
    for act in list(problem.successors.keys()):
        minimum_starting_time[act] = 0
    perm_extended = [x + 2 for x in perm]
    perm_extended.insert(0, 1)
    perm_extended.append(problem.n_jobs_non_dummy + 2)
    modes_extended = deepcopy(solution.modes_vector)
    modes_extended.insert(0, 1)
    modes_extended.append(1)
    for i in range(len(modes_extended)):
        if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
            modes_extended[i] = 1
    modes_dict = {i + 1: modes_extended[i] for i in range(len(modes_extended))}
    employee_usage = {}
    while len(perm_extended) > 0 and (not unfeasible_non_renewable_resources) and (not unfeasible_in_horizon):
        act_id = None
        for id in perm_extended:
            respected = True
            for pred in problem.successors.keys():
                if id in problem.successors[pred] and pred in perm_extended:
                    respected = False
                    break
            if respected:
                act_id = id
                break
        current_min_time = minimum_starting_time[act_id]
        valid = False
        while not valid:
            valid = True
            mode = modes_extended[act_id - 1]
            range_time = range(current_min_time, current_min_time + problem.mode_details[act_id][mode]['duration'])
            if current_min_time + problem.mode_details[act_id][mode]['duration'] >= problem.horizon:
                unfeasible_in_horizon = True
                break
            for t in range_time:
                for res in resource_avail_in_time.keys():
                    if t < new_horizon:
                        if resource_avail_in_time[res][t] < problem.mode_details[act_id][modes_extended[act_id - 1]][res]:
                            valid = False
                            break
                    else:
                        unfeasible_non_renewable_resources = True
                        valid = False
                        break
                if not valid:
                    break
            if valid:
                required_skills = {s: problem.mode_details[act_id][mode][s] for s in problem.mode_details[act_id][mode] if s in problem.skills_set and problem.mode_details[act_id][mode][s] > 0}
                worker_ids = None
                if len(required_skills) > 0:
                    worker_ids = [worker for worker in worker_avail_in_time if all((worker_avail_in_time[worker][t] for t in range_time))]
                    if problem.one_unit_per_task_max:
                        good = False
                        ws = []
                        for worker in worker_ids:
                            if any((s not in problem.employees[worker].dict_skill for s in required_skills)) or any((problem.employees[worker].dict_skill[s].skill_value < required_skills[s] for s in required_skills)):
                                continue
                            else:
                                good = True
                                ws += [worker]
                                break
                        valid = good
                        if good:
                            worker_ids = ws
                    elif not all((sum([problem.employees[worker].dict_skill[s].skill_value for worker in worker_ids if s in problem.employees[worker].dict_skill]) >= required_skills[s] for s in required_skills)):
                        valid = False
            if not valid:
                current_min_time += 1
            if current_min_time > new_horizon:
                unfeasible_in_horizon = True
                break
        if not unfeasible_non_renewable_resources and (not unfeasible_in_horizon):
            end_t = current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration'] - 1
            for t in range(current_min_time, current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                for res in resource_avail_in_time.keys():
                    resource_avail_in_time[res][t] -= problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                    if res in problem.non_renewable_resources and t == end_t:
                        for tt in range(end_t + 1, new_horizon):
                            resource_avail_in_time[res][tt] -= problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                            if resource_avail_in_time[res][tt] < 0:
                                unfeasible_non_renewable_resources = True
            if worker_ids is not None:
                priority_list_this_task = solution.priority_worker_per_task[act_id - 2]
                worker_used = []
                current_skills = {s: 0.0 for s in required_skills}
                for w in priority_list_this_task:
                    if w in worker_ids:
                        worker_used += [w]
                        for s in problem.employees[w].dict_skill:
                            if s in current_skills:
                                current_skills[s] += problem.employees[w].dict_skill[s].skill_value
                                if act_id not in employee_usage:
                                    employee_usage[act_id] = {}
                                if w not in employee_usage[act_id]:
                                    employee_usage[act_id][w] = set()
                                employee_usage[act_id][w].add(s)
                        for t in range(current_min_time, current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                            worker_avail_in_time[w][t] = False
                    if all((current_skills[s] >= required_skills[s] for s in required_skills)):
                        break
            activity_end_times[act_id] = current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
            perm_extended.remove(act_id)
            for s in problem.successors[act_id]:
                minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])
        worker_ids = None
    rcpsp_schedule = {}
    for act_id in activity_end_times:
        rcpsp_schedule[act_id] = {}
        rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']
        rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
    if unfeasible_non_renewable_resources or unfeasible_in_horizon:
        rcpsp_schedule_feasible = False
        last_act_id = max(problem.successors.keys())
        if last_act_id not in rcpsp_schedule.keys():
            rcpsp_schedule[last_act_id] = {}
            rcpsp_schedule[last_act_id]['start_time'] = 99999999
            rcpsp_schedule[last_act_id]['end_time'] = 9999999
    else:
        rcpsp_schedule_feasible = True
    return (rcpsp_schedule, modes_extended, employee_usage, modes_dict)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "SkillDetail.__init__")
def _(self, skill_value, efficiency_ratio, experience):
    self.skill_value = skill_value
    self.efficiency_ratio = efficiency_ratio
    self.experience = experience


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "SkillDetail.copy")
def _(self):
    return SkillDetail(skill_value=self.skill_value, efficiency_ratio=self.efficiency_ratio, experience=self.experience)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "Employee.__init__")
def _(self, dict_skill, calendar_employee, salary=0.0):
    self.salary = salary
    self.dict_skill = dict_skill
    self.calendar_employee = calendar_employee


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "Employee.copy")
def _(self):
    return Employee(dict_skill={s: self.dict_skill[s].copy() for s in self.dict_skill}, calendar_employee=list(self.calendar_employee), salary=self.salary)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "intersect")
def _(i1, i2):
    if i2[0] >= i1[1] or i1[0] >= i2[1]:
        return None
    else:
        s = max(i1[0], i2[0])
        e = min(i1[1], i2[1])
        return [s, e]


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.__init__")
def _(self, skills_set, resources_set, non_renewable_resources, resources_availability, employees, employees_availability, mode_details, successors, horizon, horizon_multiplier=1, sink_task=None, source_task=None, one_unit_per_task_max=False):
    self.skills_set = skills_set
    self.resources_set = resources_set
    self.resources_list = list(self.resources_set)
    self.non_renewable_resources = non_renewable_resources
    self.resources_availability = resources_availability
    self.employees = employees
    self.employees_availability = employees_availability
    self.mode_details = mode_details
    self.successors = successors
    self.n_jobs_non_dummy = len(self.mode_details.keys()) - 2
    self.horizon = horizon
    self.horizon_multiplier = horizon_multiplier
    self.sink_task = sink_task
    self.source_task = source_task
    if self.sink_task is None:
        self.sink_task = max(self.mode_details)
    if self.source_task is None:
        self.source_task = min(self.mode_details)
    self.nb_tasks = len(self.mode_details)
    self.tasks = list(sorted(self.mode_details.keys()))
    self.one_unit_per_task_max = one_unit_per_task_max


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.build_multimode_rcpsp_calendar_representative")
def _(self):
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar
    if len(self.resources_list) == 0:
        skills_availability = {s: [0] * int(self.horizon) for s in self.skills_set}
    else:
        skills_availability = {s: [0] * len(self.resources_availability[self.resources_list[0]]) for s in self.skills_set}
    for emp in self.employees:
        for j in range(len(self.employees[emp].calendar_employee)):
            if self.employees[emp].calendar_employee[min(j, len(self.employees[emp].calendar_employee) - 1)]:
                for s in self.employees[emp].dict_skill:
                    skills_availability[s][min(j, len(skills_availability[s]) - 1)] += self.employees[emp].dict_skill[s].skill_value
    res_availability = deepcopy(self.resources_availability)
    for s in skills_availability:
        res_availability[s] = [int(x) for x in skills_availability[s]]
    mode_details = deepcopy(self.mode_details)
    for task in mode_details:
        for mode in mode_details[task]:
            for r in self.resources_set:
                if r not in mode_details[task][mode]:
                    mode_details[task][mode][r] = int(0)
            for s in self.skills_set:
                if s not in mode_details[task][mode]:
                    mode_details[task][mode][s] = int(0)
    rcpsp_model = RCPSPModelCalendar(resources=res_availability, non_renewable_resources=list(self.non_renewable_resources), mode_details=mode_details, successors=self.successors, horizon=self.horizon, horizon_multiplier=self.horizon_multiplier, name_task={i: str(i) for i in self.tasks}, calendar_details=None)
    return rcpsp_model


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.compute_graph")
def _(self):
    nodes = [(n, {mode: self.mode_details[n][mode]['duration'] for mode in self.mode_details[n]}) for n in range(1, self.n_jobs_non_dummy + 3)]
    edges = []
    for n in self.successors:
        for succ in self.successors[n]:
            edges += [(n, succ, {})]
    return Graph(nodes, edges, False)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.evaluate_function")
def _(self, rcpsp_sol):
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    return makespan


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.evaluate")
def _(self, rcpsp_sol):
    obj_makespan = self.evaluate_function(rcpsp_sol)
    return {'makespan': obj_makespan}


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.evaluate_mobj")
def _(self, rcpsp_sol):
    return self.evaluate_mobj_from_dict(self.evaluate(rcpsp_sol))


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.evaluate_mobj_from_dict")
def _(self, dict_values):
    return TupleFitness(np.array([-dict_values['makespan']]), 1)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.satisfy")
def _(self, rcpsp_sol):
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s] for s in self.mode_details[task][mode] if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value for emp in rcpsp_sol.employee_usage.get(task, {}) if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all((self.employees[e].calendar_employee[t] for t in range(rcpsp_sol.schedule[task]['start_time'], rcpsp_sol.schedule[task]['end_time']))):
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks if t2 > t1 and intersect((rcpsp_sol.schedule[t1]['start_time'], rcpsp_sol.schedule[t1]['end_time']), (rcpsp_sol.schedule[t2]['start_time'], rcpsp_sol.schedule[t2]['end_time'])) is not None]
    for t1, t2 in overlaps:
        if any((k in rcpsp_sol.employee_usage.get(t2, {}) for k in rcpsp_sol.employee_usage.get(t1, {}))):
            return False
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                for res in self.resources_set:
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                return False
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            return False
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                return False
    return True


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.get_solution_type")
def _(self):
    return MS_RCPSPSolution


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.get_attribute_register")
def _(self):
    dict_register = {}
    dict_register['modes'] = {'name': 'modes', 'type': [Dict[int, int]]}
    dict_register['schedule'] = {'name': 'schedule', 'type': [Dict[int, Dict[str, int]]]}
    dict_register['employee_usage'] = {'name': 'employee_usage', 'type': [Dict[int, Dict[int, Set[str]]]]}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.get_objective_register")
def _(self):
    dict_objective = {'makespan': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'mean_resource_reserve': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.SINGLE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.copy")
def _(self):
    return MS_RCPSPModel(skills_set=self.skills_set, resources_set=self.resources_set, non_renewable_resources=self.non_renewable_resources, resources_availability=self.resources_availability, employees=self.employees, employees_availability=self.employees_availability, mode_details=self.mode_details, successors=self.successors, horizon=self.horizon, horizon_multiplier=self.horizon_multiplier, sink_task=self.sink_task, source_task=self.source_task, one_unit_per_task_max=self.one_unit_per_task_max)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.to_variant_model")
def _(self):
    return MS_RCPSPModel_Variant(skills_set=self.skills_set, resources_set=self.resources_set, non_renewable_resources=self.non_renewable_resources, resources_availability=self.resources_availability, employees=self.employees, employees_availability=self.employees_availability, mode_details=self.mode_details, successors=self.successors, horizon=self.horizon, horizon_multiplier=self.horizon_multiplier, sink_task=self.sink_task, source_task=self.source_task, one_unit_per_task_max=self.one_unit_per_task_max)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel.get_dummy_solution")
def _(self):
    return None


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.__init__")
def _(self, skills_set, resources_set, non_renewable_resources, resources_availability, employees, employees_availability, mode_details, successors, horizon, horizon_multiplier=1, sink_task=None, source_task=None, one_unit_per_task_max=False):
    MS_RCPSPModel.__init__(self, skills_set=skills_set, resources_set=resources_set, non_renewable_resources=non_renewable_resources, resources_availability=resources_availability, employees=employees, employees_availability=employees_availability, mode_details=mode_details, successors=successors, horizon=horizon, horizon_multiplier=horizon_multiplier, sink_task=sink_task, source_task=source_task, one_unit_per_task_max=one_unit_per_task_max)
    self.fixed_modes = None
    self.fixed_permutation = None
    self.fixed_priority_worker_per_task = None


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.get_attribute_register")
def _(self):
    dict_register = {}
    max_number_modes = max([len(list(self.mode_details[x].keys())) for x in self.mode_details.keys()])
    dict_register['priority_list_task'] = {'name': 'priority_list_task', 'type': [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_RCPSP], 'range': range(self.n_jobs_non_dummy), 'n': self.n_jobs_non_dummy}
    dict_register['priority_worker_per_task_perm'] = {'name': 'priority_worker_per_task', 'type': [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_RCPSP], 'range': range(self.n_jobs_non_dummy * len(self.employees.keys())), 'n': self.n_jobs_non_dummy * len(self.employees.keys())}
    dict_register['priority_worker_per_task'] = {'name': 'priority_worker_per_task', 'type': [List[List[int]]]}
    dict_register['modes_vector'] = {'name': 'modes_vector', 'n': self.n_jobs_non_dummy, 'arrity': max_number_modes, 'type': [TypeAttribute.LIST_INTEGER]}
    mode_arrity = [len(list(self.mode_details[list(self.mode_details.keys())[i]].keys())) for i in range(1, len(self.mode_details.keys()) - 1)]
    dict_register['modes_arrity_fix'] = {'name': 'modes_vector', 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY], 'n': self.n_jobs_non_dummy, 'arrities': mode_arrity}
    dict_register['modes_arrity_fix_from_0'] = {'name': 'modes_vector_from0', 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY], 'n': self.n_jobs_non_dummy, 'arrities': mode_arrity}
    dict_register['schedule'] = {'name': 'schedule', 'type': [Dict[int, Dict[str, int]]]}
    dict_register['employee_usage'] = {'name': 'employee_usage', 'type': [Dict[int, Dict[int, Set[str]]]]}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.get_dummy_solution")
def _(self):
    return MS_RCPSPSolution_Variant(problem=self, priority_list_task=[i for i in range(self.n_jobs_non_dummy)], modes_vector=[1 for i in range(self.n_jobs_non_dummy)], priority_worker_per_task=[[w for w in self.employees] for i in range(self.n_jobs_non_dummy)])


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.evaluate_function")
def _(self, rcpsp_sol):
    try:
        if rcpsp_sol._schedule_to_recompute:
            rcpsp_sol.do_recompute()
    except:
        pass
    return super().evaluate_function(rcpsp_sol)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.set_fixed_attributes")
def _(self, encoding_str, sol):
    att = self.get_attribute_register().dict_attribute_to_type[encoding_str]['name']
    if att == 'modes_vector':
        self.set_fixed_modes(sol.modes_vector)
    elif att == 'modes_vector_from0':
        modes_corrected = [x + 1 for x in sol.modes_vector_from0]
        self.set_fixed_modes(modes_corrected)
    elif att == 'priority_worker_per_task':
        self.set_fixed_priority_worker_per_task(sol.priority_worker_per_task)
    elif att == 'priority_list_task':
        self.set_fixed_task_permutation(sol.priority_list_task)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.set_fixed_modes")
def _(self, fixed_modes):
    self.fixed_modes = fixed_modes


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.set_fixed_task_permutation")
def _(self, fixed_permutation):
    self.fixed_permutation = fixed_permutation


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.set_fixed_priority_worker_per_task")
def _(self, fixed_priority_worker_per_task):
    self.fixed_priority_worker_per_task = fixed_priority_worker_per_task


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.set_fixed_priority_worker_per_task_from_permutation")
def _(self, permutation):
    self.fixed_priority_worker_per_task = self.convert_fixed_priority_worker_per_task_from_permutation(permutation)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.convert_fixed_priority_worker_per_task_from_permutation")
def _(self, permutation):
    priority_worker_per_task_corrected = []
    for i in range(self.n_jobs_non_dummy):
        tmp = []
        for j in range(len(self.employees.keys())):
            tmp.append(permutation[i * len(self.employees.keys()) + j])
        tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
        priority_worker_per_task_corrected.append(tmp_corrected)
    return priority_worker_per_task_corrected


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'priority_list_task':
        rcpsp_sol = MS_RCPSPSolution_Variant(problem=self, priority_list_task=int_vector, modes_vector=self.fixed_modes, priority_worker_per_task=self.fixed_priority_worker_per_task)
    elif encoding_name == 'modes_vector':
        modes_corrected = int_vector
        rcpsp_sol = MS_RCPSPSolution_Variant(problem=self, priority_list_task=self.fixed_permutation, modes_vector=modes_corrected, priority_worker_per_task=self.fixed_priority_worker_per_task)
    elif encoding_name == 'modes_vector_from0':
        modes_corrected = [x + 1 for x in int_vector]
        rcpsp_sol = MS_RCPSPSolution_Variant(problem=self, priority_list_task=self.fixed_permutation, modes_vector=modes_corrected, priority_worker_per_task=self.fixed_priority_worker_per_task)
    elif encoding_name == 'priority_worker_per_task':
        priority_worker_per_task_corrected = []
        for i in range(self.n_jobs_non_dummy):
            tmp = []
            for j in range(len(self.employees.keys())):
                tmp.append(int_vector[i * len(self.employees.keys()) + j])
            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
            priority_worker_per_task_corrected.append(tmp_corrected)
        rcpsp_sol = MS_RCPSPSolution_Variant(problem=self, priority_list_task=self.fixed_permutation, modes_vector=self.fixed_modes, priority_worker_per_task=priority_worker_per_task_corrected)
    objectives = self.evaluate(rcpsp_sol)
    return objectives


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py", "MS_RCPSPModel_Variant.get_solution_type")
def _(self):
    return MS_RCPSPSolution_Variant


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "get_data_available")
def _():
    files = [f for f in os.listdir(path_to_data) if 'pk' not in f and 'json' not in f]
    return [os.path.join(path_to_data, f) for f in files]


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "get_results_directory")
def _(directory):
    files = [f for f in os.listdir(directory) if '.sol' in f]
    return [os.path.join(directory, f) for f in files]


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "parse_imopse")
def _(input_data, max_horizon=None):
    lines = input_data.split('\n')
    nb_task = None
    nb_worker = None
    nb_precedence_relation = None
    nb_skills = None
    resource_zone = False
    task_zone = False
    resource_dict = {}
    task_dict = {}
    real_skills_found = set()
    for line in lines:
        words = line.split()
        if len(words) == 2 and words[0] == 'Tasks:':
            nb_task = int(words[1])
            continue
        if len(words) == 2 and words[0] == 'Resources:':
            nb_worker = int(words[1])
            continue
        if len(words) == 3 and words[0] == 'Precedence' and (words[1] == 'relations:'):
            nb_precedence_relation = int(words[2])
            continue
        if len(words) == 5 and words[0] == 'Number' and (words[1] == 'of'):
            nb_skills = int(words[4])
            continue
        if len(words) == 0:
            continue
        if words[0] == 'ResourceID':
            resource_zone = True
            continue
        if words[0] == 'TaskID':
            task_zone = True
            continue
        if resource_zone:
            if words[0][0] == '=':
                resource_zone = False
                continue
            else:
                id_worker = words[0]
                resource_dict[id_worker] = {'salary': float(words[1])}
                for word in words[2:]:
                    if word[0] == 'Q':
                        current_skill = word[:-1]
                        continue
                    resource_dict[id_worker][current_skill] = int(word) + 1
                    real_skills_found.add(current_skill)
        if task_zone:
            if words[0][0] == '=':
                task_zone = False
                continue
            else:
                task_id = int(words[0])
                if task_id not in task_dict:
                    task_dict[task_id] = {'id': task_id, 'successors': [], 'skills': {}}
                task_dict[task_id]['duration'] = int(words[1])
            i = 2
            while i < len(words):
                if words[i][0] == 'Q':
                    current_skill = words[i][:-1]
                    task_dict[task_id]['skills'][current_skill] = int(words[i + 1]) + 1
                    real_skills_found.add(current_skill)
                    i = i + 2
                    continue
                else:
                    if 'precedence' not in task_dict[task_id]:
                        task_dict[task_id]['precedence'] = []
                    task_dict[task_id]['precedence'] += [int(words[i])]
                    if int(words[i]) not in task_dict:
                        task_dict[int(words[i])] = {'id': int(words[i]), 'successors': [], 'skills': {}}
                    if 'successors' not in task_dict[int(words[i])]:
                        task_dict[int(words[i])]['successors'] = []
                    task_dict[int(words[i])]['successors'] += [task_id]
                    i += 1
    sorted_task_names = sorted(task_dict.keys())
    task_id_to_new_name = {sorted_task_names[i]: i + 2 for i in range(len(sorted_task_names))}
    new_tame_to_original_task_id = {task_id_to_new_name[ind]: ind for ind in task_id_to_new_name}
    mode_details = {task_id_to_new_name[task_id]: {1: {'duration': task_dict[task_id]['duration']}} for task_id in task_dict}
    resource_dict = {int(i): resource_dict[i] for i in resource_dict}
    skills = real_skills_found
    for task_id in task_dict:
        for skill in skills:
            req_squill = task_dict[task_id]['skills'].get(skill, 0.0)
            mode_details[task_id_to_new_name[task_id]][1][skill] = req_squill
    mode_details[1] = {1: {'duration': 0}}
    for skill in skills:
        mode_details[1][1][skill] = int(0)
    max_t = max(mode_details)
    mode_details[max_t + 1] = {1: {'duration': 0}}
    for skill in skills:
        mode_details[max_t + 1][1][skill] = int(0)
    successors = {task_id_to_new_name[task_id]: [task_id_to_new_name[t] for t in task_dict[task_id]['successors']] + [max_t + 1] for task_id in task_dict}
    successors[max_t + 1] = []
    successors[1] = [k for k in successors]
    max_horizon = 300 if max_horizon is None else max_horizon
    return (MS_RCPSPModel(skills_set=set(real_skills_found), resources_set=set(), non_renewable_resources=set(), resources_availability={}, employees={res: Employee(dict_skill={skill: SkillDetail(skill_value=resource_dict[res][skill], efficiency_ratio=1.0, experience=1.0) for skill in resource_dict[res] if skill != 'salary'}, salary=resource_dict[res]['salary'], calendar_employee=[True] * max_horizon) for res in resource_dict}, employees_availability=[len(resource_dict)] * max_horizon, mode_details=mode_details, successors=successors, horizon=max_horizon, source_task=1, sink_task=max_t + 1, one_unit_per_task_max=True), new_tame_to_original_task_id)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "parse_results")
def _(input_data):
    lines = input_data.split('\n')
    schedule = {}
    assignation = {}
    for i in range(1, len(lines)):
        line = lines[i]
        words = line.split()
        try:
            hour = int(words[0])
            for j in range(1, len(words)):
                w = words[j].split('-')
                ressource_id = int(w[0])
                task_id = int(w[1])
                assignation[task_id] = ressource_id
                schedule[task_id] = hour
        except:
            pass
    return (schedule, assignation)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "recompute_solution")
def _(ms_rcpsp_model, new_name_to_original_task_id, schedule, assignation):
    reverse_name = {new_name_to_original_task_id[key]: key for key in new_name_to_original_task_id}
    schedule_recomputed = {}
    modes = {}
    employee_usage = {}
    for task in schedule:
        schedule_recomputed[reverse_name[task]] = {'start_time': schedule[task]}
        duration = ms_rcpsp_model.mode_details[reverse_name[task]][1]['duration']
        schedule_recomputed[reverse_name[task]]['end_time'] = schedule_recomputed[reverse_name[task]]['start_time'] + duration
        modes[reverse_name[task]] = 1
        employee = assignation[task]
        skills_used_by_employees = [s for s in ms_rcpsp_model.employees[employee].dict_skill if ms_rcpsp_model.employees[employee].dict_skill[s].skill_value > 0 and s in ms_rcpsp_model.mode_details[reverse_name[task]][1] and (ms_rcpsp_model.mode_details[reverse_name[task]][1][s] > 0)]
        employee_usage[reverse_name[task]] = {employee: set(skills_used_by_employees)}
    employee_usage[ms_rcpsp_model.source_task] = {}
    employee_usage[ms_rcpsp_model.sink_task] = {}
    modes[ms_rcpsp_model.source_task] = 1
    modes[ms_rcpsp_model.sink_task] = 1
    schedule_recomputed[ms_rcpsp_model.source_task] = {'start_time': 0, 'end_time': 0}
    last_time = max([schedule_recomputed[x]['end_time'] for x in schedule_recomputed])
    schedule_recomputed[ms_rcpsp_model.sink_task] = {'start_time': last_time, 'end_time': last_time}
    return MS_RCPSPSolution(problem=ms_rcpsp_model, modes=modes, schedule=schedule_recomputed, employee_usage=employee_usage)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "parse_file")
def _(file_path, max_horizon=None):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        rcpsp_model, new_tame_to_original_task_id = parse_imopse(input_data, max_horizon)
        return (rcpsp_model, new_tame_to_original_task_id)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "parse_one_file")
def _():
    files = get_data_available()
    file = [f for f in files if '100_5_20_9_D3.def' in f][0]
    model = parse_file(file)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "write_solution")
def _(solution, new_tame_to_original_task_id, file_path=''):
    file1 = open(file_path, 'w')
    file1.writelines(['Hour \t Resource assignments (resource ID - task ID) \n'])
    sorted_task_per_hour = sorted(solution.schedule, key=lambda x: solution.schedule[x]['start_time'])
    strings_hours = {}
    for task in sorted_task_per_hour:
        if task in new_tame_to_original_task_id:
            original_task = new_tame_to_original_task_id[task]
            employees_used = list(solution.employee_usage[task].keys())
            hour = solution.schedule[task]['start_time']
            if hour not in strings_hours:
                strings_hours[hour] = str(hour) + ' '
            for emp in employees_used:
                strings_hours[hour] += str(emp) + '-' + str(original_task) + ' '
    file1.writelines([strings_hours[hour] + '\n' for hour in sorted(strings_hours)])
    file1.close()


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py", "run_recompute")
def _():
    schedule, assignation = parse_results(open('/Users/poveda_g/Documents/discrete-optimisation/discrete_optimization/data/rcpsp_multiskill/de_best/100_5_20_9_D3.def.sol', 'r').read())
    model, name = parse_imopse(open('/Users/poveda_g/Documents/discrete-optimisation/discrete_optimization/data/rcpsp_multiskill/dataset_def/100_5_20_9_D3.def', 'r').read(), max_horizon=1000)
    solution = recompute_solution(model, name, schedule, assignation)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py", "look_for_solver")
def _(domain):
    class_domain = domain.__class__
    available = []
    for solver in solvers_compatibility:
        if class_domain in solvers_compatibility[solver]:
            available += [solver]
    return available


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py", "solve")
def _(method, rcpsp_model, **args):
    solver = method(rcpsp_model, **args)
    try:
        solver.init_model(**args)
    except:
        pass
    return solver.solve(**args)


@spec("builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py", "return_solver")
def _(method, rcpsp_model, **args):
    solver = method(rcpsp_model, **args)
    try:
        solver.init_model(**args)
    except:
        pass
    return solver


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "get_ressource_breaks")
def _(problem_calendar, solution):
    ressources = problem_calendar.resources_availability
    ressource_arrays = {}
    ressource_arrays_usage = {}
    employees_arrays = {}
    employees_arrays_usage = {}
    for r in ressources:
        ressource_arrays[r] = np.zeros(len(problem_calendar.resources_availability[r]))
        ressource_arrays_usage[r] = np.zeros((len(problem_calendar.resources_availability[r]), len(solution.schedule)))
    for emp in problem_calendar.employees:
        employees_arrays[emp] = np.zeros(len(problem_calendar.employees[emp].calendar_employee))
        employees_arrays_usage[emp] = np.zeros((len(problem_calendar.employees[emp].calendar_employee), len(solution.schedule)))
    sorted_keys_schedule = sorted(solution.schedule.keys())
    for ji in range(len(sorted_keys_schedule)):
        j = sorted_keys_schedule[ji]
        for r in problem_calendar.mode_details[j][1]:
            if r == 'duration':
                continue
            if r is None:
                continue
            if r == 'None':
                continue
            if r not in ressource_arrays_usage:
                continue
            if problem_calendar.mode_details[j][1][r] == 0:
                continue
            if solution.schedule[j]['end_time'] == solution.schedule[j]['start_time']:
                continue
            ressource_arrays_usage[r][int(solution.schedule[j]['start_time']):int(solution.schedule[j]['end_time']), ji] = 1
            ressource_arrays[r][int(solution.schedule[j]['start_time']):int(solution.schedule[j]['end_time'])] += problem_calendar.mode_details[j][1][r]
    for ji in range(len(sorted_keys_schedule)):
        j = sorted_keys_schedule[ji]
        emp_usage = solution.employee_usage.get(j, {})
        for emp in emp_usage:
            if len(emp_usage[emp]) > 0:
                employees_arrays_usage[emp][int(solution.schedule[j]['start_time']):int(solution.schedule[j]['end_time']), ji] = 1
                employees_arrays[emp][int(solution.schedule[j]['start_time']):int(solution.schedule[j]['end_time'])] += 1
    index_ressource = {}
    task_concerned = {}
    constraints = {}
    for r in ressource_arrays:
        index = np.argwhere(ressource_arrays[r] > problem_calendar.resources_availability[r])
        index_ressource[r] = index
        task_concerned[r] = [j for j in range(ressource_arrays_usage[r].shape[1]) if any((ressource_arrays_usage[r][ind[0], j] == 1 for ind in index if problem_calendar.resources_availability[r][ind[0]] == 0))]
        task_concerned[r] = [sorted_keys_schedule[rr] for rr in task_concerned[r]]
        constraints[r] = {}
        for t in task_concerned[r]:
            current_start = solution.schedule[t]['start_time']
            first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources_availability[r])) if problem_calendar.resources_availability[r][st] >= problem_calendar.mode_details[t][1][r]), None)
            first_possible_start_before = next((st for st in range(current_start, -1, -1) if problem_calendar.resources_availability[r][st] >= problem_calendar.mode_details[t][1][r]), None)
            constraints[r][t] = (first_possible_start_before, first_possible_start_future)
    index_employee = {}
    constraints_employee = {}
    for emp in employees_arrays:
        index = np.argwhere(employees_arrays[emp] > 1 * problem_calendar.employees[emp].calendar_employee)
        task_concerned[emp] = [j for j in range(employees_arrays_usage[emp].shape[1]) if any((employees_arrays_usage[emp][ind[0], j] == 1 for ind in index if not problem_calendar.employees[emp].calendar_employee[ind[0]]))]
        task_concerned[emp] = [sorted_keys_schedule[rr] for rr in task_concerned[emp]]
        constraints_employee[emp] = {}
        for t in task_concerned[emp]:
            current_start = solution.schedule[t]['start_time']
            first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.employees[emp].calendar_employee)) if problem_calendar.employees[emp].calendar_employee[st]), None)
            first_possible_start_before = next((st for st in range(current_start, -1, -1) if problem_calendar.employees[emp].calendar_employee[st]), None)
            constraints_employee[emp][t] = (first_possible_start_before, first_possible_start_future)
    return (index_ressource, constraints, constraints_employee)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "PostProcessSolutionNonFeasible.__init__")
def _(self, problem_calendar, problem_no_calendar, partial_solution=None):
    self.problem_calendar = problem_calendar
    self.problem_no_calendar = problem_no_calendar
    self.partial_solution = partial_solution
    if self.partial_solution is None:

        def check_solution(problem, solution):
            return True
    else:

        def check_solution(problem, solution):
            start_together = partial_solution.start_together
            start_at_end = partial_solution.start_at_end
            start_at_end_plus_offset = partial_solution.start_at_end_plus_offset
            start_after_nunit = partial_solution.start_after_nunit
            for t1, t2 in start_together:
                b = solution.schedule[t1]['start_time'] == solution.schedule[t2]['start_time']
                if not b:
                    return False
            for t1, t2 in start_at_end:
                b = solution.schedule[t2]['start_time'] == solution.schedule[t1]['end_time']
                if not b:
                    return False
            for t1, t2, off in start_at_end_plus_offset:
                b = solution.schedule[t2]['start_time'] >= solution.schedule[t1]['end_time'] + off
                if not b:
                    return False
            for t1, t2, off in start_after_nunit:
                b = solution.schedule[t2]['start_time'] >= solution.schedule[t1]['start_time'] + off
                if not b:
                    return False
            return True
    self.check_sol = check_solution
    self.graph = self.problem_calendar.compute_graph()
    self.successors = {n: nx.algorithms.descendants(self.graph.graph_nx, n) for n in self.graph.graph_nx.nodes()}
    self.predecessors = {n: nx.algorithms.descendants(self.graph.graph_nx, n) for n in self.graph.graph_nx.nodes()}
    self.immediate_predecessors = {n: self.graph.get_predecessors(n) for n in self.graph.nodes_name}


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "PostProcessSolutionNonFeasible.build_other_solution")
def _(self, result_storage):
    for sol in result_storage.list_solution_fits:
        if 'satisfy' not in sol[0].__dict__.keys():
            rb, constraints, constraint_emp = get_ressource_breaks(self.problem_calendar, sol[0])
            sol[0].satisfy = not any((len(rb[r]) > 0 for r in rb))
            sol[0].satisfy = self.problem_calendar.satisfy(sol[0])
            sol[0].constraints = constraints
        if sol[0].satisfy is False:
            if self.partial_solution is None:
                s = sol[0]
                s.problem = self.problem_calendar
                solution = schedule_solution_to_variant(s)
                solution.satisfy = self.check_sol(self.problem_calendar, solution)
                solution.satisfy = self.problem_calendar.satisfy(solution)
                result_storage.list_solution_fits += [(solution, -self.problem_calendar.evaluate(solution)['makespan'])]
    return result_storage


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "ConstraintHandlerAddCalendarConstraint.__init__")
def _(self, problem_calendar, problem_no_calendar, other_constraint):
    self.problem_calendar = problem_calendar
    self.problem_no_calendar = problem_no_calendar
    self.other_constraint = other_constraint


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "ConstraintHandlerAddCalendarConstraint.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    solution, fit = result_storage.get_best_solution_fit()
    solution = solution
    if 'satisfy' in solution.__dict__.keys() and solution.satisfy:
        return self.other_constraint.adding_constraint_from_results_store(cp_solver, child_instance, ResultStorage(list_solution_fits=[(solution, fit)], mode_optim=result_storage.mode_optim))
    ressource_breaks, constraints, constraints_employee = get_ressource_breaks(self.problem_calendar, solution)
    list_strings = []
    max_time = max([solution.schedule[x]['end_time'] for x in solution.schedule])
    tasks = sorted(self.problem_calendar.mode_details.keys())
    for r in constraints:
        for t in constraints[r]:
            index = tasks.index(t)
            s = None
            if isinstance(cp_solver, CP_MS_MRCPSP_MZN):
                if constraints[r][t][0] is not None and constraints[r][t][1] is not None:
                    s = 'constraint start[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ' \\/ start[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is None and constraints[r][t][1] is not None:
                    s = 'constraint start[' + str(index + 1) + ']>=' + str(constraints[r][t][1]) + ';\n'
                elif constraints[r][t][0] is not None and constraints[r][t][1] is None:
                    s = 'constraint start[' + str(index + 1) + ']<=' + str(constraints[r][t][0]) + ';\n'
            if s is not None:
                child_instance.add_string(s)
                list_strings += [s]
    for r in ressource_breaks:
        for index in ressource_breaks[r]:
            if random.random() < 0.6:
                continue
            ind = index[0]
            if r in self.problem_calendar.resources_availability:
                index_ressource = cp_solver.resources_index.index(r)
                rq = self.problem_calendar.resources_availability[r][ind]
                s = 'constraint ' + str(rq) + '>=sum( i in Act ) (\n                                        bool2int(start[i] <=' + str(ind) + ' /\\ ' + str(ind) + '< start[i] + adur[i]) * arreq[' + str(index_ressource + 1) + ',i]);\n'
                child_instance.add_string(s)
                list_strings += [s]
            if r in self.problem_calendar.employees:
                index_ressource = cp_solver.employees_position.index(r)
                rq = int(self.problem_calendar.employees[r].calendar_employee[ind])
                s = 'constraint ' + str(rq) + '>=sum( i in Act ) (\n                                        bool2int(start[i] <=' + str(ind) + ' /\\ ' + str(ind) + '< start[i] + adur[i]) * unit_used[' + str(index_ressource + 1) + ',i]);\n'
                child_instance.add_string(s)
                list_strings += [s]
    satisfiable = [(s, f) for s, f in result_storage.list_solution_fits if 'satisfy' in s.__dict__.keys() and s.satisfy]
    if len(satisfiable) > 0:
        res = ResultStorage(list_solution_fits=satisfiable, mode_optim=result_storage.mode_optim)
        self.other_constraint.adding_constraint_from_results_store(cp_solver, child_instance, res)
    return ['req'] + list_strings


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "SolverWithCalendarIterative.__init__")
def _(self, problem_calendar, partial_solution=None, option_neighbor=OptionNeighbor.MIX_FAST, **kwargs):
    self.problem_calendar = problem_calendar
    self.problem_no_calendar = self.problem_calendar.copy()
    self.problem_no_calendar = MS_RCPSPModel(skills_set=self.problem_calendar.skills_set, resources_set=self.problem_calendar.resources_set, non_renewable_resources=self.problem_calendar.non_renewable_resources, resources_availability={r: [int(max(self.problem_calendar.resources_availability[r]))] * len(self.problem_calendar.resources_availability[r]) for r in self.problem_calendar.resources_availability}, employees={emp: self.problem_calendar.employees[emp].copy() for emp in self.problem_calendar.employees}, employees_availability=self.problem_calendar.employees_availability, mode_details=self.problem_calendar.mode_details, successors=self.problem_calendar.successors, horizon=self.problem_calendar.horizon, horizon_multiplier=self.problem_calendar.horizon_multiplier, sink_task=self.problem_calendar.sink_task, source_task=self.problem_calendar.source_task, one_unit_per_task_max=self.problem_calendar.one_unit_per_task_max)
    for emp in self.problem_calendar.employees:
        self.problem_no_calendar.employees[emp].calendar_employee = [max(self.problem_calendar.employees[emp].calendar_employee)] * len(self.problem_calendar.employees[emp].calendar_employee)
    solver = CP_MS_MRCPSP_MZN(rcpsp_model=self.problem_no_calendar, cp_solver_name=CPSolverName.CHUFFED)
    solver.init_model(output_type=True, model_type='single', partial_solution=partial_solution, add_calendar_constraint_unit=False, exact_skills_need=False)
    parameters_cp = ParametersCP.default()
    parameters_cp.TimeLimit = 500
    parameters_cp.TimeLimit_iter0 = 500
    params_objective_function = get_default_objective_setup(problem=self.problem_no_calendar)
    constraint_handler = build_neighbor_operator(option_neighbor=option_neighbor, rcpsp_model=self.problem_no_calendar)
    constraint_handler = ConstraintHandlerAddCalendarConstraint(self.problem_calendar, self.problem_no_calendar, constraint_handler)
    initial_solution_provider = InitialSolutionMS_RCPSP(problem=self.problem_calendar, initial_method=InitialMethodRCPSP.PILE_CALENDAR, params_objective_function=params_objective_function)
    self.initial_solution_provider = initial_solution_provider
    self.constraint_handler = constraint_handler
    self.params_objective_function = params_objective_function
    self.cp_solver = solver
    self.post_process_solution = PostProcessSolutionNonFeasible(self.problem_calendar, self.problem_no_calendar, partial_solution=partial_solution)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py", "SolverWithCalendarIterative.solve")
def _(self, parameters_cp, nb_iteration_lns, nb_iteration_no_improvement=None, max_time_seconds=None, skip_first_iteration=False, **args):
    sense = self.params_objective_function.sense_function
    if max_time_seconds is None:
        max_time_seconds = 3600 * 24
    if nb_iteration_no_improvement is None:
        nb_iteration_no_improvement = 2 * nb_iteration_lns
    current_nb_iteration_no_improvement = 0
    deb_time = time.time()
    if not skip_first_iteration:
        store_lns = self.initial_solution_provider.get_starting_solution()
        store_lns = self.post_process_solution.build_other_solution(store_lns)
        store_with_all = ResultStorage(list(store_lns.list_solution_fits), mode_optim=store_lns.mode_optim)
        init_solution, objective = store_lns.get_best_solution_fit()
        best_solution = init_solution.copy()
        satisfy = self.problem_calendar.satisfy(init_solution)
        best_objective = objective
    else:
        best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
        best_solution = None
        constraint_iterable = {'empty': []}
        store_lns = None
        store_with_all = None
    constraint_to_keep = set()
    for iteration in range(nb_iteration_lns):
        try:
            pass
        except:
            pass
        with self.cp_solver.instance.branch() as child:
            if iteration == 0 and (not skip_first_iteration) or iteration >= 1:
                for c in constraint_to_keep:
                    child.add_string(c)
                constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(cp_solver=self.cp_solver, child_instance=child, result_storage=store_lns)
                if constraint_iterable[0] == 'req':
                    constraint_to_keep.update(set([c for c in constraint_iterable[1:]]))
            if True:
                if iteration == 0:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit_iter0), intermediate_solutions=parameters_cp.intermediate_solution)
                else:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit), intermediate_solutions=parameters_cp.intermediate_solution)
                result_store = self.cp_solver.retrieve_solutions(result, parameters_cp=parameters_cp)
                if len(result_store.list_solution_fits) > 0:
                    bsol, fit = result_store.get_best_solution_fit()
                    result_store = self.post_process_solution.build_other_solution(result_store)
                    bsol, fit = result_store.get_best_solution_fit()
                    if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
                        if fit > best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MAXIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                        if fit < best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MINIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    if skip_first_iteration and iteration == 0:
                        store_lns = result_store
                        store_with_all = ResultStorage(list_solution_fits=list(store_lns.list_solution_fits), mode_optim=store_lns.mode_optim)
                    store_lns = result_store
                    for s, f in store_lns.list_solution_fits:
                        store_with_all.list_solution_fits += [(s, f)]
                    for s, f in store_with_all.list_solution_fits:
                        if s.satisfy:
                            store_lns.list_solution_fits += [(s, f)]
                else:
                    current_nb_iteration_no_improvement += 1
                if skip_first_iteration and result.status == Status.OPTIMAL_SOLUTION and (iteration == 0) and best_solution.satisfy:
                    break
            else:
                current_nb_iteration_no_improvement += 1
            if time.time() - deb_time > max_time_seconds:
                break
            if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
                break
    return store_with_all


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "MS_RCPSPSolCP.__init__")
def _(self, objective, _output_item, **kwargs):
    self.objective = objective
    self.dict = kwargs


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "MS_RCPSPSolCP.check")
def _(self):
    return True


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "CP_MS_MRCPSP_MZN.__init__")
def _(self, rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['start', 'mrun']
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)
    self.calendar = True
    if isinstance(self.rcpsp_model, RCPSPModelCalendar):
        self.calendar = True
    self.one_ressource_per_task = kwargs.get('one_ressource_per_task', False)
    self.resources_index = None


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "CP_MS_MRCPSP_MZN.init_model")
def _(self, **args):
    no_ressource = len(self.rcpsp_model.resources_list) == 0
    model_type = 'multi-calendar'
    model = Model(files_mzn[model_type])
    custom_output_type = args.get('output_type', False)
    exact_skills_need = args.get('exact_skills_need', True)
    if custom_output_type:
        model.output_type = MS_RCPSPSolCP
        self.custom_output_type = True
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    resources_list = sorted(list(self.rcpsp_model.resources_availability.keys()))
    self.resources_index = resources_list
    instance = Instance(solver, model)
    n_res = len(resources_list)
    keys = []
    instance['n_res'] = n_res
    keys += ['n_res']
    if model_type == 'multi-calendar':
        instance['exact_skills_need'] = exact_skills_need
        keys += ['exact_skills_need']
        instance['add_calendar_constraint_unit'] = args.get('add_calendar_constraint_unit', True)
        keys += ['add_calendar_constraint_unit']
    instance['exact_skills_need'] = exact_skills_need
    instance['one_ressource_per_task'] = self.one_ressource_per_task
    keys += ['one_ressource_per_task']
    n_tasks = self.rcpsp_model.n_jobs_non_dummy + 2
    instance['n_tasks'] = n_tasks
    keys += ['n_tasks']
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    n_opt = sum([len(list(self.rcpsp_model.mode_details[key].keys())) for key in sorted_tasks])
    instance['n_opt'] = n_opt
    keys += ['n_opt']
    modes = []
    dur = []
    counter = 0
    self.modeindex_map = {}
    for act in sorted_tasks:
        tmp = list(sorted(self.rcpsp_model.mode_details[act].keys()))
        for i in range(len(tmp)):
            original_mode_index = tmp[i]
            mod_index = counter + i + 1
            tmp[i] = mod_index
            self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
        modes.append(set(tmp))
        counter = tmp[-1]
        dur = dur + [self.rcpsp_model.mode_details[act][key]['duration'] for key in sorted(self.rcpsp_model.mode_details[act].keys())]
    instance['modes'] = modes
    keys += ['modes']
    instance['dur'] = dur
    keys += ['dur']
    rreq = []
    index = 0
    for res in resources_list:
        rreq.append([])
        for task in sorted_tasks:
            for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
        index += 1
    skills_set = sorted(list(self.rcpsp_model.skills_set))
    nb_units = len(self.rcpsp_model.employees)
    skill_required = []
    index = 0
    for skill in skills_set:
        skill_required.append([])
        for task in sorted_tasks:
            for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                skill_required[index].append(int(self.rcpsp_model.mode_details[task][mod].get(skill, 0)))
        index += 1
    if True:
        if no_ressource:
            instance['max_time'] = self.rcpsp_model.horizon
            keys += ['max_time']
            instance['ressource_capacity_time'] = []
            keys += ['ressource_capacity_time']
        else:
            one_ressource = list(self.rcpsp_model.resources_availability.keys())[0]
            instance['max_time'] = min(len(self.rcpsp_model.resources_availability[one_ressource]) - 1, self.rcpsp_model.horizon)
            keys += ['max_time']
            ressource_capacity_time = [[int(x) for x in self.rcpsp_model.resources_availability[res][:instance['max_time'] + 1]] for res in resources_list]
            instance['ressource_capacity_time'] = ressource_capacity_time
            keys += ['ressource_capacity_time']
    instance['nb_skill'] = len(self.rcpsp_model.skills_set)
    instance['skillreq'] = skill_required
    instance['nb_units'] = nb_units
    keys += ['nb_skill', 'skillreq', 'nb_units']
    ressource_unit_capacity_time = [[1 if x else 0 for x in self.rcpsp_model.employees[j].calendar_employee[:instance['max_time'] + 1]] for j in sorted(self.rcpsp_model.employees)]
    import math
    skillunits = [[int(math.floor(self.rcpsp_model.employees[j].dict_skill[s].skill_value)) if s in self.rcpsp_model.employees[j].dict_skill else 0 for s in skills_set] for j in sorted(self.rcpsp_model.employees)]
    self.employees_position = sorted(self.rcpsp_model.employees)
    instance['ressource_unit_capacity_time'] = ressource_unit_capacity_time
    instance['skillunits'] = skillunits
    keys += ['skillunits', 'ressource_unit_capacity_time']
    instance['rreq'] = rreq
    keys += ['rreq']
    rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
    instance['rcap'] = rcap
    keys += ['rcap']
    rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1 for res in resources_list]
    instance['rtype'] = rtype
    keys += ['rtype']
    succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
    instance['succ'] = succ
    keys += ['succ']
    self.instance = instance
    p_s = args.get('partial_solution', None)
    if p_s is not None:
        constraint_strings = []
        if p_s.start_times is not None:
            for task in p_s.start_times:
                string = 'constraint start[' + str(task) + '] == ' + str(p_s.start_times[task]) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.partial_permutation is not None:
            for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.list_partial_order is not None:
            for l in p_s.list_partial_order:
                for t1, t2 in zip(l[:-1], l[1:]):
                    string = 'constraint start[' + str(t1) + '] <= start[' + str(t2) + '];\n'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.task_mode is not None:
            for task in p_s.task_mode:
                indexes = [i for i in self.modeindex_map if self.modeindex_map[i]['task'] == task and self.modeindex_map[i]['original_mode_index'] == p_s.task_mode[task]]
                if len(indexes) >= 0:
                    string = 'constraint mrun[' + str(indexes[0]) + '] == 1;'
                    self.instance.add_string(string)
                    constraint_strings += [string]
        if p_s.start_together is not None:
            for t1, t2 in p_s.start_together:
                string = 'constraint start[' + str(t1) + '] == start[' + str(t2) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_after_nunit is not None:
            for t1, t2, delta in p_s.start_after_nunit:
                string = 'constraint start[' + str(t2) + '] >= start[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end_plus_offset is not None:
            for t1, t2, delta in p_s.start_at_end_plus_offset:
                string = 'constraint start[' + str(t2) + '] >= start[' + str(t1) + ']+adur[' + str(t1) + ']+' + str(delta) + ';\n'
                self.instance.add_string(string)
                constraint_strings += [string]
        if p_s.start_at_end is not None:
            for t1, t2 in p_s.start_at_end:
                string = 'constraint start[' + str(t2) + '] == start[' + str(t1) + ']+adur[' + str(t1) + '];\n'
                self.instance.add_string(string)
                constraint_strings += [string]


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "CP_MS_MRCPSP_MZN.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    best_solution = None
    best_makespan = -float('inf')
    list_solutions_fit = []
    starts = []
    mruns = []
    units_used = []
    if intermediate_solutions:
        for i in range(len(result)):
            if isinstance(result[i], MS_RCPSPSolCP):
                starts += [result[i].dict['start']]
                mruns += [result[i].dict['mrun']]
                units_used += [result[i].dict['unit_used']]
            else:
                starts += [result[i, 'start']]
                mruns += [result[i, 'mrun']]
                units_used += [result[i, 'unit_used']]
    elif isinstance(result, MS_RCPSPSolCP):
        starts += [result.dict['start']]
        mruns += [result.dict['mrun']]
        units_used += [result.dict['unit_used']]
    else:
        starts += [result['start']]
        mruns += [result['mrun']]
        units_used += [result['unit_used']]
    for start_times, mrun, unit_used in zip(starts, mruns, units_used):
        modes = []
        usage = {}
        for i in range(len(mrun)):
            if mrun[i] and self.modeindex_map[i + 1]['task'] != 1 and (self.modeindex_map[i + 1]['task'] != self.rcpsp_model.n_jobs_non_dummy + 2):
                modes.append(self.modeindex_map[i + 1]['original_mode_index'])
            elif self.modeindex_map[i + 1]['task'] == 1 or self.modeindex_map[i + 1]['task'] == self.rcpsp_model.n_jobs_non_dummy + 2:
                modes.append(1)
        for w in range(len(unit_used)):
            for task in range(len(unit_used[w])):
                if unit_used[w][task] == 1:
                    task_id = task + 1
                    mode = modes[task_id - 1]
                    skills_needed = set([s for s in self.rcpsp_model.skills_set if s in self.rcpsp_model.mode_details[task_id][mode] and self.rcpsp_model.mode_details[task_id][mode][s] > 0])
                    skills_worker = set([s for s in self.rcpsp_model.employees[self.employees_position[w]].dict_skill if self.rcpsp_model.employees[self.employees_position[w]].dict_skill[s].skill_value > 0])
                    intersection = skills_needed.intersection(skills_worker)
                    if len(intersection) > 0:
                        if task_id not in usage:
                            usage[task_id] = {}
                        usage[task_id][self.employees_position[w]] = intersection
        rcpsp_schedule = {}
        for i in range(len(start_times)):
            rcpsp_schedule[i + 1] = {'start_time': start_times[i], 'end_time': start_times[i] + self.rcpsp_model.mode_details[i + 1][modes[i]]['duration']}
        sol = MS_RCPSPSolution(problem=self.rcpsp_model, modes={i + 1: modes[i] for i in range(len(modes))}, schedule=rcpsp_schedule, employee_usage=usage)
        objective = self.aggreg_from_dict_values(self.rcpsp_model.evaluate(sol))
        if objective > best_makespan:
            best_makespan = objective
            best_solution = sol.copy()
        list_solutions_fit += [(sol, objective)]
    result_storage = ResultStorage(list_solution_fits=list_solutions_fit, best_solution=best_solution, mode_optim=self.params_objective_function.sense_function, limit_store=False)
    return result_storage


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py", "CP_MS_MRCPSP_MZN.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    if self.instance is None:
        self.init_model(**args)
    timeout = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    result = self.instance.solve(timeout=timedelta(seconds=timeout), intermediate_solutions=intermediate_solutions)
    verbose = args.get('verbose', True)
    if verbose:
        pass
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py", "PostProMSRCPSP.__init__")
def _(self, problem, params_objective_function):
    self.problem = problem
    self.params_objective_function = params_objective_function
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=self.params_objective_function)
    self.graph = self.problem.compute_graph()
    self.successors = {n: nx.algorithms.descendants(self.graph.graph_nx, n) for n in self.graph.graph_nx.nodes()}
    self.predecessors = {n: nx.algorithms.descendants(self.graph.graph_nx, n) for n in self.graph.graph_nx.nodes()}
    self.immediate_predecessors = {n: self.graph.get_predecessors(n) for n in self.graph.nodes_name}


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py", "PostProMSRCPSP.build_other_solution")
def _(self, result_storage):
    new_solution = sgs_variant(solution=result_storage.get_best_solution(), problem=self.problem, predecessors_dict=self.immediate_predecessors)
    fit = self.aggreg_from_sol(new_solution)
    result_storage.add_solution(new_solution, fit)
    import random
    for s in random.sample(result_storage.list_solution_fits, min(len(result_storage.list_solution_fits), 50)):
        new_solution = sgs_variant(solution=s[0], problem=self.problem, predecessors_dict=self.immediate_predecessors)
        fit = self.aggreg_from_sol(new_solution)
        result_storage.add_solution(new_solution, fit)
    return result_storage


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py", "sgs_variant")
def _(solution, problem, predecessors_dict):
    task_that_be_shifted_left = []
    new_proposed_schedule = {}
    resource_avail_in_time = {}
    new_horizon = problem.horizon
    for res in problem.resources_set:
        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
    worker_avail_in_time = {}
    for i in problem.employees:
        worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
    sorted_tasks = sorted(solution.schedule.keys(), key=lambda x: (solution.schedule[x]['start_time'], x))
    for task in sorted_tasks:
        employee_used = [emp for emp in solution.employee_usage.get(task, {}) if len(solution.employee_usage[task][emp]) > 0]
        times_predecessors = [new_proposed_schedule[t]['end_time'] if t in new_proposed_schedule else solution.schedule[t]['end_time'] for t in predecessors_dict[task]]
        if len(times_predecessors) > 0:
            min_time = max(times_predecessors)
        else:
            min_time = 0
        new_starting_time = solution.schedule[task]['start_time']
        for t in range(min_time, solution.schedule[task]['start_time'] + 1):
            if all((all((worker_avail_in_time[emp][time] for time in range(t, t + solution.schedule[task]['end_time'] - solution.schedule[task]['start_time']))) for emp in employee_used)):
                new_starting_time = t
                break
        duration = solution.schedule[task]['end_time'] - solution.schedule[task]['start_time']
        new_proposed_schedule[task] = {'start_time': new_starting_time, 'end_time': new_starting_time + duration}
        for t in range(new_starting_time, new_starting_time + duration):
            for emp in employee_used:
                worker_avail_in_time[emp][t] = False
    new_solution = MS_RCPSPSolution(problem=problem, modes=solution.modes, schedule=new_proposed_schedule, employee_usage=solution.employee_usage)
    return new_solution


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py", "LP_Solver_MRSCPSP.__init__")
def _(self, rcpsp_model, lp_solver=MilpSolverName.CBC, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.model = None
    self.lp_solver = lp_solver
    self.variable_decision = {}
    self.constraints_dict = {}
    self.constraints_dict['lns'] = []
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py", "LP_Solver_MRSCPSP.init_model")
def _(self, **args):
    self.model = Model(name='mrcpsp', sense=MINIMIZE, solver_name=map_solver[self.lp_solver])
    sorted_tasks = sorted(self.rcpsp_model.mode_details.keys())
    max_duration = sum([int(max([self.rcpsp_model.mode_details[key][mode]['duration'] for mode in self.rcpsp_model.mode_details[key]])) for key in sorted_tasks]) + 10
    renewable = {r: self.rcpsp_model.resources_availability[r] for r in self.rcpsp_model.resources_availability if r not in self.rcpsp_model.non_renewable_resources}
    non_renewable = {r: self.rcpsp_model.resources_availability[r] for r in self.rcpsp_model.non_renewable_resources}
    list_edges = []
    for task in sorted_tasks:
        for suc in self.rcpsp_model.successors[task]:
            list_edges.append([task, suc])
    times = range(max_duration + 1)
    self.modes = {task: {mode: self.model.add_var(name='mode_{},{}'.format(task, mode), var_type=BINARY) for mode in self.rcpsp_model.mode_details[task]} for task in self.rcpsp_model.mode_details}
    self.start_times = {task: {mode: {t: self.model.add_var(name='start_{},{},{}'.format(task, mode, t), var_type=BINARY) for t in times} for mode in self.rcpsp_model.mode_details[task]} for task in self.rcpsp_model.mode_details}
    for task in self.start_times:
        self.model.add_constr(xsum((self.start_times[task][mode][t] for mode in self.start_times[task] for t in self.start_times[task][mode])) == 1)
        for mode in self.modes[task]:
            self.model.add_constr(self.modes[task][mode] == xsum((self.start_times[task][mode][t] for t in self.start_times[task][mode])))
    self.durations = {task: self.model.add_var(name='duration_' + str(task), var_type=INTEGER) for task in self.modes}
    self.start_times_task = {task: self.model.add_var(name='start_time_{}'.format(task), var_type=INTEGER) for task in self.start_times}
    self.end_times_task = {task: self.model.add_var(name='end_time_{}'.format(task), var_type=INTEGER) for task in self.start_times}
    for task in self.start_times:
        self.model.add_constr(xsum((self.start_times[task][mode][t] * t for mode in self.start_times[task] for t in self.start_times[task][mode])) == self.start_times_task[task])
        self.model.add_constr(self.end_times_task[task] - self.start_times_task[task] - self.durations[task] == 0)
    for task in self.durations:
        self.model.add_constr(xsum((self.rcpsp_model.mode_details[task][mode]['duration'] * self.modes[task][mode] for mode in self.modes[task])) == self.durations[task])
    self.employee_usage = tree()
    task_in_employee_usage = set()
    for employee in self.rcpsp_model.employees:
        skills_employee = [skill for skill in self.rcpsp_model.employees[employee].dict_skill.keys() if self.rcpsp_model.employees[employee].dict_skill[skill].skill_value > 0]
        for task in sorted_tasks:
            for mode in self.rcpsp_model.mode_details[task]:
                required_skills = [s for s in self.rcpsp_model.mode_details[task][mode] if s in self.rcpsp_model.skills_set and self.rcpsp_model.mode_details[task][mode][s] > 0 and (s in skills_employee)]
                if len(required_skills) == 0:
                    continue
                for s in required_skills:
                    for t in range(max_duration + 1):
                        self.employee_usage[employee, task, mode, t, s] = self.model.add_var(name='employee_{}{}{}{}{}'.format(employee, task, mode, t, s), var_type=BINARY)
                        task_in_employee_usage.add(task)
                        self.model.add_constr(self.employee_usage[employee, task, mode, t, s] - self.modes[task][mode] <= 0)
                        self.model.add_constr(self.employee_usage[employee, task, mode, t, s] - self.start_times[task][mode][t] <= 0)
                        if any((not self.rcpsp_model.employees[employee].calendar_employee[tt] for tt in range(t, t + self.rcpsp_model.mode_details[task][mode]['duration']))):
                            self.model.add_constr(self.employee_usage[employee, task, mode, t, s] == 0)
    employees = set([x[0] for x in self.employee_usage])
    from itertools import product
    for emp, t in product(employees, times):
        self.model.add_constr(xsum((self.employee_usage[x] for x in self.employee_usage if x[0] == emp and x[3] <= t < x[3] + int(self.rcpsp_model.mode_details[x[1]][x[2]]['duration']))) <= 1)
    for r, t in product(renewable, times):
        self.model.add_constr(xsum((int(self.rcpsp_model.mode_details[task][mode][r]) * self.start_times[task][mode][time] for task in self.start_times for mode in self.start_times[task] for time in self.start_times[task][mode] if time <= t < time + int(self.rcpsp_model.mode_details[task][mode]['duration']))) <= renewable[r][t])
    for r in non_renewable:
        self.model.add_constr(xsum((int(self.rcpsp_model.mode_details[task][mode][r]) * self.start_times[task][mode][time] for task in self.start_times for mode in self.start_times[task] for time in self.start_times[task][mode])) <= non_renewable[r][0])
    for task in self.start_times_task:
        required_skills = [(s, mode, self.rcpsp_model.mode_details[task][mode][s]) for mode in self.rcpsp_model.mode_details[task] for s in self.rcpsp_model.mode_details[task][mode] if s in self.rcpsp_model.skills_set and self.rcpsp_model.mode_details[task][mode][s] > 0]
        skills = set([s[0] for s in required_skills])
        for s in skills:
            employee_usage_keys = [v for v in self.employee_usage if v[1] == task and v[4] == s]
            self.model.add_constr(xsum((self.employee_usage[x] * self.rcpsp_model.employees[x[0]].dict_skill[s].skill_value for x in employee_usage_keys)) >= xsum((self.modes[task][mode] * self.rcpsp_model.mode_details[task][mode].get(s, 0) for mode in self.modes[task])))
    for j, s in list_edges:
        self.model.add_constr(self.start_times_task[s] - self.end_times_task[j] >= 0)
    self.model.objective = self.start_times_task[max(self.start_times_task)]


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py", "LP_Solver_MRSCPSP.retrieve_solutions")
def _(self, parameters_milp):
    retrieve_all_solution = parameters_milp.retrieve_all_solution
    nb_solutions_max = parameters_milp.n_solutions_max
    nb_solution = min(nb_solutions_max, self.model.num_solutions)
    if not retrieve_all_solution:
        nb_solution = 1
    list_solution_fits = []
    for s in range(nb_solution):
        rcpsp_schedule = {}
        modes = {}
        objective = self.model.objective_values[s]
        results = {}
        employee_usage = {}
        employee_usage_solution = {}
        for task in self.start_times:
            for mode in self.start_times[task]:
                for t in self.start_times[task][mode]:
                    value = self.start_times[task][mode][t].xi(s)
                    results[task, mode, t] = value
                    if value >= 0.5:
                        rcpsp_schedule[task] = {'start_time': int(t), 'end_time': int(t + self.rcpsp_model.mode_details[task][mode]['duration'])}
                        modes[task] = mode
        for t in self.employee_usage:
            employee_usage[t] = self.employee_usage[t].xi(s)
            if employee_usage[t] >= 0.5:
                if t[1] not in employee_usage_solution:
                    employee_usage_solution[t[1]] = {}
                if t[0] not in employee_usage_solution[t[1]]:
                    employee_usage_solution[t[1]][t[0]] = set()
                employee_usage_solution[t[1]][t[0]].add(t[4])
        modes = {}
        modes_task = {}
        for t in self.modes:
            for m in self.modes[t]:
                modes[t, m] = self.modes[t][m].xi(s)
                if modes[t, m] >= 0.5:
                    modes_task[t] = m
        durations = {}
        for t in self.durations:
            durations[t] = self.durations[t].xi(s)
        start_time = {}
        for t in self.start_times_task:
            start_time[t] = self.start_times_task[t].xi(s)
        end_time = {}
        for t in self.start_times_task:
            end_time[t] = self.end_times_task[t].xi(s)
        solution = MS_RCPSPSolution(problem=self.rcpsp_model, modes=modes_task, schedule=rcpsp_schedule, employee_usage=employee_usage_solution)
        fit = self.aggreg_from_sol(solution)
        list_solution_fits += [(solution, fit)]
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py", "LP_Solver_MRSCPSP.solve")
def _(self, parameters_milp, **args):
    if self.model is None:
        import time
        t = time.time()
        self.init_model(greedy_start=False)
    limit_time_s = parameters_milp.TimeLimit
    self.model.sol_pool_size = parameters_milp.PoolSolutions
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.optimize(max_seconds=limit_time_s, max_solutions=parameters_milp.n_solutions_max)
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "ConstraintHandlerStartTimeInterval_CP.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=0.5):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta
    self.fraction_task_to_fix_employee = fraction_task_to_fix_employee


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "ConstraintHandlerStartTimeInterval_CP.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    constraints_dict = {}
    r = random.random()
    if r <= 0.2:
        current_solution, fit = result_storage.get_last_best_solution()
    elif r <= 0.4:
        current_solution, fit = result_storage.get_best_solution_fit()
    elif r <= 0.99:
        current_solution, fit = result_storage.get_random_best_solution()
    else:
        current_solution, fit = result_storage.get_random_solution()
    current_solution = current_solution
    max_time = max([current_solution.schedule[x]['end_time'] for x in current_solution.schedule])
    last_jobs = [x for x in current_solution.schedule if current_solution.schedule[x]['end_time'] >= max_time - 20]
    nb_jobs = self.problem.n_jobs_non_dummy + 2
    jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    list_strings = []
    self.employees_position = sorted(self.problem.employees)
    task_to_fix = set(random.sample(list(current_solution.schedule.keys()), int(self.fraction_task_to_fix_employee * nb_jobs)))
    employee_to_not_fix = set(random.sample(range(1, len(self.employees_position) + 1), min(5, int(1.0 * len(self.employees_position)))))
    employee_usage = {emp: [task for task in current_solution.employee_usage if emp in current_solution.employee_usage[task]] for emp in self.problem.employees}
    employee_usage_max_time = {emp: max([current_solution.schedule[t]['end_time'] for t in employee_usage[emp]]) if len(employee_usage[emp]) > 0 else 0 for emp in employee_usage}
    if False:
        sorted_employee = list(sorted(employee_usage, key=lambda x: employee_usage_max_time[x]))
        for i in range(int(len(employee_usage) / 4)):
            index = self.employees_position.index(sorted_employee[i]) + 1
            string1 = 'constraint sum(task in Act)(unit_used[' + str(index) + ', task] >= ' + str(int(len(employee_usage[sorted_employee[i]]))) + ';\n'
        for i in range(int(len(employee_usage) / 4)):
            index = self.employees_position.index(sorted_employee[len(sorted_employee) - 1 - i]) + 1
            string1 = 'constraint sum(task in Act)(unit_used[' + str(index) + ', task] <= ' + str(int(len(employee_usage[sorted_employee[len(sorted_employee) - 1 - i]]))) + ';\n'
    for i in range(1, len(self.employees_position) + 1):
        for task in task_to_fix:
            emp = self.employees_position[i - 1]
            if task in current_solution.employee_usage and emp in current_solution.employee_usage[task] and (len(current_solution.employee_usage[task][emp]) > 0):
                string1 = 'constraint unit_used[' + str(i) + ',' + str(task) + '] = 1;\n'
            else:
                string1 = 'constraint unit_used[' + str(i) + ',' + str(task) + '] = 0;\n'
            child_instance.add_string(string1)
            list_strings += [string1]
    for job in [self.problem.sink_task]:
        start_time_j = current_solution.schedule[job]['start_time']
        string1 = 'constraint start[' + str(job) + '] <= ' + str(start_time_j) + ';\n'
        list_strings += [string1]
        child_instance.add_string(string1)
    for job in jobs_to_fix:
        start_time_j = current_solution.schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        string1 = 'constraint start[' + str(job) + '] <= ' + str(max_st) + ';\n'
        string2 = 'constraint start[' + str(job) + '] >= ' + str(min_st) + ';\n'
        list_strings += [string1]
        list_strings += [string2]
        child_instance.add_string(string1)
        child_instance.add_string(string2)
    for job in current_solution.schedule.keys():
        if job in jobs_to_fix:
            continue
    return list_strings


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "Params.__init__")
def _(self, fraction_to_fix=0.9, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=0.5):
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta
    self.fraction_task_to_fix_employee = fraction_task_to_fix_employee


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "ConstraintHandlerMix.__init__")
def _(self, problem, list_params, list_proba):
    self.problem = problem
    self.list_params = list_params
    self.list_proba = list_proba
    if isinstance(self.list_proba, list):
        self.list_proba = np.array(self.list_proba)
    self.list_proba = self.list_proba / np.sum(self.list_proba)
    self.index_np = np.array(range(len(self.list_proba)), dtype=int)
    self.current_iteration = 0
    self.status = {i: {'nb_usage': 0, 'nb_improvement': 0} for i in range(len(self.list_params))}
    self.last_index_param = None
    self.last_fitness = None


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "ConstraintHandlerMix.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    new_fitness = result_storage.get_best_solution_fit()[1]
    if self.last_index_param is not None:
        if new_fitness != self.last_fitness:
            self.status[self.last_index_param]['nb_improvement'] += 1
            self.last_fitness = new_fitness
            self.list_proba[self.last_index_param] *= 1.05
            self.list_proba = self.list_proba / np.sum(self.list_proba)
        else:
            self.list_proba[self.last_index_param] *= 0.95
            self.list_proba = self.list_proba / np.sum(self.list_proba)
    else:
        self.last_fitness = new_fitness
    if random.random() <= 0.95:
        choice = np.random.choice(self.index_np, size=1, p=self.list_proba)[0]
    else:
        max_improvement = max([self.status[x]['nb_improvement'] / max(self.status[x]['nb_usage'], 1) for x in self.status])
        choice = random.choice([x for x in self.status if self.status[x]['nb_improvement'] / max(self.status[x]['nb_usage'], 1) == max_improvement])
    d_params = {key: getattr(self.list_params[int(choice)], key) for key in self.list_params[0].__dict__.keys()}
    ch = ConstraintHandlerStartTimeInterval_CP(problem=self.problem, **d_params)
    self.current_iteration += 1
    self.last_index_param = choice
    self.status[self.last_index_param]['nb_usage'] += 1
    return ch.adding_constraint_from_results_store(cp_solver, child_instance, result_storage)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "build_neighbor_operator")
def _(option_neighbor, rcpsp_model):
    params_om = [Params(fraction_to_fix=0.75, minus_delta=100, plus_delta=100, fraction_task_to_fix_employee=0.8)]
    params_all = [Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.5), Params(fraction_to_fix=0.85, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.75), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4, fraction_task_to_fix_employee=0.75), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.92, minus_delta=10, plus_delta=0, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.88, minus_delta=0, plus_delta=10, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.9, minus_delta=10, plus_delta=0, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.8, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.9), Params(fraction_to_fix=0.85, minus_delta=15, plus_delta=15, fraction_task_to_fix_employee=1.0), Params(fraction_to_fix=0.9, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=1.0, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.85, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.5), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=0.85), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.5), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.5), Params(fraction_to_fix=0.85, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=0.95), Params(fraction_to_fix=0.98, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=0.98), Params(fraction_to_fix=0.9, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.6), Params(fraction_to_fix=0.98, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.2), Params(fraction_to_fix=0.98, minus_delta=8, plus_delta=8, fraction_task_to_fix_employee=0.75), Params(fraction_to_fix=0.98, minus_delta=10, plus_delta=10, fraction_task_to_fix_employee=1.0)]
    params_fast = [Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.93), Params(fraction_to_fix=0.8, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.95), Params(fraction_to_fix=0.8, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=1.0), Params(fraction_to_fix=0.9, minus_delta=1, plus_delta=1, fraction_task_to_fix_employee=0.93), Params(fraction_to_fix=0.92, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.93), Params(fraction_to_fix=0.98, minus_delta=7, plus_delta=7, fraction_task_to_fix_employee=0.92), Params(fraction_to_fix=0.95, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.95)]
    params_debug = [Params(fraction_to_fix=1.0, minus_delta=0, plus_delta=0, fraction_task_to_fix_employee=1.0)]
    params_large = [Params(fraction_to_fix=0.9, minus_delta=12, plus_delta=12, fraction_task_to_fix_employee=0.93), Params(fraction_to_fix=0.8, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.0), Params(fraction_to_fix=0.7, minus_delta=12, plus_delta=12, fraction_task_to_fix_employee=0.8), Params(fraction_to_fix=0.7, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.1), Params(fraction_to_fix=0.6, minus_delta=3, plus_delta=3, fraction_task_to_fix_employee=0.85), Params(fraction_to_fix=0.4, minus_delta=2, plus_delta=2, fraction_task_to_fix_employee=1.0), Params(fraction_to_fix=0.9, minus_delta=4, plus_delta=4, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.7, minus_delta=4, plus_delta=4, fraction_task_to_fix_employee=0.7), Params(fraction_to_fix=0.8, minus_delta=5, plus_delta=5, fraction_task_to_fix_employee=0.3)]
    params = None
    if option_neighbor == OptionNeighbor.MIX_ALL:
        params = params_all
    if option_neighbor == OptionNeighbor.MIX_FAST:
        params = params_fast
    if option_neighbor == OptionNeighbor.MIX_LARGE_NEIGH:
        params = params_large
    if option_neighbor == OptionNeighbor.DEBUG:
        params = params_debug
    if option_neighbor == OptionNeighbor.OM:
        params = params_om
    probas = [1 / len(params)] * len(params)
    constraint_handler = ConstraintHandlerMix(problem=rcpsp_model, list_params=params, list_proba=probas)
    return constraint_handler


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "LNS_CP_MS_RCPSP_SOLVER.__init__")
def _(self, rcpsp_model, option_neighbor=OptionNeighbor.MIX_ALL, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.solver = CP_MS_MRCPSP_MZN(rcpsp_model=self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED, **kwargs)
    self.solver.init_model(output_type=True, **kwargs)
    self.parameters_cp = kwargs.get('parameters_cp', ParametersCP.default())
    params_objective_function = get_default_objective_setup(problem=self.rcpsp_model)
    self.constraint_handler = build_neighbor_operator(option_neighbor=option_neighbor, rcpsp_model=self.rcpsp_model)
    self.post_pro = PostProMSRCPSP(problem=self.rcpsp_model, params_objective_function=params_objective_function)
    self.initial_solution_provider = InitialSolutionMS_RCPSP(problem=self.rcpsp_model, initial_method=InitialMethodRCPSP.PILE_CALENDAR, params_objective_function=params_objective_function)
    self.lns_solver = LNS_CP(problem=self.rcpsp_model, cp_solver=self.solver, initial_solution_provider=self.initial_solution_provider, constraint_handler=self.constraint_handler, post_process_solution=self.post_pro, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py", "LNS_CP_MS_RCPSP_SOLVER.solve")
def _(self, **kwargs):
    return self.lns_solver.solve_lns(parameters_cp=kwargs.get('parameters_cp', self.parameters_cp), nb_iteration_lns=kwargs.get('nb_iteration_lns', 100), skip_first_iteration=kwargs.get('skip_first_iteration', False), nb_iteration_no_improvement=kwargs.get('nb_iteration_no_improvement', None), max_time_seconds=kwargs.get('max_time_seconds', None))


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py", "GA_MSRCPSP_Solver.__init__")
def _(self, rcpsp_model, params_objective_function=None, **kwargs):
    self.rcpsp_model = rcpsp_model
    self.aggreg_sol, self.aggreg_from_dict_values, self.params_objective_function = build_aggreg_function_and_params_objective(self.rcpsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py", "GA_MSRCPSP_Solver.solve")
def _(self, parameters_ga=ParametersAltGa.default_msrcpsp(), **args):
    ga_solver = AlternatingGa(self.rcpsp_model, encodings=parameters_ga.encodings, objective_handling=parameters_ga.objective_handling, objectives=parameters_ga.objectives, objective_weights=parameters_ga.objective_weights, mutations=parameters_ga.mutations, crossovers=parameters_ga.crossovers, max_evals=parameters_ga.max_evals, sub_evals=parameters_ga.sub_evals)
    return ga_solver.solve()


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "InitialSolutionMS_RCPSP.__init__")
def _(self, problem, params_objective_function=None, initial_method=InitialMethodRCPSP.PILE):
    self.problem = problem
    self.params_objective_function = params_objective_function
    if self.params_objective_function is None:
        self.params_objective_function = get_default_objective_setup(problem=self.problem)
    self.aggreg, _ = build_evaluate_function_aggregated(problem=self.problem, params_objective_function=self.params_objective_function)
    self.initial_method = initial_method


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "InitialSolutionMS_RCPSP.get_starting_solution")
def _(self):
    multi_skill_rcpsp = self.problem.build_multimode_rcpsp_calendar_representative()
    from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_lp_lns_solver import InitialSolutionRCPSP
    init_solution = InitialSolutionRCPSP(problem=multi_skill_rcpsp, params_objective_function=self.params_objective_function, initial_method=self.initial_method)
    s = init_solution.get_starting_solution()
    list_solution_fits = []
    for s, fit in s.list_solution_fits:
        sol = s
        mode = sol.rcpsp_modes
        modes = {i + 2: mode[i] for i in range(len(mode))}
        modes[self.problem.source_task] = 1
        modes[self.problem.sink_task] = 1
        ms_rcpsp_solution = MS_RCPSPSolution_Variant(problem=self.problem, priority_list_task=sol.rcpsp_permutation, modes_vector=sol.rcpsp_modes, priority_worker_per_task=[[w for w in self.problem.employees] for i in range(self.problem.n_jobs_non_dummy)])
        list_solution_fits += [(ms_rcpsp_solution, self.aggreg(ms_rcpsp_solution))]
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.__init__")
def _(self, problem, fraction_fix_start_time=0.9):
    self.problem = problem
    self.fraction_fix_start_time = fraction_fix_start_time


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    nb_jobs = self.problem.nb_tasks
    constraints_dict = {}
    current_solution, fit = result_storage.get_best_solution_fit()
    start = []
    for j in current_solution.schedule:
        start_time_j = current_solution.schedule[j]['start_time']
        mode = current_solution.modes[j]
        start += [(milp_solver.start_times_task[j], start_time_j)]
        start += [(milp_solver.modes[j][mode], 1)]
        for m in milp_solver.modes[j]:
            start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
    milp_solver.model.start = start
    jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()), int(self.fraction_fix_start_time * nb_jobs)))
    constraints_dict['fix_start_time'] = []
    for job_to_fix in jobs_to_fix:
        constraints_dict['fix_start_time'].append(milp_solver.model.add_constr(milp_solver.start_times_task[job_to_fix] - current_solution.schedule[job_to_fix]['start_time'] == 0))
    if milp_solver.lp_solver == MilpSolverName.GRB:
        milp_solver.model.solver.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerFixStartTime.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints['fix_start_time'])
    if milp_solver.lp_solver == MilpSolverName.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.__init__")
def _(self, problem, fraction_to_fix=0.9, minus_delta=2, plus_delta=2):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.minus_delta = minus_delta
    self.plus_delta = plus_delta


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    current_solution = result_storage.get_best_solution()
    start = []
    for j in current_solution.schedule:
        start_time_j = current_solution.schedule[j]['start_time']
        mode = current_solution.modes[j]
        start += [(milp_solver.start_times_task[j], start_time_j)]
        start += [(milp_solver.modes[j][mode], 1)]
        for m in milp_solver.modes[j]:
            start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
    milp_solver.model.start = start
    constraints_dict = {}
    constraints_dict['range_start_time'] = []
    max_time = max([current_solution.schedule[x]['end_time'] for x in current_solution.schedule])
    last_jobs = [x for x in current_solution.schedule if current_solution.schedule[x]['end_time'] >= max_time - 5]
    nb_jobs = self.problem.nb_tasks
    jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()), int(self.fraction_to_fix * nb_jobs)))
    for lj in last_jobs:
        if lj in jobs_to_fix:
            jobs_to_fix.remove(lj)
    for job in jobs_to_fix:
        start_time_j = current_solution.schedule[job]['start_time']
        min_st = max(start_time_j - self.minus_delta, 0)
        max_st = min(start_time_j + self.plus_delta, max_time)
        constraints_dict['range_start_time'].append(milp_solver.model.add_constr(milp_solver.start_times_task[job] <= max_st))
        constraints_dict['range_start_time'].append(milp_solver.model.add_constr(milp_solver.start_times_task[job] >= min_st))
    if milp_solver.lp_solver == MilpSolverName.GRB:
        milp_solver.model.solver.update()
    return constraints_dict


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py", "ConstraintHandlerStartTimeIntervalMRCPSP.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove(previous_constraints['range_start_time'])
    if milp_solver.lp_solver == MilpSolverName.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/solver_rcpsp_based.py", "Solver_RCPSP_Based.__init__")
def _(self, model, method, params_objective_function=None, **args):
    self.model = model
    self.model_rcpsp = model.build_multimode_rcpsp_calendar_representative()
    self.method = method
    self.args_solve = args
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.model, params_objective_function=params_objective_function)
    self.args_solve['params_objective_function'] = self.params_objective_function


@spec("builders/discrete_optimization/rcpsp_multiskill/solvers/solver_rcpsp_based.py", "Solver_RCPSP_Based.solve")
def _(self, **kwargs):
    res_storage = solve(method=self.method, rcpsp_model=self.model_rcpsp, **self.args_solve)
    list_solution_fits = []
    for s, fit in res_storage.list_solution_fits:
        sol = s
        mode = sol.rcpsp_modes
        modes = {i + 2: mode[i] for i in range(len(mode))}
        modes[self.model.source_task] = 1
        modes[self.model.sink_task] = 1
        ms_rcpsp_solution = MS_RCPSPSolution_Variant(problem=self.model, priority_list_task=sol.rcpsp_permutation, modes_vector=sol.rcpsp_modes, priority_worker_per_task=[[w for w in self.model.employees] for i in range(self.model.n_jobs_non_dummy)])
        list_solution_fits += [(ms_rcpsp_solution, self.aggreg_from_sol(ms_rcpsp_solution))]
    return ResultStorage(list_solution_fits=list_solution_fits, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/rcpsp_multiskill/plots/plot_solution.py", "compute_schedule_per_resource_individual")
def _(rcpsp_model, rcpsp_sol, verbose=False):
    modes = rcpsp_sol.modes
    sorted_task_by_start = sorted(rcpsp_sol.schedule, key=lambda x: 100000 * rcpsp_sol.schedule[x]['start_time'] + x)
    sorted_task_by_end = sorted(rcpsp_sol.schedule, key=lambda x: 100000 * rcpsp_sol.schedule[x]['end_time'] + x)
    max_time = rcpsp_sol.schedule[sorted_task_by_end[-1]]['end_time']
    min_time = rcpsp_sol.schedule[sorted_task_by_start[0]]['start_time']
    employee_usage = {employee: {'activity': np.zeros(max_time - min_time + 1), 'binary_activity': np.zeros(max_time - min_time + 1), 'total_activity': 0, 'boxes_time': []} for employee in rcpsp_model.employees}
    total_time = max_time - min_time + 1
    index_to_time = {i: min_time + i for i in range(max_time - min_time + 1)}
    time_to_index = {index_to_time[i]: i for i in index_to_time}
    sorted_employees = list(sorted(rcpsp_model.employees))
    for activity in sorted_task_by_start:
        mode = modes[activity]
        start_time = rcpsp_sol.schedule[activity]['start_time']
        end_time = rcpsp_sol.schedule[activity]['end_time']
        for employee in rcpsp_sol.employee_usage.get(activity, {}):
            employee_usage[employee]['activity'][time_to_index[start_time]:time_to_index[end_time]] = activity
            employee_usage[employee]['binary_activity'][time_to_index[start_time]:time_to_index[end_time]] = 1
            employee_usage[employee]['total_activity'] += end_time - start_time
            index_employee = sorted_employees.index(employee)
            employee_usage[employee]['boxes_time'] += [[(index_employee - 0.25, start_time + 0.01, activity), (index_employee - 0.25, end_time - 0.01, activity), (index_employee + 0.25, end_time - 0.01, activity), (index_employee + 0.25, start_time + 0.01, activity), (index_employee - 0.25, start_time + 0.01, activity)]]
    return employee_usage
