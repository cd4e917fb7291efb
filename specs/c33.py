# C33: conversions between scheduling domains and optimisation models, and solving by optimisation


@spec("hub/solver/do_solver/do_solver_scheduling.py", "build_solver")
def _(solving_method, do_domain):
    if isinstance(do_domain, (RCPSPModelCalendar, RCPSPModel, MultiModeRCPSPModel)):
        from skdecide.builders.discrete_optimization.rcpsp.rcpsp_solvers import look_for_solver, solvers_map
        available = look_for_solver(do_domain)
        solving_method_to_str = {SolvingMethod.PILE: 'greedy', SolvingMethod.GA: 'ga', SolvingMethod.LS: 'ls', SolvingMethod.LP: 'lp', SolvingMethod.CP: 'cp', SolvingMethod.LNS_LP: 'lns-lp', SolvingMethod.LNS_CP: 'lns-cp', SolvingMethod.LNS_CP_CALENDAR: 'lns-cp-calendar'}
        smap = [(av, solvers_map[av]) for av in available if solvers_map[av][0] == solving_method_to_str[solving_method]]
        if len(smap) > 0:
            return smap[0]
    if isinstance(do_domain, (MS_RCPSPModel, MS_RCPSPModel, MultiModeRCPSPModel)):
        from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill_solvers import look_for_solver, solvers_map
        available = look_for_solver(do_domain)
        solving_method_to_str = {SolvingMethod.PILE: 'greedy', SolvingMethod.GA: 'ga', SolvingMethod.LS: 'ls', SolvingMethod.LP: 'lp', SolvingMethod.CP: 'cp', SolvingMethod.LNS_LP: 'lns-lp', SolvingMethod.LNS_CP: 'lns-cp', SolvingMethod.LNS_CP_CALENDAR: 'lns-cp-calendar'}
        smap = [(av, solvers_map[av]) for av in available if solvers_map[av][0] == solving_method_to_str[solving_method]]
        if len(smap) > 0:
            return smap[0]
    return None


@spec("hub/solver/do_solver/do_solver_scheduling.py", "from_solution_to_policy")
def _(solution, domain, policy_method_params):
    permutation_task = None
    modes_dictionnary = None
    schedule = None
    resource_allocation = None
    resource_allocation_priority = None
    if isinstance(solution, RCPSPSolution):
        permutation_task = sorted(solution.rcpsp_schedule, key=lambda x: (solution.rcpsp_schedule[x]['start_time'], x))
        schedule = solution.rcpsp_schedule
        modes_dictionnary = {}
        modes_dictionnary[1] = 1
        modes_dictionnary[solution.problem.n_jobs + 2] = 1
        for i in range(len(solution.rcpsp_modes)):
            modes_dictionnary[i + 2] = solution.rcpsp_modes[i]
    if isinstance(solution, MS_RCPSPSolution):
        permutation_task = sorted(solution.schedule, key=lambda x: (solution.schedule[x]['start_time'], x))
        schedule = solution.schedule
        employees = sorted(domain.get_resource_units_names())
        resource_allocation = {task: [employees[i] for i in solution.employee_usage[task].keys()] for task in solution.employee_usage}
        modes_dictionnary = solution.modes
    if isinstance(solution, MS_RCPSPSolution_Variant):
        resource_allocation_priority = solution.priority_worker_per_task
        permutation_task = sorted(solution.schedule, key=lambda x: (solution.schedule[x]['start_time'], x))
        modes_dictionnary = {}
        modes_dictionnary[1] = 1
        modes_dictionnary[solution.problem.n_jobs_non_dummy + 2] = 1
        for i in range(len(solution.modes_vector)):
            modes_dictionnary[i + 2] = solution.modes_vector[i]
        employees = sorted(domain.get_resource_units_names())
        resource_allocation = {task: [employees[i] for i in solution.employee_usage[task].keys()] for task in solution.employee_usage}
    return PolicyRCPSP(domain=domain, policy_method_params=policy_method_params, permutation_task=permutation_task, modes_dictionnary=modes_dictionnary, schedule=schedule, resource_allocation=resource_allocation, resource_allocation_priority=resource_allocation_priority)


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver.__init__")
def _(self, policy_method_params, method=SolvingMethod.PILE, dict_params=None):
    self.method = method
    self.policy_method_params = policy_method_params
    self.dict_params = dict_params
    if self.dict_params is None:
        self.dict_params = {}


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver.get_available_methods")
def _(self, domain):
    do_domain = build_do_domain(domain)
    if isinstance(do_domain, MS_RCPSPModel):
        from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill_solvers import look_for_solver, solvers_map
        available = look_for_solver(do_domain)
    elif isinstance(do_domain, (SingleModeRCPSPModel, RCPSPModel, MultiModeRCPSPModel)):
        from skdecide.builders.discrete_optimization.rcpsp.rcpsp_solvers import look_for_solver, solvers_map
        available = look_for_solver(do_domain)
    smap = [(av, solvers_map[av]) for av in available]
    return smap


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver._solve_domain")
def _(self, domain_factory):
    self.domain = domain_factory()
    self.do_domain = build_do_domain(self.domain)
    solvers = build_solver(solving_method=self.method, do_domain=self.do_domain)
    solver_class = solvers[0]
    key, params = solvers[1]
    for k in params:
        if k not in self.dict_params:
            self.dict_params[k] = params[k]
    self.solver = solver_class(self.do_domain, **self.dict_params)
    try:
        self.solver.init_model(**self.dict_params)
    except:
        pass
    result_storage = self.solver.solve(**self.dict_params)
    best_solution = result_storage.get_best_solution()
    fits = self.do_domain.evaluate(best_solution)
    self.best_solution = best_solution
    self.policy_object = from_solution_to_policy(solution=best_solution, domain=self.domain, policy_method_params=self.policy_method_params)


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver.get_external_policy")
def _(self):
    return self.policy_object


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver.compute_external_policy")
def _(self, policy_method_params):
    return from_solution_to_policy(solution=self.best_solution, domain=self.domain, policy_method_params=policy_method_params)


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver._get_next_action")
def _(self, observation):
    return self.policy_object.get_next_action(observation=observation)


@spec("hub/solver/do_solver/do_solver_scheduling.py", "DOSolver._is_policy_defined_for")
def _(self, observation):
    return self.policy_object.is_policy_defined_for(observation=observation)


@spec("hub/solver/do_solver/sk_to_do_binding.py", "from_last_state_to_solution")
def _(state, domain):
    modes = [state.tasks_mode.get(j, 1) for j in sorted(domain.get_tasks_ids())]
    modes = modes[1:-1]
    schedule = {j: {'start_time': state.tasks_details[j].start, 'end_time': state.tasks_details[j].end} for j in state.tasks_details}
    return RCPSPSolution(problem=build_do_domain(domain), rcpsp_permutation=None, rcpsp_modes=modes, rcpsp_schedule=schedule)


@spec("hub/solver/do_solver/sk_to_do_binding.py", "build_do_domain")
def _(scheduling_domain):
    if isinstance(scheduling_domain, SingleModeRCPSP):
        modes_details = scheduling_domain.get_tasks_modes().copy()
        mode_details_do = {}
        for task in modes_details:
            mode_details_do[task] = {}
            for mode in modes_details[task]:
                mode_details_do[task][mode] = {}
                for r in modes_details[task][mode].get_ressource_names():
                    mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0)
                mode_details_do[task][mode]['duration'] = scheduling_domain.get_task_duration(task=task, mode=mode)
        return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r) for r in scheduling_domain.get_resource_types_names()}, non_renewable_resources=[r for r in scheduling_domain.get_resource_renewability() if not scheduling_domain.get_resource_renewability()[r]], mode_details=mode_details_do, successors=scheduling_domain.get_successors(), horizon=scheduling_domain.get_max_horizon(), horizon_multiplier=1)
    if isinstance(scheduling_domain, SingleModeRCPSP_Stochastic_Durations):
        modes_details = scheduling_domain.get_tasks_modes().copy()
        mode_details_do = {}
        for task in modes_details:
            mode_details_do[task] = {}
            for mode in modes_details[task]:
                mode_details_do[task][mode] = {}
                for r in modes_details[task][mode].get_ressource_names():
                    mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0)
                mode_details_do[task][mode]['duration'] = scheduling_domain.sample_task_duration(task=task, mode=mode)
        return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r) for r in scheduling_domain.get_resource_types_names()}, non_renewable_resources=[r for r in scheduling_domain.get_resource_renewability() if not scheduling_domain.get_resource_renewability()[r]], mode_details=mode_details_do, successors=scheduling_domain.get_successors(), horizon=scheduling_domain.get_max_horizon(), horizon_multiplier=1)
    if isinstance(scheduling_domain, (MultiModeRCPSP, MultiModeRCPSPWithCost)):
        modes_details = scheduling_domain.get_tasks_modes().copy()
        mode_details_do = {}
        for task in modes_details:
            mode_details_do[task] = {}
            for mode in modes_details[task]:
                mode_details_do[task][mode] = {}
                for r in modes_details[task][mode].get_ressource_names():
                    mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0)
                mode_details_do[task][mode]['duration'] = scheduling_domain.get_task_duration(task=task, mode=mode)
        return MultiModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r) for r in scheduling_domain.get_resource_types_names()}, non_renewable_resources=[r for r in scheduling_domain.get_resource_renewability() if not scheduling_domain.get_resource_renewability()[r]], mode_details=mode_details_do, successors=scheduling_domain.get_successors(), horizon=scheduling_domain.get_max_horizon(), horizon_multiplier=1)
    if isinstance(scheduling_domain, (MultiModeRCPSPCalendar, SingleModeRCPSPCalendar)):
        modes_details = scheduling_domain.get_tasks_modes().copy()
        mode_details_do = {}
        for task in modes_details:
            mode_details_do[task] = {}
            for mode in modes_details[task]:
                mode_details_do[task][mode] = {}
                for r in modes_details[task][mode].get_ressource_names():
                    mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0)
                mode_details_do[task][mode]['duration'] = scheduling_domain.get_task_duration(task=task, mode=mode)
        horizon = scheduling_domain.get_max_horizon()
        return RCPSPModelCalendar(resources={r: [scheduling_domain.get_quantity_resource(r, time=t) for t in range(horizon)] for r in scheduling_domain.get_resource_types_names()}, non_renewable_resources=[r for r in scheduling_domain.get_resource_renewability() if not scheduling_domain.get_resource_renewability()[r]], mode_details=mode_details_do, successors=scheduling_domain.get_successors(), horizon=scheduling_domain.get_max_horizon(), horizon_multiplier=1)
    if isinstance(scheduling_domain, (MultiModeMultiSkillRCPSP, MultiModeMultiSkillRCPSPCalendar)):
        modes_details = scheduling_domain.get_tasks_modes().copy()
        skills_set = set()
        mode_details_do = {}
        for task in modes_details:
            mode_details_do[task] = {}
            for mode in modes_details[task]:
                mode_details_do[task][mode] = {}
                for r in modes_details[task][mode].get_ressource_names():
                    mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0)
                skills = scheduling_domain.get_skills_of_task(task=task, mode=mode)
                for s in skills:
                    mode_details_do[task][mode][s] = skills[s]
                    skills_set.add(s)
                mode_details_do[task][mode]['duration'] = scheduling_domain.get_task_duration(task=task, mode=mode)
        horizon = scheduling_domain.get_max_horizon()
        employees_dict = {}
        employees = scheduling_domain.get_resource_units_names()
        sorted_employees = sorted(employees)
        for employee, i in zip(sorted_employees, range(len(sorted_employees))):
            skills = scheduling_domain.get_skills_of_resource(resource=employee)
            skills_details = {r: SkillDetail(skill_value=skills[r], efficiency_ratio=0, experience=0) for r in skills}
            employees_dict[i] = Employee(dict_skill=skills_details, calendar_employee=[bool(scheduling_domain.get_quantity_resource(employee, time=t)) for t in range(horizon + 1)])
        return MS_RCPSPModel_Variant(skills_set=scheduling_domain.get_skills_names(), resources_set=set(scheduling_domain.get_resource_types_names()), non_renewable_resources=set([r for r in scheduling_domain.get_resource_renewability() if not scheduling_domain.get_resource_renewability()[r]]), resources_availability={r: [scheduling_domain.get_quantity_resource(r, time=t) for t in range(horizon + 1)] for r in scheduling_domain.get_resource_types_names()}, employees=employees_dict, employees_availability=[sum([scheduling_domain.get_quantity_resource(employee, time=t) for employee in employees]) for t in range(horizon + 1)], mode_details=mode_details_do, successors=scheduling_domain.get_successors(), horizon=horizon, horizon_multiplier=1, sink_task=max(scheduling_domain.get_tasks_ids()), source_task=min(scheduling_domain.get_tasks_ids()), one_unit_per_task_max=False)


@spec("hub/solver/do_solver/sk_to_do_binding.py", "build_sk_domain")
def _(rcpsp_do_domain, varying_ressource=False):
    if isinstance(rcpsp_do_domain, RCPSPModelCalendar):
        if varying_ressource:
            my_domain = MRCPSPCalendar(resource_names=rcpsp_do_domain.resources_list, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability=rcpsp_do_domain.resources, resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list})
            return my_domain
        else:
            my_domain = MRCPSP(resource_names=rcpsp_do_domain.resources_list, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability={r: max(rcpsp_do_domain.resources[r]) for r in rcpsp_do_domain.resources}, resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list})
        return my_domain
    if isinstance(rcpsp_do_domain, SingleModeRCPSPModel):
        my_domain = RCPSP(resource_names=rcpsp_do_domain.resources_list, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability=rcpsp_do_domain.resources, resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list})
        return my_domain
    elif isinstance(rcpsp_do_domain, (MultiModeRCPSPModel, RCPSPModel)):
        my_domain = MRCPSP(resource_names=rcpsp_do_domain.resources_list, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability=rcpsp_do_domain.resources, resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list})
        return my_domain
    elif isinstance(rcpsp_do_domain, MS_RCPSPModel):
        if not varying_ressource:
            resource_type_names = list(rcpsp_do_domain.resources_list)
            resource_skills = {r: {} for r in resource_type_names}
            resource_availability = {r: rcpsp_do_domain.resources_availability[r][0] for r in rcpsp_do_domain.resources_availability}
            resource_renewable = {r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list}
            resource_unit_names = []
            for employee in rcpsp_do_domain.employees:
                resource_unit_names += [str(employee)]
                resource_skills[resource_unit_names[-1]] = {}
                resource_availability[resource_unit_names[-1]] = 1
                resource_renewable[resource_unit_names[-1]] = True
                for s in rcpsp_do_domain.employees[employee].dict_skill:
                    resource_skills[resource_unit_names[-1]][s] = rcpsp_do_domain.employees[employee].dict_skill[s].skill_value
            return MSRCPSP(skills_names=list(rcpsp_do_domain.skills_set), resource_unit_names=resource_unit_names, resource_type_names=resource_type_names, resource_skills=resource_skills, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability=resource_availability, resource_renewable=resource_renewable)
        else:
            resource_type_names = list(rcpsp_do_domain.resources_list)
            resource_skills = {r: {} for r in resource_type_names}
            resource_availability = {r: rcpsp_do_domain.resources_availability[r] for r in rcpsp_do_domain.resources_availability}
            resource_renewable = {r: r not in rcpsp_do_domain.non_renewable_resources for r in rcpsp_do_domain.resources_list}
            resource_unit_names = []
            for employee in rcpsp_do_domain.employees:
                resource_unit_names += [str(employee)]
                resource_skills[resource_unit_names[-1]] = {}
                resource_availability[resource_unit_names[-1]] = [1 if x else 0 for x in rcpsp_do_domain.employees[employee].calendar_employee]
                resource_renewable[resource_unit_names[-1]] = True
                for s in rcpsp_do_domain.employees[employee].dict_skill:
                    resource_skills[resource_unit_names[-1]][s] = rcpsp_do_domain.employees[employee].dict_skill[s].skill_value
            return MSRCPSPCalendar(skills_names=list(rcpsp_do_domain.skills_set), resource_unit_names=resource_unit_names, resource_type_names=resource_type_names, resource_skills=resource_skills, task_ids=sorted(rcpsp_do_domain.mode_details.keys()), tasks_mode=rcpsp_do_domain.mode_details, successors=rcpsp_do_domain.successors, max_horizon=rcpsp_do_domain.horizon, resource_availability=resource_availability, resource_renewable=resource_renewable)
