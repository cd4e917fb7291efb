SD = "builders/scheduling/scheduling_domains.py"
SK = "builders/scheduling/skills.py"
TK = "builders/scheduling/task.py"
PR = "builders/scheduling/precedence.py"
RA = "builders/scheduling/resource_availability.py"
DS = "hub/solver/do_solver/do_solver_scheduling.py"
PE = "hub/solver/policy_evaluators/policy_evaluator.py"
UT = "utils.py"
GW = "hub/domain/simple_grid_world/simple_grid_world.py"
RP = "hub/domain/rock_paper_scissors/rock_paper_scissors.py"
MM = "hub/domain/mastermind/mastermind.py"
fn("C23 C21 C22 C26", SD, '''
def _get_next_state(self, memory, action):
    if self.inplace_environment:
        state = memory
    else:
        state = memory.copy()
    for update in (self.update_pause_tasks, self.update_resume_tasks, self.update_start_tasks,
                   self.update_complete_dummy_tasks, self.update_conditional_tasks,
                   self.update_time, self.update_resource_availability):
        state = update(state, action)
    return state
''', "SchedulingDomain")
fn("C23 C21 C22 C26", SD, '''
def _get_initial_state_(self):
    state = State(task_ids=self.get_tasks_ids(), tasks_available=self.get_all_unconditional_tasks())
    state.t = 0
    availability = {}
    for name in self.get_resource_types_names():
        availability[name] = self.sample_quantity_resource(resource=name, time=state.t)
    for name in self.get_resource_units_names():
        availability[name] = self.sample_quantity_resource(resource=name, time=state.t)
    state.resource_availability = availability
    state.resource_used = dict.fromkeys(availability, 0)
    return state
''', "SchedulingDomain")
fn("C23 C21 C22 C26", SD, '''
def _get_goals_(self):
    def nothing_left(state):
        return not state.tasks_remaining and not state.tasks_ongoing and not state.tasks_paused
    return ImplicitSpace(nothing_left)
''', "SchedulingDomain")
fn("C23 C21 C22 C26", SD, '''
def _get_goals_(self):
    return ImplicitSpace(lambda state: not any((len(state.tasks_remaining) > 0, len(state.tasks_ongoing) > 0, len(state.tasks_paused) > 0)))
''', "SchedulingDomain")
fn("C23 C21 C22 C26", SD, '''
def update_res_consumption(self, state):
    for task_id in state.tasks_ongoing:
        active = state.tasks_details[task_id].get_task_active_time(state.t + 1)
        needs = self.get_resource_used(task=task_id, mode=state.tasks_mode[task_id],
                                       resource_unit_names=set(), time_since_start=active)
        used_for_task = state.resource_used_for_task[task_id]
        for r, quantity in needs.items():
            state.resource_used[r] += quantity - used_for_task[r]
            used_for_task[r] = quantity
    return state
''', "SchedulingDomain")
fn("C23 C21 C22 C26", SD, '''
def update_time(self, state, action):
    if not action.time_progress:
        return state
    now = state.t
    for update in (self.update_progress, self.update_complete_tasks, self.update_res_consumption):
        state = update(state)
    state.t = now + 1
    return state
''', "SchedulingDomain")
fn("C23 C26", SK, '''
def get_skills_names(self):
    names = set()
    for skills in self.get_all_resources_skills().values():
        names.update(skills)
    for modes in self.get_all_tasks_skills().values():
        for skills in modes.values():
            names.update(skills)
    return names
''', "WithResourceSkills")
fn("C23 C26", SK, '''
def find_one_ressource_to_do_one_task(self, task, mode):
    required = self.get_skills_of_task(task, mode)
    if not required:
        return [None]

    def able(resource):
        skills = self.get_skills_of_resource(resource=resource)
        return all(skills.get(s, 0) >= level for s, level in required.items())

    return [resource for resource in self.get_all_resources_skills() if able(resource)]
''', "WithResourceSkills")
fn("C23 C26", SK, '''
def check_if_skills_are_fulfilled(self, task, mode, resource_used):
    required = self.get_skills_of_task(task, mode)
    if not required:
        return True
    total = dict.fromkeys(required, 0)
    for r in resource_used:
        for s, level in self.get_skills_of_resource(resource=r).items():
            if s in total:
                total[s] += level
    return not any(total[s] < required[s] for s in required)
''', "WithResourceSkills")
fn("C23 C21", TK, '''
def get_task_active_time(self, t=None):
    if self.start is None:
        return 0
    until = t if self.end is None else min(t, self.end)
    paused = 0
    for i, pause in enumerate(self.paused):
        resumed = self.resumed[i] if i < len(self.resumed) else until
        paused += resumed - pause
    return until - self.start - paused
''', "Task")
fn("C23", PR, '''
def _get_successors(self):
    return {task_id: [] for task_id in self.get_tasks_ids()}

def _get_predecessors(self):
    return {task_id: [] for task_id in self.get_tasks_ids()}
''', "WithoutPrecedence")
fn("C23", PR, '''
def compute_graph(self):
    modes = self.get_tasks_modes()
    nodes = []
    for task in self.get_tasks_ids():
        nodes.append((task, {mode: self.sample_task_duration(task=task, mode=mode) for mode in modes[task]}))
    edges = [(task, following, {}) for task, all_following in self.get_successors().items() for following in all_following]
    return Graph(nodes, edges, False)
''', "WithPrecedence")
fn("C23", PR, '''
def _task_possible_to_launch_precedence(self, state):
    return [n for n in state.tasks_remaining if not any(m not in state.tasks_complete for m in self.ancestors[n])]
''', "WithPrecedence")
fn("C23", RA, '''
def check_unique_resource_names(self):
    names = self.get_resource_types_names() + self.get_resource_units_names()
    distinct = set(names)
    return len(names) == len(distinct) and bool(distinct)
''', "UncertainResourceAvailabilityChanges")
fn("C33", DS, '''
def _solve_domain(self, domain_factory):
    self.domain = domain_factory()
    self.do_domain = build_do_domain(self.domain)
    solver_class, (_, params) = build_solver(solving_method=self.method, do_domain=self.do_domain)
    for name, value in params.items():
        self.dict_params.setdefault(name, value)
    self.solver = solver_class(self.do_domain, **self.dict_params)
    try:
        self.solver.init_model(**self.dict_params)
    except:
        pass
    best_solution = self.solver.solve(**self.dict_params).get_best_solution()
    print("Best solution fitness found : ", self.do_domain.evaluate(best_solution))
    self.best_solution = best_solution
    print("Satisfiable ", self.do_domain.satisfy(best_solution))
    self.policy_object = self.compute_external_policy(self.policy_method_params)
''', "DOSolver")
fn("C33", DS, '''
def from_solution_to_policy(solution, domain, policy_method_params):
    permutation_task = modes_dictionnary = schedule = resource_allocation = resource_allocation_priority = None

    def by_start(planned):
        return sorted(planned, key=lambda task: (planned[task]["start_time"], task))

    def names_of_units():
        units = sorted(domain.get_resource_units_names())
        return {task: [units[i] for i in usage] for task, usage in solution.employee_usage.items()}

    if isinstance(solution, RCPSPSolution):
        schedule = solution.rcpsp_schedule
        permutation_task = by_start(schedule)
        modes_dictionnary = {1: 1, solution.problem.n_jobs + 2: 1}
        modes_dictionnary.update({i + 2: mode for i, mode in enumerate(solution.rcpsp_modes)})
    if isinstance(solution, MS_RCPSPSolution):
        schedule = solution.schedule
        permutation_task = by_start(schedule)
        resource_allocation = names_of_units()
        modes_dictionnary = solution.modes
    if isinstance(solution, MS_RCPSPSolution_Variant):
        resource_allocation_priority = solution.priority_worker_per_task
        permutation_task = by_start(solution.schedule)
        modes_dictionnary = {1: 1, solution.problem.n_jobs_non_dummy + 2: 1}
        for i, mode in enumerate(solution.modes_vector):
            modes_dictionnary[i + 2] = mode
        resource_allocation = names_of_units()
    return PolicyRCPSP(domain=domain, policy_method_params=policy_method_params, permutation_task=permutation_task,
                       modes_dictionnary=modes_dictionnary, schedule=schedule, resource_allocation=resource_allocation,
                       resource_allocation_priority=resource_allocation_priority)
''')
fn("C32", PE, '''
def my_custom_rollout(domain, state, policy):
    states, values, actions = [state], [], []
    summed_value = 0.
    while True:
        current = states[-1]
        action = policy.get_next_action(current)
        following = SchedulingDomain._state_sample(domain, current, action).state
        cost = domain.get_transition_value(current, action, following).cost
        values.append(cost)
        summed_value += cost
        states.append(following)
        actions.append(action)
        if domain.is_goal(following):
            return states, summed_value, values, actions
        if domain.is_terminal(following):
            return states, summed_value + 1000, values, actions
''')
fn("C32", PE, '''
def construct_dict_policy(domain, policy):
    preds = defaultdict(set)
    succs = defaultdict()
    chosen = {}
    stack = [domain.get_initial_state()]
    while stack:
        s = stack.pop()
        if s in chosen or domain.is_terminal(s):
            continue
        chosen[s] = policy.get_next_action(s)
        succs[s] = [(s2, p) for s2, p in domain.get_next_state_distribution(s, chosen[s]).get_values() if p != 0]
        for s2, _ in succs[s]:
            stack.append(s2)
            preds[s2].add(s)
    return chosen, preds, succs
''')
fn("C32", PE, '''
def expected_costs_for_policy(domain, policy_dict, preds, succs):
    value = {}
    stack = set()
    for s, before in preds.items():
        if domain.is_goal(s):
            value[s] = 0
            stack |= before
    while stack:
        s = stack.pop()
        if s in value:
            continue
        if not successor_value_is_known(succs[s], value):
            continue
        a = policy_dict[s]
        value[s] = sum(p * (domain.get_transition_value(s, a, s2).cost + value[s2]) for s2, p in succs[s])
        stack |= preds[s]
    return value
''')
fn("C10 C24", UT, '''
def match_solvers(domain, candidates=None, ranked=False):
    if candidates is None:
        loaded = (load_registered_solver(name) for name in get_registered_solvers())
        candidates = [c for c in loaded if c is not None]
    return [solver_type for solver_type in candidates if solver_type.check_domain(domain)]
''')
fn("C19", GW, '''
def _get_next_state(self, memory, action):
    x, y = memory.x, memory.y
    if action == Action.left:
        x = max(x - 1, 0)
    elif action == Action.right:
        x = min(x + 1, self.num_cols - 1)
    elif action == Action.up:
        y = max(y - 1, 0)
    elif action == Action.down:
        y = min(y + 1, self.num_rows - 1)
    return State(x, y)
''', "SimpleGridWorld")
fn("C19", RP, '''
def _get_observation(self, state, action=None):
    if action is None:
        return {'player1': Move.rock, 'player2': Move.rock}
    return {'player1': action['player2'], 'player2': action['player1']}
''', "RockPaperScissors")
