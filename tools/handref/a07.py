DO = "builders/discrete_optimization/"
RM = DO + "rcpsp/rcpsp_model.py"
fn("C29", RM, '''
def compute_mean_resource_reserve(self):
    if not self.rcpsp_schedule_feasible:
        return 0.
    problem = self.problem
    makespan = self.rcpsp_schedule[max(self.rcpsp_schedule)]['end_time']
    calendar = isinstance(problem, RCPSPModelCalendar)
    available = {}
    for res in problem.resources:
        if calendar:
            available[res] = problem.resources[res][:makespan+1]
        else:
            available[res] = np.full(makespan, problem.resources[res], dtype=int).tolist()
    for act_id, modes in problem.mode_details.items():
        if act_id == 1 or act_id == problem.n_jobs+2:
            continue
        start_time = self.rcpsp_schedule[act_id]['start_time']
        end_time = self.rcpsp_schedule[act_id]['end_time']
        needs = modes[self.rcpsp_modes[act_id-2]]
        for t in range(start_time, end_time):
            for res in available:
                available[res][t] -= needs[res]
                if t == end_time - 1 and res in problem.non_renewable_resources:
                    for tt in range(end_time, makespan):
                        available[res][tt] -= needs[res]
    mean_avail = {res: np.mean(available[res]) for res in problem.resources}
    return np.mean([mean_avail[res] / problem.resources[res] for res in problem.resources])
''', "RCPSPSolution")
fn("C29", RM, '''
def evaluate_function(self, rcpsp_sol):
    if rcpsp_sol._schedule_to_recompute:
        rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
    schedule = rcpsp_sol.rcpsp_schedule
    makespan = schedule[max(schedule.keys())]['end_time']
    return makespan, rcpsp_sol.compute_mean_resource_reserve()
''', "RCPSPModel")
fn("C29", RM, '''
def compute_graph(self):
    nodes = []
    for n in range(1, self.n_jobs + 3):
        durations = {}
        for mode, details in self.mode_details[n].items():
            durations[mode] = details["duration"]
        nodes.append((n, durations))
    return Graph(nodes, [(n, succ, {}) for n, succs in self.successors.items() for succ in succs], False)
''', "RCPSPModel")
fn("C29", RM, '''
def get_attribute_register(self):
    max_number_modes = max(len(modes) for modes in self.mode_details.values())
    tasks = list(self.mode_details.keys())
    mode_arrity = [len(self.mode_details[tasks[i]]) for i in range(1, len(tasks)-1)]
    return EncodingRegister({
        "rcpsp_permutation": {"name": "rcpsp_permutation",
                              "type": [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_RCPSP],
                              "range": range(self.n_jobs), "n": self.n_jobs},
        "rcpsp_modes": {"name": "rcpsp_modes", "type": [TypeAttribute.LIST_INTEGER],
                        "n": self.n_jobs, "arrity": max_number_modes},
        "rcpsp_modes_arrity_fix": {"name": "rcpsp_modes", "type": [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY],
                                   "n": self.n_jobs, "arrities": mode_arrity}})
''', "RCPSPModel")
GY = "hub/domain/gym/gym.py"
fn("C17 C18", GY, '''
def _generate_box_action_combinations(self, actions, shape, dtype, index, alist, rlist):
    if index >= len(actions):
        rlist.append(np.array(alist, dtype=dtype).reshape(shape))
        return
    for a in actions[index]:
        self._generate_box_action_combinations(actions, shape, dtype, index+1, alist + [a], rlist)
''', "GymDiscreteActionDomain")
fn("C17 C18", GY, '''
def _is_terminal(self, state):
    outcome = state._context[3]
    if outcome is None:
        return False
    return outcome.termination
''', "DeterministicGymDomain")
fn("C17 C18", GY, '''
def _get_next_state(self, memory, action):
    env = memory._context[0]
    accessible = self._get_state is not None and self._set_state is not None
    if not accessible:
        env = deepcopy(env)
    else:
        saved = memory._context[4]
        if saved != self._get_state(env):
            self._set_state(env, saved)
    self._gym_env = env
    obs, reward, done, info = env.step(action)
    outcome = TransitionOutcome(state=obs, value=TransitionValue(reward=reward), termination=done, info=info)
    snapshot = self._get_state(env) if accessible else None
    return GymDomainStateProxy(state=obs, context=[env, memory._state, action, outcome, snapshot])
''', "DeterministicGymDomain")
SP = "hub/solver/sgs_policies/sgs_policies.py"
fn("C32", SP, '''
def next_action_follow_static_gantt(policy_rcpsp, state, check_if_applicable=False, **kwargs):
    possible = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    candidates = []
    if state.t in policy_rcpsp.store_start_date:
        candidates = [task for task in policy_rcpsp.store_start_date[state.t]
                      if task not in state.tasks_ongoing and task not in state.tasks_complete and task in possible]
    if len(candidates) == 0:
        the_action = _wait()
    else:
        first = candidates[0]
        the_action = SchedulingAction(task=first, action=SchedulingActionEnum.START,
                                      mode=policy_rcpsp.modes_dictionnary[first],
                                      time_progress=False, resource_unit_names=None)
        if policy_rcpsp.resource_allocation is not None and first in policy_rcpsp.resource_allocation:
            the_action.resource_unit_names = policy_rcpsp.resource_allocation[first]
    if not action_in_applicable_actions(policy_rcpsp.domain, state, the_action)[0]:
        return _wait()
    return the_action

def _wait():
    return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None,
                            time_progress=True, resource_unit_names=None)
''')
fn("C32", SP, '''
def next_action_sgs_first_task_ready(policy_rcpsp, state, check_if_applicable=False, domain_sk_decide=None, **kwargs):
    possible = policy_rcpsp.domain.task_possible_to_launch_precedence(state=state)
    for task in policy_rcpsp.permutation_task:
        if task not in state.tasks_remaining or task not in possible:
            continue
        the_action = SchedulingAction(task=task, action=SchedulingActionEnum.START,
                                      mode=policy_rcpsp.modes_dictionnary[task],
                                      time_progress=False, resource_unit_names=None)
        if policy_rcpsp.resource_allocation is not None and task in policy_rcpsp.resource_allocation:
            the_action.resource_unit_names = policy_rcpsp.resource_allocation[task]
        applicable = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if applicable[0]:
            return the_action
    return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None,
                            time_progress=True, resource_unit_names=None)
''')
CT = "builders/scheduling/conditional_tasks.py"
fn("C23", CT, '''
def _get_available_tasks(self, state):
    conditions = self.get_task_existence_conditions()
    return {id for id in self.get_tasks_ids()
            if id not in conditions or all(cond in state._current_conditions for cond in conditions[id])}
''', "WithConditionalTasks")
fn("C23", CT, '''
def _get_all_unconditional_tasks(self):
    conditions = self.get_task_existence_conditions()
    return set(id for id in self.get_tasks_ids() if not (id in conditions and len(conditions[id]) > 0))
''', "WithConditionalTasks")
fn("C23", CT, '''
def _add_to_current_conditions(self, task, state):
    state._current_conditions.update(self.sample_completion_conditions(task))
''', "WithConditionalTasks")
VM = DO + "vrp/vrp_model.py"
fn("C31", VM, '''
def trivial_solution(vrp_model):
    customers = vrp_model.customers
    remaining_capacity, remaining_customers = _initial(vrp_model)
    vehicle_tours = []
    for v in range(vrp_model.vehicle_count):
        tour = []
        vehicle_tours.append(tour)
        while any(remaining_capacity[v] >= customers[c].demand for c in remaining_customers):
            used = set()
            for c in sorted(remaining_customers, key=lambda x: -customers[x].demand * vrp_model.customer_count + x):
                demand = customers[c].demand
                if remaining_capacity[v] < demand:
                    continue
                remaining_capacity[v] -= demand
                tour.append(c)
                used.add(c)
            remaining_customers -= used
    solution = VrpSolution(problem=vrp_model, list_start_index=vrp_model.start_indexes,
                           list_end_index=vrp_model.end_indexes, list_paths=vehicle_tours, length=None, lengths=None)
    return solution, vrp_model.evaluate(solution)

def _initial(vrp_model):
    remaining_capacity = {v: vrp_model.vehicle_capacities[v] for v in range(vrp_model.vehicle_count)}
    remaining_customers = set(range(vrp_model.customer_count))
    for v in range(vrp_model.vehicle_count):
        start = vrp_model.start_indexes[v]
        end = vrp_model.end_indexes[v]
        remaining_capacity[v] -= vrp_model.customers[start].demand
        if end != start:
            remaining_capacity[v] -= vrp_model.customers[end].demand
        remaining_customers.discard(start)
        remaining_customers.discard(end)
    return remaining_capacity, remaining_customers
''')
TM = DO + "tsp/tsp_model.py"
fn("C31", TM, '''
def compute_length(start_index, end_index, solution, list_points, node_count, length_permutation):
    lengths = [length(list_points[start_index], list_points[solution[0]])]
    for index in range(length_permutation-1):
        lengths.append(length(list_points[solution[index]], list_points[solution[index+1]]))
    lengths.append(length(list_points[end_index], list_points[solution[-1]]))
    return lengths, sum(lengths)
''')
DP = DO + "generic_tools/do_problem.py"
fn("C27", DP, '''
def aggregate_vector(self):
    method = self.method_aggregating.base_method_aggregating
    if method == BaseMethodAggregating.MEAN:
        func = np.mean
    elif method == BaseMethodAggregating.MEDIAN:
        func = np.median
    elif method == BaseMethodAggregating.PERCENTILE:
        func = lambda x: np.percentile(x, q=[self.method_aggregating.percentile])[0]
    elif method == BaseMethodAggregating.PONDERATION:
        func = lambda x: np.dot(x, self.method_aggregating.ponderation)
    elif method == BaseMethodAggregating.MIN:
        func = np.min
    elif method == BaseMethodAggregating.MAX:
        func = np.max
    return func
''', "RobustProblem")
fn("C27", DP, '''
def evaluate(self, variable):
    fits = []
    for i in range(self.nb_problem):
        fits.append(self.list_problem[i].evaluate(variable))
    return {k: self.agg_vec(np.array([fit[k] for fit in fits])) for k in fits[0]}
''', "RobustProblem")
SB = "hub/solver/do_solver/sk_to_do_binding.py"
fn("C33", SB, '''
def from_last_state_to_solution(state, domain):
    modes = []
    for j in sorted(domain.get_tasks_ids()):
        modes.append(state.tasks_mode.get(j, 1))
    schedule = {}
    for j, details in state.tasks_details.items():
        schedule[j] = {"start_time": details.start, "end_time": details.end}
    return RCPSPSolution(problem=build_do_domain(domain), rcpsp_permutation=None,
                         rcpsp_modes=modes[1:-1], rcpsp_schedule=schedule)
''')
