SD = "builders/scheduling/scheduling_domains.py"
DO = "builders/discrete_optimization/"
fn("C21 C23", SD, '''
def compute_graph(self):
    modes_of = self.get_tasks_modes()
    nodes = []
    for task in self.get_tasks_ids():
        nodes.append((task, {mode: self.sample_task_duration(task=task, mode=mode) for mode in modes_of[task]}))
    edges = [(task, follower, {}) for task, followers in self.get_successors().items() for follower in followers]
    return Graph(nodes, edges, undirected=False)
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def update_res_consumption(self, state: State):
    for task_id in state.tasks_ongoing:
        details = state.tasks_details[task_id]
        needs = self.get_resource_used(task=task_id, mode=state.tasks_mode[task_id], resource_unit_names=set(),
                                       time_since_start=details.get_task_active_time(state.t + 1))
        for resource, amount in needs.items():
            difference = amount - state.resource_used_for_task[task_id][resource]
            state.resource_used_for_task[task_id][resource] = amount
            state.resource_used[resource] += difference
    return state
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def update_progress(self, state: State):
    for task_id in state.tasks_ongoing:
        self._advance(state, task_id)
    return state

def _advance(self, state, task_id):
    gained = self.get_task_progress(task_id, t_from=state.t, t_to=state.t + 1, mode=state.tasks_mode[task_id],
                                    sampled_duration=state.tasks_details[task_id].sampled_duration)
    state.tasks_progress[task_id] += gained
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def update_complete_dummy_tasks(self, state: State, action: SchedulingAction):
    if action.action != SchedulingActionEnum.START:
        return state
    task = action.task
    if state.tasks_details[task].sampled_duration != 0:
        return state
    state.tasks_complete.add(task)
    state.tasks_progress[task] = 1
    state.tasks_ongoing.remove(task)
    state.tasks_details[task].end = state.t
    self._release_renewables(state, task)
    return state

def _release_renewables(self, state, task):
    for res, amount in state.resource_used_for_task[task].items():
        if self.is_renewable(res):
            state.resource_used[res] -= amount
    state.resource_used_for_task.pop(task)
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def update_pause_tasks(self, state: State, action: SchedulingAction):
    if action.action != SchedulingActionEnum.PAUSE:
        return state
    task = action.task
    state.tasks_paused.add(task)
    state.tasks_ongoing.remove(task)
    for res, amount in state.resource_used_for_task[task].items():
        released = self.is_renewable(res) or self.get_task_paused_non_renewable_resource_returned()[task]
        if released:
            state.resource_used[res] -= amount
    state.resource_used_for_task.pop(task)
    state.tasks_details[task].paused.append(state.t)
    return state
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def check_if_action_can_be_started(self, state: State, action: SchedulingAction)->Tuple[bool, Dict[str, int]]:
    if action.action not in (SchedulingActionEnum.START, SchedulingActionEnum.RESUME):
        return True, {}
    task = action.task
    mode = action.mode if action.mode is not None else state.tasks_mode[task]
    needed = self.get_resource_used(task, mode, action.resource_unit_names,
                                    state.tasks_details[task].get_task_active_time(state.t))
    for name in needed:
        if needed[name] > state.resource_availability[name] - state.resource_used[name]:
            return False, needed
    return self.check_if_skills_are_fulfilled(task=task, mode=mode, resource_used=needed), needed
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def get_resource_used(self, task: int, mode: int, resource_unit_names: Set[str], time_since_start: int):
    used = {res: self.get_tasks_modes()[task][mode].get_resource_need_at_time(resource_name=res, time=time_since_start)
            for res in self.get_resource_types_names()}
    if resource_unit_names is not None:
        used.update({unit: 1 for unit in resource_unit_names})
    return used
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def update_start_tasks(self, state: State, action: SchedulingAction):
    if action.action != SchedulingActionEnum.START:
        return state
    ok, needed = self.check_if_action_can_be_started(state, action)
    if ok:
        task, mode = action.task, action.mode
        state.tasks_mode[task] = mode
        state.tasks_ongoing.add(task)
        state.tasks_remaining.remove(task)
        details = state.tasks_details[task]
        details.start = state.t
        details.resources = dict(needed)
        details.sampled_duration = self.get_latest_sampled_duration(task=task, mode=mode, progress_from=0.)
        for res, amount in needed.items():
            state.resource_used[res] += amount
        state.resource_used_for_task[task] = needed
        state.tasks_progress[task] = 0.
    return state
''', "SchedulingDomain")
fn("C21 C22", SD, '''
def get_possible_starting_tasks(self, state: State):
    candidates = []
    for task in state.tasks_remaining:
        for mode in self.get_task_modes(task).keys():
            required = set(self.ancestors[task]).intersection(self.get_available_tasks(state))
            if all(m in state.tasks_complete for m in required):
                candidates.append((task, mode))
    startable = []
    for task, mode in candidates:
        enough = True
        for name in self.get_resource_types_names():
            free = state.resource_availability[name] - state.resource_used[name]
            if free - self.get_task_modes(task)[mode].get_resource_need_at_time(resource_name=name, time=0) < 0:
                enough = False
                break
        if enough:
            startable.append((task, mode))
    result = {}
    for task, mode in startable:
        if task not in result:
            result[task] = {}
        result[task][mode] = self.get_task_modes(task)[mode].get_non_zero_ressource_need_names(0)
    return result
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def state_is_overconsuming(self, state: State):
    for resource, used in state.resource_used.items():
        if used > state.resource_availability[resource]:
            return True
    return False
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def _get_transition_value(self, memory, action, next_state=None):
    objectives = self.get_objectives()
    makespan = 0.
    if SchedulingObjectiveEnum.MAKESPAN in objectives:
        makespan = next_state.t - memory.t
    cost = 0.
    if SchedulingObjectiveEnum.COST in self.get_objectives():
        mode_cost = 0.
        if action.action == SchedulingActionEnum.START:
            mode_cost = self.get_mode_costs()[action.task][action.mode]
        type_renewable, type_consumed = self._resource_costs(self.get_resource_types_names(), memory, next_state)
        unit_renewable, unit_consumed = self._resource_costs(self.get_resource_units_names(), memory, next_state)
        cost = mode_cost + type_renewable + type_consumed + unit_renewable + unit_consumed
    return TransitionValue(cost=makespan + cost)

def _resource_costs(self, names, memory, next_state):
    renewable, consumed = 0., 0.
    for name in names:
        if self.is_renewable(name):
            renewable += self.get_resource_cost_per_time_unit()[name] * next_state.resource_used[name]
        else:
            consumed += next_state.resource_used[name] - memory.resource_used[name]
    return renewable, consumed
''', "SchedulingDomain")
fn("C21 C22 C23", SD, '''
def _is_terminal(self, state: D.T_state) -> bool:
    possible = self.all_tasks_possible(state)
    if state.t > self.get_max_horizon():
        return True
    if not possible:
        return True
    return not state.tasks_remaining and not state.tasks_ongoing and not state.tasks_paused
''', "SchedulingDomain")
GT = "builders/scheduling/graph_toolbox.py"
fn("C23", GT, '''
def build_edges(self):
    for source, target, infos in self.edges:
        self.edges_infos_dict[(source, target)] = infos
        self.predecessors_dict.setdefault(target, set()).add(source)
        self.neighbors_dict.setdefault(source, set()).add(target)
        if self.undirected:
            self.predecessors_dict.setdefault(source, set()).add(target)
            self.neighbors_dict.setdefault(target, set()).add(source)
            self.edges_infos_dict[(target, source)] = infos
''', "Graph")
fn("C23", GT, '''
def check_loop(self):
    try:
        return nx.find_cycle(self.graph_nx, orientation="original")
    except:
        return None
''', "Graph")
fn("C23", GT, '''
def to_networkx(self):
    graph = nx.Graph() if self.undirected else nx.DiGraph()
    graph.add_nodes_from(self.nodes)
    graph.add_edges_from(self.edges)
    return graph

def ancestors_map(self):
    result = {}
    for node in self.graph_nx.nodes():
        result[node] = self.precedessors_nodes(node)
    return result
''', "Graph")
KM = DO + "knapsack/knapsack_model.py"
fn("C31", KM, '''
def evaluate_value(self, knapsack_solution):
    value = sum(knapsack_solution.list_taken[i] * self.list_items[i].value for i in range(self.nb_items))
    knapsack_solution.value = value
    knapsack_solution.weight = self._total_weight(knapsack_solution)
    return value

def _total_weight(self, solution):
    total = 0
    for i in range(self.nb_items):
        total += solution.list_taken[i] * self.list_items[i].weight
    return total
''', "KnapsackModel")
fn("C31", KM, '''
def evaluate(self, knapsack_solution):
    up_to_date = knapsack_solution.value is not None and not self.force_recompute_values
    value = knapsack_solution.value if up_to_date else self.evaluate_value(knapsack_solution)
    return {'value': value, 'weight_violation': self.evaluate_weight_violation(knapsack_solution)}

def evaluate_weight_violation(self, knapsack_solution):
    excess = knapsack_solution.weight - self.max_capacity
    return excess if excess > 0 else 0
''', "KnapsackModel")
fn("C31", KM, '''
def evaluate(self, knapsack_solution):
    res = super().evaluate(knapsack_solution)
    taken = [self.list_items[i].weight for i in range(self.nb_items) if knapsack_solution.list_taken[i] == 1]
    res["heaviest_item"] = max([0] + taken)
    res["weight"] = sum(taken)
    return res
''', "KnapsackModel_Mobj")
KG = DO + "knapsack/solvers/greedy_solvers.py"
fn("C31", KG, '''
def greedy_using_queue(knapsack_model, method_queue=None):
    method_queue = compute_density if method_queue is None else method_queue
    value = weight = 0
    taken = [0] * knapsack_model.nb_items
    for item in method_queue(knapsack_model):
        if weight + item.weight > knapsack_model.max_capacity:
            continue
        position = knapsack_model.index_to_index_list[item.index]
        taken[position] = 1
        value += item.value
        weight += item.weight
    return KnapsackSolution(problem=knapsack_model, value=value, weight=weight, list_taken=taken)
''')
fn("C31", KG, '''
def compute_density(knapsack_model):
    def density(item):
        return item.value / item.weight
    fitting = [item for item in knapsack_model.list_items if item.weight <= knapsack_model.max_capacity]
    return sorted(fitting, key=density, reverse=True)
''')
fn("C31", KG, '''
def best_of_greedy(knapsack_model):
    by_density, by_penalty = (greedy_using_queue(knapsack_model, queue) for queue in (compute_density, compute_density_and_penalty))
    if by_density.value > by_penalty.value:
        return by_density
    return by_penalty
''')
CM = DO + "coloring/coloring_model.py"
fn("C31", CM, '''
def count_violations(self, variable):
    return sum(1 for e in self.graph.edges if self._same_color(variable, e))

def satisfy(self, variable) -> bool:
    return not any(self._same_color(variable, e) for e in self.graph.edges)

def _same_color(self, variable, edge):
    first = variable.colors[self.index_nodes_name[edge[0]]]
    second = variable.colors[self.index_nodes_name[edge[1]]]
    return first == second
''', "ColoringProblem")
FM = DO + "facility/facility_model.py"
fn("C31", FM, '''
def evaluate_cost(self, variable):
    details = {}
    total, setup = 0., 0.
    for customer_index in range(self.customer_count):
        f = variable.facility_for_customers[customer_index]
        facility = self.facilities[f]
        customer = self.customers[customer_index]
        if f not in details:
            details[f] = dict(capacity_used=0., customers=set(), cost=0., setup_cost=facility.setup_cost)
            setup += facility.setup_cost
        entry = details[f]
        entry["capacity_used"] += customer.demand
        entry["customers"].add(customer_index)
        distance = self.evaluate_customer_facility(facility=facility, customer=customer)
        entry["cost"] += distance
        total += distance
    return {"cost": total, "setup_cost": setup, "details": details}
''', "FacilityProblem")
fn("C31", FM, '''
def evaluate(self, variable):
    if variable.dict_details is not None:
        return variable.dict_details
    result = self.evaluate_cost(variable)
    details = result["details"]
    result["capacity_constraint_violation"] = sum(max(details[f]["capacity_used"] - self.facilities[f].capacity, 0) for f in details)
    return result
''', "FacilityProblem")
TM = DO + "tsp/mutation/mutation_tsp.py"
fn("C34", TM, '''
def get_points_index(it, jt, variable, length_permutation):
    perm = variable.permutation
    i_before = variable.start_index if it == 0 else perm[it - 1]
    j_after = variable.end_index if jt == length_permutation - 1 else perm[jt + 1]
    return i_before, perm[it], perm[jt], j_after
''')
VM = DO + "vrp/vrp_model.py"
fn("C34", VM, '''
def evaluate(self, variable):
    if variable.lengths is None:
        lengths, _, total, capacities = self.evaluate_function(variable)
        variable.length, variable.lengths, variable.capacities = total, lengths, capacities
    violation = sum(max(variable.capacities[v] - self.vehicle_capacities[v], 0) for v in range(self.vehicle_count))
    return dict(length=variable.length, capacity_violation=violation)
''', "VrpProblem")
PM = DO + "generic_tools/mutations/permutation_mutations.py"
fn("C28", PM, '''
def __init__(self, problem, solution, attribute=None):
    self.problem = problem
    self.register = solution.get_attribute_register(problem)
    if attribute is None:
        attribute = self._first_permutation()
    self.attribute = attribute
    self.range_shuffle = self.register.dict_attribute_to_type[attribute]["range"]
    self.range_int = [i for i in range(len(self.range_shuffle))]

def _first_permutation(self):
    for name, infos in self.register.dict_attribute_to_type.items():
        if TypeAttribute.PERMUTATION in infos["type"]:
            return name
    return None
''', "PermutationShuffleMutation")
RM = DO + "rcpsp/rcpsp_model.py"
RS = DO + "generic_tools/result_storage/result_storage.py"
fn("C27", RS, '''
def add_solution(self, solution, fitness):
    if solution not in self.map_solutions:
        self.map_solutions[solution] = fitness
        self.list_solution_fits.append((solution, fitness))
    if not self.heap:
        self.min = self.max = fitness
        if self.best_solution is None:
            self.best_solution = solution
    better = fitness > self.max if self.maximize else fitness < self.min
    if better:
        self.best_solution = solution
    keep = fitness >= self.min if self.maximize else fitness <= self.max
    if not keep:
        return
    if self.limit_store and self.size_heap >= self.nb_best_score:
        heappushpop(self.heap, fitness)
    else:
        heappush(self.heap, fitness)
        self.size_heap += 1
    self.min = min(fitness, self.min)
    self.max = max(fitness, self.max)
''', "ResultStorage")
fn("C27", RS, '''
def get_last_best_solution(self):
    pick = max if self.maximize else min
    _, best = pick(self.list_solution_fits, key=lambda x: x[1])
    last = max(i for i, (_, fit) in enumerate(self.list_solution_fits) if fit == best)
    return self.list_solution_fits[last]
''', "ResultStorage")
