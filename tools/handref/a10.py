GS = "hub/space/gym/gym.py"
DM = "domains.py"
IN = "builders/domain/initialization.py"
ME = "builders/domain/memory.py"
DY = "builders/domain/dynamics.py"
CO = "core.py"
MS = "builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py"
VR = "builders/discrete_optimization/vrp/vrp_model.py"
SG = "hub/solver/simple_greedy/simple_greedy.py"
CP = "builders/discrete_optimization/rcpsp/solver/cpm.py"
fn("C18 C17", GS, '''
def to_unwrapped(self, sample_n):
    position = self._list_enum.index
    return [position(sample) for sample in sample_n]
''', "EnumSpace")
fn("C18 C17", GS, '''
def from_jsonable(self, sample_n):
    samples = []
    for name in sample_n:
        samples.append(self._enum_class[name])
    return samples
''', "EnumSpace")
fn("C18 C17", GS, '''
def from_jsonable(self, sample_n):
    return self.from_unwrapped(super().from_jsonable(sample_n))
''', "DataSpace")
fn("C18 C17", GS, '''
def contains(self, x):
    encoded = self.to_jsonable([x])
    decoded = super().from_jsonable(encoded)
    return super().contains(decoded[0])
''', "DataSpace")
fn("C18 C17", GS, '''
def from_unwrapped(self, sample_n):
    build = self._data_class
    result = []
    for fields in sample_n:
        result.append(build(**fields))
    return result
''', "DataSpace")
fn("C01 C02 C05", IN, '''
def _reset(self):
    state = self._state_reset()
    self._memory = self._init_memory(state)
    distribution = self._get_observation_distribution(state)
    return distribution.sample()
''', "Initializable")
fn("C01 C02 C05", ME, '''
def _init_memory(self, state=None):
    maxlen = self._get_memory_maxlen()
    if state is None:
        return Memory([], maxlen=maxlen)
    return Memory([state], maxlen=maxlen)
''', "History")
fn("C01 C02 C05 C09", DY, '''
def _sample(self, memory, action):
    outcome = self._state_sample(memory, action)
    return EnvironmentOutcome(observation=self._get_observation_distribution(outcome.state, action).sample(),
                              value=outcome.value,
                              termination=outcome.termination,
                              info=outcome.info)
''', "Simulation")
fn("C01 C02 C05 C09", DY, '''
def _state_sample(self, memory, action):
    distribution = self._get_next_state_distribution(memory, action)
    next_state = distribution.sample()
    return TransitionOutcome(state=next_state,
                             value=self._get_transition_value(memory, action, next_state),
                             termination=self._is_terminal(next_state),
                             info=None)
''', "UncertainTransitions")
fn("C03 C07", CO, '''
def __init__(self, values):
    self._values = values
    population, weights = zip(*values)
    self._population = population
    self._weights = weights
''', "DiscreteDistribution")
fn("C03 C07", CO, '''
def __init__(self, values):
    self._values = values
    self._population = tuple(v for v, _ in values)
    self._weights = tuple(p for _, p in values)
''', "DiscreteDistribution")
fn("C03 C07", CO, '''
def _cast(self, src_sub, dst_sub):
    src, dst = src_sub[0], dst_sub[0]
    values = []
    for element, probability in self._values:
        values.append((cast(element, src, dst), probability))
    return DiscreteDistribution(values)
''', "DiscreteDistribution")
fn("C03 C07", CO, '''
def _cast(self, src_sub, dst_sub):
    return ImplicitDistribution(lambda: cast(self._sample_function(), src_sub[0], dst_sub[0]))
''', "ImplicitDistribution")
fn("C20", SG, '''
def _get_next_action(self, observation):
    domain = self._domain
    memory = Memory([observation])
    actions = domain.get_applicable_actions(memory)
    dependent = domain.is_transition_value_dependent_on_next_state()

    def value(a):
        if not dependent:
            return domain.get_transition_value(memory, [a]).reward
        total = 0
        for s, p in domain.get_next_state_distribution(memory, [a]).get_values():
            total += p * domain.get_transition_value(memory, [a], s).reward
        return total
    values = [value(a) for a in actions.get_elements()]
    best = max(range(len(values)), key=values.__getitem__)
    return [actions.get_elements()[best]]
''', "SimpleGreedy")
fn("C30", MS, '''
def satisfy(self, rcpsp_sol):
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    schedule, usage = rcpsp_sol.schedule, rcpsp_sol.employee_usage
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        details = self.mode_details[task][mode]
        for skill in details:
            if skill not in self.skills_set or details[skill] <= 0:
                continue
            provided = sum(self.employees[emp].dict_skill[skill].skill_value
                           for emp in usage.get(task, {}) if skill in usage[task][emp])
            if provided < details[skill]:
                return False
        if task in usage:
            for e in usage[task]:
                for t in range(schedule[task]["start_time"], schedule[task]["end_time"]):
                    if not self.employees[e].calendar_employee[t]:
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2 > t1 and intersect((schedule[t1]["start_time"], schedule[t1]["end_time"]),
                                         (schedule[t2]["start_time"], schedule[t2]["end_time"])) is not None]
    for t1, t2 in overlaps:
        if any(k in usage.get(t2, {}) for k in usage.get(t1, {})):
            return False
    for t in range(schedule[self.sink_task]['end_time']):
        resource_usage = {res: 0 for res in self.resources_set}
        for act_id in self.tasks:
            if schedule[act_id]['start_time'] <= t < schedule[act_id]['end_time']:
                details = self.mode_details[act_id][rcpsp_sol.modes[act_id]]
                for res in self.resources_set:
                    resource_usage[res] += details[res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                return False
    for res in self.non_renewable_resources:
        usage_res = sum(self.mode_details[act_id][rcpsp_sol.modes[act_id]][res] for act_id in self.tasks)
        if usage_res > self.resources_availability[res][0]:
            return False
    for act_id in self.successors:
        for succ_id in self.successors[act_id]:
            if schedule[succ_id]['start_time'] < schedule[act_id]['end_time']:
                return False
    return True
''', "MS_RCPSPModel")
fn("C34", VR, '''
def evaluate(self, variable):
    if variable.lengths is None:
        variable.lengths, _, variable.length, variable.capacities = self.evaluate_function(variable)
    violation = sum(max(used - capacity, 0)
                    for used, capacity in ((variable.capacities[i], self.vehicle_capacities[i])
                                           for i in range(self.vehicle_count)))
    return {'length': variable.length, "capacity_violation": violation}
''', "VrpProblem")
fn("C34", VR, '''
def satisfy(self, variable):
    return not self.evaluate(variable)["capacity_violation"] != 0
''', "VrpProblem")
fn("C34", VR, '''
def compute_length(start_index, end_index, solution, list_customers, method):
    capacity = list_customers[start_index].demand
    if len(solution) == 0:
        obj = method(start_index, end_index)
        lengths = [obj]
    else:
        obj = method(start_index, solution[0])
        lengths = [obj]
        capacity += list_customers[solution[0]].demand
        for index in range(1, len(solution)):
            step = method(solution[index - 1], solution[index])
            obj += step
            lengths.append(step)
            capacity += list_customers[solution[index]].demand
        lengths.append(method(solution[-1], end_index))
        obj += lengths[-1]
    if start_index != end_index:
        capacity += list_customers[end_index].demand
    return lengths, obj, capacity
''')
fn("C34", VR, '''
def sequential_computing(vrp_sol, vrp_model):
    results = [compute_length(start_index=vrp_sol.list_start_index[i],
                              end_index=vrp_sol.list_end_index[i],
                              solution=path,
                              list_customers=vrp_model.customers,
                              method=vrp_model.evaluate_function_indexes)
               for i, path in enumerate(vrp_sol.list_paths)]
    return ([r[0] for r in results], [r[1] for r in results], sum(r[1] for r in results), [r[2] for r in results])
''')
fn("C34", VR, '''
def trivial_solution(vrp_model):
    nb_vehicles = vrp_model.vehicle_count
    nb_customers = vrp_model.customer_count
    customers = vrp_model.customers
    remaining_capacity = {v: vrp_model.vehicle_capacities[v] for v in range(nb_vehicles)}
    remaining_customers = set(range(nb_customers))
    for v in range(nb_vehicles):
        start, end = vrp_model.start_indexes[v], vrp_model.end_indexes[v]
        remaining_capacity[v] -= customers[start].demand
        if end != start:
            remaining_capacity[v] -= customers[end].demand
        remaining_customers.discard(start)
        remaining_customers.discard(end)
    vehicle_tours = []
    for v in range(nb_vehicles):
        vehicle_tours.append([])
        while any(remaining_capacity[v] >= customers[c].demand for c in remaining_customers):
            used = set()
            for c in sorted(remaining_customers, key=lambda x: x - customers[x].demand * nb_customers):
                if customers[c].demand <= remaining_capacity[v]:
                    remaining_capacity[v] -= customers[c].demand
                    vehicle_tours[v].append(c)
                    used.add(c)
            remaining_customers = remaining_customers - used
    solution = VrpSolution(problem=vrp_model, list_start_index=vrp_model.start_indexes,
                           list_end_index=vrp_model.end_indexes, list_paths=vehicle_tours,
                           length=None, lengths=None)
    return solution, vrp_model.evaluate(solution)
''')
fn("C25 C13", DM, '''
def get_result(self, i):
    self._waiting_jobs[i].recv()
    results = self._job_results
    result = results[i]
    results[i] = None
    self._active_domains[i] = False
    return result
''', "PipeParallelDomain")
fn("C25 C13", DM, '''
def close(self):
    for i in range(len(self._job_results)):
        connection, process = self._waiting_jobs[i], self._processes[i]
        connection.send(None)
        process.join()
        process.close()
        connection.close()
        self._processes[i] = None
        self.close_ipc_connection(i)
''', "PipeParallelDomain")
fn("C25 C13", DM, '''
def _launch_domain_server_(domain_factory, lambdas, i, job_results, conn, ipc_conn, logger):
    domain = domain_factory()
    pusher = None
    if ipc_conn is not None:
        pusher = Push0()
        pusher.dial(ipc_conn)
    while True:
        job = conn.recv()
        job_results[i] = None
        if job is None:
            break
        function, args = job[0], job[1]
        try:
            if isinstance(function, str):
                job_results[i] = getattr(domain, function)(*args)
            else:
                job_results[i] = lambdas[function](domain, *args)
            if ipc_conn is not None:
                pusher.send(b'0')
            conn.send('0')
        except Exception as e:
            logger.error(rf'/!\\ Unable to perform job {function}: {e}')
            if ipc_conn is not None:
                pusher.send(str(e).encode(encoding='UTF-8'))
            conn.send(str(e))
    if ipc_conn is not None:
        pusher.close()
    conn.close()
''')
