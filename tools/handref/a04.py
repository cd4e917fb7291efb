DM = "domains.py"
fn("C12", DM, '''
def wake_up_domain(self, i=None):
    if i is not None:
        self._active_domains[i] = True
        return i
    while True:
        with self._active_domains.get_lock():
            for j in range(len(self._active_domains)):
                if not self._active_domains[j]:
                    self._active_domains[j] = True
                    return j
''', "ParallelDomain")
fn("C12", DM, '''
def wake_up_domain(self, i=None):
    if i is None:
        i = self._next_free()
    else:
        self._active_domains[i] = True
    return i

def _next_free(self):
    while True:
        with self._active_domains.get_lock():
            for j, busy in enumerate(self._active_domains):
                if busy:
                    continue
                self._active_domains[j] = True
                return j
''', "ParallelDomain")
fn("C12", DM, '''
def __init__(self, domain_factory, lambdas=None, nb_domains=os.cpu_count(), ipc_notify=False):
    self._domain_factory = domain_factory
    self._lambdas = lambdas
    self._ipc_notify = ipc_notify
    self._active_domains = mp.Array('b', [False] * nb_domains, lock=True)
    self._temp_connections = [None for _ in range(nb_domains)]
    self._ipc_connections = [None for _ in range(nb_domains)]
    self._processes = [None for _ in range(nb_domains)]
''', "ParallelDomain")
fn("C12", DM, '''
def __getstate__(self):
    return {k: v for k, v in self.__dict__.items() if k != '_temp_connections'}
''', "ParallelDomain")
fn("C12", DM, '''
def _launch_domain_server_(domain_factory, lambdas, i, job_results, conn, ipc_conn, logger):
    domain = domain_factory()
    pusher = None
    if ipc_conn is not None:
        pusher = Push0()
        pusher.dial(ipc_conn)
    while True:
        job = conn.recv()
        job_results[i] = None
        if job is None:
            if ipc_conn is not None:
                pusher.close()
            conn.close()
            return
        try:
            function, args = job[0], job[1]
            if isinstance(function, str):
                job_results[i] = getattr(domain, function)(*args)
            else:
                job_results[i] = lambdas[function](domain, *args)
            if ipc_conn is not None:
                pusher.send(b'0')
            conn.send('0')
        except Exception as e:
            logger.error(f'/!\\\\ Unable to perform job {job[0]}: {e}')
            if ipc_conn is not None:
                pusher.send(str(e).encode(encoding='UTF-8'))
            conn.send(str(e))
''')
fn("C12", DM, '''
def get_result(self, i):
    self._waiting_jobs[i].recv()
    result, self._job_results[i] = self._job_results[i], None
    self._active_domains[i] = False
    return result
''', "PipeParallelDomain")
fn("C12", DM, '''
def launch(self, i, function, *args):
    if not any(self._processes):
        self._launch_processes()
    mi = self.wake_up_domain(i)
    try:
        self._waiting_jobs[mi].send((function, args))
    except Exception as e:
        self._active_domains[mi] = False
        job = function if isinstance(function, str) else f'lambdas[{function}]'
        logger.error(f'/!\\\\ Unable to launch job {job}: {e}')
        return None
    return mi
''', "PipeParallelDomain")
fn("C12", DM, '''
def _launch_processes(self):
    for i in range(len(self._job_results)):
        self.open_ipc_connection(i)
        parent_end, child_end = mp.Pipe()
        self._waiting_jobs[i] = parent_end
        ipc = None
        if self._ipc_notify:
            ipc = self._ipc_connections[i]
        process = mp.Process(target=_launch_domain_server_,
                             args=[self._domain_factory, self._lambdas, i, self._job_results, child_end, ipc, logger])
        self._processes[i] = process
        process.start()
    while True in set(self._active_domains):
        pass
''', "PipeParallelDomain")
fn("C12", DM, '''
def get_result(self, i):
    with self._conditions[i]:
        self._conditions[i].wait_for(lambda: bool(self._dones[i].value))
        self._dones[i].value = False
    results = []
    for r in self._shm_params[i]:
        if r < 0:
            break
        results.append(self._decode(i, r))
    self._active_domains[i] = False
    if len(results) > 1:
        return results
    return results[0] if results else None

def _decode(self, i, r):
    typ = self._shm_types[r]
    sz = self._shm_sizes[typ.__name__]
    start = i * self._rsize + r
    if sz > 1:
        return self._shm_proxy.decode(typ, self._shm_arrays[start:start + sz])
    return self._shm_proxy.decode(typ, self._shm_arrays[start])
''', "ShmParallelDomain")
fn("C12", DM, '''
def close(self):
    for i in range(len(self._processes)):
        self._shm_lambdas[i].value = -1
        self._shm_names[i][:] = bytearray(len(self._shm_names[i]))
        params = self._shm_params[i]
        params[:] = [-1] * len(params)
        with self._conditions[i]:
            self._activations[i].value = True
            self._conditions[i].notify_all()
        p = self._processes[i]
        p.join()
        p.close()
        self._processes[i] = None
        self.close_ipc_connection(i)
''', "ShmParallelDomain")
fn("C10", DM, '''
@classmethod
def solve_with(cls, solver, domain_factory=None, load_path=None):
    factory = cls if domain_factory is None else domain_factory
    if load_path is None:
        solver.solve(factory)
    else:
        def cast_domain_factory():
            d = factory()
            autocast_all(d, d, solver.T_domain)
            return d

        solver.load(load_path, cast_domain_factory)
    autocast_all(solver, solver.T_domain, cls)
    return solver
''', "Domain")
LA = "hub/solver/lazy_astar/lazy_astar.py"
r("C14", LA, [("""        def extender(node, label, explored):
            neigh = [(self._domain.get_next_state(node, a), a)
                     for a in self._domain.get_applicable_actions(node).get_elements()]
            neigh_not_explored = [(n, a) for n, a in neigh if n not in explored]
            cost_labels = [(n, self._domain.get_transition_value(node, a, n).cost, {'action': a})
                           for n, a in neigh_not_explored]
            return cost_labels
""", """        def extender(node, label, explored):
            result = []
            for a in self._domain.get_applicable_actions(node).get_elements():
                n = self._domain.get_next_state(node, a)
                if n in explored:
                    continue
                result.append((n, self._domain.get_transition_value(node, a, n).cost, {'action': a}))
            return result
""")])
r("C14", LA, [("""        if self._from_state is None:
            # get initial observation from domain (assuming DeterministicInitialized)
            sources = [self._domain.get_initial_state()]
        else:
            sources = [self._from_state]
""", """        start = self._from_state if self._from_state is not None else self._domain.get_initial_state()
        sources = [start]
""")])
r("C14", LA, [("""        push = heappush
        pop = heappop
""", ""), ("= pop(queue)", "= heappop(queue)"), ("push(queue, (", "heappush(queue, (")])
fn("C14", LA, '''
def _get_utility(self, observation):
    if observation in self._values:
        return self._values[observation]
    return self._heuristic(self._domain, observation)

def _is_policy_defined_for(self, observation):
    return observation in self._policy.keys()
''', "LazyAstar")
SG = "hub/solver/simple_greedy/simple_greedy.py"
fn("C15", SG, '''
def _get_next_action(self, observation):
    memory = Memory([observation])
    actions = self._domain.get_applicable_actions(memory)
    dependent = self._domain.is_transition_value_dependent_on_next_state()
    values = []
    for a in actions.get_elements():
        if dependent:
            value = 0
            for s, p in self._domain.get_next_state_distribution(memory, [a]).get_values():
                value += p * self._domain.get_transition_value(memory, [a], s).reward
        else:
            value = self._domain.get_transition_value(memory, [a]).reward
        values.append(value)
    best = max(range(len(values)), key=values.__getitem__)
    return [actions.get_elements()[best]]
''', "SimpleGreedy")
fn("C15", SG, '''
def _get_next_action(self, observation):
    memory = Memory([observation])
    applicable_actions = self._domain.get_applicable_actions(memory)
    if self._domain.is_transition_value_dependent_on_next_state():
        values = [self._expected_reward(memory, a) for a in applicable_actions.get_elements()]
    else:
        values = [self._domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
    argmax = max(range(len(values)), key=lambda k: values[k])
    return [applicable_actions.get_elements()[argmax]]

def _expected_reward(self, memory, action):
    return sum(p * self._domain.get_transition_value(memory, [action], s).reward
               for s, p in self._domain.get_next_state_distribution(memory, [action]).get_values())
''', "SimpleGreedy")
LR = "hub/solver/lrtastar/lrtastar.py"
r("C15", LR, [("""                for k in range(len(current_roll)):
                    self._policy[current_roll[k][0]] = current_roll[k][1]["action"]
""", """                for state, label in current_roll:
                    self._policy[state] = label['action']
""")])
r("C15", LR, [("""                    best_estimated_cost = r + self.values[st]
""", """                    best_estimated_cost = self.values[st] + r
"""), ("                if (not current_state in self.values) or (self.values[current_state] != best_estimated_cost):",
"                if current_state not in self.values or best_estimated_cost != self.values[current_state]:")])
r("C15", LR, [("""        if self._from_state is None:
            # get initial observation from domain (assuming DeterministicInitialized)
            from_observation = self._domain.get_initial_state()
        else:
            from_observation = self._from_state
""", """        from_observation = self._from_state
        if from_observation is None:
            from_observation = self._domain.get_initial_state()
""")])
UT = "utils.py"
DUMP = [("""            try:
                with open(os.path.join(directory, '%ss.json'), 'w') as f:
                    json.dump(%ss, f, indent=2)
            except TypeError:
                logger.error("%s is not serializable")
""" % (n, n, n.capitalize())) for n in ("action", "transition", "observation")]
r("C11", UT, [(d, "            _dump(directory, '%ss.json', %ss, '%s')\n" % (n, n, n.capitalize())) for d, n in zip(DUMP, ("action", "transition", "observation"))] + [
    ("def rollout_episode(", '''def _dump(directory, name, content, what):
    try:
        with open(os.path.join(directory, name), 'w') as f:
            json.dump(content, f, indent=2)
    except TypeError:
        logger.error(f"{what} is not serializable")


def rollout_episode(''')])
r("C11", UT, [("".join(DUMP), '''            for what, content in (('Action', actions), ('Transition', transitions), ('Observation', observations)):
                try:
                    with open(os.path.join(directory, what.lower() + 's.json'), 'w') as f:
                        json.dump(content, f, indent=2)
                except TypeError:
                    logger.error(what + " is not serializable")
''')]) if 0 else None
r("C11", UT, [("""        if save_result_directory is not None:
            observations = dict()
            transitions = dict()
            actions = dict()
            # save the initial observation
            observations[0] = observation
""", """        recording = save_result_directory is not None
        observations, transitions, actions = {0: observation}, {}, {}
"""), ("""            if save_result_directory is not None:
                previous_observation = copy.deepcopy(observation)
""", """            if recording:
                previous_observation = copy.deepcopy(observation)
"""), ("""            if save_result_directory is not None:
                if isinstance(domain, FullyObservable):
                    observations[step] = observation
                    actions[step] = action
                    transitions[step] = {
                        "s": hash(previous_observation),
                        "a": hash(action),
                        "cost": outcome.value.cost,
                        "s'": hash(observation)
                    }
""", """            if recording and isinstance(domain, FullyObservable):
                entry = {"s": hash(previous_observation), "a": hash(action)}
                entry["cost"] = outcome.value.cost
                entry["s'"] = hash(observation)
                observations[step], actions[step] = observation, action
                transitions[step] = entry
""")])
r("C11", UT, [("""    observations = []
    actions = []
    values = []
    for i_episode""", """    observations, actions, values = [], [], []
    for i_episode"""), ("""        # save the initial observation
        observations.append(observation)
""", """        observations += [observation]
"""), ("""            outcome = domain.step(action)
            observation = outcome.observation
            observations.append(observation)
""", """            outcome = domain.step(action)
            observation = outcome.observation
            observations += [observation]
""")])
r("C11", UT, [("""            observation = domain.get_observation_distribution(last_state, from_action).sample()
        if verbose:
            logger.debug(f'Episode {i_episode + 1} started with following observation:')
            logger.debug(observation)
        # Run episode
        step = 1
""", """            observation = domain.get_observation_distribution(last_state, from_action).sample()
        # Run episode
        step = 1
"""), ("""        while max_steps is None or step <= max_steps:
            old_time = time.perf_counter()
            if render and has_render:
                domain.render()
            memory =""", """        while True:
            if max_steps is not None and step > max_steps:
                break
            old_time = time.perf_counter()
            if render and has_render:
                domain.render()
            memory =""")])
r("C11", UT, [("""        if from_memory is None:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        if verbose:
""", """        observation = _start(domain, from_memory, from_action)
        if verbose:
"""), ("def rollout_episode(", '''def _start(domain, memory, action):
    if memory is None:
        return domain.reset()
    domain.set_memory(memory)
    state = memory if isinstance(domain, Markovian) else memory[-1]
    return domain.get_observation_distribution(state, action).sample()


def rollout_episode(''')])
PA = "builders/solver/parallelability.py"
