# C12: parallel domains


@spec("domains.py", "ParallelDomain.__init__")
def _(self, domain_factory, lambdas=None, nb_domains=os.cpu_count(), ipc_notify=False):
    self._domain_factory = domain_factory
    self._lambdas = lambdas
    self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
    self._temp_connections = [None] * nb_domains
    self._ipc_connections = [None] * nb_domains
    self._processes = [None] * nb_domains
    self._ipc_notify = ipc_notify


@spec("domains.py", "ParallelDomain.open_ipc_connection")
def _(self, i):
    self._temp_connections[i] = tempfile.NamedTemporaryFile()
    self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'


@spec("domains.py", "ParallelDomain.close_ipc_connection")
def _(self, i):
    self._temp_connections[i].close()
    self._ipc_connections[i] = None


@spec("domains.py", "ParallelDomain._launch_processes")
def _(self):
    raise NotImplementedError


@spec("domains.py", "ParallelDomain.close")
def _(self):
    raise NotImplementedError


@spec("domains.py", "ParallelDomain.__enter__")
def _(self):
    self._launch_processes()
    return self


@spec("domains.py", "ParallelDomain.__exit__")
def _(self, type, value, tb):
    self.close()


@spec("domains.py", "ParallelDomain.launch")
def _(self, i, name, *args):
    raise NotImplementedError


@spec("domains.py", "ParallelDomain.get_proc_connections")
def _(self):
    raise NotImplementedError


@spec("domains.py", "ParallelDomain.get_ipc_connections")
def _(self):
    return self._ipc_connections


@spec("domains.py", "ParallelDomain.get_parallel_capacity")
def _(self):
    return self.nb_domains()


@spec("domains.py", "ParallelDomain.nb_domains")
def _(self):
    return len(self._processes)


@spec("domains.py", "ParallelDomain.wake_up_domain")
def _(self, i=None):
    if i is None:
        while True:
            with self._active_domains.get_lock():
                for j, v in enumerate(self._active_domains):
                    if not v:
                        self._active_domains[j] = True
                        return j
    else:
        self._active_domains[i] = True
        return i


@spec("domains.py", "ParallelDomain.reset")
def _(self, i=None):
    return self.launch(i, 'reset')


@spec("domains.py", "ParallelDomain.get_initial_state_distribution")
def _(self, i=None):
    return self.launch(i, 'get_initial_state_distribution')


@spec("domains.py", "ParallelDomain.get_initial_state")
def _(self, i=None):
    return self.launch(i, 'get_initial_state')


@spec("domains.py", "ParallelDomain.get_observation_space")
def _(self, i=None):
    return self.launch(i, 'get_observation_space')


@spec("domains.py", "ParallelDomain.is_observation")
def _(self, observation, i=None):
    return self.launch(i, 'is_observation', observation)


@spec("domains.py", "ParallelDomain.get_observation_distribution")
def _(self, state, action, i=None):
    return self.launch(i, 'get_observation_distribution', state, action)


@spec("domains.py", "ParallelDomain.get_observation")
def _(self, state, action, i=None):
    return self.launch(i, 'get_observation', state, action)


@spec("domains.py", "ParallelDomain.get_enabled_events")
def _(self, memory, i=None):
    return self.launch(i, 'get_enabled_events', memory)


@spec("domains.py", "ParallelDomain.is_enabled_event")
def _(self, event, memory, i=None):
    return self.launch(i, 'is_enabled_event', event, memory)


@spec("domains.py", "ParallelDomain.get_action_space")
def _(self, i=None):
    return self.launch(i, 'get_action_space')


@spec("domains.py", "ParallelDomain.is_action")
def _(self, event, i=None):
    return self.launch(i, 'is_action', event)


@spec("domains.py", "ParallelDomain.get_applicable_actions")
def _(self, memory, i=None):
    return self.launch(i, 'get_applicable_actions', memory)


@spec("domains.py", "ParallelDomain.is_applicable_action")
def _(self, action, memory, i=None):
    return self.launch(i, 'is_applicable_action', action, memory)


@spec("domains.py", "ParallelDomain.step")
def _(self, action, i=None):
    return self.launch(i, 'step', action)


@spec("domains.py", "ParallelDomain.sample")
def _(self, memory, action, i=None):
    return self.launch(i, 'sample', memory, action)


@spec("domains.py", "ParallelDomain.get_next_state_distribution")
def _(self, memory, action, i=None):
    return self.launch(i, 'get_next_state_distribution', memory, action)


@spec("domains.py", "ParallelDomain.get_next_state")
def _(self, memory, action, i=None):
    return self.launch(i, 'get_next_state', memory, action)


@spec("domains.py", "ParallelDomain.get_transition_value")
def _(self, memory, action, next_state, i=None):
    return self.launch(i, 'get_transition_value', memory, action, next_state)


@spec("domains.py", "ParallelDomain.is_transition_value_dependent_on_next_state")
def _(self, i=None):
    return self.launch(i, 'is_transition_value_dependent_on_next_state')


@spec("domains.py", "ParallelDomain.get_goals")
def _(self, i=None):
    return self.launch(i, 'get_goals')


@spec("domains.py", "ParallelDomain.is_goal")
def _(self, observation, i=None):
    return self.launch(i, 'is_goal', observation)


@spec("domains.py", "ParallelDomain.is_terminal")
def _(self, state, i=None):
    return self.launch(i, 'is_terminal', state)


@spec("domains.py", "ParallelDomain.check_value")
def _(self, value, i=None):
    return self.launch(i, 'check_value', value)


@spec("domains.py", "ParallelDomain.render")
def _(self, memory, i=None):
    return self.launch(i, 'render', memory)


@spec("domains.py", "ParallelDomain.call")
def _(self, i, lambda_id, *args):
    return self.launch(i, lambda_id, *args)


@spec("domains.py", "ParallelDomain.__getattr__")
def _(self, name):

    def method(*args, i=None):
        return self.launch(i, name, *args)
    return method


@spec("domains.py", "ParallelDomain.__getstate__")
def _(self):
    d = self.__dict__.copy()
    del d['_temp_connections']
    return d


@spec("domains.py", "ParallelDomain.__setstate__")
def _(self, state):
    self.__dict__ = state


@spec("domains.py", "_launch_domain_server_", ignore=["error"], order=[
    (r"setitem⟨\$3, \$2", r"\$4\.send\("),
    (r"setitem⟨\$3, \$2", r"\.send\(b'0'\)")])
def _(domain_factory, lambdas, i, job_results, conn, ipc_conn, logger):
    domain = domain_factory()
    if ipc_conn is not None:
        pusher = Push0()
        pusher.dial(ipc_conn)
    while True:
        job = conn.recv()
        job_results[i] = None
        if job is None:
            if ipc_conn is not None:
                pusher.close()
            conn.close()
            break
        else:
            try:
                if isinstance(job[0], str):
                    r = getattr(domain, job[0])(*job[1])
                else:
                    r = lambdas[job[0]](domain, *job[1])
                job_results[i] = r
                if ipc_conn is not None:
                    pusher.send(b'0')
                conn.send('0')
            except Exception as e:
                if ipc_conn is not None:
                    pusher.send(str(e).encode(encoding='UTF-8'))
                conn.send(str(e))


@spec("domains.py", "PipeParallelDomain.__init__")
def _(self, domain_factory, lambdas=None, nb_domains=os.cpu_count(), ipc_notify=False):
    super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
    self._manager = mp.Manager()
    self._waiting_jobs = [None] * nb_domains
    self._job_results = self._manager.list([None for i in range(nb_domains)])


@spec("domains.py", "PipeParallelDomain.get_proc_connections")
def _(self):
    return self._waiting_jobs


@spec("domains.py", "PipeParallelDomain.launch")
def _(self, i, function, *args):
    if not any(self._processes):
        self._launch_processes()
    mi = self.wake_up_domain(i)
    try:
        self._waiting_jobs[mi].send((function, args))
        return mi
    except Exception as e:
        self._active_domains[mi] = False
        if isinstance(function, str):
            pass


@spec("domains.py", "PipeParallelDomain.get_result", order=[
    (r"_waiting_jobs\[\$0\]\.recv\(", r"load self\._job_results"),
    (r"load self\._job_results", r"setitem⟨self\._job_results"),
    (r"setitem⟨self\._job_results", r"setitem⟨self\._active_domains")])
def _(self, i):
    self._waiting_jobs[i].recv()
    r = self._job_results[i]
    self._job_results[i] = None
    self._active_domains[i] = False
    return r


@spec("domains.py", "PipeParallelDomain._launch_processes")
def _(self):
    for i in range(len(self._job_results)):
        self.open_ipc_connection(i)
        pparent, pchild = mp.Pipe()
        self._waiting_jobs[i] = pparent
        self._processes[i] = mp.Process(target=_launch_domain_server_, args=[self._domain_factory, self._lambdas, i, self._job_results, pchild, self._ipc_connections[i] if self._ipc_notify else None, logger])
        self._processes[i].start()
    while True in set(self._active_domains):
        continue


@spec("domains.py", "PipeParallelDomain.close", order=[(r"\.send\(None", r"\.join\("), (r"\.join\(", r"_processes\[.*\]\.close\("), (r"\.join\(", r"_waiting_jobs\[.*\]\.close")])
def _(self):
    for i in range(len(self._job_results)):
        self._waiting_jobs[i].send(None)
        self._processes[i].join()
        self._processes[i].close()
        self._waiting_jobs[i].close()
        self._processes[i] = None
        self.close_ipc_connection(i)


@spec("domains.py", "_shm_launch_domain_server_", ignore=["error"], order=[
    (r"\$14\.wait_for", r"store⟨\$12, value"),
    (r"store⟨\$12, value", r"\$3\.decode\("),
    (r"\$14\.wait_for", r"load \$10\[\$2\]"),
    (r"\$3\.encode\(", r"store⟨\$13, value"),
    (r"setitem⟨\$11\[\$2\]", r"store⟨\$13, value"),
    (r"store⟨\$13, value", r"\$14\.notify_all")])
def _(domain_factory, lambdas, i, shm_proxy, shm_registers, shm_types, shm_sizes, rsize, shm_arrays, shm_lambdas, shm_names, shm_params, activation, done, cond, ipc_conn, logger):
    domain = domain_factory()
    if ipc_conn is not None:
        pusher = Push0()
        pusher.dial(ipc_conn)

    def get_string(s):
        for i, c in enumerate(s):
            if c == b'\x00':
                return s[:i].decode()
        return s.decode()
    while True:
        with cond:
            cond.wait_for(lambda: bool(activation.value) == True)
            activation.value = False
        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
            if ipc_conn is not None:
                pusher.close()
            break
        else:
            try:
                job_args = []
                for p in shm_params[i]:
                    if p >= 0:
                        sz = shm_sizes[shm_types[p].__name__]
                        if sz > 1:
                            si = i * rsize + p
                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:si + sz]))
                        else:
                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[i * rsize + p]))
                    else:
                        break
                if int(shm_lambdas[i].value) == -1:
                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
                else:
                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
                shm_params[i][:] = [-1] * len(shm_params[i])
                if type(result) is not tuple:
                    result = (result,)
                if result[0] is not None:
                    type_counters = {}
                    for j, r in enumerate(result):
                        res_name = type(r).__name__
                        start, end = shm_registers[res_name]
                        if res_name in type_counters:
                            type_counters[res_name] += shm_sizes[res_name]
                            k = type_counters[res_name]
                            if k >= end:
                                raise IndexError('No more available register for type {}. \n                                                    Please increase the number of registers \n                                                    for that type.'.format(res_name))
                        else:
                            type_counters[res_name] = start
                            k = start
                        shm_params[i][j] = k
                        sz = shm_sizes[res_name]
                        if sz > 1:
                            si = i * rsize + k
                            shm_proxy.encode(r, shm_arrays[si:si + sz])
                        else:
                            shm_proxy.encode(r, shm_arrays[i * rsize + k])
                if ipc_conn is not None:
                    pusher.send(b'0')
            except Exception as e:
                if int(shm_lambdas[i].value) == -1:
                    pass
                shm_params[i][:] = [-1] * len(shm_params[i])
                if ipc_conn is not None:
                    pusher.send(str(e).encode(encoding='UTF-8'))
            with cond:
                done.value = True
                cond.notify_all()


@spec("domains.py", "ShmParallelDomain.__init__")
def _(self, domain_factory, shm_proxy, lambdas=None, nb_domains=os.cpu_count(), ipc_notify=False):
    super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
    self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
    self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
    self._conditions = [mp.Condition() for i in range(nb_domains)]
    self._shm_proxy = shm_proxy
    self._shm_registers = {}
    self._shm_types = {}
    self._shm_sizes = {}
    self._shm_arrays = []
    self._rsize = 0
    self._shm_lambdas = [None] * nb_domains
    self._shm_names = [None] * nb_domains
    self._shm_params = [None] * nb_domains
    for i in range(nb_domains):
        j = 0
        for r in shm_proxy.register():
            for k in range(r[1]):
                m = shm_proxy.initialize(r[0])
                if type(m) == list or type(m) == tuple:
                    if i == 0 and k == 0:
                        self._shm_sizes[r[0].__name__] = len(m)
                        self._shm_registers[r[0].__name__] = (j, j + r[1] * len(m))
                        self._shm_types.update({kk: r[0] for kk in range(j, j + r[1] * len(m), len(m))})
                        self._rsize += r[1] * len(m)
                    self._shm_arrays.extend(m)
                    j += len(m)
                else:
                    if i == 0 and k == 0:
                        self._shm_sizes[r[0].__name__] = 1
                        self._shm_registers[r[0].__name__] = (j, j + r[1])
                        self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
                        self._rsize += r[1]
                    self._shm_arrays.append(m)
                    j += 1
        self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
        self._shm_names[i] = mp.Array('c', bytearray(100))
        self._shm_params[i] = mp.Array('i', [-1] * sum((r[1] for r in shm_proxy.register())))


@spec("domains.py", "ShmParallelDomain.get_proc_connections")
def _(self):
    return (self._activations, self._conditions)


@spec("domains.py", "ShmParallelDomain.launch", order=[
    (r"_shm_proxy\.encode\(", r"store⟨self\._activations"),
    (r"setitem⟨self\._shm_names", r"store⟨self\._activations"),
    (r"store⟨self\._shm_lambdas", r"store⟨self\._activations"),
    (r"setitem⟨self\._shm_params\[.*\], slice⟨", r"setitem⟨self\._shm_params\[.*\], idx"),
    (r"setitem⟨self\._shm_params", r"store⟨self\._activations"),
    (r"store⟨self\._activations", r"notify_all")])
def _(self, i, function, *args):
    if not any(self._processes):
        self._launch_processes()
    mi = self.wake_up_domain(i)
    try:
        if isinstance(function, str):
            self._shm_lambdas[mi].value = -1
            self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + bytearray(len(self._shm_names[mi]) - len(function))
        else:
            self._shm_lambdas[mi].value = int(function)
            self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))
        self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
        type_counters = {}
        for j, a in enumerate(args):
            arg_name = type(a).__name__
            start, end = self._shm_registers[arg_name]
            if arg_name in type_counters:
                type_counters[arg_name] += self._shm_sizes[arg_name]
                k = type_counters[arg_name]
                if k >= end:
                    raise IndexError('No more available register for type {}. \n                                            Please increase the number of registers \n                                            for that type.'.format(arg_name))
            else:
                type_counters[arg_name] = start
                k = start
            self._shm_params[mi][j] = k
            sz = self._shm_sizes[arg_name]
            if sz > 1:
                si = mi * self._rsize + k
                self._shm_proxy.encode(a, self._shm_arrays[si:si + sz])
            else:
                self._shm_proxy.encode(a, self._shm_arrays[mi * self._rsize + k])
        with self._conditions[mi]:
            self._activations[mi].value = True
            self._conditions[mi].notify_all()
        return mi
    except Exception as e:
        self._active_domains[mi] = False
        if isinstance(function, str):
            pass


@spec("domains.py", "ShmParallelDomain.get_result", order=[
    (r"wait_for\(", r"store⟨self\._dones"),
    (r"wait_for\(", r"load self\._shm_params"),
    (r"load self\._shm_params|_shm_proxy\.decode", r"setitem⟨self\._active_domains")])
def _(self, i):
    with self._conditions[i]:
        self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
        self._dones[i].value = False
    results = []
    for r in self._shm_params[i]:
        if r >= 0:
            sz = self._shm_sizes[self._shm_types[r].__name__]
            if sz > 1:
                si = i * self._rsize + r
                results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:si + sz]))
            else:
                results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[i * self._rsize + r]))
        else:
            break
    self._active_domains[i] = False
    return results if len(results) > 1 else results[0] if len(results) > 0 else None


@spec("domains.py", "ShmParallelDomain._launch_processes")
def _(self):
    for i in range(len(self._processes)):
        self.open_ipc_connection(i)
        self._processes[i] = mp.Process(target=_shm_launch_domain_server_, args=[self._domain_factory, self._lambdas, i, self._shm_proxy.copy(), dict(self._shm_registers), dict(self._shm_types), dict(self._shm_sizes), self._rsize, list(self._shm_arrays), list(self._shm_lambdas), list(self._shm_names), list(self._shm_params), self._activations[i], self._dones[i], self._conditions[i], self._ipc_connections[i] if self._ipc_notify else None, logger])
        self._processes[i].start()
    while True in set(self._active_domains):
        continue


@spec("domains.py", "ShmParallelDomain.close", order=[
    (r"setitem⟨self\._shm_names|setitem⟨self\._shm_params|store⟨self\._shm_lambdas", r"store⟨self\._activations"),
    (r"store⟨self\._activations", r"notify_all"),
    (r"notify_all", r"\.join\(")])
def _(self):
    for i in range(len(self._processes)):
        self._shm_lambdas[i].value = -1
        self._shm_names[i][:] = bytearray(len(self._shm_names[i]))
        self._shm_params[i][:] = [-1] * len(self._shm_params[i])
        with self._conditions[i]:
            self._activations[i].value = True
            self._conditions[i].notify_all()
        self._processes[i].join()
        self._processes[i].close()
        self._processes[i] = None
        self.close_ipc_connection(i)
