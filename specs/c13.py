# C13: parallel solvers


@spec("builders/solver/parallelability.py", "ParallelSolver.__init__")
def _(self, domain_factory, parallel=False, shared_memory_proxy=None):
    self._domain_factory = domain_factory
    self._parallel = parallel
    self._shared_memory_proxy = shared_memory_proxy
    self._domain = None
    self._lambdas = []
    self._ipc_notify = False


@spec("builders/solver/parallelability.py", "ParallelSolver._initialize")
def _(self):
    if self._parallel:
        if self._shared_memory_proxy is None:
            self._domain = PipeParallelDomain(self._domain_factory, lambdas=self._lambdas, ipc_notify=self._ipc_notify)
        else:
            self._domain = ShmParallelDomain(self._domain_factory, self._shared_memory_proxy, lambdas=self._lambdas, ipc_notify=self._ipc_notify)
        self._domain._launch_processes()
    else:
        self._domain = self._domain_factory()


@spec("builders/solver/parallelability.py", "ParallelSolver.close")
def _(self):
    if self._domain is not None and self._parallel:
        self._domain.close()
        self._domain = None


@spec("builders/solver/parallelability.py", "ParallelSolver._cleanup")
def _(self):
    self.close()


@spec("builders/solver/parallelability.py", "ParallelSolver.get_domain")
def _(self):
    if self._domain is None:
        self._initialize()
    return self._domain


@spec("builders/solver/parallelability.py", "ParallelSolver.call_domain_method")
def _(self, name, *args):
    if self._parallel:
        process_id = getattr(self._domain, name)(*args)
        return self._domain.get_result(process_id)
    else:
        return getattr(self._domain, name)(*args)
