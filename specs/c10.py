# C10: solvers and domains are matched


@spec("solvers.py", "Solver.get_domain_requirements")
def _(cls):
    return cls._get_domain_requirements()


@spec("solvers.py", "Solver._get_domain_requirements")
def _(cls):

    def is_domain_builder(cls):
        remove_ancestors = []
        while True:
            bases = cls.__bases__
            if len(bases) == 0:
                return (True, remove_ancestors)
            elif len(bases) == 1:
                cls = bases[0]
                remove_ancestors.append(cls)
            else:
                return (False, [])
    i = 0
    sorted_ancestors = list(cls.T_domain.__mro__[:-1])
    while i < len(sorted_ancestors):
        ancestor = sorted_ancestors[i]
        is_builder, remove_ancestors = is_domain_builder(ancestor)
        if is_builder:
            sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]
            i += 1
        else:
            sorted_ancestors.remove(ancestor)
    return sorted_ancestors


@spec("solvers.py", "Solver.check_domain")
def _(cls, domain):
    return cls._check_domain(domain)


@spec("solvers.py", "Solver._check_domain")
def _(cls, domain):
    check_requirements = all((isinstance(domain, req) for req in cls._get_domain_requirements()))
    return check_requirements and cls._check_domain_additional(domain)


@spec("solvers.py", "Solver._check_domain_additional")
def _(cls, domain):
    return True


@spec("solvers.py", "Solver.reset")
def _(self):
    return self._reset()


@spec("solvers.py", "Solver.solve")
def _(self, domain_factory):
    return self._solve(domain_factory)


@spec("solvers.py", "Solver._solve")
def _(self, domain_factory):

    def cast_domain_factory():
        domain = domain_factory()
        autocast_all(domain, domain, self.T_domain)
        return domain
    return self._solve_domain(cast_domain_factory)


@spec("solvers.py", "Solver.solve_from")
def _(self, memory):
    return self._solve_from(memory)


@spec("solvers.py", "Solver.__enter__")
def _(self):
    self._initialize()
    return self


@spec("solvers.py", "Solver.__exit__")
def _(self, type, value, tb):
    self._cleanup()


@spec("utils.py", "_get_registered_entries")
def _(entry_type):
    return [e.name for e in iter_entry_points(entry_type)]


@spec("utils.py", "_load_registered_entry", ignore=["re.search", "group", "re.compile"])
def _(entry_type, entry_name):
    try:
        for entry_point in iter_entry_points(entry_type):
            if entry_point.name == entry_name:
                return entry_point.load()
    except DistributionNotFound as e:
        pass
    except Exception as e:
        pass


@spec("utils.py", "get_registered_domains")
def _():
    return _get_registered_entries('skdecide.domains')


@spec("utils.py", "get_registered_solvers")
def _():
    return _get_registered_entries('skdecide.solvers')


@spec("utils.py", "load_registered_domain")
def _(name):
    return _load_registered_entry('skdecide.domains', name)


@spec("utils.py", "load_registered_solver")
def _(name):
    return _load_registered_entry('skdecide.solvers', name)


@spec("utils.py", "match_solvers")
def _(domain, candidates=None, ranked=False):
    if candidates is None:
        candidates = [load_registered_solver(s) for s in get_registered_solvers()]
        candidates = [c for c in candidates if c is not None]
    matches = []
    for solver_type in candidates:
        if solver_type.check_domain(domain):
            matches.append(solver_type)
    return matches


@spec("domains.py", "Domain.solve_with")
def _(cls, solver, domain_factory=None, load_path=None):
    if domain_factory is None:
        domain_factory = cls
    if load_path is not None:

        def cast_domain_factory():
            domain = domain_factory()
            autocast_all(domain, domain, solver.T_domain)
            return domain
        solver.load(load_path, cast_domain_factory)
    else:
        solver.solve(domain_factory)
    autocast_all(solver, solver.T_domain, cls)
    return solver
