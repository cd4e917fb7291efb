UT = "utils.py"
fn("C10", UT, '''
def match_solvers(domain, candidates=None, ranked=False):
    if candidates is None:
        loaded = (load_registered_solver(name) for name in get_registered_solvers())
        candidates = [solver for solver in loaded if solver is not None]
    return [solver_type for solver_type in candidates if solver_type.check_domain(domain)]
''')
fn("C10", UT, '''
def match_solvers(domain, candidates=None, ranked=False):
    def all_registered():
        result = []
        for s in get_registered_solvers():
            solver = load_registered_solver(s)
            if solver is None:
                continue
            result.append(solver)
        return result

    if candidates is None:
        candidates = all_registered()
    return list(filter(lambda c: c.check_domain(domain), candidates))
''')
fn("C10", UT, '''
def _load_registered_entry(entry_type, entry_name):
    try:
        matching = [e for e in iter_entry_points(entry_type) if e.name == entry_name]
        if matching:
            return matching[0].load()
        logger.warning(
            rf'/!\\ {entry_name} could not be loaded because it is not registered in group "{entry_type}".')
        return None
    except DistributionNotFound as e:
        logger.warning(rf'/!\\ {entry_name} could not be loaded because of missing dependency ({e}).')
    except Exception as e:
        logger.warning(rf'/!\\ {entry_name} could not be loaded ({e}).')
    return None
''')
fn("C10", UT, '''
def _load_registered_entry(entry_type, entry_name):
    try:
        entry_point = next((e for e in iter_entry_points(entry_type) if e.name == entry_name), None)
        if entry_point is not None:
            return entry_point.load()
        logger.warning(
            rf'/!\\ {entry_name} could not be loaded because it is not registered in group "{entry_type}".')
    except DistributionNotFound as e:
        logger.warning(rf'/!\\ {entry_name} could not be loaded because of missing dependency ({e}).')
    except Exception as e:
        logger.warning(rf'/!\\ {entry_name} could not be loaded ({e}).')
''')
SO = "solvers.py"
fn("C10", SO, '''
@classmethod
def _check_domain(cls, domain):
    for requirement in cls._get_domain_requirements():
        if not isinstance(domain, requirement):
            return False
    return cls._check_domain_additional(domain)
''', "Solver")
fn("C10", SO, '''
@classmethod
def _check_domain(cls, domain):
    if any(not isinstance(domain, req) for req in cls._get_domain_requirements()):
        return False
    return cls._check_domain_additional(domain)
''', "Solver")
fn("C10", SO, '''
def _solve(self, domain_factory):
    def cast_domain_factory():
        new_domain = domain_factory()
        autocast_all(obj=new_domain, src=new_domain, dst=self.T_domain)
        return new_domain

    self._solve_domain(cast_domain_factory)
''', "Solver")
r("C11", UT, [("""            if max_framerate is not None:
                wait = 1 / max_framerate - (time.perf_counter() - old_time)
                if wait > 0:
                    time.sleep(wait)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal and verbose:""", """            _throttle(max_framerate, old_time)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal and verbose:"""), ("def rollout_episode(", """def _throttle(max_framerate, old_time):
    if max_framerate is None:
        return
    elapsed = time.perf_counter() - old_time
    wait = 1 / max_framerate - elapsed
    if wait > 0:
        time.sleep(wait)


def rollout_episode(""")])
