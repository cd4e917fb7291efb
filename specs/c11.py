# C11: episodes


@spec("utils.py", "rollout")
def _(domain, solver=None, from_memory=None, from_action=None, num_episodes=1, max_steps=None, render=True, max_framerate=None, verbose=True, action_formatter=lambda a: str(a), outcome_formatter=lambda o: str(o), save_result_directory=None):
    if verbose:
        pass
    if solver is None:

        class RandomWalk(Policies):
            T_domain = Domain
            T_agent = Domain.T_agent
            T_event = Domain.T_event

            def __init__(self):

                class CastDomain:
                    T_agent = domain.T_agent
                    T_event = domain.T_event

                    @autocastable
                    def get_applicable_actions(self):
                        return domain.get_applicable_actions()
                self._domain = CastDomain()
                autocast_all(self._domain, self._domain, self)

            @autocastable
            def reset(self):
                pass

            @autocastable
            def sample_action(self, observation):
                return {agent: [space.sample()] for agent, space in self._domain.get_applicable_actions().items()}

            @autocastable
            def is_policy_defined_for(self, observation):
                return True
        solver = RandomWalk()
        autocast_all(solver, solver.T_domain, domain)
    has_render = isinstance(domain, Renderable)
    has_goal = isinstance(domain, Goals)
    has_memory = not isinstance(domain, Markovian)
    for i_episode in range(num_episodes):
        solver.reset()
        if from_memory is None:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        step = 1
        if save_result_directory is not None:
            observations = dict()
            transitions = dict()
            actions = dict()
            observations[0] = observation
        while max_steps is None or step <= max_steps:
            old_time = time.perf_counter()
            if render and has_render:
                domain.render()
            if save_result_directory is not None:
                previous_observation = copy.deepcopy(observation)
            action = solver.sample_action(observation)
            if action_formatter is not None:
                pass
            outcome = domain.step(action)
            observation = outcome.observation
            if save_result_directory is not None:
                if isinstance(domain, FullyObservable):
                    observations[step] = observation
                    actions[step] = action
                    transitions[step] = {'s': hash(previous_observation), 'a': hash(action), 'cost': outcome.value.cost, "s'": hash(observation)}
            if outcome_formatter is not None:
                pass
            if outcome.termination:
                break
            if max_framerate is not None:
                wait = 1 / max_framerate - (time.perf_counter() - old_time)
                if wait > 0:
                    time.sleep(wait)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal:
            pass
        if save_result_directory is not None:
            if not os.path.exists(save_result_directory):
                os.mkdir(save_result_directory)
            elif not os.path.isdir(save_result_directory):
                raise FileExistsError
            now = datetime.datetime.now()
            str_timestamp = now.strftime('%Y%m%dT%H%M%S%f')
            directory = os.path.join(save_result_directory, str_timestamp)
            os.mkdir(directory)
            try:
                with open(os.path.join(directory, 'actions.json'), 'w') as f:
                    json.dump(actions, f, indent=2)
            except TypeError:
                pass
            try:
                with open(os.path.join(directory, 'transitions.json'), 'w') as f:
                    json.dump(transitions, f, indent=2)
            except TypeError:
                pass
            try:
                with open(os.path.join(directory, 'observations.json'), 'w') as f:
                    json.dump(observations, f, indent=2)
            except TypeError:
                pass
    if save_result_directory is not None:
        return directory


@spec("utils.py", "rollout_episode")
def _(domain, solver=None, from_memory=None, from_action=None, num_episodes=1, max_steps=None, render=True, max_framerate=None, verbose=True, action_formatter=None, outcome_formatter=None, save_result_directory=None):
    if verbose:
        pass
    if solver is None:

        class RandomWalk(Policies):
            T_domain = Domain
            T_agent = Domain.T_agent
            T_event = Domain.T_event

            def __init__(self):

                class CastDomain:
                    T_agent = domain.T_agent
                    T_event = domain.T_event

                    @autocastable
                    def get_applicable_actions(self):
                        return domain.get_applicable_actions()
                self._domain = CastDomain()
                autocast_all(self._domain, self._domain, self)

            @autocastable
            def reset(self):
                pass

            @autocastable
            def sample_action(self, observation):
                return {agent: [space.sample()] for agent, space in self._domain.get_applicable_actions().items()}

            @autocastable
            def is_policy_defined_for(self, observation):
                return True
        solver = RandomWalk()
        autocast_all(solver, solver.T_domain, domain)
    has_render = isinstance(domain, Renderable)
    has_goal = isinstance(domain, Goals)
    has_memory = not isinstance(domain, Markovian)
    observations = []
    actions = []
    values = []
    for i_episode in range(num_episodes):
        solver.reset()
        if from_memory is None:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        if verbose:
            pass
        step = 1
        observations.append(observation)
        while max_steps is None or step <= max_steps:
            old_time = time.perf_counter()
            if render and has_render:
                domain.render()
            memory = domain._memory
            action = solver.sample_action(observation)
            if action_formatter is not None:
                pass
            domain._memory = memory
            outcome = domain.step(action)
            observation = outcome.observation
            observations.append(observation)
            actions.append(action)
            values.append(outcome.value)
            if outcome_formatter is not None:
                pass
            if outcome.termination:
                break
            if max_framerate is not None:
                wait = 1 / max_framerate - (time.perf_counter() - old_time)
                if wait > 0:
                    time.sleep(wait)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal and verbose:
            pass
    return (observations, actions, values)
