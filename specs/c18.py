# C18: gym domains


@spec("hub/domain/gym/gym.py", "GymDomain.__init__")
def _(self, gym_env):
    self._gym_env = gym_env


@spec("hub/domain/gym/gym.py", "GymDomain._state_reset")
def _(self):
    return self._gym_env.reset()


@spec("hub/domain/gym/gym.py", "GymDomain._state_step")
def _(self, action):
    obs, reward, done, info = self._gym_env.step(action)
    return TransitionOutcome(state=obs, value=TransitionValue(reward=reward), termination=done, info=info)


@spec("hub/domain/gym/gym.py", "GymDomain._get_action_space_")
def _(self):
    return GymSpace(self._gym_env.action_space)


@spec("hub/domain/gym/gym.py", "GymDomain._get_observation_space_")
def _(self):
    return GymSpace(self._gym_env.observation_space)


@spec("hub/domain/gym/gym.py", "GymDomain._render_from")
def _(self, memory, **kwargs):
    if 'mode' in kwargs:
        return self._gym_env.render(mode=kwargs['mode'])
    else:
        return self._gym_env.render()


@spec("hub/domain/gym/gym.py", "GymDomain.close")
def _(self):
    return self._gym_env.close()


@spec("hub/domain/gym/gym.py", "GymDomain.unwrapped")
def _(self):
    return self._gym_env


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.__init__")
def _(self, state, context=None):
    self._state = state
    self._context = context


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.__hash__")
def _(self):
    return hash(tuple(self.flatten(self._state)))


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.__eq__")
def _(self, other):
    return self.flatten(self._state) == self.flatten(other._state)


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.__str__")
def _(self):
    return self._state.__str__()


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.__repr__")
def _(self):
    return self._state.__repr__()


@spec("hub/domain/gym/gym.py", "GymDomainStateProxy.flatten")
def _(self, e):
    if isinstance(e, np.ndarray):
        return [e.item(c) for c in range(e.size)]
    elif isinstance(e, tuple):
        return [tt for t in e for tt in self.flatten(t)]
    elif isinstance(e, dict):
        return [tt for k, v in e.items() for tt in self.flatten(v)]
    else:
        return [e]


@spec("hub/domain/gym/gym.py", "GymDomainHashable.__init__")
def _(self, gym_env):
    super().__init__(gym_env)


@spec("hub/domain/gym/gym.py", "GymDomainHashable._state_reset")
def _(self):
    return GymDomainStateProxy(super()._state_reset())


@spec("hub/domain/gym/gym.py", "GymDomainHashable._state_step")
def _(self, action):
    outcome = super()._state_step(action)
    outcome.state = GymDomainStateProxy(outcome.state)
    return outcome


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain.__init__")
def _(self, gym_env, set_state=None, get_state=None):
    self._gym_env = gym_env
    self._set_state = set_state
    self._get_state = get_state
    self._init_env = None
    self._initial_state = None
    self._initial_env_state = None


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain.set_memory")
def _(self, state):
    self._initial_state = state
    self._memory = self._init_memory(self._initial_state)
    if self._set_state is not None and self._get_state is not None:
        self._initial_env_state = state._context
        self._set_state(self._gym_env, self._initial_env_state)
    else:
        self._init_env = state._context
        self._gym_env = deepcopy(self._init_env)


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain._state_reset")
def _(self):
    if self._initial_state is None:
        self._initial_state = GymDomainStateProxy(state=self._gym_env.reset(), context=None)
        if self._set_state is not None and self._get_state is not None:
            self._initial_env_state = self._get_state(self._gym_env)
            self._initial_state._context = self._initial_env_state
        else:
            self._init_env = deepcopy(self._gym_env)
            self._initial_state._context = self._init_env
    elif self._set_state is not None and self._get_state is not None:
        self._set_state(self._gym_env, self._initial_env_state)
    else:
        self._gym_env = deepcopy(self._init_env)
    return self._initial_state


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain._state_step")
def _(self, action):
    obs, reward, done, info = self._gym_env.step(action)
    if self._set_state is not None and self._get_state is not None:
        state = GymDomainStateProxy(state=obs, context=self._initial_env_state)
    else:
        state = GymDomainStateProxy(state=obs, context=self._init_env)
    return TransitionOutcome(state=state, value=TransitionValue(reward=reward), termination=done, info=info)


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain._get_action_space_")
def _(self):
    return GymSpace(self._gym_env.action_space)


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain._get_observation_space_")
def _(self):
    return GymSpace(self._gym_env.observation_space)


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain._render_from")
def _(self, memory, **kwargs):
    if 'mode' in kwargs:
        render = self._gym_env.render(mode=kwargs['mode'])
    else:
        render = self._gym_env.render()
    if self._set_state is None or self._get_state is None:
        self._gym_env.close()
    return render


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain.close")
def _(self):
    return self._gym_env.close()


@spec("hub/domain/gym/gym.py", "DeterministicInitializedGymDomain.unwrapped")
def _(self):
    return self._gym_env


@spec("hub/domain/gym/gym.py", "GymWidthDomain.__init__")
def _(self, continuous_feature_fidelity=1):
    self._continuous_feature_fidelity = continuous_feature_fidelity
    self._feature_increments = []
    self._init_continuous_state_variables = []
    self._elliptical_features = None


@spec("hub/domain/gym/gym.py", "GymWidthDomain._reset_features")
def _(self):
    self._init_continuous_state_variables = []
    self._feature_increments = []


@spec("hub/domain/gym/gym.py", "GymWidthDomain._init_bee1_features")
def _(self, space, state):
    if isinstance(space, gym.spaces.box.Box):
        for cell_id in range(state.size):
            cell = state.item(cell_id)
            self._init_continuous_state_variables.append(cell)
            self._feature_increments.append(GymWidthDomain.BEE1Node(cell))
            self._feature_increments.append(GymWidthDomain.BEE1Node(cell))
    elif isinstance(space, gym.spaces.tuple.Tuple):
        for s in range(len(space.spaces)):
            self._init_bee1_features(space.spaces[s], state[s])
    elif isinstance(space, gym.spaces.dict.Dict):
        for k, s in space.spaces.items():
            self._init_bee1_features(s, state[k])
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymWidthDomain.bee1_features")
def _(self, state):
    state = state._state if isinstance(state, GymDomainStateProxy) else state
    if len(self._feature_increments) == 0:
        self._init_bee1_features(self._gym_env.observation_space, state)
    return self._bee1_features(self._gym_env.observation_space, state, 0)[1]


@spec("hub/domain/gym/gym.py", "GymWidthDomain._bee1_features")
def _(self, space, element, start):
    if isinstance(space, gym.spaces.box.Box):
        features = []
        index = start
        for cell_id in range(element.size):
            cell = element.item(cell_id)
            cf = []
            if cell > self._init_continuous_state_variables[index]:
                node = self._feature_increments[2 * index]
                sign = 1
            else:
                node = self._feature_increments[2 * index + 1]
                sign = -1
            for f in range(self._continuous_feature_fidelity):
                i = bisect.bisect_left(node.increments, sign * (cell - node.reference))
                cf.append(sign * i)
                if i >= len(node.increments):
                    node.increments.append(sign * (cell - node.reference))
                    node.children.append(GymWidthDomain.BEE1Node(node.reference + sign * node.increments[i - 1]))
                    for ff in range(f + 1, self._continuous_feature_fidelity):
                        cf.append(0)
                    break
                elif i > 0:
                    node = node.children[i - 1]
            features += cf
            index += 1
        return (index, features)
    elif isinstance(space, gym.spaces.discrete.Discrete):
        return (start, [element])
    elif isinstance(space, gym.spaces.multi_discrete.MultiDiscrete):
        return (start, [e for e in element])
    elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
        return (start, [e for e in element])
    elif isinstance(space, gym.spaces.tuple.Tuple):
        index = start
        features = []
        for i in range(len(space.spaces)):
            index, l = self._bee1_features(space.spaces[i], element[i], index)
            features += l
        return (index, features)
    elif isinstance(space, gym.spaces.dict.Dict):
        index = start
        features = []
        for k in space.spaces.keys():
            index, l = self._bee1_features(space.spaces[k], element[k], index)
            features += l
        return (index, features)
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymWidthDomain._init_bee2_features")
def _(self, space, state):
    if isinstance(space, gym.spaces.box.Box):
        for cell_id in range(state.size):
            cell = state.item(cell_id)
            self._init_continuous_state_variables.append(cell)
            self._feature_increments.append(GymWidthDomain.BEE2Node())
            self._feature_increments[-1].eval(cell)
    elif isinstance(space, gym.spaces.tuple.Tuple):
        for s in range(len(space.spaces)):
            self._init_bee2_features(space.spaces[s], state[s])
    elif isinstance(space, gym.spaces.dict.Dict):
        for k, s in space.spaces.items():
            self._init_bee2_features(s, state[k])
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymWidthDomain.bee2_features")
def _(self, state):
    state = state._state if isinstance(state, GymDomainStateProxy) else state
    if len(self._feature_increments) == 0:
        self._init_bee2_features(self._gym_env.observation_space, state)
    return self._bee2_features(self._gym_env.observation_space, state, 0)[1]


@spec("hub/domain/gym/gym.py", "GymWidthDomain._bee2_features")
def _(self, space, element, start):
    if isinstance(space, gym.spaces.box.Box):
        features = []
        index = start
        for cell_id in range(element.size):
            cell = element.item(cell_id)
            features += self._feature_increments[index].eval(cell, self._continuous_feature_fidelity - 1)
            index += 1
        return (index, features)
    elif isinstance(space, gym.spaces.discrete.Discrete):
        return (start, [element])
    elif isinstance(space, gym.spaces.multi_discrete.MultiDiscrete):
        return (start, [e for e in element])
    elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
        return (start, [e for e in element])
    elif isinstance(space, gym.spaces.tuple.Tuple):
        index = start
        features = []
        for i in range(len(space.spaces)):
            index, l = self._bee2_features(space.spaces[i], element[i], index)
            features += l
        return (index, features)
    elif isinstance(space, gym.spaces.dict.Dict):
        index = start
        features = []
        for k in space.spaces.keys():
            index, l = self._bee2_features(space.spaces[k], element[k], index)
            features += l
        return (index, features)
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymWidthDomain.nb_of_binary_features")
def _(self):
    return len(self._binary_features(self._gym_env.observation_space, self._gym_env.observation_space.sample()))


@spec("hub/domain/gym/gym.py", "GymWidthDomain.binary_features")
def _(self, memory):
    memory = memory._state if isinstance(memory, GymDomainStateProxy) else memory
    return self._binary_features(self._gym_env.observation_space, memory)


@spec("hub/domain/gym/gym.py", "GymWidthDomain._binary_features")
def _(self, space, element):
    if isinstance(space, gym.spaces.box.Box):
        features = []
        maxlen = len(bin(struct.unpack('!i', struct.pack('!f', float('inf')))[0])[2:])
        for cell in np.nditer(element):
            float_bin = bin(struct.unpack('!i', struct.pack('!f', cell))[0])
            if float_bin[0] == '-':
                features.append(True)
                float_bin = float_bin[3:]
            else:
                features.append(False)
                float_bin = float_bin[2:]
            float_bin = '0' * (maxlen - len(float_bin)) + float_bin
            for b in float_bin:
                features.append(b == '1')
        return features
    elif isinstance(space, gym.spaces.discrete.Discrete):
        features = []
        int_bin = bin(element)[2:]
        int_bin = '0' * (len(bin(space.n - 1)[2:]) - len(int_bin)) + int_bin
        for b in int_bin:
            features.append(b == '1')
        return features
    elif isinstance(space, gym.spaces.multi_discrete.MultiDiscrete):
        features = []
        for i in range(len(space.nvec)):
            int_bin = bin(element[i])[2:]
            int_bin = '0' * (len(bin(space.nvec[i] - 1)[2:]) - len(int_bin)) + int_bin
            for b in int_bin:
                features.append(b == '1')
        return features
    elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
        features = []
        for b in element:
            features.append(bool(b))
        return features
    elif isinstance(space, gym.spaces.tuple.Tuple):
        features = []
        for i in range(len(space.spaces)):
            l = self._binary_features(space.spaces[i], element[i])
            features += l
        return features
    elif isinstance(space, gym.spaces.dict.Dict):
        features = []
        for k, v in space.spaces.items():
            l = self._binary_features(v, element[k])
            features += l
        return features
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymWidthDomain.init_elliptical_features")
def _(self, x0, xG):
    v0 = np.array(self._get_variables(self._gym_env.observation_space, x0))
    vG = np.array(self._get_variables(self._gym_env.observation_space, xG))
    d = xG.shape[0]
    self._elliptical_features = []
    for i in range(d):
        for j in range(i + 1, d):
            input = (i, j)
            c = np.linalg.norm(np.array([v0[i], v0[j]]) - np.array([vG[i], vG[j]]))
            bands = []
            num_levels = 10.0 * max(np.log10(c), 1.0)
            delta_c = c / float(num_levels)
            c_k = c
            while c_k > delta_c:
                bands += [c_k]
                c_k -= delta_c
            if len(bands) == 0:
                bands += [c_k]
            self._elliptical_features += [self.EllipticalMapping2D(input, v0, vG, bands)]


@spec("hub/domain/gym/gym.py", "GymWidthDomain.elliptical_features")
def _(self, state):
    state = state._state if isinstance(state, GymDomainStateProxy) else state
    vS = np.array(self._get_variables(self._gym_env.observation_space, state))
    return [f.evaluate(vS) for f in self._elliptical_features]


@spec("hub/domain/gym/gym.py", "GymWidthDomain._get_variables")
def _(self, space, element):
    if isinstance(space, gym.spaces.box.Box):
        var = []
        for cell in np.nditer(element):
            var.append(cell)
        return var
    elif isinstance(space, gym.spaces.discrete.Discrete):
        return [element]
    elif isinstance(space, gym.spaces.multi_discrete.MultiDiscrete):
        return [e for e in element]
    elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
        return [e for e in element]
    elif isinstance(space, gym.spaces.tuple.Tuple):
        var = []
        for i in range(len(space.spaces)):
            l = self._get_variables(space.spaces[i], element[i])
            var += l
        return var
    elif isinstance(space, gym.spaces.dict.Dict):
        var = []
        for k in space.spaces.keys():
            l = self._get_variables(space.spaces[k], element[k])
            var += l
        return var
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymDiscreteActionDomain.__init__")
def _(self, discretization_factor=10, branching_factor=None):
    self._discretization_factor = discretization_factor
    self._branching_factor = branching_factor
    self._applicable_actions = self._discretize_action_space(self.get_action_space()._gym_space)
    if self._branching_factor is not None and len(self._applicable_actions.get_elements()) > self._branching_factor:
        self._applicable_actions = ListSpace(random.sample(self._applicable_actions.get_elements(), self._branching_factor))


@spec("hub/domain/gym/gym.py", "GymDiscreteActionDomain._get_applicable_actions_from")
def _(self, memory):
    return self._applicable_actions


@spec("hub/domain/gym/gym.py", "GymDiscreteActionDomain._discretize_action_space")
def _(self, action_space):
    if isinstance(action_space, gym.spaces.box.Box):
        nb_elements = 1
        for dim in action_space.shape:
            nb_elements *= dim
        actions = []
        for l, h in np.nditer([action_space.low, action_space.high]):
            if l == -float('inf') or h == float('inf'):
                actions.append([gym.spaces.box.Box(low=l, high=h).sample() for i in range(self._discretization_factor)])
            else:
                actions.append([l + (h - l) / (self._discretization_factor - 1) * i for i in range(self._discretization_factor)])
        alist = []
        self._generate_box_action_combinations(actions, action_space.shape, action_space.dtype, 0, [], alist)
        return ListSpace(alist)
    elif isinstance(action_space, gym.spaces.discrete.Discrete):
        return ListSpace([i for i in range(action_space.n)])
    elif isinstance(action_space, gym.spaces.multi_discrete.MultiDiscrete):
        generate = lambda d: [[e] + g for e in range(action_space.nvec[d]) for g in generate(d + 1)] if d < len(action_space.nvec) - 1 else [[e] for e in range(action_space.nvec[d])]
        return ListSpace(generate(0))
    elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
        generate = lambda d: [[e] + g for e in [True, False] for g in generate(d + 1)] if d < action_space.n - 1 else [[e] for e in [True, False]]
        return ListSpace(generate(0))
    elif isinstance(action_space, gym.spaces.tuple.Tuple):
        generate = lambda d: [[e] + g for e in self._discretize_action_space(action_space.spaces[d]).get_elements() for g in generate(d + 1)] if d < len(action_space.spaces) - 1 else [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()]
        return ListSpace(generate(0))
    elif isinstance(action_space, gym.spaces.dict.Dict):
        dkeys = list(action_space.spaces.keys())
        generate = lambda d: [[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d + 1)] if d < len(dkeys) - 1 else [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()]
        return ListSpace([dict(zip(dkeys, e)) for e in generate(0)])
    else:
        raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))


@spec("hub/domain/gym/gym.py", "GymDiscreteActionDomain._generate_box_action_combinations")
def _(self, actions, shape, dtype, index, alist, rlist):
    if index < len(actions):
        for a in actions[index]:
            clist = list(alist)
            clist.append(a)
            self._generate_box_action_combinations(actions, shape, dtype, index + 1, clist, rlist)
    else:
        rlist += [np.array(alist, dtype=dtype).reshape(shape)]


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain.__init__")
def _(self, gym_env, set_state=None, get_state=None):
    self._gym_env = gym_env
    self._set_state = set_state
    self._get_state = get_state
    self._init_env = None


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._get_initial_state_")
def _(self):
    initial_state = self._gym_env.reset()
    return GymDomainStateProxy(state=initial_state, context=[self._gym_env, None, None, None, self._get_state(self._gym_env) if self._get_state is not None and self._set_state is not None else None])


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._get_next_state")
def _(self, memory, action):
    env = memory._context[0]
    if self._set_state is None or self._get_state is None:
        env = deepcopy(env)
    elif memory._context[4] != self._get_state(env):
        self._set_state(env, memory._context[4])
    self._gym_env = env
    obs, reward, done, info = env.step(action)
    outcome = TransitionOutcome(state=obs, value=TransitionValue(reward=reward), termination=done, info=info)
    return GymDomainStateProxy(state=outcome.state, context=[env, memory._state, action, outcome, self._get_state(env) if self._get_state is not None and self._set_state is not None else None])


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._get_transition_value")
def _(self, memory, action, next_state=None):
    last_memory, last_action, outcome = next_state._context[1:4]
    return outcome.value


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._is_terminal")
def _(self, state):
    outcome = state._context[3]
    return outcome.termination if outcome is not None else False


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._get_action_space_")
def _(self):
    return GymSpace(self._gym_env.action_space)


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._get_observation_space_")
def _(self):
    return GymSpace(self._gym_env.observation_space)


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._render_from")
def _(self, memory, **kwargs):
    if 'mode' in kwargs:
        render = self._gym_env.render(mode=kwargs['mode'])
    else:
        render = self._gym_env.render()
    if self._set_state is None or self._get_state is None:
        self._gym_env.close()
    return render


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain.close")
def _(self):
    return self._gym_env.close()


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain.unwrapped")
def _(self):
    return self._gym_env


@spec("hub/domain/gym/gym.py", "DeterministicGymDomain._are_same")
def _(self, space, e1, e2):
    assert e1.__class__ == e2.__class__
    if isinstance(space, gym.spaces.box.Box):
        return (e1 == e2).all()
    elif isinstance(space, gym.spaces.discrete.Discrete):
        return e1 == e2
    elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
        return (e1 == e2).all()
    elif isinstance(space, gym.spaces.tuple.Tuple):
        assert len(e1) == len(e2) == len(space)
        for i in range(len(space)):
            if not self._are_same(space[i], e1[i], e2[i]):
                return False
        return True
    elif isinstance(space, gym.spaces.dict.Dict):
        assert e1.keys() == e2.keys() == space.keys()
        for k in space.keys():
            if not self._are_same(space[k], e1[k], e2[k]):
                return False
        return True
    else:
        raise RuntimeError('Unknown Gym space of type ' + str(type(space)))


@spec("hub/domain/gym/gym.py", "GymPlanningDomain.__init__")
def _(self, gym_env, set_state=None, get_state=None, termination_is_goal=False, max_depth=50):
    super().__init__(gym_env, set_state, get_state)
    self._termination_is_goal = termination_is_goal
    self._max_depth = max_depth
    self._initial_state = None
    self._current_depth = 0
    self._restarting_from_initial_state = False


@spec("hub/domain/gym/gym.py", "GymPlanningDomain._get_initial_state_")
def _(self):
    initial_state = super()._get_initial_state_()
    initial_state._context.append(0)
    initial_state._context.append(0)
    self._initial_state = initial_state
    self._current_depth = 0
    return initial_state


@spec("hub/domain/gym/gym.py", "GymPlanningDomain._get_next_state")
def _(self, memory, action):
    if self._initial_state is None:
        self._initial_state = memory
    if self._are_same(self._gym_env.observation_space, memory._state, self._initial_state._state):
        self._restart_from_initial_state()
    else:
        self._restarting_from_initial_state = False
    next_state = super()._get_next_state(memory, action)
    next_state._context.append(memory._context[5] + 1)
    next_state._context.append(memory._context[6] + memory._context[3].value.reward if memory._context[3] is not None else memory._context[6])
    if memory._context[5] + 1 > self._current_depth:
        self._current_depth = memory._context[5] + 1
    return next_state


@spec("hub/domain/gym/gym.py", "GymPlanningDomain._restart_from_initial_state")
def _(self):
    if not self._restarting_from_initial_state:
        self._current_depth = 0
        if isinstance(self, GymWidthDomain):
            self._reset_features()
        self._restarting_from_initial_state = True


@spec("hub/domain/gym/gym.py", "GymPlanningDomain._get_goals_")
def _(self):
    return ImplicitSpace(lambda observation: observation._context[5] >= self._max_depth or (self._termination_is_goal and (observation._context[3].termination if observation._context[3] is not None else False)))


@spec("hub/domain/gym/gym.py", "AsGymEnv.__init__")
def _(self, domain, unwrap_spaces=True):
    self._domain = domain
    self._unwrap_spaces = unwrap_spaces
    if unwrap_spaces:
        self.observation_space = domain.get_observation_space().unwrapped()
        self.action_space = domain.get_action_space().unwrapped()
    else:
        self.observation_space = domain.get_observation_space()
        self.action_space = domain.get_action_space()


@spec("hub/domain/gym/gym.py", "AsGymEnv.step")
def _(self, action):
    action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
    outcome = self._domain.step(action)
    outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
    outcome_info = outcome.info if outcome.info is not None else {}
    return (outcome_observation, outcome.value.reward, outcome.termination, outcome_info)


@spec("hub/domain/gym/gym.py", "AsGymEnv.reset")
def _(self):
    observation = self._domain.reset()
    return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))


@spec("hub/domain/gym/gym.py", "AsGymEnv.render")
def _(self, mode='human'):
    return self._domain.render(mode=mode)


@spec("hub/domain/gym/gym.py", "AsGymEnv.close")
def _(self):
    return self._domain.close()


@spec("hub/domain/gym/gym.py", "AsGymEnv.unwrapped")
def _(self):
    return self._domain
