# C15: real-time and greedy solvers


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar._get_next_action")
def _(self, observation):
    return self._policy.get(observation, None)


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar._is_policy_defined_for")
def _(self, observation):
    return observation in self._policy


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar._get_utility")
def _(self, observation):
    if observation not in self.values:
        return self._heuristic(self._domain, observation)
    return self.values[observation]


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar.__init__")
def _(self, from_state=None, heuristic=None, weight=1.0, verbose=False, max_iter=5000, max_depth=200):
    self._from_state = from_state
    self._heuristic = (lambda _, __: 0.0) if heuristic is None else heuristic
    self._weight = weight
    self.max_iter = max_iter
    self.max_depth = max_depth
    self._plan = []
    self.values = {}
    self._verbose = verbose
    self.heuristic_changed = False
    self._policy = {}


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar._solve_domain")
def _(self, domain_factory):
    self._domain = domain_factory()
    self.values = {}
    self._policy = {}
    iteration = 0
    best_cost = float('inf')
    if self._from_state is None:
        from_observation = self._domain.get_initial_state()
    else:
        from_observation = self._from_state
    while True:
        dead_end, cumulated_cost, current_roll, list_action = self.doTrial(from_observation)
        if self._verbose:
            pass
        if not dead_end and cumulated_cost < best_cost:
            best_cost = cumulated_cost
            for k in range(len(current_roll)):
                self._policy[current_roll[k][0]] = current_roll[k][1]['action']
        if not self.heuristic_changed:
            return
        iteration += 1
        if iteration > self.max_iter:
            return


@spec("hub/solver/lrtastar/lrtastar.py", "LRTAstar.doTrial")
def _(self, from_observation):
    list_action = []
    current_state = from_observation
    depth = 0
    dead_end = False
    cumulated_reward = 0.0
    current_roll = [current_state]
    current_roll_and_action = []
    self.heuristic_changed = False
    while not self._domain.is_goal(current_state) and depth < self.max_depth:
        next_action = None
        next_state = None
        best_estimated_cost = float('inf')
        applicable_actions = self._domain.get_applicable_actions(current_state)
        for action in applicable_actions.get_elements():
            st = self._domain.get_next_state(current_state, action)
            r = self._domain.get_transition_value(current_state, action, st).cost
            if st in current_roll:
                continue
            if st not in self.values:
                self.values[st] = self._heuristic(self._domain, st)
            if r + self.values[st] < best_estimated_cost:
                next_state = st
                next_action = action
                best_estimated_cost = r + self.values[st]
        if next_action is None:
            self.values[current_state] = float('inf')
            dead_end = True
            self.heuristic_changed = True
            break
        elif not current_state in self.values or self.values[current_state] != best_estimated_cost:
            self.heuristic_changed = True
            self.values[current_state] = best_estimated_cost
        cumulated_reward += best_estimated_cost - (self.values[next_state] if next_state in self.values else self._heuristic(self._domain, next_state))
        list_action.append(next_action)
        current_roll_and_action.append((current_state, {'action': next_action}))
        current_state = next_state
        depth += 1
        current_roll.append(current_state)
    current_roll_and_action.append((current_state, {'action': None}))
    cumulated_reward += self._get_utility(current_state)
    return (dead_end, cumulated_reward, current_roll_and_action, list_action)


@spec("hub/solver/simple_greedy/simple_greedy.py", "SimpleGreedy._check_domain_additional")
def _(cls, domain):
    return isinstance(domain.get_action_space(), EnumerableSpace)


@spec("hub/solver/simple_greedy/simple_greedy.py", "SimpleGreedy._solve_domain")
def _(self, domain_factory):
    self._domain = domain_factory()


@spec("hub/solver/simple_greedy/simple_greedy.py", "SimpleGreedy._get_next_action")
def _(self, observation):
    domain = self._domain
    memory = Memory([observation])
    applicable_actions = domain.get_applicable_actions(memory)
    if domain.is_transition_value_dependent_on_next_state():
        values = []
        for a in applicable_actions.get_elements():
            next_state_prob = domain.get_next_state_distribution(memory, [a]).get_values()
            expected_value = sum((p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob))
            values.append(expected_value)
    else:
        values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
    argmax = max(range(len(values)), key=lambda i: values[i])
    return [applicable_actions.get_elements()[argmax]]


@spec("hub/solver/simple_greedy/simple_greedy.py", "SimpleGreedy._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/pomcp/pomcp.py", "POMCP.__init__")
def _(self, max_iterations=5000, max_depth=50, n_samples=5000):
    self._max_iterations = max_iterations
    self._max_depth = max_depth
    self._n_samples = n_samples


@spec("hub/solver/pomcp/pomcp.py", "POMCP._reset")
def _(self):
    self._obs_history = tuple()
    self._act_history = (None,)
    self._belief = self._initial_belief
    self._tree = dict()
    self._VLV = 2 * self._max_depth


@spec("hub/solver/pomcp/pomcp.py", "POMCP._solve_domain")
def _(self, domain_factory):
    self._domain = domain_factory()
    self._initial_belief = []
    d = self._domain.get_initial_state_distribution()
    for _ in range(self._n_samples):
        self._initial_belief.append(d.sample())


@spec("hub/solver/pomcp/pomcp.py", "POMCP._get_next_action")
def _(self, observation):
    self._belief = self._filter_belief_state(self._belief, self._act_history[-1], observation)
    self._obs_history = self._obs_history + (observation,)
    self._belief = self._update_belief_state(self._belief, self._act_history[-1])
    iterations = 0
    while iterations < self._max_iterations:
        state = random.choice(self._belief)
        self._tree_search(state, self._act_history, self._obs_history, 0)
        iterations += 1
    action = self._get_best_action(self._act_history, self._obs_history)
    self._act_history = self._act_history + (action,)
    return action


@spec("hub/solver/pomcp/pomcp.py", "POMCP._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/pomcp/pomcp.py", "POMCP._filter_belief_state")
def _(self, belief, action, obs):
    prob = [0] * len(belief)
    for i, state in enumerate(belief):
        d = self._domain.get_observation_distribution(state, action)
        prob[i] = get_probability(d, obs)
    new_belief = random.choices(belief, weights=prob, k=len(belief))
    return new_belief


@spec("hub/solver/pomcp/pomcp.py", "POMCP._update_belief_state")
def _(self, belief, action):
    new_belief = []
    for state in belief:
        d = self._domain.get_next_state_distribution(Memory([state]), action)
        new_state = d.sample()
        new_belief.append(new_state)
    return new_belief


@spec("hub/solver/pomcp/pomcp.py", "POMCP._get_best_action")
def _(self, h_act, h_obs, w=0):
    best_action = None
    best_action_score = self._VLV
    if w > 0:
        parent = self._tree[h_act, h_obs]
    for action in self._domain.get_action_space().get_elements():
        key = (h_act + (action,), h_obs)
        if key in self._tree:
            node = self._tree[key]
            if w > 0:
                if node[0] == 0:
                    score = -self._VLV
                else:
                    score = node[1] - w * math.sqrt(math.log(parent[0]) / node[0])
            else:
                score = node[1]
            if score < best_action_score:
                best_action = action
                best_action_score = score
    return best_action


@spec("hub/solver/pomcp/pomcp.py", "POMCP._tree_search")
def _(self, state, h_act, h_obs, depth):
    assert len(h_act) == len(h_obs)
    if depth > self._max_depth:
        return self._VLV
    if (h_act, h_obs) not in self._tree:
        for action in self._domain.get_applicable_actions(Memory([state])).get_elements():
            assert action is not None
            self._tree[h_act + (action,), h_obs] = [0, 0, []]
        cost = self._rollout(state, h_act, h_obs, depth)
        self._tree[h_act, h_obs] = [1, cost, [state]]
        return cost
    else:
        action = self._get_best_action(h_act, h_obs, w=self._max_depth)
        assert action is not None
        new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
        TV = self._domain.get_transition_value(Memory([state]), action, new_state)
        new_obs = self._domain.get_observation_distribution(state, action).sample()
        if self._domain.is_goal(new_obs):
            s_cost = TV.cost
        else:
            s_cost = TV.cost + self._tree_search(new_state, h_act + (action,), h_obs + (new_obs,), depth + 1)
            s_cost = min(s_cost, self._VLV)
        this_node = self._tree[h_act, h_obs]
        succ_node = self._tree[h_act + (action,), h_obs]
        succ_node[1] = (succ_node[1] * succ_node[0] + s_cost) / (succ_node[0] + 1)
        this_node[0] = this_node[0] + 1
        succ_node[0] = succ_node[0] + 1
        return s_cost


@spec("hub/solver/pomcp/pomcp.py", "POMCP._rollout")
def _(self, state, h_act, h_obs, depth):
    if depth > self._max_depth:
        return self._VLV
    action = self._get_random_action(state, h_act, h_obs, depth)
    assert action is not None
    new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
    TV = self._domain.get_transition_value(Memory([state]), action, new_state)
    new_obs = self._domain.get_observation_distribution(state, action).sample()
    if self._domain.is_goal(new_obs):
        s_cost = TV.cost
    else:
        s_cost = TV.cost + self._rollout(new_state, h_act + (action,), h_obs + (new_obs,), depth + 1)
        s_cost = min(s_cost, self._VLV)
    return s_cost


@spec("hub/solver/pomcp/pomcp.py", "POMCP._get_random_action")
def _(self, state, h_act, h_obs, depth):
    sel = self._domain.get_applicable_actions(Memory([state])).sample()
    return sel


@spec("hub/solver/pomcp/pomcp.py", "get_probability")
def _(distribution, element, n=100):
    p = 0
    for i in range(n):
        x = distribution.sample()
        if x == element:
            p += 1
    return p / n
