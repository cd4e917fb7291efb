PS = "builders/solver/parallelability.py"
fn("C13", PS, '''
def _initialize(self):
    if not self._parallel:
        self._domain = self._domain_factory()
        return
    options = dict(lambdas=self._lambdas, ipc_notify=self._ipc_notify)
    if self._shared_memory_proxy is None:
        pool = PipeParallelDomain(self._domain_factory, **options)
    else:
        pool = ShmParallelDomain(self._domain_factory, self._shared_memory_proxy, **options)
    self._domain = pool
    pool._launch_processes()

def call_domain_method(self, name, *args):
    result = getattr(self._domain, name)(*args)
    return self._domain.get_result(result) if self._parallel else result

def close(self):
    if not self._parallel or self._domain is None:
        return
    self._domain.close()
    self._domain = None
''', "ParallelSolver")
fn("C13", PS, '''
def _initialize(self):
    self._domain = self._create_domain()
    if self._parallel:
        self._domain._launch_processes()

def _create_domain(self):
    if not self._parallel:
        return self._domain_factory()
    if self._shared_memory_proxy is not None:
        return ShmParallelDomain(self._domain_factory, self._shared_memory_proxy,
                                 lambdas=self._lambdas, ipc_notify=self._ipc_notify)
    return PipeParallelDomain(self._domain_factory, lambdas=self._lambdas, ipc_notify=self._ipc_notify)

def get_domain(self):
    domain = self._domain
    if domain is None:
        self._initialize()
        domain = self._domain
    return domain
''', "ParallelSolver")
PO = "hub/solver/pomcp/pomcp.py"
fn("C15", PO, '''
def _filter_belief_state(self, belief, action, obs):
    weights = [get_probability(self._domain.get_observation_distribution(s, action), obs) for s in belief]
    return random.choices(belief, weights=weights, k=len(belief))

def _update_belief_state(self, belief, action):
    return [self._domain.get_next_state_distribution(Memory([s]), action).sample() for s in belief]
''', "POMCP")
fn("C15", PO, '''
def _filter_belief_state(self, belief, action, obs):
    prob = []
    for state in belief:
        distribution = self._domain.get_observation_distribution(state, action)
        prob.append(get_probability(distribution, obs))
    return random.choices(belief, weights=prob, k=len(belief))

def _solve_domain(self, domain_factory):
    self._domain = domain_factory()
    d = self._domain.get_initial_state_distribution()
    self._initial_belief = [d.sample() for _ in range(self._n_samples)]

def _get_next_action(self, observation):
    last_action = self._act_history[-1]
    filtered = self._filter_belief_state(self._belief, last_action, observation)
    self._obs_history += (observation,)
    self._belief = self._update_belief_state(filtered, last_action)
    for _ in range(self._max_iterations):
        self._tree_search(random.choice(self._belief), self._act_history, self._obs_history, 0)
    action = self._get_best_action(self._act_history, self._obs_history)
    self._act_history += (action,)
    return action
''', "POMCP")
fn("C15", PO, '''
def _get_best_action(self, h_act, h_obs, w=0):
    best_action, best_action_score = None, self._VLV
    parent = self._tree[h_act, h_obs] if w > 0 else None
    for action in self._domain.get_action_space().get_elements():
        key = (h_act + (action,), h_obs)
        if key not in self._tree:
            continue
        score = self._score(self._tree[key], parent, w)
        if score < best_action_score:
            best_action, best_action_score = action, score
    return best_action

def _score(self, node, parent, w):
    if w <= 0:
        return node[1]
    if node[0] == 0:
        return -self._VLV
    return node[1] - w * math.sqrt(math.log(parent[0]) / node[0])
''', "POMCP")
fn("C15", PO, '''
def _rollout(self, state, h_act, h_obs, depth):
    if depth > self._max_depth:
        return self._VLV
    action = self._get_random_action(state, h_act, h_obs, depth)
    assert action is not None
    new_state, cost, new_obs = self._simulate(state, action)
    if self._domain.is_goal(new_obs):
        return cost
    future = self._rollout(new_state, h_act + (action,), h_obs + (new_obs,), depth + 1)
    return min(cost + future, self._VLV)

def _simulate(self, state, action):
    memory = Memory([state])
    new_state = self._domain.get_next_state_distribution(memory, action).sample()
    value = self._domain.get_transition_value(Memory([state]), action, new_state)
    new_obs = self._domain.get_observation_distribution(state, action).sample()
    return new_state, value.cost, new_obs

def _get_random_action(self, state, h_act, h_obs, depth):
    return self._domain.get_applicable_actions(Memory([state])).sample()
''', "POMCP")
fn("C15", PO, '''
def _tree_search(self, state, h_act, h_obs, depth):
    assert len(h_act) == len(h_obs)
    if depth > self._max_depth:
        return self._VLV
    if (h_act, h_obs) not in self._tree:
        for action in self._domain.get_applicable_actions(Memory([state])).get_elements():
            assert action is not None
            self._tree[h_act + (action,), h_obs] = [0, 0, []]
        cost = self._rollout(state, h_act, h_obs, depth)
        self._tree[h_act, h_obs] = [1, cost, [state]]
        return cost
    action = self._get_best_action(h_act, h_obs, w=self._max_depth)
    assert action is not None
    new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
    s_cost = self._domain.get_transition_value(Memory([state]), action, new_state).cost
    new_obs = self._domain.get_observation_distribution(state, action).sample()
    if not self._domain.is_goal(new_obs):
        s_cost += self._tree_search(new_state, h_act + (action,), h_obs + (new_obs,), depth + 1)
        s_cost = min(s_cost, self._VLV)
    this_node = self._tree[h_act, h_obs]
    succ_node = self._tree[h_act + (action,), h_obs]
    n = succ_node[0]
    succ_node[1] = (succ_node[1] * n + s_cost) / (n + 1)
    this_node[0] += 1
    succ_node[0] += 1
    return s_cost
''', "POMCP")
fn("C15", PO, '''
def get_probability(distribution, element, n=100):
    return sum(1 for _ in range(n) if distribution.sample() == element) / n
''')
fn("C15", PO, '''
def get_probability(distribution, element, n=100):
    hits = 0
    for _ in range(n):
        hits += distribution.sample() == element
    return hits / n
''')
DF = "hub/solver/graph_explorer/DFSExploration.py"
FS = "hub/solver/graph_explorer/FullSpaceExploration.py"
DU = "hub/solver/graph_explorer/DFS_Uncertain_Exploration.py"
GD = "hub/solver/graph_explorer/GraphDomain.py"
fn("C16", GD, '''
def to_networkx(self):
    graph = nx.DiGraph()
    states_list = list(self.state_terminal)
    state_to_id = {}
    for i, state in enumerate(states_list):
        graph.add_node(i, state=state)
        state_to_id[state] = i
    for state, actions in self.next_state_map.items():
        for action, successors in actions.items():
            for next_state, (proba, cost) in successors.items():
                graph.add_edge(state_to_id[state], state_to_id[next_state], action=action, proba=proba, cost=cost)
    return graph

def _is_terminal(self, state):
    return self.state_terminal[state] or not self._get_applicable_actions_from(state).l

def _get_applicable_actions_from(self, memory):
    if memory in self.next_state_map:
        return ActionSpace(list(self.next_state_map[memory]))
    return ActionSpace([])

def _get_next_state_distribution(self, memory, action):
    successors = self.next_state_map[memory][action]
    return DiscreteDistribution([(s, v[0]) for s, v in successors.items()])
''', "GraphDomainUncertain")
fn("C16", GD, '''
def merge(self, graph_domain):
    next_state_map = self.next_state_map
    next_state_attributes = self.next_state_attributes
    for k, transitions in graph_domain.next_state_map.items():
        attributes = graph_domain.next_state_attributes[k]
        if k not in next_state_map:
            next_state_map[k] = transitions
            next_state_attributes[k] = attributes
            continue
        for action in transitions:
            if action in next_state_map[k]:
                continue
            next_state_map[k][action] = transitions[action]
            next_state_attributes[k][action] = attributes[action]
    return GraphDomain(next_state_map, next_state_attributes, self.targets, self.attribute_weight)

def __init__(self, next_state_map, next_state_attributes, targets=None, attribute_weight='weight'):
    self.next_state_map = next_state_map
    self.next_state_attributes = next_state_attributes
    self.targets = set() if targets is None else set(targets)
    self.attribute_weight = attribute_weight

def _get_applicable_actions_from(self, memory):
    return ActionSpace(list(self.next_state_map[memory]))

def is_goal(self, state):
    goals = self.targets
    return state in goals
''', "GraphDomain")
fn("C16", DF, '''
def build_graph_domain(self, init_state=None, transition_extractor=None, verbose=True):
    if transition_extractor is None:
        transition_extractor = self._default_extractor
    if init_state is None:
        init_state = self.domain.get_initial_state()
    stack = [(init_state, [init_state])]
    nb_nodes, nb_edges, nb_path = 1, 0, 0
    next_state_map = {init_state: {}}
    next_state_attributes = {init_state: {}}
    while stack:
        vertex, path = stack.pop()
        for action in self.domain.get_applicable_actions(vertex).get_elements():
            next = self.domain.get_next_state(vertex, action)
            if action in next_state_map[vertex]:
                continue
            nb_edges += 1
            next_state_map[vertex][action] = next
            next_state_attributes[vertex][action] = transition_extractor(vertex, action, next)
            if self.domain.is_goal(next):
                nb_path += 1
                if verbose:
                    print(nb_path, ' / ', self.max_path)
                    print('nodes  ', nb_nodes, ' / ', self.max_nodes)
                    print('edges  ', nb_edges, ' / ', self.max_edges)
            elif next not in next_state_map:
                stack.append((next, path + [next]))
            if next not in next_state_map:
                next_state_map[next] = {}
                next_state_attributes[next] = {}
                nb_nodes += 1
        if (self.max_path is not None and nb_path > self.max_path) \\
                or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \\
                or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
            break
    return GraphDomain(next_state_map, next_state_attributes, None, 'cost')

def _default_extractor(self, s, a, s_prime):
    return {'cost': self.domain.get_transition_value(s, a, s_prime).cost}
''', "DFSExploration")
fn("C16", DU, '''
def __init__(self, domain, score_function=None, max_edges=None, max_nodes=None, max_path=None):
    self.domain = domain
    self.c = count()
    if score_function is None:
        self.score_function = lambda s: next(self.c)
    else:
        self.score_function = score_function
    self.max_edges = max_edges
    self.max_nodes = max_nodes
    self.max_path = max_path

def build_graph_domain(self, init_state=None):
    initial_state = self.domain.get_initial_state() if init_state is None else init_state
    domain = self.domain
    stack = [(self.score_function(initial_state), initial_state)]
    nb_states = 1
    nb_edges = 0
    result = {initial_state}
    next_state_map = {}
    state_terminal = {initial_state: domain.is_terminal(initial_state)}
    state_goal = {initial_state: domain.is_goal(initial_state)}
    while stack:
        if len(result) % 100 == 0 and len(result) > nb_states:
            print('Expanded {} states.'.format(len(result)))
            nb_states = len(result)
        _, s = heappop(stack)
        if domain.is_goal(s) or domain.is_terminal(s):
            continue
        for action in domain.get_applicable_actions(s).get_elements():
            for succ, prob in domain.get_next_state_distribution(s, action).get_values():
                next_state_map.setdefault(s, {}).setdefault(action, {})
                if prob == 0:
                    continue
                nb_edges += 1
                next_state_map[s][action][succ] = (prob, domain.get_transition_value(s, action, succ).cost)
                if succ in result:
                    continue
                nb_states += 1
                result.add(succ)
                heappush(stack, (self.score_function(succ), succ))
                state_goal[succ] = domain.is_goal(succ)
                state_terminal[succ] = domain.is_terminal(succ)
        if self.max_nodes is not None and nb_states > self.max_nodes:
            break
        if self.max_edges is not None and nb_edges > self.max_edges:
            break
    return GraphDomainUncertain(next_state_map=next_state_map, state_terminal=state_terminal, state_goal=state_goal)
''', "DFSExploration")
fn("C16", FS, '''
def reachable_states(self, s0):
    domain = self._domain
    seen = {s0}
    stack = [s0]
    while stack:
        if len(seen) % 100 == 0:
            print('Expanded {} states.'.format(len(seen)))
        s = stack.pop()
        if not domain.is_terminal(s):
            for action in domain.get_applicable_actions(s).get_elements():
                for succ, prob in domain.get_next_state_distribution(s, action).get_values():
                    if prob == 0 or succ in seen:
                        continue
                    seen.add(succ)
                    stack.append(succ)
    return seen
''')
GS = "hub/space/gym/gym.py"
fn("C17", GS, '''
def __init__(self, enum_class):
    self._enum_class = enum_class
    self._list_enum = [member for member in enum_class]
    super().__init__(gym_spaces.Discrete(len(self._list_enum)))

def sample(self):
    index = super().sample()
    return self._list_enum[index]

def to_jsonable(self, sample_n):
    return list(map(lambda sample: sample.name, sample_n))

def from_jsonable(self, sample_n):
    members = []
    for name in sample_n:
        members.append(self._enum_class[name])
    return members

def to_unwrapped(self, sample_n):
    index = self._list_enum.index
    return [index(sample) for sample in sample_n]

def from_unwrapped(self, sample_n):
    return [self._list_enum[i] for i in sample_n]
''', "EnumSpace")
fn("C17", GS, '''
def to_jsonable(self, sample_n):
    return super().to_jsonable([asdict(sample) for sample in sample_n])

def from_jsonable(self, sample_n):
    return self.from_unwrapped(super().from_jsonable(sample_n))

def contains(self, x):
    jsonable = self.to_jsonable([x])
    restored = super().from_jsonable(jsonable)
    return super().contains(restored[0])

def sample(self):
    values = super().sample()
    return self._data_class(**values)
''', "DataSpace")
fn("C17", GS, '''
def __init__(self, elements):
    items = list(elements)
    self._elements = items
    super().__init__(gym_spaces.Discrete(len(items)))

def contains(self, x):
    elements = self.get_elements()
    return x in elements

def from_unwrapped(self, sample_n):
    return [self._decode(i) for i in sample_n]

def sample(self):
    return self._decode(super().sample())

def _decode(self, index):
    return self._elements[index]
''', "ListSpace")
SW = "hub/domain/simple_grid_world/simple_grid_world.py"
fn("C19", SW, '''
def _get_next_state(self, memory, action):
    x, y = memory.x, memory.y
    if action == Action.left:
        next_state = State(max(x - 1, 0), y)
    elif action == Action.right:
        next_state = State(min(x + 1, self.num_cols - 1), y)
    elif action == Action.up:
        next_state = State(x, max(y - 1, 0))
    elif action == Action.down:
        next_state = State(x, min(y + 1, self.num_rows - 1))
    return next_state

def _get_transition_value(self, memory, action, next_state=None):
    distance = abs(next_state.x - memory.x) + abs(next_state.y - memory.y)
    if next_state.x == memory.x and next_state.y == memory.y:
        return TransitionValue(cost=2)
    return TransitionValue(cost=distance)
''', "SimpleGridWorld")
MM = "hub/domain/mastermind/mastermind.py"
fn("C19", MM, '''
def _calc_score(self, state, guess):
    solution = state.solution
    n = len(guess)
    bulls = [guess[i] == solution[i] for i in range(n)]
    cows = [False] * n
    for i in range(n):
        if bulls[i]:
            continue
        for j in range(n):
            if guess[i] == solution[j] and not bulls[j] and not cows[j]:
                cows[j] = True
                break
    return Score(total_bulls=sum(bulls), total_cows=sum(cows))

def _get_next_state(self, memory, action):
    if action is not None:
        score = self._calc_score(memory, action)
        return State(solution=memory.solution, score=score)
    return memory

def _get_observation(self, state, action=None):
    return self._calc_score(state, action) if action is not None else Score(0, 0)

def _get_observation_space_(self):
    size = self._n_positions + 1
    return MultiDiscreteSpace([size] * 2)
''', "MasterMind")
fn("C19", MM, '''
def _list_hidden_solutions(self):
    solutions = [()]
    for _ in range(self._n_positions):
        longer = []
        for s in solutions:
            for c in range(self._n_colours):
                longer.append(s + (c,))
        solutions = longer
    return solutions

def _get_initial_state_distribution_(self):
    proba = 1 / len(self._h_solutions)
    values = []
    for solution in self._h_solutions:
        values.append((State(solution=solution, score=Score(total_bulls=0, total_cows=0)), proba))
    return DiscreteDistribution(values)
''', "MasterMind")
MZ = "hub/domain/maze/maze.py"
fn("C19", MZ, '''
def _get_next_state(self, memory, action):
    x, y = memory.x, memory.y
    if action == Action.left:
        x -= 1
    elif action == Action.right:
        x += 1
    elif action == Action.up:
        y -= 1
    elif action == Action.down:
        y += 1
    if self._is_free(x, y):
        return State(x, y)
    return memory

def _is_free(self, x, y):
    return 0 <= x < self._num_cols and 0 <= y < self._num_rows and self._maze[y][x] == 1

def _get_transition_value(self, memory, action, next_state=None):
    if (next_state.x, next_state.y) == (memory.x, memory.y):
        return TransitionValue(cost=2)
    return TransitionValue(cost=abs(next_state.x - memory.x) + abs(next_state.y - memory.y))
''', "Maze") if 0 else None
fn("C19", MZ, '''
def _get_next_state(self, memory, action):
    if action == Action.left:
        next_state = State(memory.x - 1, memory.y)
    if action == Action.right:
        next_state = State(memory.x + 1, memory.y)
    if action == Action.up:
        next_state = State(memory.x, memory.y - 1)
    if action == Action.down:
        next_state = State(memory.x, memory.y + 1)
    return next_state if self._is_free(next_state) else memory

def _is_free(self, cell):
    if not 0 <= cell.x < self._num_cols:
        return False
    if not 0 <= cell.y < self._num_rows:
        return False
    return self._maze[cell.y][cell.x] == 1

def _get_transition_value(self, memory, action, next_state=None):
    if (next_state.x, next_state.y) == (memory.x, memory.y):
        return TransitionValue(cost=2)
    return TransitionValue(cost=abs(next_state.x - memory.x) + abs(next_state.y - memory.y))
''', "Maze")
fn("C19", MZ, '''
def __init__(self, maze_str=DEFAULT_MAZE):
    self._maze = []
    for y, line in enumerate(maze_str.strip().split('\\n')):
        row = []
        for x, c in enumerate(line.rstrip()):
            free = c in {' ', 'o', 'x'}
            row.append(1 if free else 0)
            if c == 'o':
                self._start = State(x, y)
            elif c == 'x':
                self._goal = State(x, y)
        self._maze.append(row)
    self._num_cols = len(self._maze[0])
    self._num_rows = len(self._maze)
    self._ax = None
    self._image = None
''', "Maze")
RP = "hub/domain/rock_paper_scissors/rock_paper_scissors.py"
fn("C19", RP, '''
def _get_observation(self, state, action=None):
    if action is None:
        return {'player1': Move.rock, 'player2': Move.rock}
    return {'player1': action['player2'], 'player2': action['player1']}

def _get_observation_space_(self):
    return {player: EnumSpace(Move) for player in ('player1', 'player2')}
''', "RockPaperScissors")
AR = "hub/solver/ars/ars.py"
fn("C20", AR, '''
def evaluate_policy(self, state, delta=None, direction=None):
    policy = self.policy
    if direction is not None:
        noise = self.policy_noise * delta
        policy = policy + noise if direction == 'positive' else policy - noise
    return policy.dot(state)

def explore(self, normalizer, direction=None, delta=None):
    observation_space = self.env.get_observation_space().unwrapped()
    state = self.env.reset()
    done, num_plays, sum_rewards = False, 0.0, 0
    while not done and num_plays < self.epoch_size:
        state = cgp.norm_and_flatten(state, self.env.get_observation_space().unwrapped())
        action = cgp.denorm(self.evaluate_policy(state, delta, direction), self.env.get_action_space().unwrapped())
        state, transition_value, done, _ = self.env.step(action).astuple()
        reward = max(min(transition_value[0], 1), -1)
        if np.isnan(reward):
            reward = 0
        sum_rewards += reward
        num_plays += 1
    return sum_rewards
''', "AugmentedRandomSearch") if 0 else None
fn("C20", AR, '''
def evaluate_policy(self, state, delta=None, direction=None):
    if direction is None:
        policy = self.policy
    elif direction == 'positive':
        policy = self.policy + self.policy_noise * delta
    else:
        policy = self.policy - self.policy_noise * delta
    return policy.dot(state)

def explore(self, normalizer, direction=None, delta=None):
    state = self.env.reset()
    done, num_plays, sum_rewards = False, 0.0, 0
    while not done and num_plays < self.epoch_size:
        state = cgp.norm_and_flatten(state, self.env.get_observation_space().unwrapped())
        action = cgp.denorm(self.evaluate_policy(state, delta, direction), self.env.get_action_space().unwrapped())
        state, transition_value, done, _ = self.env.step(action).astuple()
        reward = max(min(transition_value[0], 1), -1)
        sum_rewards += 0 if np.isnan(reward) else reward
        num_plays += 1
    return sum_rewards

def update_policy(self, rollouts, sigma_r):
    if self.top_directions == 0 or sigma_r == 0:
        return
    step = np.zeros(self.policy.shape)
    for r_pos, r_neg, d in rollouts:
        step += (r_pos - r_neg) * d
    self.policy += self.learning_rate / (self.top_directions * sigma_r) * step

def get_dimension_space(self, space):
    if isinstance(space, gym.spaces.Tuple):
        return sum(self.get_dimension_space(element) for element in space)
    if isinstance(space, gym.spaces.Discrete):
        return 1
    return space.shape[0]
''', "AugmentedRandomSearch")
fn("C20", AR, '''
def _solve_domain(self, domain_factory):
    self.env = domain_factory()
    np.random.seed(0)
    input_size = self.get_dimension_space(self.env.get_observation_space().unwrapped())
    output_size = self.get_dimension_space(self.env.get_action_space().unwrapped())
    self.policy = np.zeros((output_size, input_size))
    normalizer = Normalizer(input_size)
    for step in range(self.n_epochs):
        deltas = [2 * np.random.random_sample(self.policy.shape) - 1 for _ in range(self.directions)]
        positive_rewards = [self.explore(normalizer, direction='positive', delta=d) for d in deltas]
        negative_rewards = [self.explore(normalizer, direction='negative', delta=d) for d in deltas]
        sigma_r = np.array(positive_rewards + negative_rewards).std()
        scores = {k: max(positive_rewards[k], negative_rewards[k]) for k in range(self.directions)}
        order = sorted(scores, key=lambda k: scores[k], reverse=self.reward_maximization)
        best = order[:self.top_directions]
        self.update_policy([(positive_rewards[k], negative_rewards[k], deltas[k]) for k in best], sigma_r)
        reward_evaluation = self.explore(normalizer)
        print('Step:', step, 'Reward:', reward_evaluation, 'Policy', self.policy)
    print('Final Reward:', reward_evaluation, 'Policy', self.policy)

def _sample_action(self, observation):
    state = cgp.norm_and_flatten(observation, self.env.get_observation_space().unwrapped())
    return cgp.denorm(self.policy.dot(state), self.env.get_action_space().unwrapped())
''', "AugmentedRandomSearch")
CG = "hub/solver/cgp/cgp.py"
fn("C20", CG, '''
def change_interval(x, inmin, inmax, outmin, outmax):
    inmin = -1 if inmin == -np.inf else inmin
    inmax = 1 if inmax == np.inf else inmax
    clipped = max(inmin, min(inmax, x))
    ratio = (clipped - inmin) / (inmax - inmin)
    return outmin + ratio * (outmax - outmin)

def change_float_to_int_interval(x, inmin, inmax, outdiscmin, outdiscmax):
    ratio = change_interval(x, inmin, inmax, 0, 1)
    if ratio != 1:
        return int(ratio * (outdiscmax - outdiscmin + 1) + outdiscmin)
    return outdiscmax

def norm_and_flatten(vals, types):
    types = _as_iterable(types)
    flat_vals = list(flatten(_as_iterable(vals)))
    index = 0
    for t in types:
        if isinstance(t, gym.spaces.Box):
            for low, high in zip(list(flatten(t.low)), list(flatten(t.high))):
                flat_vals[index] = change_interval(flat_vals[index], low, high, -1, 1)
                index += 1
        elif isinstance(t, gym.spaces.Discrete):
            flat_vals[index] = change_interval(flat_vals[index], 0, t.n - 1, -1, 1)
            index += 1
        else:
            raise ValueError('Unsupported type ', str(t))
    return flat_vals

def _as_iterable(x):
    if isinstance(x, Iterable) or isinstance(x, gym.spaces.Tuple):
        return x
    return [x]
''') if 0 else None
fn("C20", CG, '''
def change_interval(x, inmin, inmax, outmin, outmax):
    inmin = -1 if inmin == -np.inf else inmin
    inmax = 1 if inmax == np.inf else inmax
    clipped = max(inmin, min(inmax, x))
    ratio = (clipped - inmin) / (inmax - inmin)
    return outmin + ratio * (outmax - outmin)

def change_float_to_int_interval(x, inmin, inmax, outdiscmin, outdiscmax):
    ratio = change_interval(x, inmin, inmax, 0, 1)
    if ratio != 1:
        return int(ratio * (outdiscmax - outdiscmin + 1) + outdiscmin)
    return outdiscmax

def denorm(vals, types):
    types = _as_list(types)
    vals = _as_list(vals)
    out = []
    index = 0
    for t in types:
        if isinstance(t, gym.spaces.Box):
            for j in range(len(t.low)):
                out.append(change_interval(vals[index], -1, 1, t.low[j], t.high[j]))
                index += 1
        elif isinstance(t, gym.spaces.Discrete):
            out.append(change_float_to_int_interval(vals[index], -1, 1, 0, t.n - 1))
            index += 1
        else:
            raise ValueError('Unsupported type ', str(t))
    if len(types) == 1 and not isinstance(types[0], gym.spaces.Box):
        return out[0]
    return out

def _as_list(x):
    if isinstance(x, Iterable) or isinstance(x, gym.spaces.Tuple):
        return x
    return [x]
''')
fn("C20", CG, '''
def evaluate(self, cgp, it, verbose=False):
    fitnesses = np.zeros(self.ep_max)
    for e in range(self.ep_max):
        fitnesses[e] = self._episode(cgp, verbose)
    np.sort(fitnesses)
    weighted = sum(fitnesses[e] * (e + 1) for e in range(self.ep_max))
    return weighted / sum(e + 1 for e in range(self.ep_max))

def _episode(self, cgp, verbose):
    end, fit, step = False, 0, 0
    states = self.domain.reset()
    while not end and step < self.it_max:
        inputs = norm_and_flatten(states, self.domain.get_observation_space().unwrapped())
        actions = denorm(cgp.run(inputs), self.domain.get_action_space().unwrapped())
        outcome = self.domain.step(actions)
        states = outcome.observation
        end = outcome.termination
        if verbose:
            print(states, '=>', actions)
        fit += outcome.value.reward
        step += 1
    return fit
''', "SkDecideEvaluator")
fn("C20", CG, '''
@classmethod
def _check_domain_additional(cls, domain):
    supported = (gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box)
    action_space = domain.get_action_space().unwrapped()
    observation_space = domain.get_observation_space().unwrapped()
    if not isinstance(action_space, (Iterable, gym.spaces.Tuple)):
        action_space = [action_space]
    if not isinstance(observation_space, (Iterable, gym.spaces.Tuple)):
        observation_space = [observation_space]
    flat_action_space = list(flatten(action_space))
    flat_observation_space = list(flatten(observation_space))
    print(flat_action_space)
    print(flat_observation_space)
    return all(isinstance(x, supported) for x in flat_action_space) \\
        and all(isinstance(x, supported) for x in flat_observation_space)
''', "CGPWrapper")
