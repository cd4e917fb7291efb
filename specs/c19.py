# C19: toy domains


@spec("hub/domain/mastermind/mastermind.py", "MasterMind.__init__")
def _(self, n_colours=2, n_positions=2):
    self._n_colours = n_colours
    self._n_positions = n_positions
    self._h_solutions = self._list_hidden_solutions()


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_next_state")
def _(self, memory, action):
    if action is None:
        return memory
    else:
        return State(memory.solution, self._calc_score(memory, action))


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_transition_value")
def _(self, memory, action, next_state=None):
    return TransitionValue(cost=1)


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._is_transition_value_dependent_on_next_state_")
def _(self):
    return False


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._is_terminal")
def _(self, state):
    return self._is_goal(state.score)


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_action_space_")
def _(self):
    return ListSpace(self._h_solutions)


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_goals_")
def _(self):
    return ListSpace([Score(total_bulls=self._n_positions, total_cows=0)])


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_initial_state_distribution_")
def _(self):
    n = len(self._h_solutions)
    return DiscreteDistribution([(State(solution=s, score=Score(0, 0)), 1 / n) for s in self._h_solutions])


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_observation")
def _(self, state, action=None):
    if action is None:
        return Score(0, 0)
    return self._calc_score(state, action)


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._get_observation_space_")
def _(self):
    return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._list_hidden_solutions")
def _(self):
    h_solutions = [tuple()]
    for i in range(self._n_positions):
        h_solutions = [s + (c,) for s in h_solutions for c in range(self._n_colours)]
    return h_solutions


@spec("hub/domain/mastermind/mastermind.py", "MasterMind._calc_score")
def _(self, state, guess):
    solution = state.solution
    bulls = [False for _ in range(len(guess))]
    for i in range(len(guess)):
        if guess[i] == solution[i]:
            bulls[i] = True
    cows = [False for _ in range(len(guess))]
    for i in range(len(guess)):
        if guess[i] != solution[i]:
            for j in range(len(guess)):
                if guess[i] == solution[j] and (not bulls[j]) and (not cows[j]):
                    cows[j] = True
                    break
    return Score(total_bulls=sum(bulls), total_cows=sum(cows))


@spec("hub/domain/maze/maze.py", "Maze.__init__")
def _(self, maze_str=DEFAULT_MAZE):
    maze = []
    for y, line in enumerate(maze_str.strip().split('\n')):
        line = line.rstrip()
        row = []
        for x, c in enumerate(line):
            if c in {' ', 'o', 'x'}:
                row.append(1)
                if c == 'o':
                    self._start = State(x, y)
                if c == 'x':
                    self._goal = State(x, y)
            else:
                row.append(0)
        maze.append(row)
    self._maze = maze
    self._num_cols = len(maze[0])
    self._num_rows = len(maze)
    self._ax = None
    self._image = None


@spec("hub/domain/maze/maze.py", "Maze._get_next_state")
def _(self, memory, action):
    if action == Action.left:
        next_state = State(memory.x - 1, memory.y)
    if action == Action.right:
        next_state = State(memory.x + 1, memory.y)
    if action == Action.up:
        next_state = State(memory.x, memory.y - 1)
    if action == Action.down:
        next_state = State(memory.x, memory.y + 1)
    if 0 <= next_state.x < self._num_cols and 0 <= next_state.y < self._num_rows and (self._maze[next_state.y][next_state.x] == 1):
        return next_state
    else:
        return memory


@spec("hub/domain/maze/maze.py", "Maze._get_transition_value")
def _(self, memory, action, next_state=None):
    if next_state.x == memory.x and next_state.y == memory.y:
        cost = 2
    else:
        cost = abs(next_state.x - memory.x) + abs(next_state.y - memory.y)
    return TransitionValue(cost=cost)


@spec("hub/domain/maze/maze.py", "Maze._is_terminal")
def _(self, state):
    return self._is_goal(state)


@spec("hub/domain/maze/maze.py", "Maze._get_action_space_")
def _(self):
    return EnumSpace(Action)


@spec("hub/domain/maze/maze.py", "Maze._get_goals_")
def _(self):
    return ListSpace([self._goal])


@spec("hub/domain/maze/maze.py", "Maze._get_initial_state_")
def _(self):
    return self._start


@spec("hub/domain/maze/maze.py", "Maze._get_observation_space_")
def _(self):
    return MultiDiscreteSpace([self._num_cols, self._num_rows])


@spec("hub/domain/maze/maze.py", "Maze._render_from")
def _(self, memory, **kwargs):
    if self._ax is None:
        fig, ax = plt.subplots(1)
        fig.canvas.set_window_title('Maze')
        ax.set_aspect('equal')
        plt.xticks([])
        plt.yticks([])
        ax.invert_yaxis()
        self._ax = ax
        plt.ion()
    maze = deepcopy(self._maze)
    maze[self._goal.y][self._goal.x] = 0.7
    maze[memory.y][memory.x] = 0.3
    if self._image is None:
        self._image = self._ax.imshow(maze)
    else:
        self._image.set_data(maze)
    plt.pause(0.001)


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors.__init__")
def _(self, max_moves=10):
    self._max_moves = max_moves


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors._state_step")
def _(self, action):
    move1, move2 = (action['player1'], action['player2'])
    r1, r2 = {(Move.rock, Move.rock): (0, 0), (Move.rock, Move.paper): (-1, 1), (Move.rock, Move.scissors): (1, -1), (Move.paper, Move.rock): (1, -1), (Move.paper, Move.paper): (0, 0), (Move.paper, Move.scissors): (-1, 1), (Move.scissors, Move.rock): (-1, 1), (Move.scissors, Move.paper): (1, -1), (Move.scissors, Move.scissors): (0, 0)}[move1, move2]
    last_state = self._memory
    num_move = last_state.num_move + 1
    return TransitionOutcome(state=State(num_move=num_move), value={'player1': TransitionValue(reward=r1), 'player2': TransitionValue(reward=r2)}, termination=num_move >= self._max_moves)


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors._get_action_space_")
def _(self):
    return {'player1': EnumSpace(Move), 'player2': EnumSpace(Move)}


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors._state_reset")
def _(self):
    return State(num_move=0)


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors._get_observation")
def _(self, state, action=None):
    obs1 = action['player2'] if action is not None else Move.rock
    obs2 = action['player1'] if action is not None else Move.rock
    return {'player1': obs1, 'player2': obs2}


@spec("hub/domain/rock_paper_scissors/rock_paper_scissors.py", "RockPaperScissors._get_observation_space_")
def _(self):
    return {'player1': EnumSpace(Move), 'player2': EnumSpace(Move)}


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld.__init__")
def _(self, num_cols=10, num_rows=10):
    self.num_cols = num_cols
    self.num_rows = num_rows


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_next_state")
def _(self, memory, action):
    if action == Action.left:
        next_state = State(max(memory.x - 1, 0), memory.y)
    if action == Action.right:
        next_state = State(min(memory.x + 1, self.num_cols - 1), memory.y)
    if action == Action.up:
        next_state = State(memory.x, max(memory.y - 1, 0))
    if action == Action.down:
        next_state = State(memory.x, min(memory.y + 1, self.num_rows - 1))
    return next_state


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_transition_value")
def _(self, memory, action, next_state=None):
    if next_state.x == memory.x and next_state.y == memory.y:
        cost = 2
    else:
        cost = abs(next_state.x - memory.x) + abs(next_state.y - memory.y)
    return TransitionValue(cost=cost)


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._is_terminal")
def _(self, state):
    return self._is_goal(state)


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_action_space_")
def _(self):
    return EnumSpace(Action)


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_goals_")
def _(self):
    return ListSpace([State(x=self.num_cols - 1, y=self.num_rows - 1)])


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_initial_state_")
def _(self):
    return State(x=0, y=0)


@spec("hub/domain/simple_grid_world/simple_grid_world.py", "SimpleGridWorld._get_observation_space_")
def _(self):
    return MultiDiscreteSpace([self.num_cols, self.num_rows])
