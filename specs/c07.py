# C07: values and outcomes


@spec("core.py", "ExtendedDataclass.asdict")
def _(self):
    return asdict(self)


@spec("core.py", "ExtendedDataclass.astuple")
def _(self):
    return astuple(self)


@spec("core.py", "ExtendedDataclass.replace")
def _(self, **changes):
    return replace(self, **changes)


@spec("core.py", "TransitionValue.__post_init__")
def _(self):
    if self.reward is not None:
        self.cost = self._reward_to_cost(self.reward)
    elif self.cost is not None:
        self.reward = self._cost_to_reward(self.cost)
    else:
        self.reward = 0
        self.cost = 0


@spec("core.py", "TransitionValue._cost_to_reward")
def _(self, cost):
    return -cost


@spec("core.py", "TransitionValue._reward_to_cost")
def _(self, reward):
    return -reward


@spec("core.py", "EnvironmentOutcome.__post_init__")
def _(self):
    if self.value is None:
        self.value = {k: TransitionValue() for k in self.observation} if isinstance(self.observation, dict) else TransitionValue()
    if self.info is None:
        self.info = {k: None for k in self.observation} if isinstance(self.observation, dict) else None


@spec("core.py", "TransitionOutcome.__post_init__")
def _(self):
    if self.value is None:
        self.value = {k: TransitionValue() for k in self.state} if isinstance(self.state, dict) else TransitionValue()
    if self.info is None:
        self.info = {k: None for k in self.state} if isinstance(self.state, dict) else None
