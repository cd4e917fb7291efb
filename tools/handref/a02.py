CO = "core.py"
fn("C07 C05", CO, '''
def __post_init__(self) -> None:
    if self.reward is None and self.cost is None:
        self.reward, self.cost = 0, 0
        return
    if self.reward is not None:
        self.cost = self._reward_to_cost(self.reward)
        return
    self.reward = self._cost_to_reward(self.cost)
''', "TransitionValue")
fn("C07", CO, '''
def __post_init__(self) -> None:
    multi_agent = isinstance(self.observation, dict)
    if self.value is None:
        if multi_agent:
            self.value = {agent: TransitionValue() for agent in self.observation.keys()}
        else:
            self.value = TransitionValue()
    if self.info is None and multi_agent:
        self.info = {agent: None for agent in self.observation}
''', "EnvironmentOutcome")
fn("C07", CO, '''
def __post_init__(self) -> None:
    if self.value is None:
        self.value = _per_agent(self.state, TransitionValue)
    if self.info is None:
        self.info = _per_agent(self.state, lambda: None)
''', "TransitionOutcome", '''
def _per_agent(obj, make):
    if not isinstance(obj, dict):
        return make()
    result = {}
    for key in obj:
        result[key] = make()
    return result
''')
fn("C07", CO, '''
def __post_init__(self) -> None:
    if self.info is None:
        self.info = dict.fromkeys(self.state) if isinstance(self.state, dict) else None
    if self.value is None:
        self.value = {k: TransitionValue() for k in self.state} if isinstance(self.state, dict) else TransitionValue()
''', "TransitionOutcome")
fn("C03", CO, '''
def __init__(self, values) -> None:
    population, weights = zip(*values)
    self._values = values
    self._population = population
    self._weights = weights
''', "DiscreteDistribution")
fn("C03", CO, '''
def sample(self):
    choices = random.choices(population=self._population, weights=self._weights, k=1)
    return choices[0]

def _cast(self, src_sub, dst_sub):
    cast_values = []
    for value, probability in self._values:
        cast_values.append((cast(value, src_sub[0], dst_sub[0]), probability))
    return DiscreteDistribution(cast_values)
''', "DiscreteDistribution")
fn("C03", CO, '''
def _cast(self, src_sub, dst_sub):
    src, dst = src_sub[0], dst_sub[0]
    return ImplicitDistribution(lambda: cast(self._sample_function(), src, dst))
''', "ImplicitDistribution")
fn("C09", CO, '''
def __init__(self, evaluate_function, inequality, bound, depends_on_next_state=True) -> None:
    assert inequality in ("<", "<=", ">", ">=")
    self._evaluate_function = evaluate_function
    self._inequality = inequality
    self._bound = bound
    self._depends_on_next_state = depends_on_next_state
    if inequality == "<":
        self._check_function = lambda val, bnd: val < bnd
    elif inequality == "<=":
        self._check_function = lambda val, bnd: val <= bnd
    elif inequality == ">":
        self._check_function = lambda val, bnd: val > bnd
    else:
        self._check_function = lambda val, bnd: val >= bnd
''', "BoundConstraint")
fn("C09", CO, '''
def __init__(self, evaluate_function, inequality, bound, depends_on_next_state=True) -> None:
    self._evaluate_function = evaluate_function
    self._inequality = inequality
    self._bound = bound
    self._depends_on_next_state = depends_on_next_state

    assert inequality in ['<', '<=', '>', '>=']
    self._check_function = _INEQUALITIES[inequality]
''', "BoundConstraint", '''
_INEQUALITIES = {
    '<': (lambda val, bnd: val < bnd),
    '<=': (lambda val, bnd: val <= bnd),
    '>': (lambda val, bnd: val > bnd),
    '>=': (lambda val, bnd: val >= bnd),
}
''')
fn("C09", CO, '''
def __init__(self, evaluate_function, inequality, bound, depends_on_next_state=True) -> None:
    self._evaluate_function = evaluate_function
    self._inequality = inequality
    self._bound = bound
    self._depends_on_next_state = depends_on_next_state
    inequality_functions = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
    assert inequality in inequality_functions
    self._check_function = inequality_functions[inequality]
''', "BoundConstraint", "import operator")
fn("C09", CO, '''
def _cast(self, src_sub, dst_sub):
    def cast_check_function(memory, action, next_state):
        return self._check_function(
            cast(memory, dst_sub[0], src_sub[0]),
            cast(action, dst_sub[1], src_sub[1]),
            cast(next_state, dst_sub[2], src_sub[2]),
        )

    return ImplicitConstraint(check_function=cast_check_function, depends_on_next_state=self._depends_on_next_state)
''', "ImplicitConstraint")
fn("C06", CO, '''
def get_args_dict(func, args, kwargs):
    while hasattr(func, '__wrapped__'):
        func = func.__wrapped__
    code = func.__code__
    first = 1 if inspect.ismethod(func) else 0
    names = code.co_varnames[first:code.co_argcount]
    result = dict(zip(names, args))
    result.update(kwargs)
    return result
''')
fn("C06", CO, '''
@functools.lru_cache(maxsize=1000)
def cast_needed(src_hintree, dst_hintree):
    pair = (src_hintree.type, dst_hintree.type)
    if pair[0] != pair[1] and pair in cast_dict:
        return True
    return any(cast_needed(src, dst) for src, dst in zip(src_hintree.sub, dst_hintree.sub))
''')
fn("C06", CO, '''
@functools.lru_cache(maxsize=1000)
def cast_needed(src_hintree, dst_hintree):
    src_type, dst_type = src_hintree.type, dst_hintree.type
    if src_type != dst_type and (src_type, dst_type) in cast_dict:
        return True
    for i, src_sub in enumerate(src_hintree.sub):
        if cast_needed(src_sub, dst_hintree.sub[i]):
            return True
    return False
''')
fn("C06", CO, '''
def cast(obj, src_hintree, dst_hintree):
    if not cast_needed(src_hintree, dst_hintree):
        return obj
    caster = cast_dict.get((src_hintree.type, dst_hintree.type), default_cast)
    return caster(obj, src_hintree.sub, dst_hintree.sub)
''')
fn("C06", CO, '''
def parse_hint(obj, hint, hint_obj):
    groups = re.match(fr'^(?P<hint_obj>{hint_obj}\\.)?(?P<type>\\w+)(?:\\[(?P<generics>.+)\\])?$', hint).groupdict()
    if groups['hint_obj']:
        type_ = getattr(obj, groups['type'])
    else:
        type_ = eval(groups['type'])
    if not groups['generics']:
        return Tree(type_, [])
    parts = groups['generics'].split(',')
    balanced = all(p.count('[') == p.count(']') for p in parts)
    if not balanced:
        parts = [groups['generics']]
    return Tree(type_, [parse_hint(obj, p, hint_obj) for p in parts])
''')
fn("C06", CO, '''
def autocast(func, src, dst, hint_obj='D'):
    src_hintrees = {}
    dst_hintrees = {}
    cast_args = []
    pattern = fr'(?<=\\b{hint_obj}\\.)\\w+'
    for arg, hint in func.__annotations__.items():
        if not re.search(pattern, hint):
            continue
        formatted_hint = re.sub(r'\\s+', '', hint)
        src_tree = parse_hint(src, formatted_hint, hint_obj)
        dst_tree = parse_hint(dst, formatted_hint, hint_obj)
        src_hintrees[arg] = src_tree
        dst_hintrees[arg] = dst_tree
        if cast_needed(src_tree, dst_tree):
            cast_args.append(arg)

    if not cast_args:
        return func

    @functools.wraps(func)
    def wrapper_autocast(*args, **kwargs):
        call_args = {}
        for name, value in get_args_dict(func, args, kwargs).items():
            if name in cast_args:
                value = cast(value, dst_hintrees[name], src_hintrees[name])
            call_args[name] = value
        result = func(**call_args)
        if 'return' in cast_args:
            result = cast(result, src_hintrees['return'], dst_hintrees['return'])
        return result

    return wrapper_autocast
''')
