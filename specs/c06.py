# C06: automatic conversion between domain and solver signatures


@spec("core.py", "Tree.__init__")
def _(self, type_, sub=[]):
    self.type = type_
    self.sub = sub


@spec("core.py", "ImplicitDistribution._cast")
def _(self, src_sub, dst_sub):

    def cast_sample_function():
        result = self._sample_function()
        return cast(result, src_sub[0], dst_sub[0])
    return ImplicitDistribution(cast_sample_function)


@spec("core.py", "DiscreteDistribution._cast")
def _(self, src_sub, dst_sub):
    return DiscreteDistribution([(cast(e, src_sub[0], dst_sub[0]), p) for e, p in self._values])


@spec("core.py", "SingleValueDistribution._cast")
def _(self, src_sub, dst_sub):
    return SingleValueDistribution(cast(self._value, src_sub[0], dst_sub[0]))


@spec("core.py", "EnvironmentOutcome._cast")
def _(self, src_sub, dst_sub):
    return EnvironmentOutcome(cast(self.observation, src_sub[0], dst_sub[0]), cast(self.value, src_sub[1], dst_sub[1]), self.termination, cast(self.info, src_sub[2], dst_sub[2]))


@spec("core.py", "TransitionOutcome._cast")
def _(self, src_sub, dst_sub):
    return TransitionOutcome(cast(self.state, src_sub[0], dst_sub[0]), cast(self.value, src_sub[1], dst_sub[1]), self.termination, cast(self.info, src_sub[2], dst_sub[2]))


@spec("core.py", "ImplicitConstraint._cast")
def _(self, src_sub, dst_sub):

    def cast_check_function(memory, action, next_state):
        cast_memory = cast(memory, dst_sub[0], src_sub[0])
        cast_action = cast(action, dst_sub[1], src_sub[1])
        cast_next_state = cast(next_state, dst_sub[2], src_sub[2])
        return self._check_function(cast_memory, cast_action, cast_next_state)
    return ImplicitConstraint(cast_check_function, self._depends_on_next_state)


@spec("core.py", "BoundConstraint._cast")
def _(self, src_sub, dst_sub):

    def cast_evaluate_function(memory, action, next_state):
        cast_memory = cast(memory, dst_sub[0], src_sub[0])
        cast_action = cast(action, dst_sub[1], src_sub[1])
        cast_next_state = cast(next_state, dst_sub[2], src_sub[2])
        return self._evaluate_function(cast_memory, cast_action, cast_next_state)
    return BoundConstraint(cast_evaluate_function, self._inequality, self._bound, self._depends_on_next_state)


@spec("core.py", "parse_hint")
def _(obj, hint, hint_obj):
    match = re.match(f'^(?P<hint_obj>{hint_obj}\\.)?(?P<type>\\w+)(?:\\[(?P<generics>.+)\\])?$', hint)
    groups = match.groupdict()
    type_ = getattr(obj, groups['type']) if groups['hint_obj'] else eval(groups['type'])
    if groups['generics']:
        generics = groups['generics'].split(',')
        if all((g.count('[') == g.count(']') for g in generics)):
            sub = [parse_hint(obj, h, hint_obj) for h in generics]
        else:
            sub = [parse_hint(obj, groups['generics'], hint_obj)]
    else:
        sub = []
    return Tree(type_, sub)


@spec("core.py", "get_args_dict")
def _(func, args, kwargs):
    while hasattr(func, '__wrapped__'):
        func = func.__wrapped__
    args_names = func.__code__.co_varnames[inspect.ismethod(func):func.__code__.co_argcount]
    return {**dict(zip(args_names, args)), **kwargs}


@spec("core.py", "cast_needed")
def _(src_hintree, dst_hintree):
    src_type = src_hintree.type
    dst_type = dst_hintree.type
    if src_type != dst_type and (src_type, dst_type) in cast_dict:
        return True
    else:
        src_sub_hintrees = src_hintree.sub
        dst_sub_hintrees = dst_hintree.sub
        return any((cast_needed(src_sub_hintrees[i], dst_sub_hintrees[i]) for i in range(len(src_sub_hintrees))))


@spec("core.py", "cast")
def _(obj, src_hintree, dst_hintree):
    if cast_needed(src_hintree, dst_hintree):
        cast_pair = (src_hintree.type, dst_hintree.type)
        return cast_dict.get(cast_pair, default_cast)(obj, src_hintree.sub, dst_hintree.sub)
    else:
        return obj


@spec("core.py", "autocast")
def _(func, src, dst, hint_obj='D'):
    hints = func.__annotations__
    cast_args = []
    src_hintrees = {}
    dst_hintrees = {}
    for arg, hint in hints.items():
        if re.search(f'(?<=\\b{hint_obj}\\.)\\w+', hint):
            formatted_hint = re.sub('\\s+', '', hint)
            src_hintrees[arg] = parse_hint(src, formatted_hint, hint_obj)
            dst_hintrees[arg] = parse_hint(dst, formatted_hint, hint_obj)
            if cast_needed(src_hintrees[arg], dst_hintrees[arg]):
                cast_args.append(arg)

    @functools.wraps(func)
    def wrapper_autocast(*args, **kwargs):
        args_dict = get_args_dict(func, args, kwargs)
        cast_args_dict = {k: cast(v, dst_hintrees[k], src_hintrees[k]) if k in cast_args else v for k, v in args_dict.items()}
        result = func(**cast_args_dict)
        return cast(result, src_hintrees['return'], dst_hintrees['return']) if 'return' in cast_args else result
    return wrapper_autocast if len(cast_args) > 0 else func


@spec("core.py", "autocast_all")
def _(obj, src, dst):
    for name, f in inspect.getmembers(obj, lambda x: inspect.isfunction(x) or inspect.ismethod(x)):
        if getattr(f, '_autocastable', None):
            setattr(obj, name, autocast(f, src, dst))


@spec("core.py", "autocastable")
def _(func):
    func._autocastable = True
    return func
