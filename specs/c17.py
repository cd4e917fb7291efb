# C17: pairing of gym and scikit-decide spaces


@spec("hub/space/gym/gym.py", "GymSpace.__init__")
def _(self, gym_space):
    super().__init__()
    self._gym_space = gym_space
    self.shape = gym_space.shape
    self.dtype = gym_space.dtype


@spec("hub/space/gym/gym.py", "GymSpace.contains")
def _(self, x):
    return self._gym_space.contains(x)


@spec("hub/space/gym/gym.py", "GymSpace.sample")
def _(self):
    return self._gym_space.sample()


@spec("hub/space/gym/gym.py", "GymSpace.to_jsonable")
def _(self, sample_n):
    return self._gym_space.to_jsonable(sample_n)


@spec("hub/space/gym/gym.py", "GymSpace.from_jsonable")
def _(self, sample_n):
    return self._gym_space.from_jsonable(sample_n)


@spec("hub/space/gym/gym.py", "GymSpace.unwrapped")
def _(self):
    return self._gym_space


@spec("hub/space/gym/gym.py", "GymSpace.to_unwrapped")
def _(self, sample_n):
    return sample_n


@spec("hub/space/gym/gym.py", "GymSpace.from_unwrapped")
def _(self, sample_n):
    return sample_n


@spec("hub/space/gym/gym.py", "BoxSpace.__init__")
def _(self, low, high, shape=None, dtype=np.float32):
    super().__init__(gym_space=gym_spaces.Box(low, high, shape, dtype))


@spec("hub/space/gym/gym.py", "DiscreteSpace.__init__")
def _(self, n):
    super().__init__(gym_space=gym_spaces.Discrete(n))


@spec("hub/space/gym/gym.py", "MultiDiscreteSpace.__init__")
def _(self, nvec):
    super().__init__(gym_space=gym_spaces.MultiDiscrete(nvec))


@spec("hub/space/gym/gym.py", "MultiBinarySpace.__init__")
def _(self, n):
    super().__init__(gym_space=gym_spaces.MultiBinary(n))


@spec("hub/space/gym/gym.py", "TupleSpace.__init__")
def _(self, spaces):
    super().__init__(gym_space=gym_spaces.Tuple(spaces))


@spec("hub/space/gym/gym.py", "DictSpace.__init__")
def _(self, spaces=None, **spaces_kwargs):
    super().__init__(gym_space=gym_spaces.Dict(spaces, **spaces_kwargs))


@spec("hub/space/gym/gym.py", "EnumSpace.__init__")
def _(self, enum_class):
    self._enum_class = enum_class
    self._list_enum = list(enum_class)
    gym_space = gym_spaces.Discrete(len(enum_class))
    super().__init__(gym_space)


@spec("hub/space/gym/gym.py", "EnumSpace.contains")
def _(self, x):
    return isinstance(x, self._enum_class)


@spec("hub/space/gym/gym.py", "EnumSpace.get_elements")
def _(self):
    return self._list_enum


@spec("hub/space/gym/gym.py", "EnumSpace.sample")
def _(self):
    return self._list_enum[super().sample()]


@spec("hub/space/gym/gym.py", "EnumSpace.to_jsonable")
def _(self, sample_n):
    return [sample.name for sample in sample_n]


@spec("hub/space/gym/gym.py", "EnumSpace.from_jsonable")
def _(self, sample_n):
    return [self._enum_class[sample] for sample in sample_n]


@spec("hub/space/gym/gym.py", "EnumSpace.unwrapped")
def _(self):
    return super().unwrapped()


@spec("hub/space/gym/gym.py", "EnumSpace.to_unwrapped")
def _(self, sample_n):
    return [self._list_enum.index(sample) for sample in sample_n]


@spec("hub/space/gym/gym.py", "EnumSpace.from_unwrapped")
def _(self, sample_n):
    return [self._list_enum[sample] for sample in sample_n]


@spec("hub/space/gym/gym.py", "ListSpace.__init__")
def _(self, elements):
    self._elements = list(elements)
    gym_space = gym_spaces.Discrete(len(self._elements))
    super().__init__(gym_space)


@spec("hub/space/gym/gym.py", "ListSpace.contains")
def _(self, x):
    return x in self._elements


@spec("hub/space/gym/gym.py", "ListSpace.get_elements")
def _(self):
    return self._elements


@spec("hub/space/gym/gym.py", "ListSpace.sample")
def _(self):
    return self._elements[super().sample()]


@spec("hub/space/gym/gym.py", "ListSpace.to_jsonable")
def _(self, sample_n):
    return sample_n


@spec("hub/space/gym/gym.py", "ListSpace.from_jsonable")
def _(self, sample_n):
    return sample_n


@spec("hub/space/gym/gym.py", "ListSpace.unwrapped")
def _(self):
    return super().unwrapped()


@spec("hub/space/gym/gym.py", "ListSpace.to_unwrapped")
def _(self, sample_n):
    return [self._elements.index(sample) for sample in sample_n]


@spec("hub/space/gym/gym.py", "ListSpace.from_unwrapped")
def _(self, sample_n):
    return [self._elements[sample] for sample in sample_n]


@spec("hub/space/gym/gym.py", "DataSpace.__init__")
def _(self, data_class, spaces):
    self._data_class = data_class
    gym_space = gym_spaces.Dict(spaces)
    super().__init__(gym_space)


@spec("hub/space/gym/gym.py", "DataSpace.contains")
def _(self, x):
    return super().contains(super().from_jsonable(self.to_jsonable([x]))[0])


@spec("hub/space/gym/gym.py", "DataSpace.sample")
def _(self):
    return self._data_class(**super().sample())


@spec("hub/space/gym/gym.py", "DataSpace.to_jsonable")
def _(self, sample_n):
    dict_sample_n = self.to_unwrapped(sample_n)
    return super().to_jsonable(dict_sample_n)


@spec("hub/space/gym/gym.py", "DataSpace.from_jsonable")
def _(self, sample_n):
    dict_sample_n = super().from_jsonable(sample_n)
    return self.from_unwrapped(dict_sample_n)


@spec("hub/space/gym/gym.py", "DataSpace.unwrapped")
def _(self):
    return super().unwrapped()


@spec("hub/space/gym/gym.py", "DataSpace.to_unwrapped")
def _(self, sample_n):
    return [asdict(sample) for sample in sample_n]


@spec("hub/space/gym/gym.py", "DataSpace.from_unwrapped")
def _(self, sample_n):
    return [self._data_class(**sample) for sample in sample_n]
