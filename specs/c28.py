# C28: mutations and the moves they return


@spec("builders/discrete_optimization/generic_tools/do_mutation.py", "LocalMoveDefault.__init__")
def _(self, prev_solution, new_solution):
    self.prev_solution = prev_solution
    self.new_solution = new_solution


@spec("builders/discrete_optimization/generic_tools/do_mutation.py", "LocalMoveDefault.apply_local_move")
def _(self, solution):
    return self.new_solution


@spec("builders/discrete_optimization/generic_tools/do_mutation.py", "LocalMoveDefault.backtrack_local_move")
def _(self, solution):
    return self.prev_solution


@spec("builders/discrete_optimization/generic_tools/do_mutation.py", "Mutation.build")
def _(problem, solution, **kwargs):
    return NotImplementedError('Please implement it !')


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutation.__init__")
def _(self, list_mutation, weight_mutation):
    self.list_mutation = list_mutation
    self.weight_mutation = weight_mutation
    if isinstance(self.weight_mutation, list):
        self.weight_mutation = np.array(self.weight_mutation)
    self.weight_mutation = self.weight_mutation / np.sum(self.weight_mutation)
    self.index_np = np.array(range(len(self.list_mutation)), dtype=int)


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutation.mutate")
def _(self, solution):
    choice = np.random.choice(self.index_np, size=1, p=self.weight_mutation)[0]
    return self.list_mutation[choice].mutate(solution)


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutation.mutate_and_compute_obj")
def _(self, solution):
    choice = np.random.choice(self.index_np, size=1, p=self.weight_mutation)[0]
    return self.list_mutation[choice].mutate_and_compute_obj(solution)


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutationTrack.__init__")
def _(self, list_mutation, weight_mutation):
    self.list_mutation = list_mutation
    self.weight_mutation = weight_mutation
    if isinstance(self.weight_mutation, list):
        self.weight_mutation = np.array(self.weight_mutation)
    self.weight_mutation = self.weight_mutation / np.sum(self.weight_mutation)
    self.index_np = np.array(range(len(self.list_mutation)), dtype=int)


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutationTrack.mutate")
def _(self, solution):
    choice = np.random.choice(self.index_np, size=1, p=self.weight_mutation)[0]
    return self.list_mutation[choice].mutate(solution)


@spec("builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py", "BasicPortfolioMutationTrack.mutate_and_compute_obj")
def _(self, solution):
    choice = np.random.choice(self.index_np, size=1, p=self.weight_mutation)[0]
    return self.list_mutation[choice].mutate_and_compute_obj(solution)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "BitFlipMove.__init__")
def _(self, attribute, list_index_flip):
    self.attribute = attribute
    self.list_index_flip = list_index_flip


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "BitFlipMove.apply_local_move")
def _(self, solution):
    l = getattr(solution, self.attribute)
    for index in self.list_index_flip:
        l[index] = 1 - l[index]
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "BitFlipMove.backtrack_local_move")
def _(self, solution):
    return self.apply_local_move(solution)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "MutationBitFlip.build")
def _(problem, solution, **kwargs):
    return MutationBitFlip(problem, **kwargs)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "MutationBitFlip.__init__")
def _(self, problem, attribute=None, probability_flip=0.1):
    self.problem = problem
    self.attribute = attribute
    self.probability_flip = probability_flip
    if attribute is None:
        attributes = get_attribute_for_type(self.problem, TypeAttribute.LIST_BOOLEAN)
        if len(attributes) > 0:
            self.attribute = attributes[0]
    self.length = problem.get_attribute_register().dict_attribute_to_type[self.attribute]['n']


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "MutationBitFlip.mutate")
def _(self, solution):
    indexes = np.where(np.random.random(self.length) <= self.probability_flip)
    move = BitFlipMove(self.attribute, indexes[0])
    return (move.apply_local_move(solution), move)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_bool.py", "MutationBitFlip.mutate_and_compute_obj")
def _(self, solution):
    s, move = self.mutate(solution)
    f = self.problem.evaluate(s)
    return (s, move, f)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_integer.py", "MutationIntegerSpecificArrity.build")
def _(problem, solution, **kwargs):
    return MutationIntegerSpecificArrity(problem, attribute=kwargs.get('attribute', None), arrities=kwargs.get('arrities', None), probability_flip=kwargs.get('probability_flip', 0.1))


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_integer.py", "MutationIntegerSpecificArrity.__init__")
def _(self, problem, attribute=None, arrities=None, probability_flip=0.1):
    self.problem = problem
    self.attribute = attribute
    self.arrities = arrities
    self.probability_flip = probability_flip
    if self.attribute is None:
        register = problem.get_attribute_register()
        attributes = [(k, register.dict_attribute_to_type[k]['name']) for k in register.dict_attribute_to_type for t in register.dict_attribute_to_type[k]['type'] if t == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY]
        self.attribute = attributes[0][1]
        self.arrities = register.dict_attribute_to_type[attributes[0][0]]['arrities']
    self.range_arrities = [list(range(1, self.arrities[i] + 1)) for i in range(len(self.arrities))]
    self.size = len(self.range_arrities)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_integer.py", "MutationIntegerSpecificArrity.mutate")
def _(self, solution):
    s2 = solution.copy()
    vector = getattr(s2, self.attribute)
    for k in range(self.size):
        if random.random() <= self.probability_flip:
            new_arrity = random.choice(self.range_arrities[k])
            vector[k] = new_arrity
    setattr(s2, self.attribute, vector)
    return (s2, LocalMoveDefault(solution, s2))


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_integer.py", "MutationIntegerSpecificArrity.mutate_and_compute_obj")
def _(self, solution):
    s, m = self.mutate(solution)
    obj = self.problem.evaluate(s)
    return (s, m, obj)


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_util.py", "get_attribute_for_type")
def _(problem, type_attribute):
    register = problem.get_attribute_register()
    attributes = [k for k in register.dict_attribute_to_type for t in register.dict_attribute_to_type[k]['type'] if t == type_attribute]
    return attributes


@spec("builders/discrete_optimization/generic_tools/mutations/mutation_catalog.py", "get_available_mutations")
def _(problem, solution=None, verbose=True):
    register = problem.get_attribute_register()
    present_types = set(register.get_types())
    mutations = {}
    mutations_list = []
    nb_mutations = 0
    for pr_type in present_types:
        if pr_type in dictionnary_mutation:
            mutations[pr_type] = dictionnary_mutation[pr_type]
            mutations_list += list(dictionnary_mutation[pr_type].values())
            nb_mutations += len(dictionnary_mutation[pr_type])
    if verbose:
        pass
    return (mutations, mutations_list)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "ShuffleMove.__init__")
def _(self, attribute, new_permutation, prev_permutation):
    self.attribute = attribute
    self.permutation = new_permutation
    self.prev_permutation = prev_permutation


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "ShuffleMove.apply_local_move")
def _(self, solution):
    setattr(solution, self.attribute, self.permutation)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "ShuffleMove.backtrack_local_move")
def _(self, solution):
    setattr(solution, self.attribute, self.prev_permutation)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationShuffleMutation.build")
def _(problem, solution, **kwargs):
    return PermutationShuffleMutation(problem, solution)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationShuffleMutation.__init__")
def _(self, problem, solution, attribute=None):
    self.problem = problem
    self.register = solution.get_attribute_register(problem)
    self.attribute = attribute
    if self.attribute is None:
        attributes = [k for k in self.register.dict_attribute_to_type for t in self.register.dict_attribute_to_type[k]['type'] if t == TypeAttribute.PERMUTATION]
        if len(attributes) > 0:
            self.attribute = attributes[0]
    self.range_shuffle = self.register.dict_attribute_to_type[self.attribute]['range']
    self.range_int = list(range(len(self.range_shuffle)))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationShuffleMutation.mutate")
def _(self, solution):
    previous = list(getattr(solution, self.attribute))
    random.shuffle(self.range_int)
    new = [previous[i] for i in self.range_int]
    sol = solution.lazy_copy()
    setattr(sol, self.attribute, new)
    return (sol, ShuffleMove(self.attribute, new_permutation=new, prev_permutation=previous))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationShuffleMutation.mutate_and_compute_obj")
def _(self, solution):
    sol, move = self.mutate(solution)
    obj = self.problem.evaluate(sol)
    return (sol, move, obj)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationPartialShuffleMutation.build")
def _(problem, solution, **kwargs):
    return PermutationPartialShuffleMutation(problem, solution, attribute=kwargs.get('attribute', None), proportion=kwargs.get('proportion', 0.3))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationPartialShuffleMutation.__init__")
def _(self, problem, solution, attribute=None, proportion=0.3):
    self.problem = problem
    self.register = solution.get_attribute_register(problem)
    self.attribute = attribute
    if attribute is None:
        attributes = [k for k in self.register.dict_attribute_to_type for t in self.register.dict_attribute_to_type[k]['type'] if t == TypeAttribute.PERMUTATION]
        if len(attributes) > 0:
            self.attribute = attributes[0]
    self.range_shuffle = self.register.dict_attribute_to_type[self.attribute]['range']
    self.n_to_move = int(proportion * len(self.range_shuffle))
    self.range_int = list(range(self.n_to_move))
    self.range_int_total = list(range(len(self.range_shuffle)))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationPartialShuffleMutation.mutate")
def _(self, solution):
    previous = deepcopy(getattr(solution, self.attribute))
    random.shuffle(self.range_int_total)
    int_to_move = self.range_int_total[:self.n_to_move]
    random.shuffle(self.range_int)
    new = getattr(solution, self.attribute)
    for k in range(self.n_to_move):
        new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
    sol = solution.lazy_copy()
    setattr(sol, self.attribute, new)
    return (sol, ShuffleMove(self.attribute, new, previous))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationPartialShuffleMutation.mutate_and_compute_obj")
def _(self, solution):
    sol, move = self.mutate(solution)
    obj = self.problem.evaluate(sol)
    return (sol, move, obj)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "SwapsLocalMove.__init__")
def _(self, attribute, list_index_swap):
    self.attribute = attribute
    self.list_index_swap = list_index_swap


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "SwapsLocalMove.apply_local_move")
def _(self, solution):
    current = getattr(solution, self.attribute)
    for i1, i2 in self.list_index_swap:
        v1, v2 = (current[i1], current[i2])
        current[i1], current[i2] = (v2, v1)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "SwapsLocalMove.backtrack_local_move")
def _(self, solution):
    current = getattr(solution, self.attribute)
    for i1, i2 in self.list_index_swap[::-1]:
        v1, v2 = (current[i1], current[i2])
        current[i1], current[i2] = (v2, v1)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationSwap.build")
def _(problem, solution, **kwargs):
    return PermutationSwap(problem, solution, attribute=kwargs.get('attribute', None), nb_swap=kwargs.get('nb_swap', 1))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationSwap.__init__")
def _(self, problem, solution, attribute=None, nb_swap=1):
    self.problem = problem
    self.register = solution.get_attribute_register(problem)
    self.nb_swap = nb_swap
    self.attribute = attribute
    if self.attribute is None:
        attributes = [k for k in self.register.dict_attribute_to_type for t in self.register.dict_attribute_to_type[k]['type'] if t == TypeAttribute.PERMUTATION]
        if len(attributes) > 0:
            self.attribute = attributes[0]
    self.length = len(self.register.dict_attribute_to_type[self.attribute]['range'])


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationSwap.mutate")
def _(self, solution):
    swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
    move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
    next_sol = move.apply_local_move(solution)
    return (next_sol, move)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "PermutationSwap.mutate_and_compute_obj")
def _(self, solution):
    sol, move = self.mutate(solution)
    obj = self.problem.evaluate(sol)
    return (sol, move, obj)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMove.__init__")
def _(self, attribute, index_2opt):
    self.attribute = attribute
    self.index_2opt = index_2opt


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMove.apply_local_move")
def _(self, solution):
    current = getattr(solution, self.attribute)
    for i, j in self.index_2opt:
        current = current[:i] + current[i:j + 1][::-1] + current[j + 1:]
    setattr(solution, self.attribute, current)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMove.backtrack_local_move")
def _(self, solution):
    current = getattr(solution, self.attribute)
    for i, j in self.index_2opt[::-1]:
        current = current[:i] + current[i:j + 1][::-1] + current[j + 1:]
    setattr(solution, self.attribute, current)
    return solution


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMutation.build")
def _(problem, solution, **kwargs):
    return TwoOptMutation(problem, solution, attribute=kwargs.get('attribute', None))


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMutation.__init__")
def _(self, problem, solution, attribute=None):
    self.problem = problem
    self.register = solution.get_attribute_register(problem)
    self.attribute = attribute
    if self.attribute is None:
        attributes = [k for k in self.register.dict_attribute_to_type for t in self.register.dict_attribute_to_type[k]['type'] if t == TypeAttribute.PERMUTATION]
        if len(attributes) > 0:
            self.attribute = attributes[0]
    self.length = len(self.register.dict_attribute_to_type[self.attribute]['range'])


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMutation.mutate")
def _(self, solution):
    i = random.randint(0, self.length - 2)
    j = random.randint(i + 1, self.length - 1)
    two_opt_move = TwoOptMove(self.attribute, [(i, j)])
    new_sol = two_opt_move.apply_local_move(solution)
    return (new_sol, two_opt_move)


@spec("builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py", "TwoOptMutation.mutate_and_compute_obj")
def _(self, solution):
    sol, move = self.mutate(solution)
    obj = self.problem.evaluate(sol)
    return (sol, move, obj)


