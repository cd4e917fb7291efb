# C20: policy representations


@spec("hub/solver/cgp/cgp.py", "change_interval")
def _(x, inmin, inmax, outmin, outmax):
    if inmin == -np.inf:
        inmin = -1
    if inmax == np.inf:
        inmax = 1
    x = max(inmin, min(inmax, x))
    x = (x - inmin) / (inmax - inmin)
    return x * (outmax - outmin) + outmin


@spec("hub/solver/cgp/cgp.py", "change_float_to_int_interval")
def _(x, inmin, inmax, outdiscmin, outdiscmax):
    x = change_interval(x, inmin, inmax, 0, 1)
    if x == 1:
        return outdiscmax
    else:
        return int(x * (outdiscmax - outdiscmin + 1) + outdiscmin)


@spec("hub/solver/cgp/cgp.py", "flatten")
def _(c):
    for x in c:
        if isinstance(x, str) or not isinstance(x, Iterable):
            yield x
        else:
            yield from flatten(x)


@spec("hub/solver/cgp/cgp.py", "norm_and_flatten")
def _(vals, types):
    if not isinstance(types, Iterable) and (not isinstance(types, gym.spaces.Tuple)):
        types = [types]
    if not isinstance(vals, Iterable) and (not isinstance(vals, gym.spaces.Tuple)):
        vals = [vals]
    flat_vals = list(flatten(vals))
    index = 0
    for i in range(len(types)):
        t = types[i]
        if isinstance(t, gym.spaces.Box):
            lows = list(flatten(t.low))
            highs = list(flatten(t.high))
            for j in range(len(lows)):
                flat_vals[index] = change_interval(flat_vals[index], lows[j], highs[j], -1, 1)
                index += 1
        elif isinstance(t, gym.spaces.Discrete):
            flat_vals[index] = change_interval(flat_vals[index], 0, t.n - 1, -1, 1)
            index += 1
        else:
            raise ValueError('Unsupported type ', str(t))
    return flat_vals


@spec("hub/solver/cgp/cgp.py", "norm")
def _(vals, types):
    temp_vals = list(vals)
    temp_types = types
    if not isinstance(types, gym.spaces.Tuple):
        temp_types = [types]
        temp_vals = [temp_vals]
    for i in range(len(temp_types)):
        t = temp_types[i]
        if isinstance(t, gym.spaces.Box):
            lows = list(flatten(t.low))
            highs = list(flatten(t.high))
            for j in range(len(lows)):
                temp_vals[i][j] = change_interval(temp_vals[i][j], lows[j], highs[j], -1, 1)
        elif isinstance(t, gym.spaces.Discrete):
            temp_vals[i] = change_interval(temp_vals[i], 0, t.n - 1, -1, 1)
        else:
            raise ValueError('Unsupported type ', str(t))
    if not isinstance(types, gym.spaces.Tuple):
        temp_vals = temp_vals[0]
    return temp_vals


@spec("hub/solver/cgp/cgp.py", "denorm")
def _(vals, types):
    if not isinstance(types, Iterable) and (not isinstance(types, gym.spaces.Tuple)):
        types = [types]
    if not isinstance(vals, Iterable) and (not isinstance(vals, gym.spaces.Tuple)):
        vals = [vals]
    out = []
    index = 0
    for i in range(len(types)):
        t = types[i]
        if isinstance(t, gym.spaces.Box):
            out_temp = []
            for j in range(len(t.low)):
                out_temp += [change_interval(vals[index], -1, 1, t.low[j], t.high[j])]
                index += 1
            out += out_temp
        elif isinstance(t, gym.spaces.Discrete):
            out += [change_float_to_int_interval(vals[index], -1, 1, 0, t.n - 1)]
            index += 1
        else:
            raise ValueError('Unsupported type ', str(t))
    if len(types) == 1 and (not isinstance(types[0], gym.spaces.Box)):
        return out[0]
    else:
        return out


@spec("hub/solver/cgp/cgp.py", "CGPWrapper.__init__")
def _(self, folder_name, library=None, col=100, row=1, nb_ind=4, mutation_rate_nodes=0.1, mutation_rate_outputs=0.3, n_cpus=1, n_it=1000000, genome=None, verbose=True):
    if library is None:
        library = self._get_default_function_lib()
    self._library = library
    self._folder_name = folder_name
    self._col = col
    self._row = row
    self._nb_ind = nb_ind
    self._mutation_rate_nodes = mutation_rate_nodes
    self._mutation_rate_outputs = mutation_rate_outputs
    self._n_cpus = n_cpus
    self._n_it = n_it
    self._genome = genome
    self._verbose = verbose


@spec("hub/solver/cgp/cgp.py", "CGPWrapper._check_domain_additional")
def _(cls, domain):
    action_space = domain.get_action_space().unwrapped()
    observation_space = domain.get_observation_space().unwrapped()
    if not isinstance(action_space, Iterable) and (not isinstance(action_space, gym.spaces.Tuple)):
        action_space = [action_space]
    if not isinstance(observation_space, Iterable) and (not isinstance(observation_space, gym.spaces.Tuple)):
        observation_space = [observation_space]
    flat_action_space = list(flatten(action_space))
    flat_observation_space = list(flatten(observation_space))
    valide_action_space = True
    for x in flat_action_space:
        valide_action_space = valide_action_space and isinstance(x, (gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
    validate_observation_space = True
    for x in flat_observation_space:
        validate_observation_space = validate_observation_space and isinstance(x, (gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
    return valide_action_space and validate_observation_space


@spec("hub/solver/cgp/cgp.py", "CGPWrapper._solve_domain")
def _(self, domain_factory):
    domain = domain_factory()
    evaluator = SkDecideEvaluator(domain)
    if self._genome is None:
        a = domain.get_action_space().sample()
        b = domain.get_observation_space().sample()
        if isinstance(a, Iterable) or isinstance(a, gym.spaces.Tuple):
            num_outputs = len(a)
        else:
            num_outputs = 1
        if isinstance(b, Iterable) or isinstance(b, gym.spaces.Tuple):
            num_inputs = len(b)
        else:
            num_inputs = 1
        cgpFather = CGP.random(num_inputs, num_outputs, self._col, self._row, self._library, 1.0)
    else:
        cgpFather = CGP.load_from_file(self._genome, self._library)
    if self._verbose:
        pass
    es = CGPES(self._nb_ind, self._mutation_rate_nodes, self._mutation_rate_outputs, cgpFather, evaluator, self._folder_name, self._n_cpus)
    es.run(self._n_it)
    self._domain = domain
    self._es = es
    self._evaluator = evaluator


@spec("hub/solver/cgp/cgp.py", "CGPWrapper._get_next_action")
def _(self, observation):
    return denorm(self._es.father.run(norm_and_flatten(observation, self._domain.get_observation_space().unwrapped())), self._domain.get_action_space().unwrapped())


@spec("hub/solver/cgp/cgp.py", "CGPWrapper._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/cgp/cgp.py", "CGPWrapper._get_default_function_lib")
def _(self):
    return [CGP.CGPFunc(f_sum, 'sum', 2), CGP.CGPFunc(f_aminus, 'aminus', 2), CGP.CGPFunc(f_mult, 'mult', 2), CGP.CGPFunc(f_exp, 'exp', 2), CGP.CGPFunc(f_abs, 'abs', 1), CGP.CGPFunc(f_sqrt, 'sqrt', 1), CGP.CGPFunc(f_sqrtxy, 'sqrtxy', 2), CGP.CGPFunc(f_squared, 'squared', 1), CGP.CGPFunc(f_pow, 'pow', 2), CGP.CGPFunc(f_one, 'one', 0), CGP.CGPFunc(f_zero, 'zero', 0), CGP.CGPFunc(f_inv, 'inv', 1), CGP.CGPFunc(f_gt, 'gt', 2), CGP.CGPFunc(f_asin, 'asin', 1), CGP.CGPFunc(f_acos, 'acos', 1), CGP.CGPFunc(f_atan, 'atan', 1), CGP.CGPFunc(f_min, 'min', 2), CGP.CGPFunc(f_max, 'max', 2), CGP.CGPFunc(f_round, 'round', 1), CGP.CGPFunc(f_floor, 'floor', 1), CGP.CGPFunc(f_ceil, 'ceil', 1)]


@spec("hub/solver/cgp/cgp.py", "SkDecideEvaluator.__init__")
def _(self, domain, it_max=10000, ep_max=1):
    super().__init__()
    self.it_max = it_max
    self.ep_max = ep_max
    self.domain = domain


@spec("hub/solver/cgp/cgp.py", "SkDecideEvaluator.evaluate")
def _(self, cgp, it, verbose=False):
    fitnesses = np.zeros(self.ep_max)
    for e in range(self.ep_max):
        end = False
        fit = 0
        states = self.domain.reset()
        step = 0
        while not end and step < self.it_max:
            actions = denorm(cgp.run(norm_and_flatten(states, self.domain.get_observation_space().unwrapped())), self.domain.get_action_space().unwrapped())
            outcome = self.domain.step(actions)
            states, end = (outcome.observation, outcome.termination)
            reward = outcome.value.reward
            if verbose:
                pass
            fit += reward
            step += 1
        fitnesses[e] = fit
    np.sort(fitnesses)
    fit = 0
    sum_e = 0
    for e in range(self.ep_max):
        fit += fitnesses[e] * (e + 1)
        sum_e += e + 1
    return fit / sum_e


@spec("hub/solver/cgp/cgp.py", "SkDecideEvaluator.clone")
def _(self):
    return SkDecideEvaluator(self.domain, self.it_max, self.ep_max)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.__init__")
def _(self, genome, num_inputs, num_outputs, num_cols, num_rows, library, recurrency_distance=1.0):
    self.genome = genome.copy()
    self.num_inputs = num_inputs
    self.num_outputs = num_outputs
    self.num_cols = num_cols
    self.num_rows = num_rows
    self.max_graph_length = num_cols * num_rows
    self.library = library
    self.max_arity = 0
    self.recurrency_distance = recurrency_distance
    for f in self.library:
        self.max_arity = np.maximum(self.max_arity, f.arity)
    self.graph_created = False


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.create_graph")
def _(self):
    self.to_evaluate = np.zeros(self.max_graph_length, dtype=bool)
    self.node_output = np.zeros(self.max_graph_length + self.num_inputs, dtype=np.float64)
    self.nodes_used = []
    self.output_genes = np.zeros(self.num_outputs, dtype=int)
    self.nodes = np.empty(0, dtype=self.CGPNode)
    for i in range(0, self.num_outputs):
        self.output_genes[i] = self.genome[len(self.genome) - self.num_outputs + i]
    i = 0
    while i < len(self.genome) - self.num_outputs:
        f = self.genome[i]
        args = np.empty(0, dtype=int)
        for j in range(self.max_arity):
            args = np.append(args, self.genome[i + j + 1])
        i += self.max_arity + 1
        self.nodes = np.append(self.nodes, self.CGPNode(args, f))
    self.node_to_evaluate()
    self.graph_created = True


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.node_to_evaluate")
def _(self):
    p = 0
    while p < self.num_outputs:
        if self.output_genes[p] - self.num_inputs >= 0:
            self.to_evaluate[self.output_genes[p] - self.num_inputs] = True
        p = p + 1
    p = self.max_graph_length - 1
    while p >= 0:
        if self.to_evaluate[p]:
            for i in range(0, len(self.nodes[p].args)):
                arg = self.nodes[p].args[i]
                if arg - self.num_inputs >= 0:
                    self.to_evaluate[arg - self.num_inputs] = True
            self.nodes_used.append(p)
        p = p - 1
    self.nodes_used = np.array(self.nodes_used)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.load_input_data")
def _(self, input_data):
    for p in range(self.num_inputs):
        self.node_output[p] = input_data[p]


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.compute_graph")
def _(self):
    self.node_output_old = self.node_output.copy()
    p = len(self.nodes_used) - 1
    while p >= 0:
        args = np.zeros(self.max_arity)
        for i in range(0, self.max_arity):
            args[i] = self.node_output_old[self.nodes[self.nodes_used[p]].args[i]]
        f = self.library[self.nodes[self.nodes_used[p]].function].function
        self.node_output[self.nodes_used[p] + self.num_inputs] = f(args)
        if self.node_output[self.nodes_used[p] + self.num_inputs] != self.node_output[self.nodes_used[p] + self.num_inputs]:
            pass
        if self.node_output[self.nodes_used[p] + self.num_inputs] < -1.0 or self.node_output[self.nodes_used[p] + self.num_inputs] > 1.0:
            pass
        p = p - 1


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.run")
def _(self, inputData):
    if not self.graph_created:
        self.create_graph()
    self.load_input_data(inputData)
    self.compute_graph()
    return self.read_output()


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.read_output")
def _(self):
    output = np.zeros(self.num_outputs)
    for p in range(0, self.num_outputs):
        output[p] = self.node_output[self.output_genes[p]]
    return output


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.clone")
def _(self):
    return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.mutate")
def _(self, num_mutationss):
    for i in range(0, num_mutationss):
        index = rnd.randint(0, len(self.genome) - 1)
        if index < self.num_cols * self.num_rows * (self.max_arity + 1):
            if index % (self.max_arity + 1) == 0:
                self.genome[index] = rnd.randint(0, len(self.library) - 1)
            else:
                self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
        else:
            self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.mutate_per_gene")
def _(self, mutation_rate_nodes, mutation_rate_outputs):
    for index in range(0, len(self.genome)):
        if index < self.num_cols * self.num_rows * (self.max_arity + 1):
            if rnd.random() < mutation_rate_nodes:
                if index % (self.max_arity + 1) == 0:
                    self.genome[index] = rnd.randint(0, len(self.library) - 1)
                else:
                    self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, (self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows) * self.recurrency_distance))
        elif rnd.random() < mutation_rate_outputs:
            self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.to_dot")
def _(self, file_name, input_names, output_names):
    if not self.graph_created:
        self.create_graph()
    out = open(file_name, 'w')
    out.write('digraph cgp {\n')
    out.write('\tsize = "4,4";\n')
    self.dot_rec_visited_nodes = np.empty(1)
    for i in range(self.num_outputs):
        out.write('\t' + output_names[i] + ' [shape=oval];\n')
        self._write_dot_from_gene(output_names[i], self.output_genes[i], out, 0, input_names, output_names)
    out.write('}')
    out.close()


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP._write_dot_from_gene")
def _(self, to_name, pos, out, a, input_names, output_names):
    if pos < self.num_inputs:
        out.write('\t' + input_names[pos] + ' [shape=polygon,sides=6];\n')
        out.write('\t' + input_names[pos] + ' -> ' + to_name + ' [label="' + str(a) + '"];\n')
        self.dot_rec_visited_nodes = np.append(self.dot_rec_visited_nodes, [pos])
    else:
        pos -= self.num_inputs
        out.write('\t' + self.library[self.nodes[pos].function].name + '_' + str(pos) + ' -> ' + to_name + ' [label="' + str(a) + '"];\n')
        if pos + self.num_inputs not in self.dot_rec_visited_nodes:
            out.write('\t' + self.library[self.nodes[pos].function].name + '_' + str(pos) + ' [shape=none];\n')
            for a in range(self.library[self.nodes[pos].function].arity):
                self._write_dot_from_gene(self.library[self.nodes[pos].function].name + '_' + str(pos), self.nodes[pos].args[a], out, a, input_names, output_names)
        self.dot_rec_visited_nodes = np.append(self.dot_rec_visited_nodes, [pos + self.num_inputs])


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.to_function_string")
def _(self, input_names, output_names):
    if not self.graph_created:
        self.create_graph()
    for o in range(self.num_outputs):
        self._write_from_gene(self.output_genes[o], input_names, output_names)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP._write_from_gene")
def _(self, pos, input_names, output_names):
    if pos < self.num_inputs:
        pass
    else:
        pos -= self.num_inputs
        for a in range(self.library[self.nodes[pos].function].arity):
            self._write_from_gene(self.nodes[pos].args[a], input_names, output_names)
            if a != self.library[self.nodes[pos].function].arity - 1:
                pass


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.random")
def _(cls, num_inputs, num_outputs, num_cols, num_rows, library, recurrency_distance):
    max_arity = 0
    for f in library:
        max_arity = np.maximum(max_arity, f.arity)
    genome = np.zeros(num_cols * num_rows * (max_arity + 1) + num_outputs, dtype=int)
    gPos = 0
    for c in range(0, num_cols):
        for r in range(0, num_rows):
            genome[gPos] = rnd.randint(0, len(library) - 1)
            for a in range(max_arity):
                genome[gPos + a + 1] = rnd.randint(0, num_inputs + c * num_rows - 1)
            gPos = gPos + max_arity + 1
    for o in range(0, num_outputs):
        genome[gPos] = rnd.randint(0, num_inputs + num_cols * num_rows - 1)
        gPos = gPos + 1
    return CGP(genome, num_inputs, num_outputs, num_cols, num_rows, library, recurrency_distance)


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.save")
def _(self, file_name):
    out = open(file_name, 'w')
    out.write(str(self.num_inputs) + ' ')
    out.write(str(self.num_outputs) + ' ')
    out.write(str(self.num_cols) + ' ')
    out.write(str(self.num_rows) + '\n')
    for g in self.genome:
        out.write(str(g) + ' ')
    out.write('\n')
    for f in self.library:
        out.write(f.name + ' ')
    out.close()


@spec("hub/solver/cgp/pycgp/cgp.py", "CGP.load_from_file")
def _(cls, file_name, library):
    inp = open(file_name, 'r')
    pams = inp.readline().split()
    genes = inp.readline().split()
    funcs = inp.readline().split()
    inp.close()
    params = np.empty(0, dtype=int)
    for p in pams:
        params = np.append(params, int(p))
    genome = np.empty(0, dtype=int)
    for g in genes:
        genome = np.append(genome, int(g))
    return CGP(genome, params[0], params[1], params[2], params[3], library)


@spec("hub/solver/cgp/pycgp/cgpes.py", "CGPES.__init__")
def _(self, num_offsprings, mutation_rate_nodes, mutation_rate_outputs, father, evaluator, folder='genomes', num_cpus=1):
    self.num_offsprings = num_offsprings
    self.mutation_rate_nodes = mutation_rate_nodes
    self.mutation_rate_outputs = mutation_rate_outputs
    self.father = father
    self.evaluator = evaluator
    self.num_cpus = num_cpus
    self.folder = folder
    if self.num_cpus > 1:
        self.evaluator_pool = []
        for i in range(self.num_offsprings):
            self.evaluator_pool.append(self.evaluator.clone())


@spec("hub/solver/cgp/pycgp/cgpes.py", "CGPES.run")
def _(self, num_iteration):
    if not os.path.isdir(self.folder):
        os.mkdir(self.folder)
    self.logfile = open(self.folder + '/out.txt', 'w')
    self.current_fitness = self.evaluator.evaluate(self.father, 0)
    self.father.save(self.folder + '/cgp_genome_0_' + str(self.current_fitness) + '.txt')
    self.offsprings = np.empty(self.num_offsprings, dtype=CGP)
    self.offspring_fitnesses = np.zeros(self.num_offsprings, dtype=float)
    for self.it in range(1, num_iteration + 1):
        if self.num_cpus == 1:
            for i in range(0, self.num_offsprings):
                self.offsprings[i] = self.father.clone()
                self.offsprings[i].mutate_per_gene(self.mutation_rate_nodes, self.mutation_rate_outputs)
                self.offspring_fitnesses[i] = self.evaluator.evaluate(self.offsprings[i], self.it)
        else:
            for i in range(self.num_offsprings):
                self.offsprings[i] = self.father.clone()
                self.offsprings[i].mutate_per_gene(self.mutation_rate_nodes, self.mutation_rate_outputs)

            def offspring_eval_task(offspring_id):
                return self.evaluator_pool[offspring_id].evaluate(self.offsprings[offspring_id], self.it)
            self.offspring_fitnesses = Parallel(n_jobs=self.num_cpus)((delayed(offspring_eval_task)(i) for i in range(self.num_offsprings)))
        best_offspring = np.argmax(self.offspring_fitnesses)
        self.father_was_updated = False
        if self.offspring_fitnesses[best_offspring] >= self.current_fitness:
            self.current_fitness = self.offspring_fitnesses[best_offspring]
            self.father = self.offsprings[best_offspring]
            self.father_was_updated = True
        self.logfile.write(str(self.it) + '\t' + str(self.current_fitness) + '\t' + str(self.father_was_updated) + '\t' + str(self.offspring_fitnesses) + '\n')
        self.logfile.flush()
        if self.father_was_updated:
            self.father.save(self.folder + '/cgp_genome_' + str(self.it) + '_' + str(self.current_fitness) + '.txt')


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_sum")
def _(args):
    return 0.5 * (args[0] + args[1])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_aminus")
def _(args):
    return 0.5 * abs(args[0] - args[1])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_mult")
def _(args):
    return args[0] * args[1]


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_exp")
def _(args):
    return (np.exp(args[0]) - 1.0) / (np.exp(1.0) - 1.0)


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_abs")
def _(args):
    return abs(args[0])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_sqrt")
def _(args):
    return np.sqrt(abs(args[0]))


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_sqrtxy")
def _(args):
    return np.sqrt(args[0] * args[0] + args[1] * args[1]) / np.sqrt(2.0)


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_squared")
def _(args):
    return args[0] * args[0]


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_pow")
def _(args):
    return pow(abs(args[0]), abs(args[1]))


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_one")
def _(args):
    return 1.0


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_zero")
def _(args):
    return 0.0


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_inv")
def _(args):
    if args[0] != 0.0:
        return args[0] / abs(args[0])
    else:
        return 0.0


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_gt")
def _(args):
    return float(args[0] > args[1])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_acos")
def _(args):
    return math.acos(args[0]) / np.pi


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_asin")
def _(args):
    return 2.0 * math.asin(args[0]) / np.pi


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_atan")
def _(args):
    return 4.0 * math.atan(args[0]) / np.pi


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_min")
def _(args):
    return np.min(args)


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_max")
def _(args):
    return np.max(args)


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_round")
def _(args):
    return round(args[0])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_floor")
def _(args):
    return math.floor(args[0])


@spec("hub/solver/cgp/pycgp/cgpfunctions.py", "f_ceil")
def _(args):
    return math.ceil(args[0])


@spec("hub/solver/ars/ars.py", "Normalizer.__init__")
def _(self, nb_inputs):
    self.n = np.zeros(nb_inputs)
    self.mean = np.zeros(nb_inputs)
    self.mean_diff = np.zeros(nb_inputs)
    self.var = np.zeros(nb_inputs)


@spec("hub/solver/ars/ars.py", "Normalizer.observe")
def _(self, x):
    self.n += 1.0
    last_mean = self.mean.copy()
    self.mean += (x - self.mean) / self.n
    self.mean_diff += (x - last_mean) * (x - self.mean)
    self.var = (self.mean_diff / self.n).clip(min=0.01)


@spec("hub/solver/ars/ars.py", "Normalizer.normalize")
def _(self, inputs):
    if self.n[0] <= 1:
        return inputs
    obs_mean = self.mean
    obs_std = np.sqrt(self.var)
    return (inputs - obs_mean) / obs_std


@spec("hub/solver/ars/ars.py", "flatten")
def _(c):
    for x in c:
        if isinstance(x, str) or not isinstance(x, Iterable):
            yield x
        else:
            yield from flatten(x)


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.__init__")
def _(self, n_epochs=1000, epoch_size=1000, directions=10, top_directions=3, learning_rate=0.02, policy_noise=0.03, reward_maximization=True):
    self.env = None
    self.n_epochs = n_epochs
    self.learning_rate = learning_rate
    self.epoch_size = epoch_size
    self.directions = directions
    self.top_directions = top_directions
    self.policy = None
    self.policy_noise = policy_noise
    self.reward_maximization = reward_maximization
    assert self.top_directions <= self.directions


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.evaluate_policy")
def _(self, state, delta=None, direction=None):
    if direction is None:
        return self.policy.dot(state)
    elif direction == 'positive':
        return (self.policy + self.policy_noise * delta).dot(state)
    else:
        return (self.policy - self.policy_noise * delta).dot(state)


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.explore")
def _(self, normalizer, direction=None, delta=None):
    state = self.env.reset()
    done = False
    num_plays = 0.0
    sum_rewards = 0
    while not done and num_plays < self.epoch_size:
        state = cgp.norm_and_flatten(state, self.env.get_observation_space().unwrapped())
        action = self.evaluate_policy(state, delta, direction)
        action = cgp.denorm(action, self.env.get_action_space().unwrapped())
        state, transition_value, done, _ = self.env.step(action).astuple()
        reward = transition_value[0]
        reward = max(min(reward, 1), -1)
        if not np.isnan(reward):
            sum_rewards += reward
        num_plays += 1
    return sum_rewards


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.update_policy")
def _(self, rollouts, sigma_r):
    step = np.zeros(self.policy.shape)
    for r_pos, r_neg, d in rollouts:
        step += (r_pos - r_neg) * d
    if self.top_directions == 0 or sigma_r == 0:
        return
    self.policy += self.learning_rate / (self.top_directions * sigma_r) * step


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.get_dimension_space")
def _(self, space):
    if isinstance(space, gym.spaces.Tuple):
        dim = 0
        for element in space:
            dim += self.get_dimension_space(element)
        return dim
    elif isinstance(space, gym.spaces.Discrete):
        return 1
    else:
        return space.shape[0]


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch.generate_perturbations")
def _(self, space):
    if isinstance(space, gym.spaces.Tuple):
        perturbations = []
        for element in space:
            perturbations += self.generate_perturbations(element)
        return perturbations
    if isinstance(space, gym.spaces.Discrete):
        return 2 * np.random.random_integers(space.n) / space.n - 1
    else:
        return 2 * np.random.random_sample() - 1


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch._solve_domain")
def _(self, domain_factory):
    self.env = domain_factory()
    np.random.seed(0)
    input_size = self.get_dimension_space(self.env.get_observation_space().unwrapped())
    output_size = self.get_dimension_space(self.env.get_action_space().unwrapped())
    self.policy = np.zeros((output_size, input_size))
    normalizer = Normalizer(input_size)
    for step in range(self.n_epochs):
        deltas = [2 * np.random.random_sample(self.policy.shape) - 1 for _ in range(self.directions)]
        positive_rewards = [0] * self.directions
        negative_rewards = [0] * self.directions
        for k in range(self.directions):
            positive_rewards[k] = self.explore(normalizer, direction='positive', delta=deltas[k])
        for k in range(self.directions):
            negative_rewards[k] = self.explore(normalizer, direction='negative', delta=deltas[k])
        all_rewards = np.array(positive_rewards + negative_rewards)
        sigma_r = all_rewards.std()
        scores = {k: max(r_pos, r_neg) for k, (r_pos, r_neg) in enumerate(zip(positive_rewards, negative_rewards))}
        order = sorted(scores.keys(), key=lambda x: scores[x], reverse=self.reward_maximization)[:self.top_directions]
        rollouts = [(positive_rewards[k], negative_rewards[k], deltas[k]) for k in order]
        self.update_policy(rollouts, sigma_r)
        reward_evaluation = self.explore(normalizer)


@spec("hub/solver/ars/ars.py", "AugmentedRandomSearch._sample_action")
def _(self, observation):
    action = self.policy.dot(cgp.norm_and_flatten(observation, self.env.get_observation_space().unwrapped()))
    action = cgp.denorm(action, self.env.get_action_space().unwrapped())
    return action


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.expert_feature_expectations")
def _(self, demonstrations):
    feature_expectations = np.zeros(self.feature_matrix.shape[0])
    for demonstration in demonstrations:
        for state_index, _, _ in demonstration:
            feature_expectations += self.feature_matrix[int(state_index)]
    feature_expectations /= demonstrations.shape[0]
    return feature_expectations


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.state_to_index")
def _(self, observation_space, state):
    env_low = observation_space.low
    env_high = observation_space.high
    env_distance = (env_high - env_low) / self.one_feature
    position_idx = int((state[0] - env_low[0]) / env_distance[0])
    velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
    state_index = position_idx + velocity_idx * self.one_feature
    return state_index


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.index_to_state")
def _(self, observation_space, state):
    env_low = observation_space.low
    env_high = observation_space.high
    env_distance = (env_high - env_low) / self.one_feature
    position_idx = int((state[0] - env_low[0]) / env_distance[0])
    velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
    state_idx = position_idx + velocity_idx * self.one_feature
    return state_idx


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.gradient_vector")
def _(self, expert, learner, theta):
    gradient = expert - learner
    theta += self.theta_learning_rate * gradient
    for j in range(len(theta)):
        if theta[j] > 0:
            theta[j] = 0


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.adapt_action_to_environment")
def _(self, vals, types):
    if not isinstance(types, Iterable) and (not isinstance(types, gym.spaces.Tuple)):
        types = [types]
    if not isinstance(vals, Iterable) and (not isinstance(vals, gym.spaces.Tuple)):
        vals = [vals]
    out = []
    index = 0
    for i in range(len(types)):
        t = types[i]
        if isinstance(t, gym.spaces.Box):
            out_temp = []
            for j in range(len(t.low)):
                out_temp += [cgp.change_interval(vals[index], -1, 1, t.low[j], t.high[j])]
                index += 1
            out += [out_temp]
        elif isinstance(t, gym.spaces.Discrete):
            out += [vals[index] % t.n]
            index += 1
        else:
            raise ValueError('Unsupported type ', str(t))
    if len(types) == 1:
        return out[0]
    else:
        return out


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.update_q_table")
def _(self, state, action, reward, next_state):
    q_1 = self.q_table[state][action]
    q_2 = reward + self.gamma * max(self.q_table[next_state])
    self.q_table[state][action] += self.q_learning_rate * (q_2 - q_1)


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL._sample_action")
def _(self, observation):
    state_idx = self.index_to_state(self.env.get_observation_space().unwrapped(), observation)
    action = np.argmax(self.q_table[state_idx])
    return self.adapt_action_to_environment(action, self.env.get_action_space().unwrapped())

@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL.__init__")
def _(self, n_states=400, n_actions=3, one_feature=20, gamma=0.99, q_learning_rate=0.03, theta_learning_rate=0.05, n_epochs=20000, expert_trajectories='maxent_expert_demo.npy'):
    self.n_states = n_states
    self.feature_matrix = np.eye(self.n_states)
    self.n_actions = n_actions
    self.one_feature = one_feature
    self.q_table = np.zeros((n_states, n_actions))
    self.env = None
    self.state = None
    self.n_epochs = n_epochs
    self.gamma = gamma
    self.q_learning_rate = q_learning_rate
    self.theta_learning_rate = theta_learning_rate
    self.expert_trajectories = expert_trajectories
    self.score = 0
    if os.path.isfile(expert_trajectories[:-4] + '_maxent_q_table.npy'):
        self.q_table = np.load(file=expert_trajectories[:-4] + '_maxent_q_table.npy')
    else:
        self.q_table = None


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL._solve_domain")
def _(self, domain_factory):
    self.env = domain_factory()
    if self.q_table is not None:
        return
    self.q_table = np.zeros((self.n_states, self.n_actions))
    if not os.path.isfile(self.expert_trajectories):
        return
    if not isinstance(self.env.get_action_space().unwrapped(), gym.spaces.Discrete):
        pass
    raw_demo = np.load(file=self.expert_trajectories)
    demonstrations = np.zeros((raw_demo.shape[0], raw_demo.shape[1], raw_demo.shape[2]))
    env_low = self.env.get_observation_space().unwrapped().low
    env_high = self.env.get_observation_space().unwrapped().high
    env_distance = (env_high - env_low) / self.one_feature
    for x in range(len(raw_demo)):
        for y in range(len(raw_demo[0])):
            position_idx = int((raw_demo[x][y][0] - env_low[0]) / env_distance[0])
            velocity_idx = int((raw_demo[x][y][1] - env_low[1]) / env_distance[1])
            state_index = position_idx + velocity_idx * self.one_feature
            demonstrations[x][y][0] = state_index
            demonstrations[x][y][1] = raw_demo[x][y][2]
    np.random.seed(1)
    expert = self.expert_feature_expectations(demonstrations)
    learner_feature_expectations = np.zeros(self.n_states)
    theta = -np.random.uniform(size=(self.n_states,))
    episodes, scores = ([], [])
    for episode in range(self.n_epochs):
        state = self.env.reset()
        score = 0
        if episode != 0 and episode == 10000 or (episode > 10000 and episode % 5000 == 0):
            learner = learner_feature_expectations / episode
            self.gradient_vector(expert, learner, theta)
        while True:
            state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), state)
            action = np.argmax(self.q_table[state_index])
            next_state, transition_value, done, _ = self.env.step(action).astuple()
            reward = transition_value[0]
            irl_rewards = self.feature_matrix.dot(theta).reshape((self.n_states,))
            irl_reward = irl_rewards[state_index]
            next_state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), next_state)
            q_1 = self.q_table[state_index][action]
            q_2 = irl_reward + self.gamma * max(self.q_table[next_state_index])
            self.q_table[state_index][action] += self.q_learning_rate * (q_2 - q_1)
            learner_feature_expectations += self.feature_matrix[int(state_index)]
            score += reward
            state = next_state
            if done:
                scores.append(score)
                episodes.append(episode)
                break
        if episode % 1000 == 0:
            score_avg = np.mean(scores)
            pylab.plot(episodes, scores, 'b')
            pylab.savefig('./maxent.png')
            np.save('./' + self.expert_trajectories[:-4] + '_maxent_q_table', arr=self.q_table)
    self.q_table = np.load(file=self.expert_trajectories[:-4] + '_maxent_q_table.npy')


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL._reset")
def _(self):
    self.state = self.env.reset()
    self.score = 0


@spec("hub/solver/maxent_irl/maxent_irl.py", "MaxentIRL._is_policy_defined_for")
def _(self, observation):
    return True
