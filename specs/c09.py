# C09: constraints


@spec("core.py", "Constraint.is_constraint_dependent_on_next_state")
def _(self):
    return self._is_constraint_dependent_on_next_state_()


@spec("core.py", "ImplicitConstraint.__init__")
def _(self, check_function, depends_on_next_state=True):
    self._check_function = check_function
    self._depends_on_next_state = depends_on_next_state


@spec("core.py", "ImplicitConstraint.check")
def _(self, memory, action, next_state=None):
    return self._check_function(memory, action, next_state)


@spec("core.py", "ImplicitConstraint._is_constraint_dependent_on_next_state_")
def _(self):
    return self._depends_on_next_state


@spec("core.py", "BoundConstraint.__init__")
def _(self, evaluate_function, inequality, bound, depends_on_next_state=True):
    self._evaluate_function = evaluate_function
    self._inequality = inequality
    self._bound = bound
    self._depends_on_next_state = depends_on_next_state
    assert inequality in ['<', '<=', '>', '>=']
    inequality_functions = {'<': lambda val, bnd: val < bnd, '<=': lambda val, bnd: val <= bnd, '>': lambda val, bnd: val > bnd, '>=': lambda val, bnd: val >= bnd}
    self._check_function = inequality_functions[inequality]


@spec("core.py", "BoundConstraint.check")
def _(self, memory, action, next_state=None):
    return self._check_function(self.evaluate(memory, action, next_state), self._bound)


@spec("core.py", "BoundConstraint._is_constraint_dependent_on_next_state_")
def _(self):
    return self._depends_on_next_state


@spec("core.py", "BoundConstraint.evaluate")
def _(self, memory, action, next_state=None):
    return self._evaluate_function(memory, action, next_state)


@spec("core.py", "BoundConstraint.get_inequality")
def _(self):
    return self._inequality


@spec("core.py", "BoundConstraint.get_bound")
def _(self):
    return self._bound
