"""Registration of the generated cases of a property."""


class Case:
    """One generated check: a name, a function of a `Gen`, and case counts."""

    def __init__(self, fn, quick, thorough=None):
        self.name = fn.__name__
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25


class Cases(list):
    """Collect cases with a decorator."""

    def add(self, quick, thorough=None):
        def register(fn):
            self.append(Case(fn, quick, thorough))
            return fn
        return register
