"""
Cases are plain Python literals. Terms in them:  '?X' = Variable('X'),  '!X' = ReifiedVariable('X'),
tuples are atoms, lists are atom lists, everything else is a value.
"""


def to_repo(x):
    from richard.entity.Variable import Variable
    from richard.entity.ReifiedVariable import ReifiedVariable
    if isinstance(x, tuple):
        return tuple(to_repo(y) for y in x)
    if isinstance(x, list):
        return [to_repo(y) for y in x]
    if isinstance(x, str) and len(x) > 1 and x[0] == '?':
        return Variable(x[1:])
    if isinstance(x, str) and len(x) > 1 and x[0] == '!':
        return ReifiedVariable(x[1:])
    return x


def from_repo(x):
    from richard.entity.Variable import Variable
    from richard.entity.ReifiedVariable import ReifiedVariable
    if isinstance(x, tuple):
        return tuple(from_repo(y) for y in x)
    if isinstance(x, list):
        return [from_repo(y) for y in x]
    if isinstance(x, Variable):
        return '?' + x.name
    if isinstance(x, ReifiedVariable):
        return '!' + x.name
    return x


def is_var(x):
    return isinstance(x, str) and len(x) > 1 and x[0] == '?'


def variables(x, out=None):
    """all variables, in order of first occurrence"""
    out = [] if out is None else out
    if is_var(x):
        if x not in out:
            out.append(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            variables(y, out)
    return out


def freeze(x):
    """hashable, type-faithful image of a value (1, 1.0, True and '1' stay different)"""
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ('list',) + tuple(freeze(y) for y in x)
    if isinstance(x, tuple):
        return ('tuple',) + tuple(freeze(y) for y in x)
    return (type(x).__name__, x)


def subst(x, mapping):
    if is_var(x):
        return mapping.get(x, x)
    if isinstance(x, tuple):
        return tuple(subst(y, mapping) for y in x)
    if isinstance(x, list):
        return [subst(y, mapping) for y in x]
    return x
