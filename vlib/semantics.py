"""
Semantics specifications for grammar rules, as data: how to build the rule's Python function from one, and the reference
meaning of one (with unique variables).

element (in a list):  atom tuple | ('$splice', k) | ('$apply', k, [elements]) | '$body'
term (in an atom):    '?V' | '!V' | constant | [elements] | ('$val', k) | ('$mix', [terms])
spec:                 [elements]  (a template when the category is one) | ('$same', k)
k counts the children that have semantics (categories and regular expressions).
"""
from vlib.lang import is_var


def build(spec, children):
    """The spec as the library's terms, given the children's semantics"""
    from richard.core.constants import Body
    from richard.entity.ReifiedVariable import ReifiedVariable
    from richard.entity.Variable import Variable
    from richard.processor.parser.helper.grammar_functions import apply

    def elements(items):
        out = []
        for e in items:
            if e == '$body':
                out.extend(Body)       # Body is a list with a marker in it
            elif e[0] == '$splice':
                out.extend(children[e[1]])
            elif e[0] == '$apply':
                out.extend(apply(children[e[1]], elements(e[2])))
            else:
                out.append(atom(e))
        return out

    def atom(e):
        return tuple(term(t) for t in e)

    def term(t):
        if isinstance(t, list):
            return elements(t)
        if isinstance(t, tuple):
            if t[0] == '$mix':
                return [term(x) for x in t[1]]
            return children[t[1]] if t[0] == '$val' else atom(t)
        if is_var(t):
            return Variable(t[1:])
        if isinstance(t, str) and t[:1] == '!':
            return ReifiedVariable(t[1:])
        return t

    return elements(spec)


def function(spec, template=False):
    """the rule's sem / exec / dialog function"""
    from richard.core.constants import Body
    from richard.type.SemanticTemplate import SemanticTemplate

    def fn(*children):
        if isinstance(spec, tuple):
            return children[spec[1]]
        body = build(spec, children)
        return SemanticTemplate([Body], body) if template else body
    return fn


class RefVar:
    """a variable of the whole sentence, in the reference"""
    def __init__(self, hint):
        self.hint = hint

    def __repr__(self):
        return f"<{self.hint}.{id(self) % 9973}>"


class RefName:
    """the name of a variable"""
    def __init__(self, var):
        self.var = var

    def __repr__(self):
        return f"name{self.var}"


BODY = object()


def resolve(spec, scope, children):
    """The spec's meaning: scope maps formal names to RefVars and is extended on demand; children are resolved already"""
    def var(name):
        if name not in scope:
            scope[name] = RefVar(name)
        return scope[name]

    def elements(items):
        out = []
        for e in items:
            if e == '$body':
                out.append(BODY)
            elif e[0] == '$splice':
                out.extend(children[e[1]])
            elif e[0] == '$apply':
                out.extend(put(children[e[1]], elements(e[2])))
            else:
                out.append(atom(e))
        return out

    def atom(e):
        return tuple(term(t) for t in e)

    def term(t):
        if isinstance(t, list):
            return elements(t)
        if isinstance(t, tuple):
            if t[0] == '$mix':
                return [term(x) for x in t[1]]
            return children[t[1]] if t[0] == '$val' else atom(t)
        if is_var(t):
            return var(t[1:])
        if isinstance(t, str) and t[:1] == '!':
            return RefName(var(t[1:]))
        return t

    if isinstance(spec, tuple):
        return children[spec[1]]
    return elements(spec)


def put(body, atoms):
    """replace BODY in a template body"""
    if isinstance(body, list):
        out = []
        for x in body:
            if x is BODY:
                out.extend(atoms)
            else:
                out.append(put(x, atoms))
        return out
    if isinstance(body, tuple):
        return tuple(put(x, atoms) for x in body)
    return body


class Renaming:
    """A one-to-one correspondence between reference variables and variable names found in the library's output"""
    def __init__(self):
        self.names = {}
        self.vars = {}

    def pair(self, var, name):
        if self.names.setdefault(var, name) != name:
            return f"variable {var} appears as {self.names[var]} and as {name}"
        if self.vars.setdefault(name, var) is not var:
            return f"{name} stands for both {self.vars[name]} and {var}"
        return None

    def match(self, ref, actual):
        """None when equal up to renaming, otherwise a description of the difference"""
        from richard.entity.Variable import Variable
        if isinstance(ref, RefVar):
            if not isinstance(actual, Variable):
                return f"expected a variable for {ref}, found {actual!r}"
            return self.pair(ref, actual.name)
        if isinstance(ref, RefName):
            if not isinstance(actual, str):
                return f"expected the name of a variable, found {actual!r}"
            return self.pair(ref.var, actual)
        if isinstance(ref, (list, tuple)):
            if type(actual) is not type(ref) or len(actual) != len(ref):
                return f"expected {ref!r}, found {actual!r}"
            for r, a in zip(ref, actual):
                problem = self.match(r, a)
                if problem:
                    return problem
            return None
        if type(ref) is not type(actual) or ref != actual:
            return f"expected {ref!r}, found {actual!r}"
        return None
