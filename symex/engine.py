"""Path-exploring symbolic executor over the real code.

A harness runs as ordinary Python over proxy values that carry (concrete shadow, symbolic
expression).  Each branch on a symbolic condition is recorded; after each run the deepest
not-yet-flipped branch is negated and handed to z3 together with the path prefix: `sat` gives the
inputs of the next run, `unsat` closes that side.  An assertion is a branch whose negation must be
unsat.  When the tree is exhausted, every input within the stated domain has been decided."""
import time
import z3

from . import expr
from .expr import E, mk, lower, e_not


class Control(BaseException):
    """Engine control flow; BaseException so that the code under test cannot swallow it."""


class PathAbort(Control):
    pass


class NoFork(Control):
    pass


class Diverged(Control):
    pass


class Violation(Control):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Budget(Control):
    pass


class Node:
    __slots__ = ('kind', 'e', 'taken', 'done', 'val', 'n', 'name')

    def __init__(self, kind, e=None, taken=True, done=False, val=None, n=None, name=None):
        self.kind, self.e, self.taken, self.done = kind, e, taken, done
        self.val, self.n, self.name = val, n, name


ENGINE = None          # the engine currently running in this process


def cur():
    return ENGINE


PIN_CAP = 24


class Engine:
    symbolic = True

    def __init__(self, deadline=None, query_timeout_ms=20000, max_paths=None):
        self.stack = []
        self.inputs = {}
        self.deadline = deadline
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.solver = None
        self.pushed = 0
        # statistics
        self.paths = self.aborted = self.queries = self.sat = self.unsat = self.unknown = 0
        self.branches = self.choices = 0
        self.asserts_solver = 0        # assertion negations shown unsat by the solver
        self.asserts_path = 0          # assertions already decided by the path condition
        self.solver_s = 0.0
        self.divergences = []
        self.pins = {}                 # what was concretised, where
        self.pin_capped = 0
        self.nofork = 0
        self.steps = 0
        self.max_vars = 0

    # ---------------------------------------------------------------- run-time services
    def start_run(self):
        self.digits = {}      # number term -> the decimal digits it was read from, on this path
        self.pos = 0
        self.known = {}
        self.pinned = set()
        self.log = []                  # (name, value) in creation order: the concrete inputs
        self.vars = 0
        self.names = {}
        self.nofork = 0

    def _next(self, kind):
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            self.pos += 1
            if node.kind != kind and not (node.kind in ('branch', 'assume', 'assert')
                                          and kind in ('branch', 'assume', 'assert')):
                raise Diverged(f'expected {node.kind}, got {kind}')
            return node
        return None

    def _name(self, name):
        k = self.names.get(name)
        if k is None:
            self.names[name] = 1
            return name
        self.names[name] = k + 1
        return f'{name}@{k}'

    def int_var(self, name, lo, hi, default=None, ranges=None):
        """-> (value, E).  Domain: lo..hi, or the union of inclusive `ranges`."""
        name = self._name(name)
        if ranges is None:
            ranges = ((lo, hi),)
        v = mk('ivar', name)
        dom = mk('in', v, ranges)
        node = self._next('var')
        if node is None:
            self.stack.append(Node('var', dom, True, True, name=name))
            self.pos += 1
        elif node.name != name or node.e is not dom:
            raise Diverged(f'variable {node.name} != {name}')
        val = self.inputs.get(name)
        if val is None or not any(lo <= val <= hi for lo, hi in ranges):
            val = default if default is not None else ranges[0][0]
            self.inputs[name] = val
        self.log.append((name, val))
        self.vars += 1
        return val, v

    def choose(self, n, name='c'):
        """Case split over range(n): every value is explored."""
        name = self._name(name)
        assert n >= 1
        if n == 1:
            self.log.append((name, 0))
            return 0
        node = self._next('choice')
        if node is None:
            node = Node('choice', val=0, n=n, name=name)
            self.stack.append(node)
            self.pos += 1
            self.choices += 1
        elif node.name != name or node.n != n:
            raise Diverged(f'choice {node.name} != {name}')
        self.log.append((name, node.val))
        return node.val

    def branch(self, e, shadow, kind='branch'):
        k = self.known.get(e.id)
        if k is not None:
            return k
        if self.nofork and kind == 'branch':
            raise NoFork
        node = self._next(kind)
        if node is None:
            node = Node(kind, e, shadow, done=(kind == 'assume' and shadow))
            self.stack.append(node)
            self.pos += 1
            self.branches += 1
        else:
            if node.e is not e or node.taken != shadow:
                raise Diverged(f'branch {node.e!r}={node.taken} vs {e!r}={shadow}')
        self.known[e.id] = shadow
        ne = e_not(e)
        self.known[ne.id] = not shadow
        return shadow

    def pin(self, e, shadow, what):
        """Concretise e to its current value; the other values are explored up to PIN_CAP."""
        if e.id in self.pinned:
            return
        if self.nofork:
            raise NoFork
        self.note_pin(what)
        while True:
            if self.pos < len(self.stack):
                node = self.stack[self.pos]
                if node.kind != 'pin' or node.e.args[0] is not e:
                    raise Diverged('pin')
                self.pos += 1
                truth = node.e.args[1] == shadow
                if truth != node.taken:
                    raise Diverged('pin value')
                if truth:
                    break
            else:
                self.stack.append(Node('pin', mk('eq', e, shadow), True))
                self.pos += 1
                break
        self.pinned.add(e.id)

    def note_pin(self, what):
        self.pins[what] = self.pins.get(what, 0) + 1

    # ---------------------------------------------------------------- exploration
    def _sync(self, upto):
        """Make the solver hold exactly the constraints of stack[:upto]."""
        s = self.solver
        if self.pushed > upto:
            s.pop(self.pushed - upto)
            self.pushed = upto
        while self.pushed < upto:
            node = self.stack[self.pushed]
            s.push()
            if node.e is not None:
                z = lower(node.e)
                s.add(z if node.taken else z3.Not(z))
            self.pushed += 1

    def _query(self, node, depth):
        """Is stack[:depth] and not(node) satisfiable?"""
        self._sync(depth)
        s = self.solver
        s.push()
        try:
            z = lower(node.e)
            s.add(z3.Not(z) if node.taken else z)
            t = time.monotonic()
            r = s.check()
            self.solver_s += time.monotonic() - t
            self.queries += 1
            if r == z3.sat:
                self.sat += 1
                m = s.model()
                inputs = dict(self.inputs)
                for n in self.stack[:depth]:
                    if n.kind == 'var':
                        v = m.eval(z3.Int(n.name), model_completion=False)
                        if z3.is_int_value(v):
                            inputs[n.name] = v.as_long()
                return inputs
            if r == z3.unsat:
                self.unsat += 1
                return None
            self.unknown += 1
            return None
        finally:
            s.pop()

    def explore(self, fn, on_path=None, on_violation=None):
        """Run fn() over all paths.  Returns True when the path tree was exhausted."""
        global ENGINE
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set('timeout', self.query_timeout_ms)
        prev, ENGINE = ENGINE, self
        try:
            while True:
                if self.deadline is not None and time.monotonic() > self.deadline:
                    return False
                if self.max_paths is not None and self.paths >= self.max_paths:
                    return False
                self.start_run()
                obs = None
                violation = None
                try:
                    obs = fn()
                    self.paths += 1
                except PathAbort:
                    self.aborted += 1
                except Diverged as e:
                    self.divergences.append(str(e))
                    del self.stack[max(self.pos - 1, 0):]
                    if self.pushed > len(self.stack):
                        self._sync(len(self.stack))
                    if not self._backtrack():
                        return True
                    continue
                except NoFork as e:
                    self.divergences.append('NoFork escaped')
                except Violation as e:
                    self.paths += 1
                    violation = e
                self.max_vars = max(self.max_vars, self.vars)
                if self.pos < len(self.stack):
                    # the run ended before replaying the whole prefix
                    self.divergences.append('run ended before the flipped branch')
                    del self.stack[self.pos:]
                if violation is not None:
                    if on_violation and on_violation(violation, list(self.log)):
                        return False
                elif on_path and obs is not None:
                    on_path(obs, list(self.log))
                if not self._backtrack():
                    return True
        finally:
            ENGINE = prev

    def _backtrack(self):
        st = self.stack
        while st:
            node = st[-1]
            if node.kind == 'choice':
                if node.val + 1 < node.n:
                    if self.pushed > len(st) - 1:
                        self._sync(len(st) - 1)
                    st[-1] = Node('choice', val=node.val + 1, n=node.n, name=node.name)
                    return True
            elif not node.done:
                if node.kind == 'pin':
                    same = sum(1 for n in st if n.kind == 'pin' and not n.taken
                               and n.e.args[0] is node.e.args[0])
                    if same >= PIN_CAP:
                        self.pin_capped += 1
                        st.pop()
                        continue
                inputs = self._query(node, len(st) - 1)
                if inputs is not None:
                    self.inputs = inputs
                    st[-1] = Node(node.kind, node.e, not node.taken, True)
                    return True
                if node.kind == 'assert' and node.taken:
                    self.asserts_solver += 1
            st.pop()
        return False

    # ---------------------------------------------------------------- harness API
    def stats(self):
        return dict(paths=self.paths, aborted=self.aborted, queries=self.queries, sat=self.sat,
                    unsat=self.unsat, unknown=self.unknown, branches=self.branches,
                    choices=self.choices, asserts_solver=self.asserts_solver,
                    asserts_path=self.asserts_path, solver_s=self.solver_s,
                    divergences=len(self.divergences), divergence_samples=self.divergences[:3],
                    pins=dict(self.pins), pin_capped=self.pin_capped, max_vars=self.max_vars)
