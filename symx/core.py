"""Path-exploring symbolic execution core: engine, symbolic booleans and numbers.

The program under test is executed by CPython on values that wrap z3 terms.  A branch on a symbolic truth value asks the
solver which sides are feasible under the current path condition; all feasible sides are explored depth-first by
re-execution, with one incremental solver whose assertion stack mirrors the decision stack.
"""
import fractions
import math
import time
import z3

z3.set_param('memory_max_size', 6000)


class PathEnd(BaseException):
    """this path is finished (violated assumption, or a counterexample was recorded)"""


class Incomplete(BaseException):
    """exploration of this path had to be cut; the run is not exhaustive"""


class SolverUnknown(BaseException):
    pass


class Budget(BaseException):
    pass


ENG = None  # the current engine

CTX = z3.main_ctx()
_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)
TRUE_ID, FALSE_ID = _TRUE.get_id(), _FALSE.get_id()
_NUM = {}


def idof(e):
    i = e.__dict__.get('_i')
    if i is None:
        i = e.__dict__['_i'] = e.get_id()
    return i


def num(k):
    v = _NUM.get(k)
    if v is None:
        v = z3.IntVal(k)
        if len(_NUM) < 100000:
            _NUM[k] = v
    return v


def eqk(c, k):
    """the term c == k, shared"""
    d = c.__dict__.get('_eq')
    if d is None:
        d = c.__dict__['_eq'] = {}
    r = d.get(k)
    if r is None:
        r = z3.BoolRef(z3.Z3_mk_eq(CTX.ref(), c.ast, num(k).ast), CTX)
        r.__dict__['_ck'] = (idof(c), k, c)
        d[k] = r
    return r


def z3and(es):
    if len(es) == 1:
        return es[0]
    return z3.BoolRef(z3.Z3_mk_and(CTX.ref(), len(es), (z3.Ast * len(es))(*[e.ast for e in es])), CTX)


def z3or(es):
    if len(es) == 1:
        return es[0]
    return z3.BoolRef(z3.Z3_mk_or(CTX.ref(), len(es), (z3.Ast * len(es))(*[e.ast for e in es])), CTX)


def z3not(e):
    n = e.__dict__.get('_n')
    if n is None:
        n = e.__dict__['_n'] = z3.BoolRef(z3.Z3_mk_not(CTX.ref(), e.ast), CTX)
    return n


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


class Node:
    __slots__ = ('value', 'pending', 'expr', 'pushed', 'data')

    def __init__(self, value, pending, expr, pushed, data=None):
        self.value, self.pending, self.expr, self.pushed, self.data = value, pending, expr, pushed, data


class Stats:
    FIELDS = ('paths', 'complete', 'branches', 'forks', 'queries', 'solver_s', 'asserts', 'concretised', 'unknown')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, query_ms=30000, time_limit=None, max_ce=3):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.stats = Stats()
        self.stack = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.vals = {}
        self.inputs = {}
        self.deadline = None if time_limit is None else time.time() + time_limit
        self.ces = []
        self.max_ce = max_ce
        self.samples = []
        self.reached = set()
        self.incomplete = []
        self.functions = set()
        self.cap = 300

    # -- solver --------------------------------------------------------------------------------------------------
    def check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise SolverUnknown(self.solver.reason_unknown())
        if r == z3.sat:
            self.last_model = self.solver.model()
            return True
        return False

    def cur_model(self):
        if self.model is None:
            if not self.check():
                raise AssertionError('engine: path condition is unsatisfiable')
            self.model = self.last_model
        return self.model

    def meval(self, expr):
        return self.cur_model().eval(expr, model_completion=True)

    # -- decisions -----------------------------------------------------------------------------------------------
    def branch(self, expr, data=None):
        """returns the truth value of expr on this path; explores both when both are feasible"""
        key = idof(expr)
        if key == TRUE_ID:
            return True
        if key == FALSE_ID:
            return False
        k = self.known.get(key)
        if k is not None:
            return k[0]
        ck = expr.__dict__.get('_ck')
        if ck is not None:
            v = self.vals.get(ck[0])
            if v is not None:
                return v == ck[1]
        self.stats.branches += 1
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            self.pos += 1
            self.known[key] = (node.value, expr)
            if ck is not None and node.value:
                self.vals[ck[0]] = ck[1]
            return node.value
        if self.deadline and time.time() > self.deadline:
            raise Budget('time limit')
        first = z3.is_true(self.meval(expr))
        mfirst = self.model
        nexpr = z3not(expr)
        other_feasible = self.check(nexpr if first else expr)
        node = Node(first, other_feasible, expr, False, data)
        if other_feasible:
            self.stats.forks += 1
            self.solver.push()
            self.solver.add(expr if first else nexpr)
            node.pushed = True
        self.model = mfirst
        self.stack.append(node)
        self.pos += 1
        self.known[key] = (first, expr)
        if ck is not None and first:
            self.vals[ck[0]] = ck[1]
        return first

    def assume(self, expr):
        """adds a constraint; ends the path if it is infeasible"""
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathEnd('assumption')
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            self.pos += 1
            if not node.value:
                raise PathEnd('assumption')
            return
        if self.model is not None and z3.is_true(self.model.eval(expr, model_completion=True)):
            ok = True
        else:
            ok = self.check(expr)
            if ok:
                self.model = self.last_model
        node = Node(ok, False, expr, False)
        if ok:
            self.solver.push()
            self.solver.add(expr)
            node.pushed = True
        self.stack.append(node)
        self.pos += 1
        if not ok:
            raise PathEnd('assumption')

    def memo(self, compute):
        """a value computed with the help of the solver that must be the same on re-execution"""
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            self.pos += 1
            return node.data
        v = compute()
        self.stack.append(Node(None, False, None, False, v))
        self.pos += 1
        return v

    def valid(self, expr):
        """is expr implied by the path condition? (no fork)"""
        key = idof(expr)
        if key == TRUE_ID:
            return True
        if key == FALSE_ID:
            return False
        k = self.known.get(key)
        if k is not None:
            return k[0]
        ck = expr.__dict__.get('_ck')
        if ck is not None:
            v = self.vals.get(ck[0])
            if v is not None:
                return v == ck[1]

        def compute():
            if self.model is not None and z3.is_false(self.model.eval(expr, model_completion=True)):
                return False
            return not self.check(z3not(expr))
        return self.memo(compute)

    def concretise(self, expr, prefer=(), what=''):
        """forks over the feasible values of an integer expression"""
        self.stats.concretised += 1
        n = 0
        tried = set()
        kv = self.vals.get(idof(expr))
        if kv is not None:
            return kv
        while True:
            def pick():
                for p in prefer:
                    if p not in tried and self.check(expr == p):
                        return p
                return self.meval(expr).as_long()
            if prefer:
                v = self.memo(pick)
            else:
                v = self.memo(lambda: self.meval(expr).as_long())
            tried.add(v)
            if self.branch(eqk(expr, v)):
                return v
            n += 1
            if n > self.cap:
                raise Incomplete(f'more than {self.cap} values to enumerate {what}')

    def concretise_real(self, expr, what=''):
        """forks over the feasible values of a real expression (that must be few and rational)"""
        import fractions
        self.stats.concretised += 1
        for _ in range(16):
            def value():
                v = self.meval(expr)
                if not z3.is_rational_value(v):
                    raise Incomplete('irrational value of a symbolic real needed')
                return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
            v = self.memo(value)
            if self.branch(expr == z3.Q(v.numerator, v.denominator)):
                return v
        raise Incomplete(f'more than 16 values of a symbolic real to enumerate {what}')

    # -- exploration ---------------------------------------------------------------------------------------------
    def explore(self, run, on_path=None, max_paths=None):
        """run() executes one path.  Returns True if the whole tree was explored."""
        global ENG
        ENG = self
        while True:
            self.pos = 0
            self.known = {}
            self.vals = {}
            self.inputs = {}
            self.stats.paths += 1
            try:
                run()
                self.stats.complete += 1
                if on_path:
                    on_path()
            except PathEnd:
                pass
            except Incomplete as e:
                self.incomplete.append(str(e))
                if len(self.incomplete) > 200:
                    return False
            except SolverUnknown as e:
                self.incomplete.append('solver: ' + str(e))
                if len(self.incomplete) > 20:
                    return False
            except Budget as e:
                self.incomplete.append(str(e))
                return False
            if len(self.ces) >= self.max_ce:
                return False
            if max_paths and self.stats.paths >= max_paths:
                self.incomplete.append('path limit')
                return False
            # backtrack.  Entries beyond self.pos cannot exist after a completed run
            while self.stack and not self.stack[-1].pending:
                if self.stack[-1].pushed:
                    self.solver.pop()
                self.stack.pop()
            if not self.stack:
                return not self.incomplete
            node = self.stack[-1]
            self.solver.pop()
            node.value = not node.value
            node.pending = False
            self.solver.push()
            self.solver.add(node.expr if node.value else z3.Not(node.expr))
            self.model = None


# ---------------------------------------------------------------------------------------------------------------------
def simp(e):
    return z3.simplify(e)


class Sym:
    """marker base class of all symbolic proxies"""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __eq__(self, o):
        b = tobool(o)
        if b is None:
            return toint_expr(self) == o if isinstance(o, (int, SymInt)) else False
        return mkbool(self.e == b)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return and_(self, o) if tobool(o) is not None else mkint(toint_z3(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o) if tobool(o) is not None else mkint(toint_z3(self)) | o

    __ror__ = __or__

    def __invert__(self):
        return not_(self)  # numpy-style

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))

    def _i(self):
        return mkint(toint_z3(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __repr__(self): return f'<bool {self.e}>'
    def __str__(self): return str(bool(self))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def tobool(o):
    if isinstance(o, SymBool):
        return o.e
    if o is True or o is False:
        return z3.BoolVal(o)
    if type(o).__name__ in ('bool_', 'bool') and type(o).__module__ == 'numpy':
        return z3.BoolVal(bool(o))
    return None


def mkbool(e):
    i = idof(e)
    if i == TRUE_ID:
        return True
    if i == FALSE_ID:
        return False
    return SymBool(e)


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(x.e.arg(0)) if z3.is_not(x.e) else SymBool(z3not(x.e))
    if isinstance(x, SymInt):
        return mkbool(x.e == 0)
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3and(es))


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3or(es))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    ea, eb = tobool(a), tobool(b)
    return mkbool(simp(ea == eb))


def toint_z3(o):
    """z3 Int term of an int-like value, or None"""
    if isinstance(o, SymInt):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if hasattr(o, 'dtype') and hasattr(o, '__index__') and getattr(o, 'shape', None) == ():
        return z3.IntVal(int(o))
    return None


def toint_expr(o):
    return mkint(toint_z3(o))


def toreal_z3(o):
    if isinstance(o, SymReal):
        return o.e
    if isinstance(o, (SymInt, SymBool)):
        return z3.ToReal(toint_z3(o))
    if isinstance(o, bool):
        return z3.RealVal(int(o))
    if isinstance(o, int):
        return z3.RealVal(o)
    if hasattr(o, 'item') and getattr(o, 'shape', None) == ():
        o = o.item()
        return toreal_z3(o)
    if isinstance(o, float):
        if math.isinf(o) or math.isnan(o):
            return None
        f = fractions.Fraction(o)
        return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(o, fractions.Fraction):
        return z3.RealVal(f'{o.numerator}/{o.denominator}')
    return None


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _isfloat(o):
    return isinstance(o, float) or (type(o).__module__ == 'numpy' and getattr(o, 'dtype', None) is not None
                                    and getattr(o, 'shape', 1) == () and o.dtype.kind == 'f')


def _inf_cmp(o, op):
    """comparison of a finite number with inf/-inf/nan"""
    o = float(o)
    if math.isnan(o):
        return op == 'ne'
    pos = o > 0
    return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[op]


PYCMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
         'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
Z3CMP = {'lt': z3.Z3_mk_lt, 'le': z3.Z3_mk_le, 'gt': z3.Z3_mk_gt, 'ge': z3.Z3_mk_ge, 'eq': z3.Z3_mk_eq}


def mkbool2(e):
    """a comparison: its truth value if this path has already decided it"""
    if ENG is not None:
        k = ENG.known.get(idof(e))
        if k is not None:
            return k[0]
    return mkbool(e)


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # comparisons
    def _cmp(self, o, op):
        t = type(o)
        if t is SymInt:
            a, b = self.e, o.e
            ia, ib = idof(a), idof(b)
            if ia == ib:
                return op in ('le', 'ge', 'eq')
            if ENG is not None:
                va, vb = ENG.vals.get(ia), ENG.vals.get(ib)
                if va is not None:
                    return PYCMP[op](va, vb) if vb is not None else o._cmp(va, SWAP[op])
                if vb is not None:
                    return self._cmp(vb, op)
        elif t is int:
            e = self.e
            if ENG is not None:
                v = ENG.vals.get(idof(e))
                if v is not None:
                    return PYCMP[op](v, o)
            if op == 'eq':
                return mkbool2(eqk(e, o))
            if op == 'ne':
                return not_(mkbool2(eqk(e, o)))
            d = e.__dict__.get('_cp')
            if d is None:
                d = e.__dict__['_cp'] = {}
            r = d.get((op, o))
            if r is None:
                r = d[(op, o)] = z3.BoolRef(Z3CMP[op](CTX.ref(), e.ast, num(o).ast), CTX)
            return mkbool2(r)
        elif _isfloat(o):
            r = toreal_z3(float(o))
            if r is None:
                return _inf_cmp(o, op)
            a, b = z3.ToReal(self.e), r
        elif isinstance(o, SymReal):
            return o._cmp(self, SWAP[op])
        else:
            b = toint_z3(o)
            if b is None:
                return NotImplemented
            a = self.e
        if op == 'ne':
            return not_(mkbool2(z3.BoolRef(z3.Z3_mk_eq(CTX.ref(), a.ast, b.ast), CTX)))
        return mkbool2(z3.BoolRef(Z3CMP[op](CTX.ref(), a.ast, b.ast), CTX))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __index__(self):
        return ENG.concretise(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    # arithmetic
    def _bin(self, o, f):
        if _isfloat(o):
            r = toreal_z3(float(o))
            if r is None:
                return f_float(self, float(o), f)
            return SymReal(f(z3.ToReal(self.e), r))
        if isinstance(o, SymReal):
            return NotImplemented
        b = toint_z3(o)
        if b is None:
            return NotImplemented
        return mkint(_s(f(self.e, b)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self): return mkint(_s(-self.e))
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mkint(-self.e - 1)

    def _divmod(self, a, b):
        """python floor semantics for z3 terms"""
        if z3.is_int_value(b):
            d = b.as_long()
            if d == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if d > 0:
                return a / b, a % b
            q = (-a) / (-b)
            return q, a - q * b
        if ENG.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ENG.branch(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        if _isfloat(o) or isinstance(o, SymReal):
            return SymReal(toreal_z3(self)).__floordiv__(o)
        b = toint_z3(o)
        return NotImplemented if b is None else mkint(self._divmod(self.e, b)[0])

    def __rfloordiv__(self, o):
        b = toint_z3(o)
        return NotImplemented if b is None else mkint(self._divmod(b, self.e)[0])

    def __mod__(self, o):
        b = toint_z3(o)
        return NotImplemented if b is None else mkint(self._divmod(self.e, b)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        b = toint_z3(o)
        return NotImplemented if b is None else mkint(self._divmod(b, self.e)[1])

    def __divmod__(self, o):
        q, r = self._divmod(self.e, toint_z3(o))
        return mkint(q), mkint(r)

    def __truediv__(self, o):
        return SymReal(toreal_z3(self)).__truediv__(o)

    def __rtruediv__(self, o):
        r = toreal_z3(o)
        return NotImplemented if r is None else SymReal(r).__truediv__(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), int(o), mod)

    def __rpow__(self, o):
        return pow(o, self.__index__())

    # bits
    def __and__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, int) and not isinstance(o, bool):
            m = int(o)
            if m >= 0 and (m & (m + 1)) == 0:
                return mkint(_s(self.e % (m + 1)))
            if m > 0:
                # contiguous mask 2^a - 2^b
                low = m & -m
                if ((m + low) & m) == 0 and ((m + low) & (m + low - 1)) == 0:
                    return mkint(((self.e / low) % ((m + low) // low)) * low)
        return self._bv(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        # x | c == x + c when x is a multiple of 2^k and 0 <= c < 2^k (checked with the solver)
        b = toint_z3(o)
        if b is None:
            return NotImplemented
        for x, y in ((self.e, b), (b, self.e)):
            for k in (4, 6, 12, 18):
                if ENG.valid(z3.And(y >= 0, y < (1 << k), x % (1 << k) == 0)):
                    return mkint(x + y)
        return self._bv(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bv(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def _bv(self, o, f, w=66):
        b = toint_z3(o)
        if b is None:
            return NotImplemented
        lim = 1 << (w - 2)
        if not ENG.valid(z3.And(self.e > -lim, self.e < lim, b > -lim, b < lim)):
            return f(self.__index__(), int(o))
        r = f(z3.Int2BV(self.e, w), z3.Int2BV(b, w))
        return mkint(z3.BV2Int(r, is_signed=True))

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return mkint(_s(self.e / (1 << int(o))))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __round__(self, n=None):
        return self

    def __trunc__(self): return self
    def __ceil__(self): return self
    def __floor__(self): return self

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    def item(self):
        return self

    def __repr__(self): return f'<int {self.e}>'

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')


def _s(e):
    # cheap constant folding only when all children are values
    if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in e.children()) and e.num_args():
        return z3.simplify(e)
    return e


def f_float(x, o, f):
    # arithmetic of a symbolic number with inf/nan: concretise
    return f(float(x.__index__()), o)


class SymReal(Sym):
    """a float, idealised as a real number (stated in every evidence file that depends on it): a fraction n/d of z3 terms
    with d known to be positive on this path (d None: 1), which keeps comparisons of ratios linear where they can be"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d

    @property
    def e(self):
        return self.n if self.d is None else self.n / self.d

    @staticmethod
    def of(o):
        if isinstance(o, SymReal):
            return o
        b = toreal_z3(o)
        return None if b is None else SymReal(b)

    def _cmp(self, o, op):
        r = SymReal.of(o)
        if r is None:
            if _isfloat(o):
                return _inf_cmp(o, op)
            return NotImplemented
        if self.d is r.d or (self.d is not None and r.d is not None and self.d.eq(r.d)):
            a, b = self.n, r.n
        else:
            a = self.n if r.d is None else self.n * r.d
            b = r.n if self.d is None else r.n * self.d
        e = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
             'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
        if z3.is_rational_value(a) and z3.is_rational_value(b):
            return mkbool(simp(e))
        return mkbool(e)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Incomplete('hash of a symbolic real')

    def __bool__(self):
        return ENG.branch(self.n != 0)

    def _add(self, o, sign, swap=False):
        r = SymReal.of(o)
        if r is None:
            if _isfloat(o):
                return (-o if sign < 0 and not swap else o)
            return NotImplemented
        x, y = (r, self) if swap else (self, r)
        f = (lambda a, b: a + b) if sign > 0 else (lambda a, b: a - b)
        if x.d is None and y.d is None:
            return SymReal(f(x.n, y.n))
        if x.d is not None and y.d is not None and x.d.eq(y.d):
            return SymReal(f(x.n, y.n), x.d)
        if y.d is None:
            return SymReal(f(x.n, y.n * x.d), x.d)
        if x.d is None:
            return SymReal(f(x.n * y.d, y.n), y.d)
        return SymReal(f(x.n * y.d, y.n * x.d), x.d * y.d)

    def __add__(self, o): return self._add(o, 1)
    def __radd__(self, o): return self._add(o, 1, True)
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return self._add(o, -1, True)

    def __mul__(self, o):
        r = SymReal.of(o)
        if r is None:
            return NotImplemented
        if self.d is not None and r.d is None and self.d.eq(r.n):
            return SymReal(self.n)
        if r.d is not None and self.d is None and r.d.eq(self.n):
            return SymReal(r.n)
        d = self.d if r.d is None else r.d if self.d is None else self.d * r.d
        return SymReal(self.n * r.n, d)

    __rmul__ = __mul__

    def __neg__(self): return SymReal(-self.n, self.d)
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.d)

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        raise Incomplete('power of a symbolic real')

    def __truediv__(self, o):
        r = SymReal.of(o)
        if r is None:
            if _isfloat(o) and math.isinf(o):
                return SymReal(z3.RealVal(0))
            return NotImplemented
        bn = r.n
        if z3.is_rational_value(bn):
            v = bn.as_fraction()
            if v == 0:
                raise ZeroDivisionError('division by zero')
            inv = SymReal(z3.RealVal(1 / v)) if r.d is None else SymReal(r.d * z3.RealVal(1 / v))
            return self * inv
        if ENG.branch(bn == 0):
            raise ZeroDivisionError('division by zero')
        n = self.n if r.d is None else self.n * r.d
        if self.d is not None and r.d is not None and self.d.eq(r.d):
            n, d = self.n, None
        else:
            d = self.d
        if not ENG.branch(bn > 0):
            n, bn = -n, -bn
        return SymReal(n, bn if d is None else d * bn)

    def __rtruediv__(self, o):
        b = toreal_z3(o)
        return NotImplemented if b is None else SymReal(b).__truediv__(self)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return SymReal(z3.ToReal(z3.ToInt(q.e)))

    def __floor__(self): return mkint(z3.ToInt(self.e))
    def __ceil__(self): return mkint(-z3.ToInt(-self.e))
    def __trunc__(self): return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    def __int__(self): return int(self.__trunc__())

    def __round__(self, n=None):
        # half to even, decided for the idealised value
        if n is not None and not isinstance(n, int):
            raise Incomplete('round() to a symbolic number of digits')
        y = self if not n else self * (10 ** n if n > 0 else fractions.Fraction(1, 10 ** -n))
        f = z3.ToInt(y.e)
        low = 2 * (y.n - z3.ToReal(f) * (1 if y.d is None else y.d))   # twice the distance to the integer below
        one = z3.RealVal(1) if y.d is None else y.d
        k = z3.If(low < one, f, z3.If(low > one, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        if n is None:
            return mkint(k)
        return SymReal(z3.ToReal(k)) / (10 ** n) if n >= 0 else SymReal(z3.ToReal(k) * 10 ** -n)

    def __float__(self):
        raise Incomplete('float() of a symbolic real in native code')

    def item(self):
        return self

    def __repr__(self): return f'<real {self.e}>'
    def __str__(self): raise Incomplete('text form of a symbolic real')
    def __format__(self, spec): raise Incomplete('text form of a symbolic real')
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def ite(c, a, b):
    """merge two scalar values under a symbolic condition"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ba, bb = tobool(a), tobool(b)
    if ba is not None and bb is not None:
        return mkbool(simp(z3.If(c.e, ba, bb)))
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        a, b = SymReal.of(a), SymReal.of(b)
        if a is None or b is None:
            return a if c else b
        if a.d is b.d or a.d is not None and b.d is not None and a.d.eq(b.d):
            return SymReal(z3.If(c.e, a.n, b.n), a.d)
        if a.d is None or b.d is None:
            d = a.d if b.d is None else b.d
            return SymReal(z3.If(c.e, a.n if a.d is not None else a.n * d, b.n if b.d is not None else b.n * d), d)
        return SymReal(z3.If(c.e, a.n * b.d, b.n * a.d), a.d * b.d)
    ia, ib = toint_z3(a), toint_z3(b)
    if ia is not None and ib is not None:
        if ia.eq(ib):
            return a
        return mkint(z3.If(c.e, ia, ib))
    return a if c else b
