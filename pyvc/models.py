"""
pyvc.models -- the hooks called by instrumented code and the models (trusted
contracts) of the builtins and standard library functions it uses.
"""
import re, types, functools, operator, struct as _struct, io, itertools, sys
import z3
from . import core, sym
from .core import Unsupported, PathEnd, EngineExit
from .sym import (SInt, SBool, SSeq, SObj, is_sym, Z, B, mkint, mkbool, mkseq, to_seq, kind_of, slen,
	concrete_int, intlike, deep_eq, dec_text, parse_dec, be_pack, be_unpack, isinstance_raw, enum_int,
	from_elems, lit_elems, norm_pieces, expose_first, new_atom, seq_slice, elem_value)

_type = type

def has_sym(x, depth=3):
	t = _type(x)
	if t in (SInt, SBool, SSeq, SObj, SFloat) or t is SRange:
		return True
	if issubclass(t, MModel):
		return True
	if depth and t in (list, tuple, set, frozenset):
		for e in x:
			if has_sym(e, depth - 1):
				return True
	elif depth and t is dict:
		for k in x:
			if has_sym(k, depth - 1) or has_sym(x[k], depth - 1):
				return True
	return False

class MModel(object):
	"base class of model objects standing for library objects"
	__slots__ = ()

MODEL = {}          # callable -> model
METHODS = {}        # (type, name) -> model(self, ...)
STUBS = {}          # function object -> contract stub
STUB_NAMES = {}     # 'module:qualname' -> stub
TRUSTED_USED = set()

def model(f):
	def d(m):
		MODEL[f] = m
		return m
	return d

def method(t, *names):
	def d(m):
		for n in names:
			METHODS[(t, n)] = m
		return m
	return d

WHITE = {abs, divmod, callable, hasattr, getattr, setattr, delattr, id, issubclass, isinstance, print, dict.fromkeys, vars, super, object, iter}

def describe(f):
	return getattr(f, '__qualname__', None) or repr(f)

PURE_CONTAINER = {
	list: {'append', 'extend', 'insert', 'pop', 'clear', 'copy', 'reverse', 'index', 'count', 'remove', '__iter__', '__len__'},
	dict: {'items', 'keys', 'values', 'clear', 'copy', 'popitem'},
}

def guarded(m, a, k):
	"a call the model's signature does not foresee is out of reach, not an error of the code"
	try:
		return m(*a, **k)
	except TypeError as e:
		tb = e.__traceback__
		if tb is not None and tb.tb_next is None and a_fits(m, a, k) is False:
			raise Unsupported("call form of %s" % describe(m))
		raise

def a_fits(m, a, k):
	import inspect
	try:
		inspect.signature(m).bind(*a, **k)
	except TypeError:
		return False
	except Exception:
		return None
	return True

def vc_call(f, /, *a, **k):
	if core.CTX is None:
		return f(*a, **k)
	core.CTX.alive()
	t = _type(f)
	try:
		m = MODEL.get(f)
	except TypeError:
		m = None
	if m is not None:
		return guarded(m, a, k)
	if t is types.FunctionType:
		st = STUBS.get(f)
		if st is not None:
			return st(*a, **k)
		return f(*a, **k)
	if t is types.MethodType:
		st = STUBS.get(f.__func__)
		if st is not None:
			return st(f.__self__, *a, **k)
		if _type(f.__func__) is types.FunctionType:
			return f(*a, **k)
		return vc_call(f.__func__, f.__self__, *a, **k)
	if t is functools.partial:
		kw = dict(f.keywords); kw.update(k)
		return vc_call(f.func, *(f.args + a), **kw)
	if t is types.BuiltinFunctionType or t.__name__ in ('method-wrapper', 'builtin_method'):
		s = getattr(f, '__self__', None)
		if s is not None and not isinstance_raw(s, types.ModuleType):
			if isinstance_raw(s, type):
				m = METHODS.get((s, 'cls.' + f.__name__))
				if m is not None:
					return m(s, *a, **k)
			return call_method(s, f.__name__, f, a, k)
	elif t in (types.MethodDescriptorType, types.WrapperDescriptorType):
		if a and (has_sym(a) or has_sym(k)):
			if f.__name__ == '__len__' and _type(a[0]) is SSeq:
				if not issubclass(a[0].__class__, f.__objclass__):
					raise TypeError("descriptor '__len__' requires a %r object" % f.__objclass__.__name__)
				return slen(a[0])
			if (f.__objclass__, f.__name__) in METHODS or is_sym(a[0]) or isinstance_raw(a[0], MModel):
				return vc_callm(a[0], f.__name__, *a[1:], **k)
			if f.__name__ in ('__init__',):
				return f(*a, **k)
			if f.__objclass__ in (tuple, str, bytes, list) or issubclass(f.__objclass__, (dict, list)):
				if f.__name__ == '__getitem__':
					return vc_get_raw(f, *a)
				if f.__name__ == '__len__':
					return m_len(a[0]) if is_sym(a[0]) else f(*a)
				if f.__name__ == '__iter__':
					return iter(a[0])
				return call_method(a[0], f.__name__, types.MethodType(f, a[0]), a[1:], k)
			raise Unsupported("call of %s" % describe(f))
		return f(*a, **k)
	elif t is operator.itemgetter:
		keys = f.__reduce__()[1]
		if len(keys) == 1:
			return vc_get(a[0], keys[0])
		return tuple(vc_get(a[0], x) for x in keys)
	elif t is operator.attrgetter:
		return f(*a, **k)
	elif t is operator.methodcaller:
		r = f.__reduce__()
		if r[0] is operator.methodcaller:
			return vc_callm(a[0], r[1][0], *r[1][1:])
		p = r[0]
		return vc_callm(a[0], p.args[0], *r[1], **p.keywords)
	elif isinstance_raw(f, type):
		if issubclass(f, BaseException):
			return f(*a, **k)
		if has_sym(a) or has_sym(k):
			mod = getattr(f, '__module__', '')
			if mod.startswith('postgresql') or f.__module__.startswith('contracts') or f.__module__.startswith('pyvc'):
				base = f.__new__
				if issubclass(f, (tuple, str, bytes, int, float)) and not _type(base) is types.FunctionType:
					st = STUBS.get(f)
					if st:
						return st(*a, **k)
					# immutable builtin subclass: only from a fully known sequence
					if issubclass(f, tuple) and a and open_atoms(a[0]):
						return SSeq('tuple', a[0].norm(), cls=f)
					if issubclass(f, tuple) and a and (_type(a[0]) is SSeq or hasattr(a[0], '__iter__')):
						return f(tuple(vc_iter(a[0])), *a[1:], **k)
					raise Unsupported("instantiation of %s from symbolic data" % f.__name__)
				return f(*a, **k)
			raise Unsupported("instantiation of %s with symbolic arguments" % describe(f))
		return f(*a, **k)
	if f in WHITE if _hashable(f) else False:
		return f(*a, **k)
	# user-defined callables (instances with __call__ in python)
	c = getattr(_type(f), '__call__', None)
	if _type(c) is types.FunctionType:
		return vc_call(c, f, *a, **k)
	if has_sym(a) or has_sym(k):
		raise Unsupported("call of %s with symbolic arguments" % describe(f))
	return f(*a, **k)

def _hashable(f):
	try:
		hash(f)
		return True
	except TypeError:
		return False

DUNDER_CMP = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}

def call_method(obj, name, f, a, k):
	"bound builtin method"
	t = _type(obj)
	m = METHODS.get((t, name))
	if m is None:
		for b in t.__mro__[1:]:
			m = METHODS.get((b, name))
			if m is not None:
				break
	if m is not None:
		r = m(obj, *a, **k)
		if r is not NOMODEL:
			return r
	if has_sym(a) or has_sym(k):
		for b in t.__mro__:
			if name in PURE_CONTAINER.get(b, ()):
				return f(*a, **k)
		if name in DUNDER_CMP and len(a) == 1 and not k:
			return vc_cmp(DUNDER_CMP[name], obj, a[0])
		if t in (str, bytes):
			return getattr(to_seq(obj), name)(*a, **k)
		if t.__module__ == 'collections' and name in ('append', 'appendleft', 'extend', 'popleft', 'pop', 'clear'):
			return f(*a, **k)
		if t is types.GeneratorType:
			return f(*a, **k)
		if t.__module__ == 'builtins' and name in ('__init__',):
			return f(*a, **k)
		if name == '__new__' and obj is tuple and len(a) == 2 and _type(a[1]) in (tuple, list):
			return f(*a)
		raise Unsupported("call of %s.%s with symbolic arguments" % (t.__name__, name))
	return f(*a, **k)

class _NoModel(object): pass
NOMODEL = _NoModel()

def vc_callm(obj, name, /, *a, **k):
	if core.CTX is None:
		return getattr(obj, name)(*a, **k)
	core.CTX.alive()
	t = _type(obj)
	if t is SSeq or issubclass(t, MModel):
		return guarded(getattr(obj, name), a, k)
	if t in (str, bytes, list, dict, set, tuple, int) and (t, name) in METHODS:
		r = guarded(METHODS[(t, name)], (obj,) + a, k)
		if r is not NOMODEL:
			return r
	f = getattr(obj, name)
	return vc_call(f, *a, **k)

# ---- operators

OPS = {
	'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
	'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
	'RShift': operator.rshift, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor,
	'MatMult': operator.matmul,
}
IOPS = {
	'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
	'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'LShift': operator.ilshift,
	'RShift': operator.irshift, 'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor,
	'MatMult': operator.imatmul,
}

def vc_bin(op, l, r):
	if core.CTX is None:
		return OPS[op](l, r)
	if op == 'Mod' and (isinstance_raw(l, (str, bytes)) or (_type(l) is SSeq)):
		if has_sym(r) or _type(l) is SSeq:
			return str_mod(l, r)
		return l % r
	if op == 'Mult':
		for x, y in ((l, r), (r, l)):
			if isinstance_raw(x, (str, bytes, list, tuple)) and _type(y) in (SInt, SBool):
				return sym.seq_mul(to_seq(x), y)
	if op == 'Add' and isinstance_raw(l, list) and _type(r) is SSeq:
		return to_seq(l) + r
	return OPS[op](l, r)

def vc_ibin(op, l, r):
	if core.CTX is None:
		return IOPS[op](l, r)
	if op == 'Add' and _type(l) is list:
		if _type(r) is SSeq:
			if sym.concrete_int(slen(r)) or all(p[0] != 'A' for p in r.norm()):
				l.extend(list(r))
				return l
			raise Unsupported("in-place extension of a python list by a symbolic sequence")
		return operator.iadd(l, r)
	if _type(l) is SSeq or _type(l) in (str, bytes, tuple):
		if op == 'Add' and _type(l) is SSeq and l.kind == 'list':
			return operator.iadd(l, r)
		return vc_bin(op, l, r)
	return IOPS[op](l, r)

def contains(c, x):
	t = _type(c)
	if t is SSeq:
		return x in c
	if t is SRange:
		return c.contains(x)
	if has_sym(x) or has_sym(c):
		if t in (str, bytes):
			return x in to_seq(c)
		if issubclass(t, dict) and _type(c).__contains__ is dict.__contains__:
			for k in c:
				if deep_eq(k, x):
					return True
			return False
		if t in (list, tuple, set, frozenset) or t.__name__ in ('dict_keys', 'dict_values', 'deque'):
			for k in c:
				if deep_eq(k, x):
					return True
			return False
		if hasattr(t, '__contains__') and _type(t.__contains__) is types.FunctionType:
			return c.__contains__(x)
		if t is range:
			return mkbool(z3.Or([Z(x) == i for i in c])) if len(c) < 300 else mkbool(z3.And(Z(x) >= c.start, Z(x) < c.stop))
		raise Unsupported("containment test in %s" % t.__name__)
	return x in c

def vc_cmp(op, l, r):
	if core.CTX is None:
		return CMPS[op](l, r)
	if op in ('Eq', 'NotEq'):
		tl, tr = _type(l), _type(r)
		if tl in (list, tuple, dict, SSeq) or tr in (list, tuple, dict, SSeq):
			if has_sym(l) or has_sym(r):
				e = deep_eq(l, r)
				return e if op == 'Eq' else mkbool(z3.Not(B(e)))
		return CMPS[op](l, r)
	if op == 'In':
		return contains(r, l)
	if op == 'NotIn':
		x = contains(r, l)
		return mkbool(z3.Not(x.e)) if _type(x) is SBool else not x
	if op in ('Is', 'IsNot'):
		if _type(l) is SBool and r in (True, False):
			e = (l == r)
			return e if op == 'Is' else mkbool(z3.Not(B(e)))
		if _type(l) is SInt and concrete_int(r):
			e = (l == r)
			return e if op == 'Is' else mkbool(z3.Not(B(e)))
		return CMPS[op](l, r)
	tl, tr = _type(l), _type(r)
	if tl in (bytes, str) and tr is SSeq:
		return getattr(to_seq(l), {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op])(r)
	if tl in (tuple, list) and tr in (tuple, list) and (has_sym(l) or has_sym(r)):
		for x, y in zip(l, r):
			if not deep_eq(x, y):
				return vc_cmp(op, x, y)
		return CMPS[op](len(l), len(r))
	return CMPS[op](l, r)

CMPS = {
	'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
	'GtE': operator.ge, 'Is': operator.is_, 'IsNot': operator.is_not,
	'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b,
}

def vc_chain(ops, l, *thunks):
	r = True
	for op, th in zip(ops, thunks):
		x = th()
		r = vc_cmp(op, l, x)
		if not r:
			return r
		l = x
	return r

class SSlice(object):
	pass

def vc_slice(a, b, c):
	return slice(a, b, c)

def dict_find(d, k):
	"the stored key equal to k, or None wrapped"
	for x in list(dict.keys(d)):
		if x is k or deep_eq(x, k):
			return (x,)
	return None

_TABLES = {}
def identity_table(o):
	"a tuple whose i-th entry is bytes((i,))"
	r = _TABLES.get(id(o))
	if r is None or r[0] is not o:
		r = _TABLES[id(o)] = (o, len(o) == 256 and all(_type(x) is bytes and x == bytes((i,)) for i, x in enumerate(o)))
	return r[1]

def vc_get(o, i):
	if core.CTX is None:
		return o[i]
	t = _type(o)
	if t is SSeq:
		return o[i]
	if isinstance_raw(i, slice):
		if any(_type(x) is SInt for x in (i.start, i.stop, i.step)):
			if t in (bytes, str, list, tuple, bytearray, memoryview):
				r = sym.seq_getslice(to_seq(o), i)
				return r
		return o[i]
	if issubclass(t, dict) and t.__getitem__ is dict.__getitem__ and (has_sym(i) or any(has_sym(x) for x in o)):
		k = dict_find(o, i)
		if k is None:
			if hasattr(t, '__missing__'):
				return o.__missing__(i)
			raise KeyError(i)
		return dict.__getitem__(o, k[0])
	if _type(i) in (SInt, SBool):
		if t in (list, tuple) or (issubclass(t, tuple) and t.__getitem__ is tuple.__getitem__):
			n = len(o)
			j = i
			if j < 0:
				j = j + n
			if j < 0 or j >= n:
				raise IndexError("list index out of range")
			if t is tuple and identity_table(o):
				return mkseq('bytes', (('L', (j,)),))
			return tuple.__getitem__(tuple(o), enum_int(j, 300))
		if t in (bytes, str, bytearray, memoryview):
			return to_seq(o)[i]
	return o[i]

def vc_get_raw(f, o, i):
	if _type(i) in (SInt, SBool):
		return vc_get(tuple(o) if isinstance_raw(o, tuple) else o, i)
	return f(o, i)

def vc_set(o, i, v):
	if core.CTX is None:
		o[i] = v
		return
	t = _type(o)
	if issubclass(t, dict) and t.__setitem__ is dict.__setitem__ and (has_sym(i) or any(has_sym(x) for x in o)):
		k = dict_find(o, i)
		dict.__setitem__(o, i if k is None else k[0], v)
		return
	if t is list and _type(i) is SInt:
		n = len(o)
		j = i
		if j < 0:
			j = j + n
		if j < 0 or j >= n:
			raise IndexError("list assignment index out of range")
		o[enum_int(j, 300)] = v
		return
	o[i] = v

def vc_del(o, i):
	if core.CTX is None:
		del o[i]
		return
	t = _type(o)
	if issubclass(t, dict) and t.__delitem__ is dict.__delitem__ and (has_sym(i) or any(has_sym(x) for x in o)):
		k = dict_find(o, i)
		if k is None:
			raise KeyError(i)
		dict.__delitem__(o, k[0])
		return
	if t is list and isinstance_raw(i, slice) and any(_type(x) is SInt for x in (i.start, i.stop)):
		a, b = sym.slice_bounds(to_seq(o), i)
		del o[enum_int(a, 300):enum_int(b, 300)]
		return
	if t is list and _type(i) is SInt:
		del o[enum_int(sym.norm_index(to_seq(o), i), 300)]
		return
	del o[i]

class Store(object):
	__slots__ = ('o',)
	def __init__(self, o):
		self.o = o
	def __setitem__(self, i, v):
		vc_set(self.o, i, v)

def vc_store(o):
	return Store(o)

def vc_unpack(v, n):
	if core.CTX is None:
		return v
	if _type(v) is SSeq:
		l = slen(v)
		if not (l == n):
			raise ValueError("wrong number of values to unpack")
		out = []
		s = to_seq(v)
		for _ in range(n):
			out.append(elem_value(v.kind, expose_first(s)))
			s = to_seq(seq_slice(s, 1, None), v.kind)
		return tuple(out)
	return v

def vc_iter(x):
	if core.CTX is None:
		return x
	core.CTX.alive()
	t = _type(x)
	if t is SRange:
		return x.concrete_iter()
	if t is SSeq and any(p[0] == 'A' and sym.concretize(mkint(p[1].length)) is None for p in x.norm()):
		return unroll_iter(SeqIter(x))
	return x

UNROLL = 3

def degraded(what):
	c = core.ctx()
	if what not in c.ex.degraded:
		c.ex.degraded.append(what)

def unroll_iter(it):
	"a loop without a contract over a sequence of unknown length: bounded"
	n = 0
	for x in it:
		n += 1
		if n > UNROLL:
			degraded('loop over a sequence of unknown length unrolled %d times' % UNROLL)
			core.ctx().die(PathEnd("unrolling bound"))
		yield x

class WhileGuard(object):
	"a while loop without a contract: at most WUNROLL iterations that fork"
	LIMIT = 6
	def __init__(self, key):
		self.key = key
		self.n = 0
		self.last = self.genuine()
	def genuine(self):
		return sum(1 for d in core.CTX.decisions if d not in ('T!', 'F!')) if core.CTX is not None else 0
	def __call__(self, test):
		if core.CTX is None:
			return test
		r = bool(test)
		g = self.genuine()
		if g != self.last:
			self.last = g
			self.n += 1
			if self.n > self.LIMIT:
				degraded('%s unrolled %d times' % (self.key, self.LIMIT))
				core.ctx().die(PathEnd("unrolling bound"))
		return r

def vc_while(key):
	return WhileGuard(key)

class CompHom(sym.Hom):
	def __init__(self, fn, kind):
		CompHom.n += 1
		def elem(x):
			try:
				return list(fn((x,)))
			except Exception:
				# an element that raises was excluded when the comprehension was built
				core.ctx().die(PathEnd("element raises"))
		sym.Hom.__init__(self, 'comp%d' % CompHom.n, 'list', elem)
CompHom.n = 0

def open_atoms(x):
	return _type(x) is SSeq and any(p[0] == 'A' for p in x.norm()) and x.kind in ('list', 'tuple', 'str', 'bytes')

def comp_seq(fn, x):
	"[.. for e in x] over a sequence of unknown length: the element-wise image"
	c = core.ctx()
	kind = x.kind
	# a sequence whose length is known is unrolled
	if all(sym.concretize(mkint(sym.piece_len(p))) is not None for p in x.norm()):
		return list(fn(iter(x)))
	may_raise = False
	for p in x.norm():
		if p[0] != 'A':
			continue
		raised = []
		def body(sub, p=p):
			e = elem_value(kind, sym.fresh_elem(p[1])) if not (p[1].fn is not None and isinstance_raw(p[1].fn, sym.Hom)) else None
			if e is None:
				base, fns = sym.hom_base(p[1])
				es = list(sym.apply_chain(fns, base.kind, sym.fresh_elem(base)))
			else:
				es = [e]
			try:
				for z in es:
					for _ in fn((z,)): pass
			except Exception as exc:
				if sub.feasible():
					raised.append(exc)
		if not core.nested(body):
			raise Unsupported("comprehension over a symbolic sequence")
		if raised:
			may_raise = True
	if may_raise and c.choose(2) == 1:
		# some element raises: find it
		s = x
		ps = list(x.norm())
		k = c.choose(len(ps))
		p = ps[k]
		if p[0] == 'A':
			a = p[1]
			if a.fn is not None:
				raise Unsupported("raising element in a derived sequence")
			if c.branch(a.length == 0):
				c.die(PathEnd("no element"))
			e = sym.fresh_elem(a)
			l = new_atom(a.kind, a.name + '.b', a.free, a.allowed, a.elem)
			r = new_atom(a.kind, a.name + '.a', a.free, a.allowed, a.elem)
			c.assume(a.length == l.length + 1 + r.length)
			c.subst[a] = (('A', l), ('L', (e,)), ('A', r))
			for _ in fn((elem_value(kind, e),)): pass
		else:
			for e in (p[1] if p[0] == 'L' else sym.E_bytes(p[1], p[2])):
				for _ in fn((elem_value(kind, e),)): pass
		c.die(PathEnd("element does not raise"))
	# the same comprehension over the same sequence: the same image, if proved so
	key = ('comp', fn.__code__, sym.rope_key(x.norm()))
	prev = c.eqvars.get(key)
	hom = CompHom(fn, kind)
	out = sym.hom_pieces(hom, kind, x.norm())
	if prev is not None:
		old = norm_pieces(prev)
		if len(old) == len(out) and all(p[0] == 'A' and q[0] == 'A' and sym.hom_equal(p[1], q[1]) for p, q in zip(out, old)):
			return SSeq('list', old)
	c.eqvars[key] = out
	return SSeq('list', out)

def vc_list(x):
	"a list display in a function with loop contracts: a rope, so that the loop can be cut"
	if core.CTX is None:
		return x
	return SSeq('list', (('L', tuple(x)),) if x else ())

def vc_comp(kind, it, fn):
	if core.CTX is None:
		return fn(it)
	if open_atoms(it):
		return comp_seq(fn, it)
	if _type(it) is SeqIter:
		return comp_seq(fn, it.rest_list())
	return fn(vc_iter(it))

def vc_fstr(*parts):
	out = ''
	for p in parts:
		if _type(p) is tuple:
			v, conv, spec = p
			if core.CTX is None or not has_sym(v):
				if conv == 114: v = repr(v)
				elif conv == 115: v = str(v)
				elif conv == 97: v = ascii(v)
				out = out + format(v, spec)
			elif conv == 114:
				out = out + m_repr(v)
			elif spec:
				raise Unsupported("f-string format spec on symbolic value")
			else:
				out = out + m_str(v)
		else:
			out = out + p
	return out

HOOKS = {
	'__vc_call__': vc_call, '__vc_callm__': vc_callm, '__vc_bin__': vc_bin, '__vc_ibin__': vc_ibin,
	'__vc_cmp__': vc_cmp, '__vc_chain__': vc_chain, '__vc_get__': vc_get, '__vc_set__': vc_set,
	'__vc_del__': vc_del, '__vc_store__': vc_store, '__vc_slice__': vc_slice, '__vc_iter__': vc_iter,
	'__vc_comp__': vc_comp, '__vc_unpack__': vc_unpack, '__vc_fstr__': vc_fstr, '__vc_list__': vc_list, '__vc_while__': vc_while,
}

# ---------------------------------------------------------------- floats

class SFloat(object):
	"an IEEE double known only by its 64 bits (no arithmetic)"
	__slots__ = ('bits', 'width')
	def __init__(self, bits, width=8):
		self.bits = bits; self.width = width
	@property
	def __class__(self):
		return float
	def __hash__(self):
		return id(self)
	def same(self, o):
		"the same datum (specification equality)"
		o = self._as(o)
		return False if o is None else self.bits == o.bits
	def _as(self, o):
		if _type(o) is SFloat:
			return o if o.width == self.width else None
		if self.width == 8 and (isinstance_raw(o, float) or (isinstance_raw(o, int) and not isinstance_raw(o, bool) and abs(o) < 2**53)):
			return SFloat(int.from_bytes(_struct.pack('!d', o), 'big'))
		return None
	def _key(self):
		"(not a NaN, the order of the others)"
		n = 8 * self.width
		b, top = Z(self.bits), 1 << (n - 1)
		inf = (0x7ff << 52) if self.width == 8 else (0xff << 23)
		mag = z3.If(b >= top, b - top, b)
		return mag <= inf, z3.If(b >= top, -mag, b)
	def _cmp(self, o, rel):
		o = self._as(o)
		if o is None:
			raise Unsupported("comparison of a float")
		(p, x), (q, y) = self._key(), o._key()
		return mkbool(z3.And(p, q, rel(x, y)))
	def __eq__(self, o):
		if self._as(o) is None:
			if isinstance_raw(o, (int, float)) or _type(o) in (SInt, SBool):
				raise Unsupported("comparison of a float")
			return False
		return self._cmp(o, lambda x, y: x == y)
	def __ne__(self, o):
		return mkbool(z3.Not(B(self == o)))
	def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
	def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
	def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
	def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)
	def __getattr__(self, name):
		if hasattr(float, name):
			raise Unsupported("float.%s on a symbolic float" % name)
		raise AttributeError(name)
	def _u(self, *a):
		raise Unsupported("float arithmetic")
	__add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _u
	__neg__ = __bool__ = __floordiv__ = __mod__ = _u

# ---------------------------------------------------------------- builtins

@model(len)
def m_len(x):
	t = _type(x)
	if t is SSeq or t is SRange:
		return slen(x) if t is SSeq else x.length()
	f = getattr(t, '__len__', None)
	if _type(f) is types.FunctionType:
		return f(x)
	return len(x)

@model(float)
def m_float(*a):
	if a and _type(a[0]) is SFloat:
		x = a[0]
		if x.width == 8:
			return x
		raise Unsupported("float of a single precision number")
	if a and (is_sym(a[0]) or has_sym(a[0])):
		raise Unsupported("float(%s)" % _type(a[0]).__name__)
	return float(*a)

class SRange(object):
	def __init__(self, start, stop, step=1):
		self.start, self.stop, self.step = start, stop, step
	def length(self):
		if not (concrete_int(self.step) and self.step == 1):
			raise Unsupported("range step")
		d = self.stop - self.start
		return d if d > 0 else 0
	def contains(self, x):
		if concrete_int(self.step) and self.step == 1:
			return mkbool(z3.And(Z(x) >= Z(self.start), Z(x) < Z(self.stop)))
		raise Unsupported("range step")
	def concrete_iter(self):
		i = self.start
		n = 0
		while (i < self.stop):
			yield i
			i = i + self.step
			n += 1
			if n > 400:
				raise Unsupported("unbounded iteration over a symbolic range needs a loop invariant")
	def __iter__(self):
		return self.concrete_iter()
	def __getitem__(self, i):
		return self.start + i

@model(range)
def m_range(*a):
	if any(_type(x) is SInt for x in a):
		if len(a) == 1:
			return SRange(0, a[0])
		return SRange(*a)
	return range(*a)

@model(bool)
def m_bool(x=False):
	if _type(x) is SBool:
		return x
	if _type(x) is SInt:
		return mkbool(x.e != 0)
	return bool(x)

@model(int)
def m_int(x=0, *base, **kw):
	if kw:
		if list(kw) != ['base'] or base:
			return int(x, *base, **kw)
		base = (kw['base'],)
	t = _type(x)
	if t is SInt:
		return x
	if t is SBool:
		return mkint(Z(x))
	if t is SSeq:
		if base and not (concrete_int(base[0]) and base[0] == 10):
			return parse_base(x, base[0])
		return parse_dec(x)
	if t is SFloat:
		raise Unsupported("int(float)")
	f = getattr(t, '__int__', None)
	if _type(f) is types.FunctionType:
		return f(x)
	return int(x, *base)

def parse_base(s, base):
	n = s.norm()
	v = 0
	if not n:
		raise ValueError("invalid literal for int()")
	for p in n:
		if p[0] != 'L':
			raise Unsupported("int(text, base) of unknown text")
		for e in p[1]:
			if concrete_int(e):
				v = v * base + int(chr(e), base)
				continue
			c = core.ctx()
			z = Z(e)
			d = z3.And(z >= 48, z < 48 + min(base, 10))
			lo = z3.And(z >= 97, z < 87 + base) if base > 10 else z3.BoolVal(False)
			up = z3.And(z >= 65, z < 55 + base) if base > 10 else z3.BoolVal(False)
			if c.branch(z3.Or(d, lo, up)):
				v = v * base + mkint(z3.If(d, z - 48, z3.If(lo, z - 87, z - 55)))
			elif c.branch(z3.Or(Z(e) == 95, Z(e) <= 32, Z(e) == 43, Z(e) == 45, Z(e) >= 128)):
				raise Unsupported("int(text, base) with sign, underscore or blank")
			else:
				raise ValueError("invalid literal for int()")
	return v

def opaque_text(what):
	return SSeq('str', (('A', new_atom('str', what)),))

@model(str)
def m_str(x='', *enc):
	t = _type(x)
	if t is SSeq:
		if x.kind == 'str':
			return x.simp()
		if enc:
			return x.decode(*enc)
		return opaque_text('str(..)')
	if t in (SInt,):
		return dec_text(x)
	if t is SBool:
		return 'True' if x else 'False'
	if t is SFloat:
		return opaque_text('str(float)')
	f = getattr(t, '__str__', None)
	if _type(f) is types.FunctionType and not enc:
		return f(x)
	if not enc and has_sym(x):
		return opaque_text('str(..)')
	if t is int and not enc:
		return str(x)
	return str(x, *enc)

@model(repr)
def m_repr(x):
	if has_sym(x):
		if _type(x) is SInt:
			return dec_text(x)
		return opaque_text('repr(..)')
	return repr(x)

@model(format)
def m_format(x, spec=''):
	if has_sym(x):
		if not spec:
			return m_str(x)
		raise Unsupported("format spec")
	return format(x, spec)

@model(bytes)
def m_bytes(x=b'', *enc):
	t = _type(x)
	if t is SSeq:
		if x.kind == 'str':
			if not enc:
				raise TypeError("string argument without an encoding")
			return x.encode(*enc)
		if x.kind in ('list', 'tuple'):
			el = list(x)
			return m_bytes(el)
		return mkseq('bytes', x.norm())
	if t is SInt:
		return sym.seq_mul(to_seq(b'\0'), x)
	if t in (list, tuple) or t is types.GeneratorType or t is MapIter:
		el = tuple(x)
		c = core.ctx()
		for e in el:
			if not intlike(e):
				raise TypeError("'%s' object cannot be interpreted as an integer" % e.__class__.__name__)
			if c.branch(z3.Or(Z(e) < 0, Z(e) > 255)):
				raise ValueError("bytes must be in range(0, 256)")
		return mkseq('bytes', (('L', el),))
	return bytes(x, *enc)

@model(bytearray)
def m_bytearray(x=b'', *enc):
	if has_sym(x):
		r = m_bytes(x, *enc)
		return SSeq('bytearray', to_seq(r).norm())
	return bytearray(x, *enc)

@model(memoryview)
def m_memoryview(x):
	if _type(x) is SSeq:
		if x.kind not in ('bytes', 'bytearray', 'mv'):
			raise TypeError("memoryview: a bytes-like object is required, not '%s'" % x.kind)
		return SSeq('mv', x.norm())
	return memoryview(x)

@model(list)
def m_list(x=()):
	t = _type(x)
	if t is SSeq:
		if any(p[0] == 'A' for p in x.norm()):
			return SSeq('list', x.norm()) if x.kind in ('list', 'tuple') else list(x)
		return [e for e in x]
	if t is SRange:
		return list(x)
	if t is SeqIter:
		return x.rest_list()
	return [e for e in x]

@model(tuple)
def m_tuple(x=()):
	t = _type(x)
	if t is SSeq:
		if any(p[0] == 'A' for p in x.norm()):
			if x.kind in ('list', 'tuple'):
				return SSeq('tuple', x.norm())
		return tuple([e for e in x])
	if t is SRange:
		return tuple(x)
	if t is SeqIter:
		return SSeq('tuple', to_seq(x.rest_list()).norm())
	return tuple([e for e in x])

@model(type)
def m_type(*a, **k):
	if len(a) == 1:
		x = a[0]
		if is_sym(x) or _type(x) is SFloat or isinstance_raw(x, MModel):
			return x.__class__
		return _type(x)
	return type(*a, **k)

@model(isinstance)
def m_isinstance(x, t):
	return isinstance(x, t)

@model(ord)
def m_ord(x):
	t = _type(x)
	if t is SSeq:
		if not (slen(x) == 1):
			raise TypeError("ord() expected a character")
		return expose_first(x)
	return ord(x)

@model(chr)
def m_chr(x):
	if _type(x) is SInt:
		c = core.ctx()
		if c.branch(z3.Or(x.e < 0, x.e > 0x10FFFF)):
			raise ValueError("chr() arg not in range(0x110000)")
		return mkseq('str', (('L', (x,)),))
	return chr(x)

@model(hash)
def m_hash(x):
	if has_sym(x):
		raise Unsupported("hash of symbolic data")
	return hash(x)

@model(sum)
def m_sum(x, start=0):
	r = start
	if _type(x) is MapIter and x.f is len and len(x.raw) == 1 and open_atoms(x.raw[0]):
		# the lengths of the elements of a list of unknown length: that of their concatenation
		kinds = set()
		for p in x.raw[0].norm():
			e = sym.fresh_elem(p[1]) if p[0] == 'A' and p[1].fn is None else None if p[0] == 'A' else p[1]
			for y in (e if _type(e) is tuple else (e,)):
				kinds.add(y.kind if _type(y) is SSeq else _type(y).__name__)
		if kinds == {'bytes'} or kinds == {'str'}:
			return vc_bin('Add', start, slen(JOIN(kinds.pop())(x.raw[0])))
	for e in x:
		r = vc_bin('Add', r, e)
	return r

@model(any)
def m_any(x):
	for e in x:
		if e:
			return True
	return False

@model(all)
def m_all(x):
	for e in x:
		if not e:
			return False
	return True

def _minmax(args, k, lt):
	key = k.get('key')
	if len(args) == 1:
		args = list(args[0])
		if not args:
			if 'default' in k:
				return k['default']
			raise ValueError("min()/max() arg is an empty sequence")
	best = args[0]
	for e in args[1:]:
		x, y = (e, best) if key is None else (vc_call(key, e), vc_call(key, best))
		if lt(x, y):
			best = e
	return best

@model(min)
def m_min(*a, **k):
	return _minmax(a, k, lambda x, y: vc_cmp('Lt', x, y))

@model(max)
def m_max(*a, **k):
	return _minmax(a, k, lambda x, y: vc_cmp('Gt', x, y))

@model(sorted)
def m_sorted(x, key=None, reverse=False):
	el = list(x)
	ks = [e if key is None else vc_call(key, e) for e in el]
	if has_sym(ks):
		# insertion sort, stable
		out = []
		for k, e in zip(ks, el):
			j = len(out)
			while j > 0 and (vc_cmp('Lt', k, out[j - 1][0]) if not reverse else vc_cmp('Gt', k, out[j - 1][0])):
				j -= 1
			out.insert(j, (k, e))
		return [e for _, e in out]
	idx = sorted(range(len(el)), key=lambda i: ks[i], reverse=reverse)
	return [el[i] for i in idx]

class MapIter(object):
	def __init__(self, f, its):
		self.f = f; self.its = [iter(vc_iter(i)) for i in its]
		self.raw = its
	def __iter__(self):
		return self
	def __next__(self):
		args = [next(i) for i in self.its]
		return vc_call(self.f, *args)

@model(map)
def m_map(f, *its):
	return MapIter(f, its)

@model(filter)
def m_filter(f, it):
	return (x for x in vc_iter(it) if (x if f is None else vc_call(f, x)))

@model(zip)
def m_zip(*its, **k):
	return zip(*[iter(vc_iter(i)) for i in its], **k)

@model(enumerate)
def m_enumerate(it, start=0):
	return enumerate(vc_iter(it), start)

@model(reversed)
def m_reversed(x):
	if _type(x) is SSeq:
		return reversed(list(x))
	return reversed(x)

def vc_yield(l):
	return SeqIter(l) if _type(l) is SSeq else iter(l)
HOOKS['__vc_yield__'] = vc_yield

class SeqIter(object):
	"iterator over a (possibly unbounded) symbolic sequence"
	def __init__(self, seq):
		self.seq = to_seq(seq)
		self.done = SSeq(self.seq.kind, ())
		self.todo = SSeq(self.seq.kind, self.seq.norm())
	def __iter__(self):
		return self
	def __next__(self):
		if slen(self.todo) == 0:
			raise StopIteration
		e = expose_first(self.todo)
		_, r = sym.split_pieces(self.todo.norm(), 1, self.seq.kind)
		self.done = SSeq(self.seq.kind, norm_pieces(self.done.pieces + (('L', (e,)),)))
		self.todo = SSeq(self.seq.kind, r)
		return elem_value(self.seq.kind, e)
	def take(self, n):
		l = slen(self.todo)
		if l < n:
			n = l
		a, b = sym.split_pieces(self.todo.norm(), n, self.seq.kind)
		self.done = SSeq(self.seq.kind, norm_pieces(self.done.pieces + tuple(a)))
		self.todo = SSeq(self.seq.kind, b)
		return SSeq('list', norm_pieces(tuple(a)))
	def rest_list(self):
		r = SSeq('list', self.todo.norm())
		self.done = SSeq(self.seq.kind, norm_pieces(self.done.pieces + self.todo.pieces))
		self.todo = SSeq(self.seq.kind, ())
		return r

@model(iter)
def m_iter(x, *sentinel):
	if sentinel:
		if core.CTX is not None:
			return SentIter(x, sentinel[0])
	if _type(x) is SSeq and any(p[0] == 'A' for p in x.norm()) and x.kind in ('list', 'tuple'):
		return SeqIter(x)
	return iter(x)

class SentIter(object):
	def __init__(self, f, s):
		self.f, self.s = f, s
	def __iter__(self):
		return self
	def __next__(self):
		x = vc_call(self.f)
		if deep_eq(x, self.s):
			raise StopIteration
		return x

@model(next)
def m_next(it, *d):
	return next(it, *d)

@model(itertools.islice)
def m_islice(it, *a):
	if _type(it) is SeqIter and len(a) == 1:
		return it.take(a[0])
	if any(_type(x) is SInt for x in a):
		raise Unsupported("islice with symbolic bounds")
	return itertools.islice(it, *a)

@model(itertools.chain)
def m_chain(*its):
	return itertools.chain(*[iter(vc_iter(i)) for i in its])

@model(itertools.cycle)
def m_cycle(it):
	return itertools.cycle(it)

@model(itertools.repeat)
def m_repeat(x, *n):
	return itertools.repeat(x, *n)

@model(functools.reduce)
def m_reduce(f, it, *init):
	it = iter(vc_iter(it))
	r = init[0] if init else next(it)
	for x in it:
		r = vc_call(f, r, x)
	return r

@model(dict)
def m_dict(*a, **k):
	if has_sym(a):
		d = {}
		src = a[0]
		if isinstance_raw(src, dict):
			for x in src:
				vc_set(d, x, src[x])
		else:
			for x, y in vc_iter(src):
				vc_set(d, x, y)
		d.update(k)
		return d
	if a and (_type(a[0]) in (MapIter, types.GeneratorType, zip, list, tuple)):
		d = {}
		for kv in a[0]:
			x, y = kv
			vc_set(d, x, y)
		d.update(k)
		return d
	return dict(*a, **k)

@model(set)
def m_set(x=()):
	if has_sym(x):
		raise Unsupported("set of symbolic values")
	return set(x)

@model(frozenset)
def m_frozenset(x=()):
	if has_sym(x):
		raise Unsupported("set of symbolic values")
	return frozenset(x)

@method(dict, 'get')
def md_get(d, k, default=None):
	if _type(d).get is not dict.get and not has_sym(k):
		return NOMODEL
	if has_sym(k) or any(has_sym(x) for x in d):
		f = dict_find(d, k)
		return default if f is None else dict.__getitem__(d, f[0])
	return dict.get(d, k, default)

@method(dict, '__getitem__')
def md_getitem(d, k):
	if has_sym(k) or any(has_sym(x) for x in d):
		f = dict_find(d, k)
		if f is None:
			raise KeyError(k)
		return dict.__getitem__(d, f[0])
	return dict.__getitem__(d, k)

@method(dict, '__contains__')
def md_contains(d, k):
	if has_sym(k) or any(has_sym(x) for x in d):
		return dict_find(d, k) is not None
	return dict.__contains__(d, k)

@method(dict, 'pop')
def md_pop(d, k, *default):
	if has_sym(k) or any(has_sym(x) for x in d):
		f = dict_find(d, k)
		if f is None:
			if default:
				return default[0]
			raise KeyError(k)
		return dict.pop(d, f[0])
	return dict.pop(d, k, *default)

@method(dict, 'setdefault')
def md_setdefault(d, k, default=None):
	if has_sym(k) or any(has_sym(x) for x in d):
		f = dict_find(d, k)
		if f is not None:
			return dict.__getitem__(d, f[0])
	return dict.setdefault(d, k, default)

@method(dict, 'update')
def md_update(d, *a, **k):
	if a and has_sym(a):
		src = a[0]
		if isinstance_raw(src, dict):
			src = list(src.items())
		for x, y in vc_iter(src):
			vc_set(d, x, y)
		for x, y in k.items():
			vc_set(d, x, y)
		return None
	if a and not isinstance_raw(a[0], dict):
		for kv in list(vc_iter(a[0])):
			x, y = kv
			vc_set(d, x, y)
		for x, y in k.items():
			vc_set(d, x, y)
		return None
	return NOMODEL

@method(list, 'extend')
def ml_extend(l, o):
	if _type(o) is SSeq and any(p[0] == 'A' for p in o.norm()):
		raise Unsupported("extension of a python list by a symbolic sequence")
	list.extend(l, [x for x in vc_iter(o)])

@method(str, 'join')
def ms_join(s, items):
	return _join(s, items, 'str')
@method(bytes, 'join')
def mb_join(s, items):
	return _join(s, items, 'bytes')

def _join(s, items, kind):
	if _type(items) is SeqIter and any(p[0] == 'A' for p in items.todo.norm()):
		items, it = items.todo, items
		it.todo = SSeq(items.kind, ())
	if _type(items) is SSeq and any(p[0] == 'A' for p in items.norm()):
		if concrete_int(slen(s)) and slen(s) == 0:
			return JOIN(kind)(items)
		raise Unsupported("join of an unbounded sequence")
	items = [x for x in vc_iter(items)]
	if not has_sym(items):
		return s.join(items)
	return sym.join_seq(to_seq(s), items, kind)

JOINS = {}
def JOIN(kind):
	"''.join as a homomorphism on lists of strings"
	if kind not in JOINS:
		JOINS[kind] = sym.Hom('join[%s]' % kind, kind, lambda x: x)
	return JOINS[kind]

def _fwd(name):
	def m(s, *a, **k):
		if has_sym(a) or has_sym(k):
			return getattr(to_seq(s), name)(*a, **k)
		return NOMODEL
	return m
for _n in ('startswith', 'endswith', 'find', 'index', 'split', 'partition', 'replace', 'strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'count', 'rsplit', 'rpartition', 'rfind'):
	METHODS[(str, _n)] = _fwd(_n)
	METHODS[(bytes, _n)] = _fwd(_n)

@method(int, 'cls.from_bytes')
def mi_from_bytes(cls, data, byteorder='big', signed=False):
	if _type(data) is not SSeq:
		return int.from_bytes(data, byteorder, signed=signed)
	n = enum_int(slen(data), 20)
	if byteorder != 'big':
		raise Unsupported("little endian")
	u = be_unpack(n, data) if n else 0
	return sym.to_signed(u, 8 * n) if signed else u

CHAR_CLASSES = {}
def char_class(p):
	"the characters of a pattern that is one class of listed characters"
	if p not in CHAR_CLASSES:
		import re._parser as sre
		r = None
		t = list(sre.parse(p.pattern, p.flags & ~32))
		if len(t) == 1:
			op, av = t[0]
			if str(op) == 'LITERAL':
				av, op = [(op, av)], 'IN'
			if str(op) == 'IN':
				r = set()
				for o, x in av:
					if str(o) == 'LITERAL':
						r.add(x)
					elif str(o) == 'RANGE' and x[1] - x[0] < 300:
						r.update(range(x[0], x[1] + 1))
					else:
						r = None
						break
		if p.flags & 2:
			r = None
		CHAR_CLASSES[p] = r
	return CHAR_CLASSES[p]

@method(re.Pattern, 'sub')
def mp_sub(p, repl, s, count=0):
	if not has_sym(s) and not has_sym(repl):
		return p.sub(repl, s, count)
	cs = char_class(p)
	if cs is None or _type(s) is not SSeq or s.kind != 'str' or has_sym(repl) or not (concrete_int(count) and count == 0):
		raise Unsupported("substitution of %r in an unknown text" % p.pattern)
	table = {}
	for ch in cs:
		r = p.sub(repl, chr(ch))
		if _type(r) is not str:
			raise Unsupported("substitution")
		table[ch] = r
	return sym.map_chars(s, table)

@method(str, 'format')
def ms_format(s, *a, **k):
	if not has_sym(a) and not has_sym(k):
		return NOMODEL
	import string as _string
	out = ''
	auto = 0
	for lit, field, spec, conv in _string.Formatter().parse(s):
		if lit:
			out = out + lit
		if field is None:
			continue
		if field == '':
			v = a[auto]; auto += 1
		elif field.isdigit():
			v = a[int(field)]
		elif field in k:
			v = k[field]
		else:
			raise Unsupported("format field " + field)
		if not has_sym(v):
			if conv == 'r': v = repr(v)
			elif conv == 's': v = str(v)
			out = out + format(v, spec)
		elif conv == 'r':
			out = out + m_repr(v)
		elif spec:
			raise Unsupported("format spec")
		else:
			out = out + m_str(v)
	return out

def str_mod(fmt, args):
	"fmt % args"
	seq = to_seq(fmt)
	kind = 'str' if seq.kind == 'str' else 'bytes'
	tup = args if isinstance_raw(args, tuple) else ((tuple(args) if _type(args) is SSeq and args.kind == 'tuple' else (args,)))
	mapping = args if isinstance_raw(args, dict) else None
	out = ''
	if kind == 'bytes':
		out = b''
	idx = 0
	pieces = list(seq.norm())
	text = []
	for p in pieces:
		if p[0] == 'A':
			if p[1].excludes(37):
				text.append(p)
				continue
			raise Unsupported("format string of unknown content")
		text.extend(p[1] if p[0] == 'L' else sym.E_bytes(p[1], p[2]))
	i = 0
	n = len(text)
	while i < n:
		ch = text[i]
		if _type(ch) is tuple:
			out = out + mkseq(kind, (ch,))
			i += 1
			continue
		if not concrete_int(ch):
			if core.ctx().branch(Z(ch) == 37):
				raise Unsupported("symbolic format directive")
			out = out + mkseq(kind, (('L', (ch,)),))
			i += 1
			continue
		if ch != 37:
			out = out + from_elems(kind, (ch,))
			i += 1
			continue
		i += 1
		key = None
		spec = ''
		if i < n and text[i] == 40:
			j = i + 1
			while j < n and text[j] != 41:
				j += 1
			key = mkseq(kind, (('L', tuple(text[i + 1:j])),)) if all(not isinstance_raw(x, tuple) for x in text[i + 1:j]) else None
			if key is None:
				raise Unsupported("symbolic mapping key")
			i = j + 1
		while i < n and concrete_int(text[i]) and chr(text[i]) in '0123456789.-+# ':
			spec += chr(text[i]); i += 1
		if i >= n:
			raise ValueError("incomplete format")
		d = chr(text[i]) if concrete_int(text[i]) else None
		i += 1
		if d == '%':
			out = out + ('%' if kind == 'str' else b'%')
			continue
		if key is not None:
			v = vc_get(mapping, key)
		else:
			if idx >= len(tup):
				raise TypeError("not enough arguments for format string")
			v = tup[idx]; idx += 1
		if not has_sym(v):
			f = '%' + spec + d
			out = out + ((f % (v,)) if kind == 'str' else (f.encode('ascii') % (v,)))
		elif spec:
			raise Unsupported("format width on a symbolic value")
		elif d == 's':
			out = out + (m_str(v) if kind == 'str' else m_bytes(v))
		elif d in 'di':
			if not intlike(v):
				raise TypeError("%d format: a real number is required")
			out = out + (dec_text(v) if kind == 'str' else dec_text(v, 'bytes'))
		elif d == 'r':
			out = out + m_repr(v)
		elif d == 'u':
			out = out + dec_text(v)
		else:
			raise Unsupported("format directive %" + str(d))
	if mapping is None and idx < len(tup) and not (args is tup and False):
		raise TypeError("not all arguments converted during string formatting")
	return out

# ---------------------------------------------------------------- struct

CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
	'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}

def parse_fmt(fmt):
	if isinstance_raw(fmt, bytes):
		fmt = fmt.decode('ascii')
	if not fmt or fmt[0] not in '!>':
		if all(ch in 'bBsxc?0123456789=<@' for ch in fmt):
			pass
		else:
			raise Unsupported("struct format %r" % fmt)
	out = []
	cnt = ''
	for ch in fmt:
		if ch in '!>=<@ ':
			continue
		if ch.isdigit():
			cnt += ch
			continue
		n = int(cnt) if cnt else 1
		had = bool(cnt)
		cnt = ''
		if ch == 's':
			out.append(('s', n))
		elif ch == 'x':
			out.append(('x', n))
		else:
			out.extend([(ch, 1)] * n)
	return out

def st_pack(fmt, args):
	if not has_sym(args):
		return _struct.pack(fmt, *args)
	c = core.ctx()
	codes = parse_fmt(fmt)
	need = sum(1 for ch, n in codes if ch != 'x')
	if need != len(args):
		raise _struct.error("pack expected %d items for packing (got %d)" % (need, len(args)))
	out = b''
	args = list(args)
	for ch, n in codes:
		if ch == 'x':
			out = out + b'\0' * n
			continue
		v = args.pop(0)
		if ch in CODES:
			w, signed = CODES[ch]
			if not intlike(v):
				raise _struct.error("required argument is not an integer")
			lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
			if not c.branch(z3.And(Z(v) >= lo, Z(v) <= hi)):
				raise _struct.error("argument out of range")
			u = sym.to_unsigned(v, 8 * w) if signed else v
			out = out + be_pack(w, u)
		elif ch in 'df':
			if _type(v) is SFloat:
				out = out + be_pack(8 if ch == 'd' else 4, v.bits)
			elif has_sym(v):
				raise Unsupported("float packing")
			else:
				out = out + _struct.pack('!' + ch, v)
		elif ch == 's':
			l = slen(v)
			if l == n:
				out = out + v
			else:
				raise Unsupported("struct s padding")
		elif ch == 'c':
			if not (slen(v) == 1):
				raise _struct.error("char format requires a bytes object of length 1")
			out = out + v
		elif ch == '?':
			out = out + (b'\x01' if v else b'\x00')
		else:
			raise Unsupported("struct code " + ch)
	return out

def st_unpack(fmt, data, offset=0, exact=True):
	if not has_sym(data) and not has_sym(offset):
		return _struct.unpack(fmt, data) if exact else _struct.unpack_from(fmt, data, offset)
	codes = parse_fmt(fmt)
	size = sum(n if ch in 'sx' else (8 if ch == 'd' else 4 if ch == 'f' else 1 if ch in 'c?' else CODES[ch][0]) for ch, n in codes)
	if kind_of(data) not in ('bytes', 'mv', 'bytearray'):
		raise TypeError("a bytes-like object is required")
	l = slen(data)
	if exact:
		if not (l == size):
			raise _struct.error("unpack requires a buffer of %d bytes" % size)
	else:
		if offset < 0:
			if offset + l < 0:
				raise _struct.error("offset out of range")
			offset = offset + l
		if l - offset < size:
			raise _struct.error("unpack_from requires a buffer of at least %d bytes" % size)
	out = []
	pos = offset
	s = to_seq(data)
	for ch, n in codes:
		if ch == 'x':
			pos = pos + n
		elif ch in CODES:
			w, signed = CODES[ch]
			u = be_unpack(w, s, pos)
			out.append(sym.to_signed(u, 8 * w) if signed else u)
			pos = pos + w
		elif ch in 'df':
			w = 8 if ch == 'd' else 4
			u = be_unpack(w, s, pos)
			if concrete_int(u):
				out.append(_struct.unpack('!' + ch, int(u).to_bytes(w, 'big'))[0])
			else:
				out.append(SFloat(u, w))
			pos = pos + w
		elif ch in 'sc':
			out.append(mkseq('bytes', to_seq(seq_slice(s, pos, pos + n)).norm()))
			pos = pos + n
		else:
			raise Unsupported("struct code " + ch)
	return tuple(out)

@method(_struct.Struct, 'pack')
def m_Struct_pack(s, *args):
	return st_pack(s.format, args)
@method(_struct.Struct, 'unpack')
def m_Struct_unpack(s, data):
	return st_unpack(s.format, data)
@method(_struct.Struct, 'unpack_from')
def m_Struct_unpack_from(s, data, offset=0):
	return st_unpack(s.format, data, offset, exact=False)
@model(_struct.pack)
def m_struct_pack(fmt, *args):
	return st_pack(fmt, args)
@model(_struct.unpack)
def m_struct_unpack(fmt, data):
	if _type(fmt) is SSeq:
		return st_unpack_rep(fmt, data)
	return st_unpack(fmt, data)

def st_unpack_rep(fmt, data):
	"unpack('!%dL' % n, data) and unpack('2s' * n, data) with symbolic n"
	n = fmt.norm()
	c = core.ctx()
	rest = [p for p in n if not (p[0] == 'L' and p[1] in ((33,), (62,)))]
	if len(rest) == 1 and rest[0][0] == 'A' and isinstance_raw(rest[0][1].fn, sym.RepFn):
		code = ''.join(map(chr, rest[0][1].fn.pat))
		count = mkint(rest[0][1].fn.n)
	elif len(rest) == 2 and rest[0][0] == 'A' and isinstance_raw(rest[0][1].fn, sym.DecFn) and rest[1][0] == 'L' and len(rest[1][1]) == 1:
		code = chr(rest[1][1][0])
		count = mkint(rest[0][1].fn.e)
	else:
		raise Unsupported("struct format %r" % (fmt,))
	if code in CODES and not CODES[code][1]:
		w = CODES[code][0]
		def test(e, img):
			k = norm_pieces(img.pieces)
			if len(k) == 1 and k[0][0] == 'E' and k[0][1] == w and intlike(e):
				return deep_eq(k[0][2], e)
			return False
	elif code[-1] == 's' and code[:-1].isdigit():
		w = int(code[:-1])
		def test(e, img):
			if _type(e) is not SSeq or not (slen(img) == w):
				return False
			return deep_eq(img, e)
	else:
		raise Unsupported("struct format %r" % (fmt,))
	if not (slen(data) == w * count):
		raise _struct.error("unpack requires a buffer of another size")
	out = []
	for p in to_seq(data).norm():
		if p[0] == 'A':
			base = sym.hom_elem_shape(p[1], test)
			if base is None:
				raise Unsupported("struct unpack of %r" % (p,))
			out.append(('A', base))
		elif p[0] == 'E' and p[1] == w and code in CODES:
			out.append(('L', (p[2],)))
		else:
			el = p[1] if p[0] == 'L' else sym.E_bytes(p[1], p[2])
			if len(el) % w:
				raise Unsupported("struct unpack of pieces")
			for i in range(0, len(el), w):
				b = mkseq('bytes', (('L', el[i:i + w]),))
				out.append(('L', (b if code[-1] == 's' else be_unpack(w, b),)))
	return SSeq('tuple', norm_pieces(tuple(out)))
@model(_struct.unpack_from)
def m_struct_unpack_from(fmt, data, offset=0):
	return st_unpack(fmt, data, offset, exact=False)

# ---------------------------------------------------------------- io.BytesIO

class MBytesIO(MModel):
	"model of io.BytesIO: content rope and position"
	__slots__ = ('content', 'pos', 'closed')
	def __init__(self, initial=b''):
		self.content = to_seq(initial).norm()
		self.pos = 0
		self.closed = False
	@property
	def __class__(self):
		return io.BytesIO
	def _len(self):
		return slen(SSeq('bytes', self.content))
	def write(self, data):
		d = to_seq(data).norm()
		l = slen(SSeq('bytes', d))
		n = self._len()
		if self.pos == n:
			self.content = norm_pieces(self.content + d)
		elif self.pos < n:
			left, rest = sym.split_pieces(self.content, self.pos, 'bytes')
			if self.pos + l >= n:
				self.content = norm_pieces(tuple(left) + d)
			else:
				_, tail = sym.split_pieces(rest, l, 'bytes')
				self.content = norm_pieces(tuple(left) + d + tuple(tail))
		else:
			pad = sym.seq_mul(to_seq(b'\0'), self.pos - n)
			self.content = norm_pieces(self.content + to_seq(pad).norm() + d)
		self.pos = self.pos + l
		return l
	def read(self, n=-1):
		ln = self._len()
		if self.pos >= ln:
			return b''
		_, rest = sym.split_pieces(self.content, self.pos, 'bytes')
		if n is None or n < 0:
			self.pos = ln
			return mkseq('bytes', rest)
		if self.pos + n >= ln:
			self.pos = ln
			return mkseq('bytes', rest)
		r, _ = sym.split_pieces(rest, n, 'bytes')
		self.pos = self.pos + n
		return mkseq('bytes', r)
	def tell(self):
		return self.pos
	def seek(self, off, whence=0):
		if whence == 0:
			if off < 0:
				raise ValueError("negative seek value")
			self.pos = off
		elif whence == 1:
			p = self.pos + off
			self.pos = p if p > 0 else 0
		else:
			p = self._len() + off
			self.pos = p if p > 0 else 0
		return self.pos
	def truncate(self, size=None):
		if size is None:
			size = self.pos
		if size < 0:
			raise ValueError("negative size value")
		if size < self._len():
			left, _ = sym.split_pieces(self.content, size, 'bytes')
			self.content = norm_pieces(tuple(left))
		return size
	def getvalue(self):
		return mkseq('bytes', self.content)
	def getbuffer(self):
		return SSeq('mv', norm_pieces(self.content))
	def close(self):
		self.closed = True
	def __len__(self):
		raise TypeError("object of type '_io.BytesIO' has no len()")

@model(io.BytesIO)
def m_BytesIO(initial=b''):
	return MBytesIO(initial)
