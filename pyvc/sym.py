"""
pyvc.sym -- symbolic values: mathematical integers, booleans, and sequences
(bytes, str, list, tuple) represented as ropes of literal pieces, big-endian
encoded integers and atoms (sequences of unknown content and symbolic length).
"""
from types import FunctionType
import z3
from . import core
from .core import ctx, Unsupported, PathEnd

# ---------------------------------------------------------------- integers

def is_sym(x):
	return isinstance_raw(x, (SInt, SBool, SSeq, SObj))

_type = type
def isinstance_raw(x, t):
	return issubclass(_type(x), t)

def Z(x):
	"python int/bool/SInt -> z3 Int expression"
	t = _type(x)
	if t is SInt:
		return x.e
	if t is SBool:
		return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
	if t is bool:
		return z3.IntVal(int(x))
	if issubclass(t, int):
		return z3.IntVal(int(x))
	if isinstance_raw(x, z3.ExprRef):
		return x
	raise TypeError("not an integer: %r" % (_type(x),))

def mkint(e):
	e = z3.simplify(e)
	if z3.is_int_value(e):
		return e.as_long()
	return SInt(e)

def mkbool(e):
	if isinstance(e, bool):
		return e
	e = z3.simplify(e)
	if z3.is_true(e):
		return True
	if z3.is_false(e):
		return False
	return SBool(e)

def B(x):
	"python bool / SBool / z3 -> z3 Bool"
	t = _type(x)
	if t is SBool:
		return x.e
	if t is bool:
		return z3.BoolVal(x)
	if isinstance_raw(x, z3.BoolRef):
		return x
	if t is SInt:
		return x.e != 0
	if t is SSeq:
		return Z(slen(x)) != 0
	return z3.BoolVal(bool(x))

def intlike(x):
	t = _type(x)
	return t is SInt or t is SBool or issubclass(t, int)

def concrete_int(x):
	return issubclass(_type(x), int)

def py_and_const(x, c):
	"x & c for symbolic x and constant c"
	if c == 0:
		return 0
	if c < 0:
		return x - py_and_const(x, ~c)
	e = Z(x)
	total = z3.IntVal(0)
	i = 0
	while c >> i:
		if (c >> i) & 1:
			j = i
			while (c >> j) & 1:
				j += 1
			run = (e / (1 << i)) if i else e
			total = total + (run % (1 << (j - i))) * (1 << i)
			i = j
		else:
			i += 1
	return mkint(total)

class SInt(object):
	__slots__ = ('e',)
	def __init__(self, e):
		self.e = e
	@property
	def __class__(self):
		return int
	def __repr__(self):
		return 'SInt(%s)' % (self.e,)
	def __hash__(self):
		return id(self)
	def __bool__(self):
		return ctx().branch(self.e != 0)
	def __index__(self):
		# only if the value is determined
		v = concretize(self)
		if v is None:
			raise Unsupported("symbolic integer used where a machine integer is needed")
		return v
	def _ok(self, o):
		return intlike(o)
	def __add__(self, o):
		return mkint(self.e + Z(o)) if intlike(o) else NotImplemented
	__radd__ = __add__
	def __sub__(self, o):
		return mkint(self.e - Z(o)) if intlike(o) else NotImplemented
	def __rsub__(self, o):
		return mkint(Z(o) - self.e) if intlike(o) else NotImplemented
	def __mul__(self, o):
		if intlike(o):
			return mkint(self.e * Z(o))
		return NotImplemented
	__rmul__ = __mul__
	def __neg__(self):
		return mkint(-self.e)
	def __pos__(self):
		return self
	def __abs__(self):
		return -self if ctx().branch(self.e < 0) else self
	def __floordiv__(self, o):
		return floordiv(self, o) if intlike(o) else NotImplemented
	def __rfloordiv__(self, o):
		return floordiv(o, self) if intlike(o) else NotImplemented
	def __mod__(self, o):
		return pymod(self, o) if intlike(o) else NotImplemented
	def __rmod__(self, o):
		return pymod(o, self) if intlike(o) else NotImplemented
	def __divmod__(self, o):
		return (floordiv(self, o), pymod(self, o)) if intlike(o) else NotImplemented
	def __rdivmod__(self, o):
		return (floordiv(o, self), pymod(o, self)) if intlike(o) else NotImplemented
	def __truediv__(self, o):
		raise Unsupported("true division of a symbolic integer")
	__rtruediv__ = __truediv__
	def __pow__(self, o):
		if concrete_int(o) and 0 <= o <= 4:
			r = 1
			for _ in range(o):
				r = r * self
			return r
		raise Unsupported("symbolic power")
	def __rpow__(self, o):
		raise Unsupported("symbolic exponent")
	def __lshift__(self, o):
		if concrete_int(o):
			if o < 0:
				raise ValueError("negative shift count")
			return mkint(self.e * (1 << o))
		return self * pow2(o)
	def __rlshift__(self, o):
		return o * pow2(self)
	def __rshift__(self, o):
		if concrete_int(o):
			if o < 0:
				raise ValueError("negative shift count")
			return mkint(self.e / (1 << o))
		return floordiv(self, pow2(o))
	def __rrshift__(self, o):
		return floordiv(o, pow2(self))
	def __and__(self, o):
		if concrete_int(o):
			return py_and_const(self, int(o))
		return bitop('and', self, o)
	def __rand__(self, o):
		return self.__and__(o)
	def __or__(self, o):
		if concrete_int(o):
			return self + int(o) - py_and_const(self, int(o))
		return bitop('or', self, o)
	def __ror__(self, o):
		return self.__or__(o)
	def __xor__(self, o):
		if concrete_int(o):
			return self + int(o) - 2 * py_and_const(self, int(o))
		return bitop('xor', self, o)
	def __rxor__(self, o):
		return self.__xor__(o)
	def __invert__(self):
		return mkint(-self.e - 1)
	def __eq__(self, o):
		if intlike(o):
			return mkbool(self.e == Z(o))
		return False
	def __ne__(self, o):
		if intlike(o):
			return mkbool(self.e != Z(o))
		return True
	def __lt__(self, o):
		return mkbool(self.e < Z(o)) if intlike(o) else NotImplemented
	def __le__(self, o):
		return mkbool(self.e <= Z(o)) if intlike(o) else NotImplemented
	def __gt__(self, o):
		return mkbool(self.e > Z(o)) if intlike(o) else NotImplemented
	def __ge__(self, o):
		return mkbool(self.e >= Z(o)) if intlike(o) else NotImplemented
	def __getattr__(self, name):
		if hasattr(int, name):
			raise Unsupported("int.%s on a symbolic integer" % name)
		raise AttributeError("'int' object has no attribute %r" % name)
	def __str__(self):
		raise Unsupported("str() of symbolic int outside the model")
	__format__ = None

def concretize(x):
	"the value of x if the path condition determines it, else None"
	if concrete_int(x):
		return int(x)
	c = ctx()
	c.solver.push()
	try:
		if c.solver.check() != z3.sat:
			return None
		v = c.solver.model().eval(Z(x), model_completion=True)
		if not z3.is_int_value(v):
			return None
		v = v.as_long()
	finally:
		c.solver.pop()
	if c.entails(Z(x) == v):
		return v
	return None

def enum_int(x, limit=64):
	"fork over the possible concrete values of x (finitely many)"
	if concrete_int(x):
		return int(x)
	c = ctx()
	for _ in range(limit):
		c.alive()
		# replay-stable candidate: smallest value first is not needed, but the
		# candidate must be the same on re-execution: recorded as a decision.
		i = len(c.decisions)
		if i < len(c.prefix) and isinstance(c.prefix[i], tuple) and c.prefix[i][0] == 'v':
			_, v, eq = c.prefix[i]
			c.decisions.append(c.prefix[i])
			if eq:
				c.assume(Z(x) == v)
				return v
			c.assume(Z(x) != v)
			continue
		c.solver.push()
		r = c.solver.check()
		if r != z3.sat:
			c.solver.pop()
			if r == z3.unsat:
				c.die(PathEnd("infeasible"))
			raise Unsupported("cannot enumerate integer")
		v = c.solver.model().eval(Z(x), model_completion=True).as_long()
		c.solver.pop()
		if not c.entails(Z(x) == v):
			c.ex.push(tuple(c.decisions) + (('v', v, False),))
		c.decisions.append(('v', v, True))
		c.assume(Z(x) == v)
		return v
	raise Unsupported("integer with too many possible values where a concrete one is needed")

def pow2(k):
	"2**k for a small symbolic k"
	if concrete_int(k):
		return 1 << k
	return 1 << enum_int(k, 70)

def bitop(op, a, b):
	c = ctx()
	ea, eb = Z(a), Z(b)
	# disjoint bits: a multiple of 2**k, b below 2**k
	if op in ('or', 'xor'):
		for x, y in ((ea, eb), (eb, ea)):
			for k in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 48, 64):
				if c.entails(z3.And(y >= 0, y < (1 << k), x % (1 << k) == 0)):
					return mkint(x + y)
	for w in (8, 16, 32, 64):
		if c.entails(z3.And(ea >= 0, eb >= 0, ea < (1 << w), eb < (1 << w))):
			# sum over the bits
			total = z3.IntVal(0)
			for i in range(w):
				x = (ea / (1 << i)) % 2
				y = (eb / (1 << i)) % 2
				if op == 'and':
					bit = z3.If(z3.And(x == 1, y == 1), 1, 0)
				elif op == 'or':
					bit = z3.If(z3.Or(x == 1, y == 1), 1, 0)
				else:
					bit = z3.If(x != y, 1, 0)
				total = total + bit * (1 << i)
			return mkint(total)
	raise Unsupported("bit operation on unbounded symbolic integers")

def floordiv(a, b):
	if concrete_int(a) and concrete_int(b):
		return int(a) // int(b)
	if concrete_int(b):
		b = int(b)
		if b == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if b > 0:
			return mkint(Z(a) / b)
		return mkint((-Z(a)) / (-b))
	c = ctx()
	if c.branch(Z(b) == 0):
		raise ZeroDivisionError("integer division or modulo by zero")
	if c.branch(Z(b) > 0):
		return mkint(Z(a) / Z(b))
	return mkint((-Z(a)) / (-Z(b)))

def pymod(a, b):
	if concrete_int(a) and concrete_int(b):
		return int(a) % int(b)
	if concrete_int(b):
		b = int(b)
		if b == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if b > 0:
			return mkint(Z(a) % b)
		return mkint(-((-Z(a)) % (-b)))
	c = ctx()
	if c.branch(Z(b) == 0):
		raise ZeroDivisionError("integer division or modulo by zero")
	if c.branch(Z(b) > 0):
		return mkint(Z(a) % Z(b))
	return mkint(-((-Z(a)) % (-Z(b))))

class SBool(object):
	__slots__ = ('e',)
	def __init__(self, e):
		self.e = e
	@property
	def __class__(self):
		return bool
	def __repr__(self):
		return 'SBool(%s)' % (self.e,)
	def __hash__(self):
		return id(self)
	def __bool__(self):
		return ctx().branch(self.e)
	def __index__(self):
		return int(bool(self))
	def __and__(self, o):
		return mkbool(z3.And(self.e, B(o)))
	__rand__ = __and__
	def __or__(self, o):
		return mkbool(z3.Or(self.e, B(o)))
	__ror__ = __or__
	def __xor__(self, o):
		return mkbool(z3.Xor(self.e, B(o)))
	__rxor__ = __xor__
	def __invert__(self):
		return mkbool(z3.Not(self.e))
	def __eq__(self, o):
		if _type(o) in (bool, SBool):
			return mkbool(self.e == B(o))
		if intlike(o):
			return mkbool(Z(self) == Z(o))
		return False
	def __ne__(self, o):
		r = self.__eq__(o)
		return mkbool(z3.Not(B(r)))
	def __add__(self, o):
		return mkint(Z(self) + Z(o))
	__radd__ = __add__
	def __mul__(self, o):
		return mkint(Z(self) * Z(o))
	__rmul__ = __mul__

class SObj(object):
	"an opaque Python object: only identity (and equality to itself) is known"
	__slots__ = ('name', 'attrs', 'cls')
	def __init__(self, name, cls=object):
		self.name = name
		self.cls = cls
		self.attrs = {}
	@property
	def __class__(self):
		return self.cls
	def __repr__(self):
		return 'SObj(%s)' % (self.name,)
	def __hash__(self):
		return hash(self.name)
	def __eq__(self, o):
		return self is o
	def __ne__(self, o):
		return self is not o

# ---------------------------------------------------------------- sequences

class Atom(object):
	"a sequence of unknown content"
	__slots__ = ('name', 'kind', 'length', 'free', 'allowed', 'fn', 'arg', 'elem', 'inv', 'const')
	def __init__(self, name, kind, length, free=frozenset(), allowed=None, fn=None, arg=None, elem=None):
		self.name = name
		self.kind = kind
		self.length = length   # z3 Int expr
		self.free = frozenset(free)
		self.allowed = frozenset(allowed) if allowed is not None else None
		self.fn = fn           # Hom (or other function tag) and argument rope
		self.arg = arg
		self.elem = elem       # element factory for list/tuple atoms
		self.inv = None
		self.const = None      # (element,) where all elements are the same
	def __repr__(self):
		return '<%s>' % (self.name,)
	def excludes(self, ch):
		"ch (int, or set of ints) cannot occur"
		if isinstance_raw(ch, int):
			if ch in self.free:
				return True
			return self.allowed is not None and ch not in self.allowed
		return False

def new_atom(kind, base, free=(), allowed=None, elem=None, length=None, minlen=0, fn=None, arg=None):
	c = ctx()
	name = c.fresh(base)
	if length is None:
		length = z3.Int('len(%s)' % name)
		c.assume(length >= minlen)
	a = Atom(name, kind, length, free, allowed, fn, arg, elem)
	return a

def norm_pieces(pieces):
	"expand the path's substitution; merge literals; drop empties"
	c = ctx()
	out = []
	stack = list(reversed(pieces))
	while stack:
		p = stack.pop()
		k = p[0]
		if k == 'A':
			a = p[1]
			s = c.subst.get(a)
			if s is not None:
				stack.extend(reversed(s))
				continue
			if a.fn is not None and isinstance_raw(a.fn, Hom):
				arg = norm_pieces(a.arg.pieces)
				if not (len(arg) == 1 and arg[0][0] == 'A' and arg[0][1] is a.arg.pieces[0][1]):
					img = hom_pieces(a.fn, a.arg.kind, arg)
					if ('link', a) not in c.eqvars:
						# the length of the image is the sum of those of its parts
						c.eqvars[('link', a)] = True
						t = z3.IntVal(0)
						for q in img:
							t = t + piece_len(q)
						if c.dead is None:
							c.assume(a.length == t)
					stack.extend(reversed(img))
					continue
			if z3.is_int_value(a.length) and a.length.as_long() == 0:
				continue
			out.append(p)
		elif k == 'L':
			if not p[1]:
				continue
			if out and out[-1][0] == 'L':
				out[-1] = ('L', out[-1][1] + p[1])
			else:
				out.append(p)
		else:
			out.append(p)
	return tuple(out)

def piece_len(p):
	if p[0] == 'L':
		return z3.IntVal(len(p[1]))
	if p[0] == 'E':
		return z3.IntVal(p[1])
	return p[1].length

def E_bytes(width, v):
	"expand a big-endian encoded unsigned integer into its bytes"
	if concrete_int(v):
		return tuple(int(v).to_bytes(width, 'big'))
	e = Z(v)
	return tuple(mkint((e / (1 << (8 * (width - 1 - i)))) % 256) for i in range(width))

def lit_elems(x):
	"elements of a concrete python sequence"
	t = _type(x)
	if issubclass(t, (bytes, bytearray)):
		return tuple(bytes(x))
	if issubclass(t, str):
		return tuple(ord(ch) for ch in str(x))
	return tuple(tuple.__iter__(x)) if issubclass(t, tuple) else tuple(x)

def kind_of(x):
	t = _type(x)
	if t is SSeq:
		return x.kind
	if issubclass(t, bytes):
		return 'bytes'
	if issubclass(t, str):
		return 'str'
	if issubclass(t, bytearray):
		return 'bytearray'
	if issubclass(t, tuple):
		return 'tuple'
	if issubclass(t, list):
		return 'list'
	if issubclass(t, memoryview):
		return 'mv'
	return None

def to_seq(x, kind=None):
	t = _type(x)
	if t is SSeq:
		return x
	k = kind_of(x)
	if k is None:
		raise Unsupported("not a sequence: %r" % (t,))
	if k == 'mv':
		return SSeq(k, (('L', tuple(x.tobytes())),))
	return SSeq(kind or k, (('L', lit_elems(x)),))

def from_elems(kind, elems):
	"concrete python value if all elements are concrete"
	if kind in ('bytes', 'mv', 'bytearray'):
		if all(concrete_int(e) for e in elems):
			b = bytes(elems)
			return b if kind == 'bytes' else (memoryview(b) if kind == 'mv' else bytearray(b))
	elif kind == 'str':
		if all(concrete_int(e) for e in elems):
			return ''.join(map(chr, elems))
	elif kind == 'tuple':
		return tuple(elems)
	elif kind == 'list':
		return list(elems)
	return None

def mkseq(kind, pieces):
	"SSeq, or the plain python value when nothing is symbolic"
	n = norm_pieces(tuple(pieces))
	if not n:
		v = from_elems(kind, ())
		return v
	if kind != 'list' and len(n) == 1 and n[0][0] == 'L':
		v = from_elems(kind, n[0][1])
		if v is not None:
			return v
	if kind in ('bytes',) and all(p[0] == 'L' or (p[0] == 'E' and concrete_int(p[2])) for p in n):
		el = ()
		for p in n:
			el += p[1] if p[0] == 'L' else E_bytes(p[1], p[2])
		v = from_elems(kind, el)
		if v is not None:
			return v
	return SSeq(kind, n)

def slen(x):
	"length of a (symbolic or concrete) sequence: int or SInt"
	if _type(x) is not SSeq:
		return len(x)
	n = norm_pieces(x.pieces)
	if not n:
		return 0
	t = piece_len(n[0])
	for p in n[1:]:
		t = t + piece_len(p)
	return mkint(t)

def split_pieces(pieces, k, kind):
	"""
	(left, right) with len(left) == k.  The caller guarantees 0 <= k <= len.
	Forks when the path condition does not say which piece k falls in.
	"""
	c = ctx()
	k = Z(k)
	left = []
	pieces = list(norm_pieces(pieces))
	cum = z3.IntVal(0)
	guard = 0
	while True:
		guard += 1
		if guard > 5000:
			raise Unsupported("split did not terminate")
		if not pieces:
			return tuple(left), ()
		if c.branch(k <= cum):
			return tuple(left), tuple(pieces)
		p = pieces[0]
		l = piece_len(p)
		nxt = z3.simplify(cum + l)
		if c.branch(k >= nxt):
			left.append(p)
			pieces.pop(0)
			cum = nxt
			continue
		# strictly inside p
		off = z3.simplify(k - cum)
		if p[0] == 'L':
			o = enum_int(mkint(off), 600)
			return tuple(left) + (('L', p[1][:o]),), (('L', p[1][o:]),) + tuple(pieces[1:])
		if p[0] == 'E':
			pieces[0] = ('L', E_bytes(p[1], p[2]))
			continue
		a = p[1]
		if a.fn is not None and isinstance_raw(a.fn, Hom):
			# open the homomorphic image: its argument is not empty
			expose_first(a.arg)
			pieces = list(norm_pieces(tuple(pieces)))
			continue
		x, y = split_atom(a, off)
		return tuple(left) + x, y + tuple(pieces[1:])

def split_atom(a, off):
	"a := x ++ y with len(x) == off"
	c = ctx()
	off = z3.simplify(off)
	x = new_atom(a.kind, a.name + '.l', a.free, a.allowed, a.elem, length=off)
	y = new_atom(a.kind, a.name + '.r', a.free, a.allowed, a.elem, length=z3.simplify(a.length - off))
	x.const = y.const = a.const
	c.subst[a] = (('A', x), ('A', y))
	return (('A', x),), (('A', y),)

def fresh_elem(a):
	"a fresh element of the atom"
	c = ctx()
	if a.kind in ('bytes', 'bytearray', 'mv'):
		v = z3.Int(c.fresh(a.name + '[]'))
		c.assume(z3.And(v >= 0, v <= 255))
	elif a.kind == 'str':
		v = z3.Int(c.fresh(a.name + '[]'))
		c.assume(z3.And(v >= 0, v <= 0x10FFFF))
	else:
		if a.elem is None:
			raise Unsupported("no element model for " + a.name)
		return a.elem(c.fresh(a.name + '[]'))
	for f in a.free:
		c.assume(v != f)
	if a.allowed is not None:
		c.assume(z3.Or([v == f for f in sorted(a.allowed)]) if a.allowed else z3.BoolVal(False))
	return SInt(v)

def expose_first(seq):
	"make the first element of a (provably or assumed) non-empty rope explicit"
	c = ctx()
	for _ in range(200):
		n = norm_pieces(seq.pieces)
		if not n:
			return None
		p = n[0]
		if p[0] == 'L':
			return p[1][0]
		if p[0] == 'E':
			return E_bytes(p[1], p[2])[0]
		a = p[1]
		if c.branch(a.length == 0):
			c.subst[a] = ()
			continue
		if a.fn is not None and isinstance_raw(a.fn, Hom):
			expose_first(a.arg)
			continue
		if a.fn is not None:
			# other function images are opaque
			pass
		v = fresh_elem(a)
		y = new_atom(a.kind, a.name + '.t', a.free, a.allowed, a.elem, length=z3.simplify(a.length - 1))
		y.const = a.const
		c.subst[a] = (('L', (v,)), ('A', y))
		return v
	raise Unsupported("expose_first")

def expose_last(seq):
	c = ctx()
	for _ in range(200):
		n = norm_pieces(seq.pieces)
		if not n:
			return None
		p = n[-1]
		if p[0] == 'L':
			return p[1][-1]
		if p[0] == 'E':
			return E_bytes(p[1], p[2])[-1]
		a = p[1]
		if c.branch(a.length == 0):
			c.subst[a] = ()
			continue
		if a.fn is not None and isinstance_raw(a.fn, Hom):
			expose_last(a.arg)
			continue
		v = fresh_elem(a)
		y = new_atom(a.kind, a.name + '.i', a.free, a.allowed, a.elem, length=z3.simplify(a.length - 1))
		y.const = a.const
		c.subst[a] = (('A', y), ('L', (v,)))
		return v
	raise Unsupported("expose_last")

# ---------------------------------------------------------------- homomorphic functions

class Hom(object):
	"""
	f(x ++ y) == f(x) ++ f(y), given by its value on one element.  Used both for
	specification functions (enc of a list of messages) and for the library
	functions that act element by element (str.replace of one character).
	"""
	def __init__(self, name, out_kind, elem, minlen=0, exactlen=None, free=(), allowed=None, out_elem=None):
		self.name = name
		self.out_kind = out_kind
		self.elem = elem
		self.minlen = minlen
		self.exactlen = exactlen
		self.free = frozenset(free)
		self.allowed = allowed
		self.out_elem = out_elem
		self.table = self.lens = None
	def __call__(self, seq):
		if _type(seq) is not SSeq:
			if core.CTX is None:
				return self.concrete(seq)
			seq = to_seq(seq)
		return mkseq(self.out_kind, hom_pieces(self, seq.kind, norm_pieces(seq.pieces)))
	def concrete(self, seq):
		"the same function on plain python values (replay, runtime checks)"
		r = None
		for x in seq:
			y = self.elem(x)
			r = y if r is None else r + y
		if r is None:
			return {'bytes': b'', 'str': '', 'list': [], 'tuple': ()}[self.out_kind]
		return r

def elem_value(kind, e):
	"element as python code sees it when iterating"
	if kind == 'str':
		return mkseq('str', (('L', (e,)),))
	return e

def hom_pieces(hom, kind, pieces):
	c = ctx()
	out = []
	for p in pieces:
		if p[0] == 'A' and hom.table is not None and all(p[1].excludes(ch) for ch in hom.table):
			out.append(p)
			continue
		if p[0] == 'A':
			key = ('hom', hom.name, p[1])
			a = c.eqvars.get(key)
			if a is None:
				src = p[1]
				free = hom.free
				if hom.table is not None:
					# what the source excludes only the values could bring in
					free = free | (frozenset(src.free) - hom.outs)
				a = new_atom(hom.out_kind, '%s(%s)' % (hom.name, src.name), free, hom.allowed, hom.out_elem,
					fn=hom, arg=SSeq(kind, (p,)))
				if hom.exactlen is not None:
					a.length = z3.simplify(hom.exactlen * src.length)
				else:
					lo, hi, base = hom.lens + (src,) if hom.lens else image_len(hom, src)
					lo = max(lo, hom.minlen)
					if lo == hi:
						a.length = z3.simplify(lo * base.length)
					else:
						if lo:
							c.assume(a.length >= lo * base.length)
						if hi is not None:
							c.assume(a.length <= hi * base.length)
						c.assume(z3.Implies(base.length == 0, a.length == 0))
				c.eqvars[key] = a
			out.append(('A', a))
		else:
			elems = p[1] if p[0] == 'L' else E_bytes(p[1], p[2])
			for e in elems:
				out.extend(to_seq(hom.elem(elem_value(kind, e))).pieces)
	return norm_pieces(tuple(out))

def image_len(hom, src):
	"bounds of the length of the image of one element (lemma for an arbitrary element)"
	base, fns = hom_base(src)
	if base is None:
		return 0, None, src
	c = ctx()
	key = ('ilen', hom.name, base.name, tuple(f.name for f in fns))
	if key in c.eqvars:
		return c.eqvars[key] + (base,)
	lens = []
	def body(sub):
		e = fresh_elem(base)
		img = apply_chain(list(fns) + [hom], base.kind, e)
		l = slen(img)
		v = concretize(l)
		if v is not None:
			lens.append((v, v))
			return
		lo = 0
		while lo < 16 and sub.entails(Z(l) >= lo + 1):
			lo += 1
		lens.append((lo, None))
	c.eqvars[key] = (0, None)
	try:
		ok = core.nested(body)
	except core.BudgetExceeded:
		raise
	if ok and lens:
		his = [h for _, h in lens]
		c.eqvars[key] = (min(l for l, _ in lens), None if None in his else max(his))
	return c.eqvars[key] + (base,)

# ---------------------------------------------------------------- equality

def elem_eq(x, y):
	"z3 condition (or bool) for the equality of two elements"
	return B(deep_eq(x, y))

def deep_eq(x, y):
	"symbolic equality of two python values: bool or SBool.  May fork."
	if x is y and not isinstance_raw(x, float):
		return True
	kx, ky = kind_of(x), kind_of(y)
	sx, sy = _type(x) is SSeq, _type(y) is SSeq
	if sx or sy:
		for a, b, k in ((x, y, kx), (y, x, ky)):
			if k is None and isinstance_raw(getattr(_type(a), '__eq__', None), FunctionType):
				r = _type(a).__eq__(a, b)
				if r is not NotImplemented:
					return r
		if kx is None or ky is None:
			return False
		if not same_kind(kx, ky):
			return False
		return mkbool(seq_eq(to_seq(x), to_seq(y)))
	if kx in ('tuple', 'list') and ky == kx:
		if len(x) != len(y):
			return False
		cond = []
		for a, b in zip(lit_elems(x), lit_elems(y)):
			r = deep_eq(a, b)
			if r is False:
				return False
			cond.append(B(r))
		return mkbool(z3.And(cond)) if cond else True
	if isinstance_raw(x, dict) and isinstance_raw(y, dict):
		if len(x) != len(y):
			return False
		cond = []
		for k in x:
			if k not in y:
				return False
			cond.append(B(deep_eq(x[k], y[k])))
		return mkbool(z3.And(cond)) if cond else True
	for a, b in ((x, y), (y, x)):
		f = getattr(_type(a), 'same', None)
		if f is not None and _type(a).__name__ == 'SFloat':
			return f(a, b)
	r = (x == y)
	if r is NotImplemented:
		return False
	return r

BYTESY = ('bytes', 'bytearray', 'mv')
def same_kind(a, b):
	return a == b or (a in BYTESY and b in BYTESY)

def rope_key(pieces):
	out = []
	for p in pieces:
		if p[0] == 'L':
			out.append('L' + repr([e if not is_sym(e) else str(getattr(e, 'e', e)) for e in p[1]]))
		elif p[0] == 'E':
			out.append('E%d:%s' % (p[1], p[2] if concrete_int(p[2]) else p[2].e))
		else:
			out.append('A' + p[1].name)
	return '|'.join(out)

def strip_common(a, b):
	"drop syntactically identical heads and tails"
	a, b = list(a), list(b)
	def same(p, q):
		if p[0] != q[0]:
			return False
		if p[0] == 'A':
			return p[1] is q[1]
		if p[0] == 'E':
			return p[1] == q[1] and (p[2] is q[2] or (not is_sym(p[2]) and not is_sym(q[2]) and p[2] == q[2])
				or (is_sym(p[2]) and is_sym(q[2]) and z3.eq(p[2].e, q[2].e)))
		return False
	def elem_same(x, y):
		if x is y:
			return True
		if is_sym(x) or is_sym(y):
			return _type(x) is SInt and _type(y) is SInt and z3.eq(x.e, y.e)
		try:
			return concrete_int(x) and concrete_int(y) and x == y
		except Exception:
			return False
	changed = True
	while changed and a and b:
		changed = False
		if same(a[0], b[0]):
			a.pop(0); b.pop(0); changed = True
			continue
		if a[0][0] == 'L' and b[0][0] == 'L':
			x, y = a[0][1], b[0][1]
			i = 0
			while i < len(x) and i < len(y) and elem_same(x[i], y[i]):
				i += 1
			if i:
				changed = True
				a[0] = ('L', x[i:]); b[0] = ('L', y[i:])
				if not a[0][1]: a.pop(0)
				if not b[0][1]: b.pop(0)
	changed = True
	while changed and a and b:
		changed = False
		if same(a[-1], b[-1]):
			a.pop(); b.pop(); changed = True
			continue
		if a[-1][0] == 'L' and b[-1][0] == 'L':
			x, y = a[-1][1], b[-1][1]
			i = 0
			while i < len(x) and i < len(y) and elem_same(x[-1 - i], y[-1 - i]):
				i += 1
			if i:
				changed = True
				a[-1] = ('L', x[:len(x) - i]); b[-1] = ('L', y[:len(y) - i])
				if not a[-1][1]: a.pop()
				if not b[-1][1]: b.pop()
	return tuple(a), tuple(b)

def plen(pieces):
	t = z3.IntVal(0)
	for p in pieces:
		t = t + piece_len(p)
	return z3.simplify(t)

def must_differ(a, q):
	"atom a cannot equal the rope q (of the same length)"
	for p in q:
		if p[0] == 'L':
			for e in p[1]:
				if concrete_int(e) and a.excludes(int(e)):
					return True
	return False

def seq_eq(x, y, unify=False):
	"""
	z3 Bool (or bool) for rope equality; forks on lengths where needed.  Opaque
	atom/rope equalities become named propositions, which unify() turns into
	substitutions when they are assumed.
	"""
	c = ctx()
	conds = []
	kind = x.kind
	a, b = norm_pieces(x.pieces), norm_pieces(y.pieces)
	if link_homs(a, b):
		a, b = norm_pieces(a), norm_pieces(b)
	guard = 0
	nopen = 0
	while True:
		guard += 1
		if guard > 2000:
			raise Unsupported("sequence equality did not terminate")
		a, b = strip_common(norm_pieces(a), norm_pieces(b))
		if not a and not b:
			break
		la, lb = plen(a), plen(b)
		if not c.branch(la == lb):
			return False
		if not a or not b:
			# equal lengths, one side empty: the other is empty too
			for p in (a or b):
				if p[0] != 'A':
					return False
				c.assume(p[1].length == 0)
				c.subst[p[1]] = ()
			break
		p, q = a[0], b[0]
		if p[0] == 'A' and c.branch(p[1].length == 0):
			if p[1] not in c.subst: c.subst[p[1]] = ()
			continue
		if q[0] == 'A' and c.branch(q[1].length == 0):
			if q[1] not in c.subst: c.subst[q[1]] = ()
			continue
		if p[0] == 'E' and q[0] == 'E' and p[1] == q[1]:
			conds.append(Z(p[2]) == Z(q[2]))
			a, b = a[1:], b[1:]
			continue
		if p[0] == 'E' and q[0] != 'A':
			a = (('L', E_bytes(p[1], p[2])),) + a[1:]
			p = a[0]
		if q[0] == 'E' and p[0] != 'A':
			b = (('L', E_bytes(q[1], q[2])),) + b[1:]
			q = b[0]
		if p[0] == 'L' and q[0] == 'L':
			n = min(len(p[1]), len(q[1]))
			for i in range(n):
				r = elem_eq(p[1][i], q[1][i])
				r = z3.simplify(r)
				if z3.is_false(r):
					return False
				if not z3.is_true(r):
					conds.append(r)
			a = (('L', p[1][n:]),) + a[1:]
			b = (('L', q[1][n:]),) + b[1:]
			continue
		opened2 = False
		for h, o in ((p, q), (q, p)):
			if h[0] == 'A' and h[1].fn is not None and isinstance_raw(h[1].fn, Hom) and o[0] != 'A':
				base, _ = hom_base(h[1])
				if base is not None and nopen < 6:
					nopen += 1
					if c.branch(base.length == 0):
						c.subst[base] = ()
					else:
						expose_first(SSeq(base.kind, (('A', base),)))
					opened2 = True
					break
		if opened2:
			continue
		if p[0] == 'A' and q[0] == 'A':
			# same function, try the arguments
			ap, aq = p[1], q[1]
			if c.branch(ap.length == aq.length):
				r = atom_eq(ap, (q,), unify)
				if r is False:
					return False
				if r is not True:
					conds.append(r)
				a, b = a[1:], b[1:]
				continue
		# an atom against something of another length: cut the longer side
		if p[0] == 'A':
			atom, rest, other, swap = p[1], a[1:], b, False
		else:
			atom, rest, other, swap = q[1], b[1:], a, True
		if not c.branch(atom.length <= plen(other)):
			return False
		pre, post = split_pieces(other, atom.length, kind)
		# splitting may have refined the atom itself
		if norm_pieces((('A', atom),)) != (('A', atom),):
			a, b = ((('A', atom),) + tuple(rest), tuple(pre) + tuple(post))
			continue
		r = atom_eq(atom, norm_pieces(pre), unify)
		if r is False:
			return False
		if r is not True:
			conds.append(r)
		a, b = tuple(rest), tuple(post)
	if not conds:
		return True
	return z3.And(conds)

def link_homs(a, b):
	"identify images of the same sequence under functions proved equal"
	c = ctx()
	n = 0
	for p in a:
		if p[0] != 'A' or p[1].fn is None or not isinstance_raw(p[1].fn, Hom):
			continue
		base, _ = hom_base(p[1])
		if base is None:
			continue
		for q in b:
			if q[0] == 'A' and q[1] is not p[1] and q[1].fn is not None and isinstance_raw(q[1].fn, Hom) and hom_base(q[1])[0] is base:
				if p[1] in c.subst or q[1] in c.subst:
					continue
				if p[1].kind == q[1].kind or (p[1].kind in BYTESY and q[1].kind in BYTESY) or (p[1].kind in ('list', 'tuple') and q[1].kind in ('list', 'tuple')):
					if hom_equal(p[1], q[1]):
						c.assume(p[1].length == q[1].length)
						c.subst[p[1]] = (q,)
						n += 1
						break
	return n

def occurs(atom, pieces):
	for p in norm_pieces(pieces):
		if p[0] == 'A':
			if p[1] is atom:
				return True
			if p[1].arg is not None and occurs(atom, p[1].arg.pieces):
				return True
	return False

def atom_eq(atom, q, unify):
	"equality of an atom and a rope of the same length"
	c = ctx()
	q = norm_pieces(q)
	if len(q) == 1 and q[0][0] == 'A' and q[0][1] is atom:
		return True
	if must_differ(atom, q):
		return False
	if len(q) == 1 and q[0][0] == 'A':
		o = q[0][1]
		if atom.fn is not None and o.fn is atom.fn and atom.arg is not None and getattr(atom.fn, 'injective', False):
			return seq_eq(atom.arg, o.arg, unify)
		if hom_equal(atom, o) or same_const(atom, o):
			return True
	if unify:
		if atom.fn is None and not occurs(atom, q):
			bind(atom, q)
			return True
		if len(q) == 1 and q[0][0] == 'A' and q[0][1].fn is None and not occurs(q[0][1], (('A', atom),)):
			bind(q[0][1], (('A', atom),))
			return True
	k1, k2 = atom.name, rope_key(q)
	if len(q) == 1 and q[0][0] == 'A' and k2[1:] < k1:
		k1, k2 = k2[1:], 'A' + k1
	key = 'eq(%s,%s)' % (k1, k2)
	v = z3.Bool(key)
	if ('eq', key) not in c.eqvars and len(q) == 1 and q[0][0] == 'L' and all(concrete_int(e) for e in q[0][1]):
		c.subst.literals.setdefault(atom, []).append((v, q[0][1]))
	c.eqvars[('eq', key)] = (atom, q)
	return v

class Subst(dict):
	"what atoms turned out to be; propositions 'atom == literal' are carried over to the new pieces"
	def __init__(self, other=()):
		dict.__init__(self, other)
		self.literals = dict((k, list(v)) for k, v in getattr(other, 'literals', {}).items())
	def __setitem__(self, atom, pieces):
		dict.__setitem__(self, atom, pieces)
		lits = self.literals.get(atom)
		if lits and core.CTX is not None:
			for v, lit in lits:
				r = match_literal(tuple(pieces), lit)
				if r is not None:
					core.CTX.assume(v == r)
core.SUBST = Subst

def match_literal(pieces, lit):
	"pieces == lit (concrete elements), without forking; None where too long to say"
	if not pieces:
		return z3.BoolVal(not lit)
	p, rest = pieces[0], pieces[1:]
	if p[0] == 'L':
		n = len(p[1])
		if n > len(lit):
			return z3.BoolVal(False)
		r = match_literal(rest, lit[n:])
		if r is None:
			return None
		return z3.And([elem_eq(x, y) for x, y in zip(p[1], lit)] + [r])
	if p[0] != 'A':
		return None
	a = p[1]
	if a in ctx().subst:
		return match_literal(norm_pieces((p,)) + tuple(rest), lit)
	n = z3.simplify(Z(a.length))
	def head(k):
		if k == 0:
			return z3.BoolVal(True)
		r = atom_eq(a, (('L', tuple(lit[:k])),), False)
		return z3.BoolVal(r) if isinstance(r, bool) else r
	if z3.is_int_value(n):
		k = n.as_long()
		ks = [k] if k <= len(lit) else []
	elif not rest:
		ks = [len(lit)]
	else:
		ks = range(len(lit) + 1)
		if len(lit) > 12:
			return None
	out = []
	for k in ks:
		r = match_literal(rest, lit[k:])
		if r is None:
			return None
		r = z3.simplify(z3.And(a.length == k, head(k), r))
		if not z3.is_false(r):
			out.append(r)
	return z3.Or(out) if out else z3.BoolVal(False)

def bind(atom, q):
	"substitute atom := q, keeping the facts known of its elements"
	c = ctx()
	for p in q:
		if p[0] == 'L':
			for e in p[1]:
				if atom.kind in ('bytes', 'str') and not concrete_int(e):
					for f in atom.free:
						c.assume(Z(e) != f)
					if atom.allowed is not None:
						c.assume(z3.Or([Z(e) == f for f in sorted(atom.allowed)]))
				elif concrete_int(e) and atom.kind in ('bytes', 'str') and atom.excludes(int(e)):
					c.die(PathEnd("infeasible content"))
		elif p[0] == 'A' and atom.kind in ('list', 'tuple'):
			if p[1].elem is None and p[1].fn is None:
				p[1].elem = atom.elem
		elif p[0] == 'A' and atom.kind in ('bytes', 'str'):
			if atom.free - p[1].free or (atom.allowed is not None and p[1].allowed is None):
				# narrow the other atom
				o = p[1]
				if o.fn is None:
					if o.allowed is not None and atom.allowed is not None:
						allowed = o.allowed & atom.allowed
					else:
						allowed = o.allowed if o.allowed is not None else atom.allowed
					n = new_atom(o.kind, o.name + '.n', o.free | atom.free, allowed, o.elem, length=o.length)
					if o not in c.subst:
						c.subst[o] = (('A', n),)
	c.assume(atom.length == plen(q))
	c.subst[atom] = tuple(q)

def assume_seq_eq(x, y):
	"assume equality, by unification"
	c = ctx()
	r = seq_eq(to_seq(x), to_seq(y), unify=True)
	c.assume(r if not isinstance(r, bool) else r)

def branch_eq(r):
	"decide an equality condition; opaque propositions that become true are unified"
	return ctx().branch(r)

def learn(f):
	"after a branch made f true: turn opaque equalities in f into substitutions"
	c = ctx()
	todo = [f]
	while todo:
		g = todo.pop()
		if z3.is_and(g):
			todo.extend(g.children())
		elif z3.is_const(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED:
			key = ('eq', g.decl().name())
			if key in c.eqvars:
				atom, q = c.eqvars[key]
				if atom in c.subst:
					continue
				q = norm_pieces(q)
				if atom.fn is None and not occurs(atom, q):
					bind(atom, q)
				elif len(q) == 1 and q[0][0] == 'A' and q[0][1].fn is None and q[0][1] not in c.subst \
				and not occurs(q[0][1], (('A', atom),)):
					bind(q[0][1], (('A', atom),))

_orig_branch = core.Ctx.branch
def _branch(self, f):
	r = _orig_branch(self, f)
	if r and not isinstance(f, bool):
		learn(f)
	return r
core.Ctx.branch = _branch

# ---------------------------------------------------------------- the sequence proxy

WS_BYTES = frozenset(b' \t\n\r\x0b\x0c')
WS_STR = frozenset([9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288])

_RANGES = {}
def class_ranges(name, kind):
	r = _RANGES.get((name, kind))
	if r is None:
		out, start = [], None
		top = 0x110000 if kind == 'str' else 256
		for i in range(top + 1):
			if i == top:
				ok = False
			elif kind == 'str':
				ok = getattr(chr(i), name)()
			else:
				ok = getattr(bytes((i,)), name)()
			if ok and start is None:
				start = i
			elif not ok and start is not None:
				out.append((start, i - 1))
				start = None
		r = _RANGES[(name, kind)] = out
	return r

def in_ranges(e, rs):
	return z3.Or([e == a if a == b else z3.And(e >= a, e <= b) for a, b in rs])

def char_class(self, name):
	"str.isdigit and the like"
	n = self.norm()
	if self.kind not in ('str', 'bytes', 'bytearray'):
		raise AttributeError(name)
	kind = 'str' if self.kind == 'str' else 'bytes'
	if not ctx().branch(Z(slen(self)) > 0):
		return False
	one = (lambda i: getattr(chr(i), name)()) if kind == 'str' else (lambda i: getattr(bytes((i,)), name)())
	for p in n:
		if p[0] == 'L':
			for e in p[1]:
				if concrete_int(e):
					if not one(int(e)):
						return False
					continue
				rs = class_ranges(name, kind)
				low = [(a, min(b, 127)) for a, b in rs if a < 128]
				if ctx().branch(Z(e) < 128):
					if not low or not ctx().branch(in_ranges(Z(e), low)):
						return False
				else:
					high = [(max(a, 128), b) for a, b in rs if b >= 128]
					if not high or not ctx().branch(in_ranges(Z(e), high)):
						return False
		elif p[0] == 'A':
			a = p[1]
			if a.allowed is not None and all(one(i) for i in a.allowed):
				continue
			if a.fn is None and known_len(a) is not None:
				if not char_class(SSeq(self.kind, opened(a)), name):
					return False
				continue
			if isinstance(a.fn, DecFn) and name in ('isdigit', 'isdecimal', 'isalnum', 'isnumeric', 'isascii') and ctx().branch(Z(a.fn.e) >= 0):
				continue
			raise Unsupported("%s of an unknown sequence" % name)
		else:
			return char_class(SSeq(self.kind, (('L', E_bytes(p[1], p[2])),)), name)
	return True

class SSeq(object):
	__slots__ = ('kind', 'pieces', 'cls')
	def __init__(self, kind, pieces, cls=None):
		self.kind = kind
		self.pieces = tuple(pieces)
		self.cls = cls
	@property
	def __class__(self):
		if self.cls is not None:
			return self.cls
		return {'bytes': bytes, 'str': str, 'list': list, 'tuple': tuple, 'mv': memoryview, 'bytearray': bytearray}[self.kind]
	def __repr__(self):
		try:
			n = norm_pieces(self.pieces) if core.CTX is not None else self.pieces
		except BaseException:
			n = self.pieces
		out = []
		for p in n:
			if p[0] == 'L':
				v = from_elems(self.kind, p[1])
				out.append(repr(v) if v is not None else 'L' + repr(p[1]))
			elif p[0] == 'E':
				out.append('be%d(%s)' % (p[1], p[2]))
			else:
				out.append(repr(p[1]))
		return 'S%s[%s]' % (self.kind, ' + '.join(out))
	def __hash__(self):
		return id(self)
	def norm(self):
		n = norm_pieces(self.pieces)
		if self.kind in ('list', 'bytearray'):
			self.pieces = n
		return n
	def simp(self):
		"plain value if it became concrete"
		return mkseq(self.kind, self.pieces)
	# -- basic
	def __bool__(self):
		return ctx().branch(Z(slen(self)) != 0)
	def __len__(self):
		l = slen(self)
		if concrete_int(l):
			return l
		v = concretize(l)
		if v is None:
			raise Unsupported("len() of a symbolic sequence outside the model")
		return v
	def __add__(self, o):
		k = kind_of(o)
		if k is None or not same_kind(self.kind, k):
			if k is None:
				return NotImplemented
			raise TypeError("can't concat %s to %s" % (k, self.kind))
		return mkseq_l(self.kind, self.norm() + to_seq(o).norm())
	def __radd__(self, o):
		k = kind_of(o)
		if k is None or not same_kind(self.kind, k):
			if k is None:
				return NotImplemented
			raise TypeError("can't concat %s to %s" % (self.kind, k))
		return mkseq_l(k, to_seq(o).norm() + self.norm())
	def __iadd__(self, o):
		if self.kind in ('list', 'bytearray'):
			self.pieces = norm_pieces(self.pieces + to_seq(iter_to_seq(o), self.kind).pieces)
			return self
		return self.__add__(o)
	def __mul__(self, n):
		return seq_mul(self, n)
	__rmul__ = __mul__
	def __mod__(self, args):
		from . import models
		return models.str_mod(self, args)
	def __eq__(self, o):
		if o is self:
			return True
		k = kind_of(o)
		if k is None or not same_kind(self.kind, k):
			return False
		return mkbool(seq_eq(self, to_seq(o)))
	def __ne__(self, o):
		r = self.__eq__(o)
		return mkbool(z3.Not(B(r)))
	def _cmp(self, o):
		"lexicographic: -1, 0, 1 (forks)"
		a, b = self, to_seq(o)
		for _ in range(64):
			la, lb = slen(a), slen(b)
			ea, eb = (la == 0), (lb == 0)
			if ea and eb: return 0
			if ea: return -1
			if eb: return 1
			if norm_pieces(a.pieces) == norm_pieces(b.pieces): return 0
			x, y = expose_first(a), expose_first(b)
			if not (intlike(x) and intlike(y)):
				raise Unsupported("ordering of symbolic sequences")
			if x < y: return -1
			if x > y: return 1
			a = to_seq(seq_slice(a, 1, None), a.kind); b = to_seq(seq_slice(b, 1, None), b.kind)
		raise Unsupported("ordering of unbounded sequences")
	def __lt__(self, o): return self._cmp(o) < 0
	def __le__(self, o): return self._cmp(o) <= 0
	def __gt__(self, o): return self._cmp(o) > 0
	def __ge__(self, o): return self._cmp(o) >= 0
	def __getitem__(self, i):
		if isinstance_raw(i, slice):
			return seq_getslice(self, i)
		return seq_index(self, i)
	def __setitem__(self, i, v):
		if self.kind not in ('list', 'bytearray'):
			raise TypeError("'%s' object does not support item assignment" % self.kind)
		seq_setitem(self, i, v)
	def __delitem__(self, i):
		if self.kind not in ('list', 'bytearray'):
			raise TypeError("'%s' object doesn't support item deletion" % self.kind)
		if isinstance_raw(i, slice):
			a, b = slice_bounds(self, i)
			pre = to_seq(seq_slice(self, 0, a)).pieces
			post = to_seq(seq_slice(self, b, None)).pieces
			self.pieces = norm_pieces(pre + post)
		else:
			i = norm_index(self, i)
			pre = to_seq(seq_slice(self, 0, i)).pieces
			post = to_seq(seq_slice(self, i + 1, None)).pieces
			self.pieces = norm_pieces(pre + post)
	def __iter__(self):
		n = self.norm()
		for p in n:
			if p[0] == 'A' and concretize(mkint(p[1].length)) is None:
				raise Unsupported("iteration over a sequence of unknown length needs a loop invariant: %r" % (self,))
		for p in n:
			if p[0] == 'A':
				k = concretize(mkint(p[1].length))
				s = SSeq(self.kind, (p,))
				for _ in range(k):
					e = expose_first(s)
					yield elem_value(self.kind, e)
					s = to_seq(seq_slice(s, 1, None), self.kind)
			else:
				for e in (p[1] if p[0] == 'L' else E_bytes(p[1], p[2])):
					yield elem_value(self.kind, e)
	def __contains__(self, x):
		if self.kind in ('bytes', 'str', 'bytearray'):
			if intlike(x):
				return find_char(self, x) is not None
			s = to_seq(x)
			if concrete_int(slen(s)) and slen(s) == 0:
				return True
			return seq_find(self, s) is not None
		for e in self:
			if deep_eq(e, x):
				return True
		return False
	# -- list methods
	def append(self, x):
		self._mut()
		self.pieces = norm_pieces(self.pieces + (('L', (x,)),))
	def extend(self, o):
		self._mut()
		self.pieces = norm_pieces(self.pieces + to_seq(iter_to_seq(o)).pieces)
	def insert(self, i, x):
		self._mut()
		if concrete_int(i) and i == 0:
			self.pieces = norm_pieces((('L', (x,)),) + self.pieces)
		else:
			raise Unsupported("list.insert")
	def pop(self, i=-1):
		self._mut()
		if slen(self) == 0:
			raise IndexError("pop from empty list")
		if concrete_int(i) and i == 0:
			e = expose_first(self)
			self.pieces = to_seq(seq_slice(self, 1, None), 'list').pieces
			return e
		if concrete_int(i) and i == -1:
			e = expose_last(self)
			self.pieces = to_seq(seq_slice(self, 0, slen(self) - 1), 'list').pieces
			return e
		raise Unsupported("list.pop(i)")
	def clear(self):
		self._mut()
		self.pieces = ()
	def copy(self):
		return SSeq(self.kind, self.pieces)
	def reverse(self):
		raise Unsupported("list.reverse")
	def _mut(self):
		if self.kind not in ('list', 'bytearray'):
			raise AttributeError("'%s' object has no such attribute" % self.kind)
	# -- text / bytes methods
	def startswith(self, pre, *a):
		if a:
			return to_seq(seq_slice(self, *a)).startswith(pre)
		if isinstance_raw(pre, tuple):
			for p in pre:
				if self.startswith(p):
					return True
			return False
		l = slen(pre)
		if slen(self) < l:
			return False
		return deep_eq(seq_slice(self, 0, l), pre)
	def endswith(self, suf):
		if isinstance_raw(suf, tuple):
			for p in suf:
				if self.endswith(p):
					return True
			return False
		l = slen(suf)
		if slen(self) < l:
			return False
		return deep_eq(seq_slice(self, slen(self) - l, None), suf)
	def find(self, sub, *a):
		base = 0
		s = self
		if a:
			a0, b0 = slice_bounds(self, slice(*a) if len(a) > 1 else slice(a[0], None))
			base = a0
			s = to_seq(seq_slice(self, a0, b0), self.kind)
		if intlike(sub):
			r = find_char(s, sub)
		else:
			r = seq_find(s, to_seq(sub))
		return -1 if r is None else base + slen(mkseq(self.kind, r[0]))
	def index(self, sub, *a):
		if self.kind in ('list', 'tuple'):
			i = 0
			for e in self:
				if deep_eq(e, sub):
					return i
				i += 1
			raise ValueError("not in list")
		r = self.find(sub, *a)
		if concrete_int(r) and r == -1:
			raise ValueError("substring not found")
		return r
	def split(self, sep=None, maxsplit=-1):
		if sep is None:
			return seq_split_ws(self, maxsplit)
		sp = to_seq(sep)
		out = []
		rest = self.norm()
		while maxsplit != 0:
			r = seq_find(SSeq(self.kind, rest), sp, exhaustive=(maxsplit < 0))
			if r is None:
				break
			out.append(mkseq(self.kind, r[0]))
			rest = r[1]
			maxsplit -= 1
			if len(out) > 300:
				raise Unsupported("unbounded split")
		out.append(mkseq(self.kind, rest))
		return out
	def partition(self, sep):
		r = seq_find(self, to_seq(sep))
		if r is None:
			e = from_elems(self.kind, ())
			return (self.simp(), e, e)
		return (mkseq(self.kind, r[0]), sep, mkseq(self.kind, r[1]))
	def rsplit(self, sep=None, maxsplit=-1):
		if sep is None:
			raise Unsupported("rsplit on whitespace")
		sp = to_seq(sep)
		if maxsplit < 0:
			return self.split(sep)
		out = []
		rest = self.norm()
		while maxsplit != 0:
			r = seq_rfind(SSeq(self.kind, rest), sp)
			if r is None:
				break
			out.insert(0, mkseq(self.kind, r[1]))
			rest = r[0]
			maxsplit -= 1
		out.insert(0, mkseq(self.kind, rest))
		return out
	def rpartition(self, sep):
		r = seq_rfind(self, to_seq(sep))
		if r is None:
			e = from_elems(self.kind, ())
			return (e, e, self.simp())
		return (mkseq(self.kind, r[0]), sep, mkseq(self.kind, r[1]))
	def rfind(self, sep):
		r = seq_rfind(self, to_seq(sep))
		return -1 if r is None else slen(mkseq(self.kind, r[0]))
	def replace(self, old, new, count=-1):
		if count != -1:
			raise Unsupported("replace with count")
		o, n = to_seq(old), to_seq(new)
		if len(lit_or_fail(o)) == 1:
			ch = lit_or_fail(o)[0]
			return replace_char(self, ch, n)
		r = replace_run(self, lit_or_fail(o), n)
		if r is not None:
			return r
		# general pattern: only through literals
		r = self.split(old)
		return join_seq(n, r, self.kind)
	def join(self, items):
		return join_seq(self, items, self.kind)
	def tobytes(self):
		if self.kind != 'mv':
			raise AttributeError("tobytes")
		return mkseq('bytes', self.norm())
	def release(self):
		pass
	@property
	def nbytes(self):
		return slen(self)
	def encode(self, encoding='utf-8', errors='strict'):
		return seq_encode(self, encoding, errors)
	def decode(self, encoding='utf-8', errors='strict'):
		return seq_decode(self, encoding, errors)
	def strip(self, chars=None):
		return to_seq(self.lstrip(chars), self.kind).rstrip(chars)
	def lstrip(self, chars=None):
		return seq_strip(self, chars, True)
	def rstrip(self, chars=None):
		return seq_strip(self, chars, False)
	def ljust(self, width, fill=None):
		return seq_just(self, width, fill, 'l')
	def rjust(self, width, fill=None):
		return seq_just(self, width, fill, 'r')
	def upper(self):
		return case_map(self, 'upper')
	def lower(self):
		return case_map(self, 'lower')
	def count(self, x):
		if self.kind in ('list', 'tuple'):
			raise Unsupported("list.count")
		return len(self.split(x)) - 1
	def isdigit(self): return char_class(self, 'isdigit')
	def isdecimal(self): return char_class(self, 'isdecimal')
	def isnumeric(self): return char_class(self, 'isnumeric')
	def isalpha(self): return char_class(self, 'isalpha')
	def isalnum(self): return char_class(self, 'isalnum')
	def isspace(self): return char_class(self, 'isspace')
	def isascii(self): return slen(self) == 0 or char_class(self, 'isascii')
	def __getattr__(self, name):
		cls = object.__getattribute__(self, 'cls')
		if cls is not None:
			for b in cls.__mro__:
				if name in b.__dict__:
					if b.__module__ == 'builtins':
						break
					d = b.__dict__[name]
					return d.__get__(self, cls) if hasattr(d, '__get__') else d
		if name.startswith('__') and name.endswith('__'):
			raise AttributeError(name)
		t = self.__class__
		if hasattr(t, name):
			raise Unsupported("%s.%s is not modelled" % (t.__name__, name))
		raise AttributeError("'%s' object has no attribute %r" % (t.__name__, name))
	def __str__(self):
		raise Unsupported("str() of a symbolic sequence outside the model")
	def __format__(self, spec):
		raise Unsupported("format() of a symbolic sequence outside the model")

def mkseq_l(kind, pieces):
	if kind in ('list',):
		return SSeq(kind, norm_pieces(pieces))
	return mkseq(kind, pieces)

def iter_to_seq(o):
	if _type(o) is SSeq or isinstance_raw(o, (list, tuple, bytes, bytearray, str)):
		if kind_of(o) == 'str':
			return [x for x in o]
		return o
	return list(o)

def lit_or_fail(s):
	n = norm_pieces(s.pieces)
	if not n:
		return ()
	if len(n) == 1 and n[0][0] == 'L' and all(concrete_int(e) for e in n[0][1]):
		return n[0][1]
	raise Unsupported("a literal is needed, got %r" % (s,))

# ---- indexing and slicing

def norm_index(seq, i):
	"checked index, may raise IndexError"
	c = ctx()
	if not intlike(i):
		raise TypeError("indices must be integers")
	l = slen(seq)
	i0 = i
	if i < 0:
		i = i + l
	if i < 0 or i >= l:
		raise IndexError("index out of range")
	return i

def seq_index(seq, i):
	i = norm_index(seq, i)
	left, right = split_pieces(seq.norm(), i, seq.kind)
	s = SSeq(seq.kind, right)
	e = expose_first(s)
	return elem_value(seq.kind, e)

def slice_bounds(seq, sl):
	if sl.step is not None and not (concrete_int(sl.step) and sl.step == 1):
		raise Unsupported("slice step")
	l = slen(seq)
	def clamp(v, default):
		if v is None:
			return default
		if not intlike(v):
			raise TypeError("slice indices must be integers or None")
		if v < 0:
			v = v + l
			if v < 0:
				return 0
			return v
		if v > l:
			return l
		return v
	a = clamp(sl.start, 0)
	b = clamp(sl.stop, l)
	if b < a:
		b = a
	return a, b

def seq_getslice(seq, sl):
	if sl.step is not None and concrete_int(sl.step) and sl.step != 1:
		n = seq.norm()
		if all(p[0] != 'A' for p in n):
			el = ()
			for p in n:
				el += p[1] if p[0] == 'L' else E_bytes(p[1], p[2])
			return mkseq_l(seq.kind, (('L', el[sl]),))
	a, b = slice_bounds(seq, sl)
	return seq_slice(seq, a, b)

def seq_slice(seq, a, b):
	"0 <= a <= b <= len assumed (b None: to the end)"
	seq = to_seq(seq)
	n = seq.norm()
	if b is not None:
		n, _ = split_pieces(n, b, seq.kind)
	if not (concrete_int(a) and a == 0):
		_, n = split_pieces(n, a, seq.kind)
	return mkseq_l(seq.kind, n)

def seq_setitem(seq, i, v):
	if isinstance_raw(i, slice):
		a, b = slice_bounds(seq, i)
		pre = to_seq(seq_slice(seq, 0, a)).pieces
		post = to_seq(seq_slice(seq, b, None)).pieces
		seq.pieces = norm_pieces(pre + to_seq(iter_to_seq(v)).pieces + post)
		return
	i = norm_index(seq, i)
	left, right = split_pieces(seq.norm(), i, seq.kind)
	_, post = split_pieces(right, 1, seq.kind)
	seq.pieces = norm_pieces(left + (('L', (v,)),) + post)

def seq_mul(seq, n):
	if not intlike(n):
		raise TypeError("can't multiply sequence by non-int")
	if concrete_int(n):
		return mkseq_l(seq.kind, seq.norm() * max(int(n), 0))
	v = concretize(n)
	if v is not None:
		return mkseq_l(seq.kind, seq.norm() * max(v, 0))
	s = seq.norm()
	if len(s) == 1 and s[0][0] == 'L' and len(s[0][1]) == 1:
		return repeat_elem(seq.kind, s[0][1][0], n)
	pat = lit_or_fail(seq)
	c = ctx()
	if not c.branch(Z(n) > 0):
		return from_elems(seq.kind, ())
	a = new_atom(seq.kind, 'rep', length=z3.simplify(len(pat) * Z(n)), fn=RepFn(pat, Z(n)), arg=SSeq(seq.kind, ()))
	return SSeq(seq.kind, (('A', a),))

class RepFn(object):
	"n copies of a literal"
	injective = False
	def __init__(self, pat, n):
		self.pat, self.n = pat, n
		self.name = 'rep'

def repeat_elem(kind, e, n):
	"n copies of one element"
	c = ctx()
	if not c.branch(Z(n) > 0):
		return from_elems(kind, ())
	a = new_atom(kind, 'rep', length=Z(n), elem=(lambda nm: e))
	a.const = (e,)
	if kind in ('bytes', 'str', 'bytearray') and concrete_int(e):
		a.allowed = frozenset([int(e)])
	return mkseq_l(kind, (('A', a),))

# ---- searching

def find_char(seq, ch):
	r = seq_find(seq, SSeq(seq.kind, (('L', (ch,)),)))
	return r

def seq_find(seq, sub, exhaustive=False):
	"""
	First occurrence of a literal: None, or (left pieces, right pieces) around it.
	Forks on the content of atoms.
	"""
	c = ctx()
	pat = lit_or_fail(sub)
	m = len(pat)
	if m == 0:
		return ((), seq.norm())
	first = pat[0]
	left = []
	pieces = list(seq.norm())
	guard = 0
	opened = 0
	while pieces:
		guard += 1
		if guard > 3000:
			raise Unsupported("search did not terminate")
		p = pieces[0]
		if p[0] == 'E':
			pieces[0:1] = [('L', E_bytes(p[1], p[2]))]
			pieces = list(norm_pieces(tuple(pieces)))
			continue
		if p[0] == 'L':
			elems = p[1]
			i = 0
			found = None
			while i < len(elems):
				# does the pattern start at i?
				need = m
				avail = elems[i:i + m]
				ok = True
				for x, y in zip(avail, pat):
					if concrete_int(x):
						if x != y:
							ok = False
							break
					elif not c.branch(Z(x) == y):
						ok = False
						break
				if ok and len(avail) < m:
					# runs over the end of the literal piece
					rest = SSeq(seq.kind, tuple(pieces[1:]))
					k = len(avail)
					tailpat = pat[k:]
					tp = from_elems('bytes' if seq.kind != 'str' else 'str', tailpat)
					if seq.kind == 'mv': tp = bytes(tailpat)
					sw = SSeq(seq.kind if seq.kind == 'str' else 'bytes', rest.pieces).startswith(tp)
					if sw:
						_, after = split_pieces(rest.pieces, len(tailpat), seq.kind)
						return (norm_pieces(tuple(left) + (('L', elems[:i]),)), norm_pieces(after))
					ok = False
				if ok:
					return (norm_pieces(tuple(left) + (('L', elems[:i]),)),
						norm_pieces((('L', elems[i + m:]),) + tuple(pieces[1:])))
				i += 1
			left.append(p)
			pieces.pop(0)
			continue
		a = p[1]
		if a.excludes(first):
			left.append(p)
			pieces.pop(0)
			continue
		if m > 1:
			# the last pattern element excluded and the pattern cannot start here unless followed...
			if any(a.excludes(x) for x in pat[1:]) and a.excludes(pat[-1]) is True:
				# could still start at the atom's end; only decidable when all of pat[1:] excluded -> start at last element
				pass
			if c.branch(a.length == 0):
				c.subst[a] = ()
				pieces = list(norm_pieces(tuple(pieces)))
				continue
			raise Unsupported("search of a multi-character pattern in an unknown sequence")
		if a.fn is not None and isinstance_raw(a.fn, Hom):
			if a.fn.free and first in a.fn.free:
				left.append(p); pieces.pop(0)
				continue
			base, fns = hom_base(a)
			h = a.fn
			if h.table is not None and base is not None and len(fns) == 1 and base.fn is None and first not in h.table and first not in h.outs and not exhaustive:
				# the element stays what it is: it occurs in the image where it occurs in the source
				if c.branch(z3.Bool('occurs(%r,%s)' % (first, base.name))):
					x = new_atom(base.kind, base.name + '.pre', base.free | {first}, base.allowed, base.elem)
					y = new_atom(base.kind, base.name + '.post', base.free, base.allowed, base.elem)
					c.assume(base.length == x.length + 1 + y.length)
					c.subst[base] = (('A', x), ('L', (first,)), ('A', y))
				else:
					c.subst[base] = (('A', new_atom(base.kind, base.name + '.no', base.free | {first}, base.allowed, base.elem, length=base.length)),)
				pieces = list(norm_pieces(tuple(pieces)))
				continue
			opened += 1
			if opened > 4:
				raise Unsupported("search inside %r" % (a,))
			base, _ = hom_base(a)
			if c.branch(base.length == 0):
				c.subst[base] = ()
			else:
				expose_first(SSeq(base.kind, (('A', base),)))
			pieces = list(norm_pieces(tuple(pieces)))
			continue
		if exhaustive:
			raise Unsupported("unbounded split of %r on %r" % (a, first))
		# occurrence in this atom, or not
		free2 = a.free | {first}
		occ = z3.Bool('occurs(%r,%s)' % (first, a.name))
		if c.branch(occ):
			x = new_atom(a.kind, a.name + '.pre', free2, a.allowed, a.elem)
			y = new_atom(a.kind, a.name + '.post', a.free, a.allowed, a.elem)
			c.assume(a.length == x.length + 1 + y.length)
			c.subst[a] = (('A', x), ('L', (first,)), ('A', y))
		else:
			x = new_atom(a.kind, a.name + '.no', free2, a.allowed, a.elem, length=a.length)
			c.subst[a] = (('A', x),)
		pieces = list(norm_pieces(tuple(pieces)))
	return None

def seq_rfind(seq, sub):
	c = ctx()
	pat = lit_or_fail(sub)
	if len(pat) != 1:
		raise Unsupported("reverse search of a multi-character pattern")
	ch = pat[0]
	pieces = list(seq.norm())
	right = []
	guard = 0
	while pieces:
		guard += 1
		if guard > 3000:
			raise Unsupported("search did not terminate")
		p = pieces[-1]
		if p[0] == 'E':
			pieces[-1:] = [('L', E_bytes(p[1], p[2]))]
			pieces = list(norm_pieces(tuple(pieces)))
			continue
		if p[0] == 'L':
			elems = p[1]
			for i in range(len(elems) - 1, -1, -1):
				x = elems[i]
				if (x == ch) if concrete_int(x) else c.branch(Z(x) == ch):
					return (norm_pieces(tuple(pieces[:-1]) + (('L', elems[:i]),)),
						norm_pieces((('L', elems[i + 1:]),) + tuple(right)))
			right.insert(0, p)
			pieces.pop()
			continue
		a = p[1]
		if a.excludes(ch):
			right.insert(0, p)
			pieces.pop()
			continue
		if a.fn is not None and isinstance_raw(a.fn, Hom):
			raise Unsupported("reverse search inside %r" % (a,))
		free2 = a.free | {ch}
		if c.branch(z3.Bool('occurs(%r,%s)' % (ch, a.name))):
			x = new_atom(a.kind, a.name + '.pre', a.free, a.allowed, a.elem)
			y = new_atom(a.kind, a.name + '.post', free2, a.allowed, a.elem)
			c.assume(a.length == x.length + 1 + y.length)
			c.subst[a] = (('A', x), ('L', (ch,)), ('A', y))
		else:
			x = new_atom(a.kind, a.name + '.no', free2, a.allowed, a.elem, length=a.length)
			c.subst[a] = (('A', x),)
		pieces = list(norm_pieces(tuple(pieces)))
	return None

def seq_split_ws(seq, maxsplit):
	raise Unsupported("split on whitespace of a symbolic sequence")

REPLACE_HOMS = {}
def replace_char(seq, ch, new):
	kind = seq.kind
	nk = rope_key(norm_pieces(new.pieces))
	key = (kind, ch, nk)
	if key not in REPLACE_HOMS:
		newlit = from_elems(kind, lit_or_fail(new))
		def elem(x, ch=ch, newlit=newlit, kind=kind):
			if kind == 'str':
				if _type(x) is SSeq:
					e = expose_first(x)
					if ctx().branch(Z(e) == ch):
						return newlit
					return x
				return newlit if ord(x) == ch else x
			if intlike(x) and not concrete_int(x):
				if ctx().branch(Z(x) == ch):
					return newlit
				return mkseq(kind, (('L', (x,)),))
			return newlit if x == ch else bytes((x,))
		fr = frozenset([ch]) if ch not in lit_or_fail(new) else frozenset()
		REPLACE_HOMS[key] = Hom('replace[%s,%s]' % (ch, nk), kind, elem, minlen=0 if not lit_or_fail(new) else 1, free=fr)
		REPLACE_HOMS[key].rep = (ch, tuple(lit_or_fail(new)))
	hom = REPLACE_HOMS[key]
	out = []
	for p in seq.norm():
		if p[0] == 'A' and p[1].excludes(ch):
			out.append(p)
		else:
			out.extend(hom_pieces(hom, kind, (p,)))
	return mkseq(kind, out)

def replace_run(seq, old, new):
	"""
	Replacing n times the character c where c only occurs as written by
	replace(c, n times c): occurrences are aligned, so it is undone per character.
	"""
	c, n = old[0], len(old)
	if not all(concrete_int(x) and x == c for x in old):
		return None
	one = (c,) * n
	out = []
	run = 0
	for p in seq.norm():
		if p[0] == 'A' and p[1].excludes(c):
			out.append(('L', (c,) * run)) if run else None
			run = 0
			out.append(p)
		elif p[0] == 'A' and p[1].fn is not None and getattr(p[1].fn, 'rep', None) == (c, one) and run == 0:
			arg = p[1].arg
			nl = new.norm()
			if len(nl) == 1 and nl[0][0] == 'L' and len(nl[0][1]) == 1 and nl[0][1][0] == c:
				out.extend(arg.norm())
			else:
				out.extend(to_seq(replace_char(arg, c, new), seq.kind).norm())
		elif p[0] == 'L':
			for e in p[1]:
				if concrete_int(e) and e == c:
					run += 1
					if run == n:
						out.extend(new.norm())
						run = 0
					continue
				if not concrete_int(e) and not ctx().entails(Z(e) != c):
					return None
				if run:
					out.append(('L', (c,) * run))
					run = 0
				out.append(('L', (e,)))
		else:
			return None
	if run:
		out.append(('L', (c,) * run))
	return mkseq(seq.kind, out)

def hom_of(table):
	return REPLACE_HOMS.get(('map', tuple(sorted(table.items()))))

def char_map(table):
	"""
	Every character that is a key of the table (code -> text) is replaced by its
	value, all others stay.  A homomorphism; equal tables give the same function.
	"""
	key = ('map', tuple(sorted(table.items())))
	hom = REPLACE_HOMS.get(key)
	if hom is None:
		outs = frozenset(ord(ch) for v in table.values() for ch in v)
		def elem(x, table=dict(table)):
			if _type(x) is not SSeq:
				return table.get(ord(x), x)
			e = expose_first(x)
			if concrete_int(e):
				return table.get(e, chr(e))
			if not ctx().branch(z3.Or([Z(e) == m for m in table])):
				return x
			ms = sorted(table)
			n = len(table[ms[0]])
			if all(len(table[m]) == n for m in ms) and n:
				# the value as a function of the character
				out = []
				for k in range(n):
					vals = [ord(table[m][k]) for m in ms]
					if len(set(vals)) == 1:
						out.append(vals[0])
						continue
					z = z3.IntVal(vals[-1])
					for m, w in list(zip(ms, vals))[:-1]:
						z = z3.If(Z(e) == m, z3.IntVal(w), z)
					out.append(SInt(z))
				reg = ctx().eqvars.setdefault('mapped', [])
				reg.append((hom_of(table), tuple(out), e))
				return SSeq('str', (('L', tuple(out)),))
			for m in ms:
				if ctx().branch(Z(e) == m):
					return table[m]
			raise Unsupported("character of no known value")
		hom = Hom('map%d' % len(REPLACE_HOMS), 'str', elem, minlen=min([1] + [len(v) for v in table.values()]),
			free=frozenset(table) - outs)
		hom.table, hom.outs = dict(table), outs
		ls = [1] + [len(v) for v in table.values()]
		hom.lens = (min(ls), max(ls))
		REPLACE_HOMS[key] = hom
	return hom

def preimage(x, homs):
	"t where x is f(t) for one of the functions; None if it is no such image"
	if core.CTX is None or _type(x) is not SSeq:
		return None
	for h in homs:
		r = preimage_of(x, h)
		if r is not None:
			return r
	return None

def preimage_of(x, hom):
	table = hom.table
	inv = dict((v, k) for k, v in table.items())
	ns = set(len(v) for v in table.values())
	reg = ctx().eqvars.get('mapped', ())
	out = []
	for q in x.norm():
		if q[0] == 'A':
			if q[1].fn is hom:
				out.extend(q[1].arg.norm())
			elif all(q[1].excludes(ch) for ch in table):
				out.append(q)
			else:
				return None
		elif q[0] == 'L':
			es, i = q[1], 0
			while i < len(es):
				hit = None
				for n in ns:
					part = es[i:i + n]
					if len(part) == n and all(concrete_int(y) for y in part):
						s = ''.join(chr(y) for y in part)
						if s in inv:
							hit = (n, inv[s])
					for h, el, e in reg:
						if h is hom and len(el) == n and len(part) == n and all(y is w or (concrete_int(y) and concrete_int(w) and y == w) for y, w in zip(part, el)):
							hit = (n, e)
				if hit is not None:
					out.append(('L', (hit[1],)))
					i += hit[0]
					continue
				y = es[i]
				if (y in table) if concrete_int(y) else not ctx().entails(z3.And([Z(y) != m for m in table])):
					return None
				out.append(('L', (y,)))
				i += 1
		else:
			return None
	return mkseq(x.kind, out)

def map_chars(seq, table):
	hom = char_map(table)
	out = []
	for p in seq.norm():
		if p[0] == 'A' and all(p[1].excludes(ch) for ch in table):
			out.append(p)
			continue
		for q in hom_pieces(hom, 'str', (p,)):
			out.append(q)
	return mkseq('str', out)

def join_seq(sep, items, kind):
	"sep.join(items) for a concrete list of items"
	if _type(items) is SSeq:
		items = [x for x in items]
	else:
		items = [x for x in items]
	out = ()
	sp = to_seq(sep).norm()
	for i, x in enumerate(items):
		k = kind_of(x)
		if k is None or not same_kind(k, kind):
			raise TypeError("sequence item %d: expected %s instance, %s found" % (i, kind, _type(x).__name__))
		if i:
			out = out + sp
		out = out + to_seq(x).norm()
	return mkseq(kind, out)

def seq_strip(seq, chars, left):
	c = ctx()
	cs = frozenset(lit_or_fail(to_seq(chars))) if chars is not None else (WS_BYTES if seq.kind == 'bytes' else WS_STR)
	pieces = list(seq.norm())
	while pieces:
		i = 0 if left else -1
		p = pieces[i]
		if p[0] == 'E':
			pieces[i] = ('L', E_bytes(p[1], p[2]))
			continue
		if p[0] == 'L':
			e = p[1][i]
			if concrete_int(e):
				inset = e in cs
			else:
				inset = c.branch(z3.Or([Z(e) == k for k in sorted(cs)]))
			if not inset:
				break
			rest = p[1][1:] if left else p[1][:-1]
			if rest:
				pieces[i] = ('L', rest)
			else:
				pieces.pop(i)
			continue
		a = p[1]
		if all(a.excludes(k) for k in cs):
			if c.branch(a.length == 0):
				c.subst[a] = ()
				pieces.pop(i)
				continue
			break
		if a.allowed is not None and a.allowed <= cs:
			pieces.pop(i)
			continue
		if a.fn is not None or len(cs) > 40:
			raise Unsupported("strip of an unknown sequence %r" % (a,))
		# a run of stripped elements, and what remains after it
		run = frozenset(k for k in cs if not a.excludes(k))
		x = new_atom(a.kind, a.name + '.s', (), run)
		if c.choose(2) == 0:
			c.assume(x.length == a.length)
			c.subst[a] = (('A', x),)
			pieces.pop(i)
			continue
		e = fresh_elem(a)
		for k in sorted(cs):
			c.assume(Z(e) != k)
		y = new_atom(a.kind, a.name + '.k', a.free, a.allowed)
		c.assume(a.length == x.length + y.length + 1)
		c.subst[a] = (('A', x), ('L', (e,)), ('A', y)) if left else (('A', y), ('L', (e,)), ('A', x))
		pieces[i:i + 1 if i >= 0 else None] = [('L', (e,)), ('A', y)] if left else [('A', y), ('L', (e,))]
		break
	return mkseq(seq.kind, tuple(pieces))

def seq_just(seq, width, fill, side):
	if fill is None:
		fill = b' ' if seq.kind == 'bytes' else ' '
	l = slen(seq)
	if l >= width:
		return seq.simp()
	pad = seq_mul(to_seq(fill), width - l)
	return (seq.simp() + pad) if side == 'l' else (pad + seq.simp())

class OpaqueFn(object):
	def __init__(self, name, injective=False):
		self.name = name
		self.injective = injective

OPAQUE = {}
def opaque_app(name, atom, kind, injective=False, free=(), allowed=None, length=None, minlen=0):
	"uninterpreted function of an atom"
	c = ctx()
	fn = OPAQUE.setdefault(name, OpaqueFn(name, injective))
	key = ('app', name, atom)
	a = c.eqvars.get(key)
	if a is None:
		a = new_atom(kind, '%s(%s)' % (name, atom.name), free, allowed, length=length, minlen=minlen, fn=fn, arg=SSeq(atom.kind, (('A', atom),)))
		c.eqvars[key] = a
	return a

def known_len(a):
	n = z3.simplify(Z(a.length))
	return n.as_long() if z3.is_int_value(n) and n.as_long() <= 24 else None

def opened(a):
	"an atom of known length as its elements"
	for _ in range(known_len(a)):
		expose_first(SSeq(a.kind, norm_pieces((('A', a),))[-1:]))
	return norm_pieces((('A', a),))

def case_byte(x, how):
	lo, d = (65, 32) if how == 'lower' else (97, -32)
	if concrete_int(x):
		return bytes((x + d,)) if lo <= x <= lo + 25 else bytes((x,))
	if ctx().branch(z3.And(Z(x) >= lo, Z(x) <= lo + 25)):
		return mkseq('bytes', (('L', (x + d,)),))
	return mkseq('bytes', (('L', (x,)),))

def case_map(seq, how):
	f = (lambda x: x.upper()) if how == 'upper' else (lambda x: x.lower())
	out = []
	for p in seq.norm():
		if p[0] == 'L':
			for e in p[1]:
				if not concrete_int(e):
					lo, d = (65, 32) if how == 'lower' else (97, -32)
					c = ctx()
					if c.branch(z3.And(Z(e) >= lo, Z(e) <= lo + 25)):
						e = e + d
					elif seq.kind == 'str' and not c.branch(Z(e) < 128):
						raise Unsupported("case mapping of a symbolic character")
					out.append(('L', (e,)))
					continue
				out.append(('L', lit_elems(f(chr(e)) if seq.kind == 'str' else f(bytes((e,))))))
		elif p[0] == 'A':
			al = p[1].allowed
			if al is not None and all(f(chr(x)) == chr(x) for x in al):
				out.append(p)
			elif p[1].fn is None and known_len(p[1]) is not None:
				out.extend(to_seq(case_map(SSeq(seq.kind, opened(p[1])), how)).pieces)
			elif seq.kind == 'bytes' or (al is not None and max(al) < 128):
				# ASCII only: a map of the elements
				key = (seq.kind, 'case', how)
				if key not in REPLACE_HOMS:
					def elem(x, how=how, kind=seq.kind):
						return case_map(to_seq(x), how) if _type(x) is SSeq else getattr(x, how)() if kind == 'str' else case_byte(x, how)
					REPLACE_HOMS[key] = Hom('case[%s,%s]' % (how, seq.kind), seq.kind, elem, minlen=1, exactlen=1)
				out.extend(hom_pieces(REPLACE_HOMS[key], seq.kind, (p,)))
			else:
				raise Unsupported("case mapping of an unknown sequence")
		else:
			raise Unsupported("case mapping")
	return mkseq(seq.kind, out)

ASCII = frozenset(range(128))
SINGLE = {'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256, 'iso8859-1': 256, 'ascii': 128, 'us-ascii': 128}

def norm_codec(encoding):
	import codecs
	try:
		return codecs.lookup(encoding).name
	except LookupError:
		raise

class CodecFn(object):
	"x.encode(codec): a function on str atoms, inverted by decode"
	injective = True
	def __init__(self, name):
		self.name = name
CODECS = {}

def seq_encode(seq, encoding, errors):
	if seq.kind != 'str':
		raise AttributeError("'%s' object has no attribute 'encode'" % seq.kind)
	c = ctx()
	codec = norm_codec(encoding)
	out = []
	for p in seq.norm():
		if p[0] == 'L':
			for e in p[1]:
				if concrete_int(e):
					out.append(('L', tuple(chr(e).encode(encoding, errors))))
				elif c.branch(Z(e) < 128):
					out.append(('L', (e,)))
				else:
					raise Unsupported("encoding a symbolic non-ASCII character")
		else:
			a = p[1]
			if a.fn is not None and isinstance_raw(a.fn, DecodeFn) and a.fn.name == codec:
				out.extend(a.arg.norm())
				continue
			fn = CODECS.setdefault(codec, CodecFn(codec))
			key = ('enc', codec, a)
			b = c.eqvars.get(key)
			if b is None:
				if codec == 'ascii' and a.allowed is None:
					raise Unsupported("ascii encoding of unknown text")
				# characters below 128 map to themselves and nothing else maps to them
				free = frozenset(x for x in a.free if x < 128)
				ln = a.length if (codec in ('ascii', 'iso8859-1') or (a.allowed is not None and a.allowed <= ASCII)) else None
				b = new_atom('bytes', 'encode[%s](%s)' % (codec, a.name), free,
					a.allowed if a.allowed is not None and a.allowed <= ASCII else None,
					length=ln, fn=fn, arg=SSeq('str', (p,)))
				if ln is None:
					c.assume(z3.And(b.length >= a.length, b.length <= 4 * a.length))
				c.eqvars[key] = b
			out.append(('A', b))
	return mkseq('bytes', out)

class DecodeFn(object):
	injective = True
	def __init__(self, name):
		self.name = name
DECODES = {}

def seq_decode(seq, encoding, errors):
	if seq.kind not in ('bytes', 'bytearray'):
		raise AttributeError("'%s' object has no attribute 'decode'" % seq.kind)
	c = ctx()
	codec = norm_codec(encoding)
	out = []
	n = seq.norm()
	for p in n:
		if p[0] == 'E':
			p = ('L', E_bytes(p[1], p[2]))
		if p[0] == 'L':
			buf = b''
			for e in p[1]:
				if concrete_int(e):
					buf += bytes((e,))
				else:
					if buf:
						out.append(('L', lit_elems(buf.decode(encoding, errors)))); buf = b''
					if c.branch(Z(e) < 128):
						out.append(('L', (e,)))
					elif codec == 'iso8859-1':
						out.append(('L', (e,)))
					else:
						raise Unsupported("decoding a symbolic non-ASCII byte")
			if buf:
				out.append(('L', lit_elems(buf.decode(encoding, errors))))
		else:
			a = p[1]
			if a.fn is not None and isinstance_raw(a.fn, CodecFn) and a.fn.name == codec:
				out.extend(a.arg.norm())
				continue
			if a.allowed is not None and a.allowed <= ASCII or codec == 'iso8859-1':
				fn = DECODES.setdefault(codec, DecodeFn(codec))
				key = ('dec', codec, a)
				b = c.eqvars.get(key)
				if b is None:
					b = new_atom('str', 'decode[%s](%s)' % (codec, a.name), a.free, a.allowed, length=a.length,
						fn=fn, arg=SSeq('bytes', (p,)))
					c.eqvars[key] = b
				out.append(('A', b))
				continue
			raise Unsupported("decoding unknown bytes %r" % (a,))
	return mkseq('str', out)

# ---------------------------------------------------------------- induction over homomorphic images

def hom_base(a):
	"the sequence a homomorphic image is taken of: (base atom, [homs])"
	fns = []
	while a.fn is not None and isinstance_raw(a.fn, Hom):
		n = a.arg.pieces
		if len(n) != 1 or n[0][0] != 'A':
			return None, None
		fns.append(a.fn)
		a = n[0][1]
	return a, fns[::-1]

def apply_chain(fns, kind, e):
	x = SSeq(kind, (('L', (e,)),))
	for f in fns:
		k = x.kind
		x = SSeq(f.out_kind, hom_pieces(f, k, norm_pieces(x.pieces)))
	return x

def hom_equal(a, b):
	"""
	f(s) == g(s) for two homomorphisms of the same sequence: by induction on s it
	is enough that f([x]) == g([x]) for an arbitrary element x.
	"""
	ba, fa = hom_base(a)
	bb, fb = hom_base(b)
	if ba is None or ba is not bb or (not fa and not fb):
		return False
	c = ctx()
	key = ('homeq', a.name, b.name)
	if key in c.eqvars:
		return c.eqvars[key]
	kind = ba.kind
	def body(sub):
		e = fresh_elem(ba)
		r = deep_eq(apply_chain(fa, kind, e), apply_chain(fb, kind, e))
		sub.prove(B(r), 'induction step: %s == %s' % (a.name, b.name))
	ok = core.nested(body)
	c.eqvars[key] = ok
	return ok

def same_const(a, b):
	"of the same length, and every element of both is the same constant"
	if a.const is None:
		a, b = b, a
	if a.const is None:
		return False
	e = a.const[0]
	if b.const is not None:
		return b.const[0] is e
	if a.kind not in ('list', 'tuple') or b.fn is None or not isinstance_raw(b.fn, Hom):
		return False
	def test(x, image):
		n = norm_pieces(image.pieces)
		return len(n) == 1 and n[0][0] == 'L' and len(n[0][1]) == 1 and n[0][1][0] is e
	return hom_elem_shape(b, test) is not None

def hom_elem_shape(a, test):
	"does every element image of the homomorphic atom a satisfy test(element, image)?"
	base, fns = hom_base(a)
	if base is None or not fns:
		return None
	c = ctx()
	kind = base.kind
	def body(sub):
		e = fresh_elem(base)
		r = test(e, apply_chain(fns, kind, e))
		sub.prove(B(r), 'induction step: image of %s' % a.name)
	return base if core.nested(body) else None

# ---------------------------------------------------------------- decimal text of integers

DIGITS = frozenset(range(48, 58))
class DecFn(object):
	injective = True
	name = 'dec'
	def __init__(self, e):
		self.e = e

def dec_text(x, kind='str'):
	"str(x) for an integer"
	if concrete_int(x):
		s = str(int(x))
		return s if kind == 'str' else s.encode('ascii')
	c = ctx()
	e = z3.simplify(Z(x))
	if c.branch(e < 0):
		neg, e = True, z3.simplify(-e)
	else:
		neg = False
	key = ('dec', kind, str(e))
	a = c.eqvars.get(key)
	if a is None:
		a = new_atom(kind, 'dec(%s)' % e, allowed=DIGITS, minlen=1)
		a.fn = DecFn(e)
		a.arg = SSeq(kind, ())
		c.eqvars[key] = a
	pieces = (('A', a),)
	if neg:
		pieces = (('L', (45,)),) + pieces
	return SSeq(kind, pieces)

def parse_dec(s):
	"int(s): SInt / int or ValueError"
	n = s.norm()
	if not n:
		raise ValueError("invalid literal for int() with base 10: ''")
	neg = False
	if n[0][0] == 'L' and n[0][1][0] in (45, 43) and concrete_int(n[0][1][0]):
		neg = n[0][1][0] == 45
		n = norm_pieces((('L', n[0][1][1:]),) + n[1:])
	if len(n) == 1 and n[0][0] == 'A' and isinstance_raw(n[0][1].fn, DecFn):
		v = mkint(n[0][1].fn.e)
		return -v if neg else v
	if all(p[0] == 'L' for p in n) and n:
		v = 0
		c = ctx()
		for e in n[0][1]:
			if concrete_int(e):
				if not (48 <= e <= 57):
					raise ValueError("invalid literal for int()")
			else:
				if not c.branch(z3.And(Z(e) >= 48, Z(e) <= 57)):
					raise Unsupported("int() of symbolic text")
			v = v * 10 + (e - 48)
		return -v if neg else v
	if len(n) == 1 and n[0][0] == 'A' and n[0][1].allowed is not None and n[0][1].allowed <= DIGITS:
		a = n[0][1]
		c = ctx()
		if c.branch(a.length == 0):
			raise ValueError("invalid literal for int() with base 10: ''")
		key = ('int', a)
		v = c.eqvars.get(key)
		if v is None:
			v = z3.Int(c.fresh('int(%s)' % a.name))
			c.assume(v >= 0)
			c.eqvars[key] = v
		return mkint(-v if neg else v)
	raise Unsupported("int() of symbolic text %r" % (s,))

# ---------------------------------------------------------------- big-endian integers

def be_pack(width, v):
	"bytes of an unsigned integer already in range"
	if concrete_int(v):
		return int(v).to_bytes(width, 'big')
	return SSeq('bytes', (('E', width, v),))

def be_unpack(width, seq, offset=0):
	"unsigned big-endian integer at offset; length checked by the caller"
	if _type(seq) is not SSeq:
		if concrete_int(offset):
			return int.from_bytes(bytes(seq[offset:offset + width]), 'big')
		seq = to_seq(seq)
	c = ctx()
	_, right = split_pieces(seq.norm(), offset, seq.kind)
	for _ in range(50):
		right = norm_pieces(right)
		p = right[0]
		if p[0] == 'E' and p[1] == width:
			return p[2]
		head, tail = split_pieces(right, width, seq.kind)
		head = norm_pieces(head)
		if len(head) == 1 and head[0][0] == 'A':
			a = head[0][1]
			if a.fn is None and not a.free and a.allowed is None:
				u = z3.Int(c.fresh('u%d(%s)' % (8 * width, a.name)))
				c.assume(z3.And(u >= 0, u < (1 << (8 * width))))
				c.assume(a.length == width)
				c.subst[a] = (('E', width, SInt(u)),)
				return SInt(u)
		if len(head) == 1 and head[0][0] == 'E' and head[0][1] == width:
			return head[0][2]
		# byte by byte
		s = SSeq(seq.kind, head)
		v = 0
		for i in range(width):
			e = expose_first(s)
			v = v * 256 + e
			s = to_seq(seq_slice(s, 1, None), seq.kind)
		return v
	raise Unsupported("be_unpack")

def to_signed(u, bits):
	if concrete_int(u):
		return u - (1 << bits) if u >= (1 << (bits - 1)) else u
	# keep the origin if u came from packing a signed value
	e = u.e
	return mkint(z3.If(e >= (1 << (bits - 1)), e - (1 << bits), e))

def to_unsigned(v, bits):
	"v already checked to be in signed range"
	if concrete_int(v):
		return int(v) & ((1 << bits) - 1)
	e = Z(v)
	return mkint(z3.If(e < 0, e + (1 << bits), e))
