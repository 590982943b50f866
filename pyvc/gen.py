"""
pyvc.gen -- input domains.  Each domain makes a symbolic value (proof), random
values (search of a failing input) and completes the solver's counter-model.
"""
import random

class G(object):
	pass

INTERESTING = [0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 59, 60, 61, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257,
	999, 1000, 1024, 3599, 3600, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 86399, 86400,
	999999, 1000000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**63, -2**31, -2**15, -128]

class Int(G):
	def __init__(self, lo=None, hi=None, bias=()):
		self.lo, self.hi = lo, hi
		self.bias = tuple(bias)
	def sym(self, name):
		import z3
		from .sym import SInt
		from .core import ctx
		v = z3.Int(ctx().fresh(name))
		if self.lo is not None: ctx().assume(v >= self.lo)
		if self.hi is not None: ctx().assume(v <= self.hi)
		return SInt(v)
	def ok(self, v):
		return isinstance(v, int) and (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)
	def rand(self, r, size):
		for _ in range(20):
			k = r.random()
			if self.bias and k < 0.4:
				v = r.choice(self.bias)
			elif k < 0.6:
				v = r.choice(INTERESTING) + r.choice((0, 0, 0, 1, -1))
			elif k < 0.7 and self.lo is not None:
				v = self.lo + r.choice((0, 0, 1, 2, r.randrange(10)))
			elif k < 0.8 and self.hi is not None:
				v = self.hi - r.choice((0, 0, 1, 2, r.randrange(10)))
			elif k < 0.9:
				v = r.randrange(-4, 12)
			else:
				lo = self.lo if self.lo is not None else -(1 << 70)
				hi = self.hi if self.hi is not None else 1 << 70
				v = r.randint(lo, hi)
			if self.ok(v):
				return v
		lo = self.lo if self.lo is not None else -5
		hi = self.hi if self.hi is not None else lo + 10
		return r.randint(lo, hi)

class Bool(G):
	def sym(self, name):
		import z3
		from .sym import SBool
		from .core import ctx
		return SBool(z3.Bool(ctx().fresh(name)))
	def ok(self, v): return isinstance(v, bool)
	def rand(self, r, size): return r.random() < 0.5

class Const(G):
	def __init__(self, v): self.v = v
	def sym(self, name): return self.v
	def ok(self, v): return v == self.v
	def rand(self, r, size): return self.v

class Bytes(G):
	kind = 'bytes'
	def __init__(self, free=(), allowed=None, minlen=0, length=None, maxlen=None, bias=(), alphabet=None):
		self.free = frozenset(free); self.allowed = frozenset(allowed) if allowed is not None else None
		self.minlen = minlen; self.length = length; self.maxlen = maxlen
		self.bias = tuple(bias); self.alphabet = alphabet
	def sym(self, name):
		import z3
		from .sym import SSeq, new_atom
		from .core import ctx
		if self.length is not None:
			a = new_atom(self.kind, name, self.free, self.allowed, length=z3.IntVal(self.length))
		else:
			a = new_atom(self.kind, name, self.free, self.allowed, minlen=self.minlen)
			if self.maxlen is not None:
				ctx().assume(a.length <= self.maxlen)
		return SSeq(self.kind, (('A', a),))
	def elems(self, v):
		return v
	def mk(self, el):
		return bytes(el)
	universe = range(256)
	def ok(self, v):
		if not isinstance(v, bytes if self.kind == 'bytes' else str):
			return False
		if self.length is not None and len(v) != self.length: return False
		if len(v) < self.minlen: return False
		if self.maxlen is not None and len(v) > self.maxlen: return False
		for e in self.elems(v):
			if e in self.free or (self.allowed is not None and e not in self.allowed):
				return False
		return True
	def one(self, r):
		for _ in range(200):
			if self.allowed is not None:
				e = r.choice(sorted(self.allowed))
			elif self.alphabet is not None and r.random() < 0.85:
				e = r.choice(self.alphabet)
				if not isinstance(e, int): e = ord(e)
			else:
				e = self.anyelem(r)
			if e not in self.free:
				return e
		raise ValueError("no element")
	def anyelem(self, r):
		k = r.random()
		if k < 0.3: return r.choice((0, 1, 0x7f, 0x80, 0xff, 0x5c, 0x27, 0x22, 0x0a, 0x20))
		if k < 0.7: return r.randrange(97, 123)
		return r.randrange(256)
	def rand(self, r, size):
		if self.bias and r.random() < 0.3:
			v = r.choice(self.bias)
			if self.ok(v): return v
		if self.length is not None:
			n = self.length
		else:
			hi = self.maxlen if self.maxlen is not None else max(self.minlen, size)
			n = r.choice((self.minlen, self.minlen, min(hi, self.minlen + 1), r.randint(self.minlen, max(self.minlen, min(hi, size + self.minlen)))))
		return self.mk([self.one(r) for _ in range(n)])

class Text(Bytes):
	kind = 'str'
	def elems(self, v):
		return [ord(c) for c in v]
	def mk(self, el):
		return ''.join(map(chr, el))
	def __init__(self, free=(), allowed=None, **k):
		free = [ord(c) if isinstance(c, str) else c for c in free]
		if allowed is not None:
			allowed = [ord(c) if isinstance(c, str) else c for c in allowed]
		Bytes.__init__(self, free, allowed, **k)
	def anyelem(self, r):
		k = r.random()
		if k < 0.35: return ord(r.choice('\'"\\$;:/@?&=%#[](){}.,*-_ \n\t'))
		if k < 0.85: return r.randrange(97, 123)
		if k < 0.92: return r.randrange(65, 91)
		return r.choice((0xe9, 0x3b1, 0x20ac, 0x1f600, 0x7f, 0xa0, 0x41, 0x30, 0x31, 0x39))

class Opt(G):
	"None or a value"
	def __init__(self, g): self.g = g
	def sym(self, name):
		from .core import ctx
		if ctx().choose(2) == 0:
			return None
		return self.g.sym(name)
	def ok(self, v): return v is None or self.g.ok(v)
	def rand(self, r, size):
		return None if r.random() < 0.3 else self.g.rand(r, size)

class Choice(G):
	"one of several constants or domains"
	def __init__(self, *opts): self.opts = opts
	def sym(self, name):
		from .core import ctx
		o = self.opts[ctx().choose(len(self.opts))]
		return o.sym(name) if isinstance(o, G) else o
	def ok(self, v):
		for o in self.opts:
			if isinstance(o, G):
				if o.ok(v): return True
			elif type(o) is type(v) and o == v: return True
		return False
	def rand(self, r, size):
		o = r.choice(self.opts)
		return o.rand(r, size) if isinstance(o, G) else o

class Tup(G):
	def __init__(self, *gs): self.gs = gs
	def sym(self, name):
		return tuple(g.sym('%s.%d' % (name, i)) for i, g in enumerate(self.gs))
	def ok(self, v): return isinstance(v, tuple) and len(v) == len(self.gs) and all(g.ok(x) for g, x in zip(self.gs, v))
	def rand(self, r, size): return tuple(g.rand(r, size) for g in self.gs)

class Seq(G):
	"a list/tuple of unknown length"
	def __init__(self, g, kind='list', minlen=0, maxlen=None, cap=6):
		self.g, self.kind, self.minlen, self.maxlen, self.cap = g, kind, minlen, maxlen, cap
	def sym(self, name):
		from .sym import SSeq, new_atom
		from .core import ctx
		a = new_atom(self.kind, name, elem=self.g.sym, minlen=self.minlen)
		if self.maxlen is not None:
			ctx().assume(a.length <= self.maxlen)
		return SSeq(self.kind, (('A', a),))
	def ok(self, v):
		return isinstance(v, (list, tuple)) and len(v) >= self.minlen and (self.maxlen is None or len(v) <= self.maxlen) and all(self.g.ok(x) for x in v)
	def rand(self, r, size):
		hi = max(self.minlen, self.cap)
		if self.maxlen is not None: hi = min(hi, self.maxlen)
		n = r.choice((self.minlen, min(hi, self.minlen + 1), r.randint(self.minlen, hi)))
		v = [self.g.rand(r, max(1, size // 2)) for _ in range(n)]
		return tuple(v) if self.kind == 'tuple' else v

class FixedSeq(G):
	"a list/tuple whose length is one of the given ones (bounded)"
	def __init__(self, g, lengths, kind='list'):
		self.g, self.lengths, self.kind = g, tuple(lengths), kind
	def sym(self, name):
		from .core import ctx
		n = self.lengths[ctx().choose(len(self.lengths))]
		v = [self.g.sym('%s.%d' % (name, i)) for i in range(n)]
		return tuple(v) if self.kind == 'tuple' else v
	def ok(self, v):
		return isinstance(v, (list, tuple)) and all(self.g.ok(x) for x in v)
	def rand(self, r, size):
		n = r.choice(self.lengths)
		v = [self.g.rand(r, max(1, size)) for _ in range(n)]
		return tuple(v) if self.kind == 'tuple' else v

class Float(G):
	def __init__(self, width=8): self.width = width
	def sym(self, name):
		from .models import SFloat
		return SFloat(Int(0, 2 ** (8 * self.width) - 1).sym(name), self.width)
	def ok(self, v): return isinstance(v, float)
	def rand(self, r, size):
		import struct
		f = r.choice((0.0, -0.0, 1.0, -1.5, 1e300, float('inf'), float('-inf'), r.random(), r.uniform(-1e6, 1e6)))
		return struct.unpack('!f', struct.pack('!f', f if abs(f) < 1e30 or f in (float('inf'), float('-inf')) else 2.0))[0] if self.width == 4 else f

class Search(G):
	"""
	Like g in the proof; the search for a failing input draws from r(rng, size).
	"""
	def __init__(self, g, rnd):
		self.g, self.rnd = g, rnd
	def sym(self, name): return self.g.sym(name)
	def ok(self, v): return self.g.ok(v)
	def rand(self, r, size): return self.rnd(r, size)

NUL = frozenset([0])
