"""
pyvc.api -- harnesses: contracts stated once, proved symbolically and replayed /
searched on the real code.

A harness is a function  h(v)  that draws its inputs from domains (v.any), calls
the functions under contract and states their postconditions (v.check / v.eq).
In proof mode the inputs are symbolic and each postcondition is an obligation; in
concrete mode (replay of counter-models, search of failing inputs, bounded
stand-ins) the same harness runs on the natively imported code of the same tree.
"""
import random, traceback, time

class Harness(object):
	def __init__(self, fn, prop, functions, mode, bound, paths, seconds, runs, doc, size=8, conc_seconds=20, internal=False):
		self.internal = internal
		self.fn, self.prop, self.functions, self.mode = fn, prop, functions, mode
		self.bound, self.paths, self.seconds, self.runs = bound, paths, seconds, runs
		self.name = fn.__name__
		self.doc = doc
		self.size = size
		self.conc_seconds = conc_seconds

REGISTRY = []
LOOPS = []
STUBS = []
TRUST = []

def harness(prop, functions, mode='proof', bound=None, paths=3000, seconds=200, runs=1500, size=8, conc_seconds=20, internal=False):
	"""
	internal: the contract of a private helper, assumed by callers through `stub`;
	its failure alone is no violation (the callers are then checked against the body).

	mode 'proof': all inputs of the domains; 'bounded': symbolic, domains cut off at
	the stated bound; 'sampled': concrete executions only (bounded stand-in).
	"""
	def d(fn):
		REGISTRY.append(Harness(fn, prop, functions if isinstance(functions, (list, tuple)) else [functions],
			mode, bound, paths, seconds, runs, (fn.__doc__ or '').strip(), size=size, conc_seconds=conc_seconds, internal=internal))
		return fn
	return d

def loop(key, k, havoc=None, keep=(), attrs=None, when=None, mut=()):
	"invariant of the k-th loop of a function"
	def d(inv):
		LOOPS.append(dict(key=key, k=k, inv=inv, havoc=havoc, keep=keep, attrs=attrs, when=when, mut=mut))
		return inv
	return d

def stub(key):
	"callers of the function are checked against this contract (proved by an internal harness)"
	def d(fn):
		STUBS.append((key, fn))
		return fn
	return d

def real(f, *a, **k):
	"the body of f, not its contract"
	return f(*a, **k)

FINDINGS = []
def finding(prop, id, text):
	"a known defect: fn() says what still fails, or nothing"
	def d(fn):
		FINDINGS.append(dict(prop=prop, id=id, text=text, fn=fn))
		return fn
	return d

def trust(text):
	TRUST.append(text)

class CheckFailed(BaseException):
	def __init__(self, name, detail=''):
		self.name, self.detail = name, detail
	def __str__(self):
		return '%s %s' % (self.name, self.detail)

class Skip(BaseException):
	pass

class Ite(object):
	pass

# ------------------------------------------------------------ concrete driver

class ConcreteV(object):
	symbolic = False
	def __init__(self, given=None, rng=None, size=8):
		self.given = given or {}
		self.rng = rng or random.Random(0)
		self.size = size
		self.inputs = {}
		self.checks = 0
	def any(self, name, g):
		if name in self.given and g.ok(self.given[name]):
			x = self.given[name]
		else:
			x = g.rand(self.rng, self.size)
		self.inputs[name] = x
		return x
	def assume(self, c):
		if not c:
			raise Skip()
	def check(self, c, name):
		self.checks += 1
		if not c:
			raise CheckFailed(name)
	def eq(self, a, b, name):
		self.checks += 1
		if not same(a, b):
			raise CheckFailed(name, 'got %.300r, expected %.300r' % (a, b))
	def outcome(self, f, *a, **k):
		"('ok', value) or ('raise', exception)"
		try:
			return ('ok', f(*a, **k))
		except Exception as e:
			return ('raise', e)
	def fail(self, name):
		raise CheckFailed(name)
	def cover(self, name):
		pass
	def ghost(self, **k):
		pass
	def model(self, fn):
		return fn

def same(a, b):
	"equality that does not identify bool/int/None and looks inside sequences"
	if isinstance(a, (bytes, bytearray, memoryview)) and isinstance(b, (bytes, bytearray, memoryview)):
		return bytes(a) == bytes(b)
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
	if isinstance(a, float) and isinstance(b, float):
		return a == b or (a != a and b != b)
	if (a is None) != (b is None):
		return False
	return bool(a == b)

def run_concrete(h, given=None, rng=None, size=8):
	"""
	-> (status, v, message); status: ok, skip, fail
	"""
	v = ConcreteV(given, rng, size)
	try:
		h.fn(v)
		return ('ok', v, '')
	except Skip:
		return ('skip', v, '')
	except CheckFailed as e:
		return ('fail', v, str(e))
	except Exception as e:
		return ('fail', v, 'unexpected exception: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])

# ------------------------------------------------------------ symbolic driver

class SymbolicV(object):
	symbolic = True
	def __init__(self, c):
		self.c = c
		self.domains = {}
		self.vals = {}
		c.concretise = self.concretise
		c.v = self
	def any(self, name, g):
		x = g.sym(name)
		self.c.inputs[name] = x
		self.domains[name] = g
		return x
	def assume(self, cnd):
		from . import sym
		self.c.assume(sym.B(cnd))
	def check(self, cnd, name):
		from . import sym
		self.c.ex.covered.add(name)
		self.c.prove(sym.B(cnd), name)
	def eq(self, a, b, name):
		from . import sym
		self.c.ex.covered.add(name)
		if (a is None) != (b is None):
			self.c.prove(False, name)
			return
		r = sym.deep_eq(a, b)
		if r is not True and type(r) is bool and not r:
			import os
			if os.environ.get('PYVC_DEBUG'):
				print('EQ', name, '\n  got', repr(a), '\n  exp', repr(b))
		self.c.prove(sym.B(r), name)
	def outcome(self, f, *a, **k):
		try:
			from . import models
			return ('ok', models.vc_call(f, *a, **k))
		except Exception as e:
			return ('raise', e)
	def fail(self, name):
		self.c.ex.covered.add(name)
		self.c.prove(False, name)
	def cover(self, name):
		self.c.ex.covered.add(name)
	def ghost(self, **k):
		self.c.ghosts.update(k)

	# -- counter-model to python values
	def concretise(self, model):
		import z3
		from . import sym, core, models
		c = self.c
		dead, c.dead = c.dead, None
		try:
			if model is None:
				c.solver.push()
				if c.solver.check() != z3.sat:
					c.solver.pop()
					return None
				model = c.solver.model()
				c.solver.pop()
			def I(e):
				v = model.eval(sym.Z(e), model_completion=True)
				return v.as_long() if z3.is_int_value(v) else 0
			def val(x):
				t = type(x)
				if t is sym.SInt:
					return I(x)
				if t is sym.SBool:
					return z3.is_true(model.eval(x.e, model_completion=True))
				if t is models.SFloat:
					import struct
					return struct.unpack('!d' if x.width == 8 else '!f', I(x.bits).to_bytes(x.width, 'big'))[0]
				if t is sym.SSeq:
					el = []
					for p in sym.norm_pieces(x.pieces):
						if p[0] == 'L':
							el.extend(val(e) for e in p[1])
						elif p[0] == 'E':
							el.extend(I(p[2]).to_bytes(p[1], 'big'))
						else:
							a = p[1]
							n = max(0, min(I(a.length), 70000))
							if isinstance(a.fn, sym.DecFn):
								s = str(abs(I(a.fn.e)))
								el.extend(ord(ch) for ch in s)
								continue
							if x.kind in ('list', 'tuple'):
								n = min(n, 6)
								if a.elem is not None:
									for _ in range(n):
										el.append(val(a.elem(c.fresh('w'))))
								continue
							fill = [k for k in (list(sorted(a.allowed)) if a.allowed is not None else list(range(97, 123)) + [48, 49, 32]) if k not in a.free]
							el.extend(fill[i % len(fill)] for i in range(n))
					if x.kind in ('bytes', 'bytearray', 'mv'):
						return bytes(min(max(e, 0), 255) for e in el)
					if x.kind == 'str':
						return ''.join(chr(e) for e in el)
					return el if x.kind == 'list' else tuple(el)
				if issubclass(t, models.MModel) and hasattr(t, 'concrete'):
					return t.concrete(x, val)
				if t is list:
					return [val(e) for e in x]
				if t is tuple:
					return tuple(val(e) for e in x)
				if t is dict:
					return {val(k): val(e) for k, e in x.items()}
				return x
			return {n: val(x) for n, x in c.inputs.items()}
		finally:
			c.dead = dead
