"""
pyvc.loops -- loop invariants.

A loop under contract is cut: the invariant is proved on entry, the locals the
body assigns (and the objects the contract lists) are replaced by arbitrary
values, the invariant is assumed, one iteration runs from that state and the
invariant is proved again.  The frame is checked: an object reachable from the
locals that the contract does not list must not have changed.
"""
import types
import z3
from . import core, sym, models
from .core import ctx, Unsupported, PathEnd
from .sym import SInt, SBool, SSeq, Z, mkint, to_seq, slen, new_atom, norm_pieces, expose_first, elem_value, concrete_int, isinstance_raw

DISABLED = False   # loop contracts dropped: bounded unrolling
SPECS = {}    # (key, ordinal) -> LoopSpec
_type = type

class LoopSpec(object):
	def __init__(self, key, k, inv, havoc=None, keep=(), attrs=None, when=None, mut=()):
		self.key, self.k, self.inv = key, k, inv
		self.havoc = havoc or {}      # name -> factory(v) ; overrides the inferred type
		self.keep = set(keep)         # assigned names that are dead at the head
		self.attrs = attrs            # function(env) -> list of (object, attribute, factory)
		self.when = when
		self.mut = tuple(mut)
		self.used = 0

class Inv(object):
	"conditions of an invariant, either proved or assumed"
	def __init__(self, mode, name):
		self.mode, self.name, self.n = mode, name, 0
	def label(self, text):
		self.n += 1
		return '%s: %s' % (self.name, text or 'condition %d' % self.n)
	def cond(self, c, text=''):
		if self.mode == 'assume':
			ctx().assume(c if isinstance(c, bool) and _type(c) is bool else sym.B(c))
		else:
			ctx().prove(sym.B(c), self.label(text))
	def eq(self, a, b, text=''):
		if self.mode == 'assume':
			if sym.kind_of(a) and (_type(a) is SSeq or _type(b) is SSeq):
				sym.assume_seq_eq(a, b)
			else:
				r = sym.deep_eq(a, b)
				ctx().assume(sym.B(r))
		else:
			r = sym.deep_eq(a, b)
			ctx().prove(sym.B(r), self.label(text))
	def ghost(self, name):
		"a value the harness recorded with v.ghost"
		g = ctx().ghosts
		if name not in g:
			raise Unsupported("no ghost %r" % name)
		return g[name]
	def prefix(self, p, s, text=''):
		"p is a prefix of s; returns the rest"
		p, s = to_seq(p), to_seq(s)
		if self.mode == 'assume':
			rest = new_atom(s.kind, 'rest', elem=_elem_of(s))
			sym.assume_seq_eq(s, SSeq(s.kind, p.norm() + (('A', rest),)))
			return sym.mkseq(s.kind, (('A', rest),))
		lp, ls = slen(p), slen(s)
		ctx().prove(Z(lp) <= Z(ls), self.label(text + ' (length)'))
		head, tail = sym.split_pieces(s.norm(), lp, s.kind)
		r = sym.deep_eq(SSeq(s.kind, norm_pieces(tuple(head))), SSeq(s.kind, p.norm()))
		ctx().prove(sym.B(r), self.label(text))
		return sym.mkseq(s.kind, tail)

def _elem_of(s):
	for p in s.norm():
		if p[0] == 'A' and p[1].elem is not None:
			return p[1].elem
	return None

def havoc_like(name, value):
	"an arbitrary value of the same type"
	t = _type(value)
	c = ctx()
	if t is bool or t is SBool:
		return SBool(z3.Bool(c.fresh(name)))
	if t is SInt or issubclass(t, int):
		return SInt(z3.Int(c.fresh(name)))
	k = sym.kind_of(value)
	if k in ('bytes', 'str', 'mv', 'bytearray'):
		return SSeq(k, (('A', new_atom(k, name)),))
	if k in ('list', 'tuple'):
		return SSeq(k, (('A', new_atom(k, name, elem=_elem_of(to_seq(value)))),))
	raise Unsupported("loop modifies %r of type %s: the contract must say how" % (name, t.__name__))

def snapshot(roots, exclude):
	"shallow copies of the mutable objects reachable from the locals"
	seen = {}
	todo = list(roots)
	while todo and len(seen) < 400:
		o = todo.pop()
		if id(o) in seen or id(o) in exclude:
			continue
		t = _type(o)
		if t is SSeq and o.kind in ('list', 'bytearray'):
			seen[id(o)] = (o, ('seq', norm_pieces(o.pieces)))
		elif t is list:
			seen[id(o)] = (o, ('list', list(o))); todo.extend(o)
		elif t is dict:
			seen[id(o)] = (o, ('dict', dict(o))); todo.extend(o.values())
		elif t in (types.BuiltinFunctionType, types.MethodType):
			if not isinstance_raw(o.__self__, (type, types.ModuleType)):
				todo.append(o.__self__)
		elif t is tuple:
			todo.extend(o)
			seen[id(o)] = (o, None)
		elif t is models.MBytesIO:
			seen[id(o)] = (o, ('bio', (norm_pieces(o.content), o.pos)))
		elif t is models.SeqIter:
			seen[id(o)] = (o, ('it', norm_pieces(o.todo.pieces)))
		elif getattr(t, '__module__', '').startswith(('postgresql', 'contracts')) and hasattr(o, '__dict__') and not isinstance_raw(o, type):
			d = object.__getattribute__(o, '__dict__')
			seen[id(o)] = (o, ('obj', dict(d))); todo.extend(d.values())
	return seen

def changed(entry):
	o, s = entry
	if s is None:
		return None
	k, old = s
	if k == 'seq':
		return None if norm_pieces(o.pieces) == norm_pieces(old) else 'list'
	if k == 'list':
		return None if len(o) == len(old) and all(a is b for a, b in zip(o, old)) else 'list'
	if k == 'dict':
		return None if o.keys() == old.keys() and all(o[x] is old[x] for x in o) else 'dict'
	if k == 'bio':
		ch = []
		if norm_pieces(o.content) != norm_pieces(old[0]):
			ch.append('content')
		if not (o.pos is old[1] or sym.deep_eq(o.pos, old[1]) is True):
			ch.append('pos')
		return 'BytesIO.' + '+'.join(ch) if ch else None
	if k == 'it':
		return None if norm_pieces(o.todo.pieces) == norm_pieces(old) else 'iterator'
	if k == 'obj':
		d = object.__getattribute__(o, '__dict__')
		for x in set(d) | set(old):
			if d.get(x, _missing) is not old.get(x, _missing):
				return '%s.%s' % (type(o).__name__, x)
	return None
_missing = object()

class Env(object):
	def __init__(self, d, loop):
		self.__dict__.update(d)
		self.__dict__['_loop'] = loop
	def __getattr__(self, n):
		raise Unsupported("the loop has no variable %r" % n)

class Loop(object):
	def __init__(self, spec, *it):
		self.spec = spec
		self.is_for = bool(it)
		self.plain = core.CTX is None or DISABLED
		self.guard = models.WhileGuard('%s#%d' % (spec.key, spec.k))
		self.vals = {}
		self.heads = 0
		self.done = self.todo = self.i = self.n = None
		if self.is_for:
			x = it[0]
			t = _type(x)
			if DISABLED:
				self.kind = 'plain'
				self.it = iter(models.vc_iter(x))
				self._next = None
			elif t is models.SRange:
				self.kind = 'range'
				self.start = x.start
				self.i = x.start
				self.stop = x.stop
				if not (concrete_int(x.step) and x.step == 1):
					raise Unsupported("range step")
			elif t is SSeq and any(p[0] == 'A' for p in x.norm()):
				self.kind = 'seq'
				self.seqkind = x.kind
				self.done = SSeq(x.kind, ())
				self.todo = SSeq(x.kind, x.norm())
			elif t is models.SeqIter:
				self.kind = 'seq'
				self.seqkind = x.seq.kind
				self.done = x.done
				self.todo = x.todo
			elif hasattr(t, '__next__') and t.__module__.startswith('contracts'):
				# an iterator of the harness: its state is the contract's business
				self.kind = 'iter'
				self.it = x
			else:
				self.kind = 'plain'
				self.plain = True
				self.it = iter(models.vc_iter(x))
				self._next = None

	def head(self, loc):
		if self.plain:
			self.vals = {}
			return
		c = ctx()
		c.alive()
		spec = self.spec
		spec.used += 1
		name = 'loop %s#%d' % (spec.key, spec.k)
		self.heads += 1
		if self.heads == 1 and spec.when is not None and not spec.when(Env(loc, self)):
			self.plain = True
			if self.is_for:
				if self.kind == 'seq':
					self.it = iter(models.vc_iter(self.todo))
				elif self.kind == 'range':
					self.it = iter(models.SRange(self.i, self.stop))
				self._next = None
			return
		env = Env(loc, self)
		if self.heads == 1:
			env._entry = True
			self.entry = Env(loc, self)
			spec.inv(env, Inv('prove', name + ' entry'), self.ghost())
			# havoc
			newloc = dict(loc)
			self.vals = {}
			exclude = set()
			for n in self.assigned(loc):
				if n in spec.keep or n not in loc:
					if n in spec.havoc:
						self.vals[n] = spec.havoc[n](c)
						newloc[n] = self.vals[n]
					continue
				if n in spec.havoc:
					v = spec.havoc[n](c)
				else:
					v = havoc_like(n, loc[n])
				self.vals[n] = v
				newloc[n] = v
			for n in spec.havoc:
				if n not in self.vals and n in loc:
					v = spec.havoc[n](c)
					self.vals[n] = v
					newloc[n] = v
			from . import transform
			for n in tuple(spec.mut) + transform.LOOP_MUTATED.get((spec.key, spec.k), ()):
				o = newloc.get(n)
				if n in self.vals or o is None:
					continue
				if _type(o) is SSeq and o.kind in ('list', 'bytearray'):
					o.pieces = (('A', new_atom(o.kind, n, elem=_elem_of(o))),)
					exclude.add(id(o))
				elif _type(o) is models.SeqIter or isinstance_raw(o, models.MModel):
					pass
				elif _type(o) in (list, dict, set):
					raise Unsupported("loop changes the %s %r in place" % (_type(o).__name__, n))
			env = Env(newloc, self)
			if spec.attrs is not None:
				for (o, attr, fac) in spec.attrs(env):
					if attr is None:
						# mutable object changed in place
						fac(o)
						exclude.add(id(o))
					else:
						old = getattr(o, attr)
						setattr(o, attr, fac(c) if fac is not None else havoc_like(attr, old))
				self.mut = [(id(o), attr) for (o, attr, fac) in spec.attrs(env)]
			else:
				self.mut = []
			if self.is_for:
				if self.kind == 'range':
					self.i = SInt(z3.Int(c.fresh('i')))
					c.assume(Z(self.i) >= Z(self.start))
					c.assume(z3.Or(Z(self.i) <= Z(self.stop), z3.And(Z(self.start) > Z(self.stop), Z(self.i) == Z(self.start))))
				elif self.kind == 'seq':
					whole = SSeq(self.seqkind, self.done.norm() + self.todo.norm())
					# parts of different domains are told apart by the unification below
					els = [p[1].elem for p in whole.norm() if p[0] == 'A' and p[1].elem is not None]
					el = els[0] if els and all(x is els[0] for x in els) else None
					d = new_atom(self.seqkind, 'done', elem=el)
					t = new_atom(self.seqkind, 'todo', elem=el)
					self.done = SSeq(self.seqkind, (('A', d),))
					self.todo = SSeq(self.seqkind, (('A', t),))
					sym.assume_seq_eq(whole, SSeq(self.seqkind, (('A', d), ('A', t))))
			spec.inv(env, Inv('assume', name), self.ghost())
			if not c.feasible():
				c.die(PathEnd("loop state infeasible"))
			self.snap = snapshot(list(newloc.values()), exclude)
			self.newloc = newloc
		else:
			# end of the arbitrary iteration
			spec.inv(env, Inv('prove', name + ' preserved'), self.ghost())
			for ident, entry in self.snap.items():
				w = changed(entry)
				if w is not None:
					if any(i == ident and (a is None or w.endswith('.' + a)) for i, a in self.mut):
						continue
					if entry[1][0] == 'bio' and all((ident, a) in self.mut for a in w.partition('.')[2].split('+')):
						continue
					if any(entry[0] is v for n, v in self.vals.items()):
						continue   # a havocked local: its content is the invariant's business
					if w.count('.') and any(i == ident for i, a in self.mut):
						names = [a for i, a in self.mut if i == ident]
						d = object.__getattribute__(entry[0], '__dict__')
						old = entry[1][1]
						bad = [x for x in set(d) | set(old) if d.get(x, _missing) is not old.get(x, _missing) and x not in names]
						if not bad:
							continue
					c.die(Unsupported("the loop body changes %s, which its contract does not list" % w))
			c.die(PathEnd("loop cut"))

	def assigned(self, loc):
		from . import transform
		return transform.LOOP_ASSIGNED.get((self.spec.key, self.spec.k), ())

	def ghost(self):
		return self

	def has(self, n):
		return n in self.vals

	def val(self, n):
		return self.vals[n]

	def test(self, t):
		"the condition of a while loop"
		return self.guard(t) if self.plain else t

	def more(self):
		self.vals = {}
		if self.plain or self.kind == 'iter':
			try:
				self._next = next(self.it)
				return True
			except StopIteration:
				return False
		if self.kind == 'range':
			return self.i < self.stop
		return bool(slen(self.todo) != 0)

	def next(self):
		if self.plain or self.kind == 'iter':
			return self._next
		if self.kind == 'range':
			i = self.i
			self.i = i + 1
			return i
		e = expose_first(self.todo)
		_, r = sym.split_pieces(self.todo.norm(), 1, self.seqkind)
		self.done = SSeq(self.seqkind, norm_pieces(self.done.pieces + (('L', (e,)),)))
		self.todo = SSeq(self.seqkind, r)
		return elem_value(self.seqkind, e)

class PlainLoop(object):
	pass

def vc_loop(key, k, *it):
	spec = SPECS.get((key, k))
	if spec is None:
		raise Unsupported("no contract for loop %s#%d" % (key, k))
	return Loop(spec, *it)

models.HOOKS['__vc_loop__'] = vc_loop

def register(spec):
	from . import transform
	SPECS[(spec.key, spec.k)] = spec
	mod, q = spec.key.split(':')
	transform.LOOP_KEYS.setdefault(mod, {}).setdefault(q, set()).add(spec.k)
	return spec
