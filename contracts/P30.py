import itertools
from pyvc.api import *
from contracts.common import *
from postgresql.types import Array, Row
from postgresql.types import namedtuple as NT

ANY = Int(-10 ** 9, 10 ** 9)
SHAPES = ((1,), (3,), (1, 1), (2, 1), (1, 3), (2, 3), (3, 2), (1, 1, 1), (2, 2, 2), (2, 1, 3), (3, 2, 1))
def count(shape):
	n = 1
	for x in shape:
		n = n * x
	return n
def nest(elements, shape):
	"the nested list of the shape, in row-major order"
	if len(shape) == 1:
		return list(elements)
	w = count(shape[1:])
	return [nest(elements[i * w:(i + 1) * w], shape[1:]) for i in range(shape[0])]
def plain(x):
	"as nested list"
	return [plain(y) for y in x] if isinstance(x, (Array, list)) else x

def draw(v):
	shape = v.any('shape', Choice(*SHAPES))
	es = [v.any('element %d' % i, ANY) for i in range(count(shape))]
	return shape, es

def draw_lows(v, shape):
	return [v.any('lower bound %d' % i, Int(-1000, 1000, bias=(1, 0, 2))) for i in range(len(shape))]

@harness('P30', ['types.Array.from_nest', 'types.Array.detect_dimensions', 'types.Array.unroll_nest', 'types.Array.from_elements', 'types.Array.nest', 'types.Array.elements'], mode='bounded', bound='shapes of at most 8 elements')
def building(v):
	"the dimensions of the nesting, its elements in row-major order"
	shape, es = draw(v)
	l = nest(es, shape)
	a = Array(l)
	v.eq(a.dimensions, shape, 'dimensions')
	v.eq(a.ndims, len(shape), 'number of dimensions')
	v.eq(a.lowerbounds, (1,) * len(shape), 'lower bounds')
	v.eq(a.upperbounds, shape, 'upper bounds')
	v.eq(list(a.elements()), es, 'elements')
	v.eq(a.nest(), l, 'nested')
	v.eq(len(a), shape[0], 'length')
	v.check(Array(a) is a, 'an array stays')

@harness('P30', ['types.Array.get_element'], mode='bounded', bound='shapes of at most 8 elements; every address')
def addressing(v):
	"the element at the address, as in the nested list"
	shape, es = draw(v)
	a = Array(nest(es, shape))
	at = [v.any('axis %d' % i, Int(-1000, 1000, bias=(0, 1, 2, 3, -1, -2, -3, -4))) for i in range(len(shape))]
	inside = True
	for x, d in zip(at, shape):
		if x < -d or x >= d:
			inside = False
	r = v.outcome(a.get_element, at)
	if not inside:
		v.check(r[0] == 'raise' and type(r[1]) is IndexError, 'no such element')
		return
	k = 0
	for x, d in zip(at, shape):
		k = k * d + (x if x >= 0 else x + d)
	v.eq(r, ('ok', es[k]), 'element')

@harness('P30', ['types.Array.sql_get_element', 'types.Array.from_elements'], mode='bounded', bound='shapes of at most 8 elements; every address and every lower bound')
def sql_addressing(v):
	"the element between the bounds, otherwise NULL"
	shape, es = draw(v)
	lows = draw_lows(v, shape)
	a = Array.from_elements(es, lowerbounds=lows, upperbounds=[l + d - 1 for l, d in zip(lows, shape)])
	v.eq(a.dimensions, shape, 'dimensions')
	v.eq(a.lowerbounds, tuple(lows), 'lower bounds')
	at = [v.any('axis %d' % i, Int(-2000, 2000, bias=(0, 1, 2, 3))) for i in range(len(shape))]
	k = 0
	for x, l, d in zip(at, lows, shape):
		if x < l or x >= l + d:
			v.eq(a.sql_get_element(at), None, 'outside')
			return
		k = k * d + x - l
	v.eq(a.sql_get_element(at), es[k], 'element')

@harness('P30', ['types.Array.__getitem__'], mode='bounded', bound='shapes of at most 8 elements; every index')
def indexing(v):
	"the same as indexing the nested list"
	shape, es = draw(v)
	l = nest(es, shape)
	lows = draw_lows(v, shape)
	a = Array.from_elements(es, lowerbounds=lows, upperbounds=[x + d - 1 for x, d in zip(lows, shape)])
	i = v.any('index', Int(-1000, 1000, bias=(0, 1, 2, 3, -1, -2, -3, -4)))
	n = shape[0]
	r = v.outcome(lambda: a[i])
	if i < -n or i >= n:
		v.check(r[0] == 'raise' and type(r[1]) is IndexError, 'no such item')
		return
	v.eq(r[0], 'ok', 'item')
	k = i if i >= 0 else i + n
	for j in range(n):
		if k == j:
			x = r[1]
			if len(shape) == 1:
				v.eq(x, l[j], 'item')
			else:
				v.eq(x.nest(), l[j], 'item')
				v.eq(x.dimensions, shape[1:], 'dimensions of the item')
				v.eq(x.lowerbounds, tuple(lows[1:]), 'lower bounds of the item')

@harness('P30', ['types.Array.__getitem__', 'types.Array.from_elements'], mode='bounded', bound='shapes of at most 8 elements; slices of small numbers; every lower bound')
def slicing(v):
	"the same as slicing the nested list, numbered from one, the other axes keep their bounds"
	shape, es = draw(v)
	l = nest(es, shape)
	lows = draw_lows(v, shape)
	a = Array.from_elements(es, lowerbounds=lows, upperbounds=[x + d - 1 for x, d in zip(lows, shape)])
	i, j, k = v.any('from', Choice(None, 0, 1, 2, -1, -2, 5)), v.any('to', Choice(None, 0, 1, 2, -1, 5)), v.any('step', Choice(None, 1, 2, -1))
	x, w = a[i:j:k], l[i:j:k]
	v.eq(plain(x), w, 'items')
	if len(shape) > 1 and w:
		v.eq(x.dimensions, (len(w),) + shape[1:], 'dimensions')
		v.eq(x.lowerbounds, (1,) + tuple(lows[1:]), 'lower bounds')
		v.eq(x.upperbounds, (len(w),) + tuple([b + d - 1 for b, d in zip(lows[1:], shape[1:])]), 'upper bounds')

@harness('P30', ['types.Array.__iter__', 'types.Array.nest', 'types.Array.elements'], mode='bounded', bound='shapes of at most 8 elements; every lower bound')
def iterating(v):
	"the items in turn, whatever the bounds are"
	shape, es = draw(v)
	lows = draw_lows(v, shape)
	a = Array.from_elements(es, lowerbounds=lows, upperbounds=[x + d - 1 for x, d in zip(lows, shape)])
	l = nest(es, shape)
	v.eq(plain(a), l, 'items')
	v.eq(a.nest(), l, 'nested')
	v.eq(list(a.elements()), es, 'elements')

@harness('P30', ['types.Array.from_elements'])
def one_axis(v):
	"any sequence of elements, with any lower bound"
	es = v.any('elements', Seq(ANY))
	low = v.any('lower bound', Opt(Int(-1000, 1000)))
	n = len(es)
	given = v.any('upper bound too', Bool())
	if n == 0:
		a = Array.from_elements(es)
		v.eq((a.dimensions, a.lowerbounds, a.upperbounds, a.ndims, len(a)), ((), (), (), 0, 0), 'empty')
		return
	kw = {}
	if low is not None:
		kw['lowerbounds'] = (low,)
	lb = 1 if low is None else low
	if given:
		kw['upperbounds'] = (lb + n - 1,)
	a = Array.from_elements(es, **kw)
	v.eq((a.dimensions, a.lowerbounds, a.upperbounds, a.ndims, len(a)), ((n,), (lb,), (lb + n - 1,), 1, n), 'bounds')
	v.eq(list(a.elements()), list(es), 'elements')

@harness('P30', ['types.Array.from_elements'])
def bounds(v):
	"bounds that do not fit the number of elements are refused"
	es = v.any('elements', Seq(ANY, minlen=1))
	lo, hi = v.any('lower', Int(-1000, 1000)), v.any('upper', Int(-1000, 1000))
	r = v.outcome(Array.from_elements, es, lowerbounds=(lo,), upperbounds=(hi,))
	if hi - lo + 1 == len(es):
		v.eq(r[0], 'ok', 'fits')
	else:
		v.check(r[0] == 'raise' and type(r[1]) is ValueError, 'refused')

	extra = v.any('more bounds', Choice('lower', 'upper'))
	lows, highs = (1, 1) if extra == 'lower' else (1,), (len(es), 1) if extra == 'upper' else (len(es),)
	r = v.outcome(Array.from_elements, es, lowerbounds=lows, upperbounds=highs)
	v.check(r[0] == 'raise' and type(r[1]) is ValueError, 'as many lower bounds as upper ones')

# ---- executions
def every_address(shape):
	return itertools.product(*[range(-d - 1, d + 1) for d in shape])

@harness('P30', ['types.Array'], mode='sampled', runs=1, bound='every shape of at most 3 axes of at most 3, 4 axes of at most 2; every index and slice')
def every_shape(v):
	shapes = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)] + list(itertools.product((1, 2), repeat=4))
	for shape in shapes:
		es = list(range(count(shape)))
		l = nest(es, shape)
		a = Array(l)
		def same_(x, y, what):
			if plain(x) != y:
				v.eq(plain(x), y, '%s of %r' % (what, shape))
		same_(a, l, 'iteration')
		same_(a.nest(), l, 'nest')
		same_(list(a.nest(tuple)), [x if isinstance(x, int) else tuple_of(x) for x in l], 'nest of tuples') if len(shape) < 3 else None
		if not (a == l) or a != l or not (a == Array(l)) or len(a) != len(l) or a < l or a > l or not a <= l or not a >= l:
			v.fail('comparison')
		bigger = Array(nest(es[:-1] + [es[-1] + 1], shape))
		if not a < bigger or not bigger > a or a == bigger or not bigger != a or not a <= bigger or not bigger >= a:
			v.fail('order')
		if eval(repr(a).replace('postgresql.types.', '')) != a:
			v.fail('repr')
		for at in every_address(shape):
			x = l
			try:
				for i in at:
					x = x[i]
				w = ('ok', x)
			except IndexError:
				w = 'IndexError'
			try:
				g = ('ok', a.get_element(at))
			except IndexError:
				g = 'IndexError'
			if g != w:
				v.eq(g, w, 'element %r of %r' % (at, shape))
			x = a
			try:
				for i in at:
					x = x[i]
				g = ('ok', x)
			except IndexError:
				g = 'IndexError'
			if g != w:
				v.eq(g, w, 'items %r of %r' % (at, shape))
		n = shape[0]
		for i in list(range(-n - 1, n + 2)) + [None]:
			for j in list(range(-n - 1, n + 2)) + [None]:
				for k in (None, 1, 2, -1, -2):
					s = a[i:j:k]
					if plain(s) != l[i:j:k]:
						v.eq(plain(s), l[i:j:k], 'slice %r of %r' % ((i, j, k), shape))
					if isinstance(s, Array) and len(s) and (s.dimensions != (len(l[i:j:k]),) + shape[1:] or s.upperbounds != s.dimensions):
						v.fail('bounds of a slice')
	v.check(True, 'shape')
def tuple_of(x):
	return tuple(x)

def rand_nest(r, depth):
	return [rand_nest(r, depth - 1) if depth > 1 and r.random() < 0.93 else r.choice([1, 'ab', (1, 2), None, 'a']) for _ in range(r.randint(0 if r.random() < 0.1 else 1, 3))]
def shape_of(l):
	"of a rectangular nesting; None if it is ragged"
	if not l:
		return ()
	kinds = set([type(x) is list for x in l])
	if kinds == set([False]):
		return (len(l),)
	if len(kinds) == 2:
		return None
	subs = set([shape_of(x) for x in l])
	if len(subs) > 1 or None in subs or () in subs:
		return None
	return (len(l),) + subs.pop()

@harness('P30', ['types.Array.from_nest', 'types.Array.unroll_nest'], mode='sampled', runs=8000, bound='sampled nestings')
def ragged(v):
	"ragged nestings are refused"
	l = v.any('nesting', Search('nesting', lambda r, size: rand_nest(r, r.randint(1, 3))))
	s = shape_of(l)
	# a list standing where the first items have an element is an element
	def deep(x, d):
		return d == 1 and any(type(y) is list for y in x) or d > 1 and any(type(y) is list and deep(y, d - 1) for y in x)
	d, x = 0, l
	while type(x) is list and x:
		d, x = d + 1, x[0]
	v.assume(not deep(l, d))
	r = v.outcome(Array, l)
	if s is None:
		v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')
	else:
		v.eq(r[0], 'ok', repr(r))
		v.eq(r[1].dimensions, s, 'dimensions')
		v.eq(r[1].nest(), l, 'nested')

# ---- rows
NAMES = ('a', 'b', 'c d', '1')
@harness('P30', ['types.Row.from_sequence', 'types.Row.__getitem__', 'types.Row.get'], mode='bounded', bound='at most 4 columns')
def rows(v):
	"by position, by name and by iteration the same"
	n = v.any('columns', Int(0, 4)) if False else v.any('columns', Choice(0, 1, 2, 4))
	names = NAMES[:n]
	xs = [v.any('value %d' % i, ANY) for i in range(n)]
	r = Row.from_sequence({k: i for i, k in enumerate(names)}, xs)
	v.eq(len(r), n, 'length')
	v.eq(list(r), xs, 'iteration')
	v.eq(list(r.values()), xs, 'values')
	for i in range(n):
		v.eq(r[i], xs[i], 'by position')
		v.eq(r[i - n], xs[i], 'from the end')
		v.eq(r[names[i]], xs[i], 'by name')
		v.eq((r.get(i), r.get(i - n), r.get(names[i])), (xs[i], xs[i], xs[i]), 'get')
		v.eq(r.index_from_key(names[i]), i, 'index')
		v.eq(r.key_from_index(i), names[i], 'name')
	v.eq((r.get(n), r.get(-n - 1), r.get('none'), r.index_from_key('none'), r.key_from_index(n)), (None,) * 5, 'no such column')
	for k in (n, -n - 1):
		o = v.outcome(lambda: r[k])
		v.check(o[0] == 'raise' and type(o[1]) is IndexError, 'no such column')
	o = v.outcome(lambda: r['none'])
	v.check(o[0] == 'raise' and type(o[1]) is KeyError, 'no such name')

@harness('P30', ['types.Row.column_names', 'types.Row.items', 'types.Row.from_mapping', 'types.Row.transform', 'types.namedtuple'], mode='sampled', runs=3000, bound='at most 6 columns')
def row_views(v):
	names = v.any('names', Search('names', lambda r, size: r.sample(['a', 'b', 'c', 'd', 'x y', 'class', '_z', 'A'], r.randint(0, 6))))
	xs = v.any('values', Search('values', lambda r, size: [r.choice([None, 1, 'x', (1,), 2.5]) for _ in range(6)]))[:len(names)]
	order = v.any('order', Search('order', lambda r, size: r.sample(range(6), 6)))
	km = {}
	for i in order:
		if i < len(names):
			km[names[i]] = i
	r = Row.from_sequence(km, xs)
	v.eq(r.column_names, tuple(names), 'names in order')
	v.eq(list(r.items()), list(zip(names, xs)), 'items')
	v.eq(sorted(r.keys()), sorted(names), 'keys')
	v.eq(tuple(r), tuple(xs), 'a tuple')
	v.eq(r[1:], tuple(xs)[1:], 'slice')
	m = Row.from_mapping(km, {k: x for k, x in zip(names, xs) if x is not None})
	v.eq((tuple(m), m.column_names), (tuple(xs), tuple(names)), 'from a mapping')
	f = lambda x: ('f', x)
	by = v.any('transformed', Search('transformed', lambda r_, size: [r_.choice([None, 'pos', 'name']) for _ in range(6)]))[:len(names)]
	pos = [f if b == 'pos' else None for b in by]
	kw = {k: f for k, b in zip(names, by) if b == 'name'}
	t = r.transform(*pos, **kw)
	v.eq(tuple(t), tuple([f(x) if b else x for x, b in zip(xs, by)]), 'transformed')
	v.eq(t.column_names, tuple(names), 'names kept')
	v.eq(tuple(r), tuple(xs), 'the row stays')
	o = v.outcome(r.transform, nonesuch=f)
	v.check(o[0] == 'raise' and isinstance(o[1], KeyError), 'no such column')
	t = NT.NamedTupleFactory(km)(xs)
	v.eq(tuple(t), tuple(xs), 'named tuple')
	for k, x in zip(names, xs):
		k = k.replace(' ', '_')
		if k.isidentifier() and k not in ('class', '_z'):
			v.eq(getattr(t, k), x, 'attribute')
