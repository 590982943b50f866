from pyvc.api import *
from contracts.common import *
from postgresql import versionstring as V

N = Int(0, 10 ** 6, bias=(0, 1, 8, 9, 10, 14, 99, 100))
STATES = ('dev', 'devel', 'a', 'alpha', 'b', 'beta', 'rc')
STATE = Choice(None, *STATES)

def text(nums, state, level):
	s = '.'.join([str(x) for x in nums])
	if state is not None:
		s = s + state
		if level is not None:
			s = s + str(level)
	return s

def padded(nums):
	return tuple(nums) + (None,) * (3 - len(nums))

def draw(v):
	nums = v.any('numbers', FixedSeq(N, range(1, 5)))
	state = v.any('state', STATE)
	level = v.any('level', Opt(N))
	if state is None:
		level = None
	return nums, state, level

@harness('P22', ['versionstring.split'])
def splitting(v):
	"the numbers, the state and its level, with absent numbers as None"
	nums, state, level = draw(v)
	t = V.split(text(nums, state, level))
	v.eq(t, padded(nums) + (state, level), 'the parts of the version')
	v.check(type(t) is tuple, 'a tuple')

@harness('P22', ['versionstring.split'], mode='bounded', bound='blanks around, levels without numbers')
def splitting_odd(v):
	"blanks around and a packager's note are ignored; a state standing alone after the last dot counts as no number"
	nums, state, level = draw(v)
	pre, post = v.any('pre', Choice('', ' ', '\t')), v.any('post', Choice('', '\n', '  ', ' (Debian 10.3-1.pgdg90+1)'))
	v.eq(V.split(pre + text(nums, state, level) + post), padded(nums) + (state, level), 'blanks are no part of it')
	if state is not None:
		s = text(nums, None, None) + '.' + text([], state, level)
		v.eq(V.split(s), padded(nums) + (state, level), 'state after a dot')

@harness('P22', ['versionstring.unsplit', 'versionstring.split'])
def round_trip(v):
	"printing gives an equivalent version"
	nums, state, level = draw(v)
	s = text(nums, state, level)
	p = V.unsplit(V.split(s))
	v.eq(p, s, 'printed as given')
	v.eq(V.split(p), V.split(s), 'reads the same')

@harness('P22', ['versionstring.normalize'])
def normal(v):
	"absent numbers and levels are zero, an absent state is final"
	nums, state, level = draw(v)
	n = V.normalize(V.split(text(nums, state, level)))
	v.eq(n, tuple([0 if x is None else x for x in padded(nums)]) + ('final' if state is None else state, 0 if level is None else level), 'normal form')

@harness('P22', ['versionstring.normalize', 'versionstring.split'])
def order(v):
	"normal forms compare by number, as releases are ordered"
	a = v.any('a', FixedSeq(N, range(1, 4)))
	b = v.any('b', FixedSeq(N, range(1, 4)))
	x = V.normalize(V.split(text(a, None, None)))
	y = V.normalize(V.split(text(b, None, None)))
	za = tuple(list(a) + [0] * (3 - len(a)))
	zb = tuple(list(b) + [0] * (3 - len(b)))
	lt = za[0] < zb[0] or (za[0] == zb[0] and (za[1] < zb[1] or (za[1] == zb[1] and za[2] < zb[2])))
	v.check((x < y) == lt, 'earlier release')
	v.check((x[:2] >= (9, 0)) == (za[0] >= 9), 'feature tests')

@harness('P22', ['versionstring.default_state_class_priority', 'versionstring.normalize'])
def state_order(v):
	"states are listed in release order; versions alike but for the state order by it"
	p = V.default_state_class_priority
	rank = [x if x is not None else 'final' for x in p]
	i = v.any('i', Choice(*range(6)))
	j = v.any('j', Choice(*range(6)))
	order = ('dev', 'alpha', 'beta', 'rc', 'final')
	short = {'alpha': 'a', 'beta': 'b'}
	for k in range(4):
		v.check(rank.index(order[k]) < rank.index(order[k + 1]), 'release order')
	for full in short:
		v.check(rank.index(short[full]) < rank.index(full) and rank.index(short[full]) > rank.index(order[order.index(full) - 1]), 'short names')

@harness('P22', ['versionstring.sh', 'versionstring.xml', 'versionstring.python'])
def formats(v):
	"the printed forms give each part"
	nums, state, level = draw(v)
	t = V.normalize(V.split(text(nums, state, level)))
	v.eq(V.sh(t), 'PG_VERSION_MAJOR=' + str(t[0]) + '\nPG_VERSION_MINOR=' + str(t[1]) + '\nPG_VERSION_PATCH=' + str(t[2])
		+ '\nPG_VERSION_STATE=' + str(t[-2]) + '\nPG_VERSION_LEVEL=' + str(t[-1]), 'sh')
	x = V.xml(t)
	v.eq(x, '<version type="one">\n <major>' + str(t[0]) + '</major>\n <minor>' + str(t[1]) + '</minor>\n <patch>' + str(t[2])
		+ '</patch>\n <state>' + str(t[-2]) + '</state>\n <level>' + str(t[-1]) + '</level>\n</version>', 'xml')
