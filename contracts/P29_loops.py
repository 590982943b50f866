"""
process_tuple: after i columns the results are those of the first i, the others are
still None, and no function has failed.
"""
import sys
from pyvc.api import loop

def m():
	return sys.modules['contracts.P29']

def results(o):
	"the list of results at the head of an iteration"
	from pyvc import sym
	o.pieces = (('A', sym.new_atom('list', 'r')),)

@loop('postgresql.python.functools:process_tuple', 0, keep=('i', 'ob'), when=lambda env: type(env.r) is not list, attrs=lambda env: [(env.r, None, results), (env.procs, 'next', None)])
def _(env, inv, L):
	from pyvc import sym
	row, ps = sym.to_seq(inv.ghost('row')), inv.ghost('procs')
	head, tail = sym.split_pieces(row.norm(), L.i, 'tuple')
	head, tail = sym.SSeq('list', tuple(head)), sym.SSeq('list', tuple(tail))
	inv.eq(env.r, sym.SSeq('list', sym.to_seq(m().DONE(head)).norm() + sym.to_seq(m().UNDONE(tail)).norm()), 'results')
	inv.cond(ps.next <= L.i, 'functions called')
	inv.cond(ps.raised is None, 'none has failed')

def any_list(c):
	from pyvc import sym
	return sym.SSeq('list', (('A', sym.new_atom('list', 'called')),))

@loop('postgresql.python.functools:Composition.__call__', 0, attrs=lambda env: [(m().Step.fn.track, 'now', None), (m().Step.fn.track, 'called', any_list)])
def _(env, inv, L):
	from pyvc import sym
	t = inv.ghost('track')
	inv.eq(env.r, t.now, 'the result so far')
	inv.eq(t.called, sym.SSeq('list', L.done.norm()), 'the functions so far')
