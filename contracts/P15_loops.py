from pyvc.api import loop
from contracts.common import size

def rows(c):
	from pyvc import sym
	from pyvc.gen import Int
	return sym.mkseq('list', (('A', sym.new_atom('list', 'rows', elem=Int().sym)),))
def fill(o):
	o.pieces = rows(None).pieces
def g():
	from pyvc import core
	return core.CTX.ghosts

for fn in ('read', 'readall'):
	@loop('postgresql.driver.dbapi20:Portal.' + fn, 0, attrs=lambda env: [(env.self.buf, None, fill), (g()['chunks'], 'given', rows), (g()['chunks'], 'over', lambda c: False)])
	def _(env, inv, L, fn=fn):
		"what is in the buffer is what it had and what came"
		pos, start = inv.ghost('pos'), inv.ghost('start')
		if fn == 'readall':
			# what was read is forgotten first
			start, pos = start[pos:], 0
		inv.eq(env.self.buf, start + inv.ghost('chunks').given, 'buffer')
		inv.cond(not inv.ghost('chunks').over, 'goes on')
		inv.eq(env.self.pos, pos, 'position')
