import sys
from pyvc.api import loop

def data(c):
	from pyvc import sym
	return sym.mkseq('bytes', (('A', sym.new_atom('bytes', 'data')),))
def ghosts():
	from pyvc import core
	return core.CTX.ghosts

@loop('postgresql.copyman:ProtocolReceiver.transmit', 0, attrs=lambda env: [(env.self, 'view', data), (ghosts()['sock'], 'sent', data)])
def _(env, inv, L):
	"what was taken and what is left are the data"
	inv.eq(inv.ghost('sock').sent + env.self.view, inv.ghost('data'), 'every byte once')
