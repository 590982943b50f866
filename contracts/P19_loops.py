from pyvc.api import loop
from contracts.common import *

@loop('postgresql.pgpassfile:lookup_password', 0, when=lambda env: has_ghost('before'))
def _(env, inv, L):
	"no entry passed so far matches"
	inv.cond(size(L.done) <= size(inv.ghost('before')))
