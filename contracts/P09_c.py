"the compiled tracker: CBMC, bounded"
from pyvc import cbmc
TRUST = cbmc.TRUST
def obligations(repo, scratch, thorough):
	return cbmc.parallel([dict(repo=repo, scratch=scratch, harness='wirestate_h.c', function='h_update',
		functions=['port/_optimized/wirestate.c:' + x for x in ('ws_update', 'ws_remaining_bytes', 'ws_size_fragment', 'ws_final_view')],
		bound='any state, views of %d bytes' % k, unwind=max(k, 4) + 2, timeout=500 if thorough else 280, flags=['-DK=%d' % k, '--object-bits', '10'])
		for k in ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9) if thorough else (0, 1, 3, 4, 5, 6))])
