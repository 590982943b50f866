"the compiled message stream: CBMC, bounded"
from pyvc import cbmc
TRUST = cbmc.TRUST
def obligations(repo, scratch, thorough):
	# p_read is out of CBMC's reach (no answer within 280 s even for one chunk of 6 bytes): it is executed by the sampled contracts
	n = 5 if thorough else 4
	jobs = []
	for h, f in (('next_message', ['p_next_message', 'p_build_tuple', 'p_memcpy', 'p_seek', 'p_at_least', 'pl_truncate']), ('has_message', ['p_has_message']),
		('length', ['p_length']), ('write', ['p_write']), ('getvalue', ['p_getvalue', 'p_truncate', 'pb_truncate'])):
		k, m = 3, n
		jobs.append(dict(repo=repo, scratch=scratch, harness='buffer_h.c', function='h_' + h, functions=['port/_optimized/buffer.c:' + x for x in f],
			bound='any well-formed buffer of at most %d chunks of at most %d bytes, any content and position' % (k, m), unwind=n + 2,
			unwindset='h_init_types.0:257,h_is_message.0:%d,h_getvalue.0:%d,h_any_buffer.0:7,h_any_buffer.1:7,h_any_buffer.2:7,h_holds.0:7,h_holds.1:7' % (k * m + 1, k * m + 1),
			timeout=500 if thorough else 280, flags=['-DCHUNK=%d' % m, '-DNCHUNK=%d' % k, '--object-bits', '11']))
	return cbmc.parallel(jobs)
