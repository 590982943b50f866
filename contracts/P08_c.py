"the compiled row functions: CBMC, bounded"
from pyvc import cbmc
TRUST = cbmc.TRUST
def obligations(repo, scratch, thorough):
	n, m = 3, 3
	t = 500 if thorough else 280
	jobs = []
	for h, f, N, M, extra in (
		('pack', ['_pack_tuple_data'], 2, 2, ''), ('pack_bad', ['_pack_tuple_data'], 3, 2, ''),
		('parse', ['parse_tuple_message', '_unpack_tuple_data'], 3, 2, ''),
		('parse_any', ['parse_tuple_message', '_unpack_tuple_data'], 2, 12, ''),
		('consume', ['consume_tuple_messages'], 1, 6, ''),):
		size = 2 + N * (4 + M) + 1
		jobs.append(dict(repo=repo, scratch=scratch, harness='element3_h.c', function='h_' + h, functions=['port/_optimized/element3.c:' + x for x in f],
			bound='rows of at most %d fields of at most %d bytes' % (N, M), unwind=max(N, 3) + 2,
			unwindset='any_data.0:14,spec_bytes.0:%d,spec_fields.0:%d,is_spec.0:%d,h_parse.0:%d,h_parse.1:%d,h_parse_any.0:14,h_parse_any.1:14,spec_put.0:6' % (M + 2, N + 2, max(size, 16) + 2, size + 2, M + 3),
			timeout=t, flags=['-DN=%d' % N, '-DM=%d' % M, '--object-bits', '11']))
	return cbmc.parallel(jobs)
