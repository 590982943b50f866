"the compiled packers: full domain, CBMC"
from pyvc import cbmc
TRUST = cbmc.TRUST
def obligations(repo, scratch, thorough):
	jobs = []
	for t in ('int2', 'uint2', 'int4', 'uint4', 'int8', 'uint8'):
		for s in ('', 'swap_'):
			for d in ('pack', 'unpack'):
				f = s + t + '_' + d
				jobs.append(dict(repo=repo, scratch=scratch, harness='structlib_h.c', function='h_' + f, functions=['port/_optimized/structlib.c:' + f], unwind=9, timeout=120))
	return cbmc.parallel(jobs)
