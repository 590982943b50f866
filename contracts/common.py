"domains and specification functions shared by the contracts"
from pyvc.gen import *
from pyvc.sym import Hom

U8, U16, U32, U64 = Int(0, 255), Int(0, 2**16 - 1), Int(0, 2**32 - 1), Int(0, 2**64 - 1)
I8, I16, I32, I64 = Int(-128, 127), Int(-2**15, 2**15 - 1), Int(-2**31, 2**31 - 1), Int(-2**63, 2**63 - 1)
NAME = Bytes(free=NUL)
# an attribute: NULL or at most 2**31-1 bytes
ATT = Opt(Bytes(maxlen=2**31 - 1))
FMT = Bytes(length=2)

def is_symbolic():
	from pyvc import core
	return core.CTX is not None

def be(n, x):
	"n-byte big-endian two's complement (specification; x in range)"
	if is_symbolic():
		from pyvc.sym import be_pack, concrete_int, mkint, Z
		import z3
		if concrete_int(x):
			return (int(x) & ((1 << 8 * n) - 1)).to_bytes(n, 'big')
		e = Z(x)
		return be_pack(n, mkint(z3.If(e < 0, e + (1 << 8 * n), e)))
	return (int(x) & ((1 << 8 * n) - 1)).to_bytes(n, 'big')

def ite(c, a, b):
	"a if c else b, for numbers, without a case split"
	if is_symbolic():
		from pyvc.sym import mkint, Z, B
		import z3
		if c is not True and c is not False:
			return mkint(z3.If(B(c), Z(a), Z(b)))
	return a if c else b

def size(x):
	from pyvc.sym import slen, SSeq
	return slen(x) if type(x) is SSeq else len(x)

def _att(x):
	"a field on the wire: -1, or length and content"
	return b'\xff\xff\xff\xff' if x is None else be(4, size(x)) + x
ATTS = Hom('spec-fields', 'bytes', _att, minlen=4)
from pyvc.models import JOIN
CAT = JOIN('bytes')
U32S = Hom('spec-u32s', 'bytes', lambda x: be(4, x))
U16S = Hom('spec-u16s', 'bytes', lambda x: be(2, x))

def _tdesc(x):
	return x[0] + b'\x00' + be(4, x[1]) + be(2, x[2]) + be(4, x[3]) + be(2, x[4]) + be(4, x[5]) + be(2, x[6])
TDESC = Hom('spec-tdesc', 'bytes', _tdesc)

def _frame(m):
	"a message (type, payload) on the wire"
	return m[0] + be(4, size(m[1]) + 4) + m[1]
FRAMES = Hom('spec-frames', 'bytes', _frame, minlen=5)

def _field(f):
	"a field of a record on the wire"
	return be(4, f[0]) + (b'\xff\xff\xff\xff' if f[1] is None else be(4, size(f[1])) + f[1])
FIELDS = Hom('spec-record-fields', 'bytes', _field, minlen=8)

def _data(x):
	"a copy data message"
	return b'd' + be(4, size(x) + 4) + x
DATA = Hom('spec-copydata', 'bytes', _data, minlen=5)

def has_ghost(name):
	from pyvc import core
	return name in core.CTX.ghosts

_PURE = {}
def pure(modname):
	"the module without the compiled port (proofs never load the port)"
	import importlib, importlib.util, sys
	if is_symbolic() or LOADING():
		return importlib.import_module(modname)
	if modname not in _PURE:
		import importlib.machinery
		importlib.import_module(modname)
		blocked = [m for m in ('postgresql.port.optimized',)]
		saved = {m: sys.modules.get(m) for m in blocked}
		import postgresql.port as port
		had = port.__dict__.pop('optimized', None)
		try:
			for m in blocked:
				sys.modules[m] = None
			spec = importlib.util.find_spec(modname)
			m = importlib.util.module_from_spec(spec)
			spec.loader.exec_module(m)
			_PURE[modname] = m
		finally:
			for n in blocked:
				if saved[n] is None:
					sys.modules.pop(n, None)
				else:
					sys.modules[n] = saved[n]
			if had is not None:
				port.optimized = had
	return _PURE[modname]

def LOADING():
	"being imported by the prover"
	import sys
	return any(type(f).__module__ == 'pyvc.transform' for f in sys.meta_path)
