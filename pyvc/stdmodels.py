"""
pyvc.stdmodels -- models of datetime (proleptic Gregorian calendar reduced to day
ordinals and microseconds; the calendar itself is not needed by the code).
"""
import datetime, random
import z3
from . import core, sym, models
from .core import Unsupported
from .sym import SInt, Z, B, mkint, mkbool, concrete_int, isinstance_raw
from .models import MModel, MODEL, METHODS, model, method, has_sym
from .gen import G, Int

DAY = 86400 * 10**6
MAXORD = datetime.date.max.toordinal()
MAXUS = MAXORD * DAY + DAY - 1      # datetime.max, microseconds since ordinal 0
_real = {'date': datetime.date, 'datetime': datetime.datetime, 'time': datetime.time, 'timedelta': datetime.timedelta}

def I(x):
	return x

def td_us(td):
	if type(td) is STimedelta:
		return td.us
	return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds

class _Base(MModel):
	__slots__ = ()
	def __hash__(self):
		return id(self)
	def __ne__(self, o):
		return mkbool(z3.Not(B(self == o)))
	def __bool__(self):
		return True

class STimedelta(_Base):
	__slots__ = ('us', 'parts')
	def __init__(self, us, parts=None):
		self.us = us
		self.parts = parts
	@property
	def __class__(self): return datetime.timedelta
	@property
	def days(self): return self.parts[0] if self.parts else self.us // DAY
	@property
	def seconds(self): return self.parts[1] if self.parts else (self.us % DAY) // 10**6
	@property
	def microseconds(self): return self.parts[2] if self.parts else self.us % 10**6
	def __eq__(self, o):
		if isinstance_raw(o, datetime.timedelta) or type(o) is STimedelta:
			return self.us == td_us(o)
		return False
	def _o(self, o):
		if isinstance_raw(o, datetime.timedelta) or type(o) is STimedelta:
			return td_us(o)
		return None
	def __add__(self, o):
		return mktd(self.us + self._o(o)) if self._o(o) is not None else NotImplemented
	__radd__ = __add__
	def __sub__(self, o):
		return mktd(self.us - self._o(o)) if self._o(o) is not None else NotImplemented
	def __rsub__(self, o):
		return mktd(self._o(o) - self.us) if self._o(o) is not None else NotImplemented
	def __neg__(self): return mktd(-self.us)
	def __lt__(self, o): return self.us < td_us(o)
	def __le__(self, o): return self.us <= td_us(o)
	def __gt__(self, o): return self.us > td_us(o)
	def __ge__(self, o): return self.us >= td_us(o)
	def __bool__(self): return bool(self.us != 0)
	def __floordiv__(self, o):
		if type(o) in (int, SInt):
			return mktd(self.us // o)
		return self.us // td_us(o)
	def __mul__(self, o): return mktd(self.us * o)
	def total_seconds(self): raise Unsupported("timedelta.total_seconds (a float)")
	def concrete(self, val):
		us = val(self.us)
		return datetime.timedelta(microseconds=1) * us

def mktd(us):
	d = us // DAY
	if d < -999999999 or d > 999999999:
		raise OverflowError("days=%d; must have magnitude <= 999999999")
	return STimedelta(us)

@model(datetime.timedelta)
def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
	a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
	if not has_sym(a):
		return datetime.timedelta(*a)
	for x in a:
		if not sym.intlike(x):
			raise Unsupported("timedelta of a float")
	return mktd(days * DAY + seconds * 10**6 + microseconds + milliseconds * 1000 + minutes * 60 * 10**6 + hours * 3600 * 10**6 + weeks * 7 * DAY)

class SDate(_Base):
	__slots__ = ('ord',)
	def __init__(self, o):
		self.ord = o
	@property
	def __class__(self): return datetime.date
	def toordinal(self): return self.ord
	def __eq__(self, o):
		if type(o) is SDate:
			return self.ord == o.ord
		if isinstance_raw(o, datetime.date) and not isinstance_raw(o, datetime.datetime):
			return self.ord == o.toordinal()
		return False
	def __sub__(self, o):
		if isinstance_raw(o, datetime.date) or type(o) is SDate:
			return STimedelta((self.ord - o.toordinal()) * DAY)
		return mkdate(self.ord - o.days)
	def __add__(self, o): return mkdate(self.ord + o.days)
	def __getattr__(self, n):
		raise Unsupported("date.%s" % n)
	def concrete(self, val):
		return datetime.date.fromordinal(min(max(val(self.ord), 1), MAXORD))

def mkdate(n):
	if n < 1 or n > MAXORD:
		raise ValueError("ordinal must be >= 1")
	return SDate(n)

@method(datetime.date, 'cls.fromordinal')
def m_fromordinal(cls, n):
	if cls is not datetime.date:
		raise Unsupported("fromordinal of %s" % cls.__name__)
	return mkdate(n) if has_sym(n) else datetime.date.fromordinal(n)

class SDateTime(_Base):
	"wall-clock microseconds since ordinal 0, and a tzinfo"
	__slots__ = ('us', 'tzinfo')
	def __init__(self, us, tzinfo=None):
		self.us, self.tzinfo = us, tzinfo
	@property
	def __class__(self): return datetime.datetime
	def utcoffset(self):
		if self.tzinfo is None:
			return None
		return models.vc_callm(self.tzinfo, 'utcoffset', self)
	def utc(self):
		return self.us - td_us(self.utcoffset())
	def astimezone(self, tz):
		if self.tzinfo is None:
			raise Unsupported("astimezone of a naive datetime")
		if tz is self.tzinfo:
			return self
		off = models.vc_callm(tz, 'utcoffset', self)
		return mkdt(self.utc() + td_us(off), tz)
	def replace(self, **k):
		if list(k) != ['tzinfo']:
			raise Unsupported("datetime.replace")
		return SDateTime(self.us, k['tzinfo'])
	def __eq__(self, o):
		if type(o) is not SDateTime and not isinstance_raw(o, datetime.datetime):
			return False
		o = sdt(o)
		if (o.tzinfo is None) != (self.tzinfo is None):
			return False
		if o.tzinfo is None or o.tzinfo is self.tzinfo:
			return self.us == o.us
		return self.utc() == o.utc()
	def __sub__(self, o):
		if type(o) is SDateTime or isinstance_raw(o, datetime.datetime):
			o = sdt(o)
			if (o.tzinfo is None) != (self.tzinfo is None):
				raise TypeError("can't subtract offset-naive and offset-aware datetimes")
			if o.tzinfo is None or o.tzinfo is self.tzinfo:
				return STimedelta(self.us - o.us)
			return STimedelta(self.utc() - o.utc())
		return mkdt(self.us - td_us(o), self.tzinfo)
	def __rsub__(self, o):
		return sdt(o).__sub__(self)
	def __add__(self, o):
		return mkdt(self.us + td_us(o), self.tzinfo)
	__radd__ = __add__
	def timetuple(self): raise Unsupported("datetime.timetuple")
	def toordinal(self): return self.us // DAY
	def date(self): return SDate(self.us // DAY)
	@property
	def microsecond(self): return self.us % 10**6
	@property
	def second(self): return self.us // 10**6 % 60
	@property
	def minute(self): return self.us // (60 * 10**6) % 60
	@property
	def hour(self): return self.us // (3600 * 10**6) % 24
	def concrete(self, val):
		us = min(max(val(self.us), DAY), MAXUS)
		d = datetime.datetime.min + datetime.timedelta(microseconds=us - DAY)
		return d.replace(tzinfo=self.tzinfo if not isinstance_raw(self.tzinfo, MModel) else self.tzinfo.concrete(val))

def sdt(o):
	if type(o) is SDateTime:
		return o
	n = o.replace(tzinfo=None)
	return SDateTime((n - datetime.datetime.min) // datetime.timedelta(microseconds=1) + DAY, o.tzinfo)

def mkdt(us, tz):
	if us < DAY or us > MAXUS:
		raise OverflowError("date value out of range")
	return SDateTime(us, tz)

class STime(_Base):
	__slots__ = ('hour', 'minute', 'second', 'microsecond', 'tzinfo')
	def __init__(self, h, m, s, us, tz=None):
		self.hour, self.minute, self.second, self.microsecond, self.tzinfo = h, m, s, us, tz
	@property
	def __class__(self): return datetime.time
	def utcoffset(self):
		return None if self.tzinfo is None else models.vc_callm(self.tzinfo, 'utcoffset', None)
	def replace(self, **k):
		d = dict(hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
		d.update(k)
		return m_time(**d)
	def __eq__(self, o):
		if type(o) is not STime and not isinstance_raw(o, datetime.time):
			return False
		a, b = self.utcoffset(), o.utcoffset()
		if (a is None) != (b is None):
			return False
		x = z3.And(B(self.hour == o.hour), B(self.minute == o.minute), B(self.second == o.second), B(self.microsecond == o.microsecond))
		if a is not None:
			return mkbool(z3.And(x, B(td_us(a) == td_us(b))))
		return mkbool(x)
	def concrete(self, val):
		h, m, s, us = [val(x) for x in (self.hour, self.minute, self.second, self.microsecond)]
		tz = self.tzinfo
		return datetime.time(h % 24, m % 60, s % 60, us % 10**6, tzinfo=tz.concrete(val) if isinstance_raw(tz, MModel) else tz)

@model(datetime.time)
def m_time(hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
	if not has_sym((hour, minute, second, microsecond)) and not isinstance_raw(tzinfo, MModel):
		return datetime.time(hour, minute, second, microsecond, tzinfo=tzinfo)
	if hour < 0 or hour > 23: raise ValueError("hour must be in 0..23")
	if minute < 0 or minute > 59: raise ValueError("minute must be in 0..59")
	if second < 0 or second > 59: raise ValueError("second must be in 0..59")
	if microsecond < 0 or microsecond > 999999: raise ValueError("microsecond must be in 0..999999")
	return STime(hour, minute, second, microsecond, tzinfo)

def _dtop(name):
	@method(datetime.datetime, name)
	def m(self, o):
		return getattr(sdt(self), name)(o)
	@method(datetime.date, name)
	def m2(self, o):
		return getattr(sdt(self) if isinstance_raw(self, datetime.datetime) else SDate(self.toordinal()), name)(o)
for _n in ('__add__', '__sub__', '__radd__', '__rsub__'):
	_dtop(_n)

class STz(MModel):
	"any fixed offset"
	__slots__ = ('off',)
	def __init__(self, off):
		self.off = off
	@property
	def __class__(self): return datetime.timezone
	def utcoffset(self, dt): return STimedelta(self.off * 10**6)
	def dst(self, dt): return None
	def tzname(self, dt): return None
	def concrete(self, val):
		return datetime.timezone(datetime.timedelta(seconds=val(self.off)))

# ---- domains

def us_since(o):
	"microseconds of a (naive or wall-clock) datetime since ordinal 0 (specification)"
	if type(o) is SDateTime:
		return o.us
	return sdt(o).us

class Date(G):
	def sym(self, name): return SDate(Int(1, MAXORD).sym(name))
	def ok(self, v): return isinstance(v, datetime.date)
	def rand(self, r, size):
		return datetime.date.fromordinal(r.choice((1, 2, MAXORD, MAXORD - 1, 730120, 730119, 719163, r.randint(1, MAXORD), r.randint(1, MAXORD))))

class DateTime(G):
	def __init__(self, tz=False): self.tz = tz
	def sym(self, name):
		return SDateTime(Int(DAY, MAXUS).sym(name), Tz().sym(name + '.tz') if self.tz else None)
	def ok(self, v): return isinstance(v, datetime.datetime)
	def rand(self, r, size):
		us = r.choice((DAY, DAY + 1, MAXUS, MAXUS - 1, 730120 * DAY, 730120 * DAY - 1, 719163 * DAY + 5, r.randint(DAY, MAXUS), r.randint(DAY, MAXUS), r.randint(DAY, MAXUS)))
		d = datetime.datetime.min + datetime.timedelta(microseconds=us - DAY)
		return d.replace(tzinfo=Tz().rand(r, size)) if self.tz else d

class Tz(G):
	def __init__(self, step=1): self.step = step
	def sym(self, name):
		n = 86399 // self.step
		return STz(Int(-n, n).sym(name) * self.step)
	def ok(self, v): return isinstance(v, datetime.tzinfo)
	def rand(self, r, size):
		n = 86399 // self.step
		k = r.choice((0, 1, -1, n, -n, r.randint(-n, n), 3600 // self.step, -12600 // self.step, 20700 // self.step))
		return datetime.timezone(datetime.timedelta(seconds=k * self.step))

class Time(G):
	def __init__(self, tz=False): self.tz = tz
	def sym(self, name):
		return STime(Int(0, 23).sym(name + '.h'), Int(0, 59).sym(name + '.m'), Int(0, 59).sym(name + '.s'), Int(0, 999999).sym(name + '.us'),
			Tz().sym(name + '.tz') if self.tz else None)
	def ok(self, v): return isinstance(v, datetime.time)
	def rand(self, r, size):
		t = r.choice((datetime.time(0), datetime.time.max, datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6))))
		return t.replace(tzinfo=Tz().rand(r, size)) if self.tz else t

class TimeDelta(G):
	def sym(self, name):
		d, s, u = Int(-999999999, 999999999).sym(name + '.d'), Int(0, 86399).sym(name + '.s'), Int(0, 999999).sym(name + '.us')
		return STimedelta(d * DAY + s * 10**6 + u, (d, s, u))
	def ok(self, v): return isinstance(v, datetime.timedelta)
	def rand(self, r, size):
		return datetime.timedelta(days=r.choice((0, 1, -1, -999999999, 999999999, r.randint(-10**5, 10**5), 31, 30, 365)),
			seconds=r.choice((0, 1, 86399, r.randrange(86400))), microseconds=r.choice((0, 1, 999999, r.randrange(10**6))))

# ---------------------------------------------------------------- hashes: uninterpreted

import hashlib

class SHash(MModel):
	"a digest of unknown bytes: some fixed function of them"
	__slots__ = ('name', 'data')
	def __init__(self, name, data):
		self.name, self.data = name, sym.to_seq(data)
	def update(self, data):
		self.data = sym.to_seq(self.data + data)
	def copy(self):
		return SHash(self.name, self.data)
	def _app(self, kind, length, allowed):
		c = core.ctx()
		key = ('hash', self.name, kind, sym.rope_key(self.data.norm()))
		a = c.eqvars.get(key)
		if a is None:
			a = sym.new_atom(kind, self.name, (), allowed, length=z3.IntVal(length))
			c.eqvars[key] = a
		return sym.mkseq(kind, (('A', a),))
	def digest(self):
		return self._app('bytes', hashlib.new(self.name).digest_size, None)
	def hexdigest(self):
		return self._app('str', 2 * hashlib.new(self.name).digest_size, frozenset(b'0123456789abcdef'))

def _hash(name, f):
	def m(data=b'', **k):
		return SHash(name, data) if has_sym(data) else f(data, **k)
	MODEL[f] = m
for _n in ('md5', 'sha1', 'sha256'):
	_hash(_n, getattr(hashlib, _n))

# ---- codecs
import codecs
def _codec(name):
	enc, dec = getattr(codecs, name + '_encode'), getattr(codecs, name + '_decode')
	@model(enc)
	def _e(s, errors='strict'):
		if not has_sym(s):
			return enc(s, errors)
		return (models.vc_callm(s, 'encode', name.replace('_', '-')), models.m_len(s))
	@model(dec)
	def _d(s, errors='strict', *final):
		if not has_sym(s):
			return dec(s, errors)
		return (models.vc_callm(s, 'decode', name.replace('_', '-')), models.m_len(s))
for _n in ('ascii', 'utf_8', 'latin_1'):
	_codec(_n)
