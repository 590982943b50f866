import datetime
from pyvc.api import *
from contracts.common import *
from pyvc.stdmodels import Date, DateTime, Tz, Time, TimeDelta, DAY, MAXORD, MAXUS, td_us, us_since
from postgresql import types as T
from postgresql.types import io as IO
from postgresql.types.io import stdlib_datetime as D
from postgresql.python.datetime import FixedOffset, UTC, infinity_date, infinity_datetime, negative_infinity_date, negative_infinity_datetime

EPOCH_ORD = 730120
EPOCH = EPOCH_ORD * DAY
I64MIN, I64MAX = -2**63, 2**63 - 1

class Typio(object):
	"the two facts about the server the selection reads"
	def __init__(self, settings, version):
		self.database = self
		self.settings = settings
		self.version_info = version

INTS = Typio({'integer_datetimes': 'on'}, (9, 4, 0))

def pair(oid, typio=INTS):
	x = IO.resolve(oid)
	if not isinstance(x, tuple):
		x = x(oid, typio)
	return x[0], x[1]

@harness('P02', ['stdlib_datetime.date_pack', 'stdlib_datetime.date_unpack'], runs=4000)
def dates(v):
	pack, unpack = pair(T.DATEOID)
	x = v.any('date', Date())
	d = pack(x)
	if x == infinity_date:
		v.eq(d, b'\x7f\xff\xff\xff', 'infinity')
	elif x == negative_infinity_date:
		v.eq(d, b'\x80\0\0\0', '-infinity')
	else:
		v.eq(d, be(4, x.toordinal() - EPOCH_ORD), 'days since 2000-01-01')
	v.eq(unpack(d), x, 'the same date back')

@harness('P02', ['stdlib_datetime.date_unpack', 'stdlib_datetime.date_pack'], runs=4000)
def dates_from_wire(v):
	pack, unpack = pair(T.DATEOID)
	n = v.any('days', Int(-2**31, 2**31 - 1, bias=[-730119, -730120, -730118, MAXORD - 730120, MAXORD - 730119, 0, -1]))
	o, x = v.outcome(unpack, be(4, n))
	if n == 2**31 - 1:
		v.check(o == 'ok', 'infinity'); v.eq(x, infinity_date, 'infinity')
	elif n == -2**31:
		v.check(o == 'ok', '-infinity'); v.eq(x, negative_infinity_date, '-infinity')
	elif 1 <= n + EPOCH_ORD and n + EPOCH_ORD <= MAXORD:
		v.check(o == 'ok', 'every representable date')
		v.eq(x.toordinal(), n + EPOCH_ORD, 'day')
	else:
		v.check(o == 'raise', 'a date Python cannot represent is refused')

def stamp_spec(v, d, us):
	v.eq(d, be(8, us - EPOCH), 'microseconds since 2000-01-01')

@harness('P02', ['stdlib_datetime.timestamp_pack', 'stdlib_datetime.timestamp_unpack', 'lib.time64_pack', 'lib.time64_unpack', 'stdlib_datetime.proc_when_not_in'], runs=4000)
def timestamps(v):
	pack, unpack = pair(T.TIMESTAMPOID)
	x = v.any('stamp', DateTime())
	d = pack(x)
	if x == infinity_datetime:
		v.eq(d, b'\x7f' + b'\xff' * 7, 'infinity')
	elif x == negative_infinity_datetime:
		v.eq(d, b'\x80' + b'\0' * 7, '-infinity')
	else:
		stamp_spec(v, d, us_since(x))
	v.eq(unpack(d), x, 'the same timestamp back')

@harness('P02', ['stdlib_datetime.timestamp_unpack', 'lib.time64_unpack', 'lib.mktimetuple64'], runs=4000)
def timestamps_from_wire(v):
	pack, unpack = pair(T.TIMESTAMPOID)
	n = v.any('us', Int(I64MIN + 1, I64MAX - 1, bias=[DAY - EPOCH, MAXUS - EPOCH, MAXUS - EPOCH + 1, DAY - EPOCH - 1, -1, 0, 1, -1000001]))
	o, x = v.outcome(unpack, be(8, n))
	if DAY <= n + EPOCH and n + EPOCH <= MAXUS:
		v.check(o == 'ok', 'every representable timestamp')
		v.eq(us_since(x), n + EPOCH, 'microsecond')
		v.check(x.tzinfo is None, 'without zone')
	else:
		v.check(o == 'raise', 'not representable: refused')
	v.eq(unpack(b'\x7f' + b'\xff' * 7), infinity_datetime, 'infinity')
	v.eq(unpack(b'\x80' + b'\0' * 7), negative_infinity_datetime, '-infinity')

@harness('P02', ['stdlib_datetime.timestamptz_pack', 'stdlib_datetime.timestamptz_unpack', 'python.datetime.FixedOffset'], runs=4000)
def timestamps_tz(v):
	pack, unpack = pair(T.TIMESTAMPTZOID)
	x = v.any('stamp', DateTime(tz=True))
	utc = us_since(x) - td_us(x.utcoffset())
	v.assume(DAY <= utc)
	v.assume(utc <= MAXUS)
	d = pack(x)
	stamp_spec(v, d, utc)
	y = unpack(d)
	v.eq(us_since(y), utc, 'the same instant back, in UTC')
	v.eq(td_us(y.utcoffset()), 0, 'UTC')

@harness('P02', ['stdlib_datetime.timestamptz_pack', 'stdlib_datetime.timestamptz_unpack'])
def timestamps_tz_infinite(v):
	pack, unpack = pair(T.TIMESTAMPTZOID)
	v.eq(pack(infinity_datetime), b'\x7f' + b'\xff' * 7, 'infinity')
	v.eq(pack(negative_infinity_datetime), b'\x80' + b'\0' * 7, '-infinity')
	v.eq(unpack(b'\x7f' + b'\xff' * 7), infinity_datetime, 'infinity back')
	v.eq(unpack(b'\x80' + b'\0' * 7), negative_infinity_datetime, '-infinity back')
	for oid in (T.TIMESTAMPOID, T.TIMESTAMPTZOID, T.DATEOID):
		p, u = pair(oid)
		a, b = p('infinity'), p('-infinity')
		v.eq(u(a), infinity_date if oid == T.DATEOID else infinity_datetime, 'named infinity')
		v.eq(u(b), negative_infinity_date if oid == T.DATEOID else negative_infinity_datetime, 'named -infinity')

def day_us(t):
	return ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond

@harness('P02', ['stdlib_datetime.time_pack', 'stdlib_datetime.time_unpack', 'lib.time64_pack'], runs=4000)
def times(v):
	pack, unpack = pair(T.TIMEOID)
	x = v.any('time', Time())
	d = pack(x)
	v.eq(d, be(8, day_us(x)), 'microseconds since midnight')
	v.eq(unpack(d), x, 'the same time back')

@harness('P02', ['stdlib_datetime.time_unpack'], runs=4000)
def times_from_wire(v):
	pack, unpack = pair(T.TIMEOID)
	n = v.any('us', Int(0, DAY - 1, bias=[0, DAY - 1, 59999999, 60000000, 3599999999, 3600000000]))
	x = unpack(be(8, n))
	v.eq(day_us(x), n, 'microsecond of the day')

@harness('P02', ['stdlib_datetime.timetz_pack', 'stdlib_datetime.timetz_unpack', 'lib.timetz64_pack', 'lib.timetz64_unpack', 'python.datetime.FixedOffset'], runs=4000)
def times_tz(v):
	"the server's zone field counts seconds west of UTC"
	pack, unpack = pair(T.TIMETZOID)
	x = v.any('time', Time(tz=True))
	off = td_us(x.utcoffset()) // 10**6
	d = pack(x)
	v.eq(d, be(8, day_us(x)) + be(4, -off), 'microseconds since midnight and seconds west of UTC')
	y = unpack(d)
	v.eq(day_us(y), day_us(x), 'the same time')
	v.eq(td_us(y.utcoffset()), off * 10**6, 'the same offset')

@harness('P02', ['python.datetime.FixedOffset.utcoffset'], runs=2000)
def fixed_offset(v):
	n = v.any('offset', Int(-86399, 86399, bias=[-1, 1, 59, -59, 61, -61, 3600, -3600, 19800, -12600]))
	z = FixedOffset(n)
	v.eq(td_us(z.utcoffset(None)), n * 10**6, 'the offset is kept')
	v.eq(td_us(z.dst(None)), 0, 'no daylight saving')

@harness('P02', ['stdlib_datetime.interval_pack', 'stdlib_datetime.interval_unpack', 'lib.interval64_pack', 'lib.interval64_unpack', 'lib.interval64_noday_pack'], runs=4000)
def intervals(v):
	pack, unpack = pair(T.INTERVALOID)
	x = v.any('interval', TimeDelta())
	d = pack(x)
	v.eq(d, be(8, td_us(x) % DAY) + be(4, td_us(x) // DAY) + be(4, 0), 'time, days and months')
	v.eq(unpack(d), x, 'the same interval back')

@harness('P02', ['stdlib_datetime.interval_unpack', 'lib.interval64_unpack'], runs=4000)
def intervals_from_wire(v):
	pack, unpack = pair(T.INTERVALOID)
	us, days, months = v.any('us', I64), v.any('days', I32), v.any('months', Choice(0, Int(-1200, 1200)))
	total = us + (days + 30 * months) * DAY
	v.assume(-999999999 * DAY <= total)
	v.assume(total < 10**9 * DAY)
	import warnings
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		o, x = v.outcome(unpack, be(8, us) + be(4, days) + be(4, months))
	v.check(o == 'ok', 'total')
	v.eq(td_us(x), total, 'microseconds, days and 30-day months')

@harness('P02', ['stdlib_datetime.select_day_format', 'lib.interval64_noday_pack', 'lib.interval64_noday_unpack'], runs=2000)
def intervals_without_day(v):
	"servers up to 8.0 have no day field"
	pack, unpack = pair(T.INTERVALOID, Typio({'integer_datetimes': 'on'}, (8, 0, 4)))
	x = v.any('interval', TimeDelta())
	v.assume(abs_le(td_us(x), 2**62))
	d = pack(x)
	v.eq(d, be(8, td_us(x)) + be(4, 0), 'time with the days folded in, and months')
	v.eq(unpack(d), x, 'the same interval back')

def abs_le(x, m):
	return -m <= x and x <= m

@harness('P02', ['stdlib_datetime.time_type', 'stdlib_datetime.select_format', 'stdlib_datetime.select_day_format'])
def selection(v):
	"integer or float encoding as the server says"
	s = v.any('setting', Choice('on', 'ON', 'true', 'off', 'false', True, False, None))
	ver = v.any('version', Choice((8, 3, 0), (8, 4, 1), (9, 0, 0), (9, 6, 1), (12, 0, 0)))
	t = Typio({} if s is None else {'integer_datetimes': s}, ver)
	want = {'on': True, 'ON': True, 'true': True, 'off': False, 'false': False, True: True, False: False}[s] if s is not None else ver >= (9, 0)
	v.eq(D.time_type(t), want, 'encoding')
	for oid in (T.TIMEOID, T.TIMETZOID, T.TIMESTAMPOID, T.TIMESTAMPTZOID):
		f = IO.resolve(oid)(oid, t)
		v.check(f is D.id_to_io[(want, oid)], 'selected')

@harness('P02', ['lib.time_pack', 'lib.time_unpack', 'lib.timetz_pack', 'lib.interval_pack'], mode='sampled', runs=3000,
	bound='random values; floating-point encoding, to one microsecond')
def float_times(v):
	"the floating-point encoding loses less than two microseconds within a century of the epoch"
	F = Typio({'integer_datetimes': 'off'}, (9, 4, 0))
	p, u = pair(T.TIMEOID, F)
	x = v.any('time', Time())
	v.check(abs(day_us(u(p(x))) - day_us(x)) <= 2, 'time')
	p, u = pair(T.TIMESTAMPOID, F)
	us = v.any('us', Int(-3 * 10**15, 3 * 10**15))
	s = datetime.datetime(2000, 1, 1) + datetime.timedelta(microseconds=us)
	v.check(abs((u(p(s)) - s) // datetime.timedelta(microseconds=1)) <= 2, 'timestamp')
	p, u = pair(T.INTERVALOID, F)
	i = datetime.timedelta(days=v.any('days', Int(-10**6, 10**6)), seconds=x.second, microseconds=x.microsecond)
	v.check(abs((u(p(i)) - i) // datetime.timedelta(microseconds=1)) <= 2, 'interval')
