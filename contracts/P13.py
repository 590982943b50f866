import errno, socket, sys
from pyvc.api import *
from contracts.common import *
from postgresql.protocol import element3 as e3, xact3, client3
from postgresql.protocol.message_types import message_types
from postgresql.python.socket import SocketFactory
from postgresql.driver import pq3

SSL_REQUEST = b'\x00\x00\x00\x08\x04\xd2\x16\x2f'
PARAMETERS = ((b'user', b'u'), (b'database', b'd'))
def startup(ps):
	d = be(4, 196608) + b''.join([k + b'\0' + x + b'\0' for k, x in ps]) + b'\0'
	return be(4, len(d) + 4) + d
def message(k, d):
	return k + be(4, len(d) + 4) + d
GREETING = message(b'R', b'\0\0\0\0') + message(b'S', b'server_version\x0016.1\0') + message(b'S', b'standard_conforming_strings\0on\0') + message(b'K', b'\0\0\0\x07\0\0\0\x09') + message(b'Z', b'I')
REJECTED = message(b'E', b'SFATAL\0C57P03\0Mstarting up\0\0')

# ---- a server of any behaviour
class Server(object):
	def __init__(self, v, whole=True):
		self.v, self.whole, self.attempts = v, whole, []
class Attempt(object):
	"what happened on one connection"
	def __init__(self, server, host):
		self.v, self.server, self.host = server.v, server, host
		self.plain, self.covered, self.recvs, self.answer, self.handshake, self.outcome = b'', b'', [], None, None, None
		self.connected, self.secured, self.closed, self.failed = False, False, False, None
		self.pending = None
	def ask(self, what, *options):
		return self.v.any(what, Choice(*options))
class Sock(object):
	def __init__(self, at):
		self.at = at
	def fileno(self):
		return 3
	def send(self, data):
		at = self.at
		at.v.check(not at.closed, 'open socket')
		if at.secured:
			at.covered = at.covered + data
		else:
			at.plain = at.plain + data
		return len(data)
	def recv(self, n):
		at = self.at
		if not at.secured and at.plain == SSL_REQUEST and at.answer is None:
			at.v.check(n == 1, 'the answer to an SSL request is one byte: what follows is encrypted')
			if at.server.whole:
				a = at.ask('answer', 'S', 'N', 'x', 'eof', 'reset')
			else:
				a = at.ask('answer', 'byte', 'eof', 'reset', 'timeout')
			at.answer = a
			if a == 'reset':
				at.failed = OSError(errno.ECONNRESET, 'reset')
				raise at.failed
			if a == 'timeout':
				at.failed = socket.timeout('timed out')
				raise at.failed
			if a == 'eof':
				return b''
			if a == 'byte':
				d = at.v.any('byte', Bytes(length=1))
				at.answer = 'S' if d == b'S' else 'N' if d == b'N' else 'x'
				return d
			return b'E' if a == 'x' else a.encode('ascii')
		# the server answers to the start-up packet
		if at.outcome is None:
			at.outcome = at.ask('startup', 'ok', 'rejected', 'eof')
			return GREETING if at.outcome == 'ok' else REJECTED if at.outcome == 'rejected' else b''
		return b''
	def close(self):
		self.at.closed = True
class Factory(SocketFactory):
	def __init__(self, server, host):
		super().__init__((socket.AF_INET, socket.SOCK_STREAM), ('h%d' % host, 5432))
		self.server, self.host = server, host
	def __call__(self, timeout=None):
		at = Attempt(self.server, self.host)
		self.server.attempts.append(at)
		at.timeout = timeout
		options = ('ok', 'refused') if self.server.whole else ('ok', 'refused', 'timeout', 'unknown')
		how = at.ask('connect', *options)
		if how == 'ok':
			at.connected = True
			return Sock(at)
		at.failed = OSError(errno.ECONNREFUSED, 'refused') if how == 'refused' else socket.timeout('timed out') if how == 'timeout' else socket.gaierror(-2, 'unknown host')
		at.how = how
		raise at.failed
	def secure(self, sock):
		at = sock.at
		at.v.check(at.answer == 'S', 'encryption starts when the server accepted it')
		how = at.ask('handshake', 'ok', 'failed')
		at.handshake = how
		if how == 'ok':
			at.secured = True
			return sock
		at.failed = ValueError('certificate') if at.server.whole or at.ask('failure', 'value', 'os') == 'value' else OSError(errno.ECONNRESET, 'reset')
		raise at.failed

def wire(v, at, ssl, start):
	"what may be sent, and whether the connection is made"
	if not at.connected:
		v.eq((at.plain, at.covered), (b'', b''), 'nothing is sent')
		return False
	if ssl is None:
		v.check(at.answer is None and not at.secured, 'encryption is not asked for')
		v.eq((at.plain, at.covered), (start, b''), 'start-up in the clear')
		return at.outcome == 'ok'
	if at.answer == 'S' and at.handshake == 'ok':
		v.eq((at.plain, at.covered), (SSL_REQUEST, start), 'nothing but the request in the clear')
		return at.outcome == 'ok'
	if at.answer == 'N' and ssl is False:
		v.eq((at.plain, at.covered), (SSL_REQUEST + start, b''), 'start-up in the clear, as the server has no encryption')
		return at.outcome == 'ok'
	v.eq((at.plain, at.covered), (SSL_REQUEST, b''), 'nothing but the request')
	return False
def code_of(em):
	c = em[b'C']
	return c if isinstance(c, str) else c.decode('ascii')

@harness('P13', ['protocol.client3.Connection.connect', 'protocol.client3.Connection.negotiate_ssl'])
def attempt(v):
	"one attempt: whatever the server answers, what is sent and the outcome are those of the request"
	ssl = v.any('ssl', Choice(None, True, False))
	s = Server(v, whole=False)
	c = client3.Connection(Factory(s, 0), PARAMETERS, password=b'pw')
	x = c.xact
	o, r = v.outcome(c.connect, ssl=ssl, timeout=5)
	v.check(o == 'ok', 'failures are on the transaction')
	v.check(len(s.attempts) == 1, 'one connection')
	at = s.attempts[0]
	v.check(at.timeout == 5, 'timeout')
	if wire(v, at, ssl, startup(PARAMETERS)):
		v.check(c.xact is None and x.state is xact3.Complete and x.fatal is None, 'connected')
		v.eq((c.backend_id, c.key), (7, 9), 'backend')
		v.check(getattr(c, 'ssl_negotiation', None) is (None if ssl is None else at.answer == 'S'), 'whether it is encrypted')
		v.check(c.socket.at is at, 'socket')
		return
	v.check(c.xact is x and x.fatal is True and x.state is xact3.Complete, 'failed')
	k = code_of(x.error_message)
	if not at.connected:
		v.eq(k, '--TOE' if at.how == 'timeout' else '08004', 'not connected')
		v.check(x.exception is at.failed, 'the cause')
		v.check(c.socket is None, 'no socket')
		return
	v.check(c.socket is not None, 'the socket can be closed')
	if at.failed is not None:
		v.check(x.exception is at.failed, 'the cause')
	if ssl is not None and at.answer in ('reset', 'timeout'):
		v.eq(k, '08004', 'connection lost')
	elif at.answer in ('eof', 'x'):
		v.eq(k, '08P01', 'not PostgreSQL')
	elif at.answer == 'N' and ssl is True:
		v.eq(k, '--SEC', 'no encryption')
	elif at.handshake == 'failed':
		v.eq(k, '--SEC', 'encryption failed')
	else:
		v.eq(k, '57P03' if at.outcome == 'rejected' else '08006', 'start-up failed')

class FakeBinding(object):
	def __init__(self, db, lib):
		pass
	def startup_data(self):
		return ('PostgreSQL 16.1 on x', None, None, None)
	startup_data_92 = startup_data_only_version = startup_data

PLAN = {None: (False, None), 'prefer': (False, None), 'allow': (None, True), 'require': (True,), 'disable': (None,)}
class Connector(pq3.IP4):
	def socket_factory_sequence(self):
		return self._factories

@harness('P13', ['driver.pq3.Connection._establish', 'driver.pq3.Connection.connect', 'driver.pq3.Connector._security', 'protocol.client3.Connection.connect', 'protocol.client3.Connection.negotiate_ssl'],
	mode='bounded', bound='at most 2 addresses; at each attempt: refused; answers S, N, another byte, end of stream, reset; handshake made or failed; start-up accepted, rejected, end of stream', paths=60000)
def establish(v):
	"every mode, every behaviour of the servers: the attempts are those of the mode and the policy is not weakened"
	mode = v.any('sslmode', Choice(None, 'prefer', 'allow', 'require', 'disable', 'verify-ca', 'verify-full', 'Require'))
	n = v.any('addresses', Choice(0, 1, 2))
	s = Server(v)
	pq3.pg_lib.Binding = FakeBinding
	connector = Connector(host='h', port=5432, user='u', database='d', sslmode=mode, driver=DRIVER)
	connector._factories = tuple([Factory(s, i) for i in range(n)])
	db = pq3.Connection(connector)
	start = startup(connector._startup_parameters)
	o, r = v.outcome(db.connect)
	if mode not in PLAN:
		v.check(o == 'raise' and type(r) is ValueError, 'refused: the verification is not made')
		v.check(s.attempts == [], 'no connection')
		return
	plan = PLAN[mode]
	ats = list(s.attempts)
	made = None
	for host in range(n):
		mine = [at for at in ats if at.host == host]
		v.check(ats[:len(mine)] == mine, 'addresses in turn')
		ats = ats[len(mine):]
		if made is not None:
			v.check(mine == [], 'nothing after a success')
			continue
		v.check(1 <= len(mine) <= len(plan), 'an attempt, and at most one fallback')
		for k in range(len(mine)):
			at = mine[k]
			v.check(made is None, 'nothing after a success')
			if wire(v, at, plan[k], start):
				made = at
			else:
				v.check(at.closed or not at.connected, 'a connection that failed is closed')
		last = mine[-1]
		if made is None and len(mine) < len(plan):
			v.check(last.failed is not None or (plan[0] is False and last.answer == 'N'), 'a fallback is left out only when it would fail as well')
	v.check(ats == [], 'no other address')
	if made is not None:
		v.check(o == 'ok', 'connected')
		v.check(not made.closed, 'open')
		v.check(db.security == ('ssl' if made.secured else None), 'security of the connection')
		v.check(db.pq.socket.at is made and db.closed is False, 'the connection made')
		v.check(db.backend_id == 7, 'backend')
	else:
		v.check(o == 'raise' and type(r).code == '08001', 'could not connect')
		v.check(len(db.failures) == len(s.attempts), 'every failure is told')
		v.check(db.closed is True, 'closed')

DRIVER = pq3.Driver()
