"""
pyvc.core -- path exploration, obligations, solver back ends.

The engine executes the *real* functions of /repo (their source is re-read and
mechanically instrumented on every run, see transform.py) on symbolic values.
Every feasible path is enumerated by re-execution with a decision prefix; loops
over unbounded data are cut with invariants (loops.py).  Every `check` becomes an
obligation  path-condition |= formula  which is discharged by z3 (cvc5 second).
"""
import os, subprocess, tempfile, time
import z3

z3.set_param('warning', False)

class EngineExit(BaseException):
	"Engine control flow; never caught by `except Exception` in code under proof."

class PathEnd(EngineExit):
	"This path needs no further exploration (loop cut, assumption false)."

class Unsupported(EngineExit):
	"The engine cannot follow the code; the obligation is undischarged."

class BudgetExceeded(Unsupported):
	pass

class ObligationFailed(EngineExit):
	pass

class Obligation(object):
	__slots__ = ('name', 'status', 'backend', 'seconds', 'model', 'detail', 'path', 'opaque')
	def __init__(self, name, status, backend, seconds, model=None, detail='', path=()):
		self.name = name; self.status = status; self.backend = backend
		self.seconds = seconds; self.model = model; self.detail = detail; self.path = path; self.opaque = False

CTX = None
SUBST = dict

def ctx():
	if CTX is None:
		raise RuntimeError("no symbolic context")
	return CTX

SOLVER_TIMEOUT = int(os.environ.get('PYVC_SOLVER_MS', '8000'))
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'

def run_cvc5(smt2, seconds=20):
	"second back end; returns 'unsat'/'sat'/'unknown'"
	with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
		f.write("(set-logic ALL)\n" + smt2)
		name = f.name
	try:
		p = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % (seconds * 1000), name],
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 5, text=True)
		out = p.stdout.strip().splitlines()
		return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
	except (subprocess.TimeoutExpired, OSError):
		return 'unknown'
	finally:
		os.unlink(name)

class Ctx(object):
	"one path"
	def __init__(self, explorer, prefix):
		self.ex = explorer
		self.prefix = prefix
		self.decisions = []
		self.pc = []
		self.solver = z3.Solver()
		self.solver.set('timeout', SOLVER_TIMEOUT)
		self.subst = SUBST()          # Atom -> pieces
		self.diseq = []          # opaque disequalities (python-level)
		self.inputs = {}         # name -> symbolic value, for concretisation
		self.choices = {}        # name -> concrete choice made
		self.counter = {}
		self.dead = None
		self.snaps = 0
		self.trace = []
		self.eqvars = {}
		self.ghosts = {}

	# -- naming
	def fresh(self, base):
		n = self.counter.get(base, 0)
		self.counter[base] = n + 1
		return base if n == 0 else '%s!%d' % (base, n)

	def alive(self):
		if self.dead is not None:
			raise self.dead

	def die(self, exc):
		self.dead = exc
		raise exc

	# -- facts
	def assume(self, f):
		self.alive()
		if isinstance(f, bool):
			if not f:
				self.die(PathEnd("assumption false"))
			return
		f = z3.simplify(f)
		if z3.is_true(f):
			return
		self.pc.append(f)
		self.solver.add(f)
		if z3.is_false(f):
			self.die(PathEnd("assumption false"))

	def sat(self, f):
		"'sat' | 'unsat' | 'unknown' of pc & f"
		self.alive()
		if isinstance(f, bool):
			f = z3.BoolVal(f)
		self.solver.push()
		self.solver.add(f)
		t = time.monotonic()
		r = self.solver.check()
		self.ex.stats['queries'] += 1
		self.ex.stats['solver_s'] += time.monotonic() - t
		self.solver.pop()
		self.ex.tick()
		return str(r)

	def entails(self, f):
		if isinstance(f, bool):
			return f
		f = z3.simplify(f)
		if z3.is_true(f):
			return True
		if z3.is_false(f):
			return self.sat(z3.BoolVal(True)) == 'unsat'
		return self.sat(z3.Not(f)) == 'unsat'

	def feasible(self):
		return self.sat(z3.BoolVal(True)) != 'unsat'

	# -- decisions
	def branch(self, f):
		self.alive()
		if isinstance(f, bool):
			return f
		f = z3.simplify(f)
		if z3.is_true(f):
			return True
		if z3.is_false(f):
			return False
		i = len(self.decisions)
		if i < len(self.prefix):
			d = self.prefix[i]
			if d in ('T!', 'F!'):
				# forced: the other side was infeasible
				self.decisions.append(d)
				d = d == 'T!'
				self.assume(f if d else z3.Not(f))
				return d
		else:
			can_t = self.sat(f) != 'unsat'
			can_f = self.sat(z3.Not(f)) != 'unsat'
			if can_t and can_f:
				self.ex.push(tuple(self.decisions) + (False,))
				d = True
			elif can_t:
				self.decisions.append('T!')
				self.assume(f)
				return True
			elif can_f:
				self.decisions.append('F!')
				self.assume(z3.Not(f))
				return False
			else:
				self.die(PathEnd("infeasible"))
		self.decisions.append(d)
		self.assume(f if d else z3.Not(f))
		return d

	def choose(self, n, label=None):
		"unconditional n-way fork"
		self.alive()
		i = len(self.decisions)
		if i < len(self.prefix):
			d = self.prefix[i]
		else:
			for k in range(n - 1, 0, -1):
				self.ex.push(tuple(self.decisions) + (('c', k),))
			d = ('c', 0)
		self.decisions.append(d)
		return d[1]

	def has_opaque(self, f):
		"does f mention an equality of sequences the engine does not interpret?"
		todo, seen = [f], set()
		while todo:
			g = todo.pop()
			if g.get_id() in seen:
				continue
			seen.add(g.get_id())
			if z3.is_const(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED and ('eq', g.decl().name()) in self.eqvars:
				return True
			todo.extend(g.children())
		return False

	# -- obligations
	def prove(self, f, name):
		"f: bool or z3 Bool"
		self.alive()
		t0 = time.monotonic()
		backend = 'z3'
		model = None
		detail = ''
		if isinstance(f, bool):
			f = z3.BoolVal(f)
		self.solver.push()
		self.solver.add(z3.Not(f))
		r = self.solver.check()
		self.ex.stats['queries'] += 1
		if r == z3.unsat:
			status = 'discharged'
		else:
			if r == z3.sat:
				status = 'failed'
				model = self.solver.model()
			else:
				rr = run_cvc5(self.solver.to_smt2())
				backend = 'cvc5'
				if rr == 'unsat':
					status = 'discharged'
				else:
					status = 'failed' if rr == 'sat' else 'unknown'
			if status != 'discharged':
				detail = 'goal: %s' % (str(f)[:2000],)
		self.solver.pop()
		dt = time.monotonic() - t0
		self.ex.stats['solver_s'] += dt
		ob = Obligation(name, status, backend, dt, model=None, detail=detail, path=tuple(self.decisions))
		if status != 'discharged':
			ob.opaque = self.has_opaque(f)
		self.ex.record(ob, self, model)
		if status != 'discharged':
			self.die(PathEnd("obligation failed: " + name))
		self.assume(f)

class Explorer(object):
	def __init__(self, name, max_paths=4000, seconds=120):
		self.name = name
		self.work = [()]
		self.obligations = []
		self.failures = []
		self.unsupported = []
		self.paths = 0
		self.completed = 0
		self.covered = set()
		self.max_paths = max_paths
		self.deadline = time.monotonic() + seconds
		self.stats = {'queries': 0, 'solver_s': 0.0}
		self.degraded = []       # bounded stand-ins taken
		self.witnesses = []      # concretised inputs of failures

	def push(self, prefix):
		self.work.append(prefix)

	def tick(self):
		if time.monotonic() > self.deadline:
			raise BudgetExceeded("time budget exhausted in " + self.name)

	def record(self, ob, c, model):
		self.obligations.append(ob)
		if ob.status != 'discharged':
			self.failures.append(ob)
			try:
				w = c.concretise(model)
			except EngineExit:
				w = None
			except Exception as e:
				w = None
			if w is not None:
				self.witnesses.append((ob.name, w))

	def run(self, fn, make_v):
		global CTX
		while self.work:
			prefix = self.work.pop()
			if self.paths >= self.max_paths:
				self.unsupported.append("path budget (%d) exhausted" % self.max_paths)
				break
			self.paths += 1
			c = Ctx(self, prefix)
			CTX = c
			try:
				v = make_v(c)
				fn(v)
				if c.dead is not None:
					raise c.dead
				self.completed += 1
			except PathEnd as e:
				pass
			except BudgetExceeded as e:
				self.unsupported.append(str(e))
				break
			except Unsupported as e:
				import traceback
				tb = traceback.extract_tb(e.__traceback__)
				where = [f"{f.filename}:{f.lineno}" for f in tb if '/repo/' in f.filename or '<pyvc' in f.filename][-2:]
				self.unsupported.append("%s @ %s" % (e, ' '.join(where)))
				if os.environ.get('PYVC_DEBUG'):
					traceback.print_exc()
				try:
					w = c.concretise(None)
					if w is not None:
						self.witnesses.append(('unsupported', w))
				except BaseException:
					pass
				if len(self.unsupported) > 20:
					break
			except Exception as e:
				# an exception escaping the harness: an unexpected exception of the code
				import traceback
				tb = traceback.format_exc()
				if os.environ.get('PYVC_DEBUG'):
					traceback.print_exc()
				ob = Obligation('no-unexpected-exception', 'failed', 'engine', 0.0,
					detail=tb[-3000:], path=tuple(c.decisions))
				model = None
				try:
					c.solver.push()
					feas = c.solver.check()
					if feas == z3.unsat:
						continue
					if feas == z3.sat:
						model = c.solver.model()
				finally:
					c.solver.pop()
				self.record(ob, c, model)
			finally:
				CTX = None
			if len(self.failures) >= 25:
				break
		return self


def nested(body):
	"""
	A lemma about fresh values under the current path condition.  True when every
	path of body discharges its obligations.
	"""
	global CTX
	outer = CTX
	ex = Explorer('lemma', max_paths=200, seconds=max(1.0, outer.ex.deadline - time.monotonic()))
	ex.degraded = outer.ex.degraded
	try:
		while ex.work:
			prefix = ex.work.pop()
			ex.paths += 1
			if ex.paths > ex.max_paths:
				return False
			c = Ctx(ex, prefix)
			c.counter = dict(outer.counter)
			c.subst = SUBST(outer.subst)
			c.eqvars = dict(outer.eqvars)
			c.ghosts = outer.ghosts
			c.v = getattr(outer, 'v', None)
			c.concretise = lambda m: None
			for f in outer.pc:
				c.pc.append(f)
				c.solver.add(f)
			CTX = c
			try:
				body(c)
			except PathEnd:
				pass
			except BudgetExceeded:
				raise
			except Unsupported:
				if os.environ.get('PYVC_DEBUG'):
					import traceback; traceback.print_exc()
				return False
			if ex.failures:
				if os.environ.get('PYVC_DEBUG'):
					for f in ex.failures: print('  lemma failed:', f.name, f.detail[:600])
				return False
	finally:
		CTX = outer
		outer.ex.stats['queries'] += ex.stats['queries']
		outer.ex.stats['solver_s'] += ex.stats['solver_s']
	outer.ex.obligations.extend(ex.obligations)
	return True
