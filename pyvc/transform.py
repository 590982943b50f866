"""
pyvc.transform -- mechanical instrumentation of the sources of /repo.

Every module of the package is read from the tree under test when it is imported
and rewritten, node by node, so that the operations CPython would perform on
machine values go through the hooks of models.py:

  f(a)          -> __vc_call__(f, a)          o.m(a)   -> __vc_callm__(o, 'm', a)
  a + b         -> __vc_bin__('Add', a, b)    a += b   -> a = __vc_ibin__('Add', a, b)
  a < b         -> __vc_cmp__('Lt', a, b)     o[i]     -> __vc_get__(o, i)
  for x in y    -> for x in __vc_iter__(y)    f'..'    -> __vc_fstr__(..)
  loops under contract get an invariant cut (see loops.py)

Nothing is dropped: statements, control flow, exceptions, closures, generators and
classes are CPython's own.  Annotations of functions are dropped (not evaluated
differently), docstrings are kept.
"""
import ast, sys, os, importlib.abc, importlib.machinery

REPO = os.environ.get('PYVC_REPO', '/repo')

CALL_KEEP = {'super', 'locals', 'globals', 'vars'}

class Rewriter(ast.NodeTransformer):
	def __init__(self, modname, loop_keys):
		self.modname = modname
		self.loop_keys = loop_keys       # {qualname: set(loop ordinals)}
		self.scope = []
		self.loops = [0]
		self.ntmp = 0
		self.classes = []
		self.loop_seen = {}

	def qual(self):
		return '.'.join(self.scope)

	def name(self, n, node):
		return ast.copy_location(ast.Name(n, ast.Load()), node)

	def call(self, fn, args, node, keywords=()):
		return ast.copy_location(ast.Call(self.name(fn, node), list(args), list(keywords)), node)

	# scopes
	def visit_FunctionDef(self, node):
		node.returns = None
		for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + \
		[x for x in (node.args.vararg, node.args.kwarg) if x]:
			a.annotation = None
		node.decorator_list = [self.visit(d) for d in node.decorator_list]
		node.args.defaults = [self.visit(d) for d in node.args.defaults]
		node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
		self.scope.append(node.name)
		self.loops.append(0)
		if self.loop_keys.get(self.qual()):
			eager(node)
		body = []
		for s in node.body:
			r = self.visit(s)
			if isinstance(r, list):
				body.extend(r)
			elif r is not None:
				body.append(r)
		node.body = body or [ast.Pass()]
		self.loop_seen[self.qual()] = self.loops.pop()
		self.scope.pop()
		return node

	def visit_ClassDef(self, node):
		node.decorator_list = [self.visit(d) for d in node.decorator_list]
		node.bases = [self.visit(b) for b in node.bases]
		node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
		self.scope.append(node.name)
		self.classes.append(node.name)
		self.loops.append(0)
		body = []
		for s in node.body:
			r = self.visit(s)
			if isinstance(r, list):
				body.extend(r)
			elif r is not None:
				body.append(r)
		node.body = body or [ast.Pass()]
		self.loops.pop()
		self.classes.pop()
		self.scope.pop()
		return node

	def mangle(self, n):
		if self.classes and n.startswith('__') and not n.endswith('__'):
			return '_%s%s' % (self.classes[-1].lstrip('_'), n)
		return n

	def visit_AnnAssign(self, node):
		if node.value is None:
			return ast.copy_location(ast.Pass(), node)
		return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

	# expressions
	def visit_List(self, node):
		node = self.generic_visit(node)
		if isinstance(node.ctx, ast.Load) and self.loop_keys.get(self.qual()):
			return self.call('__vc_list__', [node], node)
		return node

	def visit_Call(self, node):
		if isinstance(node.func, ast.Name) and node.func.id == 'list' and not node.args and self.loop_keys.get(self.qual()):
			return self.call('__vc_list__', [ast.copy_location(ast.List([], ast.Load()), node)], node)
		if isinstance(node.func, ast.Name) and node.func.id in CALL_KEEP:
			return self.generic_visit(node)
		args = [self.visit(a) for a in node.args]
		kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
		if isinstance(node.func, ast.Attribute):
			obj = self.visit(node.func.value)
			a0 = [obj, ast.copy_location(ast.Constant(self.mangle(node.func.attr)), node)]
			return self.call('__vc_callm__', a0 + args, node, kws)
		return self.call('__vc_call__', [self.visit(node.func)] + args, node, kws)

	def visit_BinOp(self, node):
		l, r = self.visit(node.left), self.visit(node.right)
		return self.call('__vc_bin__', [ast.Constant(type(node.op).__name__), l, r], node)

	def visit_Compare(self, node):
		if len(node.ops) == 1:
			op = node.ops[0]
			l, r = self.visit(node.left), self.visit(node.comparators[0])
			return self.call('__vc_cmp__', [ast.Constant(type(op).__name__), l, r], node)
		# chained: evaluated left to right, short circuit
		ops = ast.Tuple([ast.Constant(type(o).__name__) for o in node.ops], ast.Load())
		thunks = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), self.visit(c)) for c in node.comparators]
		return self.call('__vc_chain__', [ops, self.visit(node.left)] + thunks, node)

	def visit_Subscript(self, node):
		if isinstance(node.ctx, ast.Load):
			return self.call('__vc_get__', [self.visit(node.value), self.index(node.slice)], node)
		node.value = self.visit(node.value)
		node.slice = self.visit(node.slice)
		return node

	def index(self, s):
		if isinstance(s, ast.Slice):
			none = lambda: ast.Constant(None)
			return self.call('__vc_slice__', [self.visit(x) if x is not None else none() for x in (s.lower, s.upper, s.step)], s)
		return self.visit(s)

	def visit_Slice(self, node):
		return self.index(node)

	def visit_JoinedStr(self, node):
		parts = []
		for v in node.values:
			if isinstance(v, ast.Constant):
				parts.append(v)
			else:
				spec = ast.Constant('')
				if v.format_spec is not None:
					spec = self.visit(v.format_spec)
				parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
		return self.call('__vc_fstr__', parts, node)

	def comp(self, node, kind, cls):
		if len(node.generators) != 1 or node.generators[0].is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
			return self.generic_visit(node)
		g = node.generators[0]
		it = self.visit(g.iter)
		inner = cls(self.visit(node.elt), [ast.comprehension(self.visit(g.target), self.name('__vc_it', node), [self.visit(i) for i in g.ifs], 0)])
		ast.copy_location(inner, node)
		a = ast.arguments([], [ast.arg('__vc_it')], None, [], [], None, [])
		return self.call('__vc_comp__', [ast.Constant(kind), it, ast.copy_location(ast.Lambda(a, inner), node)], node)

	def visit_ListComp(self, node):
		return self.comp(node, 'list', ast.ListComp)
	def visit_GeneratorExp(self, node):
		return self.comp(node, 'gen', ast.GeneratorExp)

	def visit_comprehension(self, node):
		node.iter = self.call('__vc_iter__', [self.visit(node.iter)], node.iter)
		node.target = self.visit(node.target)
		node.ifs = [self.visit(i) for i in node.ifs]
		return node

	# statements
	def visit_Assign(self, node):
		value = self.visit(node.value)
		if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
			t = node.targets[0]
			e = self.call('__vc_set__', [self.visit(t.value), self.index(t.slice), value], node)
			return ast.copy_location(ast.Expr(e), node)
		if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)):
			n = node.targets[0]
			if not any(isinstance(x, ast.Starred) for x in n.elts):
				value = self.call('__vc_unpack__', [value, ast.Constant(len(n.elts))], node)
			n = self.target(n)
			return ast.copy_location(ast.Assign([n], value), node)
		node.value = value
		node.targets = [self.target(t) for t in node.targets]
		return node

	def target(self, t):
		if isinstance(t, (ast.Tuple, ast.List)):
			t.elts = [self.target(x) for x in t.elts]
			return t
		if isinstance(t, ast.Starred):
			t.value = self.target(t.value)
			return t
		if isinstance(t, ast.Attribute):
			t.value = self.visit(t.value)
			return t
		if isinstance(t, ast.Subscript):
			t.value = self.visit(t.value)
			t.slice = self.index(t.slice)
			# through the proxy that performs the store
			t.value = self.call('__vc_store__', [t.value], t)
			return t
		return t

	def tmp(self):
		self.ntmp += 1
		return '__vc_t%d' % self.ntmp

	def visit_AugAssign(self, node):
		op = ast.Constant(type(node.op).__name__)
		value = self.visit(node.value)
		t = node.target
		cl = lambda n: ast.copy_location(n, node)
		if isinstance(t, ast.Name):
			return cl(ast.Assign([t], self.call('__vc_ibin__', [op, ast.Name(t.id, ast.Load()), value], node)))
		o = self.tmp()
		if isinstance(t, ast.Attribute):
			s1 = cl(ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)))
			cur = ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Load())
			s2 = cl(ast.Assign([ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Store())],
				self.call('__vc_ibin__', [op, cur, value], node)))
			return [s1, s2]
		i = self.tmp()
		s1 = cl(ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)))
		s2 = cl(ast.Assign([ast.Name(i, ast.Store())], self.index(t.slice)))
		cur = self.call('__vc_get__', [ast.Name(o, ast.Load()), ast.Name(i, ast.Load())], node)
		s3 = cl(ast.Expr(self.call('__vc_set__', [ast.Name(o, ast.Load()), ast.Name(i, ast.Load()),
			self.call('__vc_ibin__', [op, cur, value], node)], node)))
		return [s1, s2, s3]

	def visit_Delete(self, node):
		out = []
		for t in node.targets:
			if isinstance(t, ast.Subscript):
				out.append(ast.copy_location(ast.Expr(self.call('__vc_del__', [self.visit(t.value), self.index(t.slice)], node)), node))
			elif isinstance(t, ast.Attribute):
				t.value = self.visit(t.value)
				out.append(ast.copy_location(ast.Delete([t]), node))
			else:
				out.append(ast.copy_location(ast.Delete([t]), node))
		return out

	# loops
	def stmts(self, body):
		out = []
		for s in body:
			r = self.visit(s)
			if isinstance(r, list):
				out.extend(r)
			elif r is not None:
				out.append(r)
		return out

	def assigned(self, nodes):
		names = []
		class W(ast.NodeVisitor):
			def visit_Name(w, n):
				if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
					names.append(n.id)
			def visit_FunctionDef(w, n):
				if n.name not in names: names.append(n.name)
			def visit_Lambda(w, n): pass
			def visit_ListComp(w, n): pass
			visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
			def visit_ExceptHandler(w, n):
				if n.name and n.name not in names: names.append(n.name)
				w.generic_visit(n)
		w = W()
		for n in nodes:
			w.visit(n)
		return names

	def mutated(self, nodes):
		"names whose lists the body changes in place"
		names = []
		for n in nodes:
			for x in ast.walk(n):
				t = None
				if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
				x.func.attr in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'reverse', 'sort'):
					t = x.func.value.id
				elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
					t = x.value.id
				if t is not None and t not in names:
					names.append(t)
		return names

	def loaded(self, nodes):
		names = []
		for n in nodes:
			for x in ast.walk(n):
				if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in names:
					names.append(x.id)
		return names

	def loop(self, node, is_for):
		k = self.loops[-1]
		self.loops[-1] += 1
		q = self.qual()
		under = k in self.loop_keys.get(q, ())
		if not under:
			if is_for:
				node.iter = self.call('__vc_iter__', [self.visit(node.iter)], node.iter)
				node.target = self.target(node.target)
			else:
				g = self.tmp()
				pre = ast.copy_location(ast.Assign([ast.Name(g, ast.Store())], self.call('__vc_while__', [ast.Constant('%s:%s#%d' % (self.modname, q, k))], node)), node)
				node.test = ast.copy_location(ast.Call(ast.Name(g, ast.Load()), [self.visit(node.test)], []), node)
				node.body = self.stmts(node.body)
				node.orelse = self.stmts(node.orelse)
				return [pre, node]
			node.body = self.stmts(node.body)
			node.orelse = self.stmts(node.orelse)
			return node
		assigned = self.assigned([node.target] + node.body if is_for else node.body + [node.test])
		LOOP_ASSIGNED[('%s:%s' % (self.modname, q), k)] = tuple(assigned)
		LOOP_MUTATED[('%s:%s' % (self.modname, q), k)] = tuple(self.mutated(node.body))
		L = self.tmp()
		cl = lambda n: ast.copy_location(n, node)
		key = '%s:%s' % (self.modname, q)
		pre = []
		if is_for:
			it = self.visit(node.iter)
			pre.append(cl(ast.Assign([ast.Name(L, ast.Store())],
				self.call('__vc_loop__', [ast.Constant(key), ast.Constant(k), it], node))))
		else:
			pre.append(cl(ast.Assign([ast.Name(L, ast.Store())],
				self.call('__vc_loop__', [ast.Constant(key), ast.Constant(k)], node))))
		body = []
		# head: rebind every assigned local from the loop object
		loc = cl(ast.Call(ast.Name('locals', ast.Load()), [], []))
		body.append(cl(ast.Expr(cl(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'head', ast.Load()), [loc], [])))))
		for n in assigned:
			# if L.has('n'): n = L.val('n')
			test = cl(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'has', ast.Load()), [ast.Constant(n)], []))
			val = cl(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'val', ast.Load()), [ast.Constant(n)], []))
			body.append(cl(ast.If(test, [cl(ast.Assign([ast.Name(n, ast.Store())], val))], [])))
		orelse = self.stmts(node.orelse)
		brk = cl(ast.Break())
		if is_for:
			test = cl(ast.UnaryOp(ast.Not(), cl(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'more', ast.Load()), [], []))))
			body.append(cl(ast.If(test, orelse + [brk], [])))
			nxt = cl(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'next', ast.Load()), [], []))
			body.append(cl(ast.Assign([self.target(node.target)], nxt)))
		else:
			t = self.visit(node.test)
			t = cl(ast.Call(cl(ast.Attribute(ast.Name(L, ast.Load()), 'test', ast.Load())), [t], []))
			body.append(cl(ast.If(cl(ast.UnaryOp(ast.Not(), t)), orelse + [brk], [])))
		body.extend(self.stmts(node.body))
		pre.append(cl(ast.While(cl(ast.Constant(True)), body, [])))
		return pre

	def visit_For(self, node):
		return self.loop(node, True)

	def visit_While(self, node):
		return self.loop(node, False)

	def visit_With(self, node):
		for i in node.items:
			i.context_expr = self.visit(i.context_expr)
			if i.optional_vars is not None:
				i.optional_vars = self.target(i.optional_vars)
		node.body = self.stmts(node.body)
		return node

	def visit_Lambda(self, node):
		node.args.defaults = [self.visit(d) for d in node.args.defaults]
		node.body = self.visit(node.body)
		return node

def eager(node):
	"""
	A generator function under loop contract collects what it yields in the list
	vc_yielded and returns an iterator over it: the sequence of values is the same,
	only its interleaving with the consumer is lost.
	"""
	ys = []
	class F(ast.NodeVisitor):
		def visit_FunctionDef(w, n): pass
		visit_Lambda = visit_ClassDef = visit_FunctionDef
		def visit_Yield(w, n): ys.append(n); w.generic_visit(n)
		visit_YieldFrom = visit_Yield
	for n in node.body:
		F().visit(n)
	if not ys:
		return
	class R(ast.NodeTransformer):
		def visit_FunctionDef(w, n): return n
		visit_Lambda = visit_ClassDef = visit_FunctionDef
		def visit_Expr(w, n):
			if type(n.value) is ast.Yield:
				ys.remove(n.value)
				return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name('vc_yielded', ast.Load()), 'append', ast.Load()), [n.value.value or ast.Constant(None)], [])), n)
			return n
		def visit_Return(w, n):
			return ast.copy_location(ast.Return(ast.Call(ast.Name('__vc_yield__', ast.Load()), [ast.Name('vc_yielded', ast.Load())], [])), n)
	body = [R().visit(n) for n in node.body]
	if ys:
		return   # the value of a yield is used: left alone
	first = ast.copy_location(ast.Assign([ast.Name('vc_yielded', ast.Store())], ast.List([], ast.Load())), node.body[0])
	last = ast.copy_location(ast.Return(None), node.body[-1])
	node.body = [ast.fix_missing_locations(x) for x in [first] + body + [R().visit(last)]]

def instrument(source, filename, modname, loop_keys):
	tree = ast.parse(source, filename)
	rw = Rewriter(modname, loop_keys)
	body = []
	for s in tree.body:
		r = rw.visit(s)
		body.extend(r if isinstance(r, list) else [r])
	tree.body = body
	ast.fix_missing_locations(tree)
	return compile(tree, filename, 'exec'), rw

LOOP_ASSIGNED = {}
LOOP_MUTATED = {}
LOOP_KEYS = {}      # module -> {qualname: set(ordinals)}
SOURCES = {}        # module -> (path, sha256)
RAW = set()         # modules imported uninstrumented
SEEN_LOOPS = {}

class Loader(importlib.abc.Loader):
	def __init__(self, name, path, is_pkg):
		self.name = name; self.path = path; self.is_pkg = is_pkg
	def create_module(self, spec):
		return None
	def exec_module(self, module):
		import hashlib
		with open(self.path, 'rb') as f:
			src = f.read()
		SOURCES[self.name] = (self.path, hashlib.sha256(src).hexdigest())
		if self.name in RAW:
			code = compile(src, self.path, 'exec')
		else:
			code, rw = instrument(src, self.path, self.name, LOOP_KEYS.get(self.name, {}))
			SEEN_LOOPS[self.name] = rw.loop_seen
			from . import models
			module.__dict__.update(models.HOOKS)
		module.__file__ = self.path
		exec(code, module.__dict__)

class Finder(importlib.abc.MetaPathFinder):
	def find_spec(self, fullname, path=None, target=None):
		if fullname != 'postgresql' and not fullname.startswith('postgresql.'):
			return None
		rel = fullname.replace('.', '/')
		for cand, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
			p = os.path.join(REPO, cand)
			if os.path.exists(p):
				return importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, pkg), origin=p, is_package=pkg) \
					if not pkg else self.pkgspec(fullname, p)
		# no C extension here: the pure Python implementations are verified
		return None
	def pkgspec(self, fullname, p):
		s = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, True), origin=p, is_package=True)
		s.submodule_search_locations = []
		return s

def install():
	if not any(isinstance(f, Finder) for f in sys.meta_path):
		sys.meta_path.insert(0, Finder())
