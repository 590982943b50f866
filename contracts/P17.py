import itertools
from pyvc.api import *
from contracts.common import *
from postgresql import string as S

DBL2 = Hom('spec-double-double-quotes', 'str', lambda c: '""' if c == '"' else c, minlen=1)

from contracts.sqllex import *

def check_text(v, t):
	got = list(S.split(t))
	v.eq(got, lex(t), 'quoted portions of %r' % t)
	v.check(S.unsplit(got) == t, 'joining the pieces gives the text back: %r' % t)
	for sep in (';', ','):
		st = statements(t, sep)
		v.check(list(S.split_sql_str(t, sep)) == st, 'split only outside quotations: %r' % t)
		v.check(sep.join(S.split_sql_str(t, sep)) == t, 'joining the statements gives the text back: %r' % t)
		secs = list(S.split_sql(t, sep))
		v.check([S.unsplit(x) for x in secs] == st, 'sections: %r' % t)

def texts(alphabet, length):
	for n in range(length + 1):
		for cs in itertools.product(alphabet, repeat=n):
			yield ''.join(cs)

@harness('P17', ['string.split', 'string.unsplit', 'string.split_sql', 'string.split_sql_str'], mode='sampled', runs=1, bound="every text of at most 5 characters over '\"$aE\\;,newline", conc_seconds=60)
def every_short_text(v):
	for t in texts('\'"$aE\\;\n', 5):
		got = list(S.split(t))
		if got != lex(t) or S.unsplit(got) != t or list(S.split_sql_str(t)) != statements(t, ';'):
			check_text(v, t)
	v.check(True, 'every text')

@harness('P17', ['string.split', 'string.split_sql_str'], mode='sampled', runs=1, bound="every text of at most 8 tokens", conc_seconds=60)
def every_short_text_of_tokens(v):
	for t in texts(("'", '"', '$$', '$a$', ';', "E'"), 6):
		got = list(S.split(t))
		if got != lex(t) or S.unsplit(got) != t or list(S.split_sql_str(t)) != statements(t, ';'):
			check_text(v, t)
	v.check(True, 'every text')

class Sql(Text):
	TOK = ["'", '"', '$$', '$a$', '$b1$', '$1', ';', ',', "E'", "e'", '\\', "''", '""', 'select', ' ', '\n', 'x', '_', '9', '$', 'E', '\u00e9', '-', '.']
	def rand(self, r, size):
		return ''.join([r.choice(self.TOK) for _ in range(r.randint(0, size))])

@harness('P17', ['string.split', 'string.unsplit', 'string.split_sql', 'string.split_sql_str'], mode='sampled', runs=6000, size=25, bound='sampled texts')
def any_text(v):
	check_text(v, v.any('text', Sql()))

@harness('P17', ['string.split_sql', 'string.unsplit'], mode='sampled', runs=2000, size=4, bound='sampled quotations')
def contents(v):
	"whatever a quotation contains, it is one piece"
	import re
	c = v.any('content', Sql())
	sep = v.any('separator', Choice(';', ',', '--'))
	for q, e in (("'", c.replace("'", "''")), ('"', c.replace('"', '""')), ("E'", c.replace('\\', '\\\\').replace("'", "\\'")), ('$q$', c), ('$$', c)):
		if q[0] == '$' and (c + '$').find('$') < len(c):
			continue
		t = 'a ' + q + e + ends(q) + sep + 'b' + sep
		v.eq(list(S.split_sql_str(t, sep)), ['a ' + q + e + ends(q), 'b', ''], 'split only at the separators outside')
		v.eq(list(S.split(t))[1], (q, e), 'content')

# ---- split_using, identifiers

def using(t, q, sep, maxsplit):
	out, cur, i, inq = [], '', 0, False
	while i < len(t):
		if t[i] == q:
			inq = not inq
			cur += q
			i += 1
		elif not inq and t[i:i + len(sep)] == sep and len(out) != maxsplit:
			out.append(cur)
			cur = ''
			i += len(sep)
		else:
			cur += t[i]
			i += 1
	out.append(cur)
	return out

@harness('P17', ['string.split_using'], mode='bounded', bound='at most 5 characters', paths=20000)
def separators(v):
	"split exactly at the separators outside quotes, at most maxsplit times"
	n = v.any('length', Choice(*range(6)))
	cs = [v.any('c%d' % k, Text(length=1, alphabet='"".a.'))[0] for k in range(n)]
	m = v.any('maxsplit', Choice(-1, 0, 1, 2))
	t = ''.join(cs)
	r = S.split_using(t, '"', '.', m)
	want, cur, inq = [], [], False
	for c in cs:
		if not inq and c == '.' and len(want) != m:
			want.append(''.join(cur))
			cur = []
		else:
			if c == '"':
				inq = not inq
			cur.append(c)
	want.append(''.join(cur))
	v.eq(r, want, 'pieces')

@harness('P17', ['string.split_using'], mode='sampled', runs=5000, size=14, bound='sampled texts')
def separators_long(v):
	t = v.any('text', Text(alphabet='"".,a -', maxlen=60))
	q = v.any('quote', Choice('"', "'", '-'))
	sep = v.any('separator', Choice('.', ',', ' ', ', ', '.,'))
	m = v.any('maxsplit', Choice(-1, -1, 0, 1, 2, 5))
	r = S.split_using(t, q, sep, m)
	v.check(sep.join(r) == t, 'joining gives the text back')
	v.eq(r, using(t, q, sep, m), 'split outside quotes only')

NAME = Text(alphabet='"".,aA\u00e9 $')

@harness('P17', ['string.split_qname', 'string.qname'], mode='bounded', bound='at most 3 parts of at most 2 characters', paths=20000)
def names_come_back(v):
	"quoting the parts, joining and splitting gives the parts"
	k = v.any('parts', Choice(1, 2, 3))
	ps = []
	for i in range(k):
		n = v.any('n%d' % i, Choice(0, 1, 2) if k < 3 else Choice(0, 1))
		ps.append(''.join([v.any('c%d%d' % (i, j), Text(length=1, alphabet='"".a '))[0] for j in range(n)]))
	v.eq(S.split_qname(S.qname(*ps)), ps, 'the same parts')

@harness('P17', ['string.split_qname', 'string.qname', 'string.qname_if_needed', 'string.split_ident'], mode='sampled', runs=5000, bound='sampled names')
def names_come_back_long(v):
	ps = v.any('parts', Seq(NAME))
	if not ps:
		return
	v.eq(S.split_qname(S.qname(*ps)), ps, 'the same parts')
	v.eq(S.split_qname(S.qname_if_needed(*ps)), ps, 'the same parts, quoted if needed')
	v.eq(S.split_ident(', '.join([S.quote_ident(p) for p in ps])), ps, 'a list')

def name(x):
	"the identifier a name denotes, or None"
	x = x.strip()
	if x[:1] == '"':
		if len(x) < 2 or x[-1] != '"':
			return None
		b, i = x[1:-1], 0
		while i < len(b):
			if b[i] == '"':
				if b[i + 1:i + 2] != '"':
					return None
				i += 1
			i += 1
		return b.replace('""', '"')
	if not x or x[0].isdecimal() or not all(c == '_' or c.isalnum() for c in x):
		return None
	return x.lower()

@harness('P17', ['string.split_ident', 'string.split_qname', 'string.needs_quoting'], mode='sampled', runs=6000, size=10, bound='sampled texts')
def reading_names(v):
	"each part denotes its identifier; other texts are refused"
	t = v.any('text', Text(alphabet='"""..,aA_9 ', maxlen=40))
	sep = v.any('separator', Choice('.', ','))
	o, r = v.outcome(S.split_ident, t, sep=sep)
	want = [name(x) for x in using(t, '"', sep, -1)]
	if None in want:
		v.check(o == 'raise' and type(r) is ValueError, 'refused')
	else:
		v.check(o == 'ok', 'accepted')
		v.eq(r, want, 'identifiers')
	if sep == '.':
		o2, r2 = v.outcome(S.split_qname, t)
		v.check(o2 == o and (o == 'raise' or r2 == r), 'split_qname')

@harness('P17', ['string.split_ident'], mode='bounded', bound='texts of at most 3 characters', paths=20000)
def reading_short_names(v):
	n = v.any('length', Choice(*range(4)))
	cs = [v.any('c%d' % k, Text(length=1, allowed='".aA_9'))[0] for k in range(n)]
	t = ''.join(cs)
	parts, cur, inq = [], [], False
	for c in cs:
		if not inq and c == '.':
			parts.append(cur)
			cur = []
		else:
			if c == '"':
				inq = not inq
			cur.append(c)
	parts.append(cur)
	bad, want = False, []
	for p in parts:
		if not p:
			bad = True
		elif p[0] == '"':
			if len(p) < 2 or p[-1] != '"':
				bad = True
			elif len(p) == 3 and p[1] == '"':
				bad = True
			else:
				want.append(''.join(p[1:-1]))
		elif p[0] == '9':
			bad = True
		else:
			w = ''
			for c in p:
				if c == '"':
					bad = True
				w = w + ('a' if c == 'A' else c)
			want.append(w)
	o, r = v.outcome(S.split_ident, t, sep='.')
	if bad:
		v.check(o == 'raise' and type(r) is ValueError, 'refused')
	else:
		v.check(o == 'ok', 'accepted')
		v.eq(r, want, 'identifiers')
