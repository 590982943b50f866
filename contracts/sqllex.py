# ---- specification: the quoted portions of an SQL text (no comments: the module does not know them)

def word(c):
	return c == '_' or c.isalnum()

def tag(t, i):
	"the dollar quote opening at i, or nothing"
	j = i + 1
	if j < len(t) and (t[j] == '_' or (t[j].isalnum() and not t[j].isdecimal())):
		while j < len(t) and word(t[j]):
			j += 1
	if j < len(t) and t[j] == '$':
		return t[i:j + 1]
	return None

def lex(t):
	"[text, (quote, content), text, ...]; an even number of parts if the last quotation is not terminated"
	out, i, start = [], 0, 0
	while i < len(t):
		c = t[i]
		after_word = i > 0 and (word(t[i - 1]) or t[i - 1] == '$')
		if c in 'Ee' and t[i + 1:i + 2] == "'" and not after_word:
			q, body, esc = t[i:i + 2], i + 2, True
		elif c == "'" or c == '"':
			q, body, esc = c, i + 1, False
		elif c == '$' and not after_word and tag(t, i):
			q = tag(t, i)
			e = t.find(q, i + len(q))
			out.append(t[start:i])
			if e == -1:
				out.append((q, t[i + len(q):]))
				return out
			out.append((q, t[i + len(q):e]))
			i = start = e + len(q)
			continue
		else:
			i += 1
			continue
		j, end = body, q[-1]
		while j < len(t):
			if esc and t[j] == '\\':
				j += 2
			elif t[j] == end:
				if t[j + 1:j + 2] == end:
					j += 2
				else:
					break
			else:
				j += 1
		out.append(t[start:i])
		if j >= len(t):
			out.append((q, t[body:]))
			return out
		out.append((q, t[body:j]))
		i = start = j + 1
	out.append(t[start:])
	return out

def ends(q):
	return "'" if q in ("E'", "e'") else q

def whole(parts):
	"the text of the parts"
	s = ''
	for k, p in enumerate(parts):
		if isinstance(p, tuple):
			s += p[0] + p[1] + (ends(p[0]) if k + 1 < len(parts) else '')
		else:
			s += p
	return s

def statements(t, sep):
	"the text cut at the separators outside quotations"
	out, cur = [], ''
	parts = lex(t)
	for k, p in enumerate(parts):
		if isinstance(p, tuple):
			cur += p[0] + p[1] + (ends(p[0]) if k + 1 < len(parts) else '')
		else:
			xs = p.split(sep)
			cur += xs[0]
			for x in xs[1:]:
				out.append(cur)
				cur = x
	out.append(cur)
	return out

