From c4f2cbce8f2b9db3ccd0896eefea5cc72b8e7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 01/72] fix: FixedOffset keeps the seconds of its offset

---
 postgresql/python/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..529ce53 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, offset_in_seconds)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From 9b5ab4f693f67bfaa5f32fa05bcc01c6ad29e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 02/72] fix: the zone of a timetz counts seconds west of UTC on
 the wire

---
 postgresql/types/io/stdlib_datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..1573d84 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -188,7 +188,8 @@ def timetz_pack(x,
 	"""
 	td = x.tzinfo.utcoffset(x)
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# The wire format counts the seconds *west* of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +200,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From 7914682e39004f17f6c8b82aab59547f54703d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 03/72] fix: timetz accepts every tzinfo, not only those taking
 a time in utcoffset()

---
 postgresql/types/io/stdlib_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 1573d84..eed6f77 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -186,7 +186,7 @@ def timetz_pack(x,
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
 	# The wire format counts the seconds *west* of UTC.
 	return (time_pack(x), -seconds)
-- 
2.43.0


From a5102d7a90e1e12fa3e1ae39f70820c8ff4f160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 04/72] fix: message types above 0x7f indexed the type table
 with a negative number

---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From b1b87eb26f27fa40ba399d2ba8019bba51dc085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 05/72] fix: reading a stream with an invalid message size
 raised SystemError instead of ValueError

---
 postgresql/port/_optimized/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 5688497..01bf708 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -417,6 +417,8 @@ p_read(PyObject *self, PyObject *args)
 	p.offset = pb->position.offset;
 
 	msg_in = p_length(self);
+	if (msg_in < 0)
+		return(NULL);
 	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
 
 	rob = PyTuple_New(msg_count);
-- 
2.43.0


From 0d5d4f9761ae75592f6424c04df7bb0f34571039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 06/72] fix: the Python row parser refuses truncated rows and
 trailing data like the compiled one

---
 postgresql/protocol/element3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..6bbb8ab 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -502,8 +502,12 @@ class Tuple(TupleMessage):
 				ao = offset
 				offset = ao + al
 				att = data[ao:offset]
+				if len(att) != al:
+					raise ValueError("attribute has invalid size %d" %(al,))
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError("invalid tuple(D) message, data remains after its attributes")
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From b9ae1a97a437d6b03b3daf572832b759a0d5cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 07/72] fix: escaped bytea text accepts only three octal digits
 of a byte

---
 postgresql/encodings/bytea.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/encodings/bytea.py b/postgresql/encodings/bytea.py
index 3c406df..376db8d 100644
--- a/postgresql/encodings/bytea.py
+++ b/postgresql/encodings/bytea.py
@@ -41,10 +41,10 @@ def encode(data):
 				except StopIteration:
 					# requires three digits
 					raise ValueError("incomplete backslash sequence")
-				try:
-					x = int(os, base = 8)
-				except ValueError:
+				if os.strip('01234567') or os > '377':
+					# int() would take underscores, spaces and other scripts' digits
 					raise ValueError("invalid bytea octal sequence '%s'" %(os,))
+				x = int(os, base = 8)
 			else:
 				raise ValueError("invalid backslash follow '%s'" %(y,))
 		else:
-- 
2.43.0


From b679d287644a40306533de780d0712c5d1782728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 08/72] fix: printing a version whose state has no level wrote
 None

---
 postgresql/versionstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..a6413c1 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -42,7 +42,9 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + ('' if state_class is None else state_class + (
+		'' if state_level is None else str(state_level)
+	))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From 45e3f952d17f0839dc84ef4d2cc11706cc5bfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:10 +0000
Subject: [PATCH 09/72] fix: versions of more than three numbers lost the
 fields of their state

---
 postgresql/versionstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index a6413c1..1e6f364 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -33,7 +33,7 @@ def split(vstr: str) -> tuple:
 		state_class = None
 		vlist = [int(x or '0') for x in v]
 		# pad the difference with `None` objects, and +2 for the state_*.
-		vlist += [None] * ((3 - len(vlist)) + 2)
+		vlist += [None] * (3 - len(vlist)) + [None, None]
 	return tuple(vlist)
 
 def unsplit(vtup: tuple) -> str:
-- 
2.43.0


From e31313228aab9298fd8c09b8d4f8d732f5500cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 10/72] fix: a packager's note in the server version failed the
 connection

---
 postgresql/versionstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 1e6f364..5775bc9 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,7 +13,8 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	v = vstr.strip().split('.')
+	# Packagers append a note of their own: "10.3 (Debian 10.3-1)".
+	v = vstr.partition('(')[0].strip().split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From dd18a11268ba7ab5e97fbc45cae51eed2e9da2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 11/72] fix: LISTEN and UNLISTEN sent the channel without
 quotes, unlike NOTIFY

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..1648093 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2701,7 +2701,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN ' + quote_ident(x)
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
@@ -2710,7 +2710,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			qstr += '; UNLISTEN ' + quote_ident(x)
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From e3f3566edb788db563bd3cae63104f7d2548b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 12/72] fix: identifiers with upper-case letters need quotes to
 keep their case

---
 postgresql/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..2277614 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -47,7 +47,8 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	# An unquoted identifier is folded to lower case by the server.
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xu)
 	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-- 
2.43.0


From 80489cce0e5b963914d66fdc999c4a21092a397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 13/72] fix: dollar quotes may span lines, and their tag is an
 identifier

---
 postgresql/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 2277614..e01a4b3 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -50,11 +50,11 @@ def quote_ident_if_needed(text):
 	# An unquoted identifier is folded to lower case by the server.
 	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
-quote_re = re.compile(r"""(?xu)
+quote_re = re.compile(r"""(?xus)
 	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
 |	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
 |	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+|	(?<![\w$])(\$(?:[^\W\d]\w*)?\$).*?(?:\1|\Z)   (?# Dollar quotes $$str$$)
 """)
 
 def split(text):
-- 
2.43.0


From e1a137f71c5b45aaf2bbc486f454237b8cd2b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 14/72] fix: escape string boundaries, and unterminated
 quotations ending in an escaped quote

---
 postgresql/string.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index e01a4b3..23428f7 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -51,10 +51,10 @@ def quote_ident_if_needed(text):
 	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xus)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(?<![\w$])(\$(?:[^\W\d]\w*)?\$).*?(?:\1|\Z)   (?# Dollar quotes $$str$$)
+	(?<![\w$])[Ee]'(?:''|\\.|[^'\\])*(?:(')|\\?\Z)  (?# Backslash escapes E'str')
+|	'(?:''|[^'])*(?:(')|\Z)             (?# Regular literals 'str')
+|	"(?:""|[^"])*(?:(")|\Z)             (?# Identifiers "str")
+|	(?<![\w$])(?P<tag>\$(?:[^\W\d]\w*)?\$).*?(?:((?P=tag))|\Z)   (?# Dollar quotes $$str$$)
 """)
 
 def split(text):
@@ -84,7 +84,7 @@ def split(text):
 		# text preceding the quotation
 		yield text[lastend:match.start()]
 		# the dollar quote, if any
-		dq = match.groups()[0]
+		dq = match.group('tag')
 		if dq is not None:
 			endoff = len(dq)
 			quote = dq
@@ -92,17 +92,14 @@ def split(text):
 		else:
 			endoff = 1
 			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
+			if q in 'Ee':
+				quote = q + "'"
 				end = "'"
 			else:
 				end = quote = q
 
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		# Without a closing quote, it consumed the end.
+		if end not in match.groups()[:3] and match.groups()[4] is None:
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
@@ -128,7 +125,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From 6a68bb282a4fa74642a34448adfb82073c6e4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 15/72] fix: split_using left part of a longer separator in the
 next piece

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 23428f7..1fa5b7f 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -185,7 +185,7 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
-- 
2.43.0


From 4f08e2e06c4a7a4b1c4b6f122982081645c54258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 16/72] fix: split_ident accepted a lone quote and quotes
 inside a quoted identifier

---
 postgresql/string.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 1fa5b7f..60601fd 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -197,12 +197,13 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			ident = x[1:-1]
+			if len(x) < 2 or not x.endswith('"') or '"' in ident.replace('""', ''):
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
 			else:
-				nr.append(x[1:-1].replace('""', '"'))
+				nr.append(ident.replace('""', '"'))
 		elif needs_quoting(x):
 			raise ValueError(
 				"non-ident characters in unquoted identifier", x
-- 
2.43.0


From 21b9687aca4714ccb877e71b08abcfa1ba6018d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 17/72] fix: %% escapes were kept in parts of a DB-API
 statement without a parameter of their own

---
 postgresql/driver/dbapi20.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..ce1e00c 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -216,6 +216,7 @@ class Cursor(object):
 		kmap = {}
 		transformer = tuple
 		rparts = []
+		literal = []
 		for part in parts:
 			if part.__class__ is ().__class__:
 				# skip quoted portions
@@ -244,8 +245,14 @@ class Cursor(object):
 						rparts.append(part % kmap)
 				else:
 					# no parameters identified in string
+					literal.append(len(rparts))
 					rparts.append(part)
 
+		if keys or count:
+			# the %% escapes of the parts that were not formatted
+			for i in literal:
+				rparts[i] = rparts[i].replace('%%', '%')
+
 		if keys:
 			if count:
 				raise TypeError(
-- 
2.43.0


From 564b051f0c2d38f8d8b9ac7f0fd4db4659842f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 18/72] fix: path components of an IRI were neither escaped nor
 unescaped

---
 postgresql/iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..f321e2b 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,8 +55,8 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
-		path = path[1:]
+			cpd['database'] = fieldproc(path[0])
+		path = [fieldproc(x) for x in path[1:]]
 		if path:
 			cpd['path'] = path
 
@@ -158,7 +158,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From 061aa8e279c26a20d550fa2863fd1febf2db743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 19/72] fix: the path of an IRI without a database was read
 back as the database

---
 postgresql/iri.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index f321e2b..65b66a6 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -133,8 +133,10 @@ def construct(x, obscure_password = False):
 	path = []
 	if 'database' in x:
 		path.append(x['database'])
-	if 'path' in x:
-		path.extend(x['path'] or ())
+	if x.get('path'):
+		# Without a database, the first component is empty.
+		path = path or ['']
+		path.extend(x['path'])
 
 	password = x.get('password')
 	if obscure_password and password is not None:
-- 
2.43.0


From a7a49f76fe0b1a12fbc36daba3d07393d284cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 20/72] fix: escapes in bracketed hosts and socket paths of an
 IRI were kept

---
 postgresql/iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 65b66a6..488e3d5 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -46,9 +46,9 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
-- 
2.43.0


From edf35fa85a1a88a6cd4746db473407582dc6d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 21/72] fix: '@' in the host or port of an IRI was read back as
 the end of the user

---
 postgresql/resolved/riparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..ecf7a56 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,8 +47,8 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
-escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
+escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
 escape_query_value_re = re.compile('[%s]' %(re.escape(unescaped + '&#'),))
-- 
2.43.0


From 5f7dd5e6da0eaa4263e79b4b3b3eafec39f02a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 22/72] fix: the search_path of settings given as pairs was
 left out of the IRI

---
 postgresql/iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 488e3d5..d8448fa 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -106,8 +106,8 @@ def construct(x, obscure_password = False):
 			search_path = settings.get('search_path')
 		else:
 			siter = list(settings)
-			search_path = [(k,v) for k,v in siter if k == 'search_path']
-			search_path.append((None,None))
+			search_path = [(None,None)]
+			search_path.extend([(k,v) for k,v in siter if k == 'search_path'])
 			search_path = search_path[-1][1]
 		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
 		if not no_path_settings:
-- 
2.43.0


From 9e66ace603e44baa6610e8399b22bea7febf44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 23/72] fix: commented lines of a password file were entries of
 a host starting with '#'

---
 postgresql/pgpassfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..f1fdf78 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -8,7 +8,7 @@ import os.path
 
 def split(line, len = len):
 	line = line.strip()
-	if not line:
+	if not line or line.startswith('#'):
 		return None
 	r = []
 	continuation = False
-- 
2.43.0


From 64c2ef5d85a9e7547c5208d725305386128118d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 24/72] fix: blanks at the end of a password in a password file
 were dropped

---
 postgresql/pgpassfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index f1fdf78..5a46884 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,7 +7,8 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
+	# Blanks at the end of the line belong to the password.
+	line = line.lstrip().rstrip('\r\n')
 	if not line or line.startswith('#'):
 		return None
 	r = []
-- 
2.43.0


From 8a7f933843b3a235deb2494f2f30b095c7acd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 25/72] fix: deleting a key of a configuration file raised
 TypeError

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..f175471 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -244,7 +244,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
-- 
2.43.0


From e8bbd093a81636071a61620f2d092b75f40dc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 26/72] fix: adding the first line to an empty configuration
 file raised IndexError

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index f175471..8e99f38 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -124,7 +124,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
 
-- 
2.43.0


From 3983965a4d00875be42f2ed8bf844e8322330e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 27/72] fix: settings with '.' in their name were not seen in
 configuration files

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 8e99f38..aab8d6a 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -25,7 +25,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		key_len = 0
 		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
+			if not (c.isalpha() or c.isdigit() or c in '_.'):
 				break
 			key_len += 1
 
-- 
2.43.0


From e4a90ff35d975b7dc38d44e7cd00d5b149340631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 28/72] fix: iterating a ConfigFile raised TypeError

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index aab8d6a..2a2f304 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -263,7 +263,7 @@ class ConfigFile(pg_api.Settings):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
-- 
2.43.0


From 7feb6b6ac9dd180f5f408785219d1e3f261146d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 29/72] fix: ConfigFile did not work as a context manager of
 temporary settings

---
 postgresql/configfile.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2a2f304..33cfa98 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -258,6 +258,7 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
@@ -275,10 +276,7 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
+		self.update(self._restore.pop())
 		return exc is None
 
 	def get(self, k, alt = None):
-- 
2.43.0


From 8449f992c63e3c766435a91630754da342ae2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 30/72] fix: environment variables of settings were not
 collected

---
 postgresql/clientparameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..467e873 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -204,6 +204,8 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	settings = [
 		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
 	]
+	for x in settings:
+		yield x
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From da10a1f55050e291cb773e37323aa928418a8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 31/72] fix: PGREQUIRESSL made a tuple of sslmode

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 467e873..c6a126e 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
-- 
2.43.0


From 16bebba5afffb32e2cac6e405fd71678f2365966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 32/72] fix: the prompt_title given to resolve_password was
 dropped

---
 postgresql/clientparameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index c6a126e..cd0b07c 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -393,12 +393,12 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	prompt_title = prompt_title or parameters.get('prompt_title') or ''
+	parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
-			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
+			prompt = prompt_title + '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
 			# getpass will throw an exception if it's not a tty,
-- 
2.43.0


From 7e90998008e273d568a2cedd7f54b82184ff9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 33/72] fix: a malformed -s option raised NameError

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index cd0b07c..0d514e1 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -283,7 +283,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
-- 
2.43.0


From d848a97e75555b80e79c55e7491253d992b6e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 34/72] fix: normalize_parameter raised TypeError on the keys
 of parameters

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 0d514e1..fe39f63 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -550,10 +550,10 @@ def normalize_parameter(kv):
 	"""
 	(k, v) = kv
 	if k[0] == 'requiressl' and v in ('1', True):
-		k[0] = 'sslmode'
+		k = ('sslmode',) + tuple(k[1:])
 		v = 'require'
 	elif k[0] == 'dbname':
-		k[0] = 'database'
+		k = ('database',) + tuple(k[1:])
 	elif k[0] == 'sslmode':
 		v = v.lower()
 	return (tuple(k),v)
-- 
2.43.0


From 3f3c0850ba7085fe9b1efffa40a3591412b381a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 35/72] fix: indexing and iterating bit strings raised
 TypeError

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..d30e37d 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -63,7 +63,7 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
-- 
2.43.0


From 349501290d3e1b78b0f7ca5e8890bac18980d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 36/72] fix: the truth of bit strings was that of their length

---
 postgresql/types/bitwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index d30e37d..1f84381 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -74,7 +74,7 @@ class Varbit(object):
 		else:
 			return self.getbit(item)
 
-	def __nonzero__(self):
+	def __bool__(self):
 		for x in self.data:
 			if x != 0:
 				return True
@@ -89,7 +89,7 @@ class Bit(Varbit):
 
 		raise ValueError('unknown bit value %r, 0 or 1' %(ob,))
 
-	def __nonzero__(self):
+	def __bool__(self):
 		return self is OneBit
 
 	def __str__(self):
-- 
2.43.0


From 77992fa8758af1498ac4ce7839563b33f84c9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 37/72] fix: comparing a bit with a longer bit string raised
 ValueError

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 1f84381..61bf010 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -41,7 +41,7 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
+		if not isinstance(ob, Varbit):
 			ob = type(self)(ob)
 		return ob.bits == self.bits and ob.data == self.data
 
-- 
2.43.0


From 17807e94b4fc3ba39d9776dbedbd9929f0d270d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 38/72] fix: slicing a bit raised ValueError unless it gave a
 bit

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 61bf010..9cd5e53 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -70,7 +70,7 @@ class Varbit(object):
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-- 
2.43.0


From 800e644ccd9704c257f212ccfa891de237da8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 39/72] fix: the last sub-array could not be had by index -1,
 and the index after it raised ValueError

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..41d38ae 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -530,8 +530,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if item < 0:
+				item = item + l
+			if not 0 <= item < l:
+				raise IndexError("index {0} is out of range".format(item))
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From ed0ca1569b8d81d428e23fc0d16cdf126474eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 40/72] fix: the upper bound of arrays made with a lower bound
 alone was the number of elements

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 41d38ae..c06bfef 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -354,7 +354,7 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = tuple([lb + nelements - 1 for lb in lowerbounds[:1]])
 				dimensions = (nelements,)
 
 		# consistency..
-- 
2.43.0


From e7814a4ae70226a5a611c46fb12a06f8f696982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 41/72] fix: tuples and text standing where an array needs a
 list were taken apart

---
 postgresql/types/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index c06bfef..799d074 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -255,6 +255,8 @@ class Array(object):
 	@classmethod
 	def unroll_nest(typ, hier, dimensions, depth = 0):
 		dsize = dimensions and dimensions[depth] or 0
+		if depth and hier.__class__ is not list:
+			raise ValueError("element where a list is needed at depth " + str(depth))
 		if len(hier) != dsize:
 			raise ValueError("list size not consistent with dimensions at depth " + str(depth))
 		r = []
-- 
2.43.0


From c34e719ac4e855fb57db4651a7d084c15baa6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 42/72] fix: Row.get gave None for the first column by negative
 index

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 799d074..3efdd54 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -579,7 +579,7 @@ class Row(tuple):
 	def get(self, i, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
-- 
2.43.0


From 10ccb7c985e3ddaf0885bc0b82ea2bfc87d3855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 43/72] fix: numeric 'NaN' could neither be packed nor unpacked

---
 postgresql/types/io/stdlib_decimal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..4c6479e 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,8 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# 0xC000, as a signed short.
+numeric_nan = -16384
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -41,6 +43,8 @@ def numeric_pack(x,
 	x = x.as_tuple()
 	if x.exponent == 'F':
 		raise ValueError("numeric does not support infinite values")
+	if x.exponent in ('n', 'N'):
+		return pack(((0, 0, numeric_nan, 0), ()))
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +152,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] == numeric_nan:
+		return Decimal('NaN')
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From 010b6134c7362724afabc2a22cc93d35fa76aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 44/72] fix: truncated array elements were accepted, and
 elements of negative size unpacked forever

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..a6af8dd 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -451,7 +451,10 @@ def elements_unpack(data, offset,
 			yield None
 		else:
 			sizeof_el = long_unpack(lend)
-			yield data[offset:offset+sizeof_el]
+			el = data[offset:offset+sizeof_el]
+			if sizeof_el < 0 or len(el) != sizeof_el:
+				raise ValueError("insufficient data left in array")
+			yield el
 			offset += sizeof_el
 
 def array_unpack(data,
-- 
2.43.0


From 32ad8239e0e28a5ecef37f5242b917d31bcc5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 45/72] fix: records with a negative number of columns were
 accepted

---
 postgresql/types/io/lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index a6af8dd..acdb060 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -354,6 +354,8 @@ def record_unpack(data,
 	attributes.
 	"""
 	columns = long_unpack(data)
+	if columns < 0:
+		raise ValueError("invalid number of columns: %d" %(columns,))
 	offset = 4
 
 	for x in range(columns):
-- 
2.43.0


From 9afdae3c52ae92e1e1b21f60305e4f7b6aa25520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 46/72] fix: oidvector_pack and int2vector_pack raised
 TypeError

---
 postgresql/types/io/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index acdb060..1e4a16f 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -223,7 +223,7 @@ def oidvector_pack(seq, pack = struct.pack):
 
 	An oidvector is a type used by the PostgreSQL catalog.
 	"""
-	return pack("!%dL"%(len(seq),), *seq).ljust(128, '\x00')
+	return pack("!%dL"%(len(seq),), *seq).ljust(128, b'\x00')
 
 def oidvector_unpack(data, unpack = struct.unpack):
 	"""
@@ -239,7 +239,7 @@ def int2vector_pack(seq, pack = struct.pack):
 
 	An int2vector is a type used by the PostgreSQL catalog.
 	"""
-	return pack("!%dh"%(len(seq),), *seq).ljust(64, '\x00')
+	return pack("!%dh"%(len(seq),), *seq).ljust(64, b'\x00')
 
 def int2vector_unpack(data, unpack = struct.unpack):
 	"""
-- 
2.43.0


From b09d11f7f220bc72fb3ebdd585a3b3617037c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 47/72] fix: text of client encoding SHIFT_JIS_2004 was encoded
 as EUC

---
 postgresql/encodings/aliases.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/postgresql/encodings/aliases.py b/postgresql/encodings/aliases.py
index 7f86830..eba7516 100644
--- a/postgresql/encodings/aliases.py
+++ b/postgresql/encodings/aliases.py
@@ -21,7 +21,6 @@ postgres_to_python = {
 	'euc_jp' : 'eucjp',
 	'euc_cn' : 'euccn',
 	'euc_kr' : 'euckr',
-	'shift_jis_2004' : 'euc_jis_2004',
 	'sjis' : 'shift_jis',
 	'alt' : 'cp866', # IBM866
 	'abc' : 'cp1258',
-- 
2.43.0


From aa022a37a7e8c7b52654b9a5b7271fb8b4937a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 48/72] fix: addresses were sent as networks of no significant
 bits

---
 postgresql/types/io/lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 1e4a16f..da17703 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -283,7 +283,9 @@ def net_pack(triple,
 	Pack Postgres' inet/cidr data structure.
 	"""
 	family, mask, data = triple
-	return bytes((fmap[family], mask or 0, 0 if mask is None else 1, len(data))) + data
+	# without a mask, all the bits are significant
+	bits = len(data) * 8 if mask is None else mask
+	return bytes((fmap[family], bits, 0 if mask is None else 1, len(data))) + data
 
 def net_unpack(data,
 	# Map IP version number to PGSQL src/include/utils/inet.h.
-- 
2.43.0


From ec7c4d8d762bd0234886139d34a62cc3deaec793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 49/72] fix: addresses of the wrong length for their family
 were accepted

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index da17703..9caa22b 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -300,7 +300,10 @@ def net_unpack(data,
 	Unpack Postgres' inet/cidr data structure.
 	"""
 	family, mask, is_cidr, size = data[:4]
-	return (fmap[family], mask, data[4:])
+	version = fmap[family]
+	if len(data) - 4 != size or size != (4 if version == 4 else 16):
+		raise ValueError("address has incorrect length")
+	return (version, mask, data[4:])
 
 def macaddr_pack(data, bytes = bytes):
 	"""
-- 
2.43.0


From a774dfb2254a5d40dccd0007bfdabe6a4d61e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 50/72] fix: MAC addresses with overlong groups were accepted

---
 postgresql/types/io/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 9caa22b..3d08fc6 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -333,7 +333,7 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
+	if len(mac_parts) != 6 or max(map(len, mac_parts)) > 2:
 		raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
-- 
2.43.0


From 2e66df3fa9f3634253a1545c968a2fcb3dd80bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 51/72] fix: the error of a function call made the ready
 message a protocol violation

---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..9ca3e10 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -520,7 +520,8 @@ class Instruction(Transaction):
 					cmd = COMMANDS[offset]
 					paths = HOOK[cmd.type]
 					# On a new command, setup the new step.
-					current_step = 0
+					# A failed function call has no result.
+					current_step = 1 if cmd.type == element.Function.type else 0
 					continue
 				elif x[0] in AsynchronousMap:
 					if x not in self._asyncs:
-- 
2.43.0


From cf1bee69cf6ffe571dc04bef26e03aec527e7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 52/72] fix: equal notifications received together were
 reported once

---
 postgresql/protocol/xact3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 9ca3e10..56e68b8 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -475,8 +475,8 @@ class Instruction(Transaction):
 			# don't clear the asyncs. they have already been process by the hook.
 		else:
 			offset, current_step = self.last[2]
-			# it's a new set, so we can clear the asyncs record.
-			self._asyncs = []
+			# it's a new set, so we can clear the count of asyncs' messages.
+			self._asyncs = 0
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
 		processed = []
@@ -524,7 +524,7 @@ class Instruction(Transaction):
 					current_step = 1 if cmd.type == element.Function.type else 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					if count > self._asyncs:
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
@@ -533,7 +533,7 @@ class Instruction(Transaction):
 							# notify the user, but continue...
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
-						self._asyncs.append(x)
+						self._asyncs = count
 				else:
 					##
 					# Procotol violation.
-- 
2.43.0


From f857ff1a9e541c262888a850a7a75ed457ced578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 53/72] fix: messages processed for the third time were taken
 as new ones

---
 postgresql/protocol/xact3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 56e68b8..efdbbc6 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -471,12 +471,13 @@ class Instruction(Transaction):
 		# We processed it, but apparently something went wrong,
 		# so go ahead and reprocess it.
 		if messages is self.last[0]:
-			offset, current_step = self.last[1]
+			start = self.last[1]
 			# don't clear the asyncs. they have already been process by the hook.
 		else:
-			offset, current_step = self.last[2]
+			start = self.last[2]
 			# it's a new set, so we can clear the count of asyncs' messages.
 			self._asyncs = 0
+		offset, current_step = start
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
 		processed = []
@@ -586,7 +587,7 @@ class Instruction(Transaction):
 			self.completed.append((id(messages), processed))
 
 		# Store the state for the next transition.
-		self.last = (messages, self.last[2], (offset, current_step),)
+		self.last = (messages, start, (offset, current_step),)
 
 		if offset == NCOMMANDS:
 			# transaction complete.
-- 
2.43.0


From 34a80c351a4e002ae59103a2a653bcb7a8811429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 54/72] fix: a query failing right after rows or COPY began was
 still taken to be in that state

---
 postgresql/protocol/xact3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index efdbbc6..0cce347 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -592,7 +592,7 @@ class Instruction(Transaction):
 		if offset == NCOMMANDS:
 			# transaction complete.
 			self.state = Complete
-		elif cmd.type in SWITCH_TYPES and processed:
+		elif cmd.type in SWITCH_TYPES and processed and current_step:
 			# Check the context to identify if the state should be
 			# switched to an optimized processor.
 			last = processed[-1]
-- 
2.43.0


From ecc2620689ce2296c346155d8e8a8f99488b2942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 55/72] fix: comparing CopyDone messages raised AttributeError

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 6bbb8ab..2bbecc1 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -982,6 +982,6 @@ class CopyFail(StringMessage):
 
 class CopyDone(EmptyMessage):
 	type = message_types[b'c'[0]]
-	__slots__ = ('data',)
+	__slots__ = ()
 CopyDoneMessage = Message.__new__(CopyDone)
 CopyDone.SingleInstance = CopyDoneMessage
-- 
2.43.0


From dbf8f6c987c576a9bea0154276bc36d2141d73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 56/72] fix: asynchronous messages after rows were handed over
 again when the batch was given again

---
 postgresql/protocol/xact3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 0cce347..53a6ae9 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -644,8 +644,9 @@ class Instruction(Transaction):
 			consume = consume_tuple_messages,
 		):
 			tuplemessages = consume(messages)
-			if not tuplemessages:
-				# bad handler switch?
+			if len(tuplemessages) != len(messages):
+				# Not only tuples. Process the messages as they would be
+				# if they were given again.
 				self.state = (Receiving, self.standard_put)
 				return self.standard_put(messages)
 
-- 
2.43.0


From 5ba38d64fe9e74bbb4978ebf250c74c7dcea1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 57/72] fix: any message after the password was taken as the
 answer to it

---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 53a6ae9..9351a19 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -215,6 +215,17 @@ class Negotiation(Transaction):
 				return
 			x = (yield (element.Password(pw),))
 
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
 				self.fatal = True
-- 
2.43.0


From 30cd3c9132fd3fe55a2f82adb5c4aba625da8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 58/72] fix: the messages received by a negotiation could not
 be asked for

---
 postgresql/protocol/xact3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 9351a19..5fc6a9d 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -115,7 +115,7 @@ class Negotiation(Transaction):
 		return s
 
 	def messages_received(self):
-		return self.processed
+		return chain.from_iterable(self.received)
 
 	def sent(self):
 		"""
-- 
2.43.0


From 193f35022e8a5acb00f2f97b03c20a89d715e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 59/72] fix: a transaction went on after its connection failed
 when taking single steps

---
 postgresql/protocol/client3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..987bfad 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -414,15 +414,15 @@ class Connection(object):
 		try:
 			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 			else:
 				raise RuntimeError(
 					"unexpected PQ transaction state: " + repr(dir)
-- 
2.43.0


From fcf18e40b2c08cd393f3ada92c0dbf7d4d87ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 60/72] fix: socket errors without a strerror were not taken as
 the end of the connection

---
 postgresql/python/socket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/python/socket.py b/postgresql/python/socket.py
index 6587d4c..c1d78b6 100644
--- a/postgresql/python/socket.py
+++ b/postgresql/python/socket.py
@@ -46,7 +46,11 @@ class SocketFactory(object):
 		"""
 		if typ.try_again(err):
 			return None
-		return getattr(err, 'strerror', '<strerror not present>')
+		msg = getattr(err, 'strerror', '<strerror not present>')
+		if msg is None and not isinstance(err, typ.timeout_exception):
+			# Not all socket errors have an errno and a strerror.
+			msg = str(err) or type(err).__name__
+		return msg
 
 	@property
 	def _security_context(self):
-- 
2.43.0


From f34c7a19914efdd01c8c0dc3025b79f52493ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 61/72] fix: a connection lost while negotiating SSL stopped
 the remaining attempts

---
 postgresql/protocol/client3.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 987bfad..3f8bcff 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -160,7 +160,24 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except (
+				self.socket_factory.timeout_exception,
+				self.socket_factory.fatal_exception
+			) as err:
+				# The connection failed during the negotiation.
+				self.xact.state = xact.Complete
+				self.xact.fatal = True
+				self.xact.exception = err
+				errmsg = self.socket_factory.fatal_exception_message(err)
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					# ConnectionRejectionError
+					(b'C', '08004'),
+					(b'M', errmsg or "SSL negotiation failed"),
+				))
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From 354d82f3e8da6bc0b83b1adceddc24a431ca0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 62/72] fix: relative seeks of a cursor reading backwards were
 taken as absolute ones

---
 postgresql/driver/pq3.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1648093..2b40fe0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1169,21 +1169,24 @@ class Cursor(Output, pg_api.Cursor):
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
 				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
+			elif self.direction is False:
+				rwhence = 'BACKWARD' if rwhence == 'FORWARD' else 'FORWARD'
 		else:
-			if offset < 0 and rwhence == 'BACKWARD':
-				offset = -offset
-				rwhence = 'FORWARD'
-
 			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
+				if rwhence == 'RELATIVE':
+					offset = -offset
+				elif rwhence == 'FORWARD':
 					rwhence = 'BACKWARD'
+				elif rwhence == 'BACKWARD':
+					rwhence = 'FORWARD'
+				elif rwhence == 'ABSOLUTE':
+					rwhence = 'FROM_END'
 				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+					rwhence = 'ABSOLUTE'
+
+			if offset < 0 and rwhence == 'BACKWARD':
+				offset = -offset
+				rwhence = 'FORWARD'
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From d4c1b35327091f8b7fcfda7c19a8237c4d7ed836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 63/72] fix: rows of a failed chunk were taken as the end of
 the result

---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2b40fe0..ba70f73 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1013,6 +1013,9 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		if x.fatal is not None:
+			# It failed, possibly while it was completed for another operation.
+			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# get all the element.Tuple messages
 		chunk = [
-- 
2.43.0


From d9b8bf4ec48b5aea54c6a2b3d9a67e99851085c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 64/72] fix: chunks of a statement known by its identifier
 could not be read outside a block

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ba70f73..7c298b5 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -973,6 +973,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From f5aac5bd3d4969575aadb1c82c951a6b7db8329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 65/72] fix: notifications received by a connection before it
 failed were lost

---
 postgresql/notifyman.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..f25b9cb 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -71,6 +71,9 @@ class NotificationManager(object):
 
 		# Connections already marked as "bad" should not be checked.
 		check = self.connections - self.garbage
+		if any(db.closed for db in check):
+			# What they received before they failed is not lost.
+			self._pull_from_connections()
 		for db in check:
 			if db.closed:
 				self.connections.remove(db)
@@ -90,6 +93,9 @@ class NotificationManager(object):
 				# failed to collect notifies; put in exception list.
 				# It is very unlikely that this is *not* a FATAL error.
 				x.append(db)
+		if x:
+			# What they received before they failed is not lost.
+			self._pull_from_connections()
 		self.trash(x)
 
 	def trash(self, connections):
-- 
2.43.0


From 11e8ae3dd9707327c929ebe775b7a35c2f1d6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:23 +0000
Subject: [PATCH 66/72] fix: an advisory lock acquired several times was
 released by the first release()

---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From 5a6a5feaa480f56939fcef4f90177f2f6f0688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 67/72] fix: an interrupted COPY was taken as complete when its
 producer was on a message boundary

---
 postgresql/copyman.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..90db2cc 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -707,6 +707,13 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# The service call below may see the end of the realigned data;
+		# that is not the end of the COPY.
+		finished = self._seen_stop_iteration
+		if typ is None and not finished:
+			# The iterator was not ran until exhaustion; abort.
+			typ = CopyFail
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -740,7 +747,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if typ or exit_faults or profail or not finished:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0


From 5bcc2ca1ca71548f590ae3aaaf3d5f21dd72bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 68/72] fix: asynchronous messages received while garbage was
 taken out were lost

---
 postgresql/driver/pq3.py       | 7 +++++++
 postgresql/protocol/client3.py | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 7c298b5..73fc536 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2520,6 +2520,13 @@ class Connection(pg_api.Connection):
 			# The startup/negotiation xact completed.
 			if pq.xact is None:
 				self.pq = pq
+				# Weak: the protocol connection must not keep its user alive.
+				receive_async = weakref.WeakMethod(self._receive_async)
+				def asynchook(msg, ref = receive_async):
+					receive = ref()
+					if receive is not None:
+						receive(msg)
+				pq.asynchook = asynchook
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 3f8bcff..1c09a3b 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -73,6 +73,10 @@ class Connection(object):
 	connection must check for failures. This is done to encourage users
 	to use their own Exception hierarchy.
 	"""
+	# Receives the asynchronous messages that were read while processing
+	# a transaction that the connection created on its own behalf.
+	asynchook = staticmethod(xact.return_arg)
+
 	_tracer = None
 	def tracer():
 		def fget(self):
@@ -99,7 +103,7 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
 
@@ -393,7 +397,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = self.asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
-- 
2.43.0


From a4ac586c61571d7ce80055f5931a2e9c0bb2b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 69/72] fix: a COPY producer took what follows the COPY, and
 failed on a partial message

---
 postgresql/copyman.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 90db2cc..175f942 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -489,19 +489,19 @@ class StatementProducer(ProtocolProducer):
 			if not current:
 				# End of COPY.
 				raise
+		if self._chunks._xact.state is xactComplete:
+			# It's over; whatever the connection holds follows the COPY.
+			# Don't take it, and don't hand off to recv_view.
+			r = self.track_state(memoryview(cat_messages(current)))
+			self.nextchunk = self.confiscate
+			return r
 		pq = self._chunks.database.pq
 		buffer = cat_messages(current) + pq.message_buffer.getvalue() + (pq.read_data or b'')
 		view = memoryview(buffer)
 		pq.read_data = None
 		pq.message_buffer.truncate()
 		# Reconstruct the buffer from the already parsed lines.
-		r = self.track_state(view)
-		# XXX: Better way? Probably shouldn't do the full track_state if complete..
-		if self._chunks._xact.state is xactComplete:
-			# It's over, don't hand off to recv_view.
-			self.nextchunk = self.confiscate
-			assert self._state.final_view is None
-		return r
+		return self.track_state(view)
 
 	def recover(self, view):
 		# Method used when non-COPY data is found.
-- 
2.43.0


From f5ffe977462d8786e061e1e5f215e4ecd62cc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 70/72] fix: column() failed on NULL, and with NameError on
 values it could not unpack

---
 postgresql/driver/pq3.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 73fc536..ec3710f 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -748,22 +748,14 @@ class Output(object):
 		return x
 
 	# Process the element.Tuple message in x for column()
-	def _process_tuple_chunk_Column(self, x, range = range):
-		unpack = self._output_io[0]
-		# get the raw data for the first column
-		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+	def _process_tuple_chunk_Column(self, x, proc = process_chunk):
+		# only the first column is processed
+		return [
+			y[0] for y in proc(
+				self._output_io[:1], [(y[0],) for y in x],
+				self._raise_column_tuple_error
+			)
+		]
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
-- 
2.43.0


From 72cab8f31d272c799c949e9b36e970101f219a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:13 +0000
Subject: [PATCH 71/72] fix: the failure of first() to unpack a single column
 was not located

---
 postgresql/driver/pq3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ec3710f..c538903 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1699,10 +1699,10 @@ class Statement(pg_api.Statement):
 				)
 			else:
 				# Single column output.
-				if xt[0] is None:
-					return None
-				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				return process_tuple(
+					self._output_io, xt,
+					self._raise_column_tuple_error
+				)[0]
 		else:
 			##
 			# It doesn't return rows, so return a count.
-- 
2.43.0


From 50bb967caa7891a8c45e343eef04dcb54ce4a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:34 +0000
Subject: [PATCH 72/72] fix: notices and errors were serialised without their
 terminator

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 2bbecc1..20acebf 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -351,8 +351,8 @@ class Notice(Message, dict):
 	__repr__ = dict_message_repr
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
-- 
2.43.0

