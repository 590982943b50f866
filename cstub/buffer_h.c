#include EXTRACTED
static PyObject *stub_call(PyObject *f, PyObject *args) { return NULL; }
static PyObject *stub_method(PyObject *o, PyObject *name) { return NULL; }
static PyObject *stub_attr(PyObject *o, PyObject *name) { return NULL; }
unsigned char nondet_uchar(void);
int nondet_int(void);

#ifndef NCHUNK
#define NCHUNK 3
#endif
#ifndef CHUNK
#define CHUNK 4
#endif
#define TOTAL (NCHUNK * CHUNK)

static unsigned char flat[TOTAL + 8];
static int total;
static PyObject types[256];
static PyObject *type_items[256];
static PyObject type_table;
static struct p_buffer pb;

static void h_init_types(void)
{
	int i;
	for (i = 0; i < 256; ++i)
		type_items[i] = &types[i];
	type_table.ob_type = &PyTuple_Type;
	type_table.ob_refcnt = 1;
	type_table.ob_size = 256;
	type_table.items = type_items;
	message_types = &type_table;
	local_ntohl = swap_int4;
}

/* any well-formed buffer of at most NCHUNK chunks of at most CHUNK bytes */
static void h_any_buffer(void)
{
	int i, j, n, k = nondet_int();
	struct p_list *prev = NULL;
	__CPROVER_assume(0 <= k && k <= NCHUNK);
	pb.position.list = NULL; pb.position.offset = 0; pb.last = NULL;
	total = 0;
	for (i = 0; i < NCHUNK; ++i)
	{
		struct p_list *pl;
		PyObject *b;
		if (i >= k)
			break;
		n = nondet_int();
		__CPROVER_assume(1 <= n && n <= CHUNK);
		b = stub_new(&PyBytes_Type);
		b->data = malloc(CHUNK + 1);
		__CPROVER_assume(b->data != NULL);
		b->ob_size = n;
		pl = malloc(sizeof(struct p_list));
		__CPROVER_assume(pl != NULL);
		pl->data = b; pl->next = NULL;
		if (prev == NULL)
		{
			int off = nondet_int();
			__CPROVER_assume(0 <= off && off < n);
			pb.position.list = pl; pb.position.offset = off;
			for (j = 0; j < CHUNK; ++j)
				if (j < n)
				{
					unsigned char c = nondet_uchar();
					b->data[j] = (char) c;
					if (j >= off)
						flat[total++] = c;
				}
		}
		else
		{
			prev->next = pl;
			for (j = 0; j < CHUNK; ++j)
				if (j < n)
				{
					unsigned char c = nondet_uchar();
					b->data[j] = (char) c;
					flat[total++] = c;
				}
		}
		prev = pl;
		pb.last = pl;
	}
	stub_err = NULL;
}

/* the buffer is well formed and holds flat[from:total] */
static void h_holds(int from)
{
	struct p_list *pl = pb.position.list, *last = NULL;
	int i, at = from;
	unsigned int off = pb.position.offset;
	__CPROVER_assert((pl == NULL) == (pb.last == NULL), "the end of the list is known");
	if (pl == NULL)
		__CPROVER_assert(off == 0 && from == total, "nothing is lost");
	for (i = 0; i < NCHUNK + 1; ++i)
	{
		int j;
		if (pl == NULL)
			break;
		__CPROVER_assert(off < pl->data->ob_size, "the position is inside a chunk");
		for (j = 0; j < CHUNK; ++j)
			if (off + j < pl->data->ob_size)
			{
				__CPROVER_assert(at < total, "nothing is invented");
				__CPROVER_assert((unsigned char) pl->data->data[off + j] == flat[at], "the bytes not yet delivered are kept in order");
				++at;
			}
		off = 0;
		last = pl;
		pl = pl->next;
	}
	__CPROVER_assert(pl == NULL && at == total, "nothing is lost");
	__CPROVER_assert(last == pb.last, "the end of the list is known");
}

/* -2: bad length, -1: incomplete, otherwise the size of the body */
static long h_first(int from)
{
	unsigned long l;
	if (total - from < 5)
		return -1;
	l = ((unsigned long) flat[from + 1] << 24) | (flat[from + 2] << 16) | (flat[from + 3] << 8) | flat[from + 4];
	if (l < 4)
		return -2;
	if ((unsigned long) (total - from) < l + 1)
		return -1;
	return l - 4;
}

static void h_is_message(PyObject *t, int from, long size)
{
	int i;
	__CPROVER_assert(t->ob_type == &PyTuple_Type && t->ob_size == 2, "a pair");
	__CPROVER_assert(t->items[0] == &types[flat[from]], "the type of the message");
	__CPROVER_assert(t->items[1]->ob_type == &PyBytes_Type && t->items[1]->ob_size == size, "the size of the payload");
	for (i = 0; i < TOTAL; ++i)
		if (i < size)
			__CPROVER_assert((unsigned char) t->items[1]->data[i] == flat[from + 5 + i], "the payload");
}

void h_next_message(void)
{
	PyObject *r;
	long s;
	h_init_types();
	h_any_buffer();
	s = h_first(0);
	r = p_next_message((PyObject *) &pb);
	if (s == -2)
		__CPROVER_assert(r == NULL && stub_err == PyExc_ValueError, "a size below four is refused");
	else if (s == -1)
		__CPROVER_assert(r == Py_None && stub_err == NULL, "an incomplete message is withheld");
	else
	{
		__CPROVER_assert(r != NULL && r != Py_None && stub_err == NULL, "a complete message is delivered");
		if (r != NULL && r != Py_None)
			h_is_message(r, 0, s);
	}
	h_holds(s < 0 ? 0 : s + 5);
}

void h_has_message(void)
{
	PyObject *r;
	long s;
	h_init_types();
	h_any_buffer();
	s = h_first(0);
	r = p_has_message((PyObject *) &pb);
	if (s == -2)
		__CPROVER_assert(r == NULL && stub_err == PyExc_ValueError, "a size below four is refused");
	else
		__CPROVER_assert(r == (s < 0 ? Py_False : Py_True) && stub_err == NULL, "a message is announced when complete");
	h_holds(0);
}

void h_length(void)
{
	Py_ssize_t r;
	long s = 0;
	int i, n = 0, at = 0;
	h_init_types();
	h_any_buffer();
	for (i = 0; i < TOTAL / 5 + 1; ++i)
	{
		s = h_first(at);
		if (s < 0)
			break;
		at += s + 5;
		++n;
	}
	r = p_length((PyObject *) &pb);
	if (s == -2)
		__CPROVER_assert(r == -1 && stub_err == PyExc_ValueError, "a size below four is refused");
	else
		__CPROVER_assert(r == n && stub_err == NULL, "the number of complete messages");
	h_holds(0);
}

void h_read(void)
{
	PyObject *r, args, *item;
	long s = 0, sizes[TOTAL / 5 + 1];
	int i, n = 0, at = 0, want = nondet_int(), bad = 0;
	h_init_types();
	h_any_buffer();
	__CPROVER_assume(want >= -1);
	args.ob_type = &PyTuple_Type; args.ob_refcnt = 1; args.ob_size = want == -1 ? 0 : 1;
	item = stub_int(want);
	args.items = &item;
	for (i = 0; i < TOTAL / 5 + 1; ++i)
	{
		s = h_first(at);
		if (s < 0)
			break;
		at += s + 5;
		sizes[n] = s;
		++n;
	}
	r = p_read((PyObject *) &pb, &args);
	if (s == -2)
	{
		__CPROVER_assert(r == NULL && stub_err == PyExc_ValueError, "a size below four is refused");
		h_holds(0);
		return;
	}
	if (want >= 0 && want < n)
		n = want;
	__CPROVER_assert(r != NULL && stub_err == NULL && r->ob_type == &PyTuple_Type && r->ob_size == n, "the number of messages");
	at = 0;
	if (r != NULL)
		for (i = 0; i < TOTAL / 5 + 1; ++i)
			if (i < n)
			{
				__CPROVER_assert(r->items[i] != NULL, "every message");
				if (r->items[i] != NULL)
					h_is_message(r->items[i], at, sizes[i]);
				at += sizes[i] + 5;
			}
	h_holds(at);
}

void h_write(void)
{
	PyObject b;
	char data[CHUNK + 1];
	int n = nondet_int(), j, old;
	__CPROVER_assume(0 <= n && n <= CHUNK);
	h_init_types();
	h_any_buffer();
	b.ob_type = &PyBytes_Type; b.ob_refcnt = 1; b.ob_size = n; b.data = data;
	__CPROVER_assume(total + n <= TOTAL);
	for (j = 0; j < CHUNK; ++j)
		if (j < n)
		{
			unsigned char c = nondet_uchar();
			data[j] = c;
			flat[total + j] = c;
		}
	old = total;
	total = total + n;
	__CPROVER_assert(p_write((PyObject *) &pb, &b) == Py_None && stub_err == NULL, "bytes are accepted");
	h_holds(0);
	if (n > 0)
		__CPROVER_assert(b.ob_refcnt == 2, "the buffer holds its own reference");
	b.ob_type = &Other_Type;
	__CPROVER_assert(p_write((PyObject *) &pb, &b) == NULL && stub_err == PyExc_TypeError, "anything else is refused");
	h_holds(0);
}

void h_getvalue(void)
{
	PyObject *r;
	int i;
	h_init_types();
	h_any_buffer();
	r = p_getvalue((PyObject *) &pb);
	__CPROVER_assert(r != NULL && r->ob_type == &PyBytes_Type && r->ob_size == total, "all undelivered bytes");
	if (r != NULL && r->ob_size == total)
		for (i = 0; i < TOTAL; ++i)
			if (i < total)
				__CPROVER_assert((unsigned char) r->data[i] == flat[i], "the undelivered bytes in order");
	h_holds(0);
	p_truncate((PyObject *) &pb);
	total = 0;
	h_holds(0);
}
