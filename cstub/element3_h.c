#include EXTRACTED
unsigned char nondet_uchar(void);
int nondet_int(void);
#ifndef N
#define N 3            /* fields */
#endif
#ifndef M
#define M 3            /* bytes of a field */
#endif
static PyObject *stub_call(PyObject *f, PyObject *args) { return NULL; }
/* an element: serialize() and type */
static PyObject *el_ser, *el_type;
static PyObject *stub_method(PyObject *o, PyObject *name) { if (el_ser == NULL) { stub_err = PyExc_TypeError; return NULL; } Py_INCREF(el_ser); return el_ser; }
static PyObject *stub_attr(PyObject *o, PyObject *name) { if (el_type == NULL) { stub_err = PyExc_TypeError; return NULL; } Py_INCREF(el_type); return el_type; }

static void h_init(void) { local_ntohl = swap_int4; local_ntohs = swap_short; }

static PyObject *any_data(int max)
{
	PyObject *b = stub_new(&PyBytes_Type);
	int i, n = nondet_int();
	__CPROVER_assume(0 <= n && n <= max);
	/* exactly n bytes, so that reading beyond is seen */
	b->ob_size = n;
	b->data = malloc(n);
	__CPROVER_assume(b->data != NULL);
	for (i = 0; i < max; ++i)
		if (i < n) b->data[i] = nondet_uchar();
	return b;
}
static PyObject *any_field(void)
{
	int k = nondet_int();
	if (k == 0) return Py_None;
	return any_data(M);
}
static PyObject *any_row(void)
{
	int i, n = nondet_int();
	PyObject *t;
	__CPROVER_assume(0 <= n && n <= N);
	t = PyTuple_New(n);
	for (i = 0; i < N; ++i)
		if (i < n) t->items[i] = any_field();
	return t;
}
/* the specification: the bytes of a row */
static unsigned char spec[4096];
static int spec_n;
static void spec_put(unsigned long x, int w)
{
	int i;
	for (i = 0; i < w; ++i)
		spec[spec_n + i] = (unsigned char) (x >> (8 * (w - 1 - i)));
	spec_n += w;
}
static void spec_bytes(PyObject *b)
{
	int i;
	for (i = 0; i < M; ++i)
		if (i < b->ob_size) spec[spec_n + i] = b->data[i];
	spec_n += b->ob_size;
}
static void spec_fields(PyObject *t)
{
	int i;
	for (i = 0; i < N; ++i)
		if (i < t->ob_size)
		{
			if (t->items[i] == Py_None)
				spec_put(0xffffffffUL, 4);
			else
			{
				spec_put(t->items[i]->ob_size, 4);
				spec_bytes(t->items[i]);
			}
		}
}
static int is_spec(PyObject *b)
{
	int i, ok = b != NULL && b->ob_type == &PyBytes_Type && b->ob_size == spec_n;
	if (!ok) return 0;
	for (i = 0; i < (int) sizeof(spec); ++i)
	{
		if (i >= spec_n) break;
		ok = ok && (unsigned char) b->data[i] == spec[i];
	}
	return ok;
}
void h_pack(void)
{
	PyObject *t, *b;
	h_init();
	t = any_row();
	spec_n = 0;
	spec_fields(t);
	b = pack_tuple_data(NULL, t);
	__CPROVER_assert(is_spec(b), "a row is packed to its sizes and fields");
}
void h_pack_bad(void)
{
	PyObject *t, *b, *x;
	int i;
	h_init();
	t = any_row();
	i = nondet_int();
	__CPROVER_assume(0 <= i && i < t->ob_size);
	t->items[i] = stub_new(&Other_Type);
	stub_err = NULL;
	b = pack_tuple_data(NULL, t);
	__CPROVER_assert(b == NULL && stub_err == PyExc_TypeError, "only bytes and NULL are packed");
	stub_err = NULL;
	x = stub_new(&PyList_Type);
	b = pack_tuple_data(NULL, x);
	__CPROVER_assert(b == NULL && stub_err == PyExc_TypeError, "only tuples are packed");
}
void h_parse(void)
{
	PyObject *b, *t, *r;
	int i, j, ok = 1;
	h_init();
	t = any_row();
	spec_n = 0;
	spec_put(t->ob_size, 2);
	spec_fields(t);
	b = stub_new(&PyBytes_Type);
	b->ob_size = spec_n;
	b->data = malloc(spec_n);
	__CPROVER_assume(b->data != NULL);
	for (i = 0; i < 2 + N * (4 + M); ++i)
		if (i < spec_n) b->data[i] = spec[i];
	r = parse_tuple_message(NULL, b);
	__CPROVER_assert(r != NULL && r->ob_size == t->ob_size, "a packed row is read back");
	for (i = 0; i < N; ++i)
		if (i < t->ob_size)
		{
			PyObject *x = t->items[i], *y = r->items[i];
			if (x == Py_None || y == Py_None)
				ok = ok && x == y;
			else
			{
				ok = ok && x->ob_size == y->ob_size;
				for (j = 0; ok && j < M; ++j)
					if (j < x->ob_size) ok = ok && x->data[j] == y->data[j];
			}
		}
	__CPROVER_assert(ok, "the fields read are those packed");
}
#ifndef RAW
#define RAW 12
#endif
void h_parse_any(void)
{
	PyObject *b, *r;
	int i;
	h_init();
	b = any_data(RAW);
	if (b->ob_size >= 2)
	{
		/* larger counts than fields fit only lengthen the loop */
		__CPROVER_assume(b->data[0] == 0 && (unsigned char) b->data[1] <= N);
	}
	stub_err = NULL;
	r = parse_tuple_message(NULL, b);
	if (r == NULL)
		__CPROVER_assert(stub_err == PyExc_ValueError, "a malformed row is refused with ValueError");
	else
	{
		spec_n = 0;
		spec_put(r->ob_size, 2);
		for (i = 0; i < N; ++i)
			if (i < r->ob_size)
			{
				int j;
				if (r->items[i] == Py_None)
					spec_put(0xffffffffUL, 4);
				else
				{
					spec_put(r->items[i]->ob_size, 4);
					for (j = 0; j < RAW; ++j)
						if (j < r->items[i]->ob_size) spec[spec_n + j] = r->items[i]->data[j];
					spec_n += r->items[i]->ob_size;
				}
			}
		__CPROVER_assert(is_spec(b), "an accepted row is exactly the encoding of its fields");
	}
}
static PyObject *any_pair(PyObject **row)
{
	PyObject *p = PyTuple_New(2), *t = any_data(1);
	__CPROVER_assume(t->ob_size == 1);
	p->items[0] = t;
	p->items[1] = any_data(6);
	if (p->items[1]->ob_size >= 2)
		__CPROVER_assume(p->items[1]->data[0] == 0 && (unsigned char) p->items[1]->data[1] <= 1);
	return p;
}
void h_consume(void)
{
	PyObject *l, *r;
	int i, n, rows = 0;
	h_init();
	n = nondet_int();
	__CPROVER_assume(0 <= n && n <= 2);
	l = PyTuple_New(n);
	for (i = 0; i < 2; ++i)
		if (i < n) l->items[i] = any_pair(NULL);
	for (i = 0; i < 2; ++i)
		if (i < n && rows == i && l->items[i]->items[0]->data[0] == 'D') rows++;
	stub_err = NULL;
	r = consume_tuple_messages(NULL, l);
	if (r == NULL)
		__CPROVER_assert(stub_err == PyExc_ValueError && rows > 0, "refused only for a malformed row");
	else
	{
		__CPROVER_assert(r->ob_size == rows, "the rows before the first other message");
		for (i = 0; i < 2; ++i)
			if (i < rows)
				__CPROVER_assert(r->items[i] != NULL && r->items[i]->ob_type == &PyTuple_Type &&
					r->items[i]->ob_size == (unsigned char) l->items[i]->items[1]->data[1], "each row is read");
	}
}
/* one item of cat_messages: copy data, a row or an element */
static PyObject *any_item(void)
{
	int i, k = nondet_int(), at;
	PyObject *o;
	if (k == 0)
	{
		o = any_data(M);
		spec[spec_n++] = 'd';
		spec_put(o->ob_size + 4, 4);
		spec_bytes(o);
		return o;
	}
	if (k == 1)
	{
		o = any_row();
		spec[spec_n++] = 'D';
		at = spec_n;
		spec_n += 4;
		spec_put(o->ob_size, 2);
		spec_fields(o);
		i = spec_n;
		spec_n = at;
		spec_put(i - at, 4);
		spec_n = i;
		return o;
	}
	o = stub_new(&Other_Type);
	for (i = 0; i < 1; ++i)
		if (el_type->ob_size == 1) spec[spec_n++] = el_type->data[0];
	spec_put(el_ser->ob_size + 4, 4);
	spec_bytes(el_ser);
	return o;
}
#ifndef ITEMS
#define ITEMS 2
#endif
void h_cat(void)
{
	PyObject *l, *b;
	int i, n;
	h_init();
	el_ser = any_data(M); el_type = any_data(1);
	n = nondet_int();
	__CPROVER_assume(0 <= n && n <= ITEMS);
	l = PyList_New(n);
	spec_n = 0;
	for (i = 0; i < ITEMS; ++i)
		if (i < n) l->items[i] = any_item();
	b = cat_messages(NULL, l);
	__CPROVER_assert(is_spec(b), "the concatenation of the frames");
}
