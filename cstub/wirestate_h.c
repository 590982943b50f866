#include EXTRACTED
unsigned char nondet_uchar(void);
int nondet_int(void);
unsigned int nondet_uint(void);
static PyObject *stub_call(PyObject *f, PyObject *args) { return NULL; }
static PyObject *stub_method(PyObject *o, PyObject *name) { return NULL; }
static PyObject *stub_attr(PyObject *o, PyObject *name) { return NULL; }
#ifndef K
#define K 10
#endif
/* the specification: the tracker read byte by byte */
static int hdr, stop_at, err;
static unsigned char frag[4];
static unsigned long rem, count;
static void spec_byte(unsigned char b, int i)
{
	if (err || stop_at >= 0) return;
	if (hdr >= 0)
	{
		frag[hdr++] = b;
		if (hdr == 4)
		{
			unsigned long l = ((unsigned long) frag[0] << 24) | ((unsigned long) frag[1] << 16) | ((unsigned long) frag[2] << 8) | frag[3];
			hdr = -1;
			/* an int32 on the wire; the largest values are not specified */
			__CPROVER_assume(l < 0x80000000UL);
			if (l < 4) { err = 1; return; }
			rem = l - 4;
			if (rem == 0) count++;
		}
	}
	else if (rem > 0)
	{
		rem--;
		if (rem == 0) count++;
	}
	else if (b != 'd')
		stop_at = i;
	else
		hdr = 0;
}
void h_update(void)
{
	struct wirestate ws;
	PyObject *view = stub_new(&PyBytes_Type), *r, *x;
	int i, n = K, c = nondet_int();
	local_ntohl = swap_int4;
	view->ob_size = n;
	view->data = malloc(n);
	__CPROVER_assume(view->data != NULL);
	for (i = 0; i < K; ++i)
		if (i < n) view->data[i] = nondet_uchar();
	__CPROVER_assume(-1 <= c && c <= 3);
	ws.final_view = NULL;
	ws.continuation = c;
	for (i = 0; i < 4; ++i)
		ws.size_fragment[i] = nondet_uchar();
	ws.remaining_bytes = c == -1 ? nondet_uint() : 0;
	hdr = c; stop_at = -1; err = 0; count = 0; rem = ws.remaining_bytes;
	for (i = 0; i < 4; ++i)
		frag[i] = ws.size_fragment[i];
	for (i = 0; i < K; ++i)
		if (i < n) spec_byte(view->data[i], i);
	stub_err = NULL;
	r = ws_update((PyObject *) &ws, view);
	if (err)
	{
		__CPROVER_assert(r == NULL && stub_err == PyExc_ValueError, "a size below four is refused");
		return;
	}
	__CPROVER_assert(r != NULL && r->ival == count, "each complete message is counted once");
	x = ws_remaining_bytes((PyObject *) &ws, NULL);
	__CPROVER_assert(x->ival == (hdr >= 0 ? -1 : (__int128) rem), "exactly the missing bytes are reported");
	x = ws_size_fragment((PyObject *) &ws, NULL);
	__CPROVER_assert(x->ob_size == (hdr >= 0 ? hdr : 0), "the header fragment");
	for (i = 0; i < 3; ++i)
		if (i < x->ob_size)
			__CPROVER_assert((unsigned char) x->data[i] == frag[i], "the header fragment's bytes");
	x = ws_final_view((PyObject *) &ws, NULL);
	if (stop_at < 0)
		__CPROVER_assert(x == Py_None, "still copying");
	else
	{
		__CPROVER_assert(x != Py_None && x->ob_size == n - stop_at, "stopped at the first other message");
		for (i = 0; i < K; ++i)
			if (i < n - stop_at)
				__CPROVER_assert(x->data[i] == view->data[stop_at + i], "without consuming it");
		stub_err = NULL;
		r = ws_update((PyObject *) &ws, view);
		__CPROVER_assert(r == NULL && stub_err == PyExc_RuntimeError, "unusable afterwards");
	}
}
