#include EXTRACTED
static PyObject *stub_call(PyObject *f, PyObject *args) { return NULL; }
static PyObject *stub_method(PyObject *o, PyObject *name) { return NULL; }
static PyObject *stub_attr(PyObject *o, PyObject *name) { return NULL; }
__int128 nondet_128(void);
long nondet_long(void);
unsigned char nondet_uchar(void);
_Bool nondet_bool(void);

/* any argument: an int of any size, or another object */
static PyObject *any_int(void)
{
	PyObject *o = stub_new(&PyLong_Type);
	o->ival = nondet_128();
	__CPROVER_assume(o->ival > -((__int128) 1 << 100) && o->ival < ((__int128) 1 << 100));
	return o;
}

#define PACK(NAME, FUNC, W, SIGNED, SWAP) \
void NAME(void) \
{ \
	PyObject *a = any_int(), *r; \
	__int128 lo = SIGNED ? -((__int128) 1 << (8 * W - 1)) : 0; \
	__int128 hi = SIGNED ? ((__int128) 1 << (8 * W - 1)) - 1 : ((__int128) 1 << (8 * W)) - 1; \
	stub_err = NULL; \
	r = FUNC(NULL, a); \
	if (a->ival < lo || a->ival > hi) \
		__CPROVER_assert(r == NULL && stub_err != NULL, "a value outside the range is refused"); \
	else \
	{ \
		int i; \
		__CPROVER_assert(r != NULL && stub_err == NULL, "a value of the range is packed"); \
		if (r != NULL) \
		{ \
			__CPROVER_assert(r->ob_size == W, "width"); \
			for (i = 0; i < W; ++i) \
				__CPROVER_assert(((unsigned char *) r->data)[SWAP ? i : W - 1 - i] == (unsigned char) ((unsigned __int128) a->ival >> (8 * (W - 1 - i))), "the bytes of the value"); \
		} \
	} \
}
#define UNPACK(NAME, FUNC, W, SIGNED, SWAP) \
void NAME(void) \
{ \
	PyObject *a = stub_new(&PyBytes_Type), *r; \
	long n = nondet_long(); \
	int i; \
	__CPROVER_assume(n >= 0 && n < 100000); \
	a->ob_size = n; \
	a->data = malloc(n); \
	__CPROVER_assume(a->data != NULL); \
	stub_err = NULL; \
	r = FUNC(NULL, a); \
	if (n < W) \
		__CPROVER_assert(r == NULL && stub_err != NULL, "short data is refused"); \
	else \
	{ \
		__int128 v = 0; \
		for (i = 0; i < W; ++i) \
			v = v * 256 + ((unsigned char *) a->data)[SWAP ? i : W - 1 - i]; \
		if (SIGNED && v >= ((__int128) 1 << (8 * W - 1))) \
			v -= ((__int128) 1 << (8 * W)); \
		__CPROVER_assert(r != NULL && stub_err == NULL, "data is unpacked"); \
		if (r != NULL) \
			__CPROVER_assert(r->ival == v, "the value of the bytes"); \
	} \
}
#define BOTH(T, W, S) \
	PACK(h_##T##_pack, T##_pack, W, S, 0) PACK(h_swap_##T##_pack, swap_##T##_pack, W, S, 1) \
	UNPACK(h_##T##_unpack, T##_unpack, W, S, 0) UNPACK(h_swap_##T##_unpack, swap_##T##_unpack, W, S, 1)
BOTH(int2, 2, 1) BOTH(uint2, 2, 0) BOTH(int4, 4, 1) BOTH(uint4, 4, 0) BOTH(int8, 8, 1) BOTH(uint8, 8, 0)
