/*
 * Assumed contracts of the CPython API used by port/_optimized, written as
 * executable specifications for CBMC.  Objects are never freed; reference counts
 * are kept so that a double release is an error.
 */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef long Py_ssize_t;
typedef struct _typeobject PyTypeObject;
typedef struct _object {
	Py_ssize_t ob_refcnt;
	PyTypeObject *ob_type;
	__int128 ival;               /* int */
	Py_ssize_t ob_size;          /* bytes, tuple, list */
	char *data;                  /* bytes */
	struct _object **items;      /* tuple, list */
} PyObject;
#define PyObject_HEAD PyObject ob_base;
typedef Py_ssize_t (*lenfunc)(PyObject *);
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*getter)(PyObject *, void *);
typedef struct { lenfunc sq_length; } PySequenceMethods_;
typedef struct { lenfunc sq_length; void *a; } PySequenceMethods;
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { const char *name; getter get; void *set; const char *doc; void *closure; } PyGetSetDef;
struct PyModuleDef { int base; const char *n; const char *d; int s; PyMethodDef *m; };
struct _typeobject {
	PyObject head; 
	const char *tp_name; Py_ssize_t tp_basicsize; Py_ssize_t tp_itemsize;
	void (*tp_dealloc)(PyObject *);
	Py_ssize_t print; void *c1,*c2,*c3,*c4,*num; PySequenceMethods *seq; void *map,*hash,*call,*str,*ga,*sa,*ab;
	long flags; const char *doc; void *trav,*clr,*cmp; Py_ssize_t wl; void *it; 
	PyObject *(*iternext)(PyObject *); PyMethodDef *methods; void *members; PyGetSetDef *getset; void *base,*dict,*dg,*ds; Py_ssize_t doff; void *init;
	PyObject *(*tp_alloc)(PyTypeObject *, Py_ssize_t);
	PyObject *(*tp_new)(PyTypeObject *, PyObject *, PyObject *);
	void (*tp_free)(void *);
};
#define PyVarObject_HEAD_INIT(a, b) {0},
#define PyModuleDef_HEAD_INIT 0
#define PyDoc_STR(x) x
#define METH_O 1
#define METH_VARARGS 2
#define METH_NOARGS 4
#define Py_TPFLAGS_DEFAULT 0
#define HAVE_LONG_LONG 1
#define SIZEOF_LONG_LONG 8
#define HAVE_STDINT_H 1
#define PY_LONG_LONG long long
#define Py_MEMCPY memcpy
#define PyMODINIT_FUNC PyObject *

static PyTypeObject PyLong_Type, PyBytes_Type, PyTuple_Type, PyList_Type, None_Type, Bool_Type, Func_Type, Other_Type;
static PyObject stub_None = {1, &None_Type}, stub_True = {1, &Bool_Type}, stub_False = {1, &Bool_Type};
#define Py_None (&stub_None)
#define Py_True (&stub_True)
#define Py_False (&stub_False)
#define Py_TYPE(o) ((o)->ob_type)
#define Py_INCREF(o) ((void) (((PyObject *) (o))->ob_refcnt++))
#define Py_DECREF(o) stub_decref((PyObject *) (o))
#define Py_XINCREF(o) do { if (o) Py_INCREF(o); } while (0)
#define Py_XDECREF(o) do { if (o) Py_DECREF(o); } while (0)
static void stub_decref(PyObject *o)
{
	__CPROVER_assert(o->ob_refcnt > 0, "no object is released twice");
	o->ob_refcnt--;
}
/* errors: 0 none */
static PyObject E_Value, E_Type, E_Overflow, E_Memory, E_Runtime, E_Exception, E_System;
static PyObject *stub_err;
#define PyExc_ValueError (&E_Value)
#define PyExc_TypeError (&E_Type)
#define PyExc_OverflowError (&E_Overflow)
#define PyExc_MemoryError (&E_Memory)
#define PyExc_RuntimeError (&E_Runtime)
#define PyExc_Exception (&E_Exception)
#define PyErr_Occurred() (stub_err)
static void PyErr_SetString(PyObject *e, const char *m) { stub_err = e; }
#define PyErr_Format(e, ...) ((void) (stub_err = (e)))

static PyObject *stub_new(PyTypeObject *t)
{
	PyObject *o = malloc(sizeof(PyObject));
	__CPROVER_assume(o != NULL);
	o->ob_refcnt = 1;
	o->ob_type = t;
	o->ob_size = 0;
	o->ival = 0;
	o->data = NULL;
	o->items = NULL;
	return o;
}
/* integers */
static PyObject *stub_int(__int128 v) { PyObject *o = stub_new(&PyLong_Type); o->ival = v; return o; }
static PyObject *PyLong_FromLong(long v) { return stub_int(v); }
static PyObject *PyLong_FromLongLong(long long v) { return stub_int(v); }
static PyObject *PyLong_FromUnsignedLong(unsigned long v) { return stub_int(v); }
static PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return stub_int(v); }
static PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return stub_int(v); }
static long PyLong_AsLong(PyObject *o)
{
	if (o->ob_type != &PyLong_Type) { stub_err = PyExc_TypeError; return -1; }
	if (o->ival > (__int128) INT64_MAX || o->ival < (__int128) INT64_MIN) { stub_err = PyExc_OverflowError; return -1; }
	return (long) o->ival;
}
static long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
static unsigned long PyLong_AsUnsignedLong(PyObject *o)
{
	if (o->ob_type != &PyLong_Type) { stub_err = PyExc_TypeError; return (unsigned long) -1; }
	if (o->ival > (__int128) UINT64_MAX || o->ival < 0) { stub_err = PyExc_OverflowError; return (unsigned long) -1; }
	return (unsigned long) o->ival;
}
static unsigned long long PyLong_AsUnsignedLongLong(PyObject *o) { return PyLong_AsUnsignedLong(o); }
/* bytes */
static PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n)
{
	PyObject *o = stub_new(&PyBytes_Type);
	if (n < 0) { stub_err = &E_System; return NULL; }
	o->ob_size = n;
	o->data = malloc(n + 1);
	__CPROVER_assume(o->data != NULL);
	if (n > 0)
		memcpy(o->data, s, n);
	o->data[n] = 0;
	return o;
}
static PyObject *PyBytes_FromString(const char *s) { return PyBytes_FromStringAndSize(s, strlen(s)); }
#define PyBytes_GET_SIZE(o) (__CPROVER_assert(((PyObject *)(o))->ob_type == &PyBytes_Type, "a bytes object"), ((PyObject *)(o))->ob_size)
#define PyBytes_AS_STRING(o) (__CPROVER_assert(((PyObject *)(o))->ob_type == &PyBytes_Type, "a bytes object"), ((PyObject *)(o))->data)
#define PyBytes_CheckExact(o) (((PyObject *)(o))->ob_type == &PyBytes_Type)
#define PyBytes_Check(o) (((PyObject *)(o))->ob_type == &PyBytes_Type)
static char *PyBytes_AsString(PyObject *o)
{
	if (o->ob_type != &PyBytes_Type) { stub_err = PyExc_TypeError; return NULL; }
	return o->data;
}
static Py_ssize_t PyBytes_Size(PyObject *o)
{
	if (o->ob_type != &PyBytes_Type) { stub_err = PyExc_TypeError; return -1; }
	return o->ob_size;
}
static void PyBytes_Concat(PyObject **a, PyObject *b)
{
	PyObject *o;
	Py_ssize_t n = (*a)->ob_size, m = b->ob_size;
	o = stub_new(&PyBytes_Type);
	o->ob_size = n + m;
	o->data = malloc(n + m + 1);
	__CPROVER_assume(o->data != NULL);
	if (n) memcpy(o->data, (*a)->data, n);
	if (m) memcpy(o->data + n, b->data, m);
	o->data[n + m] = 0;
	Py_DECREF(*a);
	*a = o;
}
static int PyObject_AsReadBuffer(PyObject *o, const void **p, Py_ssize_t *n)
{
	if (o->ob_type != &PyBytes_Type) { stub_err = PyExc_TypeError; return -1; }
	*p = o->data;
	*n = o->ob_size;
	return 0;
}
static PyObject *PySequence_GetSlice(PyObject *o, Py_ssize_t a, Py_ssize_t b)
{
	return PyBytes_FromStringAndSize(o->data + a, b - a);
}
/* tuples and lists */
static PyObject *stub_seq(PyTypeObject *t, Py_ssize_t n)
{
	PyObject *o;
	Py_ssize_t i;
	if (n < 0) { stub_err = &E_System; return NULL; }
	o = stub_new(t);
	o->ob_size = n;
	o->items = malloc(sizeof(PyObject *) * (n + 1));
	__CPROVER_assume(o->items != NULL);
	for (i = 0; i < n; i++)
		o->items[i] = NULL;
	return o;
}
static PyObject *PyTuple_New(Py_ssize_t n) { return stub_seq(&PyTuple_Type, n); }
static PyObject *PyList_New(Py_ssize_t n) { return stub_seq(&PyList_Type, n); }
#define PyTuple_Check(o) (((PyObject *)(o))->ob_type == &PyTuple_Type)
#define PyTuple_CheckExact(o) PyTuple_Check(o)
#define PyList_Check(o) (((PyObject *)(o))->ob_type == &PyList_Type)
#define PyTuple_GET_SIZE(o) (((PyObject *)(o))->ob_size)
#define PyList_GET_SIZE(o) (((PyObject *)(o))->ob_size)
static PyObject *stub_item(PyObject *o, Py_ssize_t i)
{
	__CPROVER_assert(0 <= i && i < o->ob_size, "index within the sequence");
	return o->items[i];
}
static void stub_setitem(PyObject *o, Py_ssize_t i, PyObject *x)
{
	__CPROVER_assert(0 <= i && i < o->ob_size, "index within the sequence");
	o->items[i] = x;
}
#define PyTuple_GET_ITEM(o, i) stub_item((PyObject *) (o), i)
#define PyList_GET_ITEM(o, i) stub_item((PyObject *) (o), i)
#define PyList_GetItem(o, i) stub_item((PyObject *) (o), i)
#define PyTuple_SET_ITEM(o, i, x) stub_setitem((PyObject *) (o), i, x)
#define PyList_SET_ITEM(o, i, x) stub_setitem((PyObject *) (o), i, x)
static int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *x) { stub_setitem(o, i, x); return 0; }
static PyObject *PyList_GetSlice(PyObject *o, Py_ssize_t a, Py_ssize_t b)
{
	PyObject *r = PyList_New(b - a);
	Py_ssize_t i;
	for (i = a; i < b; i++)
		r->items[i - a] = o->items[i];
	return r;
}
static int PyObject_IsInstance(PyObject *o, PyObject *t) { return o->ob_type == (PyTypeObject *) t; }
/* calls: list(x) copies a list or tuple; everything else is the harness's stub_call */
static PyObject *stub_call(PyObject *f, PyObject *args);
static PyObject *stub_method(PyObject *o, PyObject *name);
static PyObject *stub_attr(PyObject *o, PyObject *name);
static PyObject *stub_list_of(PyObject *x)
{
	PyObject *r = PyList_New(x->ob_size);
	Py_ssize_t i;
	for (i = 0; i < x->ob_size; i++)
		r->items[i] = x->items[i];
	return r;
}
#define PyObject_CallFunctionObjArgs(f, x, e) stub_list_of(x)
#define PyObject_CallObject(f, a) stub_call(f, a)
#define PyObject_CallMethodObjArgs(o, n, e) stub_method(o, n)
#define PyObject_GetAttr(o, n) stub_attr(o, n)
static int PyErr_ExceptionMatches(PyObject *e) { return stub_err != NULL && stub_err != &E_System; }
static PyObject stub_cause;
#define PyErr_Fetch(a, b, c) do { *(a) = stub_err; *(b) = &stub_cause; *(c) = NULL; Py_INCREF(stub_err); Py_INCREF(&stub_cause); stub_err = NULL; } while (0)
#define PyErr_NormalizeException(a, b, c) ((void) 0)
static int stub_parse(PyObject *args, const char *f, void *a, void *b, void *c)
{
	if (f[0] == '|')
	{
		if (args->ob_size > 0)
			*((int *) a) = (int) args->items[0]->ival;
		return 1;
	}
	if (a != NULL) *((PyObject **) a) = args->items[0];
	if (b != NULL) *((PyObject **) b) = args->items[1];
	if (c != NULL) *((PyObject **) c) = args->items[2];
	return 1;
}
static int PyArg_ParseTupleAndKeywords(PyObject *args, PyObject *kw, const char *f, char **kwl, ...) { return 1; }
static PyObject *PySequence_GetItem(PyObject *o, Py_ssize_t i) { Py_INCREF(stub_item(o, i)); return stub_item(o, i); }
#define PySequence_Length(o) ((o)->ob_size)
static int PyObject_SetAttr(PyObject *o, PyObject *a, PyObject *v) { return 0; }
#define stub_PARSE(args, f, a, b, c, ...) stub_parse(args, f, a, b, c)
#define PyArg_ParseTuple(args, f, ...) stub_PARSE(args, f, __VA_ARGS__, NULL, NULL, NULL)
#endif
