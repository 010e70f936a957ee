/* Replay of allocation failures: when SX_FAIL_AT=n is set, the n-th allocating
 * call made by the extension fails.  Only used for replay builds. */
#include "Python.h"
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>

static inline int sx_fail(void)
{
	static long *ctr = NULL;
	char *at = getenv("SX_FAIL_AT");
	if (at == NULL)
		return 0;
	if (ctr == NULL) {
		char *s = getenv("SX_CTR");
		if (s != NULL)
			ctr = (long *)(uintptr_t)strtoull(s, NULL, 16);
		else {
			char b[40];
			ctr = (long *)calloc(1, sizeof(long));
			snprintf(b, sizeof b, "%llx", (unsigned long long)(uintptr_t)ctr);
			setenv("SX_CTR", b, 1);
		}
	}
	return ++*ctr == atol(at);
}
#define SX_NOMEM(call) (sx_fail() ? (PyErr_NoMemory(), NULL) : (call))
static inline void *sx_malloc(size_t n) { return sx_fail() ? NULL : malloc(n); }
static inline void *sx_calloc(size_t n, size_t m) { return sx_fail() ? NULL : calloc(n, m); }
static inline void *sx_realloc(void *p, size_t n) { return sx_fail() ? NULL : realloc(p, n); }
static inline void *sx_pm(size_t n) { return sx_fail() ? NULL : PyMem_Malloc(n); }
static inline void *sx_pc(size_t n, size_t m) { return sx_fail() ? NULL : PyMem_Calloc(n, m); }
static inline void *sx_pr(void *p, size_t n) { return sx_fail() ? NULL : PyMem_Realloc(p, n); }
static inline PyObject *sx_ln(Py_ssize_t n) { return SX_NOMEM(PyList_New(n)); }
static inline PyObject *sx_tn(Py_ssize_t n) { return SX_NOMEM(PyTuple_New(n)); }
static inline int sx_la(PyObject *l, PyObject *x) { return sx_fail() ? (PyErr_NoMemory(), -1) : PyList_Append(l, x); }
static inline PyObject *sx_it(PyObject *o) { return SX_NOMEM(PyObject_GetIter(o)); }
static inline PyObject *sx_gc(PyTypeObject *t) { return SX_NOMEM(_PyObject_GC_New(t)); }
static inline PyObject *sx_ll(long v) { return SX_NOMEM(PyLong_FromLong(v)); }
static inline PyObject *sx_ls(Py_ssize_t v) { return SX_NOMEM(PyLong_FromSsize_t(v)); }
static inline PyObject *sx_uk(int k, const void *d, Py_ssize_t n) { return SX_NOMEM(PyUnicode_FromKindAndData(k, d, n)); }
static inline PyObject *sx_us(const char *d, Py_ssize_t n) { return SX_NOMEM(PyUnicode_FromStringAndSize(d, n)); }
static inline PyObject *sx_uf(const char *d) { return SX_NOMEM(PyUnicode_FromString(d)); }
static inline PyObject *sx_un(Py_ssize_t n, Py_UCS4 m) { return SX_NOMEM(PyUnicode_New(n, m)); }
static inline PyObject *sx_ub(PyObject *o, Py_ssize_t a, Py_ssize_t b) { return SX_NOMEM(PyUnicode_Substring(o, a, b)); }
static inline PyObject *sx_uc(PyObject *a, PyObject *b) { return SX_NOMEM(PyUnicode_Concat(a, b)); }
static inline PyObject *sx_uo(int c) { return SX_NOMEM(PyUnicode_FromOrdinal(c)); }
static inline Py_UCS4 *sx_ua(PyObject *o) { return (Py_UCS4 *)SX_NOMEM((void *)PyUnicode_AsUCS4Copy(o)); }
#define malloc sx_malloc
#define calloc sx_calloc
#define realloc sx_realloc
#define PyMem_Malloc sx_pm
#define PyMem_RawMalloc sx_malloc
#define PyMem_Calloc sx_pc
#define PyMem_Realloc sx_pr
#define PyList_New sx_ln
#define PyTuple_New sx_tn
#define PyList_Append sx_la
#define PyObject_GetIter sx_it
#define _PyObject_GC_New sx_gc
#define PyLong_FromLong sx_ll
#define PyLong_FromSsize_t sx_ls
#define PyUnicode_FromKindAndData sx_uk
#define PyUnicode_FromStringAndSize sx_us
#define PyUnicode_FromString sx_uf
#define PyUnicode_New sx_un
#define PyUnicode_Substring sx_ub
#define PyUnicode_Concat sx_uc
#define PyUnicode_FromOrdinal sx_uo
#define PyUnicode_AsUCS4Copy sx_ua
/* variadic: the inner name is not expanded again */
#define PyTuple_Pack(...) SX_NOMEM(PyTuple_Pack(__VA_ARGS__))
static inline PyObject *sx_lq(long long v) { return SX_NOMEM(PyLong_FromLongLong(v)); }
static inline int sx_li(PyObject *l, Py_ssize_t i, PyObject *x) { return sx_fail() ? (PyErr_NoMemory(), -1) : PyList_Insert(l, i, x); }
static inline PyObject *sx_if(const char *d) { return SX_NOMEM(PyUnicode_InternFromString(d)); }
static inline PyObject *sx_on(PyTypeObject *t) { return SX_NOMEM(_PyObject_New(t)); }
static inline void sx_ap(PyObject **p, PyObject *o)
{
	if (*p != NULL && o != NULL && sx_fail()) {
		PyErr_NoMemory();
		Py_CLEAR(*p);
	} else
		PyUnicode_Append(p, o);
}
static inline void sx_ad(PyObject **p, PyObject *o)
{
	sx_ap(p, o);
	Py_XDECREF(o);
}
static inline PyObject *sx_bv(const char *f, ...)
{
	va_list va;
	PyObject *r;
	va_start(va, f);
	r = Py_VaBuildValue(f, va);
	va_end(va);
	if (r != NULL && sx_fail()) {
		Py_DECREF(r);
		PyErr_NoMemory();
		return NULL;
	}
	return r;
}
#define PyLong_FromLongLong sx_lq
#define PyList_Insert sx_li
#define PyUnicode_InternFromString sx_if
#define _PyObject_New sx_on
#define PyUnicode_Append sx_ap
#define PyUnicode_AppendAndDel sx_ad
#undef Py_BuildValue
#define Py_BuildValue sx_bv
#define PyObject_Malloc sx_pm
#define PyObject_Calloc sx_pc
#define PyObject_Realloc sx_pr
#define PyMem_RawCalloc sx_calloc
#define PyMem_RawRealloc sx_realloc
