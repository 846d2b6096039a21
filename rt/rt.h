// Minimal CPython/NumPy object runtime used by harnesses. Real headers provide the object layouts.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#ifndef PY_ARRAY_UNIQUE_SYMBOL
#define PY_ARRAY_UNIQUE_SYMBOL sharedata_ARRAY_API
#define NO_IMPORT_ARRAY
#endif
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include "sym.h"

PyArrayObject * rt_array(int dtype, int64_t n, int64_t itemsize = 0);
PyArrayObject * rt_array2(int dtype, int64_t d0, int64_t d1, bool fortran, int64_t itemsize = 0);
// one-dimensional view with the given byte stride over a fresh buffer holding n elements
PyArrayObject * rt_array_strided(int dtype, int64_t n, int64_t stride, int64_t itemsize = 0);
// a view of memory the harness owns
PyArrayObject * rt_view(int dtype, int nd, npy_intp const * dims, npy_intp const * strides, void * data, int64_t itemsize = 0);
int64_t rt_itemsize(int dtype);
PyObject * rt_int(int64_t v);
PyObject * rt_float(double v);
PyObject * rt_none();
PyObject * rt_bool(bool b);
PyObject * rt_bytes(const char * s, int64_t n);
PyObject * rt_str(const char * s);
PyObject * rt_tuple(int n, ...);
PyObject * rt_list(int n, ...);
// calls the module method with this name as Python would: positional arguments
PyObject * rt_call(const char * method, int n, ...);
PyObject * rt_calltuple(const char * method, PyObject * args, PyObject * kw = nullptr);
const char * rt_error(); // current exception text or null
void rt_clear();
int64_t rt_warnings();
void rt_incref(void * o);
void rt_decref(void * o);
int64_t rt_len(PyObject * o);        // array length in elements, list or tuple length
PyObject * rt_item(PyObject * o, int64_t i); // list or tuple item
int64_t rt_asint(PyObject * o); // low 64 bits
bool rt_isbig(PyObject * o);    // an integer of 2^63 or more
bool rt_isfloat(PyObject * o);
double rt_asdouble(PyObject * o);
bool rt_isarray(PyObject * o);
extern "C" void rt_init();
void rt_share(int core, int64_t blocks); // a worker thread takes the next blocks of every parallel call
template <typename T>
static inline T * D(PyObject * o)
{
    return (T *)PyArray_DATA((PyArrayObject *)o);
}
template <typename T>
static inline T * D(PyArrayObject * o)
{
    return (T *)PyArray_DATA(o);
}
static inline int rt_type(PyObject * o)
{
    return PyArray_TYPE((PyArrayObject *)o);
}
#define A0(x) ((PyObject *)(x))
