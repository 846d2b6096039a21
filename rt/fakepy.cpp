// Minimal CPython / NumPy runtime: just enough of the C API for the entry points of riptide_cpp, with the real object
// layouts (Python.h, numpy/arrayobject.h). Compiled both to bitcode (symbolic execution) and natively (replay).
#include "rt.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

#define IMMORTAL 1000000
// ------------------------------------------------------------------ types
extern "C"
{
    extern PyTypeObject rt_dict_type;
#define TYPE(N, NAME, FLAGS) PyTypeObject N = { PyVarObject_HEAD_INIT(nullptr, 0) };
    PyTypeObject PyType_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "type" };
    PyTypeObject PyBaseObject_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "object" };
    PyTypeObject PyLong_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "int" };
    PyTypeObject PyBool_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "bool" };
    PyTypeObject PyFloat_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "float" };
    PyTypeObject PyComplex_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "complex" };
    PyTypeObject PyTuple_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "tuple" };
    PyTypeObject PyList_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "list" };
    PyTypeObject PyDict_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "dict" };
    PyTypeObject PyUnicode_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "str" };
    PyTypeObject PyBytes_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "bytes" };
    PyTypeObject PyByteArray_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "bytearray" };
    PyTypeObject PyCapsule_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "PyCapsule" };
    PyTypeObject PyModule_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "module" };
    PyTypeObject PyFunction_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "function" };
    PyTypeObject PyMethod_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "method" };
    PyTypeObject PyInstanceMethod_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "instancemethod" };
    PyTypeObject PyCFunction_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "builtin_function_or_method" };
    static PyTypeObject NoneType = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "NoneType" };
    static PyTypeObject Array_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "numpy.ndarray" };
    static PyTypeObject Descr_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "numpy.dtype" };
    static PyTypeObject Generic_Type = { PyVarObject_HEAD_INIT(&PyType_Type, 0) "numpy.generic" };
    static PyTypeObject ScalarTypes[NPY_NTYPES];
    static PyTypeObject AbsTypes[16]; // abstract numpy scalar types

    PyObject _Py_NoneStruct = { { IMMORTAL }, &NoneType };
    struct _longobject _Py_FalseStruct = { { { IMMORTAL }, &PyBool_Type }, { 0, { 0 } } };
    struct _longobject _Py_TrueStruct = { { { IMMORTAL }, &PyBool_Type }, { 0, { 1 } } };

#define EXC(N)                                                             \
    static PyTypeObject N##_t = { PyVarObject_HEAD_INIT(&PyType_Type, 0) #N }; \
    PyObject * PyExc_##N = (PyObject *)&N##_t;
    EXC(BufferError)
    EXC(ImportError)
    EXC(MemoryError)
    EXC(NotImplementedError)
    EXC(RuntimeError)
    EXC(RuntimeWarning)
    EXC(TypeError)
    EXC(ValueError)
    EXC(IndexError)
    EXC(KeyError)
    EXC(OverflowError)
    EXC(AttributeError)
    EXC(OSError)
    EXC(IOError)
    EXC(Exception)
    EXC(DeprecationWarning)
    EXC(UserWarning)
    EXC(KeyboardInterrupt)
    EXC(SystemError)
}
struct FakeInt
{
    PyObject_HEAD
    int64_t v;
    int big; // value is v + 2^64 (an unsigned value with the top bit set)
};
struct FakeDict
{
    PyObject_HEAD
    int64_t n;
    PyObject * k[64];
    PyObject * v[64];
};
struct FakeModule
{
    PyObject_HEAD
    PyModuleDef * def;
    PyObject * dict;
};
static PyArray_Descr * g_descr[NPY_NTYPES];
static void * g_table[400];
static FakeModule * g_module;
static const char * g_err;
static PyObject * g_errType;
static int64_t g_warnings;

template <typename T>
static T * newobj(PyTypeObject * t)
{
    T * o = (T *)malloc(sizeof(T));
    memset((void *)o, 0, sizeof(T));
    ((PyObject *)o)->ob_refcnt = 1;
    ((PyObject *)o)->ob_type = t;
    return o;
}
int64_t rt_itemsize(int t)
{
    switch (t)
    {
    case NPY_BOOL:
    case NPY_INT8:
    case NPY_UINT8: return 1;
    case NPY_INT16:
    case NPY_UINT16:
    case NPY_HALF: return 2;
    case NPY_INT32:
    case NPY_UINT32:
    case NPY_FLOAT32: return 4;
    case NPY_LONGDOUBLE:
    case NPY_CDOUBLE: return 16;
    case NPY_CLONGDOUBLE: return 32;
    case NPY_STRING:
    case NPY_UNICODE:
    case NPY_VOID: return 0;
    default: return 8;
    }
}
static const char kinds[] = "biuiuiuiuiufffcccOSUVMm";
static PyArray_Descr * makeDescr(int t, int64_t itemsize)
{
    PyArray_Descr * d = newobj<PyArray_Descr>(&Descr_Type);
    d->type_num = t;
    d->elsize = (int)(rt_itemsize(t) ? rt_itemsize(t) : itemsize);
    d->byteorder = d->elsize > 1 ? '=' : '|';
    d->kind = t == NPY_HALF ? 'f' : kinds[t];
    d->alignment = d->elsize > 8 ? 16 : d->elsize ? d->elsize : 1;
    if (t == NPY_STRING || t == NPY_VOID)
        d->alignment = 1;
    if (t == NPY_UNICODE)
        d->alignment = 4;
    d->typeobj = &ScalarTypes[t];
    return d;
}
static PyArray_Descr * descrFor(int t, int64_t itemsize)
{
    if (rt_itemsize(t) && g_descr[t])
    {
        g_descr[t]->ob_base.ob_refcnt++;
        return g_descr[t];
    }
    return makeDescr(t, itemsize);
}
static void updateFlags(PyArrayObject_fields * a)
{
    a->flags &= ~(NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS);
    int64_t es = a->descr->elsize, s = es;
    bool c = true, f = true;
    bool empty = false;
    for (int i = 0; i < a->nd; i++)
        if (a->dimensions[i] == 0)
            empty = true;
    if (! empty)
    {
        for (int i = a->nd - 1; i >= 0; i--)
        {
            if (a->dimensions[i] != 1 && a->strides[i] != s)
                c = false;
            s *= a->dimensions[i];
        }
        s = es;
        for (int i = 0; i < a->nd; i++)
        {
            if (a->dimensions[i] != 1 && a->strides[i] != s)
                f = false;
            s *= a->dimensions[i];
        }
    }
    if (c)
        a->flags |= NPY_ARRAY_C_CONTIGUOUS;
    if (f)
        a->flags |= NPY_ARRAY_F_CONTIGUOUS;
}
// base: memory not owned when data given
static PyArrayObject_fields * newArray(PyTypeObject * type, int nd, npy_intp const * dims, int t, npy_intp const * strides, void * data, int64_t itemsize,
                                       int flags)
{
    PyArrayObject_fields * a = newobj<PyArrayObject_fields>(type);
    a->descr = descrFor(t, itemsize);
    a->nd = nd;
    a->dimensions = (npy_intp *)malloc(sizeof(npy_intp) * (nd ? 2 * nd : 1));
    a->strides = a->dimensions + nd;
    bool f = data ? (flags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)) == NPY_ARRAY_F_CONTIGUOUS : flags != 0;
    int64_t es = a->descr->elsize, n = es;
    for (int i = 0; i < nd; i++)
    {
        a->dimensions[i] = dims[i];
        n *= dims[i];
    }
    int64_t s = es;
    if (strides)
        for (int i = 0; i < nd; i++)
            a->strides[i] = strides[i];
    else if (f)
        for (int i = 0; i < nd; i++)
        {
            a->strides[i] = s;
            s *= dims[i];
        }
    else
        for (int i = nd - 1; i >= 0; i--)
        {
            a->strides[i] = s;
            s *= dims[i];
        }
    if (data)
        a->flags = flags & ~NPY_ARRAY_OWNDATA;
    else
    {
        a->flags = NPY_ARRAY_OWNDATA | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE;
        data = aligned_alloc(64, n ? n : (es ? es : 1));
    }
    a->data = (char *)data;
    updateFlags(a);
    return a;
}
static bool isType(PyObject * o, PyTypeObject * t);

// ------------------------------------------------------------------ NumPy table functions
static PyObject * np_New(PyTypeObject * type, int nd, npy_intp const * dims, int t, npy_intp const * strides, void * data, int itemsize, int flags,
                         PyObject * obj)
{
    return (PyObject *)newArray(type, nd, dims, t, strides, data, itemsize, flags);
}
static PyObject * np_NewFromDescr(PyTypeObject * type, PyArray_Descr * d, int nd, npy_intp const * dims, npy_intp const * strides, void * data, int flags,
                                  PyObject * obj)
{
    return (PyObject *)newArray(type, nd, dims, d->type_num, strides, data, d->elsize, flags);
}
static PyObject * copyContig(PyArrayObject_fields * s, bool fortran = false)
{
    PyArrayObject_fields * a =
        newArray(&Array_Type, s->nd, s->dimensions, s->descr->type_num, nullptr, nullptr, s->descr->elsize, fortran ? NPY_ARRAY_F_CONTIGUOUS : 0);
    int64_t es = s->descr->elsize, n = 1;
    for (int i = 0; i < s->nd; i++)
        n *= s->dimensions[i];
    for (int64_t k = 0; k < n; k++)
    {
        char * p = s->data;
        char * q = a->data;
        int64_t r = k;
        for (int i = s->nd - 1; i >= 0; i--)
        {
            int64_t x = r % s->dimensions[i];
            p += x * s->strides[i];
            q += x * a->strides[i];
            r /= s->dimensions[i];
        }
        memcpy(q, p, es);
    }
    return (PyObject *)a;
}
static PyObject * np_NewCopy(PyArrayObject * o, NPY_ORDER order)
{
    if (order == NPY_KEEPORDER)
        sym_unsupported("NewCopy KEEPORDER");
    PyArrayObject_fields * s = (PyArrayObject_fields *)o;
    return copyContig(s, order == NPY_FORTRANORDER || (order == NPY_ANYORDER && (s->flags & NPY_ARRAY_F_CONTIGUOUS) && ! (s->flags & NPY_ARRAY_C_CONTIGUOUS)));
}
static PyObject * np_FromAny(PyObject * o, PyArray_Descr * d, int mind, int maxd, int flags, PyObject * ctx)
{
    if (rt_isarray(o))
    {
        PyArrayObject_fields * s = (PyArrayObject_fields *)o;
        if (d && d->type_num != s->descr->type_num)
            sym_unsupported("PyArray_FromAny with a conversion");
        if (flags & NPY_ARRAY_ENSURECOPY)
            return copyContig(s);
        if ((flags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)) && ! (s->flags & flags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
            return copyContig(s);
        rt_incref(o);
        return o;
    }
    if (PyBool_Check(o))
    {
        PyArrayObject_fields * a = newArray(&Array_Type, 0, nullptr, NPY_BOOL, nullptr, nullptr, 1, 0);
        *a->data = (char)rt_asint(o);
        return (PyObject *)a;
    }
    if (PyLong_Check(o))
    {
        PyArrayObject_fields * a = newArray(&Array_Type, 0, nullptr, NPY_INT64, nullptr, nullptr, 8, 0);
        *(int64_t *)a->data = rt_asint(o);
        return (PyObject *)a;
    }
    if (PyFloat_Check(o))
    {
        PyArrayObject_fields * a = newArray(&Array_Type, 0, nullptr, NPY_FLOAT64, nullptr, nullptr, 8, 0);
        *(double *)a->data = ((PyFloatObject *)o)->ob_fval;
        return (PyObject *)a;
    }
    if (PyBytes_Check(o))
    {
        int64_t n = ((PyVarObject *)o)->ob_size;
        PyArrayObject_fields * a = newArray(&Array_Type, 0, nullptr, NPY_STRING, nullptr, nullptr, n ? n : 1, 0);
        memcpy(a->data, ((PyBytesObject *)o)->ob_sval, n);
        return (PyObject *)a;
    }
    sym_unsupported("PyArray_FromAny of this object");
    return nullptr;
}
static PyArray_Descr * np_DescrFromType(int t)
{
    return descrFor(t, 0);
}
static PyArray_Descr * np_DescrNewFromType(int t)
{
    return makeDescr(t, 0);
}
static PyObject * np_TypeObjectFromType(int t)
{
    return (PyObject *)&ScalarTypes[t];
}
static PyObject * np_View(PyArrayObject * o, PyArray_Descr * d, PyTypeObject * pt)
{
    PyArrayObject_fields * s = (PyArrayObject_fields *)o;
    PyArrayObject_fields * a = newArray(pt ? pt : &Array_Type, s->nd, s->dimensions, d ? d->type_num : s->descr->type_num, s->strides, s->data,
                                        d ? d->elsize : s->descr->elsize, s->flags);
    rt_incref(o);
    a->base = (PyObject *)o;
    return (PyObject *)a;
}
static npy_intp np_Size(PyObject * o)
{
    return rt_len(o);
}
static npy_intp np_MultiplyList(npy_intp const * l, int n)
{
    npy_intp r = 1;
    for (int i = 0; i < n; i++)
        r *= l[i];
    return r;
}
static int np_MultiplyIntList(int const * l, int n)
{
    int r = 1;
    for (int i = 0; i < n; i++)
        r *= l[i];
    return r;
}
static PyObject * np_NewLikeArray(PyArrayObject * o, NPY_ORDER order, PyArray_Descr * d, int subok)
{
    PyArrayObject_fields * s = (PyArrayObject_fields *)o;
    int t = d ? d->type_num : s->descr->type_num;
    int64_t es = d ? d->elsize : s->descr->elsize;
    bool f = false;
    if (order == NPY_FORTRANORDER)
        f = true;
    if (order == NPY_KEEPORDER || order == NPY_ANYORDER)
    {
        f = (s->flags & NPY_ARRAY_F_CONTIGUOUS) && ! (s->flags & NPY_ARRAY_C_CONTIGUOUS);
        // NumPy keeps the order of the strides of an array that is neither
        if (! f && order == NPY_KEEPORDER && s->nd > 1 && ! (s->flags & NPY_ARRAY_C_CONTIGUOUS))
        {
            f = true;
            for (int i = 0; i + 1 < s->nd; i++)
            {
                int64_t a = s->strides[i] < 0 ? -s->strides[i] : s->strides[i], b = s->strides[i + 1] < 0 ? -s->strides[i + 1] : s->strides[i + 1];
                if (a >= b)
                    f = false;
            }
        }
    }
    return (PyObject *)newArray(&Array_Type, s->nd, s->dimensions, t, nullptr, nullptr, es, f);
}
static unsigned int np_ver()
{
    return NPY_VERSION;
}
static unsigned int np_feature()
{
    return NPY_FEATURE_VERSION;
}
static int np_endian()
{
    return 1;
}
static int np_SetBase(PyArrayObject * a, PyObject * b)
{
    ((PyArrayObject_fields *)a)->base = b;
    return 0;
}
static int np_CompareLists(npy_intp const * a, npy_intp const * b, int n)
{
    for (int i = 0; i < n; i++)
        if (a[i] != b[i])
            return 0;
    return 1;
}
static void np_unsupported()
{
    sym_unsupported("NumPy C API function outside the model");
}

// ------------------------------------------------------------------ CPython functions
static bool isType(PyObject * o, PyTypeObject * t)
{
    return Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t);
}
bool rt_isarray(PyObject * o)
{
    return isType(o, &Array_Type);
}
extern "C"
{
    int PyType_IsSubtype(PyTypeObject * a, PyTypeObject * b)
    {
        for (; a; a = a->tp_base)
            if (a == b)
                return 1;
        return b == &PyBaseObject_Type;
    }
    void _Py_Dealloc(PyObject * o)
    {
        PyTypeObject * t = Py_TYPE(o);
        if (t->tp_finalize)
        {
            o->ob_refcnt = 1;
            t->tp_finalize(o);
            if (--o->ob_refcnt > 0)
                return;
        }
        if (PyType_IsSubtype(t, &Array_Type))
        {
            PyArrayObject_fields * a = (PyArrayObject_fields *)o;
            if (a->flags & NPY_ARRAY_OWNDATA)
                free(a->data);
            if (a->base)
                rt_decref(a->base);
            free(a->dimensions);
            rt_decref(a->descr);
            free(o);
        }
        else if (t == &PyTuple_Type)
        {
            for (int64_t i = 0; i < ((PyVarObject *)o)->ob_size; i++)
                if (((PyTupleObject *)o)->ob_item[i])
                    rt_decref(((PyTupleObject *)o)->ob_item[i]);
            free(o);
        }
        else if (t == &PyList_Type)
        {
            for (int64_t i = 0; i < ((PyVarObject *)o)->ob_size; i++)
                if (((PyListObject *)o)->ob_item[i])
                    rt_decref(((PyListObject *)o)->ob_item[i]);
            free(((PyListObject *)o)->ob_item);
            free(o);
        }
        // other objects stay allocated
    }
    void Py_IncRef(PyObject * o)
    {
        if (o)
            o->ob_refcnt++;
    }
    void Py_DecRef(PyObject * o)
    {
        if (o && --o->ob_refcnt == 0)
            _Py_Dealloc(o);
    }
    int _Py_IsFinalizing(void)
    {
        return 0;
    }
    // errors
    static void setErr(PyObject * t, const char * m)
    {
        g_errType = t;
        g_err = m ? m : "error";
    }
    void PyErr_SetString(PyObject * t, const char * m)
    {
        setErr(t, m);
    }
    PyObject * PyErr_Format(PyObject * t, const char * f, ...)
    {
        setErr(t, f);
        return nullptr;
    }
    int PyErr_WarnFormat(PyObject * c, Py_ssize_t l, const char * f, ...)
    {
        g_warnings++;
        return 0;
    }
    PyObject * PyUnicode_FromKindAndData(int kind, const void * d, Py_ssize_t n)
    {
        return PyUnicode_FromString("?");
    }
    PyObject * PyErr_NoMemory(void)
    {
        setErr(PyExc_MemoryError, "no memory");
        return nullptr;
    }
    void PyErr_SetNone(PyObject * t)
    {
        setErr(t, "none");
    }
    PyObject * PyErr_Occurred(void)
    {
        return g_errType;
    }
    void PyErr_Clear(void)
    {
        g_errType = nullptr;
        g_err = nullptr;
    }
    void PyErr_Print(void) {}
    void PyErr_SetInterrupt(void) {}
    int PyErr_CheckSignals(void)
    {
        return 0;
    }
    // GIL
    PyThreadState * PyEval_SaveThread(void)
    {
        return nullptr;
    }
    void PyEval_RestoreThread(PyThreadState *) {}
    PyGILState_STATE PyGILState_Ensure(void)
    {
        return (PyGILState_STATE)0;
    }
    void PyGILState_Release(PyGILState_STATE) {}
    int PyGILState_Check(void)
    {
        return 1;
    }
    // numbers
    PyObject * PyLong_FromLongLong(long long v)
    {
        FakeInt * i = newobj<FakeInt>(&PyLong_Type);
        i->v = v;
        i->big = 0;
        return (PyObject *)i;
    }
    PyObject * PyLong_FromLong(long v)
    {
        return PyLong_FromLongLong(v);
    }
    PyObject * PyLong_FromSize_t(size_t v)
    {
        return PyLong_FromLongLong((long long)v);
    }
    PyObject * PyLong_FromSsize_t(Py_ssize_t v)
    {
        return PyLong_FromLongLong((long long)v);
    }
    PyObject * PyLong_FromUnsignedLongLong(unsigned long long v)
    {
        PyObject * o = PyLong_FromLongLong((long long)v);
        ((FakeInt *)o)->big = (long long)v < 0;
        return o;
    }
    PyObject * PyLong_FromUnsignedLong(unsigned long v)
    {
        return PyLong_FromUnsignedLongLong(v);
    }
    static bool isBig(PyObject * o)
    {
        return Py_TYPE(o) == &PyLong_Type && ((FakeInt *)o)->big;
    }
    long long PyLong_AsLongLong(PyObject * o)
    {
        if (o == (PyObject *)&_Py_TrueStruct)
            return 1;
        if (o == (PyObject *)&_Py_FalseStruct)
            return 0;
        if (Py_TYPE(o) == &PyLong_Type)
        {
            if (isBig(o))
            {
                setErr(PyExc_OverflowError, "Python int too large to convert to C long");
                return -1;
            }
            return ((FakeInt *)o)->v;
        }
        if (Py_TYPE(o) == &PyFloat_Type)
        {
            setErr(PyExc_TypeError, "an integer is required");
            return -1;
        }
        setErr(PyExc_TypeError, "an integer is required");
        return -1;
    }
    long PyLong_AsLong(PyObject * o)
    {
        return PyLong_AsLongLong(o);
    }
    Py_ssize_t PyLong_AsSsize_t(PyObject * o)
    {
        return PyLong_AsLongLong(o);
    }
    size_t PyLong_AsSize_t(PyObject * o)
    {
        return (size_t)PyLong_AsLongLong(o);
    }
    unsigned long long PyLong_AsUnsignedLongLongMask(PyObject * o)
    {
        if (isBig(o))
            return ((FakeInt *)o)->v;
        return PyLong_AsLongLong(o);
    }
    unsigned long long PyLong_AsUnsignedLongLong(PyObject * o)
    {
        if (isBig(o))
            return ((FakeInt *)o)->v;
        long long v = PyLong_AsLongLong(o);
        if (v < 0)
        {
            setErr(PyExc_OverflowError, "can't convert negative int to unsigned");
            return (unsigned long long)-1;
        }
        return v;
    }
    long PyLong_AsLongAndOverflow(PyObject * o, int * ov)
    {
        *ov = 0;
        return PyLong_AsLongLong(o);
    }
    long long PyLong_AsLongLongAndOverflow(PyObject * o, int * ov)
    {
        *ov = 0;
        if (isBig(o))
        {
            *ov = 1;
            return -1;
        }
        return PyLong_AsLongLong(o);
    }
    PyObject * PyFloat_FromDouble(double v)
    {
        PyFloatObject * f = newobj<PyFloatObject>(&PyFloat_Type);
        f->ob_fval = v;
        return (PyObject *)f;
    }
    double PyFloat_AsDouble(PyObject * o)
    {
        if (Py_TYPE(o) == &PyFloat_Type)
            return ((PyFloatObject *)o)->ob_fval;
        if (isBig(o))
            return (double)(uint64_t)((FakeInt *)o)->v;
        return (double)PyLong_AsLongLong(o);
    }
    double PyLong_AsDouble(PyObject * o)
    {
        if (! PyLong_Check(o))
        {
            setErr(PyExc_TypeError, "an integer is required");
            return -1;
        }
        return PyFloat_AsDouble(o);
    }
    PyObject * PyBool_FromLong(long v)
    {
        PyObject * r = v ? (PyObject *)&_Py_TrueStruct : (PyObject *)&_Py_FalseStruct;
        r->ob_refcnt++;
        return r;
    }
    int PyObject_IsTrue(PyObject * o)
    {
        if (o == Py_None)
            return 0;
        if (PyLong_Check(o))
            return isBig(o) || PyLong_AsLongLong(o) != 0;
        if (PyFloat_Check(o))
            return ((PyFloatObject *)o)->ob_fval != 0;
        return rt_len(o) != 0;
    }
    PyObject * PyObject_Type(PyObject * o)
    {
        rt_incref(Py_TYPE(o));
        return (PyObject *)Py_TYPE(o);
    }
    // sequences
    PyObject * PyTuple_New(Py_ssize_t n)
    {
        PyTupleObject * t = (PyTupleObject *)malloc(sizeof(PyTupleObject) + n * sizeof(PyObject *));
        memset((void *)t, 0, sizeof(PyTupleObject) + n * sizeof(PyObject *));
        ((PyObject *)t)->ob_refcnt = 1;
        ((PyObject *)t)->ob_type = &PyTuple_Type;
        ((PyVarObject *)t)->ob_size = n;
        return (PyObject *)t;
    }
    Py_ssize_t PyTuple_Size(PyObject * o)
    {
        return ((PyVarObject *)o)->ob_size;
    }
    PyObject * PyTuple_GetItem(PyObject * o, Py_ssize_t i)
    {
        if (i < 0 || i >= ((PyVarObject *)o)->ob_size)
        {
            setErr(PyExc_IndexError, "tuple index out of range");
            return nullptr;
        }
        return ((PyTupleObject *)o)->ob_item[i];
    }
    int PyTuple_SetItem(PyObject * o, Py_ssize_t i, PyObject * v)
    {
        ((PyTupleObject *)o)->ob_item[i] = v;
        return 0;
    }
    PyObject * PyList_New(Py_ssize_t n)
    {
        PyListObject * l = newobj<PyListObject>(&PyList_Type);
        l->ob_item = (PyObject **)calloc(n + 1, sizeof(PyObject *));
        l->allocated = n + 1;
        ((PyVarObject *)l)->ob_size = n;
        return (PyObject *)l;
    }
    Py_ssize_t PyList_Size(PyObject * o)
    {
        return ((PyVarObject *)o)->ob_size;
    }
    PyObject * PyList_GetItem(PyObject * o, Py_ssize_t i)
    {
        if (i < 0 || i >= ((PyVarObject *)o)->ob_size)
        {
            setErr(PyExc_IndexError, "list index out of range");
            return nullptr;
        }
        return ((PyListObject *)o)->ob_item[i];
    }
    int PyList_SetItem(PyObject * o, Py_ssize_t i, PyObject * v)
    {
        ((PyListObject *)o)->ob_item[i] = v;
        return 0;
    }
    int PyList_Append(PyObject * o, PyObject * v)
    {
        PyListObject * l = (PyListObject *)o;
        int64_t n = ((PyVarObject *)l)->ob_size;
        if (n + 1 >= l->allocated)
        {
            PyObject ** ni = (PyObject **)calloc(2 * n + 4, sizeof(PyObject *));
            memcpy((void *)ni, l->ob_item, n * sizeof(PyObject *));
            free(l->ob_item);
            l->ob_item = ni;
            l->allocated = 2 * n + 4;
        }
        rt_incref(v);
        l->ob_item[n] = v;
        ((PyVarObject *)l)->ob_size = n + 1;
        return 0;
    }
    // strings
    PyObject * PyBytes_FromStringAndSize(const char * s, Py_ssize_t n)
    {
        PyBytesObject * b = (PyBytesObject *)malloc(sizeof(PyBytesObject) + n + 1);
        memset((void *)b, 0, sizeof(PyBytesObject) + n + 1);
        ((PyObject *)b)->ob_refcnt = 1;
        ((PyObject *)b)->ob_type = &PyBytes_Type;
        ((PyVarObject *)b)->ob_size = n;
        if (s)
            memcpy(b->ob_sval, s, n);
        return (PyObject *)b;
    }
    PyObject * PyBytes_FromString(const char * s)
    {
        return PyBytes_FromStringAndSize(s, strlen(s));
    }
    char * PyBytes_AsString(PyObject * o)
    {
        return ((PyBytesObject *)o)->ob_sval;
    }
    Py_ssize_t PyBytes_Size(PyObject * o)
    {
        return ((PyVarObject *)o)->ob_size;
    }
    PyObject * PyUnicode_FromStringAndSize(const char * s, Py_ssize_t n)
    {
        PyASCIIObject * u = (PyASCIIObject *)malloc(sizeof(PyASCIIObject) + n + 1);
        memset((void *)u, 0, sizeof(PyASCIIObject) + n + 1);
        ((PyObject *)u)->ob_refcnt = 1;
        ((PyObject *)u)->ob_type = &PyUnicode_Type;
        u->length = n;
        u->state.kind = 1;
        u->state.compact = 1;
        u->state.ascii = 1;
        memcpy((void *)(u + 1), s, n);
        return (PyObject *)u;
    }
    PyObject * PyUnicode_FromString(const char * s)
    {
        return PyUnicode_FromStringAndSize(s, strlen(s));
    }
    PyObject * PyUnicode_AsASCIIString(PyObject * o)
    {
        return PyBytes_FromStringAndSize((char *)((PyASCIIObject *)o + 1), ((PyASCIIObject *)o)->length);
    }
    PyObject * PyUnicode_AsUTF8String(PyObject * o)
    {
        return PyUnicode_AsASCIIString(o);
    }
    const char * PyUnicode_AsUTF8(PyObject * o)
    {
        return (char *)((PyASCIIObject *)o + 1);
    }
    PyObject * PyUnicode_FromObject(PyObject * o)
    {
        rt_incref(o);
        return o;
    }
    Py_UCS4 * PyUnicode_AsUCS4(PyObject * o, Py_UCS4 * buf, Py_ssize_t n, int copynull)
    {
        int64_t len = ((PyASCIIObject *)o)->length;
        const char * s = (char *)((PyASCIIObject *)o + 1);
        for (int64_t i = 0; i < len && i < n; i++)
            buf[i] = (unsigned char)s[i];
        if (copynull && len < n)
            buf[len] = 0;
        return buf;
    }
    Py_UCS4 * PyUnicode_AsUCS4Copy(PyObject * o)
    {
        int64_t len = ((PyASCIIObject *)o)->length;
        Py_UCS4 * b = (Py_UCS4 *)malloc((len + 1) * 4);
        return PyUnicode_AsUCS4(o, b, len + 1, 1);
    }
    int PyUnicode_CompareWithASCIIString(PyObject * o, const char * s)
    {
        return strcmp((char *)((PyASCIIObject *)o + 1), s);
    }
    void PyMem_Free(void * p)
    {
        free(p);
    }
    void * PyMem_Malloc(size_t n)
    {
        return malloc(n);
    }
    // dict
    PyObject * PyDict_New(void)
    {
        return (PyObject *)newobj<FakeDict>(&PyDict_Type);
    }
    static bool streq(PyObject * k, const char * s)
    {
        return strcmp(PyUnicode_AsUTF8(k), s) == 0;
    }
    PyObject * PyDict_GetItemString(PyObject * o, const char * s)
    {
        FakeDict * d = (FakeDict *)o;
        for (int64_t i = 0; i < d->n; i++)
            if (streq(d->k[i], s))
                return d->v[i];
        return nullptr;
    }
    int PyDict_SetItemString(PyObject * o, const char * s, PyObject * v)
    {
        FakeDict * d = (FakeDict *)o;
        rt_incref(v);
        for (int64_t i = 0; i < d->n; i++)
            if (streq(d->k[i], s))
            {
                d->v[i] = v;
                return 0;
            }
        if (d->n < 64)
        {
            d->k[d->n] = PyUnicode_FromString(s);
            d->v[d->n++] = v;
        }
        return 0;
    }
    // modules, attributes
    PyObject * PyModule_Create2(PyModuleDef * def, int)
    {
        FakeModule * m = newobj<FakeModule>(&PyModule_Type);
        m->def = def;
        m->dict = PyDict_New();
        g_module = m;
        return (PyObject *)m;
    }
    PyObject * PyModule_GetDict(PyObject * m)
    {
        return ((FakeModule *)m)->dict;
    }
    int PyObject_SetAttrString(PyObject *, const char *, PyObject *)
    {
        return 0;
    }
    int PyObject_SetAttr(PyObject *, PyObject *, PyObject *)
    {
        return 0;
    }
    static PyObject g_capsule = { { IMMORTAL }, &PyCapsule_Type };
    PyObject * PyObject_GetAttrString(PyObject * o, const char * s)
    {
        if (strcmp(s, "_ARRAY_API") == 0)
        {
            g_capsule.ob_refcnt++;
            return &g_capsule;
        }
        setErr(PyExc_AttributeError, "attribute");
        return nullptr;
    }
    void * PyCapsule_GetPointer(PyObject *, const char *)
    {
        return g_table;
    }
    PyObject * PyImport_ImportModule(const char *)
    {
        return (PyObject *)newobj<FakeModule>(&PyModule_Type);
    }
    int PyCallable_Check(PyObject * o)
    {
        return 0;
    }
    int PyStructSequence_InitType2(PyTypeObject * t, PyStructSequence_Desc * d)
    {
        t->tp_flags |= Py_TPFLAGS_TUPLE_SUBCLASS;
        t->tp_base = &PyTuple_Type;
        t->tp_dictoffset = d->n_in_sequence;
        t->ob_base.ob_base.ob_refcnt = IMMORTAL;
        return 0;
    }
    PyObject * PyStructSequence_New(PyTypeObject * t)
    {
        PyObject * o = PyTuple_New(t->tp_dictoffset);
        return o;
    }
    // ---------------------------------------------------------------- argument parsing
    static int parse(PyObject * args, const char * f, va_list va)
    {
        int64_t n = ((PyVarObject *)args)->ob_size, i = 0;
        bool opt = false;
        for (; *f; f++)
        {
            if (*f == '|' || *f == '$')
            {
                opt = true;
                continue;
            }
            if (*f == ':' || *f == ';')
                break;
            PyObject * a = i < n ? ((PyTupleObject *)args)->ob_item[i] : nullptr;
            if (! a && ! opt)
            {
                setErr(PyExc_TypeError, "function missing required argument");
                return 0;
            }
            i++;
            switch (*f)
            {
            case 'O':
                if (f[1] == '!')
                {
                    f++;
                    PyTypeObject * t = va_arg(va, PyTypeObject *);
                    PyObject ** p = va_arg(va, PyObject **);
                    if (a)
                    {
                        if (! isType(a, t))
                        {
                            setErr(PyExc_TypeError, "argument has the wrong type");
                            return 0;
                        }
                        *p = a;
                    }
                }
                else
                {
                    PyObject ** p = va_arg(va, PyObject **);
                    if (a)
                        *p = a;
                }
                break;
            case 'i':
                {
                    int * p = va_arg(va, int *);
                    if (a)
                    {
                        if (! PyLong_Check(a))
                        {
                            setErr(PyExc_TypeError, "an integer is required");
                            return 0;
                        }
                        *p = (int)PyLong_AsLongLong(a);
                    }
                    break;
                }
            case 'I':
                {
                    unsigned * p = va_arg(va, unsigned *);
                    if (a)
                        *p = (unsigned)PyLong_AsLongLong(a);
                    break;
                }
            case 'p':
                {
                    int * p = va_arg(va, int *);
                    if (a)
                        *p = PyObject_IsTrue(a);
                    break;
                }
            case 'b':
                {
                    unsigned char * p = va_arg(va, unsigned char *);
                    if (a)
                        *p = (unsigned char)PyLong_AsLongLong(a);
                    break;
                }
            case 'l':
            case 'L':
            case 'n':
            case 'k':
            case 'K':
                {
                    long long * p = va_arg(va, long long *);
                    if (a)
                    {
                        if (! PyLong_Check(a))
                        {
                            setErr(PyExc_TypeError, "an integer is required");
                            return 0;
                        }
                        *p = PyLong_AsLongLong(a);
                    }
                    break;
                }
            case 'd':
                {
                    double * p = va_arg(va, double *);
                    if (a)
                        *p = PyFloat_AsDouble(a);
                    break;
                }
            case 'f':
                {
                    float * p = va_arg(va, float *);
                    if (a)
                        *p = (float)PyFloat_AsDouble(a);
                    break;
                }
            case 's':
            case 'y':
            case 'z':
                {
                    const char ** p = va_arg(va, const char **);
                    Py_ssize_t * len = nullptr;
                    if (f[1] == '#')
                    {
                        f++;
                        len = va_arg(va, Py_ssize_t *);
                    }
                    if (a)
                    {
                        if (PyUnicode_Check(a))
                        {
                            *p = PyUnicode_AsUTF8(a);
                            if (len)
                                *len = ((PyASCIIObject *)a)->length;
                        }
                        else if (PyBytes_Check(a))
                        {
                            *p = ((PyBytesObject *)a)->ob_sval;
                            if (len)
                                *len = ((PyVarObject *)a)->ob_size;
                        }
                        else
                        {
                            setErr(PyExc_TypeError, "a string is required");
                            return 0;
                        }
                    }
                    break;
                }
            default: sym_unsupported("PyArg_ParseTuple format");
            }
        }
        if (i < n)
        {
            setErr(PyExc_TypeError, "too many arguments");
            return 0;
        }
        return 1;
    }
#undef PyArg_ParseTuple
#undef Py_BuildValue
    int PyArg_ParseTuple(PyObject * args, const char * f, ...)
    {
        va_list va;
        va_start(va, f);
        int r = parse(args, f, va);
        va_end(va);
        return r;
    }
    int _PyArg_ParseTuple_SizeT(PyObject * args, const char * f, ...)
    {
        va_list va;
        va_start(va, f);
        int r = parse(args, f, va);
        va_end(va);
        return r;
    }
}
struct Builder
{
    va_list va;
    PyObject * one(const char *& f)
    {
        switch (*f++)
        {
        case 'i':
        case 'h':
        case 'b': return PyLong_FromLongLong(va_arg(va, int));
        case 'I': return PyLong_FromLongLong(va_arg(va, unsigned));
        case 'l':
        case 'L':
        case 'n':
        case 'k':
        case 'K': return PyLong_FromLongLong(va_arg(va, long long));
        case 'd':
        case 'f': return PyFloat_FromDouble(va_arg(va, double));
        case 's': return PyUnicode_FromString(va_arg(va, const char *));
        case 'O':
            {
                PyObject * o = va_arg(va, PyObject *);
                rt_incref(o);
                return o;
            }
        case 'N': return va_arg(va, PyObject *);
        case '(': return seq(f, ')', true);
        case '[': return seq(f, ']', false);
        default: sym_unsupported("Py_BuildValue format"); return nullptr;
        }
    }
    PyObject * seq(const char *& f, char end, bool tuple)
    {
        PyObject * it[64];
        int n = 0;
        while (*f && *f != end)
        {
            if (*f == ',' || *f == ' ')
            {
                f++;
                continue;
            }
            it[n++] = one(f);
        }
        if (*f)
            f++;
        PyObject * r = tuple ? PyTuple_New(n) : PyList_New(n);
        for (int i = 0; i < n; i++)
            if (tuple)
                ((PyTupleObject *)r)->ob_item[i] = it[i];
            else
                ((PyListObject *)r)->ob_item[i] = it[i];
        return r;
    }
    PyObject * top(const char * f)
    {
        int n = 0, depth = 0;
        for (const char * p = f; *p; p++)
        {
            if (*p == '(' || *p == '[')
            {
                if (depth++ == 0)
                    n++;
            }
            else if (*p == ')' || *p == ']')
                depth--;
            else if (*p != ',' && *p != ' ' && depth == 0)
                n++;
        }
        if (n == 0)
        {
            rt_incref(Py_None);
            return Py_None;
        }
        if (n == 1)
            return one(f);
        return seq(f, 0, true);
    }
};
extern "C"
{
    PyObject * Py_BuildValue(const char * f, ...)
    {
        Builder b;
        va_start(b.va, f);
        PyObject * r = b.top(f);
        va_end(b.va);
        return r;
    }
    PyObject * _Py_BuildValue_SizeT(const char * f, ...)
    {
        Builder b;
        va_start(b.va, f);
        PyObject * r = b.top(f);
        va_end(b.va);
        return r;
    }
}

// ------------------------------------------------------------------ harness helpers
void rt_incref(void * o)
{
    ((PyObject *)o)->ob_refcnt++;
}
void rt_decref(void * o)
{
    Py_DecRef((PyObject *)o);
}
PyArrayObject * rt_array(int dtype, int64_t n, int64_t itemsize)
{
    npy_intp d[1] = { n };
    return (PyArrayObject *)newArray(&Array_Type, 1, d, dtype, nullptr, nullptr, itemsize, 0);
}
PyArrayObject * rt_array2(int dtype, int64_t d0, int64_t d1, bool fortran, int64_t itemsize)
{
    npy_intp d[2] = { d0, d1 };
    return (PyArrayObject *)newArray(&Array_Type, 2, d, dtype, nullptr, nullptr, itemsize, fortran);
}
PyArrayObject * rt_array_strided(int dtype, int64_t n, int64_t stride, int64_t itemsize)
{
    int64_t es = rt_itemsize(dtype) ? rt_itemsize(dtype) : itemsize;
    int64_t as = stride < 0 ? -stride : stride;
    int64_t size = n ? (n - 1) * as + es : es;
    char * buf = (char *)aligned_alloc(64, size);
    npy_intp d[1] = { n }, s[1] = { stride };
    return (PyArrayObject *)newArray(&Array_Type, 1, d, dtype, s, stride < 0 ? buf + (n ? (n - 1) * as : 0) : buf, itemsize,
                                     NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE);
}
PyArrayObject * rt_view(int dtype, int nd, npy_intp const * dims, npy_intp const * strides, void * data, int64_t itemsize)
{
    return (PyArrayObject *)newArray(&Array_Type, nd, dims, dtype, strides, data, itemsize, NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE);
}
PyObject * rt_int(int64_t v)
{
    return PyLong_FromLongLong(v);
}
PyObject * rt_float(double v)
{
    return PyFloat_FromDouble(v);
}
PyObject * rt_none()
{
    rt_incref(Py_None);
    return Py_None;
}
PyObject * rt_bool(bool b)
{
    return PyBool_FromLong(b);
}
PyObject * rt_bytes(const char * s, int64_t n)
{
    return PyBytes_FromStringAndSize(s, n);
}
PyObject * rt_str(const char * s)
{
    return PyUnicode_FromString(s);
}
PyObject * rt_tuple(int n, ...)
{
    va_list va;
    va_start(va, n);
    PyObject * t = PyTuple_New(n);
    for (int i = 0; i < n; i++)
        ((PyTupleObject *)t)->ob_item[i] = va_arg(va, PyObject *);
    va_end(va);
    return t;
}
PyObject * rt_list(int n, ...)
{
    va_list va;
    va_start(va, n);
    PyObject * t = PyList_New(n);
    for (int i = 0; i < n; i++)
        ((PyListObject *)t)->ob_item[i] = va_arg(va, PyObject *);
    va_end(va);
    return t;
}
PyObject * rt_calltuple(const char * method, PyObject * args, PyObject * kw)
{
    PyErr_Clear();
    for (PyMethodDef * m = g_module->def->m_methods; m->ml_name; m++)
        if (strcmp(m->ml_name, method) == 0)
        {
            PyObject * r;
            if (m->ml_flags & METH_KEYWORDS)
                r = ((PyCFunctionWithKeywords)(void *)m->ml_meth)((PyObject *)g_module, args, kw);
            else
                r = m->ml_meth((PyObject *)g_module, args);
            return r;
        }
    sym_assert(0, "module method not found");
    return nullptr;
}
PyObject * rt_call(const char * method, int n, ...)
{
    va_list va;
    va_start(va, n);
    PyObject * t = PyTuple_New(n);
    for (int i = 0; i < n; i++)
        ((PyTupleObject *)t)->ob_item[i] = va_arg(va, PyObject *);
    va_end(va);
    return rt_calltuple(method, t);
}
const char * rt_error()
{
    return g_errType ? g_err : nullptr;
}
int64_t rt_warnings()
{
    return g_warnings;
}
void rt_clear()
{
    PyErr_Clear();
}
int64_t rt_len(PyObject * o)
{
    if (rt_isarray(o))
    {
        int64_t n = 1;
        for (int i = 0; i < PyArray_NDIM((PyArrayObject *)o); i++)
            n *= PyArray_DIM((PyArrayObject *)o, i);
        return n;
    }
    return ((PyVarObject *)o)->ob_size;
}
PyObject * rt_item(PyObject * o, int64_t i)
{
    if (Py_TYPE(o) == &PyList_Type)
        return ((PyListObject *)o)->ob_item[i];
    return ((PyTupleObject *)o)->ob_item[i];
}
int64_t rt_asint(PyObject * o)
{
    return Py_TYPE(o) == &PyLong_Type ? ((FakeInt *)o)->v : PyLong_AsLongLong(o);
}
bool rt_isbig(PyObject * o)
{
    return isBig(o);
}
bool rt_isfloat(PyObject * o)
{
    return PyFloat_Check(o);
}
double rt_asdouble(PyObject * o)
{
    return PyFloat_AsDouble(o);
}
extern "C" PyObject * PyInit_riptide_cpp();
extern "C" void rt_init()
{
    PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
    PyBool_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
    PyBool_Type.tp_base = &PyLong_Type;
    PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS;
    PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS;
    PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS;
    PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS;
    PyBytes_Type.tp_flags = Py_TPFLAGS_BYTES_SUBCLASS;
    PyType_Type.tp_flags = Py_TPFLAGS_TYPE_SUBCLASS;
    for (int i = 0; i < NPY_NTYPES; i++)
    {
        ScalarTypes[i].ob_base.ob_base.ob_refcnt = IMMORTAL;
        ScalarTypes[i].ob_base.ob_base.ob_type = &PyType_Type;
        ScalarTypes[i].tp_name = "numpy scalar";
        ScalarTypes[i].tp_base = &Generic_Type;
    }
    for (int i = 0; i < NPY_NTYPES; i++)
    {
        g_descr[i] = nullptr;
        if (rt_itemsize(i) && (i < NPY_STRING || i > NPY_VOID))
        {
            g_descr[i] = makeDescr(i, 0);
            g_descr[i]->ob_base.ob_refcnt = IMMORTAL;
        }
    }
    Array_Type.ob_base.ob_base.ob_refcnt = IMMORTAL;
    for (int i = 0; i < 400; i++)
        g_table[i] = (void *)np_unsupported;
    g_table[0] = (void *)np_ver;
    g_table[210] = (void *)np_endian;
    g_table[211] = (void *)np_feature;
    g_table[2] = &Array_Type;
    g_table[3] = &Descr_Type;
    g_table[10] = &Generic_Type;
    // abstract and concrete scalar types referenced by PyArray_IsScalar
    for (int i = 11; i <= 19; i++)
    {
        AbsTypes[i - 11].ob_base.ob_base.ob_refcnt = IMMORTAL;
        AbsTypes[i - 11].ob_base.ob_base.ob_type = &PyType_Type;
        AbsTypes[i - 11].tp_name = "numpy abstract scalar";
        AbsTypes[i - 11].tp_base = &Generic_Type;
        g_table[i] = &AbsTypes[i - 11];
    }
    g_table[8] = &ScalarTypes[NPY_BOOL];
    for (int i = 20; i < 40; i++)
        g_table[i] = &ScalarTypes[i - 20 < NPY_NTYPES ? i - 20 : 0];
    g_table[45] = (void *)np_DescrFromType;
    g_table[46] = (void *)np_TypeObjectFromType;
    g_table[59] = (void *)np_Size;
    g_table[69] = (void *)np_FromAny;
    g_table[85] = (void *)np_NewCopy;
    g_table[215] = &ScalarTypes[NPY_DATETIME];
    g_table[216] = &ScalarTypes[NPY_TIMEDELTA];
    g_table[217] = &ScalarTypes[NPY_HALF];
    g_table[93] = (void *)np_New;
    g_table[94] = (void *)np_NewFromDescr;
    g_table[96] = (void *)np_DescrNewFromType;
    g_table[137] = (void *)np_View;
    g_table[158] = (void *)np_MultiplyList;
    g_table[159] = (void *)np_MultiplyIntList;
    g_table[161] = (void *)np_CompareLists;
    g_table[277] = (void *)np_NewLikeArray;
    g_table[282] = (void *)np_SetBase;
    PyInit_riptide_cpp();
}
// Logger.cpp is not part of the model.
__attribute__((visibility("default"))) void SetupLogging() {}
void CleanupLogging() {}
PyObject * EnableLogging(PyObject *, PyObject *)
{
    return rt_none();
}
PyObject * DisableLogging(PyObject *, PyObject *)
{
    return rt_none();
}
PyObject * GetRiptideLoggers(PyObject *, PyObject *)
{
    return rt_none();
}
