/* declarations only: what the analysis of py_star_scan.c needs to know of the C API of Python */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PyMODINIT_FUNC PyObject *
typedef long Py_ssize_t;
typedef struct _object PyObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { int base; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size;
  PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {1}
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
extern PyObject *PyExc_IndexError, *PyExc_TypeError, *PyExc_ValueError, *PyExc_MemoryError, *PyExc_RuntimeError,
  *PyExc_SystemError, *PyExc_StopIteration, *PyExc_KeyError, *PyExc_UnicodeError, *PyExc_UnicodeDecodeError,
  *PyExc_Exception, *PyExc_OverflowError, *PyExc_LookupError;
extern PyObject *Py_None, *Py_True, *Py_False;
PyObject *PyModule_Create(PyModuleDef *);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *Py_BuildValue(const char *, ...);
void Py_XDECREF(PyObject *);
void Py_DECREF(PyObject *);
void Py_INCREF(PyObject *);
void Py_XINCREF(PyObject *);
PyObject *Py_NewRef(PyObject *);
PyObject *Py_XNewRef(PyObject *);
void Py_CLEAR_stub(PyObject **);
#define Py_CLEAR(x) Py_CLEAR_stub(&(x))
#define Py_RETURN_NONE return Py_NewRef(Py_None)
PyObject *PyUnicode_FromString(const char *);
PyObject *PyUnicode_FromStringAndSize(const char *, Py_ssize_t);
PyObject *PyUnicode_DecodeUTF8(const char *, Py_ssize_t, const char *);
const char *PyUnicode_AsUTF8(PyObject *);
const char *PyUnicode_AsUTF8AndSize(PyObject *, Py_ssize_t *);
int PyUnicode_Check(PyObject *);
Py_ssize_t PyUnicode_GetLength(PyObject *);
Py_ssize_t PyUnicode_GET_LENGTH(PyObject *);
typedef unsigned int Py_UCS4;
Py_ssize_t PyUnicode_FindChar(PyObject *, Py_UCS4, Py_ssize_t, Py_ssize_t, int);
Py_ssize_t PyList_Size(PyObject *);
Py_ssize_t PyList_GET_SIZE(PyObject *);
Py_ssize_t PyTuple_Size(PyObject *);
Py_ssize_t PyTuple_GET_SIZE(PyObject *);
PyObject *PyList_GetItem(PyObject *, Py_ssize_t);
PyObject *PyList_GET_ITEM(PyObject *, Py_ssize_t);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
PyObject *PyTuple_GET_ITEM(PyObject *, Py_ssize_t);
Py_ssize_t PyLong_AsSsize_t(PyObject *);
size_t PyLong_AsSize_t(PyObject *);
void *PyMem_RawMalloc(size_t);
void *PyMem_RawCalloc(size_t, size_t);
void *PyMem_RawRealloc(void *, size_t);
void PyMem_RawFree(void *);
void *PyObject_Malloc(size_t);
void *PyObject_Realloc(void *, size_t);
void PyObject_Free(void *);
#define PyMem_New(T, n) ((T *) PyMem_Malloc((n) * sizeof(T)))
#define PyMem_NEW PyMem_New
#define PyMem_Resize(p, T, n) ((p) = (T *) PyMem_Realloc((p), (n) * sizeof(T)))
#define PyMem_RESIZE PyMem_Resize
#define Py_UNUSED(x) _unused_ ## x
#define Py_SETREF(a, b) do { PyObject *_tmp = (a); (a) = (b); Py_DECREF(_tmp); } while (0)
#define Py_XSETREF(a, b) do { PyObject *_tmp = (a); (a) = (b); Py_XDECREF(_tmp); } while (0)
PyObject *PyList_New(Py_ssize_t);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *);
void PyList_SET_ITEM(PyObject *, Py_ssize_t, PyObject *);
int PyList_Append(PyObject *, PyObject *);
PyObject *PyTuple_New(Py_ssize_t);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
void PyTuple_SET_ITEM(PyObject *, Py_ssize_t, PyObject *);
PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromSize_t(size_t);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
long PyLong_AsLong(PyObject *);
void PyErr_SetString(PyObject *, const char *);
void PyErr_SetNone(PyObject *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
void *PyMem_Malloc(size_t);
void *PyMem_Calloc(size_t, size_t);
void *PyMem_Realloc(void *, size_t);
void PyMem_Free(void *);
#endif
