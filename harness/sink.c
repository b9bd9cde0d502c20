/* A place for messages that runs no python code: say(x) appends x to the list and, at the
   given message, a signal arrives, which python notices when it is asked the next time. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <signal.h>

static PyObject *heard = NULL;
static Py_ssize_t fatal = -1;

static PyObject *say(PyObject *self, PyObject *text) {
    if (heard && PyList_Append(heard, text) < 0) return NULL;
    if (heard && PyList_GET_SIZE(heard) == fatal) PyErr_SetInterruptEx(SIGINT);
    Py_RETURN_NONE;
}

static PyObject *listen(PyObject *self, PyObject *args) {
    PyObject *list;
    if (!PyArg_ParseTuple(args, "O!n", &PyList_Type, &list, &fatal)) return NULL;
    Py_INCREF(list);
    Py_XDECREF(heard);
    heard = list;
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {{"say", say, METH_O, NULL},
                                {"listen", listen, METH_VARARGS, NULL},
                                {NULL, NULL, 0, NULL}};
static struct PyModuleDef module = {PyModuleDef_HEAD_INIT, "sink", NULL, -1, methods};
PyMODINIT_FUNC PyInit_sink(void) { return PyModule_Create(&module); }
