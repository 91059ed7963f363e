// Runs a Python enumerator (c24.py) inside the exploration harness: the bindings' extension
// modules, built from the repository's sources, are imported by the embedded interpreter.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <mc.hpp>
#include <libgen.h>

static PyObject *m_next(PyObject *, PyObject *) { return PyBool_FromLong(mc::next()); }
static PyObject *m_desc(PyObject *, PyObject *a)
{ char const *s; if (!PyArg_ParseTuple(a, "s", &s)) return 0; mc::desc("%s", s); Py_RETURN_NONE; }
static PyObject *m_fail(PyObject *, PyObject *a)
{ char const *k, *s; if (!PyArg_ParseTuple(a, "ss", &k, &s)) return 0; mc::fail(k, "%s", s); Py_RETURN_NONE; }
static PyObject *m_step(PyObject *, PyObject *) { mc::step(); Py_RETURN_NONE; }
static PyObject *m_nontrivial(PyObject *, PyObject *) { mc::nontrivial(); Py_RETURN_NONE; }
static PyObject *m_state(PyObject *, PyObject *a)
{ char const *s; Py_ssize_t n; if (!PyArg_ParseTuple(a, "s#", &s, &n)) return 0; mc::state(mc::hash(s, n)); Py_RETURN_NONE; }
static PyObject *m_outcome(PyObject *, PyObject *a)
{ char const *s; Py_ssize_t n; if (!PyArg_ParseTuple(a, "y#", &s, &n)) return 0; mc::outcome(mc::hash(s, n)); Py_RETURN_NONE; }
static PyObject *m_thorough(PyObject *, PyObject *) { return PyBool_FromLong(mc::thorough()); }
static PyObject *m_arg(PyObject *, PyObject *a)
{ char const *s; if (!PyArg_ParseTuple(a, "s", &s)) return 0; return PyUnicode_FromString(mc::g().args[s].c_str()); }
static PyMethodDef methods[] = {
  {"next", m_next, METH_NOARGS, 0}, {"desc", m_desc, METH_VARARGS, 0}, {"fail", m_fail, METH_VARARGS, 0},
  {"step", m_step, METH_NOARGS, 0}, {"nontrivial", m_nontrivial, METH_NOARGS, 0},
  {"state", m_state, METH_VARARGS, 0}, {"outcome", m_outcome, METH_VARARGS, 0},
  {"thorough", m_thorough, METH_NOARGS, 0}, {"arg", m_arg, METH_VARARGS, 0}, {0, 0, 0, 0}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "mc", 0, -1, methods, 0, 0, 0, 0};
static PyObject *init() { return PyModule_Create(&def); }

static void enumerate()
{
  PyImport_AppendInittab("mc", init);
  Py_Initialize();
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n > 0 ? n : 0] = 0;
  std::string mods = std::string(self) + "_mods";
  PyObject *path = PySys_GetObject("path");
  PyObject *s = PyUnicode_FromString(SCRIPT_DIR);
  PyList_Insert(path, 0, s);
  PyObject *m = PyImport_ImportModule("c24");
  PyObject *r = m ? PyObject_CallMethod(m, "enumerate_all", "s", mods.c_str()) : 0;
  if (!r) { PyErr_Print(); fflush(stderr); _exit(5); }
}
int main(int argc, char **argv)
{ return mc::run(argc, argv, enumerate); }
