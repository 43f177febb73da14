import shutil, sys, pathlib
dst = pathlib.Path(sys.argv[1]) / "pybind11"
shutil.copytree("/usr/include/pybind11", dst, dirs_exist_ok=True)
p = dst / "numpy.h"
s = p.read_text()
def sub(a, b, n=1):
    global s
    assert s.count(a) == n, (a, s.count(a))
    s = s.replace(a, b)
sub("""    char flags;
    int type_num;
    int elsize;
    int alignment;
    char *subarray;""", """    char former_flags;
    int type_num;
    unsigned long long flags;
    Py_intptr_t elsize;
    Py_intptr_t alignment;
    PyObject *metadata;
    Py_hash_t hash;
    void *reserved_null[2];
    char *subarray;""")
sub("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50")
sub("numpy.core.multiarray", "numpy._core.multiarray")
sub("numpy.core._internal", "numpy._core._internal")
sub("int alignment() const { return detail", "int alignment() const { return (int)detail")
sub("char flags() const { return detail", "char flags() const { return (char)detail")
p.write_text(s)
p = dst / "pybind11.h"
s = p.read_text()
p.write_text(s)
