"""python D11_nested_import.py: exits 0 when a C++ module imported by another C++ module is built from its current source.
Run with /opt/vp/venv/bin/python, CC=gcc-11 CXX=g++-11 CCACHE_DISABLE=1."""
import os, shutil, subprocess, sys, sysconfig, tempfile
repo = os.environ.get("VP_REPO", "/repo")
d = tempfile.mkdtemp()
try:
    pkg = d + "/unpadded"
    os.mkdir(pkg)
    for f in os.listdir(repo + "/py/unpadded"):
        if f.endswith(".py"):
            shutil.copy(repo + "/py/unpadded/" + f, pkg)
    inc = subprocess.check_output([sys.executable, "-m", "pybind11", "--includes"], text=True).split()
    subprocess.check_call(["g++-11", "-std=c++17", "-w", "-shared", "-fPIC", "-I" + repo + "/include"] + inc +
                          [repo + "/py/unpadded/_details.cpp", "-o", pkg + "/_details" + sysconfig.get_config_var("EXT_SUFFIX")])

    def module(name, version, more=""):
        open("%s/%s.cpp" % (d, name), "w").write(
            '// cppimport\n#include <Python.h>\nstatic PyModuleDef d = {PyModuleDef_HEAD_INIT, "%s", nullptr, -1, nullptr};\n'
            'PyMODINIT_FUNC PyInit_%s() { PyObject *m = PyModule_Create(&d); PyModule_AddIntConstant(m, "version", %d); %s return m; }\n'
            '/* <%% setup_unpadded(cfg) %%> */\n' % (name, name, version, more))

    def result(code):
        return subprocess.check_output([sys.executable, "-B", "-c", "import unpadded, " + code], cwd=d, text=True,
                                       stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=d)).split()[-1]
    module("inner", 1)
    module("outer", 1, 'PyObject *o = PyImport_ImportModule("inner"); if (!o) return nullptr; PyModule_AddObject(m, "inner", o);')
    result("inner; print(inner.version)")
    module("inner", 2)
    v = result("outer; print(outer.inner.version)")
    print("imported version", v, "of a source whose version is 2")
    sys.exit(v != "2")
finally:
    shutil.rmtree(d)
