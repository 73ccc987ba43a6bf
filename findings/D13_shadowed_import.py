"""python D13_shadowed_import.py: exits 0 when what a C++ module of a package imports is not looked for in the directory of the package.
Run with /opt/vp/venv/bin/python, CC=gcc-11 CXX=g++-11 CCACHE_DISABLE=1."""
import os, shutil, subprocess, sys, sysconfig, tempfile
repo = os.environ.get("VP_REPO", "/repo")
d = tempfile.mkdtemp()
try:
    pkg = d + "/unpadded"
    os.mkdir(pkg)
    for f in os.listdir(repo + "/py/unpadded"):
        if f.endswith(".py"):
            shutil.copy(repo + "/py/unpadded/" + f, pkg)
    inc = subprocess.check_output([sys.executable, "-m", "pybind11", "--includes"], text=True).split()
    subprocess.check_call(["g++-11", "-std=c++17", "-w", "-shared", "-fPIC", "-I" + repo + "/include"] + inc +
                          [repo + "/py/unpadded/_details.cpp", "-o", pkg + "/_details" + sysconfig.get_config_var("EXT_SUFFIX")])

    def module(name, version, more=""):
        open("%s/%s.cpp" % (d, name), "w").write(
            '// cppimport\n#include <Python.h>\nstatic PyModuleDef d = {PyModuleDef_HEAD_INIT, "%s", nullptr, -1, nullptr};\n'
            'PyMODINIT_FUNC PyInit_%s() { PyObject *m = PyModule_Create(&d); PyModule_AddIntConstant(m, "version", %d); %s return m; }\n'
            '/* <%% setup_unpadded(cfg) %%> */\n' % (name, name, version, more))

    def result(code):
        return subprocess.check_output([sys.executable, "-B", "-c", "import unpadded, " + code], cwd=d, text=True,
                                       stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=d)).split()[-1]
    os.mkdir(d + "/pk")
    open(d + "/pk/__init__.py", "w").close()
    open(d + "/pk/inner.py", "w").write("version = 1\n")
    open(d + "/inner.py", "w").write("version = 2\n")
    module("outer", 1, 'PyObject *o = PyImport_ImportModule("inner"); if (!o) return nullptr; PyModule_AddObject(m, "inner", o);')
    os.rename(d + "/outer.cpp", d + "/pk/outer.cpp")
    v = result("pk.outer; print(pk.outer.inner.version)")
    print("pk.outer imported", {"1": "pk/inner.py", "2": "inner.py"}.get(v, v), "as inner")
    sys.exit(v != "2")
finally:
    shutil.rmtree(d)
