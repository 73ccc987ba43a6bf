"""Plays histories of edits and imports with the import hook installed.  Each section has its own directories; each process
of a section is a fork of this one, which has imported nothing but the package.
Arguments: directory of the package, directory for the sections."""
import importlib
import json
import os
import shutil
import signal
import sys
import sysconfig

root, area = sys.argv[1], sys.argv[2]
sys.path.insert(0, root)
import unpadded  # noqa: E402

SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
HEADER = os.path.join(root, "unpadded", "include", "vp_header.hpp")

TINY = """%(first)s
#include <Python.h>
#include <upd/type.hpp>
#include <vp_header.hpp>
%(include)s
static_assert(__cplusplus >= 201703L && sizeof(upd::byte_t) == 1, "");
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "%(leaf)s", nullptr, -1, nullptr};
PyMODINIT_FUNC PyInit_%(leaf)s() {
  PyObject *m = PyModule_Create(&def);
  PyModule_AddStringConstant(m, "vp", "cpp");
  PyModule_AddIntConstant(m, "v", %(v)d);
  PyModule_AddIntConstant(m, "h", VP_HEADER);
  PyModule_AddIntConstant(m, "x", %(x)s);
%(body)s
  return m;
}
/* <%% setup_unpadded(cfg) %%> */
"""
REAL = """%(first)s
#include <upd/keyring.hpp>
#include <upd/python.hpp>
#include <vp_header.hpp>
%(include)s
inline std::uint8_t f(std::uint16_t) { return 0; }
inline void g(bool, std::int32_t x) {}
inline constexpr upd::keyring kr{upd::flist<f, g>, upd::little_endian, upd::twos_complement};
PYBIND11_MODULE(%(leaf)s, m) {
  upd::py::declare_dispatcher(m, "Dispatcher", kr);
  m.attr("vp") = "cpp"; m.attr("v") = %(v)d; m.attr("h") = VP_HEADER; m.attr("x") = %(x)s;
}
<%% setup_unpadded(cfg) %%>
"""


def emit(e):
    os.write(1, (json.dumps(e, separators=(",", ":")) + "\n").encode())


class Section:
    def __init__(self, place):
        # place 0: current directory; 1: a later directory of sys.path; 2: a package
        self.dir = os.path.join(area, "s")
        shutil.rmtree(self.dir, ignore_errors=True)
        self.work = os.path.join(self.dir, "work")
        self.lib = os.path.join(self.dir, "lib")
        self.extra = os.path.join(self.dir, "extra")
        for d in (self.work, self.lib, self.extra, os.path.join(self.work, "pk")):
            os.makedirs(d)
        open(os.path.join(self.work, "pk", "__init__.py"), "w").close()
        self.place = place
        self.header(1)

    def header(self, h):
        open(HEADER, "w").write("#define VP_HEADER %d\n" % h)

    # a name which ends with 2: a module of the same last name elsewhere (in the package, or outside it)
    def where(self, m):
        return (m, self.place) if not m.endswith("2") else (m[:-1], 0 if self.place == 2 else 2)

    def full(self, m):
        m, place = self.where(m)
        return "pk." + m if place == 2 else m

    def path(self, m, ext):
        m, place = self.where(m)
        d = {0: self.work, 1: self.lib, 2: os.path.join(self.work, "pk")}[place]
        return os.path.join(d, m + ext)

    def write(self, path, text):
        # an editor's way: a new file
        t = path + ".new~"
        open(t, "w").write(text)
        os.replace(t, path)
        importlib.invalidate_caches()

    def remove(self, path):
        if os.path.exists(path):
            os.remove(path)
        importlib.invalidate_caches()

    def cpp(self, m, v, mark, how, needs):
        if v == 0:
            return self.remove(self.path(m, ".cpp"))
        body = ""
        if how == "raises":
            body += '  PyErr_SetString(PyExc_ImportError, "raises"); return nullptr;\n'
        if how == "dies":
            body += '  PyErr_SetString(PyExc_ValueError, "dies"); return nullptr;\n'
        if how == "broken":
            body += "  this does not compile;\n"
        if needs:
            body += '  { PyObject *o = PyImport_ImportModule("%s"); if (!o) return nullptr; PyModule_AddObject(m, "needs", o); }\n' % self.full(needs)
        self.write(self.path(m, ".cpp"), (REAL if how == "real" else TINY) % dict(
            first="// cppimport" if mark else "// not for the hook", leaf=self.where(m)[0], v=v, body=body,
            include="#include <vp_extra.hpp>" if how == "extra" else "", x="VP_EXTRA" if how == "extra" else "0"))

    def py(self, m, v, how, needs):
        if v == 0:
            return self.remove(self.path(m, ".py"))
        text = "vp, v = 'py', %d\n" % v
        if needs:
            text += "import importlib\nneeds = importlib.import_module('%s')\n" % self.full(needs)
        if how == "dies":
            text += "raise ValueError('dies')\n"
        self.write(self.path(m, ".py"), text)

    def shape(self, mod):
        n = [self.shape(mod.needs)] if hasattr(mod, "needs") else []
        if mod.vp == "py":
            return {"k": "py", "v": mod.v, "n": n}
        if hasattr(mod, "Dispatcher") and mod.f.encode(258) != b"\0\2\1":
            return {"k": "?"}
        return {"k": "cpp", "v": mod.v, "h": mod.h, "x": mod.x, "n": n}

    def imported(self, m):
        before = (list(sys.path), os.getcwd(), sys.getdlopenflags())
        r = self.imported1(m)
        return r if before == (sys.path, os.getcwd(), sys.getdlopenflags()) else {"k": "?", "what": "surroundings"}

    def imported1(self, m):
        name = self.full(m)
        try:
            mod = importlib.import_module(name)
        except ModuleNotFoundError as x:
            return {"k": "missing"} if x.name == name else {"k": "fail"}
        except BaseException:
            return {"k": "fail"}
        if sys.modules.get(name) is not mod or mod.__name__.split(".")[-1] != self.where(m)[0]:
            return {"k": "?", "what": "sys.modules"}
        return self.shape(mod)

    def op(self, w):
        o = w[0]
        if o == "cpp":
            self.cpp(w[1], int(w[2]), int(w[3]), w[4], w[5].strip("-"))
            emit({"e": "cpp", "m": w[1], "v": int(w[2]), "mark": int(w[3]), "how": w[4], "needs": w[5].strip("-")})
        elif o == "py":
            self.py(w[1], int(w[2]), w[3], w[4].strip("-"))
            emit({"e": "py", "m": w[1], "v": int(w[2]), "how": w[3], "needs": w[4].strip("-")})
        elif o == "delart":
            self.remove(self.path(w[1], SUFFIX))
            emit({"e": "delart", "m": w[1]})
        elif o == "corrupt":
            self.write(self.path(w[1], SUFFIX), "not an extension module")
            emit({"e": "corrupt", "m": w[1]})
        elif o == "hdr":
            self.header(int(w[1]))
            emit({"e": "hdr", "h": int(w[1])})
        elif o == "extra":
            self.write(os.path.join(self.extra, "vp_extra.hpp"), "#define VP_EXTRA %s\n" % w[1])
            unpadded.set_extra_include_dirs([self.extra] if int(w[1]) else [])
            emit({"e": "extra", "h": int(w[1])})
        elif o == "imp":
            emit({"e": "imp", "m": w[1], "r": self.imported(w[1])})
        else:
            raise ValueError(o)


def quiet():
    """Nothing but the trace goes to the standard output"""
    global emit
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def emit(e):
        os.write(fd, (json.dumps(e, separators=(",", ":")) + "\n").encode())


def process(sec, lines):
    """Everything up to the end of the process"""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(250)
            quiet()
            os.chdir(sec.work)
            sys.path[0:0] = [""]
            sys.path.append(sec.lib)
            for l in lines:
                try:
                    sec.op(l.split())
                except Exception as x:
                    emit({"e": "pfail", "what": "%s: %r" % (l, x)})
                    code = 4
                    break
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st and os.waitstatus_to_exitcode(st) != 4:
        emit({"e": "pfail", "what": "process ended with %d" % os.waitstatus_to_exitcode(st)})
    return st == 0


def main():
    sec, lines, alive = None, [], True
    for l in sys.stdin.read().split("\n") + ["seed 0 0"]:
        w = l.split()
        if not w:
            continue
        if w[0] in ("seed", "proc"):
            if lines and alive:
                alive = process(sec, lines)
            lines = []
            if w[0] == "proc" and alive:
                emit({"e": "proc"})
            if w[0] == "seed":
                sec, place = None, int(w[2])
        elif w[0] == "reset":
            sec, alive = Section(place), True
            emit({"e": "reset"})
        else:
            lines.append(l)
    shutil.rmtree(os.path.join(area, "s"), ignore_errors=True)


main()
