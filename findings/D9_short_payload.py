# C20: decoding a truncated response crashed the interpreter (run in a child process).
import os, subprocess, sys, sysconfig, tempfile
if len(sys.argv) == 1:
    with tempfile.TemporaryDirectory() as t:
        src = t + "/m.cpp"
        open(src, "w").write('#include <upd/keyring.hpp>\n#include <upd/python.hpp>\nstd::uint16_t f() { return 1; }\n'
                             'constexpr upd::keyring kr{upd::flist<f>, upd::little_endian, upd::twos_complement};\n'
                             'PYBIND11_MODULE(m, x) { upd::py::unpack_keyring(x, kr); }\n')
        inc = subprocess.check_output([sys.executable, "-m", "pybind11", "--includes"], text=True).split()
        subprocess.check_call(["g++-11", "-std=c++17", "-shared", "-fPIC", *inc, "-I/repo/include", src,
                               "-o", t + "/m" + sysconfig.get_config_var("EXT_SUFFIX")])
        sys.exit(subprocess.call([sys.executable, __file__, t]))
sys.path.insert(0, sys.argv[1])
import m
try:
    m.f.decode(b"\x01")
    sys.exit(1)
except ValueError:
    pass
