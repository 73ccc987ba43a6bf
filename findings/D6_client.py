# C21: a client without a transport must report that it is not implemented.
import importlib.util
s = importlib.util.spec_from_file_location("client", "/repo/py/unpadded/client.py")
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
try:
    m.Client().new_request(b"")
except NotImplementedError:
    pass
