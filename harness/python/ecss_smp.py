"""Stand-in of the Python bindings (they need pybind11, which is not there): the
real simulator through a C interface, every call of it recorded."""
import ctypes, enum, os, types

_c = ctypes.CDLL(os.environ["XV_PYSIM"], mode=ctypes.RTLD_GLOBAL)
_c.xv_create.restype = ctypes.c_void_p
_c.xv_create.argtypes = [ctypes.c_char_p] * 4
_c.xv_name.restype = ctypes.c_char_p
_out = open(os.environ["XV_OUT"], "a", buffering=1)
simulators = 0


def say(*what):
    _out.write(" ".join(str(x) for x in what) + "\n")


def alive():
    return simulators, _c.xv_alive()


class Error(Exception):
    pass


class SimulatorStateKind(enum.IntEnum):
    SSK_Building = 0
    SSK_Connecting = 1
    SSK_Initialising = 2
    SSK_Standby = 3
    SSK_Executing = 4
    SSK_Storing = 5
    SSK_Restoring = 6
    SSK_Reconnecting = 7
    SSK_Exiting = 8
    SSK_Aborting = 9


class ISimulator:
    fail_hints = False

    def __init__(self, handle):
        global simulators
        self._h = handle
        simulators += 1

    def __del__(self):
        global simulators
        if _c is not None:
            say("destroy", int(self.GetState()))
            _c.xv_destroy(ctypes.c_void_p(self._h))
            simulators -= 1

    def _call(self, f, *a):
        err = ctypes.create_string_buffer(2000)
        if f(ctypes.c_void_p(self._h), *a, err, ctypes.c_size_t(2000)):
            raise Error(err.value.decode())

    def LoadLibrary(self, library_name):
        say("load", library_name)
        self._call(_c.xv_load, ctypes.c_char_p(library_name.encode()))

    def Connect(self):
        say("connect")
        self._call(_c.xv_connect)

    def Exit(self):
        say("exit")
        self._call(_c.xv_exit)

    def Abort(self):
        say("abort")
        self._call(_c.xv_abort)

    def Run(self, duration=0):
        say("run", duration)
        self._call(_c.xv_run, ctypes.c_longlong(duration))

    def GetState(self):
        return SimulatorStateKind(_c.xv_state(ctypes.c_void_p(self._h)))

    def generate_python_type_hints(self, path):
        say("hints", path)
        if self.fail_hints:
            raise OSError("no hints")

    def add(self, name, failing=False):
        say("add", name)
        self._call(_c.xv_add, ctypes.c_char_p(name.encode()), ctypes.c_int(failing))

    def describe(self):
        return "%s state %d services %d models %d" % (_c.xv_name(ctypes.c_void_p(self._h)).decode(), self.GetState(), _c.xv_services(ctypes.c_void_p(self._h)), _c.xv_models(ctypes.c_void_p(self._h)))


def _create(library_name, factory_name, name, description):
    say("create", library_name, factory_name, name)
    h = _c.xv_create(library_name.encode(), factory_name.encode(), name.encode(), description.encode())
    if not h:
        raise Error("no simulator")
    return ISimulator(h)


Smp = types.SimpleNamespace(createSimulator=_create, ISimulator=ISimulator, SimulatorStateKind=SimulatorStateKind)
