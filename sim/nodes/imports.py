"""Node process that imports the package piece by piece, from nothing, under faults"""

import gc
import importlib
import logging
import os
import sys
import traceback
import warnings

import baton
import encounters
import ops
import proto
import simfs
import tables
from nodes import cache, gen3

WARM_ERRORS = []
PACKAGE = "numba_pokemon_prngs"
NUMBA = os.environ.get("SIM_MODE") == "numba"
HIDDEN = ("numba", "llvmlite")
FILES = {}
ROOT = None
MODULES = ()
BASELINE = {}


def purge():
    for name in list(sys.modules):
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            del sys.modules[name]
    ops._cache.clear()
    importlib.invalidate_caches()


class Missing:
    """A finder that does not find the hidden packages"""

    def __init__(self, real):
        self.real = real

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HIDDEN:
            return None
        return self.real.find_spec(name, path, target)

    def invalidate_caches(self):
        if hasattr(self.real, "invalidate_caches"):
            self.real.invalidate_caches()

    def __getattr__(self, name):
        return getattr(self.real, name)


class Sources:
    """In front of the finders: the n-th module of the package whose source is read fails"""

    def __init__(self):
        self.left = None
        self.fired = False

    def find_spec(self, name, path=None, target=None):
        if self.left is None or not (name == PACKAGE or name.startswith(PACKAGE + ".")):
            return None
        for finder in sys.meta_path:
            if finder is self:
                continue
            spec = finder.find_spec(name, path, target)
            if spec is None:
                continue
            if not hasattr(spec.loader, "get_data"):  # a directory without code
                return spec
            self.left -= 1
            if self.left == 0:
                self.left = None
                real = spec.loader.get_data

                def get_data(wanted):
                    if wanted.endswith(".py"):
                        self.fired = True
                        raise OSError(self.errno, os.strerror(self.errno), wanted)
                    if wanted.endswith(".pyc"):
                        raise OSError(2, "no bytecode")  # so that the source is read
                    return real(wanted)

                spec.loader.get_data = get_data
            return spec
        return None


class Resources:
    """Calls for resource files, the n-th of a kind fails"""

    def __init__(self):
        self.fault = None

    def arm(self, fault):
        self.fault, self.count, self.left, self.fired, self.excuse = fault, 0, 0, False, False

    def rpc(self, op, args):
        if op == "clock":
            return "ok", 1.7e9
        if op == "sleep":
            return "ok", None
        if not op.startswith("res-"):
            return "err", 2  # ENOENT: nothing there, nothing can be created
        fault = self.fault
        if fault and fault["op"] in (op, "res-any") and fault.get("file") in (None, args[0]):
            self.count += 1
            if self.count == fault["nth"]:
                self.left = fault["do"][2] if fault["do"][0] == "error" else 1
            if self.left:
                self.left -= 1
                self.fired = True
                do = fault["do"]
                if do[0] == "error":
                    self.excuse = True
                    return "err", do[1]
                if do[0] == "interrupt":
                    self.excuse = True
                    raise {"kbd": KeyboardInterrupt, "mem": MemoryError}[do[1]]("injected")
                if op == "res-read" and args[1] > 1:
                    return "ok", max(1, int(args[1] * do[1]))
        return "ok", args[1] if op == "res-read" else None


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


# ------------------------------------------------------------------ what a module offers
def value_print(value, depth=0):
    """A fingerprint of a constant; of anything else only that it is there"""
    import enum

    import numpy as np

    if isinstance(value, (bool, int, float, str, bytes, type(None), np.generic)):
        return repr(value)
    if isinstance(value, np.ndarray):
        return "%s %s %s" % (value.dtype, value.shape, encounters.fingerprint(value.tobytes().hex()))
    if isinstance(value, (tuple, frozenset)) and depth < 4:
        parts = [value_print(part, depth + 1) for part in value]
        return encounters.fingerprint(sorted(parts) if isinstance(value, frozenset) else parts)
    if isinstance(value, type) and issubclass(value, enum.Enum):
        return encounters.fingerprint([(name, repr(member.value)) for name, member in value.__members__.items()])
    return "present"


def offers(name):
    module = sys.modules[name]
    found = {}
    for key in dir(module):
        value = getattr(module, key)
        if key.startswith("_") or isinstance(value, type(sys)) or key == "USE_NUMBA":
            continue
        found[key] = value_print(value)
    return found


def hide():
    """Numba is not installed"""
    sys.meta_path[:] = [Missing(finder) for finder in sys.meta_path]
    for name in list(sys.modules):
        if name.split(".")[0] in HIDDEN:
            del sys.modules[name]


def set_variable(value):
    os.environ.pop("NPP_USE_NUMBA", None)
    if value is not None:
        os.environ["NPP_USE_NUMBA"] = value


def clean_import(variable, hidden):
    """In a child, so that nothing of it stays: what clean imports give; a file to read it from"""
    inward, outward = os.pipe()
    pid = os.fork()
    if pid == 0:
        answer = ({}, None)
        try:
            found = {}
            set_variable(variable)
            if hidden:
                logging.disable()
                hide()
            purge()
            for name in MODULES:
                importlib.import_module(name)
            for name in MODULES:
                found[name] = offers(name)
            answer = (found, None)
        except BaseException:
            answer = ({}, traceback.format_exc())
        with os.fdopen(outward, "wb") as pipe:
            pipe.write(repr(answer).encode())
        os._exit(0)
    os.close(outward)
    return pid, os.fdopen(inward, "rb")


def baseline():
    """What clean imports give whatever the settings"""
    settings = [("TRUE", False), (None, False)] if NUMBA else [
        ("FALSE", False), ("0", True), ("TRUE", True), (None, True)]
    found = []
    for pid, pipe in [clean_import(*setting) for setting in settings]:
        with pipe:
            result, error = eval(pipe.read().decode())  # of our own making
        os.waitpid(pid, 0)
        if error:
            return {}, error
        found.append(result)
    common = {}
    for name, values in found[0].items():
        common[name] = {}
        for key, value in values.items():
            others = [other[name].get(key) for other in found]
            if None not in others:  # a fingerprint if it is always the same
                common[name][key] = value if others.count(value) == len(others) else "present"
    return common, None


def preload():
    """What the package imports from elsewhere need not be imported in every life"""
    import dataclasses, enum, functools, hashlib, importlib.resources, json, pathlib  # noqa: E401, F401
    import pickle, re, tempfile, typing, unicodedata, uuid  # noqa: E401, F401

    import flatbuffers, numpy, platformdirs, typing_extensions  # noqa: E401, F401


def warm(params):
    global ROOT, MODULES
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = False  # into this run's scratch directory
    repo = sys.path[0]
    ROOT = os.path.join(repo, PACKAGE, "resources") + "/"
    FILES.update(tables.with_encounters(repo))
    MODULES = tables.modules(repo)
    preload()

    before = dict(os.environ)
    cache.set_environment("/vsim/cache")
    simfs.install(simfs.Shim(cache.no_disk, ["/vsim"], FILES, ROOT, False, 100, 1))
    found, error = baseline()
    BASELINE.update(found)
    if error:
        WARM_ERRORS.append(error)
    os.environ.clear()
    os.environ.update(before)
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ the items of a script
def plain_function(value):
    return value


def is_fault(part):
    return isinstance(part, dict) and "kind" in part


class Client:
    def __init__(self):
        self.good = set()  # imported without an error since the last purge

    def do(self, item):
        return getattr(self, "do_" + item[0])(*[part for part in item[1:] if not is_fault(part)])

    def do_import(self, name):
        importlib.import_module(name)
        self.good.add(name)

    def do_from(self, name, attribute):
        space = {}
        exec("from %s import %s as got" % (name, attribute), space)
        self.good.add(name)
        return value_print(space["got"])

    def do_star(self, name):
        space = {}
        exec("from %s import *" % name, space)
        self.good.add(name)

    def do_forget(self):
        purge()
        self.good.clear()

    def do_threads(self, programs, segments, faults):
        """Threads import and use parts at once"""
        top = os.path.dirname(os.path.dirname(ROOT)) + "/"
        baton.ModuleLock.deadlocks = 0
        scheduler = baton.ImportScheduler(top, len(programs), segments, faults)
        outcome = scheduler.run(programs, lambda number, item: self.do(item))
        outcome["deadlocks"] = baton.ModuleLock.deadlocks
        # numpy keeps this per thread: a part that another thread imported was silenced there
        import numpy as np

        np.seterr(over="ignore")
        return outcome

    def do_gen(self, spec, operations):
        thing = ops.Thing(spec)
        return [thing.apply(op) for op in operations]

    def do_names(self):
        return self.printed(cache.all_names(importlib.import_module(PACKAGE + ".data")))

    def do_tables(self):
        return self.printed(cache.all_tables(importlib.import_module(PACKAGE + ".data.personal")))

    def do_encounter(self):
        return self.printed(cache.everything(importlib.import_module(PACKAGE + ".data.encounter")))

    @staticmethod
    def printed(sections):
        return {name: encounters.fingerprint(value) for name, value in sections.items()}

    def do_search(self, config, area, seed, delay, start, count):
        return gen3.search(gen3.make_generator(config), gen3.make_area(area), seed, delay, start, count, "np")

    def do_util(self, calls):
        import numpy as np

        util = importlib.import_module(PACKAGE + ".util")
        found = []
        kinds = {"change_endian_u32": (np.uint32,), "hex_32": (np.uint32,),
                 "rotate_left_u32": (np.uint32, np.uint8), "rotate_right_u32": (np.uint32, np.uint8),
                 "rotate_left_u64": (np.uint64, np.uint8), "rotate_right_u64": (np.uint64, np.uint8),
                 "compute_stat": (np.uint16, np.uint8, np.uint8)}
        for name, *args in calls:
            got = getattr(util, name)(*[kind(arg) for kind, arg in zip(kinds[name], args)])
            found.append(str(got) if name == "hex_32" else int(got))
        return found

    def do_fnv(self, texts):
        fnv = importlib.import_module(PACKAGE + ".fnv")
        return [[int(fnv.fnv1_64(text)), int(fnv.fnv1a_64(text))] for text in texts]

    def do_inverse(self, pairs):
        compatability = importlib.import_module(PACKAGE + ".compatability")
        return [int(compatability.mod_inv(value, modulus)) for value, modulus in pairs]

    def do_mode(self):
        """Whether the package runs compiled, by what it defines"""
        compilation = importlib.import_module(PACKAGE + ".compilation")
        lcrng = importlib.import_module(PACKAGE + ".lcrng")
        options = importlib.import_module(PACKAGE + ".options")
        return [bool(options.USE_NUMBA), hasattr(compilation.optional_njit(plain_function), "py_func"),
                type(lcrng.PokeRNGMod).__module__.startswith("numba"), "numba" in sys.modules]

    def do_offers(self):
        """Differences of what was imported from what clean imports give"""
        wrong = []
        for name in sorted(self.good):
            module = sys.modules.get(name)
            if module is None:
                wrong.append("%s is not among the imported modules" % name)
                continue
            for key, want in BASELINE.get(name, {}).items():
                if not hasattr(module, key):
                    wrong.append("%s.%s is missing" % (name, key))
                else:
                    got = value_print(getattr(module, key))
                    if want not in (got, "present"):
                        wrong.append("%s.%s is %s, not %s" % (name, key, got, want))
        return wrong


def life(sock, params):
    gc.disable()
    baton.simulate_imports()
    setup = proto.recv(sock)
    set_variable(setup["variable"])
    cache.set_environment("/vsim/cache")
    if setup["hidden"]:
        hide()
    sources = Sources()
    sys.meta_path.insert(0, sources)
    resources = Resources()
    purge()
    simfs.install(simfs.Shim(resources.rpc, ["/vsim"], FILES, ROOT, True, 100, 1))
    log = Log()
    logging.getLogger().addHandler(log)
    interrupter = cache.Interrupter(os.path.dirname(os.path.dirname(ROOT)) + "/")
    client = Client()
    while True:
        message = proto.recv(sock)
        results = []
        for item in message:
            fault = next((part for part in item if is_fault(part)), None)
            kind = fault["kind"] if fault else None
            interrupter.fired = sources.fired = False
            resources.arm(fault if kind == "res" else None)
            failure = value = None
            with warnings.catch_warnings(record=True) as heard:
                warnings.simplefilter("ignore")
                warnings.simplefilter("always", RuntimeWarning)
                try:
                    try:
                        if kind == "line":
                            interrupter.arm(fault["at"], fault["what"])
                        elif kind == "source":
                            sources.left, sources.errno = fault["nth"], fault["errno"]
                        value = client.do(item)
                    finally:
                        interrupter.disarm()
                        sources.left = None
                except BaseException as exc:
                    # format_exc would import modules to make suggestions
                    text = "".join(traceback.format_tb(exc.__traceback__)) + "%s: %s" % (type(exc).__name__, exc)
                    failure = (type(exc).__name__, text[-1800:])
            resources.fault = None
            fired = interrupter.fired or sources.fired or resources.fired
            excused = interrupter.fired or sources.fired or resources.excuse
            texts, log.texts = log.texts, []
            heard = ["%s:%s: %s" % (os.path.basename(w.filename), w.lineno, w.message)
                     for w in heard if issubclass(w.category, RuntimeWarning)]
            results.append((failure, value, fired, excused, texts, heard))
        proto.send(sock, results)
