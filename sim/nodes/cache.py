"""Node process that loads the encounter data on the simulated disk"""

import gc
import importlib
import os
import sys
import traceback
import warnings

import baton
import encounters
import proto
import simfs
import tables

WARM_ERRORS = []
PACKAGE = "numba_pokemon_prngs"
NUMBA = os.environ.get("SIM_MODE") == "numba"
# compiled once per host, everything else is imported anew in each life
KEEP = (PACKAGE + ".patch", PACKAGE + ".options", PACKAGE + ".compilation",
        PACKAGE + ".compatability", PACKAGE + ".util", PACKAGE + ".fnv", PACKAGE + ".enums",
        PACKAGE + ".lcrng", PACKAGE + ".data.util", PACKAGE + ".data.encounter.encounter_area_3",
        PACKAGE + ".data.encounter.encounter_area_la")
RESOURCE_ROOT = None
GAMES = {"RUBY": 1, "SAPPHIRE": 2, "EMERALD": 4, "FIRE_RED": 8, "LEAF_GREEN": 16}


def purge():
    for name in list(sys.modules):
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            if NUMBA and (name == PACKAGE or any(
                    name == kept or name.startswith(kept + ".") for kept in KEEP)):
                continue
            del sys.modules[name]
    if NUMBA:
        # children of the package are found in sys.modules, not as stale attributes
        package = sys.modules.get(PACKAGE)
        for name in ("data", "resources"):
            if package is not None and hasattr(package, name):
                delattr(package, name)


def no_disk(op, args):
    if op in ("clock",):
        return "ok", 1.7e9
    if op == "sleep":
        return "ok", None
    return "err", 2  # ENOENT: nothing there, nothing can be created


def set_environment(cache):
    for name in ("XDG_CACHE_HOME", "HOME", "TMPDIR", "XDG_DATA_HOME", "XDG_CONFIG_HOME"):
        os.environ.pop(name, None)
    os.environ["HOME"] = "/vsim/home"
    os.environ["TMPDIR"] = "/vsim/tmp"
    if cache is not None:
        os.environ["XDG_CACHE_HOME"] = cache


def warm(params):
    global RESOURCE_ROOT
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = False  # into this run's scratch directory
    repo = sys.path[0]
    RESOURCE_ROOT = os.path.join(repo, PACKAGE, "resources") + "/"
    species = open(os.path.join(RESOURCE_ROOT, "txt/species_en.txt"), "rb").read()
    before = dict(os.environ)
    resources = encounters.synthetic(1, species)
    # an in-memory disk, so that both a miss and a hit are compiled
    import vfs

    disk, fds = vfs.Vfs(4096, None), {}
    for path in ("/vsim", "/vsim/home", "/vsim/tmp", "/vsim/cache"):
        disk.call(fds, "mkdir", (path, 0o755))

    def rpc(op, args):
        if op in ("clock", "sleep", "sync", "flock"):
            return "ok", {"clock": 1.7e9, "flock": True}.get(op)
        try:
            return "ok", disk.call(fds, op, args)
        except vfs.FsError as exc:
            return "err", exc.errno

    set_environment("/vsim/cache")
    simfs.install(simfs.Shim(rpc, ["/vsim"], resources, RESOURCE_ROOT, False, 100, 1))
    for _ in range(2):
        purge()
        try:
            Client(None).do(["import"])
            Client(None).do(["load", "gen3", "RUBY"])
            Client(None).do(["load", "la", 1])
            Client(None).do(["tables"])
        except Exception:
            WARM_ERRORS.append(traceback.format_exc())
    purge()
    os.environ.clear()
    os.environ.update(before)
    simfs.SHIM.roots = []
    simfs.SHIM.resources = {}
    simfs.SHIM.resource_root = "\0"
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ describing what was loaded
def names_and_areas(loaded):
    import numpy as np

    names, areas = loaded
    if not isinstance(names, tuple) or not isinstance(areas, np.recarray):
        raise TypeError("types %s %s" % (type(names), type(areas)))
    area_type = sys.modules[PACKAGE + ".data.encounter.encounter_area_3"].EncounterArea3.dtype
    if areas.dtype != area_type or not areas.flags.writeable:
        raise TypeError("dtype %s writeable %s" % (areas.dtype, areas.flags.writeable))
    plain = {}
    for key in ("location", "land_rate", "water_rate", "rock_rate", "fish_rate"):
        plain[key] = areas[key].tolist()
    for group, _ in encounters.GROUPS:
        part = areas[group]
        levels = [part[key].tolist() for key in ("min_level", "max_level", "species")]
        plain[group] = [[list(slot) for slot in zip(*slots)] for slots in zip(*levels)]
    described = [
        [plain[key][i] for key in ("location", "land_rate", "water_rate", "rock_rate", "fish_rate")]
        + [plain[group][i] for group, _ in encounters.GROUPS] for i in range(len(areas))]
    if len(areas):
        areas[0].land[0].species  # attribute access, as the searchers use it
    return [str(name) for name in names], described


def la_tables(tables):
    import numpy as np

    out = []
    slot_type = sys.modules[PACKAGE + ".data.encounter.encounter_area_la"].SlotLA.dtype
    area_class = sys.modules[PACKAGE + ".data.encounter.encounter_area_la"].EncounterAreaLA
    for key in list(tables.keys()):
        area = tables[np.uint64(key)]
        if not isinstance(area, area_class):
            raise TypeError("area type %s" % type(area))
        slots = area.slots
        if slots.dtype != slot_type or not slots.flags.writeable:
            raise TypeError("slots %s writeable %s" % (slots.dtype, slots.flags.writeable))
        if int(area.table_id) != int(key):
            raise TypeError("table id %r under key %r" % (area.table_id, key))
        columns = [slots[name].tolist() for name in (
            "species", "gender", "form", "min_level", "max_level", "guaranteed_ivs",
            "base_probability", "is_alpha", "time_multipliers", "weather_multipliers")]
        out.append([int(key), [list(slot) for slot in zip(*columns)]])
    return sorted(out)


def everything(module):
    """All sections of what the module offers"""
    sections = {}
    enums = importlib.import_module(PACKAGE + ".enums")
    for name, value in GAMES.items():
        game = enums.Game(value)
        pair = module.MAP_NAMES_GEN3[game], module.ENCOUNTER_INFORMATION_GEN3[game]
        sections["names:" + name], sections["areas:" + name] = names_and_areas(pair)
        if (getattr(module, "MAP_NAMES_" + name) != pair[0]
                or getattr(module, "ENCOUNTER_INFORMATION_" + name).tobytes() != pair[1].tobytes()):
            raise TypeError("the module's two tables of %s differ" % name)
    for area in range(1, 6):
        sections["la:%d" % area] = la_tables(module.ENCOUNTER_INFORMATION_LA[enums.LAArea(area)])
        table = module.SPAWNER_INFORMATION_LA[enums.LAArea(area)]

        def spawner(entry):
            return [entry.spawner_id, entry.group_id, list(entry.coordinates.as_tuple()),
                    entry.min_spawn_count, entry.max_spawn_count,
                    [entry.is_mass_outbreak, entry.is_water, entry.is_sky],
                    entry.encounter_table_id]

        sections["spawners:%d" % area] = [
            sorted(([spawner(e) for e in table.spawner_table_lookup.values()]), key=repr),
            sorted(((k, e.spawner_id) for k, e in table.spawner_by_group.items()), key=repr)]
    sections["multipliers"] = sorted(
        [k[0], k[1], list(v.time_of_day_multipliers), list(v.weather_multipliers)]
        for k, v in module.ENCOUNTER_MULTIPLIER_LA.multiplier_lookup.items())
    sections["misc"] = sorted([k[0], k[1], v.alpha_level_index]
                              for k, v in module.POKE_MISC_LA.misc_lookup.items())
    sections["lottery"] = sorted(
        [e.hash, [[d.hash for d in part] for part in (e.table_common, e.table_rare_1, e.table_rare_2)]]
        for e in module.NHO_LOTTERY_TABLE_LA.lottery_groups)
    sections["groups"] = sorted(
        [e.hash, [w.encounter_table_id for w in e.wave_details], e.first_wave_encounter_table_id]
        for e in module.NHO_GROUP_TABLE_LA.groups)
    sections["spawner_names"] = encounters.plain(module.SPAWNER_NAMES_LA)
    sections["encounter_table_names"] = encounters.plain(module.ENCOUNTER_TABLE_NAMES_LA)
    return sections


def stat_table(table, kind):
    import numpy as np

    if not isinstance(table, np.recarray) or table.ndim != 1:
        raise TypeError("table %s" % type(table))
    fields = []
    for name, _, _ in tables.layout()[kind]["fields"]:
        values = table[name].tolist()
        if len(table) and not np.array_equal(getattr(table[0], name), table[name][0]):
            raise TypeError("attribute %s of a record differs" % name)
        fields.append([name, values])
    return [len(table), fields]


def all_tables(module):
    enums = importlib.import_module(PACKAGE + ".enums")
    sections, described = {}, {}
    for name in tables.layout():
        table = getattr(module, "PERSONAL_INFO_" + name)
        sections["table:" + name] = described[id(table), name] = stat_table(table, name)
    for game, name in tables.TABLES_OF_GAMES.items():
        table = module.get_info_table(getattr(enums.Game, game))
        sections["game:" + game] = described.get((id(table), name)) or stat_table(table, name)
    return sections


def all_names(module):
    found = {}
    for name in [*tables.LISTS, "CONSTANT_CASE_SPECIES_EN"]:
        found["list:" + name] = [str(entry) for entry in getattr(module, name)]
    return found


class Client:
    """Runs the items of a life's script"""

    def __init__(self, sock):
        self.loaded = []

    def module(self):
        return importlib.import_module(PACKAGE + ".data.encounter")

    def do(self, item):
        what = item[0]
        if what == "threads":
            return self.threads(*item[1:])
        if what == "import":
            return lambda module=self.module(): everything(module)
        if what == "again":
            purge()
            return lambda module=self.module(): everything(module)
        if what == "tables":
            return lambda module=importlib.import_module(PACKAGE + ".data.personal"): all_tables(module)
        if what == "names":
            return lambda module=importlib.import_module(PACKAGE + ".data"): all_names(module)
        if what == "forget":
            purge()
            return dict
        if what == "info3":
            module = importlib.import_module(PACKAGE + ".data.personal")
            enums = importlib.import_module(PACKAGE + ".enums")
            table = module.get_info_table_3(enums.Game[item[1]])

            def describe_info3():
                import numpy as np

                return {"game:" + item[1]: stat_table(table.view(np.recarray),
                                                      tables.TABLES_OF_GAMES[item[1]])}

            return describe_info3
        if what == "load":
            module = self.module()
            enums = importlib.import_module(PACKAGE + ".enums")
            if item[1] == "gen3":
                loaded = module.load_encounter_3(enums.Game(GAMES[item[2]]))
                self.loaded.append(("gen3", loaded))

                def describe():
                    names, areas = names_and_areas(loaded)
                    return {"names:" + item[2]: names, "areas:" + item[2]: areas}

                return describe
            loaded = module.load_encounter_tables_la(enums.LAArea(item[2]))
            self.loaded.append(("la", loaded))
            return lambda: {"la:%d" % item[2]: la_tables(loaded)}
        if what == "scribble":
            # a client changes what it loaded itself
            for kind, loaded in self.loaded:
                if kind == "gen3":
                    loaded[1].view("u1")[:] = 0xA5
                else:
                    for key in list(loaded.keys()):
                        import numpy as np

                        area = loaded[np.uint64(key)]
                        area.slots.view("u1")[:] = 0x5A
                        area.table_id = np.uint64(3)
            return dict
        raise AssertionError(what)

    def threads(self, programs, segments, granularity, faults):
        """Several threads load; everything they keep is described at the end once more"""
        package = importlib.import_module(PACKAGE)
        self.module()
        baton.find_codes(package)
        clients = [Client(None) for _ in programs]
        kept, shown = [], {}

        def perform(number, item):
            if item[0] == "clear":
                simfs.SHIM.rpc("x-clear")
                return {}
            client = clients[number]
            describe = client.do(item)
            if item[0] == "scribble":
                kept[:] = [entry for entry in kept if entry[0] != number]
                client.loaded.clear()
                return {}
            described = describe()
            kept.append((number, item, describe))
            for name, value in described.items():
                shown["%d %s" % (number, name)] = value
            return {name: encounters.fingerprint(value) for name, value in described.items()}

        scheduler = baton.Scheduler(len(programs), segments, faults, granularity, True)
        outcome = scheduler.run(programs, perform)
        if outcome["stuck"]:
            return lambda: outcome
        outcome["later"] = []
        for number, item, describe in kept:
            described = describe()
            for name, value in described.items():
                shown["%d %s later" % (number, name)] = value
            outcome["later"].append([number, item, {
                name: encounters.fingerprint(value) for name, value in described.items()}])
        outcome["shown"] = shown
        return lambda: outcome


# ------------------------------------------------------------------ interruption
class Interrupter:
    """Raises an exception at the n-th executed line of the package"""

    def __init__(self, root):
        self.root = root
        self.left = None
        self.what = None
        self.fired = False

    def arm(self, count, what):
        self.left, self.what, self.fired = count, what, False
        monitoring = sys.monitoring
        monitoring.use_tool_id(4, "simulator")
        monitoring.register_callback(4, monitoring.events.LINE, self.line)
        monitoring.set_events(4, monitoring.events.LINE)

    def line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.left -= 1
        if self.left == 0:
            what = self.what
            self.disarm()
            self.fired = True
            raise {"kbd": KeyboardInterrupt, "mem": MemoryError}[what]("injected")
        return None

    def disarm(self):
        if self.left is None:
            return
        self.left = None
        monitoring = sys.monitoring
        monitoring.set_events(4, 0)
        monitoring.register_callback(4, monitoring.events.LINE, None)
        monitoring.free_tool_id(4)


# ------------------------------------------------------------------ life
def life(sock, params):
    gc.disable()
    warnings.simplefilter("ignore")
    setup = proto.recv(sock)
    set_environment(setup["cache"])

    def rpc(op, args):
        proto.send(sock, ("fs", op, args))
        answer = proto.recv(sock)
        if answer[0] == "interrupt":
            raise {"kbd": KeyboardInterrupt, "mem": MemoryError}[answer[1]]("injected")
        return answer

    shim = simfs.Shim(rpc, setup["roots"], setup["resources"], RESOURCE_ROOT,
                      setup["resource_rpc"], setup["pid"], setup["seed"])
    shim.mtime = setup["mtime"]
    shim.encoding = setup["encoding"]
    shim.exclude = tuple(setup["exclude"])
    purge()
    simfs.install(shim)
    baton.simulate_locks(os.path.dirname(os.path.dirname(RESOURCE_ROOT)) + "/")
    client = Client(sock)
    interrupter = Interrupter(os.path.dirname(os.path.dirname(RESOURCE_ROOT)) + "/")
    described = {}
    while True:
        item = proto.recv(sock)
        if item[0] == "show":
            proto.send(sock, ("shown", [str(described.get(name))[:200000] for name in item[1]]))
            continue
        describe = failure = None
        interrupter.fired = False
        try:
            try:
                if isinstance(item[-1], dict):
                    interrupter.arm(item[-1]["at"], item[-1]["what"])
                describe = client.do(item)
            finally:
                interrupter.disarm()
        except proto.Gone:
            raise
        except BaseException as exc:
            failure = ("failed", type(exc).__name__, traceback.format_exc()[-1800:],
                       interrupter.fired)
        if failure:
            # only now: leaving the handler above may close files, with calls of its own
            proto.send(sock, failure)
            continue
        try:
            described = describe()
            if item[0] == "threads":
                outcome, described = described, described.pop("shown", {})
                proto.send(sock, ("threaded", outcome))
                continue
            answer = {name: encounters.fingerprint(value) for name, value in described.items()}
        except Exception:
            proto.send(sock, ("odd", traceback.format_exc()[-1800:]))
            continue
        proto.send(sock, ("done", answer, interrupter.fired))
