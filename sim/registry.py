"""Properties, their engines and budgets"""

import importlib

SPECS = {}


def add(prop, engine, quick, thorough, rule, **more):
    SPECS[prop] = dict(engine=engine, quick=quick, thorough=thorough, rule=rule, **more)


HIST = (
    "A run: 1-3 objects, 1-3 clients with their own operation mixes, a seeded scheduler "
    "interleaving their operations, saves, process crashes and restarts (in either execution "
    "mode); every result is compared with a reference model in exact integer arithmetic. "
)
HIST_MARKS = "distinct_object_operation_position_triples"
for _prop, _quick, _thorough in (
    ("H01", 8000, 200000), ("H02", 3000, 60000), ("H03", 9000, 200000), ("L01", 2200, 60000),
    ("S01", 9000, 100000), ("R02", 2000, 60000),
):
    add(_prop, "hist", _quick, _thorough, HIST, marks_name=HIST_MARKS)

CACHE = (
    "A run: several phases of one or more processes (either execution mode) importing the "
    "encounter data and loading parts of it again on one simulated disk; the scheduler serves "
    "their file system calls one at a time; every section a process gets is compared with an "
    "independent decoding of its resource files. "
)
for _prop, _quick, _thorough in (
    ("C01", 700, 30000), ("C02", 900, 40000), ("C03", 700, 20000), ("C04", 900, 40000),
    ("C05", 800, 30000), ("C06", 1100, 40000), ("C07", 700, 30000),
):
    add(_prop, "cache", _quick, _thorough, CACHE,
        marks_name="distinct_disk_states_and_call_interleavings",
        time_name="simulated clock of the disk, advanced per call and by clock jumps")

add("D01", "cache", 2000, 100000,
    "A run: one or more processes (either execution mode) importing the stat tables and the name "
    "lists, again and again, while opens and reads of their files fail, are short or are "
    "interrupted; every table (by every game) and list a process gets is compared with an "
    "independent decoding of the files. ",
    marks_name="distinct_disk_states_and_call_interleavings",
    time_name="simulated clock of the disk, advanced per call and by clock jumps")

add("T03", "cache", 1500, 30000,
    "A run: processes (either execution mode) in which 2-4 threads load encounter data at once; a "
    "baton decides at every line or instruction of the package and every file system call which "
    "thread goes on, and where threads are interrupted or die; every section a thread gets is "
    "compared with an independent decoding when it gets it and after all threads ended. ",
    marks_name="distinct_thread_schedules_and_disk_states",
    time_name="simulated clock of the disk, advanced per call and by clock jumps")

add("E01", "areas", 2200, 60000,
    "A run: 1-3 clients editing, copying, reading and searching shared encounter areas of both "
    "kinds, choosing slots and levels and keeping areas in typed dictionaries; a seeded scheduler "
    "interleaves them with saves, process crashes and restarts in either execution mode; every "
    "result is compared with what the areas' present contents give. ",
    marks_name="distinct_operation_and_result_pairs")

add("I01", "imports", 2500, 100000,
    "A run: one process, with some value of NPP_USE_NUMBA and numba present or missing, imports parts "
    "of the package in some order and uses them, while imports are interrupted, run out of memory or "
    "cannot read a file, are tried again, undone or repeated; what is used is compared with reference "
    "models and what modules offer with clean imports. ",
    marks_name="distinct_settings_and_successions_of_imports")

add("G01", "gen3", 5000, 200000,
    "A run: 1-3 searches, each split into windows of advances, handed to 1-3 workers of either "
    "execution mode over a network that loses, delays, duplicates and partitions, with workers "
    "killed and restarted; every answer is compared with a reference model of the algorithm. ",
    marks_name="distinct_configurations_and_window_placements",
    time_name="virtual seconds of the coordinator and the network")

THREADS = (
    "A run: 1-4 real threads of one process, each with its own program; a baton decides which "
    "thread executes the next bytecode instructions of the package (next call in compiled mode) "
    "and where threads die or are interrupted; every result is compared with a reference model "
    "executed alone. "
)
for _prop, _quick, _thorough in (("T01", 5500, 80000), ("T02", 3500, 60000), ("R01", 4500, 60000),
                               ("T04", 6000, 80000)):
    add(_prop, "threads", _quick, _thorough, THREADS,
        marks_name="distinct_preemption_and_interrupt_instructions",
        time_name="instrumented instructions executed, the only clock of these runs")


def engine(prop):
    return importlib.import_module("engines." + SPECS[prop]["engine"])
