"""Wild encounter searches split into windows and run by unreliable workers.  G01.

A coordinator hands windows of advances to workers of either mode over a network that loses,
delays, duplicates and reorders messages; workers crash, restart and stall.  Time is virtual.
"""

import functools
import heapq
import json

import control
import encounters
import gen3model as gm
import models
from control import Violation

NODE = "gen3"
REAL = ["the wild encounter generator, encounter states, stat tables and LCRNG of the package",
        "worker processes (really killed)"]
STUB = ["the network between the coordinator and the workers", "the coordinator",
        "virtual time", "encounter areas are passed in by the coordinator, not read from the cache"]
LEADS = [gm.NONE, gm.CUTE_F, gm.CUTE_M, gm.MAGNET, gm.STATIC, gm.PRESSURE, 29, 33, 34, 35]
GAMES = {"RUBY": 1, "SAPPHIRE": 2, "EMERALD": 4, "FIRE_RED": 8, "LEAF_GREEN": 16}
END_OF_FAULTS = 300.0


def modes(prop):
    return ["numba", "numpy"]


@functools.lru_cache(None)
def real_areas():
    resources = encounters.real_resources(control.REPO)
    found = {}
    for name, number in GAMES.items():
        names, areas = encounters.decode_gen3(resources, name)
        found[number] = [(label, area) for label, area in zip(names, areas) if label]
    return found


@functools.lru_cache(None)
def tables():
    return gm.personal(control.REPO)


def params(prop):
    area = dict(real_areas()[4][3][1], rock_rate=255)
    area["rock"] = [(5, 9, 74)] * 5
    return {"warm": [[[1, encounter, lead, 4, 1, 2], area, 5, 1, 2, 3]
                     for encounter, lead in ((0, 255), (3, 0), (0, 28))]}


# ------------------------------------------------------------------ plan
def available(area):
    kinds = []
    if area["land_rate"]:
        kinds.append(gm.GRASS)
    if area["rock_rate"]:
        kinds.append(gm.ROCK_SMASH)
    if area["water_rate"]:
        kinds.append(gm.SURFING)
    if area["fish_rate"]:
        kinds += [gm.OLD_ROD, gm.GOOD_ROD, gm.SUPER_ROD]
    return kinds


def made_up(rng, game):
    """An area with unusual levels, species and rates"""
    area = {"location": rng.choice([0, rng.randrange(1, 130), rng.choice([20, 72, 89, 90, 97, 98])])}
    for rate in ("land_rate", "water_rate", "rock_rate", "fish_rate"):
        area[rate] = rng.choice([1, 20, 180, 255, rng.randrange(1, 256)])
    pool = [rng.choice([rng.randrange(1, 252), rng.randrange(277, 387)]) for _ in range(4)]
    kind = rng.random()
    table = tables()[game]
    if kind < 0.3:
        pool += [s for s in range(1, 387) if s not in (292, 201) and
                 (8 in table[s]["types"] or 13 in table[s]["types"])][rng.randrange(10):][:3]
    elif kind < 0.6:
        pool += [s for s in (132, 120, 81, 29, 32, 113, 106, 1, 7, 35, 280) if rng.random() < 0.5]
    pool = [s for s in pool if s != 292 and s != 201] or [19]
    for group, size in encounters.GROUPS:
        slots = []
        for _ in range(size):
            low = rng.choice([1, 2, 5, 50, 100, rng.randrange(1, 101)])
            high = min(100, low + rng.choice([0, 0, 1, 2, 5, 30, 99]))
            slots.append((low, high, rng.choice(pool)))
        area[group] = slots
    if rng.random() < 0.1:
        area["land"] = [(low, high, 201 | rng.randrange(28) << 11) for low, high, _ in area["land"]]
    return area


INVERSE = pow(gm.MULT, -1, 1 << 32)


def back(state, steps):
    for _ in range(steps):
        state = (state - gm.ADD) * INVERSE & gm.MASK
    return state


@functools.lru_cache(None)
def edges(apart):
    """The states that give all six individual values at one end"""
    found = []
    for value in (0, 0x7FFF):
        for state in range(value << 16, value + 1 << 16):
            for first in (state, state | 1 << 31):
                second = first
                for _ in range(1 + apart):
                    second = second * gm.MULT + gm.ADD & gm.MASK
                if second >> 16 & 0x7FFF == value:
                    found.append(first)
    return found


def aimed(rng, config, area):
    """A generator state from which an encounter meets edge values"""
    low = rng.getrandbits(16)
    pick = rng.random()
    if pick < 0.35:  # individual values at an edge
        skip = 1 if config[0] == 3 else 0
        state = rng.choice([0, 0x7FFF, 0x8000, 0xFFFF, 1, rng.getrandbits(16)]) << 16 | low
        if rng.random() < 0.5:
            state = rng.choice(edges(config[0] == 4))
        high = back(state, 1 + skip)
        nature = (high >> 16 << 16 | back(high, 1) >> 16) % 25
        before = back(high, 2)
        for _ in range(200):  # the draw of the nature for which this PID is the first to match
            if (before >> 16) % 25 == nature:
                break
            if (before >> 16 << 16 | back(before, 1) >> 16) % 25 == nature:
                break  # another one would
            before = back(before, 2)
        return back(before, 1 + rng.choice([2, 2, 2, 2, 3, 4]))
    if pick < 0.6:  # the first draw next to where a choice changes
        bound = rng.choice([2880, 100, 100, 2, 3, 25])
        edge = rng.choice([0, bound - 1, area["rock_rate"] * 16 % bound, rng.randrange(bound)])
        edge = (edge + rng.choice([-1, 0, 0, 1])) % bound
        value = edge + bound * rng.randrange(65536 // bound)
        return back(value << 16 | low, 1 + rng.choice([0, 0, 0, 1, 2, 3]))
    value = rng.choice([0, 1, 0x7FFF, 0x8000, 0xFF00, 0xFFFF, 0xFFFE])
    return back(value << 16 | low, 1 + rng.randrange(9))


def plan(rng, prop, tier, index):
    deep = tier == "thorough" and rng.random() < 0.2
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        game = rng.choice([1, 2, 4, 4, 4, 4, 8, 16])
        if rng.random() < 0.65:
            choices = real_areas()[game]
            label, area = rng.choice(choices)
            if rng.random() < 0.2:
                special = [c for c in choices if "Safari" in c[0] or "Tanoby" in c[0] or c[1]["rock_rate"]
                           or "Mauville" in c[0]]
                label, area = rng.choice(special)
        else:
            label, area = "made up", made_up(rng, game)
        kinds = available(area)
        if not kinds:
            continue
        encounter = rng.choice(kinds)
        if gm.ROCK_SMASH in kinds and rng.random() < 0.3:
            encounter = gm.ROCK_SMASH
        lead = rng.choice(LEADS) if rng.random() < 0.7 else rng.randrange(25)
        tid = rng.choice([0, 0xFFFF, rng.randrange(65536)])
        config = [rng.choice(gm.METHODS), encounter, lead, game, tid, rng.choice([0, tid, rng.randrange(65536)])]
        total = rng.choice([1, 5, 20, 60]) * (5 if deep else 1)
        if rng.random() < 0.03:
            total = rng.choice([255, 256, 257, 300, 700])
        start = rng.choice([0, 0, 1, rng.randrange(2000), rng.randrange(1 << 32), (1 << 32) - total,
                            (1 << 31) - 3])
        start = min(start, (1 << 32) - total)
        windows, at = [], start
        while at < start + total:
            size = rng.choice([0, 1, 1, 2, 7, 20, 60, 700]) if rng.random() < 0.9 else 0
            size = min(size, start + total - at)
            windows.append([at, size])
            at += size
        seed = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(16), rng.getrandbits(32), rng.getrandbits(32)])
        delay = rng.choice([0, 0, 1, rng.randrange(5000), (1 << 32) - 1])
        if rng.random() < 0.3:
            # what the generator's state must be initially for it to be there at an advance
            steps = start + delay + rng.randrange(min(total, 5)) & gm.MASK
            seed = models.LcrngModel("PokeRNGMod", aimed(rng, config, area)).step(-steps)
        if rng.random() < 0.4:  # around the limits of what counts as shiny
            found = gm.Search(config, area, tables()).run(seed, delay, start + rng.randrange(min(total, 5)), 1)
            if found:
                pid = found[0][1]
                config[5] = tid ^ pid >> 16 ^ pid & 0xFFFF ^ rng.choice([0, 1, 7, 8, 9, 15])
        jobs.append({
            "label": label, "config": config, "area": {k: v for k, v in area.items()},
            "seed": seed, "delay": delay,
            "windows": windows,
        })
    workers = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        mode = "numba" if rng.random() < 0.5 else "numpy"
        workers.append({"mode": mode, "style": "np" if rng.random() < 0.6 else "int",
                        "speed": rng.choice([1, 1, 3, 20])})
    # the n-th message sent suffers this
    messages = []
    lossy = rng.choice([0, 0.1, 0.3])
    for number in range(150):
        if rng.random() < lossy:
            messages.append([number, rng.choice(["lose", "lose", "twice", "late"])])
    crashes = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        crashes.append([rng.randrange(len(workers)), round(rng.uniform(0, 120), 2),
                        rng.choice(["idle", "before answer", "in task"])])
    return {"jobs": jobs, "workers": workers, "messages": messages, "crashes": crashes,
            "partition": [[rng.randrange(len(workers)), round(rng.uniform(0, 50), 1),
                           round(rng.uniform(5, 150), 1)]] if rng.random() < 0.2 else []}


def lists(plan):
    return ([["jobs"], ["messages"], ["crashes"], ["partition"]]
            + [["jobs", i, "windows"] for i in range(len(plan["jobs"]))])


def simplify(plan):
    def copy():
        return json.loads(json.dumps(plan))

    if len(plan["workers"]) > 1:
        for i in range(len(plan["workers"])):
            candidate = copy()
            candidate["workers"] = [candidate["workers"][i]]
            candidate["crashes"] = [c for c in candidate["crashes"] if c[0] == i]
            candidate["partition"] = []
            for c in candidate["crashes"]:
                c[0] = 0
            yield candidate
    for i, job in enumerate(plan["jobs"]):
        for j, (start, size) in enumerate(job["windows"]):
            if size > 1:
                for at, length in ((start, size // 2), (start + size // 2, size - size // 2)):
                    candidate = copy()
                    candidate["jobs"][i]["windows"][j] = [at, length]
                    yield candidate
        if job["delay"]:
            candidate = copy()
            candidate["jobs"][i]["delay"] = 0
            yield candidate


# ------------------------------------------------------------------ execution
class Worker:
    def __init__(self, number, spec):
        self.number, self.spec = number, spec
        self.node = None
        self.known = set()
        self.busy_until = 0.0
        self.epoch = 0  # restarts so far


class Run:
    def __init__(self, plan, env, history):
        self.plan, self.env, self.history = plan, env, history
        self.now, self.queue, self.count, self.sent = 0.0, [], 0, 0
        self.workers = [Worker(i, spec) for i, spec in enumerate(plan["workers"])]
        self.messages = {number: what for number, what in plan["messages"]}
        self.tasks = [(i, j) for i, job in enumerate(plan["jobs"]) for j in range(len(job["windows"]))]
        self.results = {}
        self.models = [gm.Search(job["config"], job["area"], tables()) for job in plan["jobs"]]
        self.expected = {}
        self.executions = 0

    def at(self, delay, *event):
        self.count += 1
        heapq.heappush(self.queue, (self.now + delay, self.count, event))

    def cut(self, worker):
        return any(w == worker and since <= self.now < since + length
                   for w, since, length in self.plan["partition"])

    def post(self, worker, *event):
        """A message to or from a worker"""
        number = self.sent
        self.sent += 1
        delay = 0.05 + (number * 7919 % 100) / 400
        if self.now < END_OF_FAULTS:
            what = self.messages.get(number)
            if self.cut(worker):
                self.history.fault("message lost in a partition")
                return
            if what == "lose":
                self.history.fault("message lost")
                return
            if what == "late":
                self.history.fault("message delayed")
                delay += 40.0
            if what == "twice":
                self.history.fault("message duplicated")
                self.at(delay + 3.0, *event)
        self.at(delay, *event)

    def answer_of(self, node, message):
        reply = node.call(message)
        if reply[0] == "error":
            raise Violation("error", "%r raised %s\n%s" % (message[:1] + message[3:], reply[1], reply[2]))
        return reply[1]

    def compute(self, worker, job, window):
        """What the real worker process answers"""
        self.executions += 1
        if worker.node is None:
            worker.node = self.env.spawn(worker.spec["mode"], {"cpu": 25})
            worker.known = set()
        spec = self.plan["jobs"][job]
        if job not in worker.known:
            self.answer_of(worker.node, ("area", job, spec["area"]))
            self.answer_of(worker.node, ("generator", job, spec["config"]))
            worker.known.add(job)
        start, size = spec["windows"][window]
        return self.answer_of(worker.node, (
            "search", job, job, spec["seed"], spec["delay"], start, size, worker.spec["style"]))

    def model(self, job, window):
        if (job, window) not in self.expected:
            spec = self.plan["jobs"][job]
            start, size = spec["windows"][window]
            self.expected[job, window] = self.models[job].run(spec["seed"], spec["delay"], start, size)
        return self.expected[job, window]

    def crash(self, worker):
        if worker.node is not None:
            worker.node.crash()
            worker.node = None
        worker.epoch += 1
        worker.busy_until = self.now
        self.history.fault("worker killed")

    def check(self, job, window, states):
        """Invariant on every answer, also on ones that come twice"""
        want = self.model(job, window)
        if states == want:
            return
        spec = self.plan["jobs"][job]
        for i in range(max(len(states), len(want))):
            got_one = states[i] if i < len(states) else None
            want_one = want[i] if i < len(want) else None
            if got_one != want_one:
                break
        raise Violation("wrong encounters", "job %r area %r seed %#x delay %d window %r: state %d of %d/%d:\n"
                        "got  %r\nwant %r" % (spec["config"], spec["label"], spec["seed"], spec["delay"],
                                             spec["windows"][window], i, len(states), len(want), got_one, want_one))

    def run(self):
        for worker, when, how in self.plan["crashes"]:
            if worker < len(self.workers):
                self.at(when, "crash", worker, how)
        in_task = {}
        self.at(0.0, "assign")
        last = {}
        events = 0
        while self.queue and len(self.results) < len(self.tasks):
            self.now, _, event = heapq.heappop(self.queue)
            events += 1
            if events > 20000 or self.now > END_OF_FAULTS + 3000:
                raise Violation("no progress", "the search is not complete %d s after the last fault"
                                % (self.now - END_OF_FAULTS))
            what = event[0]
            self.history.event(round(self.now, 3), *event[:4])
            if what == "assign":
                # round robin over the windows nobody answered recently
                for n, task in enumerate(self.tasks):
                    if task in self.results or self.now - last.get(task, -1e9) < 45:
                        continue
                    last[task] = self.now
                    worker = (n + int(self.now) // 45) % len(self.workers)
                    self.post(worker, "task", worker, *task)
                self.at(5.0, "assign")
            elif what == "task":
                worker = self.workers[event[1]]
                begin = max(self.now, worker.busy_until)
                spec = self.plan["jobs"][event[2]]
                length = 0.2 + 0.02 * spec["windows"][event[3]][1] * worker.spec["speed"]
                worker.busy_until = begin + length
                self.at(begin - self.now, "begin", *event[1:], worker.epoch)
                self.at(begin + length - self.now, "finish", *event[1:], worker.epoch)
            elif what == "begin":
                in_task[event[1]] = event[2:4]
            elif what == "finish":
                worker = self.workers[event[1]]
                in_task.pop(event[1], None)
                if event[4] != worker.epoch:
                    self.history.probe("tasks lost with their worker")
                    continue
                states = self.compute(worker, event[2], event[3])
                self.check(event[2], event[3], states)
                self.post(event[1], "result", event[1], event[2], event[3], states)
            elif what == "result":
                _, _, job, window, states = event
                if (job, window) in self.results:
                    self.history.probe("answers more than once")
                    if self.results[job, window] != states:
                        raise Violation("answers differ", "job %d window %d" % (job, window))
                else:
                    self.results[job, window] = states
                    self.history.marks.add("%d %d %d %d" % (job, window, event[1], self.workers[event[1]].epoch))
            elif what == "crash":
                worker = self.workers[event[1]]
                if event[2] == "in task" and event[1] in in_task:
                    # it really dies while computing
                    job, window = in_task[event[1]]
                    self.compute_and_kill(worker, job, window)
                self.crash(worker)
        if len(self.results) < len(self.tasks):
            raise Violation("no progress", "the search never completes")
        # afterwards: in order, each once
        for i, job in enumerate(self.plan["jobs"]):
            merged = []
            for j in range(len(job["windows"])):
                merged += self.results[i, j]
            advances = [state[0] for state in merged]
            if advances != sorted(set(advances)):
                raise Violation("order", "job %d: advances %r" % (i, advances))
            self.history.event("job", i, encounters.fingerprint(merged))
            self.history.probe("encounters checked", len(merged))
            self.history.marks.add("cfg %r %r" % (job["config"][:4], job["label"]))

    def compute_and_kill(self, worker, job, window):
        if worker.node is None or job not in worker.known:
            return
        spec = self.plan["jobs"][job]
        start, size = spec["windows"][window]
        worker.node.send(("search", job, job, spec["seed"], spec["delay"], start, size, worker.spec["style"]))
        self.history.fault("worker killed while computing")


def execute(plan, env, history):
    run = Run(plan, env, history)
    run.run()
    history.probe("windows executed", run.executions)
    history.time += run.now
