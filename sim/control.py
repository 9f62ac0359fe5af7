"""Controller side: hosts, node processes, outcomes"""

import hashlib
import json
import os
import random
import signal
import socket
import subprocess

import proto

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("SIM_REPO", "/repo")
WALL = 240  # seconds without any answer of a node: an error of the harness


class HarnessError(Exception):
    """Not a property of the code under test"""


class Violation(Exception):
    """A property does not hold; kind identifies the class of the failure"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


def rng_for(*parts):
    text = "/".join(str(part) for part in parts)
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big"))


def start_host(mode, module, params, scratch, workers):
    """Start a host; returns (process, one socket per worker)"""
    mine, theirs = [], []
    for _ in range(workers):
        a, b = proto.pair()
        mine.append(a)
        theirs.append(b)
        b.set_inheritable(True)
    home = os.path.join(scratch, "home-" + mode)
    cache = os.path.join(scratch, "cache-" + mode)
    pyc = os.path.join(scratch, "pyc-" + mode)
    tmp = os.path.join(scratch, "tmp-" + mode)
    for path in (home, cache, pyc, tmp):
        os.makedirs(path, exist_ok=True)
    env = {
        "PATH": "/usr/bin:/bin",
        "LANG": "C.UTF-8",
        "HOME": home,
        "XDG_CACHE_HOME": cache,
        "TMPDIR": tmp,
        "NUMBA_CACHE_DIR": tmp,
        "NPP_USE_NUMBA": "TRUE" if mode == "numba" else "FALSE",
        "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
        "MALLOC_PERTURB_": "165",
        "MALLOC_ARENA_MAX": "1",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "1",
        "SIM_PYCACHE": pyc,
        "SIM_MODE": mode,
    }
    log = open(os.path.join(scratch, "host-%s.log" % mode), "ab")
    process = subprocess.Popen(
        [PYTHON, "-B", os.path.join(HERE, "host.py"), REPO, module, json.dumps(params)]
        + [str(b.fileno()) for b in theirs],
        env=env,
        pass_fds=[b.fileno() for b in theirs],
        stdin=subprocess.DEVNULL,
        stdout=log,
        stderr=log,
        cwd=scratch,
        start_new_session=True,
    )
    log.close()
    for b in theirs:
        b.close()
    return process, mine


class Zygote:
    """A worker's connection to a host"""

    def __init__(self, sock, mode):
        self.sock, self.mode = sock, mode
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            try:
                message = proto.recv(self.sock, 600)
            except (proto.Gone, socket.timeout) as exc:
                raise HarnessError("host %s did not start" % self.mode) from exc
            self.warm_errors = message[2]
            self.ready = True

    def spawn(self, limits=None):
        self.wait_ready()
        proto.send(self.sock, ("spawn", limits or {}))
        self.sock.settimeout(WALL)
        data, fds, _, _ = socket.recv_fds(self.sock, 16, 1)
        if len(data) != 16 or len(fds) != 1:
            raise HarnessError("zygote %s is gone" % self.mode)
        return Node(self, int(data), socket.socket(fileno=fds[0]))


class Node:
    """One life of a node process"""

    def __init__(self, zygote, pid, sock):
        self.zygote, self.pid, self.sock = zygote, pid, sock
        self.status = None

    def send(self, message):
        try:
            proto.send(self.sock, message)
        except proto.Gone:
            self.died()

    def recv(self):
        try:
            return proto.recv(self.sock, WALL)
        except proto.Gone:
            self.died()
        except socket.timeout as exc:
            self.end(kill=True)
            raise HarnessError("node does not answer") from exc

    def call(self, message):
        self.send(message)
        return self.recv()

    def died(self):
        """The process ended by itself"""
        status = self.end()
        if os.WIFSIGNALED(status):
            number = os.WTERMSIG(status)
            if number == signal.SIGXCPU:
                raise Violation("stuck", "an operation does not finish within its CPU budget")
            if number == signal.SIGKILL:
                raise HarnessError("node killed from outside (memory?)")
            raise Violation("died", "process died with " + signal.Signals(number).name)
        if os.WEXITSTATUS(status) == 97:
            raise HarnessError("node harness failed, see the host log")
        raise Violation("died", "process exited with status %d" % os.WEXITSTATUS(status))

    def end(self, kill=False):
        if self.status is None:
            self.sock.close()
            proto.send(self.zygote.sock, ("wait", self.pid, kill))
            self.status = proto.recv(self.zygote.sock, WALL)
        return self.status

    def crash(self):
        """Power loss or kill -9: nothing volatile survives"""
        self.end(kill=True)


class Env:
    """What an engine needs to execute a plan"""

    def __init__(self, zygotes):
        self.zygotes = zygotes
        self.nodes = []

    def spawn(self, mode, limits=None):
        node = self.zygotes[mode].spawn(limits)
        self.nodes.append(node)
        return node

    def cleanup(self):
        for node in self.nodes:
            try:
                node.end(kill=True)
            except (proto.Gone, OSError):
                pass
        self.nodes = []


class History:
    """Event log of a run: hashed, counted, and kept in part for reports"""

    def __init__(self):
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.marks = set()
        self.steps = 0
        self.time = 0.0
        self.tail = []

    def event(self, *what):
        line = repr(what)
        self.hash.update(line.encode() + b"\n")
        self.steps += 1
        if len(line) > 300:
            line = line[:300] + "..."
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[:20]

    def fault(self, kind, count=1):
        self.faults[kind] = self.faults.get(kind, 0) + count

    def probe(self, kind, count=1):
        self.probes[kind] = self.probes.get(kind, 0) + count

    def digest(self):
        return self.hash.hexdigest()
