"""Runs under the code under test's interpreter, one process per execution mode.

Imports and warms up the code under test once, then forks one zygote per controller worker.
A zygote forks one node process per node life, so that nothing a node does survives its crash.

usage: host.py REPO NODE_MODULE PARAMS_JSON FD...     (one socket per worker)
"""

import importlib
import json
import os
import resource
import signal
import socket
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def silence():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.close(null)


def node_life(node, params, sock, limits):
    """In the forked child"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    cpu = limits.get("cpu", 60)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import proto

    status = 0
    try:
        node.life(sock, params)
    except proto.Gone:
        status = 0
    except BaseException:  # a defect of the harness; the controller turns this into exit 2
        traceback.print_exc()
        status = 97
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)


def zygote(node, params, sock):
    import proto

    children = {}
    while True:
        try:
            message = proto.recv(sock)
        except proto.Gone:
            break
        kind = message[0]
        if kind == "spawn":
            mine, theirs = proto.pair()
            pid = os.fork()
            if pid == 0:
                mine.close()
                sock.close()
                node_life(node, params, theirs, message[1])
            theirs.close()
            children[pid] = True
            socket.send_fds(sock, [b"%-16d" % pid], [mine.fileno()])
            mine.close()
        elif kind == "wait":
            _, pid, kill = message
            if kill:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            _, status = os.waitpid(pid, 0)
            children.pop(pid, None)
            proto.send(sock, status)
    for pid in children:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os._exit(0)


def main():
    repo, module, params = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    fds = [int(fd) for fd in sys.argv[4:]]
    silence()
    import numpy  # noqa: F401  (third party code may use its own bytecode files)

    if os.environ["NPP_USE_NUMBA"] == "TRUE":
        import numba  # noqa: F401
        import numba.experimental  # noqa: F401
        import numba.typed  # noqa: F401
    import flatbuffers  # noqa: F401
    import platformdirs  # noqa: F401

    # never trust bytecode files of the code under test
    sys.pycache_prefix = os.environ["SIM_PYCACHE"]
    sys.path.insert(0, repo)
    node = importlib.import_module("nodes." + module)
    node.warm(params)
    socks = [socket.socket(fileno=fd) for fd in fds]
    pids = []
    for i, sock in enumerate(socks):
        pid = os.fork()
        if pid == 0:
            for j, other in enumerate(socks):
                if j != i:
                    other.close()
            import proto

            proto.send(sock, ("ready", os.getpid(), getattr(node, "WARM_ERRORS", [])))
            zygote(node, params, sock)
        pids.append(pid)
    for sock in socks:
        sock.close()
    for pid in pids:
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
