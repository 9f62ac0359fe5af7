"""Length-prefixed pickles over a stream socket"""

import pickle
import socket
import struct


class Gone(Exception):
    """The peer went away"""


def send(sock, message):
    data = pickle.dumps(message, 4)
    try:
        sock.sendall(struct.pack("<I", len(data)) + data)
    except (BrokenPipeError, ConnectionResetError) as exc:
        raise Gone() from exc


def _exact(sock, count):
    parts = []
    while count:
        try:
            part = sock.recv(min(count, 1 << 20))
        except ConnectionResetError as exc:
            raise Gone() from exc
        if not part:
            raise Gone()
        parts.append(part)
        count -= len(part)
    return b"".join(parts)


def recv(sock, timeout=None):
    sock.settimeout(timeout)
    (size,) = struct.unpack("<I", _exact(sock, 4))
    return pickle.loads(_exact(sock, size))


def pair():
    return socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
