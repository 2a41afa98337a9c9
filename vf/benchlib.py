"""Shared by the benchmark checks."""
import os
import socket

# The module refuses to be imported on a machine called localhost.
_real = socket.gethostname
if _real() == 'localhost':
    socket.gethostname = lambda: 'vf-host'
from epsilon.scripts import benchmark       # noqa
socket.gethostname = _real


def treeSize(path):
    """Size of path and everything beneath it; a dangling link counts as its target's name."""
    total = 0
    todo = [path]
    while todo:
        p = todo.pop()
        try:
            total += os.stat(p).st_size
        except FileNotFoundError:
            total += os.lstat(p).st_size
            continue
        if os.path.isdir(p) and not os.path.islink(p):
            todo.extend(os.path.join(p, n) for n in os.listdir(p))
    return total


def populate(path, spec):
    """spec: list of (relative name, size) | (relative name, 'link', target)"""
    for s in spec:
        f = os.path.join(path, s[0])
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if len(s) == 3:
            if not os.path.lexists(f):
                os.symlink(s[2], f)
        else:
            with open(f, 'ab') as o:
                o.write(b'x' * s[1])


def genBytes(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def parseBoxes(data):
    """An independent reader of the record format: -> list of {name: text}."""
    out = []
    while data:
        head, sep, data = data.partition(b'\r\n\r\n')
        if not sep:
            raise ValueError('unterminated record %r' % (head[-80:],))
        d = {}
        for L in head.split(b'\r\n'):
            if L[:1] in b' \t':
                d[k] += '\r\n' + L[1:].decode('utf-8')
                continue
            k, sep, v = L.partition(b': ')
            if not sep:
                raise ValueError('bad line %r' % (L,))
            k = k.decode('ascii').lower().replace('-', '_')
            if k in d:
                raise ValueError('repeated key %r' % (k,))
            d[k] = v.decode('utf-8')
        out.append(d)
    return out
