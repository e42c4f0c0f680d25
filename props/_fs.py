"""
An in-memory file tree in place of the real one, below the operating system calls (os.stat, os.mkdir, open, ...), so that
os.path, shutil, glob and pathlib work on it as they are. Whether an entry exists may be symbolic: it is decided (by a
fork) only when the code asks. Changes outside the tree are refused and recorded; the real file system is never changed.
"""
import builtins
import collections
import errno
import io
import json
import os
import posixpath
import shutil
import stat

ROOT = '/vfs'


class JText(str):
    """JSON text of an object that may hold symbolic values"""
    def __new__(cls, obj):
        s = str.__new__(cls, '{"json": "text"}')
        s.obj = obj
        return s

    def encode(self, *a, **k):
        return self

    def decode(self, *a, **k):
        return self

    def strip(self, *a):
        return self


def rebuild(o, hook=None):
    if isinstance(o, dict):
        pairs = [(k, rebuild(v, hook)) for k, v in o.items()]
        return hook(pairs) if hook else dict(pairs)
    if isinstance(o, (list, tuple)):
        return [rebuild(v, hook) for v in o]
    return o


def jtext(H, obj):
    return JText(obj) if H.sym else json.dumps(obj)


def patch_json(H):
    """JSON text of symbolic values is kept as the object"""
    if not H.sym:
        return
    real = {k: getattr(json, k) for k in ('load', 'loads', 'dump', 'dumps')}

    def loads(s, **k):
        if isinstance(s, JText):
            hook = k.get('object_pairs_hook')
            if hook is None and k.get('object_hook'):
                oh = k['object_hook']
                hook = lambda p: oh(dict(p))
            return rebuild(s.obj, hook)
        if isinstance(s, bytes):
            s = s.decode('utf-8')
        return real['loads'](s, **k)

    def dumps(o, **k):
        o = rebuild(o)
        if k.get('sort_keys'):
            o = _sorted(o)
        return JText(o)
    H.patch(json, 'loads', loads)
    H.patch(json, 'load', lambda f, **k: loads(f.read(), **k))
    H.patch(json, 'dumps', dumps)
    H.patch(json, 'dump', lambda o, f, **k: f.write(dumps(o, **k)) and None)


def _sorted(o):
    if isinstance(o, dict):
        return {k: _sorted(o[k]) for k in sorted(o)}
    if isinstance(o, list):
        return [_sorted(v) for v in o]
    return o


class Node:
    count = 0

    def __init__(self, kind, content=None, cond=None):
        self.kind, self.content, self.cond = kind, content, cond
        Node.count += 1
        self.ino = Node.count


class Entry:
    def __init__(self, fs, d, name):
        self.fs, self.name = fs, name
        self.path = posixpath.join(d, name)

    def __fspath__(self):
        return self.path

    def _node(self):
        return self.fs.nodes[self.fs.norm(self.path)]

    def is_dir(self, *, follow_symlinks=True):
        return self._node().kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        return self._node().kind == 'f'

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._node().ino

    def stat(self, *, follow_symlinks=True):
        return self.fs.stat(self.path)


class Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class VFile:
    """file whose content is a list of pieces (str, or JText as a whole)"""
    verif = True
    encoding = 'utf-8'
    errors = 'strict'
    newlines = None

    def __init__(self, fs, path, node, mode):
        self.fs, self.name, self.node, self.mode = fs, path, node, mode
        self.text = 'b' not in mode
        self.closed = False
        self.can_read = 'r' in mode or '+' in mode
        self.can_write = 'r' not in mode or '+' in mode
        if 'w' in mode:
            node.content = b''
        c = node.content
        self.j = c if isinstance(c, JText) else None
        self.data = bytearray(b'' if self.j is not None else (c or b''))
        self.pos = len(self.data) if 'a' in mode else 0
        self.jpos = 0                    # 0 before, 1 after the JText
        self.tail = False                # remains of a longer JText behind what was written
        fs.opened += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _store(self):
        if self.can_write:
            if self.tail:
                self.node.content = Garbled()
            else:
                self.node.content = self.j if self.j is not None else bytes(self.data)

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def read(self, n=-1):
        self.fs.step()
        if not self.can_read:
            raise io.UnsupportedOperation('not readable')
        if self.j is not None:
            if self.jpos:
                return '' if self.text else b''
            self.jpos = 1
            return self.j
        b = bytes(self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n])
        self.pos += len(b)
        return b.decode('utf-8') if self.text else b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def readline(self, n=-1):
        rest = self.read()
        if self.j is not None:
            return rest
        nl = '\n' if self.text else b'\n'
        i = rest.find(nl)
        if i >= 0:
            back = rest[i + 1:]
            self.pos -= len(back.encode('utf-8') if self.text else back)
            rest = rest[:i + 1]
        return rest

    def readlines(self, *a):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def write(self, s):
        self.fs.step()
        if not self.can_write:
            raise io.UnsupportedOperation('not writable')
        if isinstance(s, JText):
            if self.j is not None and self.jpos == 0:
                self.tail = self.j is not s
            elif self.data or self.j is not None:
                if self.pos == 0 and self.j is None:
                    self.tail = True
                else:
                    self.node.content = Garbled()
                    self.tail = True
            self.j, self.jpos, self.data = s, 1, bytearray()
            self._store()
            return 1
        b = s.encode('utf-8') if isinstance(s, str) else bytes(s)
        if self.j is not None:
            if b:
                self.tail = True
        else:
            if 'a' in self.mode:
                self.pos = len(self.data)
            self.data[self.pos:self.pos + len(b)] = b
            self.pos += len(b)
        self._store()
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
            if off == 0:
                self.jpos = 0
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.data) + off
            self.jpos = 1
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.fs.step()
        if self.j is not None:
            if self.jpos == 0:
                self.j = None
                self.data = bytearray()
            self.tail = False
        else:
            del self.data[self.pos if size is None else size:]
        self._store()
        return self.pos

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.opened -= 1
            self._store()


class Garbled:
    """content that is neither the old nor the new text"""
    def __len__(self):
        return 1

    def __eq__(self, o):
        return False

    __hash__ = None


class FS:
    def __init__(self, H, root=ROOT):
        self.H = H
        self.root = root
        self.nodes = collections.OrderedDict()
        self.nodes[root] = Node('d')
        self.resolved = {}
        self.escaped = []
        self.opened = 0
        self.steps = 0
        self.fault = None        # step at which the next operation fails
        self.faulted = False
        self.install()

    # -- building the tree ------------------------------------------------------
    def dir(self, path, maybe=None):
        p = self._p(path)
        self._parents(p)
        self.nodes[p] = Node('d', cond=maybe)

    def file(self, path, content=None, maybe=None):
        p = self._p(path)
        self._parents(p)
        if content is None:
            content = ('content of ' + p).encode()
        self.nodes[p] = Node('f', content, maybe)

    def _p(self, path):
        return self.root if not path else posixpath.join(self.root, path)

    def _parents(self, p):
        d = posixpath.dirname(p)
        if d not in self.nodes:
            self._parents(d)
            self.nodes[d] = Node('d')

    # -- states ------------------------------------------------------------------
    def token(self, t):
        if t not in self.resolved:
            self.resolved[t] = self.H.flag('exists ' + t)
        return self.resolved[t]

    def norm(self, path):
        if isinstance(path, int):
            return None
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            return None
        # '..' of the tree resolves as in a file system without links
        p = posixpath.normpath(p)
        return p if p == self.root or p.startswith(self.root + '/') else None

    def get(self, p):
        """the node at p, or None; decides what is open about it"""
        if p != self.root:
            d = self.get(posixpath.dirname(p))
            if d is None or d.kind != 'd':
                return None
        n = self.nodes.get(p)
        if n is not None and n.cond is not None:
            if self.token(n.cond):
                n.cond = None
            else:
                self._drop(p)
                return None
        return n

    def _drop(self, p):
        for q in [q for q in self.nodes if q == p or q.startswith(p + '/')]:
            del self.nodes[q]

    def names(self, p):
        pre = p + '/'
        out = []
        for q in [q for q in self.nodes if q.startswith(pre) and '/' not in q[len(pre):]]:
            if self.get(q) is not None:
                out.append(q[len(pre):])
        # a directory lists its entries in no particular order
        return out[::-1]

    def snapshot(self):
        return collections.OrderedDict((p, (n.kind, n.content, n.cond)) for p, n in self.nodes.items())

    def view(self, snap, under=None, without=()):
        """entries of a snapshot below a path, as far as known now: {relative path: (kind, content, open question)}"""
        gone = [p for p, (k, c, t) in snap.items() if t is not None and self.resolved.get(t) is False]
        out = {}
        base = self._p(under)
        for p, (k, c, t) in snap.items():
            if not (p == base or p.startswith(base + '/')):
                continue
            if any(p == g or p.startswith(g + '/') for g in gone):
                continue
            if any(p == self._p(w) or p.startswith(self._p(w) + '/') for w in without):
                continue
            out[p[len(base):]] = (k, c, t if self.resolved.get(t) is None else None)
        return out

    def now(self, under=None, without=()):
        return self.view(self.snapshot(), under, without)

    def exists(self, path):
        return self.get(self._p(path)) is not None

    def content(self, path):
        n = self.get(self._p(path))
        return None if n is None else n.content

    def unchanged(self, label, before, without=()):
        """nothing changed since the snapshot, except below the given paths"""
        self.compare(label, self.now(None, without), self.view(before, None, without))

    def compare(self, label, got, want):
        for p in sorted(set(got) | set(want)):
            if got.get(p) != want.get(p):
                self.H.check('%s: %s is %s, was %s' % (label, p or '.', _txt(got.get(p)), _txt(want.get(p))), False)
                return
        self.H.check(label, True)

    # -- operations ----------------------------------------------------------------
    def step(self):
        self.steps += 1
        if self.fault is not None and not self.faulted and bool(self.fault == self.steps):
            self.faulted = True
            raise OSError(errno.EIO, 'input/output error')

    def err(self, no, path):
        raise OSError(no, os.strerror(no), str(path))

    def need(self, path):
        n = self.get(self.norm(path))
        if n is None:
            d = self.get(posixpath.dirname(self.norm(path))) if self.norm(path) != self.root else None
            self.err(errno.ENOTDIR if d is not None and d.kind == 'f' else errno.ENOENT, path)
        return n

    def stat(self, path, *a, **k):
        n = self.need(path)
        if os.fspath(path).endswith('/') and n.kind == 'f':
            self.err(errno.ENOTDIR, path)
        mode = (stat.S_IFDIR | 0o755) if n.kind == 'd' else (stat.S_IFREG | 0o644)
        try:
            size = len(n.content) if n.content is not None else 0
        except TypeError:
            size = 1
        return os.stat_result((mode, n.ino, 4242, 1, 0, 0, size, 0, 0, 0))

    def listdir(self, path='.'):
        self.step()
        n = self.need(path)
        if n.kind != 'd':
            self.err(errno.ENOTDIR, path)
        return self.names(self.norm(path))

    def scandir(self, path='.'):
        names = self.listdir(path)
        return Scan([Entry(self, os.fspath(path), n) for n in names])

    def mkdir(self, path, mode=0o777, **k):
        self.step()
        p = self.norm(path)
        if self.get(p) is not None:
            self.err(errno.EEXIST, path)
        self.need(posixpath.dirname(p))
        self.nodes[p] = Node('d')

    def rmdir(self, path, **k):
        self.step()
        n = self.need(path)
        if n.kind != 'd':
            self.err(errno.ENOTDIR, path)
        if self.names(self.norm(path)):
            self.err(errno.ENOTEMPTY, path)
        self._drop(self.norm(path))

    def unlink(self, path, **k):
        self.step()
        n = self.need(path)
        if n.kind == 'd':
            self.err(errno.EISDIR, path)
        self._drop(self.norm(path))

    def rename(self, src, dst, **k):
        self.step()
        n = self.need(src)
        s, d = self.norm(src), self.norm(dst)
        self.need(posixpath.dirname(d))
        if s == d:
            return
        if d.startswith(s + '/'):
            self.err(errno.EINVAL, dst)
        o = self.get(d)
        if o is not None:
            if n.kind == 'd':
                if o.kind != 'd':
                    self.err(errno.ENOTDIR, dst)
                if self.names(d):
                    self.err(errno.ENOTEMPTY, dst)
            elif o.kind == 'd':
                self.err(errno.EISDIR, dst)
            self._drop(d)
        for q in [q for q in self.nodes if q == s or q.startswith(s + '/')]:
            self.nodes[d + q[len(s):]] = self.nodes.pop(q)

    def open(self, path, mode='r', *a, **k):
        self.step()
        p = self.norm(path)
        n = self.get(p)
        if n is not None and n.kind == 'd':
            self.err(errno.EISDIR, path)
        if 'r' in mode:
            self.need(path)
        elif n is None:
            if self.need(posixpath.dirname(p)).kind != 'd':
                self.err(errno.ENOTDIR, path)
            n = self.nodes[p] = Node('f', b'')
        elif 'x' in mode:
            self.err(errno.EEXIST, path)
        return VFile(self, p, n, mode)

    def nothing(self, path, *a, **k):
        self.need(path)

    # -- installation ----------------------------------------------------------------
    def _route(self, mod, name, mine, changes):
        real = getattr(mod, name)

        def f(path='.', *a, **k):
            try:
                p = self.norm(path)
            except TypeError:
                p = None
            if p is not None:
                return mine(path, *a, **k)
            if changes:
                self.escaped.append('%s %s' % (name, path))
                raise PermissionError(errno.EACCES, 'outside the tree of the check', str(path))
            return real(path, *a, **k)
        f.__name__ = name
        self.H.patch(mod, name, f)

    def install(self):
        H = self.H
        for n in ('stat', 'lstat'):
            self._route(os, n, self.stat, False)
        for n, m in (('listdir', self.listdir), ('scandir', self.scandir), ('listxattr', lambda p, *a, **k: []),
                     ('access', lambda p, *a, **k: self.get(self.norm(p)) is not None),
                     ('readlink', lambda p, *a, **k: self.err(errno.EINVAL, p))):
            self._route(os, n, m, False)
        for n, m in (('mkdir', self.mkdir), ('rmdir', self.rmdir), ('unlink', self.unlink), ('remove', self.unlink),
                     ('chmod', self.nothing), ('utime', self.nothing), ('truncate', self.nothing),
                     ('symlink', lambda *a, **k: self.err(errno.EPERM, a[0])),
                     ('link', lambda *a, **k: self.err(errno.EPERM, a[0]))):
            self._route(os, n, m, True)

        def two(name):
            def f(src, dst, *a, **k):
                if self.norm(src) is not None and self.norm(dst) is not None:
                    return self.rename(src, dst)
                self.escaped.append('%s %s %s' % (name, src, dst))
                raise PermissionError(errno.EACCES, 'outside the tree of the check', str(dst))
            H.patch(os, name, f)
        two('rename')
        two('replace')
        ropen = builtins.open

        def vopen(file, mode='r', *a, **k):
            try:
                p = self.norm(file)
            except TypeError:
                p = None
            if p is not None:
                return self.open(file, mode)
            if set(mode) & set('wax+'):
                self.escaped.append('open %s' % file)
                raise PermissionError(errno.EACCES, 'outside the tree of the check', str(file))
            return ropen(file, mode, *a, **k)
        H.patch(builtins, 'open', vopen)
        H.patch(io, 'open', vopen)
        H.patch(shutil, '_use_fd_functions', False)


def _txt(e):
    if e is None:
        return 'missing'
    k, c, t = e
    return ('a directory' if k == 'd' else 'a file %r' % (c if isinstance(c, bytes) else '...',)) + \
        (' (perhaps)' if t else '')
