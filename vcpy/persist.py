"""vcpy.persist: stand-ins for lxml.etree, h5py and zipfile within the instrumented code (assumed contracts on these libraries).

Elements of xml hold text which may have symbolic numbers in it.  A zip file holds what was written to it, as text; on parsing,
the text is parsed by the real lxml, symbolic numbers being represented by tokens.  An hdf5 file maps paths to copies of the
arrays written.  Files also exist, empty, in the file system (in a scratch directory), for functions which look.
"""

import builtins
import os
import types

import numpy as _np

from vcpy import core, strings, arrays, npshim
from vcpy.strings import SStr

# ---- xml


def check_text(x):
    if x is not None and not isinstance(x, (str, bytes, SStr)):
        raise TypeError(f"Argument must be bytes or unicode, got '{type(x).__name__}'")
    return x


class Attrib(dict):

    def __setitem__(self, k, v):
        check_text(v)
        if v is None:
            raise TypeError("Argument must be bytes or unicode, got 'NoneType'")
        dict.__setitem__(self, k, v)


class Element:
    """lxml.etree.Element as far as the code uses it"""

    def __init__(self, tag, attrib = None, nsmap = None, **extra):
        self.tag = tag
        self.attrib = Attrib()
        for k, v in {**(attrib or {}), **extra}.items():
            self.attrib[k] = v
        self._text = None
        self.tail = None
        self._children = []
        self._parent = None

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, x):
        self._text = check_text(x)

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, default = None):
        return self.attrib.get(k, default)

    def keys(self):
        return list(self.attrib.keys())

    def items(self):
        return list(self.attrib.items())

    def append(self, e):
        self.insert(len(self._children), e)

    def insert(self, i, e):
        if type(e) is not Element:
            raise TypeError(f"Argument 'element' has incorrect type (expected lxml.etree._Element, got {type(e).__name__})")
        if e._parent is not None:  # an element has one parent, as in lxml
            e._parent._children = [x for x in e._parent._children if x is not e]
        self._children.insert(i, e)
        e._parent = self

    def extend(self, es):
        for e in es:
            self.append(e)

    def remove(self, e):
        for i, x in enumerate(self._children):
            if x is e:
                del self._children[i]
                e._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def getparent(self):
        return self._parent

    def index(self, e):
        for i, x in enumerate(self._children):
            if x is e:
                return i
        raise ValueError('Element is not a child of this node.')

    def getchildren(self):
        return list(self._children)

    def __len__(self):
        return len(self._children)

    def __bool__(self):
        return bool(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def __iter__(self):  # the element after the next is found before the next is given, as in lxml
        nxt = self._children[0] if self._children else None
        while nxt is not None:
            cur = nxt
            p = cur._parent
            nxt = None
            if p is not None:
                k = p.index(cur) + 1
                nxt = p._children[k] if k < len(p._children) else None
            yield cur

    def iterdescendants(self, tag = None):
        for ch in self._children:
            if tag is None or ch.tag == tag:
                yield ch
            yield from ch.iterdescendants(tag)

    def iter(self, tag = None):
        if tag is None or self.tag == tag:
            yield self
        yield from self.iterdescendants(tag)

    def find(self, tag):
        for ch in self._children:
            if ch.tag == tag:
                return ch
        return None

    def findall(self, tag):
        return [ch for ch in self._children if ch.tag == tag]

    def __deepcopy__(self, memo):
        e = Element(self.tag, dict(self.attrib))
        e._text, e.tail = self._text, self.tail
        for ch in self._children:
            e.append(ch.__deepcopy__(memo))
        return e


def SubElement(parent, tag, attrib = None, nsmap = None, **extra):
    e = Element(tag, attrib, nsmap, **extra)
    parent.append(e)
    return e


class ElementTree:

    def __init__(self, element = None, file = None):
        self._root = element

    def getroot(self):
        return self._root

    def iter(self, tag = None):
        return self._root.iter(tag)

    def __deepcopy__(self, memo):
        return ElementTree(None if self._root is None else self._root.__deepcopy__(memo))


T0, T1 = '\ue000', '\ue001'


def parse(fp):
    import lxml.etree
    if isinstance(fp, str):
        with open(fp, 'rb') as f:
            return ElementTree(convert(lxml.etree.parse(f).getroot(), []))
    if not isinstance(fp, ZipPart):
        return ElementTree(convert(lxml.etree.parse(fp).getroot(), []))
    syms, text = [], ''
    for piece in fp.pieces:
        for p in (piece.parts if isinstance(piece, SStr) else [piece]):
            if isinstance(p, bytes):
                p = p.decode()
            if isinstance(p, str):
                if T0 in p or T1 in p:
                    raise core.Unsupported('private use characters in text')
                text += p
            else:
                text += f'{T0}{len(syms)}{T1}'
                syms.append(p)
    return ElementTree(convert(lxml.etree.fromstring(text.encode()), syms))


def untoken(s, syms):
    if s is None or T0 not in s:
        return s
    out = []
    for k, piece in enumerate(s.split(T0)):
        if k:
            n, piece = piece.split(T1)
            out.append(syms[int(n)])
        out.append(piece)
    return SStr(out)


def convert(x, syms):
    e = Element(x.tag, {k: untoken(v, syms) for k, v in x.attrib.items()})
    e._text, e.tail = untoken(x.text, syms), x.tail
    for ch in x:
        if isinstance(ch.tag, str):
            e.append(convert(ch, syms))
    return e


etree = types.ModuleType('lxml.etree')
etree.Element = etree._Element = Element
etree.SubElement, etree.ElementTree, etree.parse = SubElement, ElementTree, parse

# ---- zip files


def files():
    c = core.ctx()
    if not hasattr(c, 'vc_files'):
        c.vc_files = {}
    return c.vc_files


def touch(path):
    with open(path, 'ab'):
        pass


class ZipPart:

    def __init__(self, pieces):
        self.pieces = pieces

    def write(self, x):
        self.pieces.append(x)
        return 1

    def read(self):
        if builtins.any(isinstance(p, SStr) for p in self.pieces):
            raise core.Unsupported('symbolic text read from zip file')
        return b''.join(self.pieces)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ZipFile:

    def __init__(self, path, mode = 'r', *a, **kw):
        self.path, self.mode = os.path.realpath(path), mode
        if mode == 'w':
            touch(path)
            files()[self.path] = {}
        elif self.path not in files():
            if not os.path.exists(path):
                raise FileNotFoundError(path)
            raise core.Unsupported('zip file which the code did not write')
        self.parts = files()[self.path]

    def open(self, name, mode = 'r'):
        if mode == 'w':
            self.parts[name] = []
        elif name not in self.parts:
            raise KeyError(f"There is no item named {name!r} in the archive")
        return ZipPart(self.parts[name])

    def namelist(self):
        return list(self.parts)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


zf = types.ModuleType('zipfile')
zf.ZipFile = ZipFile

# ---- hdf5


class Dataset:

    def __init__(self, data):
        self.data = data

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)

    def __getitem__(self, k):
        if isinstance(k, tuple) and not k:
            r = self.data if self.data.ndim else self.data.vc_scalar()
        else:
            r = self.data[k]
        return r.copy() if isinstance(r, arrays.SArr) else r

    def __setitem__(self, k, v):
        self.data[k] = v

    def vc_len(self):
        return self.data.shape[0]

    def vc_to_array(self, dtype):
        return self.data.copy() if dtype is None else self.data.astype(dtype)

    def copy(self):
        return Dataset(self.data.copy())


class Group:

    def __init__(self, store, prefix, file):
        self.store, self.prefix, self.file = store, prefix, file

    def _path(self, k):
        return '/'.join(x for x in (self.prefix + '/' + k).split('/') if x)

    def __contains__(self, k):
        p = self._path(k)
        return builtins.any(x == p or x.startswith(p + '/') for x in self.store)

    def __getitem__(self, k):
        self.file.check()
        p = self._path(k)
        if isinstance(self.store.get(p), Dataset):
            return self.store[p]
        if k not in self:
            raise KeyError(f"Unable to open object (object '{k}' doesn't exist)")
        return Group(self.store, p, self.file)

    def __iter__(self):
        n = len(self.prefix.split('/')) if self.prefix else 0
        return iter(sorted({p.split('/')[n] for p in self.store if p.startswith(self.prefix + '/' if self.prefix else '')}))

    def keys(self):
        return list(self)

    def create_group(self, k):
        p = self._path(k)
        if k in self:
            raise ValueError('Unable to create group (name already exists)')
        self.store[p] = None
        return Group(self.store, p, self.file)

    def create_dataset(self, k, data = None, dtype = None, shape = None, chunks = None, compression = None, **kw):
        self.file.check(write = True)
        if k in self:
            raise ValueError('Unable to create dataset (name already exists)')
        if isinstance(data, Dataset):
            data = data.data
        a = arrays.as_arr(data)
        a = a.copy() if dtype is None else a.astype(npshim_dtype(dtype))
        self.store[self._path(k)] = Dataset(a)
        return self.store[self._path(k)]

    def __delitem__(self, k):
        p = self._path(k)
        if k not in self:
            raise KeyError(k)
        for x in list(self.store):
            if x == p or x.startswith(p + '/'):
                del self.store[x]

    def __setitem__(self, k, v):
        p = self._path(k)
        if isinstance(v, Group):
            for x in list(self.store):
                if x == v.prefix or x.startswith(v.prefix + '/'):
                    self.store[p + x[len(v.prefix):]] = self.store[x]
        elif isinstance(v, Dataset):
            self.store[p] = v
        else:
            self.create_dataset(k, data = v)


def npshim_dtype(d):
    return d


class File(Group):

    def __init__(self, path, mode = 'r'):
        path = str(path)
        self.filename, self.mode, self.is_open = path, mode, True
        real = os.path.realpath(path)
        if mode in ('w', 'a', 'w-', 'x'):
            touch(path)
        elif not os.path.exists(path):
            raise FileNotFoundError(path)
        if mode == 'w' or real not in files():
            files()[real] = {}
        Group.__init__(self, files()[real], '', self)

    def check(self, write = False):
        if not self.is_open:
            raise ValueError('Not a location (invalid object ID)')
        if write and self.mode == 'r':
            raise ValueError('Unable to create dataset (no write intent on file)')

    def close(self):
        self.is_open = False

    def flush(self):
        pass

    def __bool__(self):
        return self.is_open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


h5py = types.ModuleType('h5py')
h5py.File, h5py.Dataset, h5py.Group = File, Dataset, Group
h5py._hl = types.SimpleNamespace(files = types.SimpleNamespace(File = File))
