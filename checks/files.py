"""An in-memory file system behind open() and json, by contract: what is dumped is what is loaded."""
import copy
import sys


class Text(str):
    """the text of a JSON document, which remembers what it says"""
    def __new__(cls, obj):
        t = str.__new__(cls, '{json}')
        t.obj = copy.deepcopy(obj)
        return t


class Files:
    def __init__(self, ctx, *mods):
        self.data = {}
        for m in mods:
            ctx.mod(m)
        for n, m in list(sys.modules.items()):
            if n.startswith('src.sloth.') and hasattr(m, '__dict__'):
                ctx.patch(m, 'open', self.open)
        ctx.boundary_module('json', self)

    def open(self, name, mode='r', *a, **k):
        if 'r' in mode and name not in self.data:
            raise FileNotFoundError(name)
        return F(self, name, mode)

    def dump(self, obj, f, **k):
        f.write(Text(obj))

    def load(self, f, **k):
        return self.loads(f.read())

    def dumps(self, obj, **k):
        return Text(obj)

    def loads(self, s, **k):
        return copy.deepcopy(s.obj)


class F:
    def __init__(self, files, name, mode):
        self.files, self.name, self.mode = files, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        assert 'w' in self.mode
        self.files.data[self.name] = s

    def read(self):
        assert 'r' in self.mode
        return self.files.data[self.name]

    def close(self):
        pass
