"""State that modules keep between calls (caches, registries): every path and every concrete run starts with that of a fresh import."""
import collections
import types

CONTAINERS = (dict, list, set, bytearray, collections.deque)
SKIP = (types.ModuleType, str, bytes, int, float, complex, tuple, frozenset, type(None))


class Snapshot(object):
    """The state of one module as it was."""

    def __init__(self, mod):
        self.mod = mod
        self.seen = set()
        self.attrs = []  # (namespace owner, {name: value})
        self.boxes = []  # (container, copy)
        self.caches = []
        self.names = dict(mod.__dict__)
        for k, v in self.names.items():
            if k != '__builtins__':
                self.visit(v)

    def own(self, x):
        return getattr(x, '__module__', None) == self.mod.__name__

    def visit(self, x):
        if id(x) in self.seen or isinstance(x, SKIP) and not isinstance(x, tuple):
            return
        self.seen.add(id(x))
        if isinstance(x, CONTAINERS):
            self.boxes.append((x, x.copy()))
            for v in list(x.values() if isinstance(x, dict) else x if not isinstance(x, bytearray) else ()):
                self.visit(v)
        elif isinstance(x, tuple):
            for v in x:
                self.visit(v)
        elif isinstance(x, (staticmethod, classmethod)):
            self.visit(x.__func__)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                self.visit(f)
        elif isinstance(x, type):
            if self.own(x):
                self.attrs.append((x, dict(x.__dict__)))
                for v in list(x.__dict__.values()):
                    self.visit(v)
        elif isinstance(x, types.FunctionType):
            if self.own(x):
                self.attrs.append((x, dict(x.__dict__)))
                self.visit(x.__dict__.get('__wrapped__'))
                for v in (x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values()):
                    self.visit(v)
                for c in x.__closure__ or ():
                    try:
                        self.visit(c.cell_contents)
                    except ValueError:
                        pass
                for v in x.__dict__.values():
                    self.visit(v)
        elif hasattr(x, 'cache_clear') and hasattr(x, 'cache_info') and self.own(x):
            self.caches.append(x)
            self.visit(getattr(x, '__wrapped__', None))
        elif self.own(type(x)) and isinstance(getattr(x, '__dict__', None), dict):
            self.boxes.append((x.__dict__, dict(x.__dict__)))
            for v in list(x.__dict__.values()):
                self.visit(v)

    def restore(self):
        d = self.mod.__dict__
        for k in [k for k, v in d.items() if k not in self.names and not isinstance(v, types.ModuleType)]:
            del d[k]
        for k, v in self.names.items():
            if d.get(k, self) is not v:
                d[k] = v
        for owner, was in self.attrs:
            now = owner.__dict__
            for k in [k for k in now if k not in was]:
                delattr(owner, k)
            for k, v in was.items():
                if now.get(k, self) is not v:
                    setattr(owner, k, v)
        for box, was in self.boxes:
            if isinstance(box, dict):
                if len(box) != len(was) or any(a is not b or box[a] is not was[b] for a, b in zip(box, was)):
                    box.clear()
                    box.update(was)
            elif isinstance(box, set):
                box.clear()
                box.update(was)
            elif isinstance(box, collections.deque):
                box.clear()
                box.extend(was)
            else:
                box[:] = was
        for c in self.caches:
            c.cache_clear()


class Keeper(object):
    """Snapshots of modules, taken when they are seen for the first time."""

    def __init__(self, modules):
        self.modules = modules
        self.snaps = {}

    def fresh(self):
        for m in list(self.modules()):
            s = self.snaps.get(id(m))
            if s is None:
                self.snaps[id(m)] = Snapshot(m)
            else:
                s.restore()
