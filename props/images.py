"""Model of the image library: what is read back of an image that was saved (checked against Pillow by the concrete runs)."""
import os


class Model(object):
    """files of one run"""

    def __init__(self, ctx):
        self.ctx, self.files = ctx, {}
        if ctx.sym:
            ctx.stub('PIL.Image.fromarray', self.fromarray)
            ctx.stub('PIL.Image.open', self.open)

    def fromarray(self, a, mode=None):
        dt = str(a.dtype)
        if getattr(a, 'ndim', 0) != 2:
            raise self.unknown('image of %s dimensions' % getattr(a, 'ndim', 0))
        table = {'uint8': 'L', 'uint16': 'I;16', 'int32': 'I', 'uint32': 'I'}
        if dt not in table:
            raise TypeError('Cannot handle this data type: (1, 1), %s' % dt)
        if mode is not None and mode != table[dt]:
            raise self.unknown('mode %s of %s' % (mode, dt))
        return Image(self, a.copy(), table[dt])

    def open(self, name, mode='r', formats=None):
        name = os.path.realpath(os.fspath(name))
        if name not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', name)
        a, mode = self.files[name]
        return Image(self, a.copy(), mode)

    def unknown(self, what):
        from sx.core import Unsupported
        return Unsupported('PIL: ' + what)


class Image(object):
    def __init__(self, model, a, mode):
        self.model, self.a, self.mode = model, a, mode
        self.size = (a.shape[1], a.shape[0])
        self.width, self.height = self.size

    def save(self, name, format=None, **k):
        name = os.fspath(name)
        ext = (format or os.path.splitext(name)[1].lstrip('.')).lower()
        a, mode = self.a, self.mode
        if ext == 'png':
            if mode == 'I':
                # saved with 16 bit, larger and negative values are clipped
                a = self.model.ctx.np.clip(a.astype('int64'), 0, 65535).astype('uint16')
                mode = 'I;16'
        elif ext not in ('tif', 'tiff'):
            raise self.model.unknown('format ' + ext)
        elif mode == 'I':
            a = a.astype('int32')
        with open(name, 'w') as f:
            f.write('image')
        self.model.files[os.path.realpath(name)] = (a.copy(), mode)

    def split(self):
        return (self,)

    def getbands(self):
        return (self.mode[0],)

    def load(self):
        return None

    def close(self):
        return None

    def copy(self):
        return Image(self.model, self.a.copy(), self.mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __sx_array__(self):
        return self.a
