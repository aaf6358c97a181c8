import os


class Path:
    """Paths as the analysed programs use them."""

    def __init__(self, *parts):
        self._s = os.path.join(*[str(p) for p in parts]) if parts else "."

    def __str__(self):
        return self._s

    def __fspath__(self):
        return self._s

    def __truediv__(self, o):
        return Path(self._s, o)

    def __rtruediv__(self, o):
        return Path(o, self._s)

    def joinpath(self, *o):
        return Path(self._s, *o)

    @property
    def parent(self):
        return Path(os.path.dirname(self._s))

    @property
    def name(self):
        return os.path.basename(self._s)

    def resolve(self, *a):
        return self

    def absolute(self):
        return self

    def open(self, *a, **k):
        return open(self._s, *a, **k)

    def read_text(self, *a, **k):
        f = open(self._s)
        return f.read()


PurePath = Path
PosixPath = Path
