class Recorder(object):
    """Stub for matplotlib objects: records drawing calls."""
    calls = []

    def __init__(self, path=""):
        self._path = path

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Recorder(self._path + "." + n)

    def __call__(self, *a, **k):
        Recorder.calls.append((self._path.split(".")[-1], a, k, self._path))
        tag = a[0] if a and isinstance(a[0], str) else ""
        return Recorder(self._path + "(%s)" % tag)

    def __iter__(self):
        return iter((Recorder(self._path + "[0]"), Recorder(self._path + "[1]")))

    def __getitem__(self, k):
        return Recorder(self._path + "[]")

    def __bool__(self):
        return True
