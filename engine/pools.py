"""process pools without processes"""


class SerialPool:
    """schwimmbad.MultiPool / SerialPool / multiprocessing.Pool: results in task order"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]

    imap = map

    def imap_unordered(self, f, it, *a, **k):
        # any order is possible; the reverse shows a dependence on it
        return [f(x) for x in it][::-1]

    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

    def close(self):
        pass

    join = terminate = close
