"""What workers observed, shipped back with their results."""
_rec = None


def start():
    global _rec
    _rec = []


def add(x):
    if _rec is not None:
        _rec.append(x)


def take():
    global _rec
    if _rec is None:
        return None
    r, _rec = _rec, []
    return r


def merge(r):
    if _rec is not None and r:
        _rec.extend(r)
