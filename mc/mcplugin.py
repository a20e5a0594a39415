"""Filter plugins used by C16."""


class Tag:
    def __init__(self, tag="t", **_):
        self.tag = tag

    def __call__(self, values):
        return [f"{self.tag}:{v}" for v in values]


class Rotate:
    """The first of the given columns gets the value of the second and so on."""

    def __call__(self, values):
        return (v for v in values[1:] + values[:1])


class Broken:
    def __init__(self):
        raise RuntimeError("cannot be instantiated")


COUNT = {"calls": 0}


class Counting:
    def __call__(self, values):
        COUNT["calls"] += 1
        return list(values)


def factory(n):
    def fn(values):
        return [n for _ in values]

    return fn
