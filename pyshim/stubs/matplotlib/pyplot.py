"""Stand-in for matplotlib.pyplot (not installed): axes that record what is drawn on them."""


class axes:
    def __init__(self, fig=None, sub=None):
        self.calls, self.fig, self.sub = [], fig, sub

    def plot(self, *a, **k):
        self.calls.append(("plot", a, k))

    def scatter(self, *a, **k):
        self.calls.append(("scatter", a, k))

    def quiver(self, *a, **k):
        self.calls.append(("quiver", a, k))


class _figure:
    def __init__(self, k):
        self.k = k

    def add_subplot(self, **k):
        return axes(self.k, k)


def figure(**k):
    return _figure(k)
