"""Stand-in for matplotlib: records what is drawn, draws nothing."""


def use(*a, **k):
    pass
