def __getattr__(n):
    raise AttributeError("plots are not available: " + n)
