"""stand-ins used in replays (which otherwise run against the real libraries)"""

CURVE_FIT = None


def install():
    """scipy's curve_fit stays the real one unless a harness supplies its own"""
    import scipy.optimize as o
    real = o.curve_fit

    def curve_fit(f, x, y, *a, **k):
        if CURVE_FIT is not None:
            return CURVE_FIT(f, x, y)
        return real(f, x, y, *a, **k)
    o.curve_fit = curve_fit
