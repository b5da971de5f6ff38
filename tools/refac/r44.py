# gaussutil: line rule from NumPy's Legendre roots, triangle rule from orbits
# props: C02 C06 C07 C21
### gaussutil
def _orbit(a, b):
    """the three points of a symmetric orbit, first the one with coordinates (a, a)"""
    return [[a, a], [b, a], [a, b]]

def gauss_1d(npts):
    if npts not in range(2, 11):
        raise ValueError("The number of points should be in [2, 10]")
    pts, wts = np.polynomial.legendre.leggauss(npts)
    return list(pts), list(wts)

def gauss_tri(order=2):
    if order == 1:
        pts = np.array([[1/3, 1/3]])
        wts = np.array([1.0])
    elif order == 2:
        pts = np.array(_orbit(1/6, 2/3))
        wts = np.full([3], 1/3)
    elif order in (3, 4, 5):
        pts = np.vstack([_orbit(0.1012865073235, 0.7974269853531),
                         [[0.4701420641051, 0.0597158717898],
                          [0.4701420641051, 0.4701420641051],
                          [0.0597158717898, 0.4701420641051]],
                         [[1/3, 1/3]]])
        wts = np.concatenate([np.repeat(0.1259391805448, 3),
                              np.repeat(0.1323941527885, 3), [0.225]])
    elif order in (6, 7):
        pts = np.array([
            [0.0651301029022, 0.0651301029022],
            [0.8697397941956, 0.0651301029022],
            [0.0651301029022, 0.8697397941956],
            [0.3128654960049, 0.0486903154253],
            [0.6384441885698, 0.3128654960049],
            [0.0486903154253, 0.6384441885698],
            [0.6384441885698, 0.0486903154253],
            [0.3128654960049, 0.6384441885698],
            [0.0486903154253, 0.3128654960049],
            [0.2603459660790, 0.2603459660790],
            [0.4793080678419, 0.2603459660790],
            [0.2603459660790, 0.4793080678419],
            [0.3333333333333, 0.3333333333333]])
        wts = np.array([
            0.0533472356088, 0.0533472356088, 0.0533472356088,
            0.0771137608903, 0.0771137608903, 0.0771137608903,
            0.0771137608903, 0.0771137608903, 0.0771137608903,
            0.1756152574332, 0.1756152574332, 0.1756152574332,
            -0.1495700444677])
    else:
        raise ValueError("The order is not available")
    return pts, wts
