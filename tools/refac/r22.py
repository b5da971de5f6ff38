# gaussutil: the rules assembled another way
# props: C05 C06 C07 C21
### gaussutil
def gauss_nd(npts, ndim=2):
    pts, wts = gauss_1d(npts)
    nd_pts = []
    nd_wts = []
    for index in product(range(npts), repeat=ndim):
        nd_pts.append([pts[i] for i in index])
        weight = 1.0
        for i in index:
            weight = weight*wts[i]
        nd_wts.append(weight)
    return np.array(nd_pts), nd_wts
