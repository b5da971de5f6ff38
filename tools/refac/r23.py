# gaussutil: tensor grid
# props: C05 C06 C07 C21
### gaussutil
def gauss_nd(npts, ndim=2):
    pts, wts = gauss_1d(npts)
    grids = np.meshgrid(*[pts]*ndim, indexing="ij")
    weights = np.meshgrid(*[wts]*ndim, indexing="ij")
    nd_pts = np.column_stack([g.ravel() for g in grids])
    total = weights[0]
    for w in weights[1:]:
        total = total*w
    return nd_pts, list(total.ravel())
