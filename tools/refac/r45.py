# gaussutil: the line rules in a table of the module, looked up
# props: C02 C06 C07 C21
### gaussutil
_LINE = {
    2: ([0.577350269189625764], [1.0]),
    3: ([0.774596669241483377, 0], [0.555555555555555556, 0.888888888888888889]),
    4: ([0.861136311594052575, 0.339981043584856265], [0.347854845137453857, 0.652145154862546143]),
    5: ([0.906179845938663993, 0.538469310105683091, 0],
        [0.236926885056189088, 0.478628670499366468, 0.568888888888888889]),
    6: ([0.932469514203152028, 0.661209386466264514, 0.238619186083196909],
        [0.171324492379170345, 0.360761573048138608, 0.467913934572691047]),
    7: ([0.949107912342758525, 0.741531185599394440, 0.405845151377397167, 0],
        [0.129484966168869693, 0.279705391489276668, 0.381830050505118945, 0.417959183673469388]),
    8: ([0.960289856497536232, 0.796666477413626740, 0.525532409916328986, 0.183434642495649805],
        [0.101228536290376259, 0.222381034453374471, 0.313706645877887287, 0.362683783378361983]),
    9: ([0.968160239507626090, 0.836031107326635794, 0.613371432700590397, 0.324253423403808929, 0],
        [0.0812743883615744120, 0.180648160694857404, 0.260610696402935462, 0.312347077040002840, 0.330239355001259763]),
    10: ([0.973906528517171720, 0.865063366688984511, 0.679409568299024406, 0.433395394129247191, 0.148874338981631211],
         [0.0666713443086881376, 0.149451349150580593, 0.219086362515982044, 0.269266719309996355, 0.295524224714752870]),
}

def gauss_1d(npts):
    try:
        half, weights = _LINE[npts]
    except KeyError:
        raise ValueError("The number of points should be in [2, 10]")
    k = npts // 2
    pts = [-x for x in half] + half[:k][::-1]
    wts = weights + weights[:k][::-1]
    return pts, wts
