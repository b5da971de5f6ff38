"""Solution, completion and the one-call analyses (C13, C14)."""
from vf import terms as tm, symarr, symnp, smt
from vf.terms import R, I, B, Unsupported
from vf.symarr import SArr, CooMat
from vf.contract import MCase, lemma, iv, rv, Result, World, traced, same_array
from vf.symrun import group
from contracts.sym_mesh import ZERO, ONE, nonneg, within, appf


def sparse_var(name, n, m, fmt="csr"):
    v, w = tm.fresh("r", I), tm.fresh("c", I)
    return CooMat([(((v, ZERO, tm._co(n)), (w, ZERO, tm._co(m))), tm.TRUE, (v, w, tm.app(name, [v, w], R)))], (n, m), fmt)


@group("C13", ["solutil.static_sol"], limit=100, trusted=[
    "scipy.sparse.linalg.spsolve and numpy.linalg.solve return u with A u = b for nonsingular A (no rounding)"])
def static_solution(ctx):
    n = iv("neq")
    smt.SCHEMAS.clear()
    log = []

    def solver(name, a, b):
        log.append((name, a, b))
        return SArr.var("u", (n,))
    for form in ("sparse", "dense"):
        mk = lambda: sparse_var("K", n, n) if form == "sparse" else SArr.var("K", (n, n))

        def call(W):
            log.clear()
            symnp.SOLVE[0] = solver
            A, f = mk(), SArr.var("f", (n,))
            return W.sol.static_sol(A, f), A, f, list(log)
        cs = MCase(ctx, form, call, nonneg(n), function="solutil.static_sol")

        def post(v, p):
            u, A, f, log = v
            i = tm.fresh("i", I)
            yield {"solves the given system": [("solver called", len(log) >= 1)] +
                   [q for nm, a, b in log[-1:] for q in same_array(a, A, label="matrix") + same_array(b, f, label="rhs")] +
                   same_array(u, SArr.var("u", (n,)), label="solution")}
        cs.verify(post)


@group("C13", ["postprocesor.complete_disp"], limit=100)
def completion(ctx):
    nn, neq = iv("nn"), iv("neq")
    smt.SCHEMAS.clear()
    smt.SCHEMAS["bc"] = lambda n, c: [tm.le(tm.const(-1), tm.app("bc", [n, c], I)), tm.lt(tm.app("bc", [n, c], I), neq)]
    bc = appf("bc", I)
    for nd, uk in ((1, "f"), (2, "f"), (3, "f"), ("nd", "f"), ("nd", "i"), (2, "i")):
        u = appf("u", R if uk == "f" else I)
        ndv = nd if isinstance(nd, int) else iv(nd)
        assume = nonneg(nn, neq) + ([tm.le(ONE, ndv)] if nd == "nd" else [])
        cols = iv("ncols")

        def call(W):
            a = (SArr.var("bc", (nn, ndv), "i"), SArr.var("nodes", (nn, cols)), SArr.var("u", (neq,), uk))
            r = [W.pos.complete_disp(*a, ndof_node=ndv)]
            return r + ([W.pos.complete_disp(*a)] if nd == 2 else [])
        cs = MCase(ctx, "%s components per node%s" % (nd, ", integer solution" if uk == "i" else ""), call, assume + [tm.le(ONE, cols)], function="postprocesor.complete_disp")

        def post(vs, p, u=u, ndv=ndv):
            i, j = tm.fresh("i", I), tm.fresh("j", I)
            for v in vs:
                yield {"shape": [("rows", v.shape[0], nn), ("columns", v.shape[1], tm._co(ndv)), ("float", v.vd == "f")]}
                for jj in ([tm.const(b) for b in range(ndv)] if isinstance(ndv, int) else [j]):
                    f = within(i, nn) + within(jj, ndv)
                    fixed = tm.eq(bc(i, jj), tm.const(-1))
                    yield {"values": [("fixed", v.at(i, jj), ZERO, f + [fixed]),
                                      ("free", v.at(i, jj), u(bc(i, jj)), f + [tm.not_(fixed)])]}
        cs.verify(post)


@group("C13", ["postprocesor.energy"], limit=100)
def energy(ctx):
    n = iv("neq")
    smt.SCHEMAS.clear()
    K, u, f = appf("K", R), appf("u", R), appf("f", R)

    def work(n, K=K, u=u):
        i, j = tm.fresh("i", I), tm.fresh("j", I)
        return tm.bsum(i, ZERO, n, tm.mul(u(i), tm.bsum(j, ZERO, n, tm.mul(K(i, j), u(j)))))
    for form in ("sparse", "dense"):
        def call(W):
            return W.pos.energy(SArr.var("u", (n,)), sparse_var("K", n, n) if form == "sparse" else SArr.var("K", (n, n)))
        cs = MCase(ctx, form, call, nonneg(n), function="postprocesor.energy")
        cs.verify(lambda v, p: [("-u.K u/2", v, tm.mul(tm.const(-0.5), work(n)))])
    cs = MCase(ctx, "integer table and solution", lambda W: W.pos.energy(SArr.var("u", (n,), "i"), SArr.var("K", (n, n), "i")),
               nonneg(n), function="postprocesor.energy")
    cs.verify(lambda v, p: [("-u.K u/2", v, tm.mul(tm.const(-0.5), work(n, appf("K", I), appf("u", I))))])
    # with K u = f the internal work is the work of the loads
    i, j = tm.fresh("i", I), tm.fresh("j", I)
    lemma(ctx, "lemma/internal work equals external work, term by term",
          equal=[("u_i (K u)_i", tm.mul(u(i), appf("Ku", R)(i)), tm.mul(u(i), f(i)))],
          facts=[tm.eq(appf("Ku", R)(i), f(i))])


# ------------------------------------------------------------- whole analysis
def analysis_stubs(log, sizes):
    nn, nels, neq, w = sizes

    def asm(a):
        if isinstance(a["sparse"], tm.T):
            raise Unsupported("symbolic sparse flag")
        mk = sparse_var if a["sparse"] else (lambda nm, n, m: SArr.var(nm, (n, m)))
        return mk("Kglob", neq, neq), mk("Mglob", neq, neq)
    res = {
        "assemutil.DME": lambda a: (SArr.var("op", (nels, iv("opcols")), "i"), SArr.var("bc", (nn, 2), "i"), neq),
        "assemutil.assembler": asm,
        "assemutil.loadasem": lambda a: SArr.var("rhs", (neq,)),
        "solutil.static_sol": lambda a: SArr.var("usol", (neq,)),
        "postprocesor.complete_disp": lambda a: SArr.var("UC", (nn, 2)),
        "postprocesor.strain_nodes": lambda a: (SArr.var("Enod", (nn, 3)), SArr.var("Snod", (nn, 3))),
        "postprocesor.fields_plot": lambda a: None,
    }
    return {k: traced(k, log, f) for k, f in res.items()}


def analysis_post(v, log, given, sizes, strains, plot):
    """the result is the composition of the contracts of the callees on this mesh"""
    nn, nels, neq, w = sizes
    calls = {}
    for n, a in log:
        calls.setdefault(n, []).append(a)
    need = ["assemutil.DME", "assemutil.assembler", "assemutil.loadasem", "solutil.static_sol",
            "postprocesor.complete_disp"] + (["postprocesor.strain_nodes"] if strains else [])
    yield {"steps": [(n + " called", n in calls) for n in need]}
    if any(n not in calls for n in need):
        return
    bc, rhs, us = SArr.var("bc", (nn, 2), "i"), SArr.var("rhs", (neq,)), SArr.var("usol", (neq,))
    UC = SArr.var("UC", (nn, 2))
    two = tm.const(2)
    for a in calls["assemutil.DME"]:
        yield {"numbering": same_array(a["cons"], given["cons"], label="cons") +
               same_array(a["elements"], given["elements"], label="elements") +
               [("components", tm.eq(tm._co(a["ndof_node"]), two)),
                ("maximum", tm.le(tm.const(18), tm._co(a["ndof_el_max"]))), ("catalogue", a["ndof_el"] is None)]}
    for a in calls["assemutil.assembler"]:
        yield {"assembly": same_array(a["elements"], given["elements"], label="elements") +
               same_array(a["mats"], given["mats"], label="mats") +
               same_array(a["nodes"], given["nodes"], label="nodes", columns=3) +
               [("identifier and plane coordinates only", tm.eq(tm._co(a["nodes"].shape[1]), tm.const(3)))] +
               [("neq", tm._co(a["neq"]), neq), ("catalogue", a["uel"] is None)] +
               same_array(a["assem_op"], SArr.var("op", (nels, iv("opcols")), "i"), label="assembly map")}
    for a in calls["assemutil.loadasem"]:
        yield {"loads": same_array(a["loads"], given["loads"], label="loads") + same_array(a["bc_array"], bc, label="bc") +
               [("neq", tm._co(a["neq"]), neq), ("components", tm.eq(tm._co(a["ndof_node"]), two))]}
    for a in calls["solutil.static_sol"]:
        K = sparse_var("Kglob", neq, neq)
        yield {"solution": same_array(a["mat"], K, label="stiffness") + same_array(a["rhs"], rhs, label="rhs")}
    for a in calls["postprocesor.complete_disp"]:
        yield {"completion": same_array(a["bc_array"], bc, label="bc") + same_array(a["sol"], us, label="sol") +
               [("rows", tm._co(a["nodes"].shape[0]), nn), ("components", tm.eq(tm._co(a["ndof_node"]), two))]}
    for a in calls.get("postprocesor.strain_nodes", []):
        yield {"recovery": same_array(a["nodes"], given["nodes"], label="nodes", columns=3) +
               same_array(a["elements"], given["elements"], label="elements") +
               same_array(a["mats"], given["mats"], label="mats") +
               same_array(a["sol_complete"], UC, label="displacements")}
    if strains:
        ok = isinstance(v, tuple) and len(v) == 3
        yield {"result": [("three arrays", ok)]}
        if ok:
            yield {"result": same_array(v[0], UC, label="displacements") +
                   same_array(v[1], SArr.var("Enod", (nn, 3)), label="strains") +
                   same_array(v[2], SArr.var("Snod", (nn, 3)), label="stresses")}
    else:
        yield {"result": same_array(v, UC, label="displacements")}


MAXPOS = {"spmax": lambda k: [tm.lt(ZERO, tm.app("spmax", [k], R))]}


@group("C13", ["solids_GUI.solids_auto"], limit=150, trusted=["datetime, matplotlib and print do not affect the results"])
def one_call(ctx):
    nn, nels, neq, w = sizes = iv("nn"), iv("nels"), iv("neq"), iv("width")
    for plot in (True, False):
        for strains in (True, False):
            smt.SCHEMAS.clear()
            smt.SCHEMAS.update(MAXPOS)
            log = []

            def call(W):
                log.clear()
                g = dict(nodes=SArr.var("nodes", (nn, iv("ncols"))), cons=SArr.var("cons", (nn, 2), "i"),
                         elements=SArr.var("elements", (nels, w), "i"), mats=SArr.var("mats", (iv("nmats"), iv("mcols"))),
                         loads=SArr.var("loads", (iv("nloads"), tm.const(3))))
                if not plot and not strains:
                    r = [W.gui.solids_auto(dict(g), plot_contours=False)]
                elif plot and strains:
                    r = [W.gui.solids_auto(dict(g), compute_strains=True)]
                else:
                    r = [W.gui.solids_auto(dict(g), plot_contours=plot, compute_strains=strains)]
                return r[0], list(log), g
            cs = MCase(ctx, "%s, %s" % ("plots" if plot else "no plots", "strains" if strains else "displacements"), call,
                       nonneg(*sizes) + nonneg(iv("nmats"), iv("nloads")) + [tm.eq(tm.const(3), iv("ncols")), tm.le(ONE, iv("mcols"))],
                       stubs=analysis_stubs(log, sizes), function="solids_GUI.solids_auto")
            cs.verify(lambda v, p: analysis_post(v[0], v[1], v[2], sizes, strains, plot))


# ---------------------------------------------------------------- text files
FILES = {"nodes.txt": "nodes", "mater.txt": "mats", "eles.txt": "elements", "loads.txt": "loads"}


def loadtxt_model(read, folder, rows, cols):
    """trusted contract of numpy.loadtxt on a file of records: the numbers in
    order, one row per record, with unit axes dropped unless ndmin keeps them"""
    def hook(name, a, k):
        if name != "loadtxt":
            raise Unsupported(name)
        k = dict(zip(("fname", "dtype"), a), **k)
        if len(a) > 2 or set(k) - {"fname", "dtype", "ndmin", "encoding", "unpack", "max_rows"} or \
                k.get("unpack") or k.get("max_rows") is not None:
            raise Unsupported("loadtxt arguments")
        path = k["fname"]
        if not isinstance(path, str):
            raise Unsupported("loadtxt of a file object")
        read.append(path)
        if isinstance(k.get("ndmin"), int) and k["ndmin"] not in (0, 1, 2):
            raise ValueError("Illegal value of ndmin keyword: %s" % k["ndmin"])
        base = path[len(folder):] if path.startswith(folder) else None
        if base not in FILES:
            raise FileNotFoundError(path)
        nm = FILES[base]
        kind = symnp.norm_dtype(k.get("dtype") or float)
        if kind not in ("i", "f"):
            raise Unsupported("loadtxt dtype")
        if kind == "i" and nm != "elements":
            raise ValueError("could not convert string to int")   # these tables hold real numbers
        full = SArr.var(nm, (rows[nm], cols[nm]), "i" if nm == "elements" else "f")
        if kind == "f" and nm == "elements":
            full = full.astype(float)
        nd = k.get("ndmin", 0)
        if isinstance(nd, tm.T):
            raise Unsupported("symbolic ndmin")
        if nd < 2:
            r1, c1 = bool(tm.eq(tm._co(rows[nm]), ONE)), bool(tm.eq(tm._co(cols[nm]), ONE))
            if r1 and c1:
                return full[0] if nd == 1 else full[0, 0]
            if r1:
                return full[0]
            if c1:
                return full[:, 0]
        return full
    return hook


@group("C14", ["preprocesor.readin"], limit=60, trusted=[
    "numpy.loadtxt returns the numbers of the file, one row per record, unit axes dropped unless ndmin=2"])
def read_files(ctx):
    rows = {n: iv("n" + n) for n in FILES.values()}
    cols = {n: iv("c" + n) for n in FILES.values()}
    smt.SCHEMAS.clear()
    assume = [tm.le(ONE, rows[n]) for n in rows] + [tm.le(ONE, cols[n]) for n in cols]
    for folder, how in (("/models/one/", "argument"), ("data/", "keyword"), ("", "default")):
        read = []

        def call(W):
            read.clear()
            symnp.IO[0] = loadtxt_model(read, folder, rows, cols)
            r = W.pre.readin(folder) if how == "argument" else W.pre.readin(folder=folder) if how == "keyword" \
                else W.pre.readin()
            return r, list(read)
        cs = MCase(ctx, "folder as " + how, call, assume, function="preprocesor.readin")

        def post(v, p):
            v, read = v
            yield {"files": [("only the four files of the folder", all(
                f.startswith(folder) and f[len(folder):] in FILES for f in read))]}
            ok = isinstance(v, tuple) and len(v) == 4
            yield {"tables": [("four tables", ok)]}
            if ok:
                for n, a in zip(("nodes", "mats", "elements", "loads"), v):
                    kd = "i" if n == "elements" else "f"
                    yield {"tables": same_array(a, SArr.var(n, (rows[n], cols[n]), kd), label=n) +
                           [(n + (" holds integers" if kd == "i" else " holds reals"), getattr(a, "vd", None) == kd)]}
        cs.verify(post)


@group("C14", ["solids_GUI.solids_GUI"], limit=150, trusted=["datetime, matplotlib and print do not affect the results"])
def folder_analysis(ctx):
    nn, nels, neq, w = sizes = iv("nn"), iv("nels"), iv("neq"), iv("width")
    for plot, strains, how in ((True, True, "given"), (True, False, "given"), (False, True, "given"),
                               (False, False, "given"), (False, True, "asked for"), (True, False, "defaults"), (False, False, "current")):
        asked = "" if how == "current" else "/chosen/folder/"
        smt.SCHEMAS.clear()
        smt.SCHEMAS.update(MAXPOS)
        log = []

        def read(a):
            return (SArr.var("nodes", (nn, iv("ncols"))), SArr.var("mats", (iv("nmats"), iv("mcols"))),
                    SArr.var("elements", (nels, w), "i"), SArr.var("loads", (iv("nloads"), tm.const(3))))

        def call(W, plot=plot, strains=strains, how=how, asked=asked):
            log.clear()
            f = W.gui.solids_GUI
            if how == "defaults":
                r = f(folder=asked)
            elif how == "asked for":
                r = f(plot_contours=plot, compute_strains=strains)
            else:
                r = f(plot_contours=plot, compute_strains=strains, folder=asked)
            return r, list(log)
        stubs = analysis_stubs(log, sizes)
        stubs["preprocesor.readin"] = traced("preprocesor.readin", log, read)
        stubs["preprocesor.echomod"] = traced("preprocesor.echomod", log, lambda a: None)
        stubs["preprocesor.initial_params"] = traced("preprocesor.initial_params", log, lambda a: "/chosen/folder/")
        nm = "%s, %s, folder %s" % ("plots" if plot else "no plots", "strains" if strains else "displacements", how)
        cs = MCase(ctx, nm, call, nonneg(*sizes) + nonneg(iv("nmats"), iv("nloads")) +
                   [tm.le(tm.const(3), iv("ncols")), tm.le(ONE, iv("mcols"))],
                   stubs=stubs, function="solids_GUI.solids_GUI")

        def post(v, p):
            v, log = v
            rd = [a for n, a in log if n == "preprocesor.readin"]
            yield {"reading": [("the folder is read", len(rd) == 1 and rd[0]["folder"] == asked)]}
            n, m, e, l = read(None)
            # the constraint flags are the last two columns of the node file
            nc = iv("ncols")
            given = dict(nodes=n, mats=m, elements=e, loads=l,
                         cons=symarr.functional((nn, 2), "f", lambda ix: n.at(ix[0], nc - 2 + ix[1])))
            yield from analysis_post(v, log, given, sizes, strains, plot)
        cs.verify(post)
