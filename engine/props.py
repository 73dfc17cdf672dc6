def T(name, src, entry, **k):
    d = {"name": name, "src": src, "entry": entry}
    d.update(k)
    return d


PROPS = {}


def P(pid, tasks, **k):
    d = dict(tasks=tasks)
    d.update(k)
    PROPS[pid] = d


# ------------------------------------------------------------------ curves
def K(nd, t="uint64_t", *extra):
    return ["ND=%d" % nd, "KT=" + t, "CHD=%d" % {1: 8, 2: 6, 3: 4}[nd]] + list(extra)


_k = []
for nd in (1, 2, 3):
    for e in ("morton_roundtrip", "morton_order", "morton_depth", "morton_range", "morton_branch",
              "morton_children"):
        o = {"picks": {"depth": (0, {1: 8, 2: 4, 3: 3}[nd])}} if e == "morton_range" else {}
        _k.append(T("%s-%dd" % (e, nd), "curve.cc", e, defs=K(nd), opts=o))
for nd in (1, 2, 3):
    _k.append(T("morton_ieee-%dd" % nd, "curve.cc", "morton_ieee", defs=K(nd, "uint64_t", "IEEE"),
                mode="ieee", tier="thorough" if nd > 1 else "quick"))
P("K01", _k)
_k = []
for nd, kt in ((1, "uint64_t"), (2, "uint16_t"), (3, "uint16_t")):
    for e in ("hilbert_roundtrip", "hilbert_adjacent"):
        _k.append(T("%s-%dd-full" % (e, nd), "curve.cc", e, defs=K(nd, kt), O="unroll", weight=5,
                    bounds="all levels symbolic (%s)" % kt))
for nd, w, s in ((2, 1, 3), (3, 1, 2)):
    for e in ("hilbert_roundtrip", "hilbert_adjacent"):
        _k.append(T("%s-%dd-win" % (e, nd), "curve.cc", e,
                    tier="quick" if e == "hilbert_adjacent" else "thorough",
                    defs=K(nd, "uint64_t", "W=%d" % w, "WK=%d" % (nd * w)), weight=3,
                    bounds="64-bit keys, any window of %d consecutive levels symbolic, the others "
                           "0, 1 or alternating" % w))
        _k.append(T("%s-%dd-win2" % (e, nd), "curve.cc", e, tier="thorough",
                    defs=K(nd, "uint64_t", "W=%d" % s, "WK=%d" % (nd * s)), weight=6,
                    bounds="64-bit keys, any window of %d consecutive levels symbolic, the others "
                           "0, 1 or alternating" % s))
_k.append(T("hilbert_ends-1d", "curve.cc", "hilbert_ends", defs=K(1, "uint32_t")))
for nd in (2, 3):
    _k.append(T("hilbert_ends-%dd" % nd, "curve.cc", "hilbert_ends", defs=K(nd, "uint64_t", "W=1"), weight=3,
                opts={"picks": {"outside": (2, 3), "low": (0, 3)}},
                bounds="64-bit keys, faces of the domain, one symbolic level among the four lowest"))
    _k.append(T("hilbert_ends-%dd-full" % nd, "curve.cc", "hilbert_ends", defs=K(nd, "uint16_t"), O="unroll",
                weight=3))
_k.append(T("hilbert_depth-1d", "curve.cc", "hilbert_depth", defs=K(1)))
_k.append(T("hilbert_depth-2d", "curve.cc", "hilbert_depth", defs=K(2, "uint8_t")))
_k.append(T("hilbert_depth-3d", "curve.cc", "hilbert_depth", defs=K(3, "uint8_t")))
_k.append(T("hilbert_depth-2d-win", "curve.cc", "hilbert_depth", defs=K(2, "uint64_t", "W=1"),
            tier="thorough", opts={"picks": {"outside": (3, 3)}}))
_k.append(T("hilbert_depth-3d-win", "curve.cc", "hilbert_depth", defs=K(3, "uint64_t", "W=1"),
            tier="thorough", opts={"picks": {"outside": (3, 3)}}))
P("K02", _k)
_k = []
for nd in (1, 2, 3):
    for e in ("statics", "key_digits", "key_conflict", "key_order"):
        o = {"picks": {"depth": (0, 20)}} if e == "key_digits" and nd == 1 else {}
        _k.append(T("%s-%dd" % (e, nd), "curve.cc", e, defs=K(nd), opts=o))
P("K03", _k)


# ----------------------------------------------------------------- tensors
_k = []
for nd in (1, 2, 3, 4):
    for e in ("index2", "index3", "index4", "named_gen", "named_sym"):
        _k.append(T("%s-%dd" % (e, nd), "tensor.cc", e, defs=["ND=%d" % nd],
                    tier="thorough" if e == "index4" and nd == 4 else "quick"))
_k.append(T("index_mixed", "tensor.cc", "index_mixed", defs=["ND=3"]))
P("T01", _k)
_k = []
for nd in (1, 2, 3, 4):
    for e in ("arith_vec", "arith_sym2", "vec_products", "construct"):
        _k.append(T("%s-%dd" % (e, nd), "tensor.cc", e, defs=["ND=%d" % nd]))
    if nd in (2, 3):
        _k.append(T("cross_products-%dd" % nd, "tensor.cc", "cross_products", defs=["ND=%d" % nd]))
P("T02", _k)


# ---------------------------------------------------------------- geometry
_k = []
for nd in (1, 2, 3):
    for e in ("box_box", "sphere_sphere", "sphere_box_sound", "sphere_box_tight", "within",
              "within_box", "mac", "box_mac"):
        _k.append(T("%s-%dd" % (e, nd), "geom.cc", e, defs=["ND=%d" % nd]))
P("G01", _k)


# ----------------------------------------------------------------- kernels
_k, _k2 = [], []
POLY = ("cubic_spline", "quintic_spline", "wendland_c2", "wendland_c4", "wendland_c6")
for nd in (1, 2, 3):
    for kw in POLY + ("gaussian", "super_gaussian", "sinc_ker"):
        df = ["EXT_GDIMENSION=%d" % nd, "KW=" + kw]
        for e in ("support", "scaling", "direction"):
            _k.append(T("%s-%s-%dd" % (e, kw, nd), "kern.cc", e, defs=df))
        if kw not in ("super_gaussian", "sinc_ker"):
            _k.append(T("positive-%s-%dd" % (kw, nd), "kern.cc", "positive", defs=df))
        if kw in POLY:
            for e in ("derivative", "continuous", "normalised"):
                _k2.append(T("%s-%s-%dd" % (e, kw, nd), "kern.cc", e, defs=df))
        else:
            _k2.append(T("gradient_form-%s-%dd" % (kw, nd), "kern.cc", "gradient_form", defs=df))
    _k.append(T("selector-%dd" % nd, "kern.cc", "selector", defs=df))
P("W01", _k)
P("W02", _k2)


# ----------------------------------------------------------------- physics
def PH(nd, *extra):
    return ["EXT_GDIMENSION=%d" % nd] + list(extra)


_s1, _s2, _s3 = [], [], []
SLOW = {"momentum-3d", "momentum-2d-3p", "energy_u-1d-3p", "energy_u-2d-3p", "energy_e-1d-3p", "energy_e-2d-3p",
        "energy_same-2d-3p", "limiter-2d", "limiter-3d", "alpha_range-2d", "alpha_range-3d"}
def TP(l, name, e, defs, **k):
    l.append(T(name, "phys.cc", e, defs=defs, tier="thorough" if name in SLOW else "quick", **k))
for nd in (1, 2, 3):
    for e in ("momentum", "energy_u", "energy_e", "energy_same", "equation"):
        TP(_s1, "%s-%dd" % (e, nd), e, PH(nd))
        if nd < 3:
            TP(_s1, "%s-%dd-3p" % (e, nd), e, PH(nd, "NP=3"))
    for e in ("relaxation", "repulsion"):
        TP(_s1, "%s-%dd" % (e, nd), e, PH(nd))
    for e in ("mu_sign", "pi_sign", "limiter", "alpha_range", "alpha_init"):
        TP(_s2, "%s-%dd" % (e, nd), e, PH(nd), opts={"feas_timeout": 150})
    for e in ("density", "signal", "smoothing"):
        TP(_s3, "%s-%dd" % (e, nd), e, PH(nd))
    TP(_s3, "smoothing_ranks-%dd" % nd, "smoothing_ranks", PH(nd))
P("S01", _s1)
P("S02", _s2)
P("S03", _s3)

_e1, _e2, _d1, _i1, _s4 = [], [], [], [], []
for nd in (1, 2, 3):
    def A(l, e, *x, nd=nd, sfx="", **k):
        l.append(T("%s-%dd%s" % (e, nd, sfx), "phys2.cc", e, defs=PH(nd, "VSTR", *x), **k))
    if nd == 1:
        for e in ("eos_gamma", "eos_piecewise", "eos_white_dwarf", "eos_none"):
            A(_e1, e)
    A(_e1, "energy_split")
    for e in ("walls", "sphere_wall", "sphere_wall_radial", "gravity", "density_support"):
        A(_e2, e, opts={"picks": {"n": (2, 2)}} if e == "sphere_wall" and nd > 1 else {},
          tier="thorough" if e == "sphere_wall" and nd == 3 else "quick")
    A(_e2, "sphere_wall", tier="thorough", sfx="-all")
    if nd > 1:
        for e in ("orbit", "airfoil", "airfoil_rotated"):
            A(_e2, e, tier="thorough" if e == "airfoil_rotated" and nd == 3 else "quick")
    A(_e2, "force_list")
    A(_e2, "force_walls")
    for e in ("profile_mass", "profile_ends"):
        A(_d1, e)
    if nd == 1:
        A(_d1, "interp_index")
        A(_d1, "interp_cubic")
        A(_d1, "interp_nodes")
    for e in ("leapfrog", "leapfrog_reversible"):
        A(_i1, e)
    for e in ("timestep", "timestep_energy"):
        A(_s4, e)
    if nd == 1:
        for b in range(8):
            bits = dict(screen=b & 1, scalar=b >> 1 & 1, h5data=b >> 2)
            n = sum(bits.values())
            pk = {k: (v, v) for k, v in bits.items()}
            A(_s4, "adaptive", sfx="-out%d" % b, opts={"picks": dict(pk, bodies=(1, 1) if n else (1, 2))},
              *(["STEPS=%d" % (1 if n == 3 else 2)] if n else []))
            A(_s4, "adaptive", sfx="-out%d-all" % b, opts={"picks": pk}, tier="thorough")
        A(_s4, "termination")
P("E01", _e1)
P("E02", _e2)
P("D01", _d1)
P("I01", _i1)
P("S04", _s4)

_k = []
for nd in (1, 2, 3):
    _k.append(T("periodic-%dd" % nd, "bound.cc", "periodic", defs=PH(nd, "NB=%d" % (2 if nd == 1 else 1))))
    _k.append(T("periodic-%dd-asis" % nd, "bound.cc", "periodic", defs=PH(nd, "NB=1"), O="none"))
    if nd == 2:
        _k.append(T("periodic-%dd-2" % nd, "bound.cc", "periodic", defs=PH(nd, "NB=2"), tier="thorough"))
    _k.append(T("periodic_ranks-%dd" % nd, "bound.cc", "periodic_ranks", defs=PH(nd), tier="thorough" if nd == 3 else "quick"))
P("B01", _k)

_x1 = []
def TR(nd, *x):
    return ["EXT_GDIMENSION=%d" % nd, "KEY_INTEGER_TYPE=uint16_t"] + list(x)
CELLS = {1: None, 2: "0,3,4,7,16,20,63", 3: "0,7,8,64,72,511"}
for nd in (1, 2, 3):
    cl = ["CELLS=" + CELLS[nd]] if CELLS[nd] else []
    _x1.append(T("build-%dd" % nd, "tree.cc", "build", defs=TR(nd, *cl)))
    _x1.append(T("build-%dd-4" % nd, "tree.cc", "build", defs=TR(nd, "NB=4", *cl)))
    _x1.append(T("build-%dd-5" % nd, "tree.cc", "build", defs=TR(nd, "NB=5", *cl), tier="thorough"))
_x1.append(T("build_equal", "tree.cc", "build_equal", defs=TR(2), replay_timeout=5))
P("X01", _x1)

_m1 = []
for nd in (1, 2, 3):
    for e in ("cofm_sums", "cofm_box", "cofm_reach"):
        _m1.append(T("%s-%dd" % (e, nd), "tree.cc", e, defs=TR(nd), opts={"feas_timeout": 200}))
P("M01", _m1)

_x2, _x3, _x4 = [], [], []
for nd in (1, 2, 3):
    cl = ["CELLS=" + {1: "0,1,7", 2: "0,3,63", 3: "0,7,511"}[nd]]
    fx = ["AXIS"]
    _x2.append(T("find-%dd" % nd, "tree.cc", "find", defs=TR(nd, *cl, *fx)))
    if True:
        _x2.append(T("find-%dd-all" % nd, "tree.cc", "find", defs=TR(nd, *cl), opts={"lazy": 1, "budget": 600}, tier="thorough"))
    for w in range(3):
        _x3.append(T("sph-%dd-w%d" % (nd, w), "tree.cc", "sph", defs=TR(nd, *cl, *fx), opts={"picks": {"weight": (w, w)}}))
    _x4.append(T("fmm-%dd" % nd, "tree.cc", "fmm", defs=TR(nd, *cl), opts={"lazy": nd > 1}))
    c4 = ["CELLS=" + {1: "0,1,6,7", 2: "0,3,5,63", 3: "0,7,9,511"}[nd], "AXIS", "NB=4"]
    _x2.append(T("find-%dd-4" % nd, "tree.cc", "find", defs=TR(nd, *c4), opts={"budget": 700}, tier="thorough"))
    for w in range(3):
        _x3.append(T("sph-%dd-w%d-4" % (nd, w), "tree.cc", "sph", defs=TR(nd, *c4), opts={"picks": {"weight": (w, w)}, "budget": 700}, tier="thorough"))
    _x4.append(T("fmm-%dd-4" % nd, "tree.cc", "fmm", defs=TR(nd, *c4), opts={"lazy": nd > 1, "budget": 700}, tier="thorough"))
P("X02", _x2)
P("X03", _x3)
P("X04", _x4)

_x5 = []
def TD(nd, w, r, nb, cells, sched=0, tier="quick", wt=None, key="uint32_t", even=False, **kw):
    pk = {"traversal": (w, w), "ranks": (r, r), "axis": (0, 0)}
    if wt is not None:
        pk["weight"] = (wt, wt)
    pk.update(kw.pop("pk", {}))
    return T("dist-%dd-%s-r%d-n%d%s" % (nd, ("sph", "fmm", "again")[w], r, nb, "-s%d" % sched if sched else "-all" if even and tier != "quick" else ""), "tree.cc", "dist", O=kw.pop("O", "unroll"),
             defs=["EXT_GDIMENSION=%d" % nd, "KEY_INTEGER_TYPE=" + key, "NB=%d" % nb, "CELLS=" + cells] + (["EVEN"] + (["GROWING"] if tier == "quick" else []) if even else []),
             opts=dict({"picks": pk, "sched": sched}, **kw), tier=tier)
_x5.append(TD(1, 0, 2, 3, "0,1,7", wt=0))
_x5.append(TD(1, 1, 2, 3, "0,1,7", wt=0))
_x5.append(TD(1, 2, 2, 2, "0,1", wt=0))
_x5.append(TD(2, 0, 2, 3, "0,3,63", wt=0))
_x5.append(TD(1, 1, 3, 3, "0,1,7", wt=0))
_x5.append(TD(1, 0, 3, 3, "0,1,7", wt=0))
_x5.append(TD(2, 0, 4, 4, "0,3,16,63", wt=0))
_x5.append(TD(3, 1, 5, 5, "0,7,8,64,511", wt=0, pk={"mac": (0, 0)}))
_x5.append(TD(1, 0, 2, 2, "0,1", wt=0, sched=3))
_x5.append(TD(1, 1, 2, 2, "0,1", wt=0, sched=3))
_x5.append(TD(1, 0, 2, 3, "0,1,7", wt=0, sched=3, tier="thorough"))
_x5.append(TD(1, 1, 3, 3, "0,1,7", wt=0, sched=2, tier="thorough"))
_x5.append(TD(2, 1, 5, 5, "0,3,16,20,63", wt=0, tier="thorough"))
_x5.append(TD(2, 1, 6, 6, "0,3,16,20,21,63", wt=0, pk={"mac": (0, 0)}, tier="thorough"))
_x5.append(TD(2, 1, 7, 7, "0,3,4,16,20,21,63", wt=0, pk={"mac": (0, 0)}, tier="thorough"))
_x5.append(TD(2, 1, 9, 9, "0,1,3,4,16,20,21,62,63", wt=0, pk={"mac": (0, 0)}, tier="thorough"))
_x5.append(TD(1, 0, 2, 4, "0,1,6,7", wt=2, pk={"first": (3, 3)}, tier="thorough"))
_x5.append(TD(2, 1, 2, 4, "0,1,4,63", wt=0, pk={"mac": (0, 0)}))
_x5.append(TD(2, 1, 4, 8, "0,1,16,17,32,33,48,49", wt=0, pk={"mac": (0, 0), "bodies": (8, 8)}, even=True))
_x5.append(TD(2, 1, 4, 8, "0,1,16,17,32,33,48,49", wt=0, pk={"mac": (0, 0), "bodies": (8, 8)}, even=True, tier="thorough"))
P("X05", _x5)

_f1 = []
for nd in (1, 2, 3):
    for e in ("p2p", "third_law", "node_moments", "expand", "fresh"):
        _f1.append(T("%s-%dd" % (e, nd), "fmmop.cc", e, defs=["EXT_GDIMENSION=%d" % nd]))
P("F01", _f1)

_p1 = [T("sort-r%d-n%d" % (r, n), "sort.cc", "sorts", O="none", defs=["NB=%d" % n], opts={"picks": {"ranks": (r, r)}, "budget": 600 if t == "thorough" else 240}, tier=t)
       for r, n, t in ((1, 3, "quick"), (2, 2, "quick"), (2, 3, "thorough"), (3, 1, "quick"), (3, 2, "thorough"), (4, 1, "quick"))]
_p1 += [T("ties-r%d-n%d" % (r, n), "sort.cc", "ties", O="none", defs=["NB=%d" % n], tier=t,
          opts={"picks": {"ranks": (r, r), "count": (n, n), "keys": (2, 2) if t == "quick" and r + n > 4 else (2, 3)},
                "budget": 700 if t == "thorough" else 200, "max_steps": 100000 if t == "quick" else 400000})
        for r, n, t in ((2, 2, "quick"), (2, 3, "quick"), (2, 4, "thorough"), (3, 2, "quick"), (3, 3, "thorough"))]
P("P01", _p1)

_o1 = [T("roundtrip-%dd" % d, "io.cc", "roundtrip", defs=["EXT_GDIMENSION=%d" % d]) for d in (1, 2, 3)]
_o1.append(T("roundtrip-1d-w3", "io.cc", "roundtrip", defs=["EXT_GDIMENSION=1", "NR=3", "H5_PARTS=6"], O="none",
             opts={"picks": {"writers": (3, 3), "readers": (1, 1)}}))
_o1.append(T("roundtrip-1d-r3", "io.cc", "roundtrip", defs=["EXT_GDIMENSION=1", "NR=3", "H5_PARTS=6"], tier="thorough"))
P("O01", _o1)
P("O02", [T("make_ids", "io.cc", "make_ids", defs=["EXT_GDIMENSION=1", "NR=3"])])
P("O03", [T("snapshot", "io.cc", "snapshot", defs=["EXT_GDIMENSION=1"]),
          T("find_iteration", "io.cc", "find_iteration", defs=["EXT_GDIMENSION=1"]),
          T("remove_prefix", "io.cc", "remove_prefix", defs=["EXT_GDIMENSION=1"]),
          T("find_iteration-3", "io.cc", "find_iteration", defs=["EXT_GDIMENSION=1", "NF=3", "NR=3"], tier="thorough"),
          T("remove_prefix-3", "io.cc", "remove_prefix", defs=["EXT_GDIMENSION=1", "NF=3", "NR=3"], tier="thorough")])
P("O04", [T("read_iteration", "io.cc", "read_iteration", defs=["EXT_GDIMENSION=1"]),
          T("continue_run", "io.cc", "continue_run", defs=["EXT_GDIMENSION=1"])])
