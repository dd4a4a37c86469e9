"""Operations on offer to spec/CoreMC.tla (argument domains of the model)."""
ONE = 4096
Q = ONE // 4
INF = 1888888888


def small():
    """toy lattice variant 2: 0 QF, 1 B (master), 2 B2 (child), 3 C, 4 RF"""
    T = lambda **k: dict(dict(cf=False, hcm=[], vcm=[], skq=[], kids=[]), **k)
    o = [dict(op="reg_mag", ords=[0], typ=T(hcm=[2 * Q], vcm=[2 * Q], skq=[2 * Q])),
         dict(op="reg_mag", ords=[1], typ=T(hcm=[INF], cf=True, kids=[[1, [2]]])),
         dict(op="reg_mag", ords=[3], typ=T(vcm=[Q])), dict(op="reg_mag", ords=[0], typ=T()),
         dict(op="reg_rf", ords=[4]), dict(op="reg_sup", kind="Girder", pairs=[[0, 2]]),
         dict(op="reg_sup", kind="Girder", pairs=[[3, 1], [0, 2]])]
    for i in (0, 1, 3):
        o.append(dict(op="set_cm", ords=[i], vals=[3 * Q], dim=0, method="abs"))
        o.append(dict(op="set_cm", ords=[i], vals=[-Q], dim=1, method="add"))
    o.append(dict(op="set_cm", ords=[0, 3], vals=[-2 * ONE], dim=0, method="rel"))
    o.append(dict(op="set_mag", ords=[1], vals=[3 * Q], skew=False, order=1, method="abs", comp=True))
    o.append(dict(op="set_mag", ords=[1, 0], vals=[2 * ONE], skew=False, order=1, method="rel", comp=False))
    o.append(dict(op="set_mag", ords=[0], vals=[-3 * Q], skew=True, order=1, method="add", comp=False))
    o.append(dict(op="poke", sets=[[0, "CalErrorB", [Q, Q]], [1, "CalErrorB", [0, -Q]]]))
    o.append(dict(op="poke", sets=[[1, "BendingAngleError", Q]]))
    o.append(dict(op="sys_mult", ords=[0, 1], tab=[[Q, 0], [Q, Q], [0, Q]], order=1, skew=False))
    o.append(dict(op="sys_mult", ords=[0], tab=[[ONE, Q]], order=0, skew=True))
    o.append(dict(op="set_cav", ords=[4], vals=[Q], par="V", method="add"))
    o.append(dict(op="switch", modes=["radiationon", "cavityoff"]))
    return o


def toy(rng):
    """a random operation menu for the full toy lattice, drawn anew for every seed"""
    T = lambda **k: dict(dict(cf=False, hcm=[], vcm=[], skq=[], kids=[]), **k)
    quad, bend, child, sext, corr, rf, bpm = [2, 3, 13], [5], [6], [7], [8], [0, 12], [9, 11]
    lim = lambda: [rng.choice([Q, 2 * Q, ONE, INF])]
    order = {**{i: 2 for i in quad + bend + corr}, 7: 3}
    o = []
    for _ in range(6):
        o.append(dict(op="reg_mag", ords=rng.sample(quad, rng.randint(1, 3)), typ=T(hcm=lim(), vcm=lim())))
        o.append(dict(op="reg_mag", ords=bend, typ=T(cf=True, hcm=lim(), kids=[[5, child]])))
        o.append(dict(op="reg_mag", ords=corr + sext, typ=T(vcm=lim(), skq=lim())))
    o += [dict(op="reg_mag", ords=corr, typ=T(hcm=lim(), vcm=lim())), dict(op="reg_rf", ords=rng.sample(rf, 1)),
          dict(op="reg_rf", ords=rf), dict(op="reg_bpm", ords=rng.sample(bpm, 1)), dict(op="reg_bpm", ords=bpm[::-1])]
    for _ in range(2):
        p = rng.sample(range(15), 4)
        o.append(dict(op="reg_sup", kind=rng.choice(["Girder", "Plinth", "Section"]), pairs=[sorted(p[:2]), p[2:]]))
    mags = quad + bend + sext + corr
    v = lambda: rng.choice([0, Q, -Q, 2 * Q, -3 * Q, ONE, -ONE, 5 * Q])
    for _ in range(16):
        k = rng.sample(mags, rng.randint(1, 4))
        met = rng.choice(["abs", "rel", "add"])
        vals = [rng.choice([-ONE, 0, 2 * Q, ONE, 2 * ONE]) if met == "rel" else v() for _ in range(rng.choice([1, len(k)]))]
        o.append(dict(op="set_cm", ords=k, vals=vals, dim=rng.randint(0, 1), method=met))
        o.append(dict(op="set_mag", ords=k, vals=vals, skew=rng.random() < .4, order=rng.randint(0, 1), method=met,
                      comp=rng.random() < .4))
        o.append(dict(op="set_mag", ords=bend, vals=vals[:1], skew=False, order=1, method=met, comp=True))
        c = rng.sample(rf, rng.randint(1, 2))
        o.append(dict(op="set_cav", ords=c, vals=vals[:1], par=rng.choice("VFP"), method=met))
        i = rng.choice(mags)
        o.append(dict(op="poke", sets=[[i, "CalError" + rng.choice("AB"), [rng.choice([0, Q, -Q, 2 * Q]) for _ in range(order[i])]]]))
    for _ in range(4):
        i = rng.sample(mags, 2)
        n = rng.randint(0, 1)
        o.append(dict(op="sys_mult", ords=i, tab=[[v(), v()] for _ in range(rng.randint(n + 1, 4))], order=n, skew=rng.random() < .5))
        o.append(dict(op="upd_mag", all=rng.random() < .5, ords=rng.sample(mags, 2)))
        o.append(dict(op="switch", modes=rng.sample(["radiationoff", "radiationon", "cavityoff", "cavityon"], rng.randint(1, 3))))
    o.append(dict(op="poke", sets=[[5, "BendingAngleError", rng.choice([Q, -2 * Q])]]))
    return o
