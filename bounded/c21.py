"""C21 depth first merger tree index"""
from harness import *
import virgo.database.index_trees as it
poison(it)
NCASES = {"quick": 8000 * 4, "thorough": 100000}

def make_forest(rng, n):
    """nodeIndex (unique), descendantIndex (of a node at a later snapshot, or -1), snapnum, mass"""
    ns = int(rng.integers(1, 9))
    sn = np.sort(rng.integers(0, ns, n)) + int(rng.integers(0, 50))
    style = rng.integers(4)
    d = -np.ones(n, dtype=int)
    for i in range(n):
        later = np.nonzero(sn > sn[i])[0]
        if len(later) and rng.random() < [0.9, 0.5, 1.0, 0.97][style]:
            if style == 2: later = later[sn[later] == sn[later].min()]
            d[i] = later[rng.integers(len(later))] if style != 3 else later[-1]
    ids = rng.choice(10 * n + 5, n, replace=False).astype("i8")
    if rng.random() < 0.3: ids = ids + 10**12
    o = rng.permutation(n)
    di = np.where(d >= 0, ids[np.maximum(d, 0)], -1)
    mass = rng.choice(2000, n, replace=False) + 1.0 if rng.random() < 0.6 else rng.integers(1, 6, n).astype(float)
    return ids[o], di[o].astype("i8"), sn[o].astype(["i4", "i8"][rng.integers(2)]), mass[o].astype(["f4", "f8"][rng.integers(2)])

def case(rng, j, S, desc):
    n = int(rng.integers(0 if j % 50 == 0 else 1, [3, 8, 40, 200][rng.integers(4)]))
    ni, di, sn, mass = make_forest(rng, n)
    if rng.random() < 0.2: di = np.where(di < 0, ni.max(initial=0) + 7 + np.arange(n), di)   # descendant outside the set
    desc.update(nodeIndex=ni, descendantIndex=di, snapnum=sn, mass=mass)
    keep = [a.copy() for a in (ni, di, sn, mass)]
    pos = {int(v): i for i, v in enumerate(ni)}
    desc_of = [pos.get(int(x), -1) for x in di]
    progs = [[] for _ in range(n)]
    for i in range(n):
        if desc_of[i] >= 0: progs[desc_of[i]].append(i)
    order = sorted(range(n), key=lambda i: int(sn[i]))
    # tree mass and branch mass from their definitions
    tm = it.find_progenitor_tree_mass(ni, di, sn, mass)
    bm = it.find_progenitor_branch_mass_delucia(ni, di, sn, mass)
    T = [0.0] * n; B = [0.0] * n
    for i in order:
        T[i] = float(mass[i]) + sum(T[p] for p in progs[i])
        B[i] = float(mass[i]) + max([B[p] for p in progs[i]] or [0.0])
    expect(tm.shape == (n,) and bm.shape == (n,), "shape")
    expect(np.allclose(tm, T, rtol=1e-5), "tree mass", tm, T)
    expect(np.allclose(bm, B, rtol=1e-5), "branch mass", bm, B)
    mb = bm if rng.random() < 0.5 else rng.choice(10 * n + 1, n, replace=False).astype("f8")
    if rng.random() < 0.15: mb = rng.permutation(n) + [2.0**24, 1e10, 2.0**52][rng.integers(3)]   # masses which are close together
    if rng.random() < 0.2: mb = mb.astype("i8")
    df, em, lp = it.depth_first_index(ni, di, mb)
    expect_equal(np.sort(df), np.arange(1, n + 1), "sorted depth first indexes", dtype=False)
    node = {int(df[i]): i for i in range(n)}
    def subtree(i):
        out = []; st = [i]
        while st:
            k = st.pop(); out.append(k); st += progs[k]
        return out
    for i in range(n):
        sub = subtree(i)
        expect(int(lp[i]) == int(df[i]) + len(sub) - 1, "last progenitor of node %d" % i, lp[i])
        expect(sorted(int(df[k]) for k in sub) == list(range(int(df[i]), int(lp[i]) + 1)), "progenitor tree of node %d" % i)
        if progs[i]:
            by = sorted(progs[i], key=lambda k: int(df[k]))
            expect(int(df[by[0]]) == int(df[i]) + 1, "first progenitor of node %d" % i)
            for a, b in zip(by, by[1:]):
                expect(mb[a] >= mb[b], "order of progenitors of node %d" % i)
                expect(int(df[b]) == int(lp[a]) + 1, "next progenitor of node %d" % i)
            expect(int(em[i]) == int(em[by[0]]), "end of main branch of node %d" % i)
        else:
            expect(int(em[i]) == int(df[i]), "end of main branch of a leaf")
    nt, mp = it.find_main_progenitor(ni, di, sn, bm)
    expect(nt.shape == (n,) and mp.shape == (n,), "shape")
    for i in range(n):
        if progs[i]:
            expect(int(mp[i]) in [int(ni[k]) for k in progs[i]], "main progenitor of node %d is not a progenitor" % i, mp[i])
            k = pos[int(mp[i])]
            top = max(float(bm[q]) for q in progs[i])
            rel = [(top - float(bm[q])) / float(bm[q]) for q in progs[i]]
            if all(r < 1e-7 or r > 1e-4 for r in rel): expect(int(nt[i]) == sum(r < 1e-7 for r in rel) - 1, "number of ties of node %d" % i, nt[i])
            expect(bm[k] == max(bm[q] for q in progs[i]), "main progenitor of node %d does not have the largest branch mass" % i)
        else: expect(int(mp[i]) == -1 and int(nt[i]) == 0, "main progenitor of a node without progenitors", mp[i])
    for a, b in zip((ni, di, sn, mass), keep): expect_equal(a, b, "input")
    return (min(n, 6), len(set(desc_of)) , max([len(p) for p in progs] or [0]), str(mass.dtype))
