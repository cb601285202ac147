"""C12 group_index_from_length_and_offset"""
from harness import *
import gen
import virgo.mpi.util as u
import virgo.mpi.parallel_sort as ps
poison(u, ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    ng = int(rng.integers(0, 12)); style = rng.integers(4)
    length = rng.integers(0, [3, 10, 40][rng.integers(3)], ng)
    if style == 0: gaps = np.zeros(ng + 1, dtype=int)
    else: gaps = rng.integers(0, [2, 6, 30][style - 1], ng + 1)
    if rng.random() < 0.2: length[:] = 0
    off = np.zeros(ng, dtype=np.int64); pos = 0
    for i in range(ng):
        pos += gaps[i]; off[i] = pos; pos += length[i]
    pos += gaps[ng]
    P = int(pos)
    cg, cp = gen.split(rng, ng, n), gen.split(rng, P, n)
    want = -np.ones(P, dtype=np.int64); wr = -np.ones(P, dtype=np.int64)
    for i in range(ng):
        want[off[i]:off[i] + length[i]] = i
        wr[off[i]:off[i] + length[i]] = np.arange(length[i])
    dt = ["i8", "u8", "i4", "u4"][rng.integers(4)]
    l, o = gen.part(length, cg, me).astype(dt), gen.part(off, cg, me).astype(["i8", "u8", "i4", "u4"][rng.integers(4)])
    l0, o0 = l.copy(), o.copy()
    rr = bool(rng.random() < 0.6)
    desc.update(length=length, offset=off, groups_on_rank=cg, ids_on_rank=cp, return_rank=rr)
    out = u.group_index_from_length_and_offset(l, o, int(cp[me]), return_rank=rr, comm=comm)
    grnr, rank = out if rr else (out, None)
    expect_equal(grnr, gen.part(want, cp, me), "group index", dtype=False)
    if rr: expect_equal(rank, gen.part(wr, cp, me), "rank in group", dtype=False)
    expect_equal(l, l0, "length"); expect_equal(o, o0, "offset")
    return (n, ng, rr, tuple(np.sign(cg)), tuple(np.sign(cp)), bool((length == 0).any()))
