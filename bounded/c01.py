"""C01 my_alltoallv / sendrecv against the owner form of its contract"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 3000, "thorough": 60000}

def check_exchange(comm, rng, desc, cnt, dtype, method, gap=0, shuffle=True):
    """cnt[i, j] elements from i to j; segments placed in any order with gaps"""
    n = comm.Get_size(); me = comm.Get_rank()
    def place(c, r):
        order = r.permutation(n) if shuffle else np.arange(n)
        off = np.zeros(n, dtype=np.int64); pos = 0
        for k in order:
            pos += int(r.integers(0, gap + 1))
            off[k] = pos; pos += int(c[k])
        return off, pos + int(r.integers(0, gap + 1))
    sends, recvs = [], []
    for i in range(n):
        sends.append(place(cnt[i, :], rng)); recvs.append(place(cnt[:, i], rng))
    base = rng.integers(1, 100)
    def sbuf(i):
        a = np.arange(sends[i][1], dtype=np.int64) * 7 + 1000003 * (i + 1) + base
        return a.astype(dtype) if dtype != "S" else np.array(list(zip(a, a * 0.5)), dtype=[("a", "i8"), ("b", "f4")]).reshape(-1)
    s = sbuf(me)
    soff, slen = sends[me]; roff, rlen = recvs[me]
    r = sbuf(me)[:0]
    r = np.zeros(rlen, dtype=s.dtype)
    r.view(np.uint8)[:] = 0x5C
    before_r = r.copy(); before_s = s.copy()
    desc.update(method=method, dtype=str(s.dtype), counts=cnt.tolist(), send_offset=soff, recv_offset=roff)
    conv = [np.asarray, list, lambda x: np.asarray(x, dtype=np.int32)][rng.integers(3)]
    ps.my_alltoallv(s, conv(cnt[me, :]), conv(soff), r, conv(cnt[:, me]), conv(roff), comm=comm, method=method)
    want = before_r
    for q in range(n):
        src = s if q == me else (sbuf(q) if cnt[q, me] else None)
        if cnt[q, me]:
            want[roff[q]:roff[q] + cnt[q, me]] = src[sends[q][0][me]:sends[q][0][me] + cnt[q, me]]
    expect(np.array_equal(s.view(np.uint8), before_s.view(np.uint8)), "send buffer was modified")
    if not np.array_equal(r.view(np.uint8), want.view(np.uint8)):
        bad = np.nonzero((r != want))[0]
        raise Mismatch("receive buffer differs from the contract at elements %s" % short(bad[:20]))

def check_sendrecv(comm, rng, desc, na, nb, nchunk, dtype="i8"):
    n = comm.Get_size(); me = comm.Get_rank()
    # pair ranks at random; unpaired ranks talk to themselves
    perm = rng.permutation(n); partner = np.arange(n)
    for k in range(0, n - 1, 2):
        a, b = perm[k], perm[k + 1]
        partner[a], partner[b] = b, a
    lens = rng.integers(0, na + 1, n) if nb is None else np.asarray([na if i % 2 else nb for i in range(n)])
    p = partner[me]
    s = (np.arange(lens[me]) + 1000 * (me + 1)).astype(dtype)
    r = np.full(lens[p] + 3, 99, dtype=dtype)
    sb = s.copy()
    desc.update(partner=partner, lengths=lens, nchunk=nchunk)
    ps.sendrecv(int(p), s, r[:lens[p]], comm=comm, nchunk=nchunk)
    expect_equal(r[:lens[p]], (np.arange(lens[p]) + 1000 * (p + 1)).astype(dtype), "received data")
    expect(np.all(r[lens[p]:] == 99), "wrote outside the receive buffer")
    expect_equal(s, sb, "send buffer")

def case(comm, rng, j, S, desc):
    n = comm.Get_size()
    if j % 4 == 3:
        check_sendrecv(comm, rng, desc, int(rng.integers(0, 40)), None, [None, 1, 2, 3, 7, 10, 100][rng.integers(7)])
        return ("sendrecv", n, desc["nchunk"], tuple(desc["lengths"] % 3))
    cnt = rng.integers(0, 6, (n, n)) * (rng.random((n, n)) < [0.2, 0.6, 1.0][rng.integers(3)])
    dtype = ["i8", "i4", "f8", "u1", "S"][rng.integers(5)]
    method = [None, "hypercube", "async"][j % 3]
    check_exchange(comm, rng, desc, cnt, dtype, method, gap=int(rng.integers(0, 3)))
    return (method, n, dtype, int(cnt.sum()), int((cnt == 0).sum()))

def _big(na, nb, method, nc=0):
    def f(comm, rng, S, desc):
        n = comm.Get_size()
        c = 100 * 1024 * 1024 // 8
        cnt = np.zeros((n, n), dtype=np.int64)
        a, b = 0, min(1, n - 1)
        cnt[a, b] = na(c); cnt[b, a] = nb(c)
        if n > 2: cnt[2, 1] = 3; cnt[0, 0] = nc
        check_exchange(comm, rng, desc, cnt, "i8", method, gap=1)
        return "big"
    return f
FIXED = [
    _big(lambda c: c, lambda c: 0, "hypercube"),
    _big(lambda c: c + 1, lambda c: c - 1, "hypercube", 5),
    _big(lambda c: 2 * c, lambda c: c + 1, "hypercube"),
    _big(lambda c: 2 * c + 3, lambda c: c, "async"),
    _big(lambda c: 0, lambda c: 2 * c, "async"),
    _big(lambda c: 5, lambda c: 2 * c + 1, None),
    lambda comm, rng, S, desc: check_sendrecv(comm, rng, desc, 12, 3, 3),
    lambda comm, rng, S, desc: check_sendrecv(comm, rng, desc, 100*1024*1024 // 8 + 1, 4, None),
]
