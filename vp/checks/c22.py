"""C22: bookkeeping of image tracks and contour segments."""

PROP = {
    "title": "Image tracks and contour segments keep every image sample exactly once",
    "statement": "match_points returns a permutation that gives each point in turn the nearest still unused candidate; _permute_images reorders "
                 "position, mask and parity of every limb sample together by matching it to the previous sample. Splitting a track yields exactly "
                 "its maximal runs of image samples without parity change or jump of more than 0.1; runs of at least two samples are handed on "
                 "with their head first, tracks that are images all the way round and closed within 1e-5 are kept as closed ones. Merging two "
                 "segments joins them at the chosen pair of ends, reversing (with the parity) the second one where needed; the merge loop joins "
                 "the nearest ends that the connection test allows. A contour is closed at its first point.",
    "over": ["inputs", "histories"],
    "text": "all positions, all patterns of image/ghost/parity of up to 4-5 samples, all orders of the distances between track ends",
    "why": "a sample dropped or joined to the wrong end needs particular patterns of caustic crossings along the limb",
    "files": ["src/microjax/caustics/extended_source/segments.py", "src/microjax/caustics/extended_source/contours.py",
              "src/microjax/caustics/extended_source/limb.py", "src/microjax/utils.py"],
    "mech": [("matching", "utils.match_points"), ("tracks", "caustics.extended_source.limb._permute_images"),
             ("segments", "caustics.extended_source.segments._process_segments"),
             ("merging", "caustics.extended_source.segments._merge_open_segments")],
    "technique": "path-wise symbolic execution (orders of distances, patterns of images), linear real arithmetic",
    "note": "2-3 images, 4-5 samples per track, 2-3 segments; connection test as an oracle; distances as independent positive numbers",
}

import itertools
import jax
import jax.numpy as jnp

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, sym_bool, mk
from .. import term as tm


def run(ck):
    from microjax import utils as ut
    from microjax.caustics.extended_source import segments as sg, limb as lb, contours as co
    ck.encodes("utils.match_points", "caustics.extended_source.limb._permute_images", "caustics.extended_source.segments._split_segment",
               "caustics.extended_source.segments._process_segments", "caustics.extended_source.segments._get_segments",
               "caustics.extended_source.segments._merge_two_segments", "caustics.extended_source.segments._merge_open_segments",
               "caustics.extended_source.contours._contours_from_open_segments")
    ck.ranges["*"] = (0.2, 1)
    ck.bound("match_points: 2-3 points; tracks: 2-3 images, 3 samples; splitting: every pattern of 4 samples (5 thorough); merging: 2-3 segments")
    ck.assume("distances between different points are positive and different; no image sample has a vanishing real part (zero marks an empty slot)")
    matching(ck, ut.match_points)
    permute(ck, lb._permute_images)
    split(ck, sg)
    closed(ck, sg)
    two(ck, sg._merge_two_segments)
    loop(ck, sg)
    closing(ck, co)


def paths(ck, tag, call, args, asm, cuts, want, rep, stubs=(), traced=None, **kw):
    """run under path assumptions and compare with the expected value"""
    if ck.only is not None and ck.only != tag:
        return
    dec = Decider(asm)
    if not dec.envs:
        raise Inconclusive("%s: no input takes this path" % tag)
    it = Interp(cuts=cuts, **kw)
    it.traced = traced
    known = traced is not None and "jaxpr" in traced
    if known:
        for k, m in traced["stubs"]:
            k.meta = m
    dec.budget = 300
    try:
        with tm.deciding(dec):
            got = run_sym(call, *args, interp=it, stubs=() if known else stubs)
    except Undecided:
        # the path is not settled by the assumptions: only a reproduced failure counts
        ck.prove(tag, FALSE, asm, rep, slices=1, tactics=[])
        return
    if traced is not None:
        traced["stubs"] = [(k, k.meta) for k in stubs]
    if callable(want):
        goal = want(got)
    else:
        try:
            goal = tm.band(*[tm.iff(a, b) if tm.is_bool(a) else tm.eq(a, b) for a, b in eq_list(got, want)])
        except ShapeMismatch:
            goal = FALSE
    ck.prove(tag, goal, asm, rep, slices=1, tactics=[])


def unif(ck, lo, hi, n):
    return np.array([ck.rng.uniform(lo, hi) for _ in range(n)])


def dists(rows, cols, pre):
    """distance variables, and the cuts that name the distances"""
    d, cuts = {}, {}
    for i, p in enumerate(rows):
        for j, q in enumerate(cols):
            d[i, j] = v = tm.var("%s%d%d" % (pre, i, j))
            for x in (p - q, q - p):
                cuts[tm.sqrt(x.norm2())] = v
    return d, cuts


def chain(vs):
    return [tm.gt(vs[0], ZERO)] + [tm.lt(a, b) for a, b in zip(vs, vs[1:])]


def greedy(D):
    """indices by greedy nearest unused"""
    out = []
    for row in D:
        out.append(min((j for j in range(len(row)) if j not in out), key=lambda j: row[j]))
    return out


def matching(ck, f):
    for n in (2, 3):
        traced = {}
        a, b = sym_cplx("a", (n,)), sym_cplx("b", (n,))
        d, cuts = dists(a.a, b.a, "d")
        perms = list(itertools.permutations(range(n)))
        last = [(0, 1), (1, 0)] if n == 2 else [perms[0], perms[5]] if ck.quick else perms

        def rep(env, n=n):
            for k in range(200):
                x, y = [np.array([complex(*unif(ck, -1, 1, 2)) for _ in range(n)]) for _ in "ab"]
                got = np.asarray(f(jnp.asarray(x), jnp.asarray(y)))
                if list(got) != greedy(np.abs(x[:, None] - y)):
                    return True, {"a": x, "b": y, "got": got, "expected": greedy(np.abs(x[:, None] - y))}
            return False, {}
        for rows in itertools.product(*([perms] * (n - 1) + [last])):
            asm = []
            for i, o in enumerate(rows):
                asm += chain([d[i, j] for j in o])
            D = [[o.index(j) for j in range(n)] for o in rows]
            want = greedy(D)

            def goal(g, want=want):
                if g.shape != (len(want),):
                    return FALSE
                return tm.band(*[tm.eq(x, tm.const(w)) for x, w in zip(flat_terms(g), want)])
            paths(ck, "match n=%d %s" % (n, "|".join("".join(map(str, o)) for o in rows)), f, (a, b), asm, cuts, goal, rep, traced=traced)


def permute(ck, f):
    for n, N in ((2, 3), (3, 2)):
        traced = {}
        z, m, p = sym_cplx("z", (n, N)), sym_bool("m", (n, N)), sym_real("p", (n, N))

        def rep(env, n=n, N=N):
            for k in range(60):
                x = np.array([[complex(*unif(ck, -1, 1, 2)) for _ in range(N)] for _ in range(n)])
                mm = np.array([[ck.rng.random() < 0.5 for _ in range(N)] for _ in range(n)])
                pp = np.array([[ck.rng.choice([-1.0, 1.0]) for _ in range(N)] for _ in range(n)])
                got = [np.asarray(v) for v in f(jnp.asarray(x), jnp.asarray(mm), jnp.asarray(pp))]
                ix = list(range(n))
                w = [x.copy(), mm.copy(), pp.copy()]
                for c in range(1, N):
                    ix = greedy(np.abs(w[0][:, c - 1][:, None] - x[:, c]))
                    for u, v in zip(w, (x, mm, pp)):
                        u[:, c] = v[ix, c]
                if not (np.allclose(got[0], w[0]) and (got[1] == w[1]).all() and np.allclose(got[2], w[2])):
                    return True, {"z": x, "mask": mm, "parity": pp, "got": jsonable(got), "expected": jsonable(w)}
            return False, {}
        perms = list(itertools.permutations(range(n)))
        # orders of the candidates seen from each image of the previous sample (rows follow the tracks)
        for orders in itertools.product(itertools.product(perms, repeat=n), repeat=N - 1):
            if n == 3 and orders[0][2] != perms[(perms.index(orders[0][0]) + perms.index(orders[0][1])) % 6]:
                continue
            cuts, asm, idx = {}, [], [list(range(n))]
            # the first sample is matched with itself
            for i in range(n):
                for j in range(i):
                    dd, c = dists([z.a[i, 0]], [z.a[j, 0]], "s%d%d" % (i, j))
                    cuts.update(c)
                    asm.append(tm.gt(dd[0, 0], ZERO))
            for c in range(1, N):
                prev = [z.a[k, c - 1] for k in idx[-1]]
                d, cc = dists(prev, [z.a[j, c] for j in range(n)], "d%d_" % c)
                cuts.update(cc)
                for i, o in enumerate(orders[c - 1]):
                    asm += chain([d[i, j] for j in o])
                idx.append(greedy([[o.index(j) for j in range(n)] for o in orders[c - 1]]))
            want = tuple(mk([v.a[idx[c][i], c] for i in range(n) for c in range(N)], (n, N), v.dtype) for v in (z, m, p))
            tag = "permute %dx%d %s" % (n, N, "/".join("|".join("".join(map(str, o)) for o in r) for r in orders))
            paths(ck, tag, f, (z, m, p), asm, cuts, want, rep, traced=traced)


def runs(pat, jumps):
    """maximal runs [l, r) of image samples of one parity without jumps"""
    out, l = [], None
    for k in range(len(pat) + 1):
        if l is not None and (k == len(pat) or pat[k] != pat[k - 1] or jumps[k - 1]):
            out.append((l, k))
            l = None
        if l is None and k < len(pat) and pat[k] != 0:
            l = k
    return out


def step(p, q, tag, cuts):
    """the step between two samples: names for its length and square; the conditions for a jump and for none"""
    v, w = tm.var("step2_" + tag), tm.var("step_" + tag)
    for d in (q - p, p - q):
        cuts[d.norm2()] = v
        cuts[tm.sqrt(d.norm2())] = w
    cuts[tm.sqrt(v)] = w
    return (tm.band(tm.gt(v, tm.const(F(101, 10000))), tm.gt(w, tm.const(F(1001, 10000)))),
            tm.band(tm.lt(v, tm.const(F(99, 10000))), tm.lt(w, tm.const(F(999, 10000))), tm.gt(v, ZERO), tm.gt(w, ZERO)))


def track(name, pat):
    """a masked track with the given pattern of 0 (ghost), +1, -1 (parity), and the distance conditions between samples"""
    N = len(pat)
    z = sym_cplx(name, (N,))
    zz = [z.a[k] if pat[k] else Cx(ZERO, ZERO) for k in range(N)]
    rows = zz + [Cx(tm.const(p), ZERO) for p in pat] + [Cx(tm.const(int(p != 0)), ZERO) for p in pat]
    pos = [tm.gt(z.a[k].re, tm.const(F(1, 10))) for k in range(N) if pat[k]]
    cuts, cond = {}, []
    for k in range(N):
        if pat[k]:
            v = tm.var("abs_%s%d" % (name, k))
            cuts[tm.sqrt(z.a[k].norm2())] = v
            pos.append(tm.gt(v, tm.const(F(1, 10))))
    for k in range(N - 1):
        cond.append(step(z.a[k], z.a[k + 1], "%s%d" % (name, k), cuts))
    return z, mk(rows, (3, N), np.complex128), pos, cuts, cond


def conc_track(ck, pat, jumps):
    z, x = [], complex(0.5, ck.rng.uniform(-0.5, 0.5))
    for k in range(len(pat)):
        z.append(x if pat[k] else 0)
        x = x + (0.3 if k < len(jumps) and jumps[k] else 0.01) * (1 + 0.1 * ck.rng.random()) * np.exp(1j * ck.rng.uniform(-1.57, 1.57))
    return np.array([z, pat, [int(p != 0) for p in pat]], complex)


def pieces_ok(got, want):
    """numeric: the non-zero pieces are the wanted ones"""
    g = [x for x in got if np.any(x)]
    if len(g) != len(want):
        return False
    return all(any(np.allclose(x, w) for x in g) for w in want)


def pieces_goal(got, want):
    if any(g.shape[1:] != w.shape for g in (got,) for w in want):
        return FALSE
    eqs = lambda x, w: tm.band(*[tm.band(tm.eq(p.re, q.re), tm.eq(p.im, q.im)) for p, q in zip(x, w)])
    zero = [Cx(ZERO, ZERO)] * got.a[0].size
    G = [list(got.a[k].reshape(-1)) for k in range(got.shape[0])]
    W = [list(w.a.reshape(-1)) for w in want]
    goal = []
    same = [[eqs(g, w) for g in G] for w in W]
    for r in same:
        goal.append(tm.bor(*r))
        for x, y in itertools.combinations(r, 2):
            goal.append(tm.bnot(tm.band(x, y)))
    for k, g in enumerate(G):
        goal.append(tm.bor(eqs(g, zero), *[r[k] for r in same]))
    return tm.band(*goal)


def split(ck, sg):
    N = 4 if ck.quick else 5
    traced, traced2 = {}, {}
    for pat in itertools.product((0, 1, -1), repeat=N):
        adj = [k for k in range(N - 1) if pat[k] and pat[k + 1] == pat[k]]
        for js in itertools.product((0, 1), repeat=len(adj)):
            jumps = [0] * (N - 1)
            for k, j in zip(adj, js):
                jumps[k] = j
            z, seg, pos, cuts, cond = track("z", pat)
            asm = pos + [cond[k][not jumps[k]] for k in adj]
            rr = runs(pat, jumps)
            cut = lambda l, r: mk([v if l <= c < r else Cx(ZERO, ZERO) for row in seg.a for c, v in enumerate(row)], (3, N), np.complex128)
            want = [cut(l, r) for l, r in rr]

            def rep(env, pat=pat, jumps=jumps, rr=rr):
                for _ in range(10):
                    s = conc_track(ck, pat, jumps)
                    n = np.arange(N)
                    got = np.asarray(sg._split_segment(jnp.asarray(s)))
                    w = [s * ((n >= l) & (n < r)) for l, r in rr]
                    if not pieces_ok(got, w):
                        return True, {"segment": jsonable(s), "got": jsonable(got), "expected_pieces": jsonable(w)}
                return False, {}
            tag = "split %s" % "".join("0+-"[p] + ("'" if k < N - 1 and jumps[k] else "") for k, p in enumerate(pat))
            paths(ck, tag, sg._split_segment, (seg,), asm, cuts, lambda g, want=want: pieces_goal(g, want), rep, traced=traced)
    # two tracks through the whole preparation
    pats = [(1, 1, 0, 0), (0, 1, 1, 1), (1, 1, -1, -1), (1, 0, 1, 1), (0, 0, 0, 0), (-1, -1, 0, -1), (1, -1, 1, 1)]
    M = 7
    for p1, p2 in itertools.combinations(pats if not ck.quick else pats[:5], 2):
        segs, asm, cuts, want, rr = [], [], {}, [], []
        for nm, p in (("x", p1), ("y", p2)):
            z, seg, pos, c, cond = track(nm, p)
            cuts.update(c)
            asm += pos + [cond[k][1] for k in range(3) if p[k] and p[k + 1] == p[k]]
            segs.append(seg)
            for l, r in runs(p, [0, 0, 0]):
                if r - l >= 2:
                    rr.append((nm, l, r))
                    want.append(mk([seg.a[i, c + l] if c + l < r else Cx(ZERO, ZERO) for i in range(3) for c in range(4)], (3, 4), np.complex128))
        both = mk([v for s in segs for v in s.a.reshape(-1)], (2, 3, 4), np.complex128)
        # the tracks are different
        asm += [tm.lt(a.re, b.re) for a, pa in zip(segs[0].a[0], p1) for b, pb in zip(segs[1].a[0], p2) if pa and pb]

        def goal(g, want=want):
            # non-empty ones first
            if g.shape != (M, 3, 4):
                return FALSE
            front = mk(list(g.a[:len(want)].reshape(-1)), (len(want), 3, 4), np.complex128)
            rest = [v for v in g.a[len(want):].reshape(-1)]
            return tm.band(pieces_goal(front, want), *[tm.band(tm.eq(v.re, ZERO), tm.eq(v.im, ZERO)) for v in rest])

        def rep(env, p1=p1, p2=p2, rr=rr):
            for _ in range(10):
                s = {"x": conc_track(ck, p1, [0] * 3), "y": conc_track(ck, p2, [0] * 3)}
                s["y"][0] += 0.2j * (s["y"][0] != 0)
                got = np.asarray(sg._process_segments(jnp.asarray(np.array([s["x"], s["y"]])), nr_of_segments=M))
                w = []
                for nm, l, r in rr:
                    x = np.zeros((3, 4), complex)
                    x[:, :r - l] = s[nm][:, l:r]
                    w.append(x)
                if got.shape != (M, 3, 4) or not pieces_ok(got, w) or any(np.any(x) for x in got[len(w):]):
                    return True, {"segments": jsonable(s), "got": jsonable(got), "expected_pieces": jsonable(w)}
            return False, {}
        tag = "prepare %s %s" % tuple("".join("0+-"[v] for v in p) for p in (p1, p2))
        paths(ck, tag, lambda s: sg._process_segments(s, nr_of_segments=M), (both,), asm, cuts, goal, rep, traced=traced2)


def closed(ck, sg):
    """whole tracks of a binary lens: closed (c), open (o), ghost (g), closed up to a ghost sample (h)"""
    n, N = 5, 4
    vis = {"c": (1, 1, 1, 1), "o": (1, 1, 1, 1), "g": (0, 0, 0, 0), "h": (1, 1, 0, 1)}
    kept = {"o": (0, 4), "h": (0, 2)}
    for kinds in ("cccgg", "occgg", "ocogg", "ccccc", "cccco", "cchcc", "ghocg", "hhggg", "ggggg"):
        z, p = sym_cplx("z", (n, N)), sym_real("p", (n, N))
        m = np.array([vis[k] for k in kinds], bool)
        cuts, asm = {}, []
        for i, kd in enumerate(kinds):
            if kd == "g":
                continue
            d, c = dists([z.a[i, 0]], [z.a[i, -1]], "e%d" % i)
            cuts.update(c)
            asm.append(tm.gt(d[0, 0], tm.const(F(1, 1000))) if kd == "o" else tm.lt(d[0, 0], tm.const(F(9, 10 ** 6))))
            for k in range(N):
                v = tm.var("abs%d%d" % (i, k))
                cuts[tm.sqrt(z.a[i, k].norm2())] = v
                asm += [tm.gt(z.a[i, k].re, tm.const(F(1, 10))), tm.gt(v, tm.const(F(1, 10)))]
            if kd in kept:
                for k in range(N - 1):
                    asm.append(step(z.a[i, k], z.a[i, k + 1], "%d_%d" % (i, k), cuts)[1])
        pz = mk([ONE if kinds[i] in kept else p.a[i, k] for i in range(n) for k in range(N)], (n, N), np.float64)
        call = lambda z, p: sg._get_segments(z, jnp.asarray(m), p, nlenses=2)
        O = Cx(ZERO, ZERO)
        cl = [v for i in range(n) for k in range(2) for v in
              ([z.a[i, c] if k == 0 else Cx(pz.a[i, c], ZERO) for c in range(N)] if kinds[i] == "c" else [O] * N)]
        want = []
        for i, kd in enumerate(kinds):
            if kd in kept:
                l, r = kept[kd]
                want.append(mk([(z.a[i, c] if k == 0 else Cx(ONE, ZERO)) if l <= c < r else O for k in range(2) for c in range(N)], (2, N), np.complex128))
        if len(want) > 1:
            # the tracks are different
            x, y = [i for i, kd in enumerate(kinds) if kd in kept]
            asm += [tm.lt(u.re, v.re) for u in z.a[x] for v in z.a[y]]

        def goal(g, cl=cl, want=want, kinds=kinds):
            c, o, allc = g
            if c.shape != (n, 2, N) or o.shape[1:] != (2, N):
                return FALSE
            e = [tm.band(tm.eq(x.re, y.re), tm.eq(x.im, y.im)) for x, y in zip(c.a.reshape(-1), cl)]
            return tm.band(tm.iff(allc.a[()], TRUE if set(kinds) == {"c"} else FALSE), pieces_goal(o, want), *e)

        def rep(env, kinds=kinds, m=m, call=call):
            for _ in range(10):
                zz, pp = [], []
                for i, kd in enumerate(kinds):
                    x = np.array([complex(0.3 + i, 0.2) + 0.01 * k * ck.rng.random() for k in range(N)])
                    x[-1] = x[0] + (0.02 if kd == "o" else 5e-6)
                    zz.append(x)
                    pp.append([1.0] * N if kd in kept else [ck.rng.choice([-1.0, 1.0])] * N)
                zz, pp = np.array(zz), np.array(pp)
                c, o, a = [np.asarray(v) for v in call(jnp.asarray(zz), jnp.asarray(pp))]
                wc = np.stack([zz, pp], 1) * np.array([kd == "c" for kd in kinds])[:, None, None]
                wo = []
                for i, kd in enumerate(kinds):
                    if kd in kept:
                        q = np.array([zz[i], pp[i]])
                        q[:, kept[kd][1]:] = 0
                        wo.append(q)
                if not np.allclose(c, wc) or not pieces_ok(o, wo) or bool(a) != (set(kinds) == {"c"}):
                    return True, {"z": jsonable(zz), "parity": jsonable(pp), "mask": jsonable(m), "closed": jsonable(c), "open": jsonable(o), "all_closed": bool(a)}
            return False, {}
        paths(ck, "tracks %s" % kinds, call, (z, pz), asm, cuts, goal, rep)


def seg(name, n, L, par):
    """a segment of n samples in a buffer of L"""
    z = sym_cplx(name, (n,))
    row = [z.a[k] for k in range(n)] + [Cx(ZERO, ZERO)] * (L - n)
    pr = [Cx(par, ZERO)] * n + [Cx(ZERO, ZERO)] * (L - n)
    cuts, asm = {}, []
    for k in range(n):
        v = tm.var("abs_%s%d" % (name, k))
        cuts[tm.sqrt(z.a[k].norm2())] = v
        asm += [tm.gt(v, tm.const(F(1, 10))), tm.gt(z.a[k].re, tm.const(F(1, 10)))]
    return z, mk(row + pr, (2, L), np.complex128), cuts, asm


def joined(a, pa, b, pb, ctype):
    """samples and parities of two joined segments"""
    a, b = list(a), list(b)
    if ctype == 0:
        return a + b, [pa] * len(a) + [pb] * len(b)
    if ctype == 1:
        return b + a, [pb] * len(b) + [pa] * len(a)
    if ctype == 2:
        return b[::-1] + a, [-pb] * len(b) + [pa] * len(a)
    return a + b[::-1], [pa] * len(a) + [-pb] * len(b)


def two(ck, f):
    L = 7
    for n1, n2 in ((2, 3), (3, 2), (1, 2)) if ck.quick else itertools.product((1, 2, 3), repeat=2):
        for ct in range(4):
            p1, p2 = tm.var("p1"), tm.var("p2")
            z1, s1, c1, a1 = seg("x", n1, L, p1)
            z2, s2, c2, a2 = seg("y", n2, L, p2)
            call = lambda u, v, n1=n1, n2=n2, ct=ct: f(u, v, n1 - 1, n2 - 1, ct)
            zz, pp = joined(z1.a, p1, z2.a, p2, ct)
            row = zz + [Cx(ZERO, ZERO)] * (L - n1 - n2)
            pr = [Cx(p, ZERO) for p in pp] + [Cx(ZERO, ZERO)] * (L - n1 - n2)

            def goal(g, row=row, pr=pr, n=n1 + n2):
                s, t = g
                if s.shape != (2, L):
                    return FALSE
                return tm.band(tm.eq(R(t), tm.const(n - 1)), *[tm.band(tm.eq(x.re, y.re), tm.eq(x.im, y.im)) for x, y in zip(s.a.reshape(-1), row + pr)])

            def rep(env, n1=n1, n2=n2, ct=ct, call=call):
                for _ in range(10):
                    x, y = [np.array([complex(*unif(ck, 0.2, 1, 2)) for _ in range(k)]) for k in (n1, n2)]
                    pa, pb = ck.rng.choice([-1.0, 1.0]), ck.rng.choice([-1.0, 1.0])
                    buf = lambda v, p: np.array([np.pad(v, (0, L - len(v))), np.pad([p] * len(v), (0, L - len(v)))], complex)
                    s, t = call(jnp.asarray(buf(x, pa)), jnp.asarray(buf(y, pb)))
                    zz, pp = joined(x, pa, y, pb, ct)
                    w = np.array([np.pad(zz, (0, L - len(zz))), np.pad(pp, (0, L - len(zz)))], complex)
                    if int(t) != n1 + n2 - 1 or not np.allclose(np.asarray(s), w):
                        return True, {"first": jsonable(x), "second": jsonable(y), "parities": [pa, pb], "connection": ct, "got": jsonable(s), "expected": jsonable(w)}
                return False, {}
            paths(ck, "merge %d+%d %s" % (n1, n2, ("tail-head", "head-tail", "head-head", "tail-tail")[ct]), call, (s1, s2), a1 + a2, {**c1, **c2}, goal, rep)


def loop(ck, sg):
    """open segments, any order of their end distances; a stand-in for the connection test that follows the parities"""
    def allow(sym):
        def g(s1, s2, t1, t2, c, **k):
            if sym:
                s1, s2 = symify(s1), symify(s2)
                pr = s1.a[1, 0].re * s2.a[1, 0].re
                turn = tm.gt(R(symify(c)), tm.const(F(3, 2)))
                return mk([tm.bor(tm.band(tm.gt(pr, ZERO), tm.bnot(turn)), tm.band(tm.lt(pr, ZERO), turn))], (), np.bool_)
            pr = (np.asarray(s1)[1, 0] * np.asarray(s2)[1, 0]).real
            return jnp.asarray(bool(pr > 0 and int(c) <= 1 or pr < 0 and int(c) > 1))
        return g
    stub = Stub(sg._connection_condition, lambda s1, s2, t1, t2, c, **k: jax.ShapeDtypeStruct((), np.bool_), allow(True), allow(False))

    shared = {}

    def one(tag, ns, ps, L, NC, prefer, NS, at=None):
        """ns: samples per segment (lengths grow in this order), ps: parities, prefer: orders of the connections at each merge, at: slots"""
        at = at or list(range(len(ns)))
        zs, cuts, asm = [], {}, []
        rows = [[Cx(ZERO, ZERO)] * (2 * L) for _ in range(NS)]
        for i, (n, p) in enumerate(zip(ns, ps)):
            z, sgm, c, a = seg("xyz"[i], n, L, tm.const(p))
            zs.append(z)
            rows[at[i]] = list(sgm.a.reshape(-1))
            cuts.update(c)
            asm += a
        last = None
        for i, n in enumerate(ns):
            tot = ZERO
            for k in range(n - 1):
                v, cc = dists([zs[i].a[k]], [zs[i].a[k + 1]], "l%d%d_" % (i, k))
                cuts.update(cc)
                asm.append(tm.gt(v[0, 0], tm.const(F(1, 100))))
                tot = tot + v[0, 0]
            if last is not None:
                asm.append(tm.gt(tot, last))
            last = tot
        cur, cp = list(zs[0].a), [ps[0]] * ns[0]
        left = list(range(1, len(ns)))
        for order in prefer:
            ends = {}
            for i in left:
                x = zs[i].a
                for ct, (u, v) in enumerate(((cur[-1], x[0]), (cur[0], x[-1]), (cur[0], x[0]), (cur[-1], x[-1]))):
                    d, cc = dists([u], [v], "d%d%d_%d" % (i, ct, len(left)))
                    key = (tm.sqrt((u - v).norm2()))
                    if key in cuts:
                        ends[i, ct] = cuts[key]
                    else:
                        cuts.update(cc)
                        ends[i, ct] = d[0, 0]
            asm += chain([ends[k] for k in order])
            # the rest is farther away, empty slots too
            asm += [tm.gt(ends[k], ends[order[-1]]) for k in ends if k not in order]
            asm += [tm.gt(cuts[tm.sqrt(u.norm2())], ends[order[-1]]) for u in (cur[0], cur[-1])]
            i, ct = [k for k in order if (cp[0] * ps[k[0]] > 0) == (k[1] <= 1)][0]
            cur, cp = joined(cur, 1, zs[i].a, 1, ct)[0], merged_parity(cp, [ps[i]] * ns[i], ct)
            left.remove(i)
        W = 4 * L
        row = cur + [Cx(ZERO, ZERO)] * (W - len(cur)) + [Cx(tm.const(p), ZERO) for p in cp] + [Cx(ZERO, ZERO)] * (W - len(cur))
        call, traced = shared.setdefault((L, NC, NS), (lambda s: sg._merge_open_segments(s, max_nr_of_contours=NC, max_nr_of_segments_in_contour=4), {}))

        def goal(g, row=row):
            if g.shape != (NC, 2, W):
                return FALSE
            g = list(g.a.reshape(-1))
            return tm.band(*[tm.band(tm.eq(x.re, y.re), tm.eq(x.im, y.im)) for x, y in zip(g, row + [Cx(ZERO, ZERO)] * (len(g) - len(row)))])

        def rep(env):
            with patched([stub], "conc"), jax.disable_jit():
                for _ in range(12):
                    xs = []
                    for i, n in enumerate(ns):
                        x = complex(*unif(ck, 4, 5, 2))
                        xs.append(x + np.concatenate([[0], np.cumsum((0.3 + 0.5 * i) * np.exp(1j * unif(ck, 0, 6.28, n - 1)))]))
                    buf = np.zeros((NS, 2, L), complex)
                    for i, x in enumerate(xs):
                        buf[at[i], 0, :ns[i]], buf[at[i], 1, :ns[i]] = x, ps[i]
                    c, p, rest = list(xs[0]), [ps[0]] * ns[0], list(range(1, len(ns)))
                    while rest:
                        best = sorted((abs(u - v), i, ct) for i in rest for ct, (u, v) in
                                      enumerate(((c[-1], xs[i][0]), (c[0], xs[i][-1]), (c[0], xs[i][0]), (c[-1], xs[i][-1]))))[:4]
                        best = [b for b in best if (p[0] * ps[b[1]] > 0) == (b[2] <= 1)]
                        if not best:
                            break
                        _, i, ct = best[0]
                        c, p = joined(c, 1, xs[i], 1, ct)[0], merged_parity(p, [ps[i]] * ns[i], ct)
                        rest.remove(i)
                    if rest:
                        continue
                    got = np.asarray(call(jnp.asarray(buf)))
                    w = np.zeros((NC, 2, W), complex)
                    w[0, 0, :len(c)], w[0, 1, :len(c)] = c, p
                    if got.shape != w.shape or not np.allclose(got, w):
                        return True, {"segments": jsonable(xs), "parities": jsonable(ps), "got": jsonable(got), "expected": jsonable(w)}
            return False, {}
        both = mk([v for r in rows for v in r], (NS, 2, L), np.complex128)
        paths(ck, tag, call, (both,), asm, cuts, goal, rep, traced=traced, hooks=StubHooks([stub]), stubs=[stub])

    for ps in ((1, -1), (1, 1), (-1, 1)):
        for order in itertools.permutations(range(4)):
            one("loop %+d%+d %s" % (*ps, "".join(map(str, order))), (2, 3), ps, 3, 1, [[(1, c) for c in order]], 2)
    for ps, o1, o2 in [((1, -1, 1), ((1, 2), (2, 0), (1, 3), (2, 1)), ((2, 1), (2, 0), (2, 2), (2, 3))),
                       ((1, 1, -1), ((2, 3), (1, 0), (2, 2), (1, 1)), ((1, 1), (1, 3), (1, 2), (1, 0))),
                       ((-1, 1, 1), ((1, 0), (1, 1), (2, 0), (2, 2)), ((1, 0), (1, 2), (1, 3), (1, 1)))]:
        one("loop %+d%+d%+d" % ps, (2, 3, 4), ps, 5, 1, [o1, o2], 3)
    # with empty slots and a second contour
    one("loop, empty slots", (2, 3), (1, -1), 3, 2, [[(1, 2), (1, 0), (1, 1), (1, 3)]], 6)
    for order in ((2, 0, 1, 3), (0, 3, 1, 2)):
        one("loop, longer first %s" % "".join(map(str, order)), (2, 3), (1, -1), 3, 1, [[(1, c) for c in order]], 2, [1, 0])
    one("loop, scattered slots", (2, 3), (1, 1), 3, 2, [[(1, 2), (1, 0), (1, 1), (1, 3)]], 6, [4, 1])


def merged_parity(p, q, ct):
    """parities along two joined segments"""
    return (p + q, q + p, [-x for x in q[::-1]] + p, p + [-x for x in q[::-1]])[ct]


def closing(ck, co):
    n, W = 2, 6
    box = {}
    from microjax.caustics.extended_source import segments as sg
    for ls in ((3, 4), (2, 5), (4, 2)):
        z, cuts, asm, rows, crow, prow = [], {}, [], [], [], []
        for i, l in enumerate(ls):
            p = tm.var("p%d" % i)
            zi, s, c, a = seg("z%d" % i, l, W, p)
            cuts.update(c)
            asm += a
            rows += list(s.a.reshape(-1))
            crow += list(zi.a) + [zi.a[0]] + [Cx(ZERO, ZERO)] * (W - l - 1)
            prow.append(p)
        merged = mk(rows, (n, 2, W), np.complex128)
        st = Stub(sg._merge_open_segments, lambda s, **k: jax.ShapeDtypeStruct((n, 2, W), np.complex128), lambda s, **k: symify(s), lambda s, **k: np.asarray(s))
        call = lambda s: co._contours_from_open_segments(s, max_nr_of_contours=n)
        want = (mk(crow, (n, W), np.complex128), mk(prow, (n,), np.float64))

        def rep(env, ls=ls):
            with patched([st], "conc"):
                for _ in range(5):
                    s = np.zeros((n, 2, W), complex)
                    w = np.zeros((n, W), complex)
                    for i, l in enumerate(ls):
                        x = np.array([complex(*unif(ck, 0.2, 1, 2)) for _ in range(l)])
                        s[i, 0, :l], s[i, 1, :l] = x, ck.rng.choice([-1.0, 1.0])
                        w[i, :l], w[i, l] = x, x[0]
                    c, p = [np.asarray(v) for v in call(jnp.asarray(s))]
                    if c.shape != w.shape or not np.allclose(c, w) or not np.allclose(p, s[:, 1, 0].real):
                        return True, {"merged": jsonable(s), "contours": jsonable(c), "expected": jsonable(w), "parities": jsonable(p)}
            return False, {}
        paths(ck, "closing %s" % (ls,), call, (merged,), asm, cuts, want, rep, hooks=StubHooks([st]), stubs=[st])
