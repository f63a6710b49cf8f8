"""What each property's check runs: harness module, entry point, parameters (= bounds), time."""
CHILDREN = {"means": [("codec/clusterc.rs", "c_clusterc")], "huf": [("huf.rs", "c_huf")], "bench": [("bench.rs", "c_bench")]}
COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc 1.99.1 emits for the crate (opt-level 1, overflow checks and debug assertions on, panic=abort) means what the machine code does; every run re-executes solver-chosen inputs natively, on a build with the shims and on one without, and compares outputs",
    "HashMap/HashSet/rand/rayon/regex are replaced by shims: hash iteration order and random numbers become free choices (bounded by the run's perm/orders parameters; at most `rands`, 6 unless stated, random words per path), and rayon runs the items of a parallel iterator one after another, in any order",
    "the executor's LLVM semantics and Z3 4.8.12",
]
def rt(codec, area, alpha=256, chan=0, quick=60, thorough=None, shards=1):
    what = "any byte values" if alpha == 256 else "channel values out of %d letters" % alpha
    return dict(mod="roundtrip", entry="sx_main_roundtrip", params=dict(codec=codec, area=area, alpha=alpha, chan=chan), quick=quick, thorough=thorough or 10 * max(quick or 0, 60), shards=shards,
                bound="every RGB8 image of %d pixels in every shape, %s%s" % (area, what, ", one (any) channel varying" if chan else ""))
def fm(codec, area, alpha=256, quick=60, thorough=None):
    return dict(mod="roundtrip", entry="sx_main_formats", params=dict(codec=codec, area=area, alpha=alpha), quick=quick, thorough=thorough or 600,
                bound="every image of %d pixels in 8- and 16-bit RGBA, L and LA and 16-bit RGB, %s" % (area, "any bytes" if alpha == 256 else "bytes out of %d letters" % alpha))
def tp(codec, w, h, pat, k, npos, alpha=256, chan=0, quick=60, thorough=None):
    return dict(mod="roundtrip", entry="sx_main_template", params=dict(codec=codec, w=w, h=h, pat=pat, k=k, npos=npos, alpha=alpha, chan=chan), quick=quick, thorough=thorough or 900,
                bound="%dx%d images equal to pattern %d except %d pixels, at %d places, with %s" % (w, h, pat, k, npos, "arbitrary bytes" if alpha == 256 else "bytes out of %d letters" % alpha))
def za(stage, n, alpha, quick=60, thorough=None, shards=1):
    return dict(mod="zip", entry="sx_main_zip_alpha", params=dict(stage=stage, n=n, alpha=alpha), quick=quick, thorough=thorough or 900, shards=shards,
                bound="every stream of at most %d bytes, %s" % (n, "any bytes" if alpha == 256 else "out of %d letters" % alpha))
def zn(stage, quick=100, steps=6_000_000_000, **kw):
    p = dict(dict(kind=0, pre=256, seed=1, dist=5, offs=1, m=20, rounds=1, gap=8, hole=0, alpha=3, tail=0), **kw)
    what = ["noise", "identical", "period-3", "3-letter"][p["kind"]]
    return dict(mod="zip", entry="sx_main_zip_noise", params=dict(stage=stage, **p), quick=quick, thorough=900, steps=steps,
                bound="%d %s bytes, then %d times (a copy of %d bytes from any of %d distances starting at %d%s, then %d more bytes), then %d bytes out of %d letters"
                % (p["pre"], what, p["rounds"], p["m"], p["offs"], p["dist"], ", with one letter at any of %d places" % p["hole"] if p["hole"] else "", p["gap"], p["tail"], p["alpha"]))
def za2(n, offs, key, quick=100): return run("zip", "zip_again", "65536 bytes of noise, a copy of them from 63536 bytes back up to %d to %d bytes, then the 7 bytes at %d once more, the last one of two letters" % (n, n + offs - 1, key), quick, stage=1, pre=65536, dist=63536, len=n, offs=offs, key=key, hole=1, alpha=2)
KIND = ["two letters", "three letters", "mostly zeros", "runs of zeros ended by a letter", "prefixes of 0101..", "prefixes of a word", "runs of zeros ended by one of three letters", "copies of earlier parts"]
def st(stage, kind, n, seeds, hole=1, quick=100): return run("zip", "zip_stream", "%d bytes (%s), %d such streams, with any of 4 letters at any of %d places" % (n, KIND[kind], seeds, hole), quick, stage=stage, kind=kind, n=n, seed=0, seeds=seeds, hole=hole, alpha=4)
def sm(codec, kind, w, h, seeds, npos=1, quick=100, alpha=4): return run("roundtrip", "stream", "%dx%d images (%s), %d of them, with any of %d letters at any of %d places" % (w, h, KIND[kind], seeds, alpha, npos), quick, codec=codec, kind=kind, w=w, h=h, seed=0, seeds=seeds, npos=npos, alpha=alpha)
def run(mod, entry, bound, quick=60, thorough=900, steps=None, reach=None, **params):
    r = dict(mod=mod, entry="sx_main_" + entry, params=params, quick=quick, thorough=thorough, bound=bound)
    if steps: r["steps"] = steps
    if reach: r["reach"] = reach
    return r
def deep(r):
    """thorough tier only"""
    return dict(r, quick=0)
def hil(w, h, nw, nh, quick=60): return run("hilbert", "hilbert", "an arbitrary pixel of every image of %d..%d x %d..%d" % (w, w + nw - 1, h, h + nh - 1), quick, w=w, h=h, nw=nw, nh=nh)
def rle(n, vary, d2, alpha=256, exact=1, quick=60):
    return run("rle", "rle", "every image of %d pixels in every shape with %d of 3 channels arbitrary (%s), tolerance %s" % (n, vary, "any bytes" if alpha == 256 else "%d letters" % alpha, d2 / 2), quick, n=n, vary=vary, d2=d2, alpha=alpha, exact=exact)
def rlel(w, h, k, npos, wobble, d2, alpha=256, quick=60):
    return run("rle", "rle_long", "%dx%d images of (almost) one colour with %d arbitrary channel values at %d places, tolerance %s" % (w, h, k, npos, d2 / 2), quick, w=w, h=h, k=k, npos=npos, wobble=wobble, d2=d2, alpha=alpha, exact=1)
def km(n, k, alpha, dims, distinct=0, quick=60):
    return run("kmeans", "kmeans", "every %d points with %d arbitrary coordinates each (%s), 1..%d clusters" % (n, dims, "any byte" if alpha == 256 else "%d letters" % alpha, k), quick, n=n, k=k, alpha=alpha, dims=dims, distinct=distinct, steps=5_000_000)
KN = ["6 points, one cluster of which runs empty", "8 points", "12 points, one cluster of which runs empty", "8 scattered points"]
def kn(t, k, rands, quick=60, vary=1, alpha=256, scale=1):
    return run("kmeans", "kmeans_near", "%s, %d of them arbitrary, %d clusters, at most %d random words" % (KN[t], vary, k, rands), quick, t=t, k0=k, k=1, vary=vary, alpha=alpha, scale=scale, rands=rands, steps=5_000_000)
def vary(n): return "%d of 3 channels" % n
def cc(area, k, alpha, v, quick=60, **kw):
    return run("lossy", "ccol", "every image of %d pixels in every shape, %s %s, 1..%d colours asked for" % (area, vary(v), "any bytes" if alpha == 256 else "out of %d letters" % alpha, k), quick, area=area, k=k, alpha=alpha, vary=v, steps=5_000_000, **kw)
def cb(n, m, extra, k, alpha, v, quick=60, steps=50_000_000):
    return run("lossy", "ccol_bulk", "images of %d and %d pixels of two colours and %d arbitrary ones (%s, %s), 1..%d colours asked for" % (n, m, extra, vary(v), "any bytes" if alpha == 256 else "%d letters" % alpha, k), quick, n=n, m=m, extra=extra, k=k, alpha=alpha, vary=v, steps=steps)
def vo(area, k, alpha, v, quick=60, **kw):
    return run("lossy", "voronoi", "every image of %d pixels in every shape, %s %s, 1..%d centres asked for" % (area, vary(v), "any bytes" if alpha == 256 else "out of %d letters" % alpha, k), quick, area=area, k=k, alpha=alpha, vary=v, ties=1, steps=5_000_000, **kw)
def ce(w, h, n, wide, flat, quick=100):
    return run("lossy", "centres", "%d centres at %s positions, %dx%d pixels" % (n, ["any byte", "any (small or huge)", "any"][wide] + (" horizontal" if flat else ""), w, h), quick, w=w, h=h, n=n, wide=wide, flat=flat)
def pc(t, n): return run("prs", "prs_call", "function-call text: %s with at most %d arbitrary characters (of one, two or three bytes) at the gap" % (["_", "f(_", "f(a,_)", "é(_)", "f(g(_))"][t], n), t=t, n=n)
def pn(d): return run("prs", "prs_near", "documented codec string %d with any one character left out, replaced or inserted" % d, d=d, reach=[1, 2])
def pt(t, n): return run("prs", "prs_text", "%s with at most %d arbitrary characters at the gap" % (["any text", "hilbert(_)", "zip(_)", "hilbert(rle(_))", "voronoi(_)", "ccol(_)", "cluster-colors(1844674407370955161_)"][t], n), t=t, n=n)
def pd(n): return run("prs", "prs_deep", "calls nested %s deep around any ASCII character, with as many closing parentheses, one less or one more" % ("2, 10, 127, 128, 255, 256, 257, 300, 65535 or 65536" if n == 10 else "2 to 300"), n=n)
def mc(k): return run("means", "mean_colors", "the mean of %d colours, one channel arbitrary, each with any of 9 numbers of occurrences up to 2^32-1" % k, k=k, reach=[1])
def mp(k): return run("means", "mean_points", "the mean of any %d points (32-bit positions, any colours)" % k, k=k, reach=[1])
def lg(c, w, h): return run("lossy", "large", "%dx%d images of one colour" % (w, h), w=w, h=h, c=c, steps=400_000_000)
def ms(area, vary, alpha=256, quick=60): return run("bench", "mse", "two images of %d pixels in every shape, %d bytes of each arbitrary at any place" % (area, vary), quick, area=area, vary=vary, alpha=alpha)
def msf(area, alpha): return run("bench", "mse_formats", "an RGB image of %d pixels against one with transparency or grey, %s, or of 16-bit channels, one of them arbitrary out of 5 values" % (area, "any bytes" if alpha == 256 else "%d letters" % alpha), area=area, alpha=alpha)
CODECS = ["hufman", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "delta", "hilbert(rle(4))", "cluster-colors(2)", "voronoi(2)", "voronoi(5)"]
def ft(entry, codec, area=None, wh=None, pat=-1, vary=0, alpha=256, places=12, quick=60, **kw):
    img = "every shape of %d pixels" % area if area else "%dx%d images of pattern %d" % (wh[0], wh[1], pat)
    what = {"writer": "a destination failing after any of up to %d byte counts, with any of 8 kinds of error or by taking no more bytes or when flushed, taking 1, 2, 3 or all bytes at a time, interrupted or not", "truncated": "encodings cut at any of up to %d places"}[entry] % places
    return run("faults", entry, "%s: %s, %d channel values arbitrary (%s); %s" % (CODECS[codec], img, vary, "any bytes" if alpha == 256 else "%d letters" % alpha, what), quick,
               codec=codec, area=area or 0, w=(wh or (0, 0))[0], h=(wh or (0, 0))[1], pat=pat, vary=vary, alpha=alpha, places=places, perm=2, **kw)
def mf(codec, t, n, quick=60): return run("faults", "malformed", "%s: headers of 4 small images%s, then every string of at most %d bytes" % (CODECS[codec], ["", ", a dictionary of one colour", ", a dictionary of two colours", ", half a dictionary of two colours", ", any count and the length of a pixel", ", another explicit block"][t], n), quick, codec=codec, t=t, n=n, leaf=0, node=1, reach=[1])
def rp(codec, k=1, n=300000, quick=60): return run("faults", "repeated", "%s: headers of 2 small images, then any %d byte(s) repeated, %d in all" % (CODECS[codec], k, n), quick, codec=codec, k=k, n=n, reach=[1])
def co(codec, k, places, pat=1, quick=60, w=3, h=2): return run("faults", "corrupt", "%s: the encoding of a %dx%d image (pattern %d) in which any %d adjacent bytes after the header (at up to %d places) are arbitrary" % (CODECS[codec], w, h, pat, k, places), quick, codec=codec, k=k, places=places, pat=pat, w=w, h=h)
def zs(stage, n, alpha, quick=60): r = za(stage, n, alpha, quick); return dict(r, entry="sx_main_zip_size")
def zz(stage, **kw): return dict(zn(stage, **kw), entry="sx_main_zip_size_noise")
def bt(entry, bound, quick=60, reach=None, **kw): return run("bit", "bit_" + entry, bound, quick, reach=reach, **kw)
DIMS = [(20, 20), (17, 3), (1, 40), (64, 5)]
PROPS = {
 "C01": dict(runs=[rt(0, a) for a in (1, 2, 3, 4, 5, 6)] + [rt(0, 7, chan=1, quick=100)] + [fm(0, 2), fm(0, 3)]
             + [tp(0, 20, 20, p, 2, 3) for p in (0, 2, 3, 5)] + [tp(0, 20, 20, 1, 1, 3, alpha=16, chan=1), deep(tp(0, 20, 20, 1, 1, 3))] + [tp(0, 300, 3, 0, 1, 4), tp(0, 46, 46, 2, 1, 2), tp(0, 20, 20, 4, 1, 2, alpha=16, chan=1), deep(tp(0, 20, 20, 4, 1, 2)), tp(0, 70000, 1, 0, 1, 1), tp(0, 1, 70000, 5, 1, 1), tp(0, 120, 100, 4, 1, 1, alpha=3, chan=1), deep(tp(0, 300, 230, 4, 1, 1, alpha=3, chan=1))]),
 "C02": dict(runs=[dict(tp(1, 70000, 1, 0, 0, 1), steps=2_000_000_000)] + [rt(1, a, chan=1, alpha=3) for a in (1, 2, 3, 4)] + [rt(1, 2, alpha=2), fm(1, 2, alpha=3)] + [tp(1, 20, 20, p, 1, 2, alpha=3, chan=1) for p in (0, 1, 2, 3, 5)]
             + [za(0, 2, 256, quick=100), za(0, 7, 3), za(0, 9, 2), deep(za(0, 8, 3)), deep(za(0, 11, 2))]
             + [zn(0, pre=171200, dist=600, offs=3, m=200, quick=200), zn(0, kind=1, pre=70000, dist=600, offs=1, m=30, hole=2), zn(0, kind=2, pre=40000, dist=600, offs=1, m=30, hole=2), zn(0, pre=3000, dist=700, offs=2, m=40, hole=3)]
             + [st(0, k, 6000 if k in (4, 5) else 2500, 16) for k in range(8)] + [sm(1, k, 80, 5, 8) for k in (3, 5, 6, 7)] + [deep(st(0, k, 20000, 40, 2)) for k in range(8)]),
 "C03": dict(runs=[dict(tp(2, 66000, 1, 1, 0, 1, quick=120), steps=6_000_000_000)] + [rt(2, a) for a in (1, 2)] + [rt(2, 3, quick=100), rt(2, 5, alpha=3, chan=1), fm(2, 2)] + [tp(2, 20, 20, p, 1, 2, alpha=3, chan=1) for p in (0, 1, 2, 3, 5)]
             + [za(1, 14, 256), za(1, 10, 3), za(1, 12, 2)]
             + [zn(1, pre=65536, seed=1, dist=65529, offs=8, tail=1, quick=200), zn(1, pre=65536, seed=2, dist=65534, offs=2, rounds=2), zn(1, pre=32768, dist=32762, offs=7), zn(1, pre=65536, dist=40000, offs=2, m=33000),
                zn(1, kind=1, pre=2048, dist=2000, m=30, gap=1, hole=2), zn(1, kind=2, pre=2048, dist=2000, m=30, gap=1, hole=2), zn(1, kind=3, pre=4096, dist=30, offs=3, m=30, rounds=2, gap=16, hole=2, quick=200), zn(1, pre=256, dist=5, offs=3, m=300, rounds=2, gap=16, hole=2)]
             + [za2(131067, 3, 65531, quick=150), deep(za2(131060, 12, 65531)), deep(za2(131066, 8, 65528)), deep(za2(196600, 8, 131066))]
             + [st(1, k, 1200, 4) for k in range(8)] + [sm(2, k, 80, 3, 3) for k in (3, 6, 7)] + [deep(st(1, k, 6000, 10, 2)) for k in range(8)]),
 "C04": dict(runs=[rt(3, a) for a in (1, 2, 3, 4, 6, 8)] + [fm(3, 3), deep(rt(3, 12, chan=1))] + [tp(3, w, h, p, 1, 3) for (w, h) in DIMS for p in (0, 1, 5)] + [tp(3, 300, 3, 0, 2, 4), tp(3, 256, 1, 0, 1, 4), tp(3, 20, 26, 0, 1, 5)] + [tp(3, 66000, 1, 0, 1, 1, alpha=2, chan=1), tp(3, 1, 66000, 0, 1, 1, alpha=2, chan=1)]),
 "C05": dict(runs=[rt(4, a, alpha=3, chan=1) for a in (1, 2, 3, 4)] + [rt(4, 2, alpha=2), fm(4, 2, alpha=3)] + [tp(4, w, h, p, 1, 2, alpha=3, chan=1) for (w, h) in DIMS for p in (0, 3)]
             + [sm(4, k, w, h, 8) for (w, h) in ((400, 1), (32, 32)) for k in (3, 4, 5, 6, 7)] + [tp(4, 66000, 1, 0, 1, 1, alpha=2, chan=1, quick=120)]),
 "C06": dict(runs=[rt(5, a) for a in (1, 2, 3)] + [rt(5, 4, quick=100), rt(5, 5, chan=1, quick=100), fm(5, 2), fm(5, 3)] + [tp(5, w, h, p, 1, 2) for (w, h) in DIMS for p in (0, 1, 2, 3)] + [tp(5, 300, 3, 0, 1, 2), tp(5, 64, 64, 4, 1, 1, alpha=3, chan=1), tp(5, 66000, 1, 0, 1, 1, alpha=2, chan=1, quick=120), deep(tp(5, 128, 128, 4, 1, 1, alpha=3, chan=1))]),
 "C07": dict(runs=[hil(1, 1, 12, 12), hil(31, 15, 4, 4), hil(13, 1, 8, 5), hil(1, 29, 6, 5), hil(64, 64, 1, 1), hil(300, 2, 1, 1), hil(2, 300, 1, 1), hil(40, 27, 1, 1), deep(hil(1, 1, 40, 40)), deep(hil(255, 255, 3, 3)), deep(hil(1000, 2, 2, 2)),
                   run("hilbert", "hilbert_pixels", "every image of 1..8 x 1..8 pixels with arbitrary bytes, any two steps", w=1, h=1, nw=8, nh=8)]),
 "C08": dict(runs=[run("huf", "huf_seq", "every sequence of 1..6 bytes", 100, n=6, alpha=256), run("huf", "huf_seq", "every sequence of 1..8 letters out of 3", 60, n=8, alpha=3, orders=1, perm=1),
                   run("huf", "huf_skew", "8 symbols of skewed frequencies plus 2 arbitrary ones", 100, k=8, extra=2), run("huf", "huf_skew", "12 symbols of skewed frequencies (codes of up to 11 bits) plus an arbitrary one", 150, k=12, extra=1),
                   run("huf", "huf_freqs", "3 symbols of any frequencies below 65536", k=3, max=65536), run("huf", "huf_freqs", "4 symbols of any frequencies below 65536", 100, k=4, max=65536),
                   ] + [run("huf", "huf_bulk", "3 or 4 symbols occurring up to %s times each, any of them once more or less, one arbitrary" % x, 100, m=m, fixed=0, perm=2, orders=1) for m, x in enumerate((257, 2000, 300, 510, 65537))] + [run("huf", "huf_bulk", "70000, 66000 and 65600 times 3 symbols, one place arbitrary", 150, m=6, perm=1, orders=1, fixed=1)] + [deep(run("huf", "huf_bulk", "3 symbols occurring up to 170000 times each, any of them once more or less, one arbitrary", m=5, fixed=0, perm=2, orders=1)), deep(run("huf", "huf_freqs", "5 symbols of any frequencies below 65536", thorough=3000, k=5, max=65536)), deep(run("huf", "huf_seq", "every sequence of 1..7 bytes", n=7, alpha=256))]),
 "C09": dict(runs=[rle(4, 3, 0), rle(6, 1, 0), rle(3, 3, 21), rle(4, 1, 20), rle(5, 1, 10), rle(4, 3, 10, alpha=4), rlel(300, 2, 1, 3, 4, 12), rlel(20, 26, 1, 3, 4, 12), rlel(300, 2, 1, 7, 0, 12), rlel(256, 1, 1, 4, 0, 0), rlel(511, 1, 1, 4, 0, 40), rlel(510, 1, 2, 4, 0, 0)]),
 "C10": dict(runs=[lg(1, 66000, 1), lg(1, 1, 66000), cc(1, 2, 256, 3), cc(2, 2, 256, 3), cc(2, 3, 256, 3), cc(3, 3, 256, 1, quick=100), cc(4, 3, 5, 1, quick=100), cc(6, 2, 2, 1), cb(600, 0, 1, 2, 256, 3), cb(300, 20, 1, 3, 256, 1), cb(300, 300, 1, 2, 256, 1), cb(300, 0, 2, 2, 4, 1), cb(70000, 0, 1, 1, 256, 3, steps=600_000_000), mc(2), deep(cc(3, 3, 3, 3)), deep(cc(3, 3, 4, 3)), deep(cc(5, 3, 3, 1)), deep(cc(4, 2, 256, 1)), deep(cc(6, 3, 3, 1))]),
 "C11": dict(runs=[lg(0, 66000, 1), lg(0, 1, 66000), vo(1, 2, 256, 3), vo(2, 2, 256, 3), vo(2, 3, 256, 3), vo(3, 3, 4, 1), vo(4, 4, 3, 1), vo(4, 3, 2, 2), vo(4, 5, 2, 1), deep(vo(3, 3, 256, 1)),
                   ce(2, 2, 2, 0, 1), ce(2, 1, 2, 0, 0), ce(2, 2, 2, 1, 1), ce(1, 1, 2, 1, 0), mp(2), mp(3), deep(ce(3, 1, 3, 0, 1)), deep(ce(2, 1, 2, 1, 0)), deep(ce(3, 2, 3, 0, 0))]),
 "C12": dict(runs=[km(3, 3, 256, 1), km(4, 4, 4, 1), km(4, 4, 4, 1, 1), km(5, 3, 3, 1, quick=100), km(3, 3, 4, 2), kn(0, 3, 2), kn(0, 4, 3), kn(1, 3, 3), kn(2, 3, 3), kn(3, 3, 3), kn(1, 5, 2), kn(2, 4, 2), kn(3, 5, 2), deep(kn(0, 3, 3)), deep(km(6, 4, 4, 1)), deep(km(4, 4, 4, 2)), deep(km(4, 2, 256, 1))]),
 "C13": dict(runs=[pd(10)] + [pc(t, 5) for t in range(5)] + [pn(d) for d in range(12)] + [pt(0, 4), pt(1, 4), pt(2, 3), pt(3, 2), pt(4, 2), pt(5, 2), pt(6, 2)] + [deep(pc(0, 7)), deep(pt(0, 5))]),
 "C14": dict(runs=[run("measure", "fates", "the error column for %d images, each fine, missing, not encoded, not decoded or decoded with another colour, worked on in any order" % n, 100, n=n) for n in (1, 2)] + [ms(1, 3), ms(2, 6), ms(3, 9), ms(4, 6), ms(100, 2), msf(1, 256), msf(2, 3), msf(3, 3), deep(ms(4, 12)), deep(ms(1000, 1))]),
 "C15": dict(runs=[ft("writer", c, area=2, vary=2, alpha=3 if c in (1, 4) else 256, places=12) for c in range(10)] + [ft("writer", c, wh=(7, 5), pat=1, vary=1, alpha=3 if c in (0, 1, 2, 4) else 256, places=15) for c in range(7)]
             + [ft("writer", c, wh=(20, 20), pat=4 if c in (1, 2, 3, 4) else 2, places=6 if c == 2 else 15) for c in range(7)]),
 "C16": dict(runs=[ft("truncated", c, area=3, vary=1, alpha=3 if c in (1, 4) else 256, places=400) for c in range(10)] + [ft("truncated", c, wh=(7, 5), pat=1, vary=1, alpha=3 if c in (0, 1, 2, 4, 7) else 256, places=30 if c in (1, 4) else 60) for c in range(8)]
             + [ft("truncated", c, wh=(20, 20), pat=p, places=30) for c in range(7) for p in (0, 3)], ),
 "C17": dict(runs=[mf(c, 0, n) for c, n in ((0, 4), (1, 2), (2, 4), (3, 12), (4, 2), (5, 4))] + [mf(c, t, n) for c in (0, 5) for t, n in ((1, 3), (2, 2), (3, 12))] + [mf(3, 4, 8), mf(2, 5, 4), mf(7, 0, 8), dict(mf(7, 1, 3), reach=[2]), mf(7, 2, 2), mf(7, 3, 12), mf(8, 0, 16)] + [co(c, 1, 300) for c in range(9)] + [co(c, 2, 60) for c in (0, 2, 3, 5, 7, 8)] + [rp(c) for c in (0, 1, 4, 5, 7)] + [deep(co(1, 2, 8)), deep(mf(1, 0, 4)), deep(co(2, 3, 60))]),
 "C18": dict(runs=[run("ser", "ser", "a value of each of 14 types, sequences of at most 8 elements, any 3 bytes following, any truncation", n=8, reach=[1, 2]), run("ser", "ser_long", "sequences of 255, 256, 257, 300 and 1000 bytes, 5 of them arbitrary, 8 truncations", reach=[1, 2]), run("ser", "ser_char", "every character", reach=[1, 2]),
                   run("ser", "ser_stream", "streams of at most 6 values, any truncation of the last", n=6), run("ser", "ser_arb", "every string of at most 12 bytes, read as a sequence", n=12, reach=[1, 2]), deep(run("ser", "ser", "a value of each of 14 types, sequences of at most 30 elements, any 3 bytes following, any truncation", n=30, reach=[1, 2]))]),
 "C19": dict(runs=[bt("byte", "every byte, both bit orders"), bt("msb", "every sequence of at most 9 bits, in groups of any kind and length", lo=0, n=9, max=9, reach=[1, 2]), bt("msb", "every sequence of at most 11 bits, one by one, in arrays of at most 3 or in bytes", lo=0, n=11, max=3, reach=[1, 2]), bt("lsb", "every sequence of 0 or 8 bits, least significant first, in groups of any kind and length", n=8, max=7, reach=[1, 2]),
                   bt("long", "8..16 bits in one array, with 0..8 bits before and after, 7 of them arbitrary", n=16), bt("long", "16..24 bits in one array, with 0..8 bits before and after, 7 of them arbitrary", n=24), bt("long", "32..40 bits in one array, with 0..8 bits before and after, 7 of them arbitrary", n=40), bt("long", "292..300 bits in one array, with 0..8 bits before and after, 7 of them arbitrary", n=300), deep(bt("msb", "every sequence of 12 bits, in groups of any kind and length", lo=12, n=12, max=12)), deep(bt("long", "2992..3000 bits in one array, with 0..8 bits before and after, 7 of them arbitrary", n=3000))]),
 "C20": dict(runs=[run("geom", "dist", "every pair of colours, %d channels of each arbitrary" % v, vary=v) for v in (1, 2, 3)] + [run("geom", "dist_cmp", "every three colours, %d channels of each arbitrary" % v, vary=v) for v in (1, 2, 3)]),
 "C21": dict(runs=[zs(1, 14, 2), zs(1, 10, 256), zs(0, 9, 2), zs(0, 7, 3), zs(0, 2, 256), zz(1, offs=3, m=6, rounds=4, gap=1, tail=2), zz(1, offs=3, m=5, rounds=4, gap=1, tail=2), zz(1, offs=2, m=7, rounds=6, gap=0), zz(1, pre=65538, dist=500, offs=2, m=10, gap=0, hole=2, tail=2), zz(1, pre=32767, dist=500, offs=2, m=10, gap=0, hole=2, tail=2), zz(1, kind=1, pre=6000, dist=500, m=10, gap=0, hole=2), deep(zz(1, kind=1, pre=70000, dist=500, m=10, gap=0, hole=2)), zz(0, pre=3000, dist=500, offs=2, m=10, gap=0, hole=2, tail=1), zz(0, kind=3, pre=3000, dist=500, offs=2, m=10, gap=0, hole=2, tail=2)]),
 "C22": dict(runs=[run("measure", "fates", "%d images, each fine, missing, not encoded, not decoded or decoded with another colour, a lossless codec or not, worked on in any order" % n, 100, n=n) for n in (1, 2, 3)] + [run("measure", "differs", "%d images and a lossless codec, one of whose images comes back with any 3 bytes instead of any 3, worked on in any order" % n, 100, n=n) for n in (1, 2, 3, 4)]
             + [deep(run("measure", "fates", "4 images, each fine, missing, not encoded, not decoded or decoded with another colour, a lossless codec or not, worked on in any order", n=4)), deep(run("measure", "differs", "5 images and a lossless codec, one of whose images comes back with any 3 bytes instead of any 3, worked on in any order", n=5))],
             assumptions=["image files and the table are kept in memory (image::open, DynamicImage::save and csv::Writer::from_path are replaced); the codec is a model with arbitrary outcomes; the work on one image is not interleaved with the work on another"]),
}
