"""Workloads and oracle shared by C01, C02 and C03: one Steim encode, observed from all sides."""
import numpy as np

from . import gen, ref


def lib():
    import simplemseed
    return simplemseed


def fewest_words(version, diffs):
    """smallest number of words that hold all these differences, None if one does not fit"""
    inf = 10**9
    best = [inf] * (len(diffs) + 1)
    best[0] = 0
    for i in range(len(diffs)):
        b = best[i]
        if b == inf:
            continue
        for p in ref.PACKINGS[version]:
            j = i + p[2]
            if j <= len(diffs) and all(ref.fits(d, p[3]) for d in diffs[i:j]):
                best[j] = min(best[j], b + 1)
    return best[-1] if best[-1] < inf else None


def encode_block(version, samples, frames, bias, offset):
    s = lib()
    if version == 1:
        from simplemseed.steim1 import encodeSteim1FrameBlock
        return encodeSteim1FrameBlock(samples, frames, bias, offset), s.encodeSteim1(samples, frames, bias, offset)
    from simplemseed.steim2 import encodeSteim2FrameBlock
    return encodeSteim2FrameBlock(samples, frames, bias), s.encodeSteim2(samples, frames, bias)


def decode(version, data, n, bias=None):
    s = lib()
    f = s.decodeSteim1 if version == 1 else s.decodeSteim2
    return f(data, n) if bias is None else f(data, n, bias)


def judge_encode(ctx, version, vals, samples, frames, bias, offset):
    """encode samples (a container of vals), judge everything C01/C02 promise; None if refused"""
    s = lib()
    bits = 32 if version == 1 else 30
    sub = vals[offset:]
    true = [sub[0] - bias] + [b - a for a, b in zip(sub, sub[1:])]
    wrapped = [ref.wrap32(d) for d in true]
    firstbad = next((i for i, d in enumerate(wrapped) if not ref.fits(d, bits)), None)
    anybad = version == 2 and any(not ref.fits(d, bits) for d in true)
    try:
        block, packed = encode_block(version, samples, frames, bias, offset)
    except s.CodecException as e:
        ctx.check(anybad, f"refused although every difference fits: {e}", vals[:20], frames, bias)
        if frames > 0 and firstbad is not None:
            w = fewest_words(version, wrapped[:firstbad])
            ctx.check(w < 15 * frames - 2,
                      "refused although the frames are full before the difference that does not fit", firstbad, frames)
        ctx.count("refused")
        return None
    n = int(block.getNumSamples())
    # what is not given is zero
    for args in ((frames,), ()) if len(sub) < 100 else ((frames,),):
        if (frames, bias, offset)[len(args):] == (0,) * (3 - len(args)):
            f = s.encodeSteim1 if version == 1 else s.encodeSteim2
            fb = s.encodeSteim1FrameBlock if version == 1 else s.encodeSteim2FrameBlock
            ctx.check(bytes(f(samples, *args)) == bytes(packed) == bytes(fb(samples, *args).pack()), "other bytes with the arguments left out", args)
            ctx.count("arguments left out")
    ctx.check(bytes(block.pack()) == bytes(packed), "encodeSteim and frame block bytes are not the same")
    full = bytes(block.getEncodedData())
    ctx.check(full[:len(packed)] == bytes(packed) and not any(full[len(packed):]), "getEncodedData is not the packed frames")
    ctx.check(1 <= n <= len(sub), "number of samples in block", n, len(sub))
    ctx.check(len(packed) % 64 == 0 and len(packed) > 0, "not whole frames", len(packed))
    ctx.check(len(block.getSteimFrames()) * 64 == len(packed), "number of frames is not that of the bytes")
    ctx.check(block.getSteimVersion() == version, "version of the frame block", block.getSteimVersion())
    ctx.check(block.getNumFrames() * 64 == len(full) == (64 * frames or len(packed)), "frames of the block", block.getNumFrames(), frames, len(full))
    try:
        diffs, x0, xn, layout = ref.steim_parse(version, packed)
    except ref.RefError as e:
        ctx.check(False, f"payload is not legal: {e}")
    if frames == 0:
        ctx.eq(n, len(sub), "all samples without a frame limit")
    else:
        ctx.check(len(packed) <= 64 * frames, "frame limit exceeded", len(packed) // 64, frames)
        if n < len(sub):
            ctx.check(len(packed) == 64 * frames and all(x != 0 for x in layout[-1][3 if frames == 1 else 1:]),
                      "usable space left while samples remain", n, len(sub), frames, layout[-1])
            ctx.count("block filled")
    # each container type and the decoder variants give the same
    want = sub[:n]
    variants = [(None, packed), (None, bytes(packed))]
    if bias != 0:
        variants.append((bias, packed))
        ctx.count("with bias")
    for b, data in variants:
        got = decode(version, data, n, b)
        ctx.eq(gen.tolist(got), want, f"decompressed samples, bias {b}")
        ctx.check(np.dtype(got.dtype).kind == "i" and got.dtype.itemsize == 4, "decompressed type", got.dtype)
    ctx.eq(gen.tolist(s.decompress(9 + version, packed, n, bool(n & 1))), want, "decompress() samples")
    ctx.eq(x0, want[0], "first sample constant")
    ctx.eq(xn, want[-1], "last sample constant")
    for lay in layout:
        for k in lay:
            ctx.count(f"words nibble {k}")
    ctx.count("samples", n)
    if version == 1 and offset:
        ctx.count("with offset")
    return n, packed, diffs, layout


def long_case(version, judge):
    """payloads of more frames than a miniSEED 2 record has, to beyond what a byte and two can count"""
    def case(rng, ctx):
        frames = rng.choice([62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])
        if rng.random() < 0.1:
            frames = rng.choice([1023, 1024, 1025, 2050])
        words = frames * 15 - rng.choice([0, 1, 2, 3, 16])
        per, d = rng.choice([(1, 40000), (1, 40000), (2, 300)] + ([(4, 60)] if version == 1 else [(3, 300), (7, 5)]))
        v = rng.choice([0, 7, -100000])
        vals = []
        for i in range(words * per if frames < 600 or per == 1 else words):
            vals.append(v)
            v += rng.randint(d // 2 + 1, d) * (1 if i % 2 else -1)
        judge(rng, ctx, vals, rng.choice([0, 0, frames - 1, frames, frames + 1, 63]))
        ctx.seen("long", version, tuple(vals))
        ctx.count("long payloads")
    return case


def huge_case(version, judge):
    """more samples than two bytes can count, in words of all sizes"""
    def case(rng, ctx):
        n = rng.choice([65535, 65536, 65537, 32768, 131072]) + rng.choice([0, 0, rng.randint(-40, 40), rng.randint(0, 9000)])
        v = rng.randint(-1000, 1000)
        vals = []
        while len(vals) < n:
            top = rng.choice([3, 3, 7, 15, 31, 100, 500, 16000, 2**28])
            for _ in range(rng.choice([1, 5, 40, 3000])):
                vals.append(v)
                step = rng.randint(-top, top)
                v += step if gen.LO <= v + step <= gen.HI else -step
        judge(rng, ctx, vals[:n], 0)
        ctx.seen("huge", version, tuple(vals))
        ctx.count("huge payloads")
    return case


def random_case(version):
    def case(rng, ctx):
        n = gen.nsamples(rng)
        r = rng.random()
        maxbits = 32 if version == 1 or r < 0.15 else 30
        vals = gen.ints(rng, n, maxbits)
        label, samples = gen.container(rng, vals)
        frames = rng.choice([0, 0, 0, 1, 1, 2, 3, rng.randint(1, 12)])
        offset = rng.randint(0, n - 1) if version == 1 and rng.random() < 0.3 else 0
        bias = 0
        if rng.random() < 0.3:
            bias = rng.choice([vals[offset], vals[offset] - 1, 1, -1, rng.randint(-1000, 1000), rng.randint(gen.LO, gen.HI)])
            if version == 2 and r >= 0.15 and not ref.fits(vals[0] - bias, 30):
                bias = rng.choice([vals[0], max(gen.LO, vals[0] - 2**29), min(gen.HI, vals[0] + 2**29 - 1)])
                if not ref.fits(vals[0] - bias, 30):
                    bias = vals[0]
            bias = max(gen.LO, min(gen.HI, bias))
        elif version == 2 and r >= 0.15 and not ref.fits(vals[0], 30):
            bias = vals[0]  # first difference has to fit too
            if rng.random() < 0.2:
                bias = 0
        if version == 2 and bias and rng.random() < 0.2:
            bias = np.int32(bias)
        before = list(vals)
        out = judge_encode(ctx, version, vals, samples, frames, int(bias), offset)
        ctx.eq([int(v) for v in samples], before, "samples given were changed")
        ctx.count(f"from {label.split('/')[0]}")
        ctx.seen(label, frames, int(bias), offset, tuple(vals))
        if out:
            ctx.sample(f"{label} n={n} limit={frames} bias={int(bias)} offset={offset} first={vals[:6]} -> {out[0]} samples "
                       f"in {len(out[1]) // 64} frames")
    return case


def bad_case(version):
    """arguments that make no sense are refused by both entry points, whatever the samples"""
    def case(rng, ctx):
        s = lib()
        vals = gen.ints(rng, rng.choice([1, 2, 5, rng.randint(1, 60)]), 29, -2**28, 2**28)
        label, samples = gen.container(rng, vals)
        args = {"frames": rng.choice([0, 1, 3]), "bias": rng.choice([0, 0, 5])}
        kind = rng.choice(["negative frames", "empty"] + (["negative offset", "offset beyond"] if version == 1 else []))
        if kind == "negative frames":
            args["frames"] = rng.choice([-1, -1, -2, -63, -2**31])
        elif kind == "empty":
            label, samples = rng.choice([("list", []), ("int32", np.array([], dtype="i4")), ("int16", np.array([], dtype="i2")), ("tuple", ())])
        elif kind == "negative offset":
            args["offset"] = rng.choice([-1, -len(vals), -len(vals) - 1, -100])
        else:
            args["offset"] = len(vals) + rng.choice([0, 0, 1, 100])
        for f in (s.encodeSteim1, s.encodeSteim1FrameBlock) if version == 1 else (s.encodeSteim2, s.encodeSteim2FrameBlock):
            try:
                f(samples, **args)
            except s.CodecException:
                continue
            ctx.check(False, f"{kind} was not refused", label, args)
        ctx.count(kind)
        ctx.seen(kind, label, tuple(vals), str(args))
    return case
