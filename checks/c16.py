"""C16: wavwrite / wavread."""

import numpy as np

import ssspy.io as sio

FUNCTIONS = ["ssspy.io.wavread", "ssspy.io.wavwrite", "ssspy.io._read_fmt_chunk", "ssspy.io._read_data_chunk", "ssspy.io._write_fmt_chunk",
             "ssspy.io._write_data_chunk"]
BOUNDS = (
    "reader: 1-2 channels, 8/16/32 bit, every data size up to 2^28 bytes, every offset and count in [-2^31, 2^31], every sample rate, every element index "
    "(symbolic integers), every option combination; writer and round trip: 1-3 frames, every int8/int16 sample, every real "
    "sample value (half/single/double input; scaling by powers of two is exact), every sample rate below 2^29, every slice."
)
ASSUMPTIONS = ["open, struct.pack/unpack and np.memmap are modelled (byte-exact files; memmap rejects negative sizes and ranges past the end of the file)"]
OPT = {"engine": "int", "max_paths": 600, "timeout": 30}
BIG = 1 << 31


def header(sr, nch, bits, size, byte_rate=None, block=None, fmt_size=16, tag=1, magic=(b"RIFF", b"WAVE", b"fmt ", b"data")):
    byte_rate = sr * (nch * bits // 8) if byte_rate is None else byte_rate
    block = nch * bits // 8 if block is None else block
    return [magic[0], (36 + size, 4), magic[1], magic[2], (fmt_size, 4), (tag, 2), (nch, 2), (sr, 4), (byte_rate, 4), (block, 2), (bits, 2),
            magic[3], (size, 4)]


def attempt(*a, **k):
    try:
        return sio.wavread(*a, **k)
    except Exception:
        return None


def layout(nch, return_2d, channels_first):
    """index of (frame, channel) in the returned array"""
    if nch == 1 and not return_2d:
        return lambda i, c: (i,), lambda k: (k,)
    if channels_first:
        return lambda i, c: (c, i), lambda k: (nch, k)
    return lambda i, c: (i, c), lambda k: (k, nch)


def reader(nch, bits, return_2d, channels_first, count, ragged=False, trailing=False):
    item, block = bits // 8, nch * bits // 8

    def run(c):
        sr = c.int("sr", 1, 192000)
        if ragged:
            size = c.int("size", 0, 1 << 28)
        else:
            total = c.int("frames", 0, (1 << 28) // block)
            size = total * block
        frames = size // block
        extra = c.int("extra", 1, 1 << 20) if trailing else 0  # bytes of further chunks after the samples
        path = c.abstract_wav(header(sr, nch, bits, size), size + extra)
        o = c.int("offset", -BIG, BIG)
        kw = {"frame_offset": o}
        if count:
            m = c.int("count", -BIG, BIG)
            kw["num_frames"] = m
        else:
            m = frames - o
        if return_2d is not None:
            kw["return_2d"] = return_2d
        if channels_first is not None:
            kw["channels_first"] = channels_first
        got = attempt(path, **kw)
        inside = (o >= 0) and (m >= 0) and (o + m <= frames)
        if got is None:
            if not (inside and m == 0):
                if ragged and inside:
                    # a data chunk that does not hold whole frames may be rejected
                    c.require(size % block != 0, "a slice inside the file is returned")
                else:
                    c.require(not inside, "a slice inside the file is returned")
            return
        c.require(bool(inside), "a request outside the file is rejected")
        data, sr2 = got
        c.eq(sr2, sr, "sample rate")
        pos, shape = layout(nch, return_2d, channels_first)
        want = shape(m)
        c.require(len(data.shape) == len(want), "number of dimensions")
        for a, b in zip(data.shape, want):
            c.eq(a, b, "shape of the slice")
        if m > 0:
            i = c.int("i", 0, BIG)
            c.assume(i < m)
            for ch in range(nch):
                c.elem(data, pos(i, ch), ((o + i) * nch + ch) * item, item, "sample value and position")

    return run


def default_call(c):
    """no optional argument: the whole file"""
    total = c.int("frames", 1, 1 << 20)
    path = c.abstract_wav(header(16000, 2, 16, total * 4), total * 4)
    data, sr = sio.wavread(path)
    c.eq(sr, 16000, "sample rate")
    c.eq(data.shape[0], total, "all frames")
    c.eq(data.shape[1], 2, "two channels")
    i = c.int("i", 0, BIG)
    c.assume(i < total)
    for ch in range(2):
        c.elem(data, (i, ch), (i * 2 + ch) * 2, 2, "sample value and position")


def malformed(field, nch, bits):
    def run(c):
        sr = c.int("sr", 1, 192000)
        kw = {}
        if field == "fmt_size":
            v = kw["fmt_size"] = c.int("fmt_size", 0, 2**32 - 1)
            good = v == 16
        elif field == "tag":
            v = kw["tag"] = c.int("tag", 0, 65535)
            good = v == 1
        elif field == "byte_rate":
            v = kw["byte_rate"] = c.int("byte_rate", 0, 2**32 - 1)
            good = v == sr * (nch * bits // 8)
        elif field == "block":
            v = kw["block"] = c.int("block", 0, 65535)
            good = v == nch * bits // 8
        path = c.abstract_wav(header(sr, nch, bits, 64, **kw), 64)
        got = attempt(path)
        if got is None:
            c.require(not good, "a well-formed header is accepted")
        else:
            c.require(good, "a malformed header is rejected")

    return run


def magics(c):
    names = [b"RIFF", b"WAVE", b"fmt ", b"data"]
    for k in range(4):
        for bad in (b"XXXX", b"RIFX", b"LIST"):
            m = list(names)
            m[k] = bad
            path = c.abstract_wav(header(8000, 1, 16, 8, magic=m), 8)
            c.require(attempt(path) is None, "unknown chunk is rejected")


def truncated(nch, bits, count):
    """the data chunk announces more bytes than the file holds"""
    item, block = bits // 8, nch * bits // 8

    def run(c):
        size, miss = c.int("frames", 1, 1 << 20) * block, c.int("miss", 1, 1 << 10)
        c.assume(miss <= size)
        path = c.abstract_wav(header(8000, nch, bits, size), size - miss)
        kw = {}
        o = c.int("offset", 0, 1 << 20)
        if count:
            kw["num_frames"] = m = c.int("count", 1, 1 << 20)
        else:
            m = size // block - o
        got = attempt(path, frame_offset=o, **kw)
        if got is not None:
            if m > 0:
                c.require((o + m) * block <= size - miss, "samples past the end of the file are not invented")

    return run


def roundtrip(dtype, nch, T, channels_first, read_first=None, slice_=False, two_d=False):
    """write, read back, compare"""
    def run(c):
        shape = (T,) if nch == 1 and not two_d else (nch, T) if channels_first else (T, nch)
        x = c.samples("x", shape, dtype)
        sr = c.int("sr", 1, (1 << 29) - 1)
        path = c.wav_path()
        kw = {} if channels_first is None else {"channels_first": channels_first}
        sio.wavwrite(path, x, sr, **kw)
        kw = {} if read_first is None else {"channels_first": read_first}
        if two_d:
            kw["return_2d"] = True
        o, m = 0, T
        if slice_:
            o, m = c.int("offset", 0, T), c.int("count", 0, T)
            c.assume(o + m <= T)
            kw.update(frame_offset=o, num_frames=m)
        y, sr2 = sio.wavread(path, **kw)
        c.eq(sr2, sr, "sample rate")
        o, m = int(o), int(m)
        w = x if x.ndim == 1 else (x.transpose(1, 0) if channels_first else x)
        w = w[o:o + m]
        if w.ndim == 2 and read_first:
            w = w.transpose(1, 0)
        c.require(tuple(int(k) for k in y.shape) == tuple(w.shape), "shape")
        if np.dtype(dtype).kind == "i":
            c.sample_eq(y, w, "samples are read back unchanged")
        else:
            c.quantised(y, w, "samples are quantised")

    return run


def rejected(c):
    path = c.wav_path()
    for arr in (np.zeros((2, 3, 1), "i2"), np.zeros((4, 3), "i2"), np.zeros((0,), "u1"), np.zeros((2, 2), "i4"), np.zeros((2,), "c16")):
        try:
            sio.wavwrite(path, arr, 8000)
            ok = False
        except ValueError:
            ok = True
        c.require(ok, "unsupported waveform is rejected")


def harnesses(tier):
    hs = [("magic", magics, OPT), ("rejected", rejected, OPT), ("default-call", default_call, OPT)]
    for nch in (1, 2):
        for bits in (8, 16) if nch == 1 or tier == "quick" else (8, 16, 32):
            for cnt in (False, True):
                combos = [(None, None), (True, True), (True, False)] if nch == 1 else [(None, None), (None, True), (True, False)]
                for r2, cf in combos:
                    hs.append((f"read-{nch}ch-{bits}-{r2}-{cf}-{'count' if cnt else 'all'}", reader(nch, bits, r2, cf, cnt), OPT))
            hs.append((f"ragged-{nch}ch-{bits}", reader(nch, bits, None, None, False, True), OPT))
            hs.append((f"ragged-{nch}ch-{bits}-count", reader(nch, bits, None, None, True, True), OPT))
            for cnt in (False, True):
                hs.append((f"trailing-{nch}ch-{bits}-{cnt}", reader(nch, bits, None, True, cnt, False, True), OPT))
            hs.append((f"truncated-{nch}ch-{bits}", truncated(nch, bits, False), OPT))
            hs.append((f"truncated-{nch}ch-{bits}-count", truncated(nch, bits, True), OPT))
            for f in ("fmt_size", "tag", "byte_rate", "block"):
                hs.append((f"malformed-{f}-{nch}ch-{bits}", malformed(f, nch, bits), OPT))
    for dt in ("i1", "i2"):
        hs += [
            (f"write-{dt}-mono", roundtrip(dt, 1, 3, None), OPT), (f"write-{dt}-mono-2d", roundtrip(dt, 1, 2, True, True, two_d=True), OPT),
            (f"write-{dt}-mono-column", roundtrip(dt, 1, 2, False, False, two_d=True), OPT),
            (f"write-{dt}-stereo", roundtrip(dt, 2, 2, None), OPT), (f"write-{dt}-stereo-cf", roundtrip(dt, 2, 3, True, True), OPT),
            (f"write-{dt}-stereo-cf-fc", roundtrip(dt, 2, 3, True, False), OPT), (f"write-{dt}-stereo-fc-cf", roundtrip(dt, 2, 3, False, True), OPT),
            (f"write-{dt}-slice", roundtrip(dt, 1, 3, None, slice_=True), OPT), (f"write-{dt}-stereo-slice", roundtrip(dt, 2, 3, True, True, True), OPT),
            (f"write-{dt}-stereo-slice-fc", roundtrip(dt, 2, 3, False, False, True), OPT),
        ]
    for dt in ("f2", "f4", "f8"):
        hs += [(f"write-{dt}-mono", roundtrip(dt, 1, 1, None), OPT)]
    hs += [("write-f8-stereo-cf", roundtrip("f8", 2, 2, True, True), OPT), ("write-f8-stereo", roundtrip("f8", 2, 1, None), OPT),
           ("write-f4-slice", roundtrip("f4", 1, 2, None, slice_=True), OPT)]
    return hs
