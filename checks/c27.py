"""C27: the sample-data helper returns the recordings that were asked for, whatever was asked for before."""

import itertools
import os
import shutil
import tempfile
import urllib.request

import numpy as np
import scipy.io
import scipy.signal

from .common import Many, Patch

FUNCTIONS = [
    "ssspy.utils.dataset.download_sample_speech_data", "ssspy.utils.dataset.sisec2010.download",
    "ssspy.utils.dataset.mird.{download,resample_mird_rir}",
]
BOUNDS = (
    "every sample of every recording and impulse response symbolic; 2-4 sources, recordings of 3-5 samples, impulse responses of 2-5 taps at 16 kHz (one case of 2562, mostly zero); histories of "
    "1-3 requests (every ordered pair of different requests over tag x n_sources x reverberation x mixing kind among those listed, and triples A B A), folders empty "
    "at first. Exact arithmetic (random mixing matrix: the float values of numpy's generator)."
)
ASSUMPTIONS = [
    "network, archive extraction, .wav/.mat decoding, polyphase resampling and the .npz container replaced by stand-ins: an archive yields one recording per file name, "
    "the container returns what was stored under the same path, resampling keeps every third sample",
    "files live in a scratch folder that the harness creates and removes",
]
OPT = {"policy": {"clamp": False, "floor": "inactive", "eq": "generic"}, "max_paths": 5}
DEG = [30, 345, 0, 60, 315]
CHN = [3, 4, 2, 5, 1, 6, 0, 7]
TAGS = ["dev1_female3", "dev1_female4"]


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class World:
    """what lies outside: the two servers, the archives' content, the decoders, the .npz container"""

    def __init__(self, ctx, root, T, L, sparse=None):
        self.ctx, self.root, self.T, self.L, self.sparse = ctx, root, T, L, sparse
        self.wave, self.rir, self.store, self.fetched, self.unpacked = {}, {}, {}, [], []

    def path(self, p):
        p = os.path.abspath(str(p))
        assert p.startswith(self.root + os.sep), p
        return p

    def touch(self, p):
        with open(self.path(p), "w"):
            pass

    def urlretrieve(self, url, filename=None, *a, **k):
        self.fetched.append((url, self.path(filename)))
        self.touch(filename)
        return filename, None

    def unpack(self, filename, extract_dir=None, *a, **k):
        f = self.path(filename)
        assert os.path.exists(f), "archive is there"
        self.unpacked.append(f)
        d = self.path(os.path.join(extract_dir, "x"))[:-2]
        b = os.path.basename(f)
        if b == "dev1.zip":
            for tag, n in ((TAGS[0], 3), (TAGS[1], 4)):
                self.touch(os.path.join(d, f"{tag}_inst_matrix.mat"))
                for k in range(n):
                    self.touch(os.path.join(d, f"{tag}_src_{k + 1}.wav"))
        else:
            r = float(b.split("Reverberation_")[1].split("s__")[0])
            for g in range(0, 91, 15):
                for s in {g, (360 - g) % 360}:
                    self.touch(os.path.join(d, self.mat(r, s)))

    @staticmethod
    def mat(r, deg):
        return f"Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_{r:.3f}s)_3-3-3-8-3-3-3_1m_{deg:03d}.mat"

    def source(self, tag, k):
        key = f"{tag}_src_{k}.wav"
        if key not in self.wave:
            self.wave[key] = self.spread("w_" + key, (self.T,), [0, 1])
        return self.wave[key]

    def response(self, r, deg):
        key = self.mat(r, deg)
        if key not in self.rir:
            self.rir[key] = self.spread(f"h_{r}_{deg}", (3 * self.L, 8), [3 * j for j in self.sparse or ()])
        return self.rir[key]

    def spread(self, name, shape, at):
        """every entry symbolic, or (sparse worlds) those at the given positions, the others zero"""
        if not self.sparse:
            return self.ctx.real(name, shape)
        v = self.ctx.real(name, (len(at),) + shape[1:])
        z = 0 * np.resize(v[:1], shape) if self.ctx.mode == "num" else np.zeros(shape)
        z[at] = v
        return z

    def wavread(self, filename, frame_offset=0, num_frames=-1, return_2d=None, channels_first=None):
        p = self.path(filename)
        assert os.path.exists(p), p
        tag, k = os.path.basename(p)[: -len(".wav")].split("_src_")
        x = self.source(tag, int(k))
        x = x[frame_offset:] if num_frames < 0 else x[frame_offset:frame_offset + num_frames]
        if return_2d:
            x = x[None] if channels_first in (None, True) else x[:, None]
        return x + 0, 16000

    def loadmat(self, filename, *a, **k):
        p = self.path(filename)
        assert os.path.exists(p), p
        b = os.path.basename(p)
        r = float(b.split("(Reverberation_")[1].split("s)")[0])
        return {"impulse_response": self.response(r, int(b[: -len(".mat")].rsplit("_", 1)[1])) + 0}

    def resample(self, x, up, down, axis=0, *a, **k):
        assert 3 * up == down, (up, down)
        return np.moveaxis(np.moveaxis(x, axis, 0)[::3], 0, axis)

    def savez(self, file, *a, **kw):
        p = self.path(file)
        if not p.endswith(".npz"):
            p += ".npz"
        self.store[p] = {k: v + 0 if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        self.touch(p)

    def load(self, file, *a, **k):
        p = self.path(file)
        if not os.path.exists(p):
            raise FileNotFoundError(p)
        return Npz({k: v + 0 if isinstance(v, np.ndarray) else np.array(v) for k, v in self.store[p].items()})

    def patches(self):
        import ssspy.io
        from ssspy.utils import dataset
        from ssspy.utils.dataset import mird, sisec2010

        rep = [(urllib.request, "urlretrieve", self.urlretrieve), (shutil, "unpack_archive", self.unpack), (ssspy.io, "wavread", self.wavread),
               (scipy.io, "loadmat", self.loadmat), (scipy.signal, "resample_poly", self.resample), (np, "savez", self.savez),
               (np, "savez_compressed", self.savez), (np, "load", self.load)]
        ps = []
        for mod, name, f in rep:
            old = getattr(mod, name)
            ps.append(Patch(mod, name, f))
            for m in (dataset, mird, sisec2010):
                for n, v in list(vars(m).items()):
                    if v is old:
                        ps.append(Patch(m, n, f))
        return Many(ps)


def expected(w, n, tag, r, conv, dur):
    """(n_channels, n_sources, n_samples)"""
    N = min(int(16000 * dur), w.T)
    mix = np.random.default_rng(seed=42).standard_normal((n, n))
    out = []
    for k in range(n):
        s = w.source(tag, k + 1)[:N]
        if not conv:
            out.append([mix[c, k] * s for c in range(n)])
            continue
        h = w.response(r, DEG[k])[::3].T
        img = []
        for c in range(n):
            g = h[CHN[c]]
            img.append(np.stack([sum((g[j] * s[t - j] for j in range(min(t + 1, w.L))), 0 * s[0]) for t in range(N)]))
        out.append(img)
    return np.stack([np.stack(o) for o in out], axis=1)


def long(r=0.16):
    """impulse responses are cut at the reverberation time: taps around sample 16000 r, sources of two samples and silence"""

    def run(ctx):
        from ssspy.utils.dataset import download_sample_speech_data as get

        M = int(16000 * r)
        taps = [0, M - 1, M, M + 1]
        root = tempfile.mkdtemp(prefix="c27_")
        try:
            w = World(ctx, os.path.abspath(root), M + 2, M + 2, taps)
            with w.patches():
                x, _ = get(sisec2010_root=os.path.join(root, "s"), mird_root=os.path.join(root, "m"), n_sources=2, reverb_duration=r)
            ctx.check(x.shape == (2, 2, M + 2), f"shape {x.shape}")
            for k in range(2):
                s, h = w.source(TAGS[0], k + 1), w.response(r, DEG[k])[::3]
                for c in range(2):
                    g = h[:, CHN[c]]
                    ref = [g[0] * s[0], g[0] * s[1], g[M - 1] * s[0], g[M - 1] * s[1], 0 * s[0]]
                    ctx.eq(x[c, k][[0, 1, M - 1, M, M + 1]] + 0, np.stack(ref), "image: response up to the reverberation time")
        finally:
            shutil.rmtree(root)

    return run


def history(reqs, T=4, L=2, edit=False, roots=None):
    """each request is (n_sources, tag, reverb_duration, conv, max_duration)"""

    def run(ctx):
        from ssspy.utils.dataset import download_sample_speech_data as get

        root = tempfile.mkdtemp(prefix="c27_")
        try:
            w = World(ctx, os.path.abspath(root), T, L)
            with w.patches():
                for i, (n, tag, r, conv, dur) in enumerate(reqs):
                    seen = len(w.fetched)
                    sub = f"a{roots[i]}" if roots else "a"
                    x, sr = get(sisec2010_root=os.path.join(root, sub, "sisec"), mird_root=os.path.join(root, sub, "mird"), n_sources=n,
                                sisec2010_tag=tag, max_duration=dur, reverb_duration=r, conv=conv)
                    ref = expected(w, n, tag, r, conv, dur)
                    ctx.check(sr == 16000, f"request {i}: sample rate")
                    ctx.check(x.shape == ref.shape, f"request {i}: shape {x.shape} {ref.shape}")
                    ctx.eq(x + 0, ref, f"request {i}: images of the requested recordings")
                    if edit:
                        x *= 0
                    ctx.check(len(set(w.fetched)) == len(w.fetched), f"request {i}: an archive that is in its folder is not downloaded again")
                    for _, p in w.fetched[seen:]:
                        ctx.check(p.startswith(os.path.join(root, sub) + os.sep), f"request {i}: downloads go to the folder asked for")
        finally:
            shutil.rmtree(root)

    return run


def rejected(**kw):
    def run(ctx):
        from ssspy.utils.dataset import download_sample_speech_data as get

        root = tempfile.mkdtemp(prefix="c27_")
        try:
            w = World(ctx, os.path.abspath(root), 3, 1)
            with w.patches():
                try:
                    get(sisec2010_root=os.path.join(root, "s"), mird_root=os.path.join(root, "m"), **kw)
                    ok = False
                except (AssertionError, ValueError):
                    ok = True
            ctx.check(ok, "request outside the documented choices is refused")
        finally:
            shutil.rmtree(root)

    return run


def harnesses(tier):
    a, b = TAGS
    full, cut = 10, 3 / 16000
    R = [(2, a, 0.16, True, full), (3, a, 0.36, True, full), (2, b, 0.16, True, full), (2, a, 0.61, True, full), (3, b, 0.36, True, cut), (2, a, 0.16, False, full), (2, b, 0.36, False, cut)]
    hs = []
    for r in R + [(4, b, 0.61, True, full), (4, b, 0.16, False, cut)]:
        hs.append((f"one:{r}", history([r], T=5, L=3), OPT))
        hs.append((f"short:{r}", history([r], T=3, L=5), OPT))
        hs.append((f"cut:{r}", history([r[:4] + (2 / 16000,), r[:4] + (1 / 16000,)], T=4, L=4), OPT))
    for i, (p, q) in enumerate(itertools.permutations(R, 2)):
        if tier == "thorough" or p[0] == q[0] == 2 or i % 3 == 0:
            hs.append((f"two:{p}:{q}", history([p, q]), OPT))
    for p, q in [(R[0], R[2]), (R[0], R[3]), (R[5], R[6]), (R[1], R[4]), (R[0], R[6])]:
        hs.append((f"three:{p}:{q}", history([p, q, p], edit=True), OPT))
        hs.append((f"folders:{p}:{q}", history([p, q, p], roots=[0, 1, 0]), OPT))
    if tier == "thorough":
        for p, q, r in itertools.permutations(R, 3):
            hs.append((f"three:{p}:{q}:{r}", history([p, q, r], edit=True), OPT))
    hs.append(("long", long(), OPT))
    hs.append(("bad-tag", rejected(sisec2010_tag="dev2_male3"), OPT))
    hs.append(("bad-reverb", rejected(reverb_duration=0.5), OPT))
    return hs
