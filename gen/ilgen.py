"""Vocabulary for script generators: constants of the specification, random arguments."""
import os, re
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
K = {}
for _l in open(os.path.join(SPEC, "ILConst.tla")):
    _m = re.match(r"(\w+) == (-?\d+)\s*$", _l.strip())
    if _m: K[_m.group(1)] = int(_m.group(2))
globals().update(K)
FMT = {K["IL_COLOUR_INDEX"]: 1, K["IL_LUMINANCE"]: 1, K["IL_ALPHA"]: 1, K["IL_LUMINANCE_ALPHA"]: 2, K["IL_RGB"]: 3, K["IL_BGR"]: 3, K["IL_RGBA"]: 4, K["IL_BGRA"]: 4}
TYP = {K["IL_BYTE"]: 1, K["IL_UNSIGNED_BYTE"]: 1, K["IL_SHORT"]: 2, K["IL_UNSIGNED_SHORT"]: 2, K["IL_INT"]: 4, K["IL_UNSIGNED_INT"]: 4, K["IL_FLOAT"]: 4, K["IL_DOUBLE"]: 8}
CI = K["IL_COLOUR_INDEX"]
UB = K["IL_UNSIGNED_BYTE"]
FLOATS = (K["IL_FLOAT"], K["IL_DOUBLE"])
COLOURS = [f for f in FMT if f != CI]
PALS = {K["IL_PAL_RGB24"]: 3, K["IL_PAL_RGB32"]: 4, K["IL_PAL_RGBA32"]: 4, K["IL_PAL_BGR24"]: 3, K["IL_PAL_BGR32"]: 4, K["IL_PAL_BGRA32"]: 4}
UPPER, LOWER = K["IL_ORIGIN_UPPER_LEFT"], K["IL_ORIGIN_LOWER_LEFT"]
import struct

def hx(b): return "x:" + bytes(b).hex()

class Img:
    def __init__(self, w, h, d, f, t): self.w, self.h, self.d, self.f, self.t = w, h, d, f, t
    def size(self): return self.w * self.h * self.d * FMT[self.f] * TYP[self.t]
    def count(self): return self.w * self.h * self.d

def chan(rng, t):
    """Bytes of one channel value."""
    if t in FLOATS:
        v = rng.choice([0, 1, .5, .25, rng.randrange(0, 257) / 256.0, rng.random()])
        return struct.pack("<f" if t == K["IL_FLOAT"] else "<d", v)
    n = TYP[t]
    m = rng.randrange(6)
    if m == 0: return bytes([0] * n)
    if m == 1: return bytes([255] * n)
    if m == 2: return bytes([0] * (n - 1) + [128])
    if m == 3: return bytes([255] * (n - 1) + [127])
    return bytes(rng.randrange(256) for _ in range(n))

def data(rng, f, t, n, maxidx=256):
    """n pixels."""
    if f == CI:
        return b"".join(bytes([rng.randrange(min(maxidx, 256))]) + bytes(TYP[t] - 1) for _ in range(n))
    return b"".join(chan(rng, t) for _ in range(n * FMT[f]))

def dims(rng, maxpix=24, maxd=1):
    while True:
        w, h, d = rng.choice([1, 2, 3, 4, 5, 7, 8]), rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1] * 3 + list(range(1, maxd + 1)))
        if w * h * d <= maxpix: return w, h, d

LONG = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 513, 520, 600]
def long_image(rng, maxbytes, maxd, fmts, typs):
    """Long in one direction: beyond the limits of bytes, runs and tables."""
    while True:
        n, m = rng.choice(LONG), rng.choice([1, 1, 1, 2, 3])
        v = [1, 1, 1]
        k = rng.randrange(3 if maxd > 1 else 2)
        v[k] = n; v[(k + 1) % 2 if k < 2 else 0] = m
        im = Img(v[0], v[1], v[2], rng.choice(fmts or list(FMT)), rng.choice(typs or list(TYP)))
        if im.size() <= maxbytes and (im.f != CI or im.t in (UB,)): return im

def image(rng, maxbytes=320, maxpix=24, maxd=1, fmts=None, typs=None):
    if maxbytes >= 200 and maxpix >= 20 and rng.random() < .05: return long_image(rng, 1300, maxd, fmts, typs)
    while True:
        w, h, d = dims(rng, maxpix, maxd)
        im = Img(w, h, d, rng.choice(fmts or list(FMT)), rng.choice(typs or list(TYP)))
        if im.size() <= maxbytes and (im.f != CI or im.t in (UB,)): return im

def tex(rng, im, maxidx=256):
    return "TexImage %d %d %d %d %d %d %s" % (im.w, im.h, im.d, FMT[im.f], im.f, im.t, hx(data(rng, im.f, im.t, im.count(), maxidx)))

def pal(rng, pt, n):
    if n * PALS[pt] > 90: return "RegPal %d r:%d:%d" % (pt, rng.randrange(1, 10 ** 6), n * PALS[pt])
    return "RegPal %d %s" % (pt, hx(bytes(rng.randrange(256) for _ in range(n * PALS[pt]))))

def define(rng, origin=True, npal=None, **kw):
    """(lines, Img): make the current image a random one, with palette if indexed."""
    im = image(rng, **kw)
    n = npal or rng.choice([1, 2, 3, 4, 8, 16, rng.choice([100, 255, 256, 256])])
    L = [tex(rng, im, n)]
    if im.f == CI: L.append(pal(rng, rng.choice(list(PALS)), n))
    if origin and rng.random() < .5: L.append("RegOrigin %d" % UPPER)
    return L, im
