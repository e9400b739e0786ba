"""Files as other programs write them: every function returns the bytes of a small well-formed file."""
import struct, zlib

def u16(*v): return b"".join(struct.pack("<H", x) for x in v)
def u32(*v): return b"".join(struct.pack("<I", x) for x in v)
def m16(*v): return b"".join(struct.pack(">H", x) for x in v)
def m32(*v): return b"".join(struct.pack(">I", x) for x in v)
def noise(rng, n):
    """n bytes: random, with runs and extremes."""
    out = bytearray()
    while len(out) < n:
        m = rng.randrange(4)
        if m == 0: out += bytes([rng.choice([0, 255, 127, 128, rng.randrange(256)])]) * rng.randrange(1, 9)
        else: out += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
    return bytes(out[:n])
def side(rng): return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])

# ---- DDS: (bits, R, G, B, A, luminance?)
DDS_FORMS = [
    (24, 0xFF0000, 0xFF00, 0xFF, 0, 0), (24, 0xFF, 0xFF00, 0xFF0000, 0, 0), (32, 0xFF0000, 0xFF00, 0xFF, 0, 0), (32, 0xFF, 0xFF00, 0xFF0000, 0, 0),
    (16, 0xF800, 0x7E0, 0x1F, 0, 0), (16, 0x7C00, 0x3E0, 0x1F, 0, 0), (16, 0x7C00, 0x3E0, 0x1F, 0x8000, 0), (16, 0xF00, 0xF0, 0xF, 0xF000, 0),
    (32, 0xFF0000, 0xFF00, 0xFF, 0xFF000000, 0), (32, 0xFF, 0xFF00, 0xFF0000, 0xFF000000, 0),
    (8, 0xFF, 0, 0, 0, 1), (16, 0xFFFF, 0, 0, 0, 1), (16, 0xFF, 0, 0, 0xFF00, 1), (8, 0xF, 0, 0, 0xF0, 1)]
DDS_CODES = [b"DXT1", b"DXT3", b"DXT5", b"ATI1", b"ATI2", b"RXGB"]
FACES = [0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000]
def levels(w, h, d, mips):
    out = [(w, h, d)]
    for i in range(mips):
        w, h, d = max(w // 2, 1), max(h // 2, 1), max(d // 2, 1)
        out.append((w, h, d))
    return out
def dds(rng, form=None, fourcc=None, w=None, h=None, d=1, mips=0, faces=()):
    w = w or side(rng); h = h or side(rng)
    bits, R, G, B, A, lum = form or (0, 0, 0, 0, 0, 0)
    def size(x, y, z): return (x + 3) // 4 * ((y + 3) // 4) * z * (8 if fourcc in (b"DXT1", b"ATI1") else 16) if fourcc else x * y * z * bits // 8
    fl = 0x1007 | (0x20000 if mips else 0) | (0x800000 if d > 1 else 0) | rng.choice([0x80000, 0x80000, 0])
    pf = 4 if fourcc else (0x20000 if lum else 0x40) | (1 if A else 0)
    c1 = 0x1000 | (0x400008 if mips else 0) | (8 if faces or d > 1 else 0)
    c2 = (0x200 | sum(faces) if faces else 0) | (0x200000 if d > 1 else 0)
    head = b"DDS " + u32(124, fl, h, w, size(w, h, d) if fl & 0x80000 else 0, d if d > 1 else 0, mips + 1 if mips else 0, 0) + bytes(40)
    head += u32(32, pf) + (fourcc or bytes(4)) + u32(bits, R, G, B, A) + u32(c1, c2, 0, 0, 0)
    body = b""
    for f in faces or (0,):
        for (x, y, z) in levels(w, h, d, mips): body += noise(rng, size(x, y, z))
    return head + body

# ---- runs: a random way of writing the units of d with literal and repeated packets
def packets(rng, units, most):
    """(is run, units) pieces covering the sequence."""
    i = 0
    while i < len(units):
        n = 1
        while i + n < len(units) and units[i + n] == units[i] and n < most: n += 1
        if n > 1 and rng.random() < .8 or rng.random() < .1:
            if rng.random() < .2: n = rng.randrange(1, n + 1)
            yield True, units[i:i + n]; i += n
        else:
            n = min(rng.choice([1, 2, 3, 5, most]), len(units) - i)
            yield False, units[i:i + n]; i += n

# ---- TGA
def tga(rng, kind=None, rle=None, bits=None, w=None, h=None):
    w = w or rng.choice([1, 2, 3, 5, 8, 17, 40]); h = h or rng.choice([1, 2, 3, 5, 9])
    kind = kind or rng.choice([1, 2, 3]); rle = rng.random() < .5 if rle is None else rle
    bits = {1: 8, 3: 8}.get(kind) or bits or rng.choice([16, 24, 32])
    es = rng.choice([16, 24, 32]); n = rng.choice([1, 2, 16, 64])
    cm = kind == 1 or rng.random() < .2
    ident = noise(rng, rng.choice([0, 0, 1, 11, 255]) if len(range(w * h)) < 200 else 0)
    pal = noise(rng, n * (2 if es == 16 else es // 8)) if cm else b""
    u = bits // 8
    units = [noise(rng, w * h * u)[k * u:k * u + u] for k in range(0)]
    raw = noise(rng, w * h * u)
    if rng.random() < .5: raw = noise(rng, u * 4) * (w * h // 4 + 1)
    if kind == 1: raw = bytes(x % n for x in raw)
    units = [raw[k * u:k * u + u] for k in range(w * h)]
    if rng.random() < .5: units = [units[k // rng.choice([1, 2, 5])] for k in range(w * h)]
    if rle:
        # a packet may not cross the end of a row, by the book; some programs let it
        rows = [units] if rng.random() < .3 else [units[y * w:y * w + w] for y in range(h)]
        body = b""
        for r in (rows if rng.random() < .5 else [sum(rows, [])]):      # runs may go on over the ends of rows
            for run, q in packets(rng, r, 128): body += bytes([(128 if run else 0) + len(q) - 1]) + (q[0] if run else b"".join(q))
    else: body = b"".join(units)
    desc = rng.choice([0, 32, 0, 32, 0, 32, 0, 32, 16, 48]) | {32: 8, 16: 1}.get(bits, 0)
    head = bytes([len(ident), int(cm), kind + 8 * rle]) + u16(0, n if cm else 0) + bytes([es if cm else 0]) + u16(rng.choice([0, 0, 7]), rng.choice([0, 0, 9]), w, h) + bytes([bits, desc])
    foot = rng.choice([b"", b"", u32(0, 0) + b"TRUEVISION-XFILE.\0"])
    return head + ident + pal + body + foot

# ---- BMP
def bmp(rng, bits=None, form=None, w=None, h=None):
    form = form or rng.choice(["win", "win", "os2", "top", "rle", "fields"])
    if form == "rle": bits = bits if bits in (4, 8) else rng.choice([4, 8])
    if form == "fields": bits = rng.choice([16, 32])
    if form == "os2": bits = rng.choice([1, 4, 8, 24])
    bits = bits or rng.choice([1, 4, 8, 16, 24, 32])
    w = w or rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33]); h = h or rng.choice([1, 2, 3, 5])
    n = 0 if bits > 8 else 1 << bits
    used = 0
    if bits == 8 and form != "os2": used = n = rng.choice([1, 2, 16, 100])
    if bits == 8 and form == "os2": w, h = min(w, 9), min(h, 3)
    pal = b"".join(noise(rng, 3) + (b"" if form == "os2" else b"\0") for _ in range(n))
    masks = b""
    comp = 0
    if form == "fields":
        comp = 3
        masks = u32(*rng.choice([(0xF800, 0x7E0, 0x1F), (0x7C00, 0x3E0, 0x1F), (0xF00, 0xF0, 0xF)] if bits == 16 else [(0xFF0000, 0xFF00, 0xFF), (0xFF, 0xFF00, 0xFF0000), (0xFF000000, 0xFF0000, 0xFF00)]))
    if form == "rle":
        comp = 1 if bits == 8 else 2
        top = min(n, 1 << bits)
        body = b""
        y = 0
        while y < h:
            x = 0
            while x < w:
                m = rng.randrange(7); left = w - x
                if m < 3:
                    k = rng.randrange(1, min(left, 255) + 1)
                    v = rng.randrange(top) if bits == 8 else rng.randrange(256)
                    body += bytes([k, v]); x += k
                elif m < 6 and left >= 3:
                    k = rng.randrange(3, min(left, 255) + 1)
                    q = bytes(rng.randrange(top) for _ in range(k)) if bits == 8 else bytes(rng.randrange(256) for _ in range((k + 1) // 2))
                    body += bytes([0, k]) + q + bytes(len(q) % 2); x += k
                elif m == 6:
                    if rng.random() < .5: break
                    dx, dy = rng.randrange(0, left), rng.randrange(0, h - y)
                    body += bytes([0, 2, dx, dy]); x += dx; y += dy
            if y + 1 < h or rng.random() < .5: body += bytes([0, 0])
            y += 1
        body += bytes([0, 1])
    else:
        stride = (w * bits + 31) // 32 * 4
        if bits == 8: body = b"".join(bytes(rng.randrange(n) for _ in range(w)) + noise(rng, stride - w) for _ in range(h))
        else: body = noise(rng, stride * h)
    hs = 12 if form == "os2" else 40
    off = 14 + hs + len(pal) + len(masks)
    H = h if form != "top" else (1 << 32) - h
    info = u32(12) + u16(w, h, 1, bits) if form == "os2" else u32(40, w, H) + u16(1, bits) + u32(comp, rng.choice([0, len(body)]) if comp == 0 else len(body), 2835, 2835, used, 0)
    return b"BM" + u32(off + len(body)) + u16(0, 0) + u32(off) + info + masks + pal + body

# ---- PCX
def pcx(rng, form=None, w=None, h=None):
    bits, planes = form or rng.choice([(1, 1), (1, 4), (8, 1), (8, 3), (8, 4)])
    w = w or rng.choice([1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33]); h = h or rng.choice([1, 2, 3])
    if bits == 8: w = min(w, 17)
    line = (w * bits + 7) // 8; line += line % 2
    if rng.random() < .1: line += 2
    x0, y0 = rng.choice([(0, 0), (0, 0), (3, 5)])
    body = b""
    for y in range(h):
        units = list(noise(rng, line * planes))
        if rng.random() < .5: units = [units[k // 3] for k in range(len(units))]
        for run, q in packets(rng, units, 63):
            if run: body += bytes([192 + len(q), q[0]])
            else: body += b"".join(bytes([v]) if v < 192 else bytes([193, v]) for v in q)
    head = bytes([10, 5, 1, bits]) + u16(x0, y0, x0 + w - 1, y0 + h - 1, 72, 72) + noise(rng, 48) + bytes([0, planes]) + u16(line, 1, 0, 0) + bytes(54)
    return head + body + (b"\x0c" + noise(rng, 768) if (bits, planes) == (8, 1) else b"")

# ---- SGI
def sgi(rng, rle=None, u=None, c=None, w=None, h=None):
    rle = rng.random() < .6 if rle is None else rle
    u = u or rng.choice([1, 1, 2]); c = c or rng.choice([1, 3, 4]); w = w or rng.choice([1, 2, 3, 5, 9]); h = h or rng.choice([1, 2, 3, 5])
    head = bytes([1, 218, int(rle), u]) + m16(2 if c == 1 and rng.random() < .5 else 3, w, h, c) + m32(0, 255 if u == 1 else 65535) + bytes(4) + bytes(80) + m32(0) + bytes(404)
    if not rle: return head + noise(rng, w * h * c * u)
    lines, seen = [], {}
    for k in range(h * c):
        raw = noise(rng, w * u)
        units = [raw[j * u:j * u + u] for j in range(w)]
        if rng.random() < .5: units = [units[j // 2] for j in range(w)]
        d = b""
        for run, q in packets(rng, units, 127):
            d += bytes(u - 1) + (bytes([len(q)]) + q[0] if run else bytes([128 + len(q)]) + b"".join(q))
        lines.append(d + bytes(u))
    if rng.random() < .3 and len(lines) > 1: lines[-1] = lines[0]          # lines may share their data
    order = list(range(len(lines)))
    if rng.random() < .3: rng.shuffle(order)
    pos, at, body = 512 + 8 * len(lines), {}, b""
    for k in order:
        if lines[k] in seen: at[k] = seen[lines[k]]; continue
        at[k] = seen[lines[k]] = pos + len(body); body += lines[k]
    return head + m32(*[at[k] for k in range(len(lines))]) + m32(*[len(l) for l in lines]) + body

# ---- PNM
def pnm(rng, kind=None, w=None, h=None):
    kind = kind or rng.randrange(1, 7)
    w = w or rng.choice([1, 2, 3, 7, 8, 9, 16, 17]); h = h or rng.choice([1, 2, 3, 4])
    if kind in (3, 6): w = min(w, 9)
    def sep(): return rng.choice([b" ", b"\n", b"\n", b"\t", b"  ", b" \n", b"\r\n", b"\n# a comment 7\n", b" # x\n", b"\n#\n"])
    c = 3 if kind in (3, 6) else 1
    mx = 1 if kind in (1, 4) else 255 if kind > 3 or rng.random() < .7 else 65535
    head = b"P%d" % kind + sep() + b"%d" % w + sep() + b"%d" % h
    if kind not in (1, 4): head += sep() + b"%d" % mx
    head += rng.choice([b"\n", b"\n", b" "])
    if kind == 4: return head + noise(rng, (w + 7) // 8 * h)
    if kind > 4: return head + noise(rng, w * h * c)
    vals = [rng.choice([0, mx, rng.randrange(mx + 1)]) for _ in range(w * h * c)]
    if kind == 1 and rng.random() < .5: return head + b"".join(b"%d" % v + rng.choice([b"", b"", b"\n"]) for v in vals) + b"\n"
    body = b""
    for i, v in enumerate(vals): body += b"%d" % v + (rng.choice([b" ", b" ", b"\n", b"  ", b"\t", b"\n# c 5\n"]) if i + 1 < len(vals) or rng.random() < .7 else b"")
    return head + body

# ---- PSD
def packbits(rng, row):
    out = b""
    for run, q in packets(rng, list(row), 128):
        if run and len(q) > 1: out += bytes([257 - len(q), q[0]])
        else: out += bytes([len(q) - 1]) + bytes(q)
        if rng.random() < .05: out += b"\x80"
    return out
def psd(rng, mode=None, rle=None, bits=None, w=None, h=None):
    mode = mode or rng.choice([1, 2, 3, 3]); bits = bits or (8 if mode == 2 else rng.choice([8, 8, 16])); rle = (bits == 8 and rng.random() < .6) if rle is None else rle
    w = w or rng.choice([1, 2, 3, 5, 9]); h = h or rng.choice([1, 2, 3, 5])
    c = {1: rng.choice([1, 1, 2]), 2: 1, 3: rng.choice([3, 4])}[mode]
    head = b"8BPS" + m16(1) + bytes(6) + m16(c) + m32(h, w) + m16(bits, mode)
    head += (m32(768) + noise(rng, 768) if mode == 2 else m32(0)) + m32(0) + m32(0) + m16(int(rle))
    if not rle: return head + noise(rng, w * h * c * (bits // 8))
    rows = [packbits(rng, noise(rng, w) if rng.random() < .5 else noise(rng, 1) * w) for _ in range(h * c)]
    return head + m16(*[len(r) for r in rows]) + b"".join(rows)

# ---- Sun raster
def sun(rng, bits=None, ty=None, w=None, h=None):
    bits = bits or rng.choice([1, 8, 8, 24, 32]); ty = ty or rng.choice([1, 1, 2, 3])
    if ty == 2 and bits in (1, 32): ty = 1       # not supported
    w = w or rng.choice([1, 2, 3, 5, 8, 15, 16, 17]); h = h or rng.choice([1, 2, 3, 4])
    mt = 1 if bits == 1 and rng.random() < .7 or bits == 8 and rng.random() < .6 else 0
    ml = 0 if not mt else 6 if bits == 1 else 3 * rng.choice([1, 2, 16, 64])
    row = (w * bits + 15) // 16 * 2
    rows = [noise(rng, row) for _ in range(h)]
    if bits == 8 and mt: rows = [bytes(x % (ml // 3) for x in r) for r in rows]
    pal = noise(rng, ml)
    if ty != 2: body = b"".join(rows)
    else:
        body = b""
        for r in (rows if rng.random() < .5 else [b"".join(rows)]):      # runs may go on over the ends of rows
            for run, q in packets(rng, list(r), 256):
                if run and (len(q) > 2 or q[0] == 128 and len(q) > 1): body += bytes([128, len(q) - 1, q[0]])
                else: body += b"".join(bytes([v]) if v != 128 else bytes([128, 0]) for v in q)
    return m32(0x59a66a95, w, h, bits, row * h if ty != 2 else len(body), ty, mt, ml) + pal + body

# ---- WBMP
def wbmp(rng, w=None, h=None):
    w = w or rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 127, 128, 200]); h = h or rng.choice([1, 2, 3, 5])
    if w < 10 and rng.random() < .1: h = rng.choice([127, 128, 130])
    def multi(v): return bytes([v]) if v < 128 else bytes([128 + v // 128, v % 128])
    return bytes(2) + multi(w) + multi(h) + noise(rng, (w + 7) // 8 * h)

# ---- GIF
def lzw(rng, d, lit):
    """d as LZW codes; now and then the table is started afresh."""
    out, nbits = 0, 0
    clear = 1 << lit
    size, table = lit + 1, {}
    def put(v):
        nonlocal out, nbits
        out |= v << nbits; nbits += size
    put(clear)
    nxt, cur = clear + 2, b""
    first = True
    for k, v in enumerate(d):
        c = bytes([v])
        if not cur: cur = c; continue
        if cur + c in table or len(cur + c) == 1: cur += c; continue
        put(table[cur] if len(cur) > 1 else cur[0])
        if not first or True:
            if nxt < 4096: table[cur + c] = nxt; nxt += 1
            if nxt - 1 == 1 << size and size < 12: size += 1
        if rng.random() < .02:
            put(clear); size, table, nxt = lit + 1, {}, clear + 2
        cur = c
    put(table[cur] if len(cur) > 1 else cur[0])
    # the reader adds an entry for this code too
    if nxt == 1 << size and size < 12: size += 1
    put(clear + 1)
    return out.to_bytes((nbits + 7) // 8, "little")
def gif(rng, frames=None, w=None, h=None):
    w = w or rng.choice([1, 2, 3, 5, 8, 11]); h = h or rng.choice([1, 2, 3, 5, 8, 9, 17])
    frames = frames or rng.choice([1, 1, 1, 2, 3])
    bits = rng.choice([1, 2, 4, 6]); glob = rng.random() < .7
    out = rng.choice([b"GIF89a", b"GIF87a"]) + u16(w, h) + bytes([(128 if glob else 0) | 0x70 | (bits - 1), 0, 0]) + (noise(rng, 3 << bits) if glob else b"")
    if rng.random() < .2: out += b"\x21\xfe\x05hello\0"
    if frames > 1 and rng.random() < .5: out += b"\x21\xff\x0bNETSCAPE2.0\x03\x01\0\0\0"
    for f in range(frames):
        own = not glob or rng.random() < .3
        n = 1 << bits
        if rng.random() < .6: out += bytes([0x21, 0xf9, 4, rng.choice([0, 1])]) + u16(rng.choice([0, 5, 100])) + bytes([rng.randrange(n), 0])
        d = noise(rng, w * h)
        if rng.random() < .5: d = noise(rng, 3) * (w * h // 3 + 1)
        d = bytes(x % n for x in d[:w * h])
        lit = max(2, bits)
        z = lzw(rng, d, lit)
        out += b"\x2c" + u16(0, 0, w, h) + bytes([(128 | (bits - 1) if own else 0) | rng.choice([0, 0, 64])]) + (noise(rng, 3 << bits) if own else b"") + bytes([lit])
        i = 0
        while i < len(z):
            k = min(rng.choice([255, 255, 7, 1]), len(z) - i); out += bytes([k]) + z[i:i + k]; i += k
        out += b"\0"
        if rng.random() < .1: out += b"\x21\xfe\x01x\0"
    return out + b";"

# ---- PNG (image data in stored blocks)
def chunk(ty, d): return m32(len(d)) + ty + d + m32(zlib.crc32(ty + d))
def stored(rng, d):
    out, i = b"\x78" + rng.choice([b"\x01", b"\x9c"]), 0
    while True:
        n = len(d) - i if rng.random() < .7 else rng.randrange(len(d) - i + 1)
        last = i + n == len(d)
        out += bytes([last]) + u16(n, 65535 - n) + d[i:i + n]
        i += n
        if last: return out + m32(zlib.adler32(d))
def paeth(a, b, c):
    p = a + b - c
    return min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
def filtered(rng, rows, u):
    out, prev = b"", None
    for r in rows:
        ft = rng.randrange(5)
        up = prev or bytes(len(r))
        row = bytearray()
        for k in range(len(r)):
            a = r[k - u] if k >= u else 0
            c = up[k - u] if k >= u else 0
            row.append((r[k] - [0, a, up[k], (a + up[k]) // 2, paeth(a, up[k], c)][ft]) % 256)
        out += bytes([ft]) + bytes(row); prev = r
    return out
def png(rng):
    w, h = side(rng), rng.choice([1, 2, 3, 4, 5, 8, 9])
    ct, bd = rng.choice([(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)])
    chans = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    cols = rng.randrange(1, min(1 << bd, 40) + 1) if ct == 3 else 0
    few = [noise(rng, chans * max(bd // 8, 1)) for _ in range(3)]
    def pixel():
        if ct == 3: return rng.randrange(cols)
        if bd < 8: return rng.randrange(1 << bd)
        return rng.choice(few) if rng.random() < .4 else noise(rng, chans * bd // 8)
    P = [[pixel() for _ in range(w)] for _ in range(h)]
    def rows(xs, ys):
        out = []
        for y in ys:
            if bd >= 8 and ct != 3: out.append(b"".join(P[y][x] for x in xs)); continue
            v, n = 0, 0
            for x in xs: v = v << bd | P[y][x]; n += bd
            pad = -n % 8
            if pad: v = v << pad | rng.randrange(1 << pad)
            out.append(v.to_bytes((n + pad) // 8, "big"))
        return [r for r in out if r]
    u = max(chans * bd // 8, 1)
    il = rng.random() < .4
    if il:
        d = b""
        for x0, y0, dx, dy in [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]: d += filtered(rng, rows(range(x0, w, dx), range(y0, h, dy)), u)
    else: d = filtered(rng, rows(range(w), range(h)), u)
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", m32(w, h) + bytes([bd, ct, 0, 0, il]))
    if rng.random() < .2: out += chunk(b"tEXt", b"Comment\0by hand")
    if ct == 3: out += chunk(b"PLTE", noise(rng, 3 * cols))
    if rng.random() < .4 and bd >= 8 or ct == 3 and rng.random() < .4:
        if ct == 3: out += chunk(b"tRNS", noise(rng, rng.randrange(1, cols + 1)))
        elif ct in (0, 2):
            k = rng.choice(few + [noise(rng, u)])
            out += chunk(b"tRNS", k if bd == 16 else b"".join(bytes([0, v]) for v in k))
    z, i = stored(rng, d), 0
    while i < len(z):
        n = len(z) - i if rng.random() < .7 else rng.randrange(1, len(z) - i + 1)
        out += chunk(b"IDAT", z[i:i + n]); i += n
    if rng.random() < .1: out += chunk(b"tEXt", b"Title\0x")
    return out + chunk(b"IEND", b"")

# ---- TIFF
def tif(rng):
    be = rng.random() < .5
    h16, h32 = (m16, m32) if be else (u16, u32)
    pages = rng.choice([1, 1, 1, 2, 3])
    out = bytearray(b"MM\0*" if be else b"II*\0") + h32(0)
    link = 4
    for p in range(pages):
        w, h = rng.choice([1, 2, 3, 5, 7, 8, 9, 17]), side(rng)
        spp, ph, bits = rng.choice([(1, 0, 1), (1, 1, 1), (1, 3, 1), (1, 3, 4), (1, 0, 8), (1, 1, 8), (1, 3, 8), (1, 0, 16), (1, 1, 16), (3, 2, 8), (3, 2, 8), (3, 2, 16), (4, 2, 8)])
        n = (w * bits * spp + 7) // 8
        rps = rng.choice([1, 2, 3, h, h, 100])
        comp = rng.choice([1, 32773])
        offs, cnts = [], []
        for y in range(0, h, rps):
            rows = [noise(rng, n) for _ in range(min(rps, h - y))]
            d = b"".join(packbits(rng, r) if comp != 1 else r for r in rows)
            offs.append(len(out)); cnts.append(len(d)); out += d
            if len(out) % 2: out += b"\0"
        tags = {256: (rng.choice([3, 4]), [w]), 257: (rng.choice([3, 4]), [h]), 258: (3, [bits] * spp), 262: (3, [ph]), 273: (4, offs), 277: (3, [spp]), 279: (rng.choice([3, 4]), cnts)}
        if comp != 1 or rng.random() < .7: tags[259] = (3, [comp])
        if rps < h or rng.random() < .6: tags[278] = (rng.choice([3, 4]), [rps])
        if rng.random() < .5: tags[274] = (3, [rng.choice([1, 4])])
        if rng.random() < .4: tags[284] = (3, [1])
        if rng.random() < .3: tags[254] = (4, [0])
        if rng.random() < .2: tags[266] = (3, [1])
        if ph == 3: tags[320] = (3, [rng.choice([rng.randrange(65536), 257 * rng.randrange(256)]) for _ in range(3 << bits)])
        if spp == 4: tags[338] = (3, [rng.choice([0, 1])])
        ent = b""
        for t in sorted(tags):
            ty, v = tags[t]
            d = h16(*v) if ty == 3 else h32(*v)
            if len(d) > 4:
                o = len(out); out += d
                d = h32(o)
            ent += h16(t, ty) + h32(len(v)) + d.ljust(4, b"\0")
        if len(out) % 2: out += b"\0"
        out[link:link + 4] = h32(len(out))
        out += h16(len(tags)) + ent
        link = len(out); out += h32(0)
    return bytes(out)

# ---- plain formats
def pix(rng):
    w, h = side(rng), side(rng)
    px = [bytes(x) for x in (noise(rng, 3) for _ in range(w * h))]
    if rng.random() < .5: px = [rng.choice(px[:3]) for _ in px]
    out, i = m16(w, h, rng.choice([0, 0, 3]), rng.choice([0, 0, h]), 24), 0
    while i < len(px):
        n = 1
        while i + n < len(px) and px[i + n] == px[i] and n < 255 and (rng.random() < .9): n += 1
        out += bytes([n]) + px[i]; i += n
    return out
def pxr(rng):
    w, h = side(rng), side(rng)
    k, u = rng.choice([(8, 1), (14, 3), (15, 4)])
    head = bytearray(1024)
    head[0:2] = b"\x80\xe8"
    head[416:420] = u16(h, w); head[424] = k
    if rng.random() < .3: head[512:600] = noise(rng, 88)
    return bytes(head) + noise(rng, w * h * u)
def ftx(rng):
    w, h = side(rng), side(rng)
    return u32(w, h, rng.choice([0, 1])) + noise(rng, 4 * w * h)
def wal(rng):
    w, h = rng.choice([1, 2, 3, 4, 5, 8, 16, 17]), rng.choice([1, 2, 4, 6, 8, 9])
    lev = [(max(w >> k, 1), max(h >> k, 1)) for k in range(4)]
    offs, body, at = [], b"", 100
    if rng.random() < .3: body += bytes(12)
    order = list(range(4))
    if rng.random() < .3: rng.shuffle(order)
    offs = [0] * 4
    for k in order:
        offs[k] = 100 + len(body); body += noise(rng, lev[k][0] * lev[k][1])
        if rng.random() < .2: body += bytes(3)
    return b"e1u1/floor1".ljust(32, b"\0") + u32(w, h) + u32(*offs) + bytes(32) + u32(0, 0, 0) + body
def cut(rng):
    w, h = side(rng), side(rng)
    out = u16(w, h, 0)
    for y in range(h):
        r = b""
        for run, q in packets(rng, list(noise(rng, w)), 127):
            r += bytes([128 + len(q), q[0]]) if run else bytes([len(q)]) + bytes(q)
        r += b"\0"
        out += u16(len(r)) + r
    return out
def pic(rng):
    w, h = rng.choice([1, 2, 3, 5, 8, 9, 40, 64]), rng.choice([1, 2, 3, 5, 8])
    packs = rng.choice([[0xE0], [0xE0], [0xE0, 0x10], [0xF0], [0x80, 0x60], [0x40, 0x80, 0x20, 0x10], [0x10, 0xE0]])
    tys = [rng.choice([0, 1, 2, 2]) for _ in packs]
    out = b"\x53\x80\xf6\x34" + struct.pack(">f", 3.5) + b"made by hand".ljust(80, b"\0") + b"PICT" + m16(w, h) + struct.pack(">f", 1.0) + m16(3, 0)
    for i, (m, t) in enumerate(zip(packs, tys)): out += bytes([i + 1 < len(packs), 8, t, m])
    for y in range(h):
        for m, t in zip(packs, tys):
            u = bin(m).count("1")
            few = [noise(rng, u) for _ in range(2)]
            px = [rng.choice(few) if rng.random() < .7 else noise(rng, u) for _ in range(w)]
            if rng.random() < .3: px = [px[0]] * w
            if t == 0: out += b"".join(px); continue
            if t == 1:
                i = 0
                while i < w:
                    n = 1
                    while i + n < w and px[i + n] == px[i] and rng.random() < .9: n += 1
                    out += bytes([n]) + px[i]; i += n
                continue
            for run, q in packets(rng, px, 128):
                if run and (len(q) == 1 or rng.random() < .2): out += b"\x80" + m16(len(q)) + q[0]
                elif run: out += bytes([127 + len(q)]) + q[0]
                else: out += bytes([len(q) - 1]) + b"".join(q)
    return out
def ico(rng):
    n = rng.choice([1, 1, 1, 2, 3])
    ims = []
    for k in range(n):
        if rng.random() < .2:
            while True:
                d = png(rng)
                if d[24] <= 8 and d[25] in (2, 3, 6): break
            ims.append((d[19], d[23], 0, 32, d)); continue
        w, h, bits = rng.choice([1, 3, 5, 8, 9, 16, 17, 33]), side(rng), rng.choice([1, 4, 8, 24, 32])
        used = rng.choice([0, 0, rng.randrange(1, min(1 << bits, 20) + 1)]) if bits <= 8 else 0
        if bits == 8 and not used: used = rng.choice([0, 5, 30])
        cols = (used or 1 << bits) if bits <= 8 else 0
        d = u32(40, w, 2 * h) + u16(1, bits) + u32(0, rng.choice([0, 4 * w * h]), 0, 0, used, 0) + b"".join(noise(rng, 3) + b"\0" for _ in range(cols))
        for y in range(h):
            if bits >= 24: r = noise(rng, w * bits // 8)
            else:
                v = 0
                for x in range(w): v = v << bits | rng.randrange(cols)
                pad = -(w * bits) % 8
                r = (v << pad).to_bytes((w * bits + pad) // 8, "big")
            d += r + bytes(-len(r) % 4)
        for y in range(h): d += noise(rng, (w + 7) // 8) + bytes(-((w + 7) // 8) % 4)
        ims.append((w, h, cols if cols < 256 else 0, bits, d))
    out, at = u16(0, rng.choice([1, 1, 2]), n), 6 + 16 * n
    for w, h, c, bits, d in ims:
        out += bytes([w, h, c, 0]) + u16(1, bits) + u32(len(d), at); at += len(d)
    return out + b"".join(x[4] for x in ims)
FOREIGN = {"DDS": None, "TGA": tga, "BMP": bmp, "PCX": pcx, "SGI": sgi, "PNM": pnm, "PSD": psd, "SUN": sun, "WBMP": wbmp, "GIF": gif, "PNG": png, "TIF": tif, "PIX": pix, "PXR": pxr, "FTX": ftx, "WAL": wal, "CUT": cut, "PIC": pic, "ICO": ico}
