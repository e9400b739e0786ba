"""What is explored for each property: models (all transitions become scripts) and generated scripts."""
import itertools
import foreign
import ilgen as g
from ilgen import *

DRIVER_ASSUMPTIONS = ["the library is used from one thread", "names above 4999 are bound only in dedicated scripts",
                      "image data above the driver's logging limit is compared by digest"]

def leaves(scripts):
    """Drop scripts that are a prefix of another one."""
    out = []
    S = sorted(scripts)
    for i, x in enumerate(S):
        if i + 1 < len(S) and S[i + 1][:len(x)] == x: continue
        out.append(x)
    return out

def pick(n):
    def f(scripts, rng):
        L = leaves(scripts)
        return L if len(L) <= n else [L[i] for i in sorted(rng.sample(range(len(L)), n))]
    return f

class Prop:
    timeout = 20
    technique = "generated command histories run in the library; every recorded event must be a step of ILSys"
    note = ("The library is driven through its public API (ASan build); TLC accepts a recorded trace only if every return value, error and observed image is what the specification predicts. "
            "Bounded by the histories explored; trusts the driver's logging, TLC and AddressSanitizer.")
    assumptions = DRIVER_ASSUMPTIONS
    quick = thorough = 0
    def models(self, tier): return []
    def gen(self, rng): return []
    def extra(self, tier, rng): return []
    def scripts(self, tier, rng):
        out = [self.gen(rng) for _ in range(self.quick if tier == "quick" else self.thorough)]
        return out + list(self.extra(tier, rng))

def M(module, cfg=None, n=None, head=None, tail=None):
    d = {"module": module, "cfg": (cfg or module) + ".cfg", "select": pick(n or 10 ** 9)}
    if head is not None: d["head"] = head
    if tail is not None: d["tail"] = tail
    return d

PROPS = {}
def prop(cls):
    PROPS[cls.__name__] = cls()
    return cls

def obs(rng, *choices): return "obs " + rng.choice(choices or ("ea", "e", "ei", "et"))

# ---------------------------------------------------------------- names and selection

def store_step(rng, gen, copies=True):
    """One command on names.  gen: [number of names handed out so far]"""
    def name():
        m = rng.randrange(8)
        if m < 3 and gen[0]: return "$%d" % rng.randrange(1, gen[0] + 1)
        return str(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 17]))
    m = rng.randrange(16)
    if m < 2: gen[0] += 1; return "Gen1"
    if m == 2: n = rng.randrange(1, 5); gen[0] += n; return "Gen %d" % n
    if m == 3: return "Gen %d" % rng.choice([0, -1])
    if m < 7: return "Bind " + name()
    if m < 9: return "Del " + name()
    if m == 9: return "Del %s %s %s" % (name(), name(), name())
    if m == 10: return "IsImage " + name()
    if m == 11: return "CurName"
    if m == 12 and copies: gen[0] += 1; return "Clone"
    if m == 13 and copies: return "CopyImage " + name()
    if m == 14: return rng.choice(["Del1 " + name(), "iluDel " + name(), "Sub %d 2" % rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), "Act%s 1" % rng.choice("NML"), "Act%s 2" % rng.choice("NML")])
    im = image(rng, 40)
    return tex(rng, im)

@prop
class C01(Prop):
    technique = "bounded exploration of MC_Store (all histories to depth 4/5), each transition replayed in the library; longer random histories trace-checked"
    quick, thorough = 120 * 2, 1200
    def models(self, tier):
        return [M("MC_Store", n=2500)] if tier == "quick" else [M("MC_Store"), M("MC_Store", "MC_Store_deep")]
    def gen(self, rng):
        g0 = [0]
        n = rng.randrange(15, 60)
        return [obs(rng, "ea", "e", "ea")] + [store_step(rng, g0) for _ in range(n)] + ["Audit"]
    def extra(self, tier, rng):
        # many names: the table grows several times
        for r in range(6 if tier == "quick" else 40):
            L = ["obs e"]
            tot = 0
            for i in range(rng.randrange(17, 40)):
                L.append("Gen 64"); tot += 64
                if rng.random() < .2: L.append("Bind $%d" % rng.randrange(1, tot + 1))
                if rng.random() < .4: L += ["Del " + " ".join("$%d" % k for k in rng.sample(range(1, tot + 1), min(tot, rng.randrange(1, 60))))]
            for i in range(10): L += ["IsImage $%d" % rng.randrange(1, tot + 1), "Gen1"]; tot += 1
            yield "C01.many%d" % r, L + ["obs ex", "Audit"]
        # sparse names: binding far beyond the table
        for r in range(12 if tier == "quick" else 100):
            L = ["obs ea"]
            for i in range(14):
                far = rng.choice([1023, 1024, 1025, 2047, 2048, 2049, 3000, 4998, rng.randrange(8, 4999)])
                L += [rng.choice(["Bind %d" % far, "Bind %d" % far, "CopyImage %d" % far, "Del %d" % far, "Gen1", "IsImage %d" % far, "Gen 2"])]
            yield "C01.far%d" % r, L
        yield "C01.max", ["obs e", "Bind -1", "Bind -1", "IsImage -1", "Del -1", "Gen1", "CopyImage -1", "Bind 2", "Audit"]

def sub_step(rng):
    m = rng.randrange(14)
    if m < 3: return "Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), rng.randrange(0, 4))
    if m == 3: return "Reg%s %d" % (rng.choice("NMF"), rng.randrange(0, 4))
    if m < 10: return "Act%s %d" % (rng.choice("NMLF"), rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 50]))
    if m == 10: return "Bind %d" % rng.choice([1, 1, 1, 2, 0])
    if m == 11: return "Del %d" % rng.choice([1, 2])
    if m == 12: return "CopyImage %d" % rng.choice([1, 2])
    return rng.choice(["Sub 9 1", "Clone", "iluInfo", "GetInt %d" % rng.choice([IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE])])

@prop
class C03(Prop):
    technique = "bounded exploration of MC_Sub (all histories to depth 3/4), each transition replayed; random histories trace-checked"
    quick, thorough = 250 * 2, 3000
    def models(self, tier):
        return [M("MC_Sub", n=2500, head=["obs ean"])] if tier == "quick" else [M("MC_Sub", "MC_Sub_deep", head=["obs ean"])]
    def gen(self, rng):
        L = ["obs " + rng.choice(["ean", "ean", "ein", "en"])]
        for i in range(rng.randrange(8, 30)):
            L.append(sub_step(rng))
            if rng.random() < .25: L.append(tex(rng, Img(1, 1, 1, IL_LUMINANCE, UB)) if rng.random() < .7 else "SetDuration %d" % rng.randrange(1, 99))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # long lists
        for r in range(4):
            n = rng.randrange(5, 30)
            L = ["obs en", "Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), n)]
            for i in range(8): L += ["Act%s %d" % (rng.choice("NML"), rng.choice([n - 1, n, n + 1, 1, n // 2])), "SetDuration %d" % (i + 5), "Bind 1"]
            yield "C03.long%d" % r, L + ["Audit"]

# ---------------------------------------------------------------- isolation, copies, memory

def edit_step(rng, names=(1, 2, 3)):
    """An operation on the current image with whatever arguments."""
    nm = lambda: rng.choice(names)
    m = rng.randrange(22)
    if m < 4: return define(rng, maxbytes=64, maxpix=12)[0]
    if m < 7: return ["Bind %d" % nm()]
    if m == 7: return ["CopyImage %d" % nm()]
    if m == 8: return ["Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), rng.randrange(1, 3))]
    if m == 9: return ["Act%s 1" % rng.choice("NMLF")]
    if m == 10: return ["Convert %d %d" % (rng.choice(list(FMT)), rng.choice(list(TYP)))]
    if m == 11: return ["Clear"]
    if m == 12: return ["SetAlpha %d" % rng.randrange(0, 257)]
    if m == 13:
        f = rng.choice(COLOURS); w, h, d = dims(rng, 6)
        return ["SetPixels %d %d 0 %d %d 1 %d %d %s" % (rng.randrange(-2, 4), rng.randrange(-2, 4), w, h, f, UB, hx(data(rng, f, UB, w * h)))]
    if m == 14: return ["Blit %d %d %d 0 0 0 0 %d %d 1" % (nm(), rng.randrange(-1, 3), rng.randrange(-1, 3), rng.randrange(1, 4), rng.randrange(1, 4))]
    if m == 15: return ["Overlay %d %d %d 0" % (nm(), rng.randrange(-1, 3), rng.randrange(-1, 3))]
    if m == 16: return [pal(rng, rng.choice(list(PALS)), rng.randrange(1, 5))]
    if m == 17: return ["ConvertPal %d" % rng.choice(list(PALS))]
    if m == 18: return ["RegOrigin %d" % rng.choice([UPPER, LOWER])]
    if m == 19: return ["Del %d" % nm()]
    if m == 20: return ["SetDuration %d" % rng.randrange(100)]
    return ["RegF 2"] if rng.random() < .5 else ["DefaultImage"]

@prop
class C02(Prop):
    technique = "bounded exploration of MC_Store with the isolation and copy properties, replayed; random edit histories over several images, all images compared after every step; memory blocks counted across repeated rounds"
    quick, thorough = 500 * 2, 6000
    def models(self, tier): return [M("MC_Store", n=1200)] if tier == "quick" else [M("MC_Store", "MC_Store_deep")]
    def gen(self, rng):
        L = [obs(rng, "ea", "ea", "e")]
        nc = 0
        for i in range(rng.randrange(10, 28)):
            if rng.random() < .08: L.append("Clone"); nc += 1
            elif nc and rng.random() < .1: L.append("%s $%d" % (rng.choice(["Bind", "Del", "CopyImage", "Bind"]), rng.randrange(1, nc + 1)))
            else: L += edit_step(rng)
        return L + ["Audit"]
    def extra(self, tier, rng):
        # the same work twice, everything deleted after each round: no memory stays behind
        for r in range(60 if tier == "quick" else 600):
            body = []
            for i in range(rng.randrange(4, 14)): body += edit_step(rng, (2, 3, 4))
            clean = ["Del 2 3 4", "Bind 0", "Del 1"]
            yield "C02.mem%d" % r, ["obs e", "Bind 2"] + body + clean + ["Live", "Bind 2"] + body + clean + ["Live", "Bind 2"] + body + clean + ["Live"]

# ---------------------------------------------------------------- settings, attributes, errors

VALUES = [-2, -1, 0, 1, 2, 3, 15, 30, 31, 50, 98, 99, 100, 255, 256, 257, IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, CI,
          LOWER, UPPER, IL_WU_QUANT, IL_NEU_QUANT, IL_JFIF, IL_EXIF, IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_DXT1A, IL_DXT_NO_COMP, IL_3DC, IL_RXGB, IL_ATI1N,
          IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_LZO, IL_COMPRESS_ZLIB] + list(TYP)
SWITCHES = [IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED,
            IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS]
SETTABLE = {IL_FORMAT_MODE: [IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA], IL_KEEP_DXTC_DATA: [0, 1], IL_MAX_QUANT_INDICES: [2, 16, 256],
            IL_NEU_QUANT_SAMPLE: [1, 30], IL_ORIGIN_MODE: [LOWER, UPPER], IL_QUANTIZATION_MODE: [IL_WU_QUANT, IL_NEU_QUANT], IL_TYPE_MODE: list(TYP), IL_BMP_RLE: [0, 1],
            IL_DXTC_FORMAT: [IL_DXT1, IL_DXT5, IL_3DC, IL_DXT1A], IL_JPG_SAVE_FORMAT: [IL_JFIF, IL_EXIF], IL_JPG_QUALITY: [0, 50, 99], IL_PNG_INTERLACE: [0, 1],
            IL_PCD_PICNUM: [0, 1, 2], IL_PNG_ALPHA_INDEX: [-1, 0, 255], IL_SGI_RLE: [0, 1], IL_TGA_CREATE_STAMP: [0, 1], IL_TGA_RLE: [0, 1], IL_VTF_COMP: [IL_DXT1, IL_DXT5, IL_DXT_NO_COMP]}
STRINGS = [IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING,
           IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING]
IMQ = [IL_IMAGE_BITS_PER_PIXEL, IL_IMAGE_BYTES_PER_PIXEL, IL_IMAGE_BPC, IL_IMAGE_CHANNELS, IL_IMAGE_CUBEFLAGS, IL_IMAGE_WIDTH, IL_IMAGE_HEIGHT, IL_IMAGE_DEPTH, IL_IMAGE_DURATION,
       IL_IMAGE_FORMAT, IL_IMAGE_TYPE, IL_IMAGE_SIZE_OF_DATA, IL_IMAGE_PLANESIZE, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_ORIGIN, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES,
       IL_PALETTE_TYPE, IL_PALETTE_BPP, IL_PALETTE_NUM_COLS, IL_PALETTE_BASE_TYPE]

def set_step(rng):
    m = rng.randrange(14)
    if m < 5:
        k = rng.choice(list(SETTABLE))
        return "SetInt %d %d" % (k, rng.choice(SETTABLE[k]))
    if m == 5: return "SetInt %d %d" % (rng.choice(list(SETTABLE) + [IL_COMPRESS_MODE, IL_IMAGE_WIDTH, 0, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_DURATION, IL_IMAGE_CUBEFLAGS]), rng.choice(VALUES))
    if m < 9: return "%s %d" % (rng.choice(["Enable", "Disable"]), rng.choice(SWITCHES + [0, 7]))
    if m == 9: return "%s %d" % (rng.choice(["OriginFunc", "FormatFunc", "TypeFunc", "CompressFunc"]), rng.choice(VALUES))
    if m == 10: return rng.choice(["OriginFunc %d" % UPPER, "FormatFunc %d" % rng.choice([IL_RGB, IL_BGR, IL_RGBA]), "TypeFunc %d" % rng.choice(list(TYP)), "CompressFunc %d" % IL_COMPRESS_RLE])
    if m == 11: return "SetString %d s:%s" % (rng.choice(STRINGS + [0]), rng.choice(["a", "abc", "x" * rng.randrange(1, 300), "hello_world"]))
    if m == 12: return "GetString %d" % rng.choice(STRINGS + [IL_VENDOR, IL_VERSION_NUM, 0])
    return rng.choice(["Hint %d %d" % (rng.choice([IL_MEM_SPEED_HINT, IL_COMPRESSION_HINT, 0]), rng.choice([IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE, IL_USE_COMPRESSION, IL_NO_COMPRESSION, 0])),
                       "SetString %d" % rng.choice(STRINGS), "IsEnabled %d" % rng.choice(SWITCHES + [0]), "IsDisabled %d" % rng.choice(SWITCHES + [0]),
                       "GetBool %d" % rng.choice(list(SETTABLE) + SWITCHES), "GetIntv %d" % rng.choice(list(SETTABLE)), "KeyColour 10 20 30 40", "ClearColour 1 2 3 4"])

@prop
class C09(Prop):
    technique = "MC_Set: every candidate value of every setting followed by another change, replayed with all settings read back; random histories trace-checked"
    quick, thorough = 250 * 2, 3000
    def models(self, tier): return [M("MC_Set", n=2000 if tier == "quick" else None, head=["obs e"], tail=["States"])]
    def gen(self, rng):
        L = ["obs e"]
        for i in range(rng.randrange(10, 40)):
            L.append(set_step(rng))
            if rng.random() < .3: L.append("States")
            if rng.random() < .06: L += self.effects(rng)
        return L + ["States"] + ["GetString %d" % k for k in STRINGS] + self.effects(rng) + ["Audit"]
    def effects(self, rng):
        """Settings with no query of their own, told by what they do."""
        L = ["Hint %d %d" % (IL_COMPRESSION_HINT, rng.choice([IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE])) for i in range(rng.randrange(3))]
        L += ["TexImage 1 1 1 3 %d %d x:010203040506" % (IL_RGB, IL_UNSIGNED_SHORT), "SaveLQ %d" % IL_PNM]
        if rng.random() < .5: L.append("KeyColour %d %d %d %d" % tuple(rng.choice([0, 256]) for _ in range(4)))
        L += ["obs ei", "TexImage 4 1 1 3 %d %d x:000000ffffffff000000ff00" % (rng.choice([IL_RGB, IL_BGR]), IL_UNSIGNED_BYTE), "Enable %d" % IL_USE_KEY_COLOUR, "Convert %d %d" % (IL_RGBA, IL_UNSIGNED_BYTE), "Disable %d" % IL_USE_KEY_COLOUR, "Clear"]
        return L + ["obs e"]

MASKS = [0, IL_ORIGIN_BIT, IL_FILE_BIT, IL_PAL_BIT, IL_FORMAT_BIT, IL_TYPE_BIT, IL_COMPRESS_BIT, IL_LOADFAIL_BIT, IL_FORMAT_SPECIFIC_BIT, -1]
@prop
class C10(Prop):
    technique = "MC_Attrib: all push/pop/change histories to depth 4/5, replayed with all settings read back; deep nestings trace-checked"
    quick, thorough = 250 * 2, 3000
    def models(self, tier):
        return [M("MC_Attrib", n=1500, head=["obs e"], tail=["States", "GetString %d" % IL_TGA_ID_STRING])] if tier == "quick" else [M("MC_Attrib", "MC_Attrib_deep", head=["obs e"], tail=["States", "GetString %d" % IL_TGA_ID_STRING])]
    def gen(self, rng):
        L = ["obs e"]
        for i in range(rng.randrange(10, 40)):
            m = rng.randrange(6)
            if m == 0: L.append("Push %d" % (rng.choice(MASKS) if rng.random() < .5 else sum(set(rng.choice(MASKS[1:-1]) for _ in range(3)))))
            elif m == 1: L.append("Pop")
            else: L.append(set_step(rng))
            if m < 2 and rng.random() < .7: L.append("States")
        return L + ["States"] + ["GetString %d" % k for k in STRINGS]
    def extra(self, tier, rng):
        # to the limit and beyond, then all the way back
        for r in range(8 if tier == "quick" else 60):
            L = ["obs e"]
            n = rng.choice([30, 31, 32, 33, 36])
            for i in range(n):
                L += [set_step(rng) for _ in range(rng.randrange(0, 3))] + ["Push %d" % rng.choice(MASKS)]
            L.append("States")
            for i in range(n + 2): L += ["Pop"] + (["States"] if rng.random() < .4 else [])
            yield "C10.deep%d" % r, L + ["States"] + ["GetString %d" % k for k in STRINGS]

def fail_step(rng):
    """Calls that mostly fail."""
    return rng.choice(["Enable 0", "Disable 1", "SetInt %d 12345" % IL_JPG_QUALITY, "SetInt 0 0", "OriginFunc 0", "TypeFunc 1", "FormatFunc 3", "CompressFunc 9", "Pop", "ActN 3", "ActM 1", "ActF 2", "ActL 1",
                       "GetInt 0", "GetBool 1", "Sub 9 1", "Convert %d %d" % (IL_RGB, 77), "ConvertPal %d" % IL_PAL_RGB24, "CopyImage -1", "Gen 0", "Bind -1", "SetError 1290", "SetError 1300",
                       "TexImage 1 1 1 3 %d 1" % IL_RGB, "Hint 0 0", "SetData", "RegPal %d" % IL_PAL_RGB24, "Blit -1 0 0 0 0 0 0 1 1 1", "RegOrigin 5", "SetString 0 s:a", "GetString 0"])
def good_step(rng):
    return rng.choice(["Enable %d" % IL_CONV_PAL, "Disable %d" % IL_CONV_PAL, "SetInt %d 12" % IL_JPG_QUALITY, "Gen1", "Bind 2", "Bind 1", "IsImage 4", "Clear", "Del 2", "GetInt %d" % IL_IMAGE_WIDTH,
                       "TexImage 2 2 1 3 %d %d r:5:12" % (IL_RGB, UB), "Convert %d %d" % (IL_BGR, UB), "ActN 0", "Push 0", "Clone", "SetAlpha 128", "ClearColour 1 2 3 4"])
@prop
class C11(Prop):
    technique = "MC_Err: all histories of failing, succeeding and fetching calls to depth 3/4 from an empty and a nearly full record, replayed; random histories trace-checked"
    quick, thorough = 250 * 2, 3000
    def models(self, tier): return [M("MC_Err", n=1500, head=["obs"], tail=["Drain", "GetError", "Audit"])] if tier == "quick" else [M("MC_Err", "MC_Err_deep", head=["obs"], tail=["Drain", "GetError", "Audit"])]
    def gen(self, rng):
        L = ["obs"]
        b = rng.choice([.2, .5, .9])
        for i in range(rng.randrange(10, 70)):
            m = rng.random()
            if m < .25: L.append("GetError")
            elif m < .28: L.append("Drain")
            else: L.append(fail_step(rng) if rng.random() < b else good_step(rng))
        return L + ["GetError"] * rng.randrange(0, 6) + ["Drain", "GetError", "obs e", "Audit"]
    def extra(self, tier, rng):
        for r in range(60 if tier == "quick" else 400):
            L = ["obs ea"]
            for i in range(rng.randrange(8, 20)): L += [fail_step(rng) if rng.random() < .6 else good_step(rng)]
            yield "C11.e%d" % r, L
        # exactly ErrMax, one less, one more
        for n in (31, 32, 33, 34, 63, 64, 65, 100):
            yield "C11.full%d" % n, ["obs"] + ["SetError %d" % (1281 + i % 12) for i in range(n)] + ["GetError"] * 34 + ["SetError 1290", "GetError", "GetError"]

# ---------------------------------------------------------------- contents of images

@prop
class C04(Prop):
    quick, thorough = 400 * 2, 5000
    technique = "MC_Edit: all histories of definitions and edits to depth 3, replayed; random definitions and edits of every format and type trace-checked, with every property query compared to the specified image after every call"
    def models(self, tier): return [M("MC_Edit", None if tier == "quick" else "MC_Edit_deep", n=1500 if tier == "quick" else None, head=["obs ea"])]
    def gen(self, rng):
        L = [obs(rng, "ei", "et", "ea")]
        for i in range(rng.randrange(5, 14)):
            m = rng.randrange(16)
            if m < 6:
                D, im = define(rng, maxd=4)
                L += D
                if rng.random() < .3: L.append("SetData " + hx(data(rng, im.f, im.t, im.count())))
            elif m == 6:
                im = image(rng, maxd=3)
                L.append("TexSurf" + tex(rng, im)[8:])
            elif m == 7:                          # refused definitions, and degenerate ones
                w, h, d, f, t = rng.choice([(2, 2, 1, IL_RGB, 0), (2, 2, 1, IL_RGBA, 5119), (2, 2, 1, IL_RGB, 5133), (70000, 70000, 1, IL_RGB, UB), (65536, 32768, 1, IL_LUMINANCE, UB), (65536, 65536, 1, IL_LUMINANCE, UB),
                                                 (1 << 20, 1 << 20, 1 << 20, IL_RGBA, IL_FLOAT), (4096, 4096, 4096, IL_RGBA, UB), (0, 3, 1, IL_RGB, UB), (3, 0, 0, IL_LUMINANCE, UB), (0, 0, 0, IL_RGBA, IL_SHORT), (-1, 1, 1, IL_RGB, UB), (32768, 32768, 2, IL_RGBA, IL_DOUBLE), (0, 1 << 30, 1, IL_RGBA, UB), (0, 65536, 65536, IL_LUMINANCE, UB), (65536, 0, 65536, IL_LUMINANCE, UB), (65536, 65536, 0, IL_LUMINANCE, UB)])
                L.append("TexImage %d %d %d %d %d %d" % (w, h, d, FMT[f], f, t))
            elif m == 8: L.append("Convert %d %d" % (rng.choice(COLOURS), rng.choice(list(TYP))))
            elif m == 9: L.append(rng.choice(["SetData", "Clear", "DefaultImage", "Sub %d 1" % IL_SUB_MIPMAP, "Clone"]))
            elif m == 10: L.append("SetInt %d %d" % (rng.choice([IL_IMAGE_DURATION, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_CUBEFLAGS]), rng.choice([0, 1, 5, 1000])))
            elif m == 11: L.append("Bind %d" % rng.choice([1, 2]))
            elif m == 12: L.append("CopyImage %d" % rng.choice([1, 2]))
            elif m == 13: L.append("TexImage %d %d %d %d %d %d" % (rng.randrange(1, 9), rng.randrange(1, 9), rng.randrange(1, 4), 3, IL_RGB, rng.choice(list(TYP))))
            else: L += edit_step(rng, (1, 2))
            if rng.random() < .35: L += ["GetInt %d" % k for k in rng.sample(IMQ, 8)] + ["iluInfo"]
        return L + ["GetInt %d" % k for k in IMQ] + ["GetIntv %d" % rng.choice(IMQ), "GetBool %d" % rng.choice(IMQ), "Audit"]

def rect(rng, im, caps=True):
    """Offsets and extents around an image's bounds."""
    def one(n):
        o = rng.choice([0, 0, 1, n // 2, n - 1, n, n + 1, -1, -2]); e = rng.choice([1, 1, 2, n, n + 1, max(1, n - 1), n + 2])
        return o, e
    (x, w), (y, h), (z, d) = one(im.w), one(im.h), (one(im.d) if im.d > 1 or rng.random() < .1 else (0, 1))
    return x, y, z, min(w, 9), min(h, 8), min(d, 3)

@prop
class C05(Prop):
    quick, thorough = 500 * 2, 6000
    technique = "random images, rectangles (inside, straddling and outside), formats and types; the specification computes each affected pixel, TLC compares whole images and whole caller buffers"
    def gen(self, rng):
        L = [obs(rng, "ei", "ei", "e")]
        if rng.random() < .3: L += ["Enable %d" % IL_ORIGIN_SET, "OriginFunc %d" % rng.choice([UPPER, LOWER])]
        for r in range(rng.randrange(1, 4)):
            D, im = define(rng, maxd=3, maxbytes=240)
            L += D
            for i in range(rng.randrange(3, 9)):
                m = rng.randrange(10)
                x, y, z, w, h, d = rect(rng, im)
                f, t = (im.f, im.t) if rng.random() < .5 else (rng.choice(list(FMT)), rng.choice(list(TYP)))
                if m < 5:
                    if f == CI and t != UB: t = UB
                    n = w * h * d * FMT[f] * TYP[t]
                    if n > 400: continue
                    L.append("SetPixels %d %d %d %d %d %d %d %d %s" % (x, y, z, w, h, d, f, t, hx(data(rng, f, t, w * h * d, 1))))
                elif m < 8:
                    x, y, z = abs(x), abs(y), abs(z)
                    n = w * h * d * FMT[f] * TYP[t]
                    if n > 400: continue
                    L.append("CopyPixels %d %d %d %d %d %d %d %d" % (x, y, z, w, h, d, f, t))
                elif m == 8: L += ["ClearColour %d %d %d %d" % tuple(rng.choice([0, 64, 128, 200, 256, 300, -5]) for _ in range(4)), "Clear"]
                else: L.append(rng.choice(["Clear", "SetData " + hx(data(rng, im.f, im.t, im.count(), 1)), "SetPixels 0 0 0 1 1 1 %d %d" % (IL_RGB, UB), "CopyPixelsNull %d %d" % (IL_RGB, UB),
                                           "RegOrigin %d" % rng.choice([UPPER, LOWER])]))
                if m == 8 and im.f == CI: break
        return L + ["Audit"]

@prop
class C06(Prop):
    quick, thorough = 400 * 2, 5000
    technique = "random source and destination images, placements (also negative and outside) and formats, blending on and off; the specification computes each destination pixel, TLC compares both images whole"
    def gen(self, rng):
        L = [obs(rng, "ea", "ea", "ei"), "Bind 2"]
        D, src = define(rng, maxd=2, maxbytes=160)
        L += D + ["Bind 3"]
        D, dst = define(rng, maxd=2, maxbytes=160)
        L += D
        if rng.random() < .5: L.append("%s %d" % (rng.choice(["Disable", "Disable", "Enable"]), IL_BLIT_BLEND))
        for i in range(rng.randrange(2, 6)):
            x, y, z, w, h, d = rect(rng, dst)
            sx, sy, sz = rng.choice([0, 0, 1, src.w - 1, src.w]), rng.choice([0, 0, 1, src.h - 1, src.h + 1]), rng.choice([0, 0, 0, src.d - 1])
            if rng.random() < .7: L.append("Blit 2 %d %d %d %d %d %d %d %d %d" % (x, y, z, sx, sy, sz, w, h, d))
            else: L.append("Overlay 2 %d %d %d" % (x, y, z))
            m = rng.randrange(12)
            if m == 0: L.append("%s %d" % (rng.choice(["Enable", "Disable"]), IL_BLIT_BLEND))
            elif m == 1: L.append("RegOrigin %d" % rng.choice([UPPER, LOWER]))
            elif m == 2: L.append("Blit 3 %d %d 0 0 0 0 2 2 1" % (rng.randrange(-1, 3), rng.randrange(-1, 3)))
            elif m == 3:
                D, dst = define(rng, maxd=2, maxbytes=160)
                L += D
            elif m == 4: L += ["Sub %d 1" % IL_SUB_MIPMAP, "ActM 1"]; dst = Img(1, 1, 1, IL_LUMINANCE, UB)
            elif m == 5: L.append("Blit %s 0 0 0 0 0 0 2 2 1" % rng.choice(["-1", "4", "0"]))
        return L + ["Audit"]

@prop
class C07(Prop):
    quick, thorough = 500 * 2, 6000
    technique = "every pair of formats and of types, chained conversions, sub-image lists and palettes; the specification computes each converted channel, TLC compares whole image trees"
    def gen(self, rng):
        L = [obs(rng, "et", "et", "ea", "e")]
        if rng.random() < .15: L.append("SetInt %d %d" % (IL_QUANTIZATION_MODE, IL_NEU_QUANT))
        if rng.random() < .2: L.append("SetInt %d %d" % (IL_MAX_QUANT_INDICES, rng.choice([2, 4, 16, 200, 256])))
        L += define(rng, maxd=2, maxbytes=160)[0]
        if rng.random() < .35:
            L.append("Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), rng.randrange(1, 3)))
            if rng.random() < .7: L += [rng.choice(["ActN 1", "ActM 1"])] + define(rng, maxbytes=60)[0] + ["Bind 1"]
        for i in range(rng.randrange(1, 6)):
            if rng.random() < .08: L += ["Enable %d" % IL_USE_KEY_COLOUR, "KeyColour %d %d %d 0" % tuple(rng.choice([0, 256, 128]) for _ in range(3))]
            L.append("Convert %d %d" % (rng.choice(list(FMT)), rng.choice(list(TYP) + [UB] * 3) if rng.random() < .97 else 7))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every pair, from exactly known pixels
        pairs = [(f1, t1, f2, t2) for f1 in FMT for t1 in TYP for f2 in FMT for t2 in TYP if f1 != CI or t1 == UB]
        if tier == "quick": pairs = rng.sample(pairs, 700)
        for i in range(0, len(pairs), 4):
            L = ["obs et"]
            for f1, t1, f2, t2 in pairs[i:i + 4]:
                im = Img(3, 2, 1, f1, t1)
                if im.size() > 200: im = Img(2, 2, 1, f1, t1)
                L += [tex(rng, im, 4)] + ([pal(rng, rng.choice(list(PALS)), 4)] if f1 == CI else []) + ["Convert %d %d" % (f2, t2), "Convert %d %d" % (f1, t1)]
            yield "C07.pair%d" % i, L
        # few colours: reduction to a palette loses nothing
        cols = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (128, 128, 0), (0, 128, 128), (200, 100, 50)]
        for r in range(40 if tier == "quick" else 300):
            w, h = rng.randrange(1, 9), rng.randrange(1, 6)
            f = rng.choice([IL_RGB, IL_BGR, IL_RGBA, IL_BGRA])
            k = rng.sample(cols, rng.randrange(1, 9))
            b = b"".join(bytes(rng.choice(k) + ((255,) if FMT[f] == 4 else ())) for _ in range(w * h))
            yield "C07.few%d" % r, ["obs et", "MaxData 1000", "TexImage %d %d 1 %d %d %d %s" % (w, h, FMT[f], f, UB, hx(b)), "Convert %d %d" % (CI, UB), "Convert %d %d" % (rng.choice(COLOURS), UB), "Convert %d %d" % (CI, UB)]
        for r in range(30 if tier == "quick" else 200):
            L = ["obs et", "MaxData 1000"] + (["SetInt %d %d" % (IL_QUANTIZATION_MODE, IL_NEU_QUANT)] if r % 3 == 0 else [])
            L.append("SetInt %d %d" % (IL_MAX_QUANT_INDICES, rng.choice([2, 3, 16, 100, 256])))
            L += define(rng, maxpix=40, fmts=COLOURS, maxd=2)[0] + ["Convert %d %d" % (CI, UB), "Convert %d %d" % (IL_RGB, UB)]
            yield "C07.reduce%d" % r, L

@prop
class C08(Prop):
    quick, thorough = 400 * 2, 5000
    technique = "random palettes of all layouts and sizes, indices in and out of range, conversions of palette and image, queries; TLC compares entries and pixels with the specified ones"
    def gen(self, rng):
        L = [obs(rng, "et", "et", "e")]
        w, h, d = dims(rng, 20, 2)
        n = rng.choice([1, 2, 3, 5, 16, 64, 256])
        if n == 256: L.append("MaxData 1100")
        im = Img(w, h, d, CI, UB)
        L += [tex(rng, im, n + (1 if rng.random() < .3 else 0))]
        if rng.random() < .9: L.append(pal(rng, rng.choice(list(PALS)), n))
        for i in range(rng.randrange(2, 8)):
            m = rng.randrange(9)
            if m < 3: L.append("ConvertPal %d" % rng.choice(list(PALS) + [0, IL_PAL_NONE, 9]))
            elif m == 3: L.append(rng.choice([pal(rng, rng.choice(list(PALS)), rng.choice([rng.randrange(1, 20), 256])), "RegPal %d" % IL_PAL_RGB24, "RegPal 0 x:010203", "RegPal %d x:01020304" % IL_PAL_RGB24, "RegPal %d x:" % IL_PAL_RGB24]))
            elif m == 4: L += ["GetInt %d" % k for k in (IL_PALETTE_TYPE, IL_PALETTE_BPP, IL_PALETTE_NUM_COLS, IL_PALETTE_BASE_TYPE)] + ["iluInfo"]
            elif m == 5: L += ["Clone", "Bind 2", "CopyImage 1", "Audit"]
            elif m == 6: L.append("CopyPixels 0 0 0 %d %d %d %d %d" % (w, h, d, rng.choice(COLOURS), rng.choice([UB, UB, IL_UNSIGNED_SHORT])))
            elif m == 7: L += ["Convert %d %d" % (rng.choice(COLOURS), rng.choice([UB, UB, UB] + list(TYP)))]
            else: L.append(tex(rng, Img(w, h, d, CI, UB), n)); L.append(pal(rng, rng.choice(list(PALS)), n))
        return L + ["Audit"]

@prop
class C26(Prop):
    quick, thorough = 400 * 2, 4000
    technique = "random images of every format and type, alpha values and requested types; TLC compares whole images and the returned alpha buffer with the specified ones"
    def gen(self, rng):
        L = [obs(rng, "ei", "ei", "e", "ea")]
        for r in range(rng.randrange(1, 4)):
            L += define(rng, maxd=2, maxbytes=200, fmts=COLOURS)[0]
            for i in range(rng.randrange(1, 5)):
                m = rng.randrange(6)
                if m < 2: L.append("SetAlpha %d" % rng.choice([0, 1, 64, 127, 128, 200, 255, 256, 300, -3]))
                elif m == 2: L.append("ModAlpha %d" % rng.choice([0, 1, 64, 128, 255, 256]))
                elif m < 5: L.append("GetAlpha %d" % rng.choice([UB, UB] + list(TYP)))
                else: L.append("Convert %d %d" % (rng.choice(COLOURS), rng.choice(list(TYP))))
        return L + ["Audit"]

# ---------------------------------------------------------------- files

EXT = {"BMP": "bmp", "TGA": "tga", "PNG": "png", "SGI": "sgi", "PCX": "pcx", "PNM": "ppm", "TIF": "tif", "PSD": "psd", "RAW": "raw"}
LOSSY = {"WBMP": "wbmp", "HDR": "hdr", "DDS": "dds", "VTF": "vtf", "JPG": "jpg"}
TYPE = {T: K["IL_" + T] for T in list(EXT) + list(LOSSY)}
ALLEXT = dict(EXT, **LOSSY)

def runs(rng, im, cols=None):
    """Pixel data with runs of equal pixels, as run length coders like them."""
    sz = FMT[im.f] * TYP[im.t]
    pool = cols or [data(rng, im.f, im.t, 1, 256) for _ in range(rng.choice([1, 2, 3, 40]))]
    out = b""
    n = im.count()
    while n:
        k = min(n, rng.choice([1, 1, 2, 3, 5, 62, 63, 64, 65, 126, 127, 128, 129, 130, 200]))
        if rng.random() < .4:                      # a run of different pixels
            for i in range(k): out += pool[i % len(pool)] if rng.random() < .3 else data(rng, im.f, im.t, 1, 256)
        else: out += rng.choice(pool) * k
        n -= k
    return out

def picture(rng, fmts=None, typs=None, big=0, lim=1500):
    """(lines, Img): a picture to be saved; now and then a wide one (which needs MaxData 2000)."""
    L = []
    if rng.random() < big:
        while True:
            im = Img(rng.choice([63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300]), rng.choice([1, 2, 3]), 1, rng.choice(fmts or list(FMT)), rng.choice(typs or list(TYP)))
            if rng.random() < .2: im.w, im.h = im.h, im.w
            if im.size() <= lim and (im.f != CI or im.t == UB): break
        L += ["TexImage %d %d %d %d %d %d %s" % (im.w, im.h, im.d, FMT[im.f], im.f, im.t, hx(runs(rng, im)))]
        if im.f == CI: L.append(pal(rng, rng.choice(list(PALS)), 256))
    else:
        im = image(rng, fmts=fmts, typs=typs, maxbytes=260)
        n = rng.choice([1, 2, 3, 5, 15, 16, 17, 100, 255, 256])
        if rng.random() < .4: L += ["TexImage %d %d %d %d %d %d %s" % (im.w, im.h, im.d, FMT[im.f], im.f, im.t, hx(runs(rng, im) if im.f != CI else data(rng, im.f, im.t, im.count(), n)))]
        else: L += [tex(rng, im, n)]
        if im.f == CI: L.append(pal(rng, rng.choice(list(PALS)), n))
    if rng.random() < .6: L.append("RegOrigin %d" % rng.choice([UPPER, LOWER]))
    return L, im

def knobs(rng, n=None):
    """Settings that choose among the ways a format can be written."""
    L = []
    for i in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
        m = rng.randrange(9)
        if m < 3: L.append("SetInt %d %d" % (rng.choice([IL_TGA_RLE, IL_SGI_RLE, IL_BMP_RLE]), rng.choice([0, 1, 1])))
        elif m == 3: L.append("Hint %d %d" % (IL_COMPRESSION_HINT, rng.choice([IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE])))
        elif m == 4: L.append("SetInt %d %d" % (IL_PNG_INTERLACE, rng.randrange(2)))
        elif m == 5: L.append("SetInt %d %d" % (IL_TGA_CREATE_STAMP, rng.randrange(2)))
        elif m == 6: L.append("SetString %d s:%s" % (rng.choice([IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING,
                                                             IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING]), "q" * rng.choice([1, 3, 10, 41, 80, 255, 300])))
        elif m == 7: L.append("%s %d" % (rng.choice(["Enable", "Disable"]), IL_SAVE_INTERLACED))
        else: L.append("CompressFunc %d" % rng.choice([IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB]))
    return L

@prop
class C14(Prop):
    quick, thorough = 400 * 2, 6000
    technique = "random pictures of every format, type, origin and palette, saved in every lossless format with every coding option, loaded back under another name; the specification says which formats store what, TLC compares every pixel"
    note = Prop.note
    def gen(self, rng):
        L = [obs(rng, "eto", "eto", "eao"), "Vfs", "Enable %d" % IL_FILE_OVERWRITE]
        big = .5 if rng.random() < .2 else 0
        if big: L.append("MaxData 2000")
        for i in range(rng.randrange(1, 4)):
            T = rng.choice(list(EXT))
            L += ["Bind %d" % rng.choice([1, 1, 3])]
            kw = {}
            m = rng.randrange(4)
            if T in ("PNM", "TIF", "TGA", "BMP", "PCX") and m: kw["typs"] = [UB] if m < 3 else [UB, IL_UNSIGNED_SHORT]
            D, im = picture(rng, big=big, **kw)
            L += D + knobs(rng)
            f = "%s.%s" % (rng.choice("ab"), EXT[T])
            L += ["%s %s %s" % (rng.choice(["Save", "Save", "SaveF"]), TYPE[T], f) if rng.random() < .85 or T == "RAW" else "SaveImage " + f]
            if rng.random() < .3: L.append("Audit")
            if rng.random() < .5: L += ["Bind 2"]
            L += ["Load %d %s" % (TYPE[T], f)]
            if rng.random() < .3:                  # and once more from what was loaded
                T2 = rng.choice(list(EXT))
                L += ["Save %d c.%s" % (TYPE[T2], EXT[T2]), "Load %d c.%s" % (TYPE[T2], EXT[T2])]
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every format, pixel format, channel type
        combos = [(T, f, t) for T in EXT for f in FMT for t in TYP if f != CI or t == UB]
        for k, (T, f, t) in enumerate(combos):
            for v in range(1 if tier == "quick" else 6):
                L = ["obs eto", "Vfs"] + (knobs(rng) if v else [])
                for i, (w, h) in enumerate(((3, 2), (1, 3)) if v == 0 else ((2, 5), (5, 1), (7, 2))):
                    im = Img(w, h, 1, f, t)
                    L += [tex(rng, im, 5)]
                    if f == CI: L.append(pal(rng, rng.choice(list(PALS)), rng.choice([5, 16, 17, 256])))
                    L += ["RegOrigin %d" % (UPPER, LOWER)[(i + k + v) % 2], "Save %d a%d.%s" % (TYPE[T], i, EXT[T]), "Load %d a%d.%s" % (TYPE[T], i, EXT[T])]
                yield "C14.%s.%d.%d.%d" % (T, f, t, v), L
        # long runs and packets, wide rows
        for T in EXT:
            for r in range(6 if tier == "quick" else 60):
                f = rng.choice([f for f in FMT if f != IL_ALPHA])
                L = ["obs eto", "Vfs"] + ["SetInt %d 1" % k for k in (IL_TGA_RLE, IL_SGI_RLE, IL_BMP_RLE) if rng.random() < .7]
                D, im = picture(rng, fmts=[f], typs=[UB], big=1)
                yield "C14.wide.%s%d" % (T, r), ["MaxData 2000"] + L + D + ["Save %d a.%s" % (TYPE[T], EXT[T]), "Bind 2", "Load %d a.%s" % (TYPE[T], EXT[T])]

def anysave(rng, lossless=False):
    T = rng.choice(list(EXT) if lossless or rng.random() < .7 else list(LOSSY))
    return T, TYPE[T], ALLEXT[T]

def stored(rng, f, lossless=False, name=None):
    """(lines, type, file): a file holding a random picture."""
    T, ty, e = anysave(rng, lossless)
    f = "%s.%s" % (f, e)
    D, im = picture(rng, typs=[UB] if rng.random() < .5 else None)
    return D + (knobs(rng) if rng.random() < .3 else []) + ["Save %d %s" % (ty, f)], ty, f

ORDINARY = [K[x] for x in ("IL_TGA", "IL_JPG", "IL_DDS", "IL_PNG", "IL_BMP", "IL_GIF", "IL_HDR", "IL_ICO", "IL_PCX", "IL_PIC", "IL_PNM", "IL_PSD", "IL_SGI", "IL_TIF", "IL_RAW", "IL_WAL", "IL_XPM", "IL_MNG", "IL_SUN", "IL_PSP", "IL_IFF")]
def loadby(rng, ty, f):
    """One way of loading file f."""
    m = rng.randrange(10)
    if m < 3: return "Load %d %s" % (ty, f)
    if m == 3: return "LoadImage " + f
    if m < 7: return "LoadF %d %s %d" % (ty, f, rng.choice([0, 0, 1, 2, 5, 18, 64, 1000, 4097]))
    if m < 9: return "LoadL %d %s" % (ty, f)
    return "%s 0 %s%s" % (rng.choice([("LoadF", " 3"), ("LoadL", ""), ("Load", "")]) and "Load", f, "")

@prop
class C12(Prop):
    quick, thorough = 450 * 2, 6000
    technique = "random pictures in every format that can be written, intact and cut short, loaded and saved through names, handles at any position, memory and callbacks; the specification knows only the contents, so all ways must agree byte for byte and pixel for pixel"
    def gen(self, rng):
        L = [obs(rng, "eto", "eto", "eao"), rng.choice(["Vfs", "Vfs", "RealFs"]), "Enable %d" % IL_FILE_OVERWRITE]
        files = []
        for i in range(rng.randrange(1, 3)):
            D, ty, f = stored(rng, "f%d" % i)
            L += D
            for j in range(rng.randrange(0, 3)):
                L.append(rng.choice(["SaveF %d %s %d" % (ty, f, rng.choice([0, 1, 3, 18, 64, 1000])), "SaveL %d %s -1" % (ty, f), "SaveL %d %s -2" % (ty, f), "Save %d %s" % (ty, f)]))
            files.append((ty, f))
            if rng.random() < .2:
                L.append("Put cut%d.%s x:00" % (i, f[3:]))
                L.append("Trunc %s %d" % (f, rng.choice([-1, -2, -7, 0, 1, 2, 4, 17, 18, 30, 60])))
        if rng.random() < .2: L += ["Enable %d" % rng.choice([IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_CONV_PAL])]
        for i in range(rng.randrange(3, 8)):
            ty, f = rng.choice(files)
            L += ["Bind %d" % rng.choice([1, 2, 3]), loadby(rng, ty, f)]
            if rng.random() < .1: L += ["Save %d g.%s" % (ty, f[3:]), loadby(rng, ty, "g." + f[3:])]
            if rng.random() < .1: L += [rng.choice(["Vfs", "RealFs"])] + stored(rng, "f0")[0]; break
        return L + ["Audit"]

@prop
class C15(Prop):
    quick, thorough = 500 * 2, 6000
    technique = "random pictures saved in every format through size query, memory of every capacity around the announced size, files that exist or not, refused types; TLC compares counts, bytes and what becomes of existing files"
    def gen(self, rng):
        L = [obs(rng, "eo", "eto", "eo")] + rng.choice([["Vfs", "Enable %d" % IL_FILE_OVERWRITE], ["RealFs"], ["RealFs"]])       # whether a file exists is looked up in the real file system
        vfs = L[1] == "Vfs"
        D, im = picture(rng, typs=[UB] if rng.random() < .5 else None)
        L += D + knobs(rng)
        for i in range(rng.randrange(3, 9)):
            T, ty, e = anysave(rng)
            f = "%s.%s" % (rng.choice("ab"), e)
            m = rng.randrange(12)
            if m < 2: L += ["SaveLQ %d" % ty, "SaveL %d %s %d" % (ty, f, rng.choice([-1, -2]))]
            elif m == 2: L += ["SaveL %d %s %d" % (ty, f, rng.choice([0, 1, 10, 17, 18, 44, 54, 128, 200, 5000, 20000]))]
            elif m == 3: L += ["SaveL %d %s -1" % (ty, f)]
            elif m < 7: L += ["Save %d %s" % (ty, f), rng.choice(["Exists " + f, "Save %d %s" % (ty, f), "SaveImage " + f])]
            elif m == 7: L += ["%s %d" % ("Enable" if vfs else rng.choice(["Enable", "Disable"]), IL_FILE_OVERWRITE)]
            elif m == 8:
                ty = rng.choice([IL_TYPE_UNKNOWN, 1, 9999, IL_GIF, IL_PSP, IL_XPM, IL_PIX, IL_ICO, IL_DOOM, IL_EXR, IL_JP2, IL_WDP])
                L.append(rng.choice(["Save %d z.%s" % (ty or 9999, e), "SaveL %d z.x 100" % ty, "SaveLQ %d" % ty, "SaveF %d z.x 0" % ty, "SaveImage z.%s" % rng.choice(["gif", "", "xyz", "jp2", "exr", "png2", "PN", "tgaa"])]) + "")
                L.append("Exists z." + e)
            elif m == 9: L += ["SaveImage %s" % rng.choice([f, f.upper(), "c.%s" % e.upper(), "d.e.%s" % e, "noext", ".%s" % e]), "Exists " + f]
            elif m == 10: L += ["SaveF %d %s %d" % (ty, f, rng.choice([0, 5, 18, 300])), "Exists " + f]
            else: L += picture(rng)[0]
        return L + ["Audit"]
    def extra(self, tier, rng):
        # all capacities around the true size
        for T in ALLEXT:
            for r in range(1 if tier == "quick" else 8):
                L = ["obs eo", "Vfs", "Enable %d" % IL_FILE_OVERWRITE] + picture(rng, fmts=[IL_RGB, IL_RGBA, IL_LUMINANCE, IL_BGR], typs=[UB])[0] + (knobs(rng) if r else [])
                L += ["SaveLQ %d" % TYPE[T], "Save %d a.%s" % (TYPE[T], ALLEXT[T]), "SaveL %d m -1" % TYPE[T], "SaveL %d m -2" % TYPE[T]]
                L += ["SaveL %d m %d" % (TYPE[T], c) for c in list(range(1, 64, 3)) + [80, 100, 120, 127, 128, 129, 160, 200, 300, 500, 511, 512, 513, 1000, 4000]]
                yield "C15.cap.%s%d" % (T, r), L

def name(rng):
    e = rng.choice(["tga", "vda", "icb", "vst", "jpg", "jpe", "jpeg", "jif", "jfif", "jp2", "jpx", "j2k", "j2c", "dds", "png", "bmp", "dib", "gif", "blp", "cut", "ch", "ct", "sct", "dcm", "dicom", "dpx", "exr", "fit", "fits", "ftx", "hdr",
                    "iff", "ilbm", "lbm", "ham", "ico", "cur", "icns", "iwi", "jng", "ktx", "lif", "mdl", "mng", "mp3", "pcd", "pcx", "pic", "pix", "pbm", "pgm", "pnm", "ppm", "pam", "psd", "pdd", "psp", "pxr", "rot", "sgi", "bw", "rgb", "rgba",
                    "sun", "ras", "rs", "im1", "im8", "im24", "im32", "texture", "tif", "tiff", "tpl", "utx", "vtf", "wal", "wbmp", "wdp", "hdp", "xpm", "raw", "pal", "h", "txt", "tg", "tgaa", "pn", "", "x", "jpgx", "xjpg", "ti", "tifff"])
    if rng.random() < .4: e = "".join(rng.choice([c.upper(), c]) for c in e)
    return rng.choice(["a.", "a.b.", "", ".", "dir/a.", "tga/x.", "a.png/x.", "x.tga.", "name.with.many.dots.", "a/b.c/d.", "-"]) + e

@prop
class C16(Prop):
    quick, thorough = 400 * 2, 5000
    technique = "every documented extension in any case and directory, files of every written format under right and wrong names, cut short, and contents without a signature; TLC compares detected types and validity by name, handle and memory"
    def gen(self, rng):
        L = [obs(rng, "eo", "e", "eto"), rng.choice(["Vfs", "Vfs", "RealFs"]), "Enable %d" % IL_FILE_OVERWRITE]
        for i in range(rng.randrange(0, 8)): L.append("TypeFromExt " + name(rng))
        files = []
        for i in range(rng.randrange(1, 4)):
            if rng.random() < .75:
                T, ty, e = anysave(rng)
                f = "%s%d.%s" % (rng.choice("ab"), i, rng.choice([e, e, "dat", rng.choice(list(ALLEXT.values()))]))
                L += picture(rng, typs=[UB])[0] + (knobs(rng) if rng.random() < .3 else []) + ["Save %d %s" % (ty, f)]
                if rng.random() < .15: L.append("Trunc %s %d" % (f, rng.choice([0, 1, 2, 3, 4, 9, 10, 17, 18, 30, 100, -1])))
            else:
                f = "p%d.%s" % (i, rng.choice(["dat", "png", "tga", "x"]))
                n = rng.choice([0, 1, 2, 3, 4, 7, 17, 18, 19, 40, 128, 132, 200])
                b = bytes(rng.choice([0, 1, 17, 60, 200, rng.randrange(256)]) for _ in range(n))
                L.append("Put %s %s" % (f, hx(b)))
            files.append(f)
        for i in range(rng.randrange(4, 14)):
            f = rng.choice(files)
            m = rng.randrange(8)
            ty = rng.choice(ORDINARY + [IL_TIF, IL_BLP, IL_DICOM, IL_ICNS, IL_IWI, IL_ILBM, IL_KTX, IL_LIF, IL_MDL, IL_MP3, IL_SCITEX, IL_TPL, IL_VTF, 9999, IL_DOOM])
            if m < 2: L.append("Det " + f)
            elif m == 2: L.append("DetF 0 %s %d" % (f, rng.choice([0, 0, 1, 18, 333])))
            elif m == 3: L.append("DetL 0 " + f)
            elif m < 6: L.append("IsValid %d %s" % (ty, f))
            elif m == 6: L.append("IsValidF %d %s %d" % (ty, f, rng.choice([0, 0, 1, 18, 333])))
            else: L.append("IsValidL %d %s" % (ty, f))
        L += ["Det missing", "IsValid %d missing.bmp" % IL_BMP] if rng.random() < .2 else []
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every format against every validity check, by all three ways
        VAL = [K["IL_" + x] for x in "BMP DDS HDR JPG PCX PNG PNM PSD SGI TIF VTF TGA BLP DICOM GIF ICNS IWI ILBM KTX LIF MDL MP3 PIC PSP SCITEX SUN TPL XPM RAW CUT".split()]
        for T in ALLEXT:
            for r in range(1 if tier == "quick" else 5):
                L = ["obs eo", "Vfs"] + picture(rng, fmts=[IL_RGB, IL_RGBA, IL_LUMINANCE, IL_BGR], typs=[UB])[0] + ["Save %d a.dat" % TYPE[T], "Det a.dat", "DetF 0 a.dat 7", "DetL 0 a.dat"]
                for v in VAL: L += ["IsValid %d a.dat" % v, "IsValidF %d a.dat %d" % (v, rng.choice([0, 9])), "IsValidL %d a.dat" % v]
                yield "C16.all.%s%d" % (T, r), L

@prop
class C13(Prop):
    quick, thorough = 500 * 2, 8000
    technique = "loads and saves of every format by name and handle through callbacks that fail at a chosen read, write or opening; TLC checks that opens and closes balance, nothing is used after closing, and only the current image suffers"
    def gen(self, rng):
        L = [obs(rng, "eao", "eao", "eto"), "Vfs", "Enable %d" % IL_FILE_OVERWRITE]
        files = []
        for i in range(rng.randrange(1, 4)):
            D, ty, f = stored(rng, "f%d" % i)
            L += D
            files.append((ty, f))
            if rng.random() < .15: L.append("Trunc %s %d" % (f, rng.choice([0, 1, 5, 18, 30, -1, -3])))
        L += ["Bind 2"] + define(rng)[0]
        for i in range(rng.randrange(3, 9)):
            ty, f = rng.choice(files)
            m = rng.randrange(12)
            L.append("Bind %d" % rng.choice([1, 2, 3]))
            fault = rng.random() < .6
            if fault: L.append(rng.choice(["FailIo %d %d" % (rng.choice([1, 2, 3, 4, 5, 8, 10, 15, 20, 40, 80]), rng.randrange(2)), "FailIo %d %d" % (rng.randrange(1, 120), rng.randrange(2)), "FailOpen 1"]))
            if m < 3: L.append("Load %d %s" % (ty, f))
            elif m == 3: L.append("LoadImage " + f)
            elif m == 4: L.append("LoadF %d %s %d" % (ty, f, rng.choice([0, 7])) if not (fault and L[-1] == "FailOpen 1") else "Load %d %s" % (ty, f))
            elif m < 7: L.append("Save %d %s" % (anysave(rng)[1], "s.dat"))
            elif m == 7: L.append("SaveF %d s.dat 0" % anysave(rng)[1] if not (fault and L[-1] == "FailOpen 1") else "Save %d s.dat" % anysave(rng)[1])
            elif m == 8: L.append("Det " + f)
            elif m == 9: L.append("IsValid %d %s" % (ty, f))
            elif m == 10: L.append("Load %d missing.%s" % (ty, rng.choice(["png", "x"])))
            else: L.append(rng.choice(["SaveData s.dat", "LoadData %s 2 2 1 3" % f, "Save %d s.dat" % IL_GIF, "LoadImage nothing.tga", "Load %d %s" % (rng.choice(ORDINARY), f)]))
            if fault: L += ["IoInfo", "FailOpen 0"]
        return L + ["Load %d %s" % files[0], "Audit", "Handles"] if False else L + ["Load %d %s" % files[0], "Audit"]
    def extra(self, tier, rng):
        # a fault at each point of loading and saving each format
        for T in ALLEXT:
            for kind in (0, 1):
                for what in ("Load", "Save", "LoadF"):
                    D = picture(rng, fmts=[IL_RGB, IL_LUMINANCE, IL_BGR], typs=[UB])[0]
                    L = ["obs eao", "Vfs", "Enable %d" % IL_FILE_OVERWRITE] + D + ["Save %d a.%s" % (TYPE[T], ALLEXT[T]), "Clone", "Bind 2"]
                    ks = list(range(1, 16)) + [20, 25, 30, 40, 60, 100, 200]
                    for k in ks if tier == "quick" else range(1, 150):
                        L += ["FailIo %d %d" % (k, kind)]
                        if what == "Save": L += ["Bind 1", "Save %d b.%s" % (TYPE[T], ALLEXT[T])]
                        elif what == "Load": L += ["Load %d a.%s" % (TYPE[T], ALLEXT[T])]
                        else: L += ["LoadF %d a.%s 5" % (TYPE[T], ALLEXT[T])]
                        L += ["IoInfo"]
                    yield "C13.each.%s.%s%d" % (T, what, kind), L + ["Load %d a.%s" % (TYPE[T], ALLEXT[T]), "Audit"]

SEEDS = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.txt")):
    _t, _h = _l.split()
    SEEDS.setdefault(int(_t), []).append(bytes.fromhex(_h))

def damage(rng, n):
    """Commands (without the file's name) that spoil a file of about n bytes."""
    m = rng.randrange(5)
    if m < 2: return [("Trunc", rng.choice([rng.randrange(0, n + 1), -1, -2, -5, n // 2, n // 3, max(0, n - rng.randrange(1, 9))]))]
    return [("Poke", rng.choice([rng.randrange(0, min(n, 24)), rng.randrange(0, min(n, 140)), rng.randrange(0, n)]),
             rng.choice([0, 1, 2, 3, 4, 8, 16, 24, 32, 127, 128, 254, 255, 255, rng.randrange(256)])) for i in range(rng.choice([1, 1, 2, 3, 6]))]

def spoil(b, cmds):
    b = bytearray(b)
    for q in cmds:
        if q[0] == "Trunc": b = b[:q[1]] if q[1] >= 0 else b[:max(0, len(b) + q[1])]
        elif q[1] < len(b): b[q[1]] = q[2]
    return bytes(b)

@prop
class C17(Prop):
    quick, thorough = 450 * 2, 12000
    technique = "files of every loadable format, saved by the library or kept as seeds, cut and overwritten at random, loaded by name, handle and memory amid other images; TLC checks refusal with an error or a well-formed image, the other images, and later intact loads"
    def gen(self, rng, T=None):
        real = rng.random() < .15
        L = [obs(rng, "eao", "eto", "eto"), "RealFs" if real else "Vfs", "Enable %d" % IL_FILE_OVERWRITE]
        # an intact file of some format, another image
        D, ty, f = stored(rng, "ok")
        L += D + ["Bind 2"] + define(rng)[0]
        if rng.random() < .4: L += ["Load %d %s" % (ty, f)]
        if rng.random() < .15: L += normalise(rng)
        for i in range(rng.randrange(2, 6)):
            L.append("Bind %d" % rng.choice([1, 2, 3]))
            if rng.random() < .1: L += ["Sub %d 1" % rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP])]
            g = "bad%d" % i
            m = rng.randrange(4)
            if m == 0:                                # something the library wrote
                E, t, g2 = stored(rng, g)
                L += E
                for k in range(rng.randrange(1, 4)):
                    L += ["%s %s %s" % (q[0], g2, " ".join(map(str, q[1:]))) for q in damage(rng, rng.choice([60, 100, 200, 400]))]
                    L += [loadby(rng, t, g2)]
                continue
            t = T or rng.choice(list(SEEDS))
            b = rng.choice(SEEDS[t])
            if m > 1: b = spoil(b, damage(rng, max(1, len(b))))
            g2 = g + rng.choice([".dat", ".png", "", ".x"])
            L.append("Put %s %s" % (g2, hx(b) if b else "x:"))
            L.append(rng.choice(["Load %d %s", "LoadF %d %s 3", "LoadL %d %s", "LoadL %d %s"]) % (t, g2))
            if rng.random() < .3: L.append(rng.choice(["LoadF %d %s 0", "LoadL %d %s", "Load %d %s"]) % (t, g2))
            if rng.random() < .1: L.append("Det " + g2)
            if rng.random() < .2: L.append(rng.choice(["Clone", "Convert %d %d" % (rng.choice([IL_RGBA, IL_LUMINANCE]), UB), "Clear", "Save %d use.png" % IL_PNG, "TexImage 2 2 1 3 %d %d" % (IL_RGB, UB)]))
            if rng.random() < .2: L.append("Load %d %s" % (ty, f))
        return L + ["Bind 3", "Load %d %s" % (ty, f), "Audit"]
    def extra(self, tier, rng):
        # every seed as it is, through memory and a handle
        for t in SEEDS:
            for k in range(0, len(SEEDS[t]), 6):
                L = ["obs eto", "Vfs"]
                for b in SEEDS[t][k:k + 6]:
                    L += ["Put f.dat " + hx(b), "LoadL %d f.dat" % t, "Load %d f.dat" % t]
                yield "C17.seed.%d.%d" % (t, k), L + ["Audit"]
        # the library's own files: every truncation point (or many), every header byte spoilt
        for T in ALLEXT:
            for r in range(1 if tier == "quick" else 12):
                D = picture(rng, fmts=[IL_RGB, IL_RGBA, IL_LUMINANCE, IL_BGR, CI], typs=[UB])[0] + (knobs(rng) if r else [])
                L = ["obs et", "Vfs", "Enable %d" % IL_FILE_OVERWRITE] + D + ["Save %d a.dat" % TYPE[T], "Save %d b.dat" % TYPE[T], "Bind 2"]
                cut = L + ["Load %d a.dat" % TYPE[T]]
                for n in range(1, 26 if tier == "quick" else 80): cut += ["Trunc a.dat -%d" % rng.choice([1, 1, 1, 2, 3, 7, 20]), "LoadL %d a.dat" % TYPE[T]]
                yield "C17.cut.%s%d" % (T, r), cut + ["Load %d b.dat" % TYPE[T], "Audit"]
                pk = L + ["Load %d a.dat" % TYPE[T]]
                for n in (rng.sample(range(0, 64), 20) if tier == "quick" else range(0, 128)):
                    pk += ["Save %d a.dat" % TYPE[T], "Poke a.dat %d %d" % (n, rng.choice([0, 1, 255, 128, rng.randrange(256)])), "Bind 3", "LoadL %d a.dat" % TYPE[T], "Bind 1"]
                yield "C17.poke.%s%d" % (T, r), pk + ["Bind 2", "Load %d b.dat" % TYPE[T], "Audit"]

@prop
class C19(Prop):
    quick, thorough = 300 * 2, 3000
    technique = "registering, removing and using handlers for built-in, foreign and case-varied extensions, with failing and succeeding handlers; TLC compares who was called, in which order, and with what outcome"
    def gen(self, rng):
        L = [obs(rng, "eto", "eao", "e"), rng.choice(["Vfs", "RealFs"]), "Enable %d" % IL_FILE_OVERWRITE]
        exts = rng.sample(["foo", "bar", "tga", "png", "xyz", "f", "raw", "PNG", "bmp", "longextension", "Foo", "jp2", "gif"], 4)
        v = lambda e: "".join(rng.choice([c.upper(), c.lower(), c]) for c in e) if rng.random() < .5 else e
        L += picture(rng, fmts=[IL_RGB, IL_LUMINANCE], typs=[UB])[0] + ["Save %d a.png" % IL_PNG, "Save %d b.dat" % IL_BMP]
        for e in exts:
            if rng.random() < .5: L.append("Put q.%s x:%s" % (e, bytes([1, 2, 3, 60, 61, 62]).hex()))
            elif rng.random() < .5: L.append("Save %d q.%s" % (rng.choice([IL_BMP, IL_PNG, IL_TGA]), e))
        for i in range(rng.randrange(5, 18)):
            m = rng.randrange(10); e = rng.choice(exts)
            if m < 2: L.append("RegLoad %s %d" % (v(e), rng.randrange(0, 6)))
            elif m == 2: L.append("RegSave %s %d" % (v(e), rng.randrange(0, 6)))
            elif m == 3: L.append("%s %s" % (rng.choice(["RemLoad", "RemLoad", "RemSave"]), v(e)))
            elif m == 4: L.append("ProcRet %d %d" % (rng.randrange(0, 6), rng.choice([0, 0, IL_INVALID_FILE_HEADER, IL_FILE_READ_ERROR])))
            elif m < 8: L += [rng.choice(["LoadImage q.%s", "Load 0 q.%s", "LoadImage q.%s"]) % v(e) if rng.random() < .2 else "LoadImage q." + e]
            elif m == 8: L += [rng.choice(["SaveImage z.%s" % v(e), "Save 0 z.%s" % v(e), "Exists z.%s" % e])]
            else: L.append(rng.choice(["LoadImage a.png", "LoadImage b.dat", "Load %d a.png" % IL_PNG, "ProcLog", "Bind 2", "Load %d q.%s" % (IL_BMP, e), "LoadImage missing." + e, "LoadImage noext"]))
            if rng.random() < .3: L.append("ProcLog")
        return L + ["ProcLog", "Audit"]
    def extra(self, tier, rng):
        # every short history of registering and removing, then everything used
        for kind in ("Load", "Save"):
            acts = ["Reg%s %s %d" % (kind, e, k) for e, k in (("foo", 1), ("bar", 2), ("tga", 3))] + ["Rem%s %s" % (kind, e) for e in ("foo", "bar", "tga")]
            use = ["LoadImage q.foo", "LoadImage q.bar", "LoadImage q.tga"] if kind == "Load" else ["SaveImage z.foo", "SaveImage z.bar", "SaveImage z.tga"]
            n = 0
            for k in (3, 4) if tier == "quick" else (3, 4, 5):
                for h in itertools.product(acts, repeat=k):
                    if k > 3 and (h[0].startswith("Rem") or (k == 4 and tier == "quick" and rng.random() < .8)): continue
                    n += 1
                    yield ("%s%d" % (kind[0], n), ["obs eo", "Vfs", "Enable %d" % IL_FILE_OVERWRITE, "TexImage 2 1 1 1 %d %d x:0102" % (IL_LUMINANCE, UB), "Save %d q.tga" % IL_TGA, "Put q.foo x:01", "Put q.bar x:02"]
                           + list(h) + use + ["ProcLog", "Audit"])

def normalise(rng, n=None):
    L = []
    for i in range(rng.randrange(1, 4) if n is None else n):
        m = rng.randrange(5)
        on = rng.choice(["Enable", "Enable", "Disable"])
        if m == 0: L += ["%s %d" % (on, IL_ORIGIN_SET), "OriginFunc %d" % rng.choice([UPPER, LOWER])]
        elif m == 1: L += ["%s %d" % (on, IL_FORMAT_SET), "FormatFunc %d" % rng.choice([IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA])]
        elif m == 2: L += ["%s %d" % (on, IL_TYPE_SET), "TypeFunc %d" % rng.choice(list(TYP))]
        elif m == 3: L += ["%s %d" % (on, IL_CONV_PAL)]
        else: L += [rng.choice(["Enable", "Disable"]) + " %d" % IL_DEFAULT_ON_FAIL]
    return L

@prop
class C20(Prop):
    quick, thorough = 500 * 2, 6000
    technique = "files of every written format first loaded plainly, then under every combination of the normalise settings; the specification computes the normalised image from the plain one, TLC compares every pixel"
    def gen(self, rng):
        L = [obs(rng, "eto", "eto", "eao"), "Vfs", "Enable %d" % IL_FILE_OVERWRITE]
        files = []
        for i in range(rng.randrange(1, 4)):
            D, ty, f = stored(rng, "f%d" % i, lossless=rng.random() < .7)
            L += D + ["Load %d %s" % (ty, f)]
            files.append((ty, f))
        for i in range(rng.randrange(3, 9)):
            L += normalise(rng)
            ty, f = rng.choice(files)
            L += [rng.choice(["Load %d %s" % (ty, f), "Load %d %s" % (ty, f), "LoadL %d %s" % (ty, f), "LoadF %d %s 3" % (ty, f)])]
            if rng.random() < .1: L += ["Load %d missing" % ty]
            if rng.random() < .1: L += ["Disable %d" % k for k in (IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_CONV_PAL)] + ["Load %d %s" % (ty, f)]
        return L + ["Audit"]
    def extra(self, tier, rng):
        k = 0
        for f0 in FMT:
            for org in (0, UPPER, LOWER):
                for fm in (0, IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA):
                    for cp in (0, 1):
                        k += 1
                        if tier == "quick" and rng.random() < .5: continue
                        T = rng.choice(["PNG", "TGA", "BMP", "SGI", "TIF", "PSD"])
                        im = Img(3, 2, 1, f0, UB)
                        L = ["obs eto", "Vfs", tex(rng, im, 5)] + ([pal(rng, rng.choice(list(PALS)), 16)] if f0 == CI else [])
                        L += ["Save %d a.x" % TYPE[T], "Load %d a.x" % TYPE[T]]
                        if org: L += ["Enable %d" % IL_ORIGIN_SET, "OriginFunc %d" % org]
                        if fm: L += ["Enable %d" % IL_FORMAT_SET, "FormatFunc %d" % fm]
                        if cp: L += ["Enable %d" % IL_CONV_PAL]
                        t = rng.choice([0, 0] + list(TYP))
                        if t: L += ["Enable %d" % IL_TYPE_SET, "TypeFunc %d" % t]
                        yield "C20.m%d" % k, L + ["Load %d a.x" % TYPE[T], "LoadImage a.x", "Audit"]
        # files holding more than one image: every level of every face is normalised
        for k in range(40 if tier == "quick" else 300):
            form = rng.choice(foreign.DDS_FORMS)
            faces = rng.choice([(), (), foreign.FACES, foreign.FACES[:2], foreign.FACES[3:4], foreign.FACES[1:5]])
            b = foreign.dds(rng, form, None, rng.choice([1, 2, 4, 5, 8]), rng.choice([1, 2, 3, 8]), 1 if faces else rng.choice([1, 1, 2, 4]), rng.choice([0, 1, 2, 3, 4]) if len(faces) < 5 else rng.choice([1, 2, 3]), faces)
            L = ["MaxData 6000", "obs et", "Vfs", "Put a.dds " + hx(list(b)), "Load %d a.dds" % TYPE["DDS"]]
            for j in range(3): L += normalise(rng) + ["Load %d a.dds" % TYPE["DDS"]]
            yield "C20.t%d" % k, L + ["Audit"]

def alien(rng, T):
    """A file of type T as another program may have written it."""
    if T != "DDS": return foreign.FOREIGN[T](rng)
    form, cc = rng.choice([(rng.choice(foreign.DDS_FORMS), None), (None, rng.choice(foreign.DDS_CODES))])
    faces = rng.choice([(), (), (), foreign.FACES, foreign.FACES[:2], foreign.FACES[3:4], foreign.FACES[1:5]])
    return foreign.dds(rng, form, cc, foreign.side(rng), foreign.side(rng), 1 if faces else rng.choice([1, 1, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3]), faces)
@prop
class C29(Prop):
    quick, thorough = 500 * 2, 12000
    technique = "files of nineteen formats composed from their public descriptions, the way other programs write them (bit depths, codings, masks, palettes, mipmaps, faces, frames the savers never use); the specification decodes the same bytes and TLC compares every pixel of what was loaded by name, by handle, from memory"
    note = Prop.note
    def load(self, rng, T, f):
        return loadby(rng, K["IL_" + T], f)
    def gen(self, rng):
        L = ["MaxData 6000", obs(rng, "eto", "eto", "eao"), "Vfs"]
        for i in range(rng.randrange(1, 3)):
            T = rng.choice(list(foreign.FOREIGN))
            ty, e, b = K["IL_" + T], ALLEXT.get(T, T.lower()), alien(rng, T)
            if len(b) > 5500: continue
            f = "%s.%s" % (rng.choice("ab"), e)
            L += ["Bind %d" % rng.choice([1, 2]), "Put %s %s" % (f, hx(list(b)))]
            if rng.random() < .3: L.append(rng.choice(["Det %s", "DetF 0 %s 0", "DetL 0 %s"]) % f)
            if rng.random() < .2: L.append(rng.choice(["IsValid %d %s", "IsValidL %d %s"]) % (ty, f))
            L.append(self.load(rng, T, f))
            if rng.random() < .3: L += ["Bind 2", self.load(rng, T, f)]
            if rng.random() < .3: L += normalise(rng) + ["Load %d %s" % (ty, f)] + ["Disable %d" % k for k in (IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_CONV_PAL)]
            if rng.random() < .3: L += ["Enable %d" % IL_FILE_OVERWRITE, "Save %d c.png" % TYPE["PNG"], "Load %d c.png" % TYPE["PNG"]]
        return L + ["Audit"]
    def extra(self, tier, rng):
        for T in foreign.FOREIGN:
            for k in range(30 if tier == "quick" else 400):
                b = alien(rng, T)
                if len(b) > 5500: continue
                ty, f = K["IL_" + T], "a.%s" % ALLEXT.get(T, T.lower())
                yield "C29.%s%d" % (T, k), ["MaxData 6000", "obs et", "Vfs", "Put %s %s" % (f, hx(list(b))), "Load %d %s" % (ty, f), self.load(rng, T, f), "Audit"]

DXT = [IL_DXT1, IL_DXT1A, IL_DXT3, IL_DXT5]
DXT_MADE = DXT + [IL_3DC, IL_RXGB, IL_ATI1N]
def five(rng): v = rng.randrange(32); return v << 3 | v >> 2
def six(rng): v = rng.randrange(64); return v << 2 | v >> 4
def texel(rng):
    m = rng.random()
    c = [five(rng), six(rng), five(rng)] if m < .85 else [rng.randrange(256) for _ in range(3)]
    return c + [rng.choice([255, 255, 255, 0, 17 * rng.randrange(16), rng.randrange(256)])]
# An image whose 4x4 blocks, counted from the upper left, are mostly of one colour.
def blocky(rng, w, h, d, f, lower, t=None):
    t = t or IL_UNSIGNED_BYTE
    opaque = rng.random() < .5
    blk = {}
    def at(x, y, z):
        k = (x // 4, y // 4, z)
        if k not in blk: blk[k] = None if rng.random() < .1 else texel(rng)
        c = list(blk[k] or texel(rng))
        if opaque: c[3] = 255
        return c
    out = []
    for z in range(d):
        rows = []
        for y in range(h):
            row = []
            for x in range(w):
                r, g, b, a = at(x, y, z)
                row += {IL_RGB: [r, g, b], IL_BGR: [b, g, r], IL_RGBA: [r, g, b, a], IL_BGRA: [b, g, r, a], IL_LUMINANCE: [r], IL_LUMINANCE_ALPHA: [r, a], IL_ALPHA: [a], CI: [r % 4]}[f]
            rows.append(row)
        if lower: rows.reverse()
        for r in rows: out += r
    if t == IL_UNSIGNED_SHORT: out = [v for v in out for _ in range(2)]
    return "TexImage %d %d %d %d %d %d %s" % (w, h, d, FMT[f], f, t, hx(out))
def dxsize(f, w, h, d): return (w + 3) // 4 * ((h + 3) // 4) * d * (8 if f in (IL_DXT1, IL_DXT1A, IL_ATI1N) else 16)
def blocks(rng, f, n):
    b = [rng.randrange(256) for _ in range(n)]
    if rng.random() < .3:                                 # extreme endpoints
        for i in range(0, n, 8): b[i:i + 4] = rng.choice([[0, 0, 0, 0], [255, 255, 255, 255], [255, 255, 0, 0], [0, 0, 255, 255], [b[i], b[i + 1]] * 2, [0, 248, 31, 0], [224, 7, 16, 132]])
    return b

def filter_step(rng, im):
    m = rng.randrange(24)
    if m < 3: return "iluPixelize %d" % rng.choice([0, 1, 2, 2, 3, 3, 4, 7, 100, 4294967295])
    if m < 5: return "iluBlurAvg %d" % rng.choice([0, 1, 1, 1, 2, 3])
    if m < 7: return "iluBlurGauss %d" % rng.choice([0, 1, 1, 1, 2, 3])
    if m < 8: return "iluEmboss"
    if m < 9: return "iluEdgeE"
    if m < 10: return "iluEdgeP"
    if m < 11: return "iluEdgeS"
    if m < 13: return "iluSharpen %d %d" % (rng.choice([0, 128, 256, 300, 512, 640, -100]), rng.choice([0, 1, 1, 2, 3]))
    if m < 14: return "iluAlienify"
    if m < 16: return "iluEqualize"
    if m < 17: return "iluSepia"
    if m < 18: return "iluNoisify %d" % rng.choice([0, 1, 3, 32, 64, 128, 256, 300, -20])
    if m < 20: return "iluWave %d" % rng.choice([0, 1, 3, 5, 20, 45, 90, -4, rng.randrange(-400, 400)])
    k = [rng.choice([0, 0, 1, 1, 2, 3, -1, -2, 5]) for _ in range(9)]
    if rng.random() < .2: k = [0] * 9; k[rng.randrange(9)] = rng.choice([1, 1, 2, -1])      # a shift
    return "iluConv %s %d %d" % (" ".join(map(str, k)), rng.choice([1, 1, 2, 3, 9, -2, 5, 1000] + [0] * (rng.random() < .2)), rng.choice([0, 0, 1, 128, -30, rng.randrange(-300, 300)]))

@prop
class C30(Prop):
    technique = "MC_Filter: all short histories of filters on small images, with symmetry and locality checked on the specification, replayed; random histories over formats, types, palettes, depths, regions and arguments, each byte computed by the specification; systematic sizes"
    quick, thorough = 500 * 2, 7000
    def models(self, tier): return [M("MC_Filter", None if tier == "quick" else "MC_Filter_deep", n=1200 if tier == "quick" else None, head=["obs et"])]
    def gen(self, rng):
        L = [obs(rng, "et", "ea")]
        small = rng.random() < .65
        D, im = target(rng, maxd=3 if rng.random() < .3 else 1, maxbytes=120, maxpix=40, typs=[UB, UB, UB, IL_BYTE] if small else None)
        L += D
        if rng.random() < .35: L.append(region(rng, im))
        for i in range(rng.randrange(1, 4)):
            L.append(filter_step(rng, im))
            if rng.random() < .1: L.append(rng.choice(["iluRegionI", "iluMirror", "iluFlip", "iluNegative"]))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every small size, every filter
        ops = ["iluPixelize 2", "iluPixelize 3", "iluBlurAvg 1", "iluBlurGauss 1", "iluEmboss", "iluEdgeE", "iluEdgeP", "iluEdgeS", "iluSharpen 512 1", "iluWave 20", "iluWave -77", "iluNoisify 64", "iluEqualize",
               "iluConv 1 2 3 4 5 6 7 8 9 45 0", "iluConv 0 0 0 0 0 0 0 0 1 1 0", "iluConv 0 0 0 0 0 1 0 0 0 1 0", "iluConv 0 0 1 0 0 0 -1 0 0 1 5"]
        for w in (1, 2, 3, 4, 6):
            for h in (1, 2, 3, 5):
                for i, op in enumerate(ops):
                    if tier == "quick" and rng.random() < .6: continue
                    f, t = rng.choice([(IL_RGB, UB), (IL_BGRA, UB), (IL_LUMINANCE, UB), (IL_LUMINANCE, UB), (IL_LUMINANCE_ALPHA, UB), (IL_BGR, IL_UNSIGNED_SHORT), (CI, UB), (IL_LUMINANCE, IL_FLOAT), (IL_ALPHA, UB), (IL_RGB, IL_UNSIGNED_INT)])
                    im = Img(w, h, rng.choice([1, 1, 1, 2]), f, t)
                    L = ["obs et", "MaxData 1500", tex(rng, im, 4)] + ([pal(rng, rng.choice(list(PALS)), 4)] if f == CI else [])
                    if rng.random() < .3: L.append(region(rng, im))
                    if rng.random() < .3: L += ["Sub %d 1" % IL_SUB_NEXT]
                    yield "C30.size%d.%d.%d" % (w, h, i), L + [op, "Audit"]
        # one colour stays one colour
        for op in ops:
            if "Noisify" in op or "Conv" in op: continue
            for f in FMT:
                if tier == "quick" and rng.random() < .5: continue
                im = Img(rng.randrange(1, 9), rng.randrange(1, 6), 1, f, UB)
                yield "C30.flat.%d.%s" % (f, op.replace(" ", "_")), ["obs et", "MaxData 1500", flat_image(rng, im)] + ([pal(rng, IL_PAL_RGB24, 4)] if f == CI else []) + [op]
        # long rows: where waves go further than rows are wide, and where they do not
        for r in range(12 if tier == "quick" else 80):
            im = Img(rng.choice([44, 45, 46, 60, 90, 100]), rng.randrange(1, 5), 1, rng.choice([IL_LUMINANCE, IL_RGB, CI]), UB)
            yield "C30.wave%d" % r, ["obs et", "MaxData 2000", tex(rng, im, 4)] + ([pal(rng, IL_PAL_RGB24, 4)] if im.f == CI else []) + ["iluWave %d" % rng.randrange(-200, 200), "iluWave %d" % rng.randrange(0, 40)]

@prop
class C27(Prop):
    technique = "random histories of compressing, decompressing, flipping and inverting block data of all formats, sizes and settings, with exact-size and smaller buffers under a memory checker; the specification decodes every byte of the blocks and computes which blocks survive compression, TLC compares pixels and bytes"
    quick, thorough = 700 * 2, 9000
    def gen(self, rng):
        L = [obs(rng, "eti"), "MaxData 1500"]
        if rng.random() < .25: L.append("Enable %d" % IL_SQUISH_COMPRESS)
        if rng.random() < .1: L += ["Enable %d" % IL_ORIGIN_SET, "OriginFunc %d" % rng.choice([UPPER, LOWER])]
        if rng.random() < .07: L += ["Enable %d" % IL_FORMAT_SET, "FormatFunc %d" % rng.choice([IL_RGB, IL_BGRA, IL_LUMINANCE])]
        dims = lambda: (rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13]), rng.choice([1, 2, 3, 4, 4, 5, 8, 8, 11]), rng.choice([1, 1, 1, 1, 2, 3]))
        for rnd in range(rng.randrange(1, 3)):
            w, h, d = dims()
            while w * h * d > 150: w, h, d = dims()
            m = rng.random()
            if m < .45:
                f = rng.choice([IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, CI])
                lower = rng.random() < .6
                L.append(blocky(rng, w, h, d, f, lower, IL_UNSIGNED_SHORT if f != CI and rng.random() < .12 else None))
                if f == CI: L.append("RegPal %d %s" % (IL_PAL_RGB24, hx([v for _ in range(4) for v in (five(rng), six(rng), five(rng))])))
                if not lower: L.append("RegOrigin %d" % UPPER)
                fm = rng.choice(DXT_MADE + DXT)
                k = rng.randrange(5)
                if k == 0: L.append("GetDXTC %d" % fm)
                elif k == 1: L.append("GetDXTC %d %d" % (fm, rng.randrange(0, dxsize(fm, w, h, d) + 1)))
                else:
                    L += ["Surf2Dxtc %d" % fm, "DxtcInfo"]
                    if rng.random() < .4: L.append("GetDXTC %d" % fm)
                    if rng.random() < .2: L.append("GetDXTC %d %d" % (fm, rng.randrange(0, dxsize(fm, w, h, d))))
                    if rng.random() < .2: L.append("GetDXTC %d" % rng.choice(DXT_MADE))
            elif m < .85:
                fm = rng.choice(DXT * 3 + [IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT2])
                L.append("TexDxtc %d %d %d %d %s" % (w, h, d, fm, hx(blocks(rng, fm, dxsize(fm, w, h, d)))))
                L.append("DxtcInfo")
                if rng.random() < .3: L.append("GetDXTC %d" % fm)
            elif m < .93:
                f = rng.choice(DXT)
                im = blocky(rng, w, h, d, IL_RGBA, False).split()
                L.append("CompressDXT %d %d %d %d %s" % (w, h, d, f, im[-1]))
                continue
            elif m < .96:
                L += [rng.choice(["TexDxtc 4 4 1 1803", "TexDxtc -1 4 1 1798", "TexDxtc 0 0 0 1798 x:0001020304050607", "Surf2Dxtc 77", "GetDXTC 1799", "Dxtc2Surf", "FlipDxtc", "InvDxtcAlpha",
                                  "TexDxtc 65536 65536 1 1798", "CompressDXT 0 4 1 1798 x:00", "CompressDXT 4 4 1 1806 r:1:64", "GetDXTC 1803", "TexDxtc 4 4 1 1800"])]
            else:
                fm = rng.choice(DXT)
                L += [blocky(rng, w, h, 1, IL_RGBA, True), "Sub %d %d" % (IL_SUB_NEXT, rng.randrange(1, 3)), "ActN 1", blocky(rng, 5, 3, 1, IL_RGB, True).replace("TexImage", "TexSurf")]
                if rng.random() < .5: L += ["Bind 1", "ActN 1", "Sub %d 1" % IL_SUB_MIPMAP, "ActM 1", blocky(rng, 2, 2, 1, IL_BGRA, True).replace("TexImage", "TexSurf")]
                if rng.random() < .5: L.append("Bind 1")
                L += ["Img2Dxtc %d" % fm, "Dxtc2Img"]
                if rng.random() < .5: L += ["Bind 1", "ActN 1", "DxtcInfo", "GetDXTC %d" % fm, "Dxtc2Surf", "Bind 1"]
                continue
            for _ in range(rng.randrange(0, 4)):
                L.append(rng.choice(["Dxtc2Surf", "Dxtc2Surf", "FlipDxtc", "InvDxtcAlpha", "DxtcInfo", "Dxtc2Img"]))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every code of every block kind, around the order of the end points
        for i in range(60 if tier == "quick" else 600):
            f = [IL_DXT1, IL_DXT3, IL_DXT5][i % 3]
            b = blocks(rng, f, dxsize(f, 8, 4, 1))
            yield "C27.codes%d" % i, ["obs et", "MaxData 1500", "TexDxtc 8 4 1 %d %s" % (f, hx(b)), "Dxtc2Surf", "InvDxtcAlpha", "FlipDxtc", "Dxtc2Surf"]
        # every representable level of each channel
        for k in range(8 if tier == "quick" else 64):
            lv = [[(v << 3 | v >> 2), six(rng), five(rng), 255] for v in range(32)] + [[five(rng), v << 2 | v >> 4, five(rng), 255] for v in range(64)] + [[five(rng), six(rng), v << 3 | v >> 2, 255] for v in range(32)]
            rng.shuffle(lv)
            lv = lv[:24]
            row = [c for p in lv for _ in range(4) for c in p]
            fm = DXT[k % 4]
            yield "C27.levels%d" % k, ["obs et", "MaxData 1500"] + (["Enable %d" % IL_SQUISH_COMPRESS] if k % 8 > 3 else []) + ["TexImage 96 1 1 4 %d %d %s" % (IL_RGBA, UB, hx(row)), "Surf2Dxtc %d" % fm, "Dxtc2Surf"]

def loaddata(rng, f, w, h, d, b):
    op = rng.choice(["LoadData", "LoadDataF", "LoadDataL"])
    return "%s %s %s%d %d %d %d" % (op, f, "%d " % rng.choice([0, 0, 1, 5, 100]) if op == "LoadDataF" else "", w, h, d, b)
@prop
class C28(Prop):
    quick, thorough = 500 * 2, 6000
    technique = "raw data of random length loaded as random geometries (fitting, short, degenerate, too large) from file and memory, and saved; TLC compares every byte"
    def gen(self, rng):
        L = [obs(rng, "eto", "eto", "eao"), rng.choice(["Vfs", "RealFs"])]
        if L[1] == "Vfs" or rng.random() < .5: L.append("Enable %d" % IL_FILE_OVERWRITE)
        for i in range(rng.randrange(2, 8)):
            m = rng.randrange(6)
            if m < 3:
                w, h, d = dims(rng, 30, 3); b = rng.choice([1, 3, 4, 3, 2, 0, 5])
                n = max(0, w * h * d * b + rng.choice([0, 0, 0, 1, -1, 7, -w]))
                if rng.random() < .1: w = rng.choice([0, -1, 65536, 1 << 30])
                L += ["Put r%d %s" % (i, hx(bytes(rng.randrange(256) for _ in range(n)))), loaddata(rng, "r%d" % i, w, h, d, b)]
                if rng.random() < .4: L += [loaddata(rng, "r%d" % i, h, w, d, b)]
            elif m == 3: L += define(rng, maxd=3)[0] + ["SaveData s.raw", "Exists s.raw"]
            elif m == 4:
                D, im = define(rng, maxd=3, typs=[UB], fmts=[IL_RGB, IL_RGBA, IL_LUMINANCE])
                L += D + ["SaveData t%d.raw" % i, loaddata(rng, "t%d.raw" % i, im.w, im.h, im.d, FMT[im.f])]
            else: L += [rng.choice(["SaveData s.raw", "LoadData missing 1 1 1 1", "Bind 2", "Bind 1"])] + (normalise(rng, 1) if rng.random() < .2 else [])
        return L + ["Audit"]

# ---------------------------------------------------------------- settings of the other layers, life cycle

UTQ = [ILUT_PALETTE_MODE, ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_CONV, ILUT_S3TC_FORMAT, ILUT_GL_USE_S3TC, ILUT_GL_GEN_S3TC, ILUT_GL_AUTODETECT_TEXTURE_TARGET, ILUT_MAXTEX_WIDTH,
       ILUT_MAXTEX_HEIGHT, ILUT_MAXTEX_DEPTH, ILUT_D3D_MIPLEVELS, ILUT_D3D_POOL, ILUT_D3D_ALPHA_KEY_COLOR]
UTSW = [ILUT_PALETTE_MODE, ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_CONV, ILUT_GL_USE_S3TC, ILUT_GL_GEN_S3TC, ILUT_GL_AUTODETECT_TEXTURE_TARGET]
TOOLQ = ["utGetInt %d" % k for k in UTQ] + ["iluGetInt %d" % ILU_FILTER, "iluGetInt %d" % ILU_PLACEMENT]
FILTERS = [ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL]
PLACES = [ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER]
CODES = [0] + list(range(0x501, 0x513)) + list(range(0x5E1, 0x5E8)) + [0x5FF]
LANGS = list(range(ILU_ENGLISH, ILU_ITALIAN + 1))

def tool_step(rng):
    m = rng.randrange(13)
    if m < 3: return "utSetInt %d %d" % (rng.choice(UTQ + [0, IL_JPG_QUALITY]), rng.choice([0, 1, 2, 3, -1, -5, 16, 256, 65536, IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_DXT5 + 1, IL_DXT1 - 1, 2147483647, -2147483648]))
    if m < 5: return "%s %d" % (rng.choice(["utEnable", "utDisable", "utEnable"]), rng.choice(UTSW + [0, ILUT_MAXTEX_WIDTH]))
    if m == 5: return "utPush %d" % rng.choice([0, ILUT_OPENGL_BIT, ILUT_D3D_BIT, ILUT_OPENGL_BIT + ILUT_D3D_BIT, ILUT_ALL_ATTRIB_BITS, -1, 4])
    if m == 6: return "utPop"
    if m == 7: return "iluParam %d %d" % (rng.choice([ILU_FILTER, ILU_FILTER, ILU_PLACEMENT, 0]), rng.choice(FILTERS + PLACES + [0, ILU_FILTER, ILU_SCALE_MITCHELL + 1, ILU_CENTER + 1]))
    if m == 8: return rng.choice(["iluParam %d %d" % (ILU_FILTER, rng.choice(FILTERS)), "iluParam %d %d" % (ILU_PLACEMENT, rng.choice(PLACES))])
    if m == 9: return "iluLang %d" % rng.choice(LANGS + [0, ILU_ENGLISH - 1, ILU_ITALIAN + 1])
    if m == 10: return "iluErrStr %d" % rng.choice(CODES + [1, 0x500, 0x513, 0x5E0, 0x5E8, -1])
    if m == 11: return "%s %d" % (rng.choice(["utIsEnabled", "utIsDisabled", "utGetBool"]), rng.choice(UTSW + [0]))
    return rng.choice(["iluVendor %d" % rng.choice([IL_VENDOR, IL_VERSION_NUM, 0]), "utString %d" % rng.choice([IL_VENDOR, IL_VERSION_NUM, 0]), "iluGetInt %d" % rng.choice([IL_VERSION_NUM, 0, ILU_FILTER]),
                       "utGetInt %d" % rng.choice([IL_VERSION_NUM, 0]), "utRenderer %d" % rng.choice([0, 1, 2, 3, 5, 6, 99]), "iluInit", "utInit", "utGetInt %d" % rng.choice(UTQ)])

@prop
class C25(Prop):
    technique = "MC_Tool: all short histories of setting, pushing, popping, starting and shutting down, replayed with everything read back; random histories trace-checked; every error code in every language compared with the specified text"
    quick, thorough = 250 * 2, 3000
    def models(self, tier): return [M("MC_Tool", None if tier == "quick" else "MC_Tool_deep", n=1500 if tier == "quick" else None, head=["obs e"], tail=TOOLQ)]
    def gen(self, rng):
        L = ["obs e"] + (TOOLQ if rng.random() < .2 else [])
        for i in range(rng.randrange(10, 40)):
            L.append(tool_step(rng) if rng.random() < .93 else set_step(rng))
            if rng.random() < .2: L += TOOLQ
        return L + TOOLQ + ["States", "Audit"]
    def extra(self, tier, rng):
        for l in LANGS:
            yield "C25.lang%d" % l, ["obs e", "iluLang %d" % l] + ["iluErrStr %d" % c for c in CODES] + ["iluLang %d" % rng.choice(LANGS)] + ["iluErrStr %d" % c for c in CODES] + ["iluInit"] + ["iluErrStr %d" % c for c in CODES]
        for r in range(8 if tier == "quick" else 60):
            L = ["obs e"]
            n = rng.choice([30, 31, 32, 33, 36])
            for i in range(n): L += [tool_step(rng) for _ in range(rng.randrange(0, 3))] + ["utPush %d" % rng.choice([0, 1, 2, 3, -1])]
            L += TOOLQ
            for i in range(n + 2): L += ["utPop"] + (TOOLQ if rng.random() < .4 else [])
            yield "C25.deep%d" % r, L + TOOLQ

PROBE = ["obs ea", "Audit", "obs e", "States"] + ["GetString %d" % k for k in STRINGS] + ["GetError", "Pop", "IsImage 1", "IsImage 2", "IsImage 3", "IsImage 17", "CurName",
         "obs ei", "Clear", "TexImage 1 1 1 4 %d %d x:01020304" % (IL_RGBA, IL_UNSIGNED_BYTE), "Clear",
         "TexImage 3 1 1 3 %d %d x:000000ffffff050607" % (IL_RGB, IL_UNSIGNED_BYTE), "Enable %d" % IL_USE_KEY_COLOUR, "Convert %d %d" % (IL_RGBA, IL_UNSIGNED_BYTE), "Disable %d" % IL_USE_KEY_COLOUR,
         "TexImage 1 1 1 3 %d %d x:010203040506" % (IL_RGB, IL_UNSIGNED_SHORT), "SaveLQ %d" % IL_PNM, "obs e"]
@prop
class C24(Prop):
    technique = "MC_Tool, replayed; several rounds of random work of every kind (names, lists, edits, settings, failing calls, files, handlers), each ended by shutting down, with the memory counted, everything checked to be as at first use, and the same work repeated"
    quick, thorough = 250 * 2, 3000
    def models(self, tier): return [M("MC_Tool", None if tier == "quick" else "MC_Tool_deep", n=800 if tier == "quick" else None, head=["obs e"], tail=["Init"] + PROBE)]
    def work(self, rng):
        L = ["obs " + rng.choice(["e", "e", "ea"])]
        for i in range(rng.randrange(1, 14)):
            m = rng.randrange(9)
            if m == 0: L.append(rng.choice(["Gen 3", "Gen1", "Bind %d" % rng.choice([0, 2, 5, 1030]), "Del %d" % rng.choice([1, 2, 5]), "Clone", "iluGen"]))
            elif m == 1: L.append(sub_step(rng))
            elif m < 4: L += edit_step(rng)
            elif m == 4: L += [set_step(rng), set_step(rng)]
            elif m == 5: L += ["Push %d" % rng.choice(MASKS), set_step(rng)]
            elif m == 6: L += [fail_step(rng), good_step(rng)]
            elif m == 7: L += rng.choice([["Init"], ["ClearColour %d %d %d 7" % tuple(rng.randrange(257) for _ in range(3)), rng.choice(["KeyColour 5 6 7 8", "KeyColour 256 256 256 0", "Hint %d %d" % (IL_COMPRESSION_HINT, IL_NO_COMPRESSION)])], ["RegLoad %s %d" % (rng.choice(["xyz", "abc"]), rng.randrange(3)), "RegSave abc 1"], ["SetString %d s:%s" % (k, "w" * 9) for k in rng.sample(STRINGS, 4)]])
            else: L += ["Bind 1"] + picture(rng, typs=[UB])[0] + ["Enable %d" % IL_FILE_OVERWRITE, "Vfs", "Save %d a.png" % IL_PNG, "Load %d a.png" % IL_PNG, "Audit"]
        return L
    def gen(self, rng):
        L = []
        for r in range(rng.randrange(2, 5)):
            L += self.work(rng) + ["obs e", "Shutdown", "Live"] + (["Shutdown"] if rng.random() < .3 else []) + ["Init"] + (["Init"] if rng.random() < .3 else [])
            if rng.random() < .8: L += PROBE
        return L + ["Vfs", "Put q.xyz x:01", "LoadImage q.xyz", "obs e", "Shutdown", "Live", "Init", "obs a", "Audit"]

# ---------------------------------------------------------------- the image-utility layer

def target(rng, **kw):
    """Lines: what the edits work on: the base image, or an element of its lists; sometimes other images around."""
    L = []
    if rng.random() < .3: L += ["Bind 2"] + define(rng, maxbytes=60)[0] + ["Bind 1"]
    D, im = define(rng, **kw)
    L += D
    if rng.random() < .2:
        L.append("Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), rng.randrange(1, 3)))
        if rng.random() < .6:
            x = {IL_SUB_NEXT: "N", IL_SUB_MIPMAP: "M", IL_SUB_LAYER: "L"}[int(L[-1].split()[1])]
            D, im = define(rng, **kw)
            L += ["Act%s 1" % x] + D
    return L, im

def clear_colour(rng):
    return "ClearColour %d %d %d %d" % tuple(rng.choice([0, 256, 0, 256, 128, 77, 300]) for _ in range(4))

def place_step(rng, im):
    """One geometric edit; im follows the dimensions where they are certain."""
    m = rng.randrange(12)
    if m < 2: return "iluFlip"
    if m < 4: return "iluMirror"
    if m < 6:
        q = rng.choice([90, 180, 270, 90, 270, -90, 360, 0, 450, -180])
        if q % 180: im.w, im.h = im.h, im.w
        return "iluRotate %d" % q
    if m < 9:
        if rng.random() < .8:
            x, y, z = rng.randrange(im.w), rng.randrange(im.h), rng.randrange(im.d)
            w, h, d = rng.randrange(1, im.w - x + 1), rng.randrange(1, im.h - y + 1), rng.randrange(1, im.d - z + 1)
            im.w, im.h, im.d = w, h, d
            if rng.random() < .05: return "iluCrop %d %d %d %d %d %d" % (x, y, z, w, h, d)
        else:
            x, y, z, w, h, d = [rng.choice([0, 0, 1, 2, 3, 5, 7, 100, 2147483647]) for _ in range(6)]
            return "iluCrop %d %d %d %d %d %d" % (x, y, z, w, h, d)
        return "iluCrop %d %d %d %d %d %d" % (x, y, z, w, h, d)
    if m < 11:
        w, h, d = im.w + rng.randrange(0, 4), im.h + rng.randrange(0, 4), im.d + rng.choice([0, 0, 0, 1])
        if rng.random() < .12: w, h, d = rng.choice([(im.w - 1, h, d), (w, im.h - 1, d), (w, h, 0), (0, 0, 0), (2147483647, 2147483647, 2), (65536, 65536, 1)])
        elif w * h * d * FMT[im.f] * TYP[im.t] > 600: return "iluFlip"
        else: im.w, im.h, im.d = w, h, d
        return "iluEnlargeCanvas %d %d %d" % (w, h, d)
    return "iluParam %d %d" % (ILU_PLACEMENT, rng.choice(PLACES))

@prop
class C21(Prop):
    technique = "MC_Place: all short histories of geometric edits on small images with the algebra of the moves checked on the specification, replayed; random histories over all formats, types, depths, origins, placements and refused arguments, whole images compared with the specification's"
    quick, thorough = 700 * 2, 8000
    def models(self, tier): return [M("MC_Place", None if tier == "quick" else "MC_Place_deep", n=1500 if tier == "quick" else None, head=["obs et"])]
    def gen(self, rng):
        L = [obs(rng, "et", "ea")]
        if rng.random() < .5: L.append(clear_colour(rng))
        D, im = target(rng, maxd=3, maxbytes=160)
        L += D
        if rng.random() < .5: L.append("iluParam %d %d" % (ILU_PLACEMENT, rng.choice(PLACES)))
        for i in range(rng.randrange(1, 7)):
            L.append(place_step(rng, im))
            if rng.random() < .1: L.append(clear_colour(rng))
        if rng.random() < .2: L.append("iluRotate %d" % rng.choice([45, 30, 1, 89, 200]))
        return L + ["Audit"]

def region(rng, im):
    """A region inside the image."""
    if rng.random() < .6 or im.w < 3 or im.h < 3:
        x = sorted(rng.randrange(im.w) for _ in range(2)); y = sorted(rng.randrange(im.h) for _ in range(2))
        P = [(x[0], y[0]), (x[1], y[0]), (x[1], y[1]), (x[0], y[1])]
        if rng.random() < .5: P.reverse()
    else: P = [(rng.randrange(im.w), rng.randrange(im.h)) for _ in range(rng.choice([3, 3, 4, 5]))]
    k = rng.randrange(len(P)); P = P[k:] + P[:k]
    if rng.random() < .25:
        return "iluRegionF " + " ".join("%d %d" % ((x * 256 + 128) // im.w, (y * 256 + 128) // im.h) for x, y in P)
    return "iluRegionI " + " ".join("%d %d" % p for p in P)

def pixel_step(rng, im):
    m = rng.randrange(20)
    k = lambda: rng.choice([256, 256, 0, 128, 64, 200, 255, 257, 300, 512, 1000, -256, 100000, rng.randrange(0, 600)])
    if m < 3: return "iluNegative"
    if m < 5: return "iluInvertAlpha"
    if m < 8: return "iluSwap"
    if m < 11: return "iluReplace %d %d %d %d" % (rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.choice([0, 0, 1, 5, 50, 128, 256, -30, 300, -600]))
    if m < 13: return "iluScaleAlpha %d" % k()
    if m < 15: return "iluScaleColours %d %d %d" % (k(), k(), k())
    if m < 17: return "iluGamma %d" % rng.choice([128, 256, 512, 512, 0, -256, 300])
    if m < 18: return "iluContrast %d" % k()
    if m < 19: return "iluSaturate1 %d" % rng.choice([256, 0, 128, 300, -256])
    return "iluColours"

@prop
class C22(Prop):
    technique = "MC_Pixel: all short histories of per-pixel edits with their inverses checked on the specification, replayed; random histories over formats, types, palettes, regions and arguments with each byte computed by the specification; exhaustive value sweeps"
    quick, thorough = 800 * 2, 9000
    def models(self, tier): return [M("MC_Pixel", None if tier == "quick" else "MC_Pixel_deep", n=1500 if tier == "quick" else None, head=["obs et"])]
    def gen(self, rng):
        L = [obs(rng, "et", "ea")]
        small = rng.random() < .6
        D, im = target(rng, maxd=2, maxbytes=160, typs=[UB, UB, IL_BYTE] if small else None)
        if rng.random() < .5: L.append(clear_colour(rng))
        L += D
        if rng.random() < .5:
            r = rng.random()
            if r < .85: L.append(region(rng, im))
            elif r < .93: L.append("iluRegionI 0 0 1 1")
            else: L.append("iluRegionI %d 0 1 1 0 1" % rng.choice([100, -1]))
        for i in range(rng.randrange(1, 6)):
            L.append(pixel_step(rng, im))
            if rng.random() < .1: L.append("iluRegionI")
            if rng.random() < .1: L.append(clear_colour(rng))
            if rng.random() < .1: L.append("iluCompare %d" % rng.choice([1, 2]))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # every byte value through every rule
        for f in COLOURS:
            for op in ["iluNegative", "iluInvertAlpha", "iluSwap", "iluGamma 512", "iluGamma 128", "iluContrast 300", "iluContrast 100", "iluScaleColours 100 300 256", "iluScaleAlpha 128", "iluScaleAlpha 700"]:
                n = 256 // FMT[f] + 1
                b = bytes((i * 37 + FMT[f]) % 256 for i in range(n * FMT[f]))
                yield "C22.sweep.%d.%s" % (f, op.replace(" ", "_")), ["obs et", "MaxData 1000", "TexImage %d 1 1 %d %d %d %s" % (n, FMT[f], f, UB, hx(b)), op, "iluNegative", "iluSwap"]
        for pt in PALS:
            for op in ["iluNegative", "iluSwap", "iluGamma 512", "iluContrast 300", "iluScaleColours 100 300 256", "iluScaleAlpha 128"]:
                b = bytes((i * 37 + 5) % 256 for i in range(86 * PALS[pt]))
                yield "C22.pal.%d.%s" % (pt, op.replace(" ", "_")), ["obs et", "MaxData 1000", "TexImage 9 1 1 1 %d %d x:000102030405060708" % (CI, UB), "RegPal %d %s" % (pt, hx(b)), op, "iluNegative", "iluSwap"]
        # counting and comparing
        for r in range(60 if tier == "quick" else 500):
            L = ["obs e"]
            fmts, typs = [rng.choice(list(FMT))], [rng.choice([UB, UB] + list(TYP))]
            D, im = define(rng, maxbytes=200, maxpix=40, fmts=fmts, typs=[UB] if fmts[0] == CI else typs, npal=4)
            L += D + ["iluColours", "Bind 2", "CopyImage 1", "iluCompare 1", "iluColours"]
            for i in range(rng.randrange(1, 4)):
                L += [rng.choice(["SetPixels %d %d 0 1 1 1 %d %d %s" % (rng.randrange(im.w), rng.randrange(im.h), im.f, im.t, hx(data(rng, im.f, im.t, 1, 4))), "iluFlip", "iluMirror", "iluNegative",
                                  "RegOrigin %d" % rng.choice([UPPER, LOWER]), "iluSwap", "RegPal %d %s" % (IL_PAL_RGB24, hx(data(rng, IL_RGB, UB, 4)))]),
                      "iluCompare 1", "iluCompare 2", "iluColours"]
            yield "C22.count%d" % r, L + ["iluCompare 99", "Audit"]

def flat_image(rng, im):
    px = data(rng, im.f, im.t, 1, 4)
    return "TexImage %d %d %d %d %d %d %s" % (im.w, im.h, im.d, FMT[im.f], im.f, im.t, hx(px * im.count()))

@prop
class C23(Prop):
    technique = "random and systematic histories of scaling and mipmap building over all filters, formats, types and depths; the specification computes the chain of sizes, the sources of every nearest pixel, flat images exactly and bounds of interpolated bytes; whole trees compared"
    quick, thorough = 600 * 2, 7000
    def models(self, tier): return [M("MC_Scale", None if tier == "quick" else "MC_Scale_deep", n=1200 if tier == "quick" else None, head=["obs et"])]
    def gen(self, rng):
        L = [obs(rng, "et", "ea")]
        im = image(rng, maxd=3, maxbytes=200, maxpix=40)
        if rng.random() < .3: L += ["Bind 2"] + define(rng, maxbytes=60)[0] + ["Bind 1"]
        L.append(tex(rng, im, 4) if rng.random() < .55 else flat_image(rng, im))
        if im.f == CI: L.append(pal(rng, rng.choice(list(PALS)), 4))
        if rng.random() < .4: L.append("RegOrigin %d" % UPPER)
        if rng.random() < .25: L.append("Sub %d %d" % (rng.choice([IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER]), rng.randrange(1, 3)))
        if rng.random() < .1: L.append("ActN 1")
        for i in range(rng.randrange(1, 5)):
            m = rng.randrange(10)
            if m < 3: L.append("iluParam %d %d" % (ILU_FILTER, rng.choice(FILTERS)))
            if m < 6:
                w, h, d = rng.randrange(0, 14), rng.randrange(0, 10), rng.choice([1, 1, im.d, im.d, rng.randrange(0, 4)])
                if rng.random() < .15: w, h, d = im.w, im.h, im.d
                if rng.random() < .04: w, h, d = rng.choice([(65536, 65536, 1), (2147483647, 1, 1), (65536, 32768, 2)])
                L.append("iluScale %d %d %d" % (w, h, d))
            elif m < 7: L.append("iluEnlargeImage %d %d %d" % tuple(rng.choice([256, 512, 128, 300, 64, 0, -256, 700]) for _ in range(3)))
            else: L.append("iluMips")
            if rng.random() < .15: L.append("ActM %d" % rng.randrange(1, 3))
        return L + ["Audit"]
    def extra(self, tier, rng):
        # chains of every small size
        S = [(w, h, d) for w in (1, 2, 3, 4, 5, 7, 8, 9, 16) for h in (1, 2, 3, 5, 8) for d in (1, 1, 2, 3)]
        for i, (w, h, d) in enumerate(S):
            f, t = rng.choice([(IL_RGB, UB), (IL_RGBA, UB), (IL_LUMINANCE, UB), (IL_BGR, IL_UNSIGNED_SHORT), (CI, UB), (IL_RGB, IL_FLOAT), (IL_LUMINANCE_ALPHA, UB)])
            im = Img(w, h, d, f, t)
            L = ["obs et", "MaxData 1500", "iluParam %d %d" % (ILU_FILTER, rng.choice(FILTERS[:3]))]
            L += [rng.choice([tex(rng, im, 4), flat_image(rng, im)])] + ([pal(rng, rng.choice(list(PALS)), 4)] if f == CI else []) + ["iluMips"]
            if rng.random() < .5: L += ["iluNegative", "iluMips"]
            yield "C23.chain%d" % i, L + ["obs en", "ActM 1", "ActM 1", "Bind 1"]
        # one colour, every filter, up and down
        for fl in FILTERS:
            for f in FMT:
                im = Img(rng.randrange(1, 7), rng.randrange(1, 6), 1, f, UB)
                w, h = rng.choice([(im.w * 2, im.h * 3), (im.w + 1, im.h), (im.w, im.h + 2), (max(1, im.w - 1), max(1, im.h - 1)), (1, 1), (im.w * 3, max(1, im.h // 2))])
                yield "C23.flat.%d.%d" % (fl, f), ["obs et", "MaxData 1500", "iluParam %d %d" % (ILU_FILTER, fl), flat_image(rng, im)] + ([pal(rng, rng.choice(list(PALS)), 4)] if f == CI else []) + ["iluScale %d %d 1" % (w, h), "iluScale %d %d 1" % (im.w, im.h)]

@prop
class C18(Prop):
    quick, thorough = 2000, 20000
    technique = "generated histories of all parts of the library in which single calls run short of memory (one allocation, or all from one on, are refused); each such call must have its usual effect or fail at the expense of the current image only, and the specification follows the history further"
    note = Prop.note
    plain = ("obs", "Put", "Vfs", "Poke", "MaxData", "Prefix", "Rm", "Trunc", "Cp", "Cmp", "Exists", "Bytes", "FailIo", "IoInfo", "FailOpen", "noinit", "Audit", "Live",
             "Import", "RealFs", "GetError", "Drain", "Note", "Handles", "Init", "Shutdown", "utInit", "iluInit")
    sources = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C14", "C12", "C15", "C16", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30"]
    def spared(self, w):
        # several names at once; HDR falls back to another encoding
        return (w[0] == "Del" and len(w) > 2) or (w[0].startswith("Save") and (w[1] == str(K["IL_HDR"]) or any(x.endswith(".hdr") for x in w)))
    def gen(self, rng):
        while True:
            L = list(PROPS[rng.choice(self.sources)].gen(rng))
            if any(l.startswith(("Fail", "MaxData", "noinit", "iluRegion")) for l in L): continue
            L = [l for l in L if not l.startswith("SetData")]
            at = [k for k in range(len(L)) if L[k].split()[0] not in self.plain and not self.spared(L[k].split())
                  and not (L[k].startswith("Save") and any(l.startswith("SetString") for l in L))         # a text may be left out of a file
                  and not (L[k].startswith("Load") and any(l.startswith("RegLoad") for l in L))]         # the driver's own loaders expect memory
            if not at: continue
            out, pick = ["obs ea"], set(rng.sample(at, min(len(at), rng.choice([1, 1, 2, 3]))))
            for k in range(len(L)):
                if L[k].startswith("obs"): continue
                if k in pick:
                    out += ["FailAlloc %d %d" % (rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20]), rng.randrange(2)), L[k], "AllocInfo", "BindCur"]
                else: out.append(L[k])
            return out + ["obs e", "Shutdown", "Live"]
    def single(self, rng):
        """Representative calls: (preparation, call)."""
        for T in list(EXT) + list(LOSSY):
            ty, e = TYPE[T], ALLEXT[T]
            for k in range(2):
                D = picture(rng, typs=[UB] if k else None)[0]
                if T != "HDR": yield "save" + T, ["Vfs", "Enable %d" % IL_FILE_OVERWRITE] + D, "Save %d a.%s" % (ty, e)
                if T != "HDR": yield "saveL" + T, D, "SaveL %d a.%s -2" % (ty, e)
                yield "load" + T, ["Vfs"] + D + ["Save %d a.%s" % (ty, e)], rng.choice(["Load %d a.%s", "LoadL %d a.%s", "LoadF %d a.%s 5"]) % (ty, e)
                yield "is" + T, ["Vfs"] + D + ["Save %d a.%s" % (ty, e)], rng.choice(["IsValid %d a.%s", "IsValidL %d a.%s"]) % (ty, e)
        for T in sorted(foreign.FOREIGN) + ["DDS"] * 3:
            for k in range(2): yield "alien" + T, ["Vfs", "MaxData 6000", "Put a.x x:" + alien(rng, T).hex()], "Load %d a.x" % K["IL_" + T]
        edits = ["iluScale 9 7 1", "iluScale 2 2 1", "iluScale 9 2 1", "iluRotate 45", "iluRotate 90", "iluMips", "iluEnlargeCanvas 9 9 1", "iluCrop 0 0 0 2 2 1", "iluFlip", "iluMirror", "iluNegative", "iluSwap",
                 "iluContrast 300", "iluGamma 300", "iluAlienify", "iluSaturate1 300", "iluBlurAvg 2", "iluBlurGauss 1", "iluEmboss", "iluEdgeP", "iluSharpen 512 2", "iluPixelize 2", "iluEqualize", "iluWave 20",
                 "iluConv 1 0 -1 2 3 0 1 1 1 5 1", "iluColours", "Clone", "CopyImage 1", "Overlay 1 0 0 0",
                 "Blit 1 0 0 0 0 0 0 1 1 1", "GetDXTC %d" % K["IL_DXT1"], "GetDXTC %d" % K["IL_DXT5"], "Img2Dxtc %d" % K["IL_DXT3"], "SetAlpha 100", "DefaultImage", "Clear", "Sub %d 3" % K["IL_SUB_MIPMAP"], "Gen 4", "RegM 3"]
        for op in edits:
            for k in range(3):
                D = picture(rng, typs=[UB] if k else None, fmts=[IL_RGB, IL_RGBA, IL_BGR, IL_LUMINANCE, CI][k::2])[0]
                yield "op." + op.split()[0], ["TexImage 2 2 1 1 %d %d x:01020304" % (IL_LUMINANCE, UB), "iluParam %d %d" % (ILU_FILTER, FILTERS[rng.randrange(len(FILTERS))]), "Bind 2"] + D, op
        for f in FMT:
            D = picture(rng, fmts=[f])[0]
            for f2 in FMT: yield "conv", D, "Convert %d %d" % (f2, UB if f2 == CI else rng.choice(list(TYP)))
        for q in PALS:
            for q2 in PALS: yield "pal", picture(rng, fmts=[CI], typs=[UB])[0], "ConvertPal %d" % q2
    def extra(self, tier, rng):
        n = 0
        for name, L, op in self.single(rng):
            if self.spared(op.split()): continue
            for k in range(1, 25 if name.startswith(("save", "load", "alien")) else 11):
                for sticky in (0, 1):
                    n += 1
                    if tier == "quick" and rng.random() > .22: continue
                    yield "C18.%s.%d" % (name, n), (["MaxData 6000"] if "MaxData 6000" in L else []) + ["obs ea"] + [l for l in L if not l.startswith(("obs", "MaxData"))] + ["FailAlloc %d %d" % (k, sticky), op, "AllocInfo", "BindCur", op, "BindCur", "Audit", "obs e", "Shutdown", "Live"]
