from vf import Unit as U
CHECKS = {}


def check(pid, units, explain="", assumptions=(), outside=""):
    CHECKS[pid] = {"units": units, "explain": explain, "assumptions": list(assumptions), "outside": outside}


OUT = dict(repo=["BufferedOut.cpp"], models=["charconv.cpp"])
A_CHARCONV = "libstdc++'s __to_chars_len/__to_chars_10_impl are replaced by their contract (digits d_i with sum d_i*10^i == value); the native replay runs the real ones"
VT = {"int": "int", "uint": "unsigned", "long": "long", "ulong": "uint64_t", "llong": "LL", "ullong": "ULL"}
TYPES = ["-DLL=long\tlong", "-DULL=unsigned\tlong\tlong"]


def outb(cap):
    return "capacity %d, any number of characters already written, any contents" % cap


check("B01", [U("int%d" % i, "b_safe.cpp", defs=["OP=0", "TY=%d" % i, "CAP=12"], unwind=14, slow=True,
                bounds=outb(12) + ", every value of integer type %d of 6, any width/fill/precision" % i, **OUT) for i in range(6)] + [
    U("float", "b_safe.cpp", defs=["OP=1", "CAP=8"], unwind=10, bounds=outb(8) + ", every float with |v| < 2^31, any width/precision", slow=True, **OUT),
    U("float_cap14", "b_safe.cpp", defs=["OP=1", "CAP=14"], unwind=16, bounds=outb(14) + ", every float with |v| < 2^31", tier="t", **OUT),
    U("text", "b_safe.cpp", defs=["OP=2", "CAP=12"], unwind=16, bounds=outb(12) + ", texts and byte spans up to 6", **OUT)] + [
    U("int%d_cap24" % i, "b_safe.cpp", defs=["OP=0", "TY=%d" % i, "CAP=24"], unwind=26, tier="t", bounds=outb(24), **OUT) for i in range(6)],
    assumptions=[A_CHARCONV], outside="larger buffers and texts; floats that are NaN or don't fit into int")
def large(name, op, *defs, **kw):
    return U("large_" + name, "b_large.cpp", defs=["OP=%d" % op] + list(defs), unwind=310, hk=650, cbmc=["--max-field-sensitivity-array-size", "650"],
             bounds="300 characters or bytes behind 290, any contents, capacity %s" % ([d[4:] for d in defs] or ["640"])[0], **dict(OUT, **kw))


check("B02", [U(n, "b_int.cpp", defs=["VT=" + t, "CAP=%d" % (13 if "int" in n else 22)], cxx=TYPES, unwind=15 if "int" in n else 24,
                bounds=outb(13 if "int" in n else 22) + ", every value of " + n, **OUT) for n, t in VT.items()],
    assumptions=[A_CHARCONV], outside="larger buffers (the rendering only depends on the room left, which takes every value here)")
check("B03", [U(n, "b_width.cpp", defs=["VT=" + t, "CAP=7", "MAXDIGITS=4"] + x, cxx=TYPES, unwind=9,
                bounds=outb(7) + ", every value of up to 4 digits, any width >= 0, any fill", **OUT)
              for n, t, x in [(n, t, []) for n, t in VT.items()] + [("text_between", "int", ["BETWEEN"])]] +
             [large("width", 3), large("width_cut", 3, "CAP=580")] +
             [U(n + "_full", "b_width.cpp", defs=["VT=" + t, "CAP=%d" % c], cxx=TYPES, unwind=c + 2, tier="t",
                bounds=outb(c) + ", every value, any width >= 0, any fill", **OUT) for n, t, c in [("int", "int", 13), ("ulong", "uint64_t", 22)]],
    assumptions=[A_CHARCONV], outside="negative widths; numbers over 4 digits at the quick tier")
check("B04", [U("float", "b_float.cpp", defs=["K=2", "CAP=6"], unwind=8, bounds=outb(6) + ", every float with |v| < 2^31, any precision >= 0; accuracy of the first 2 fraction digits", **OUT),
              U("float_cap13", "b_float.cpp", defs=["K=3", "CAP=13"], unwind=15, tier="t", bounds=outb(13) + "; accuracy of the first 3 fraction digits", **OUT)],
    assumptions=[A_CHARCONV], outside="NaN, |v| >= 2^31; accuracy of later digits; at the quick tier integer parts over 6 characters only as not fitting")
check("B05", [U(n, "b_text.cpp", defs=["OP=%d" % i, "CAP=12"], unwind=16, bounds=outb(12) + ", texts up to 8 characters", **OUT) for i, n in enumerate(["view", "cstring", "char"])] +
      [large(n, i, *d) for i, n, d in [(0, "view", []), (0, "view_cut", ["CAP=580"]), (1, "cstring", []), (1, "cstring_cut", ["CAP=580"])]],
    outside="longer texts")
check("B06", [U(n, "b_hex.cpp", defs=["OP=%d" % i, "CAP=14"], unwind=18, bounds=outb(14) + ", spans up to 8 bytes", **OUT) for i, n in enumerate(["byte", "span"])] +
      [large("span", 2, "CAP=900"), large("span_cut", 2, "CAP=871")],
    outside="longer spans")
check("B07", [U("clear", "b_clear.cpp", defs=["CAP=6"], unwind=10, bounds=outb(6) + ", any settings", **OUT),
              U("views_64k", "b_big.cpp", defs=["SIZE=66000"], unwind=18, cbmc=["-DVF_MEMCPY_SIZES"], bounds="any text size 0..66000", note="sizes only, contents not modelled", **OUT)],
    outside="texts over 66000 characters")

ST = dict(repo=["PersistentStorage.cpp"], unwindset=(("vf_memset", 64),))
NAMES4 = "names of 0..4 arbitrary characters"
t, f = "true", "false"


def smap(name, pre, op, probe, R, fits=1, extra=(), tier="qt", bounds=""):
    return U(name, "s_map.cpp", defs=["PRE={%s}" % ",".join(pre), "OP=" + op, "PROBE=" + probe, "R=%d" % R, "FITS=%d" % fits] + list(extra), unwind=5, tier=tier,
             bounds="%d sets of the given sizes, then one set and a look at any (name, type); %s, any values; region %d bytes. %s" % (len(pre), NAMES4, R, bounds), **ST)


def slarge(name, size, region, *defs, **kw):
    return U(name, "s_large.cpp", defs=["SIZE=%d" % size, "REGION=%d" % region, "R=%d" % region] + list(defs), unwind=8, **dict(ST, **dict(dict(
        unwindset=(("vf_memset", region + 1), ("vf_memcpy", size + 30)), cbmc=["--max-field-sensitivity-array-size", "%d" % (region + 10)],
        bounds="two objects of %d bytes and others, each stored, updated and refused; first, middle and last bytes any" % size), **kw)))


check("S01", [slarge("large", 300, 700, "INIT=true")] +
             [smap("map%d" % i, *a) for i, a in enumerate([((t, f), t, t, 27), ((t, f), t, f, 27), ((f, t), f, t, 24), ((f, f), f, f, 21)])] +
             [smap("map_3_%d" % i, *a, tier="t") for i, a in enumerate([((t, f, t), f, t, 34), ((f, f, f), t, f, 31), ((t, t), t, t, 30), ((f, t, f), f, f, 31)])],
      outside="more objects; types of other sizes than 1 and 4 (S02, S05 have some)")
check("S02", [smap("full_large", (t, f), t, t, 28, 0, ["REGION=26"]), smap("full_small", (t, f), f, f, 25, 0, ["REGION=23"]),
              smap("full_other", (t, f), t, f, 28, 0, ["REGION=26"]),
              U("room", "s_room.cpp", defs=["R=29"], unwind=6, bounds="objects of 1, 4 and 3 bytes in any region of 0..29 bytes", **ST),
              U("room5", "s_room.cpp", defs=["R=52", "TYPES=uint64_t,uint8_t,Bytes<3>,Bytes<1>,Bytes<5>"], unwind=8, tier="t", bounds="5 objects in any region of 0..52 bytes", **ST)],
      outside="more objects")
check("S03", [slarge("large", 300, 700, "INIT=true", "REOPEN")] +
             [smap("reopen%d" % i, *a, extra=["REOPEN"]) for i, a in enumerate([((t, f), t, t, 29), ((t, f), f, f, 27), ((f, t), f, t, 25)])] +
             [smap("reopen_exact%d" % i, (t, f), op, pr, 19, 0, ["REOPEN", "REGION=17"], bounds="The two sets fill it exactly.") for i, op, pr in [(0, f, f), (1, t, t)]] +
             [smap("reopen_full", (t, f), f, f, 24, 0, ["REOPEN", "REGION=23"])] +
             [smap("reopen_3", (t, f, t), f, t, 36, extra=["REOPEN"], tier="t")],
      outside="more objects")
SI = dict(repo=["PersistentStorage.cpp"], unwind=6)


def simage(name, R, n, *extra, tier="qt"):
    k = n + 2
    return U(name, "s_image.cpp", defs=["R=%d" % R, "REGION=%d" % n] + list(extra), tier=tier, unwindset=(("vf_memset", 64), ("getIdx", k), ("PersistentStorageC", k)),
             bounds="any contents of a region of %d bytes, %s" % (n, NAMES4), **SI)


check("S04", [simage("get_small", 14, 12), simage("get_large", 16, 13, "LARGE=true"), simage("set_small", 11, 9, "SET"), simage("set_large", 15, 12, "LARGE=true", "SET"),
              simage("set_small_16", 18, 16, "SET", tier="t"), simage("set_large_20", 22, 20, "LARGE=true", "SET", tier="t")],
      outside="larger regions")
check("S05", [U("names", "s_names.cpp", defs=["R=16", "REGION=15"], unwind=8, bounds="any two names of up to 6 characters, any value; sizes 1, 2, 4, 8", **ST)],
      outside="longer names")
check("E01", [U("endian", "e_endian.cpp", unwind=6, bounds="every 16 and 32 bit value")])
check("V01", [U("sub_" + n.replace("_t", ""), "v_sub.cpp", defs=["VT=" + n], unwind=9, bounds="views of 0..6 elements anywhere in an array, every 64 bit offset and count") for n in ("uint8_t", "uint16_t", "B3")] +
      [U("sub_far_uint32", "v_sub.cpp", defs=["VT=uint32_t", "ELEMENTS=70000"], unwind=9, bounds="views of 0..70000 elements anywhere in an array, every 64 bit offset and count (not iterated)")],
      outside="longer views (the code has no loops over the elements)")
check("V02", [U("conversions", "v_conv.cpp", unwind=8, bounds="views of 0..5 elements anywhere in an array, any contents"),
              U("far", "v_far.cpp", unwind=4, bounds="views of 0..70000 elements anywhere in an array (contents not read)")], outside="longer views")
check("G01", [U("int_%d" % k, "g_geometry.cpp", defs=["K=%d" % k, "BITS=15"], unwind=4, bounds="coordinates and sizes of 15 bits, scale %d" % k) for k in (2, -3, 8)] +
             [U("matrix", "g_geometry.cpp", defs=["MATRIX", "BITS=6"], unwind=4, bounds="coordinates of 6 bits, matrix entries -4..3")] +
             [U("int16", "g_geometry.cpp", defs=["GT=int16_t", "SMALL", "BITS=14"], cxx=["-Wno-narrowing"], unwind=4, bounds="coordinates and sizes of 14 bits"),
              U("int8", "g_geometry.cpp", defs=["GT=int8_t", "SMALL", "BITS=6"], cxx=["-Wno-narrowing"], unwind=4, bounds="coordinates and sizes of 6 bits")],
      outside="coordinates whose sums overflow; narrow types for the operations that don't compile for them")
P = [("1", "DEPTH=1", "W=16", "H=3"), ("1h", "DEPTH=1", "W=8", "H=5"), ("2", "DEPTH=2", "W=12", "H=3"), ("4", "DEPTH=4", "W=6", "H=3"), ("8", "DEPTH=8", "W=5", "H=3"),
     ("16", "DEPTH=16", "W=3", "H=3"), ("24", "DEPTH=24", "W=3", "H=2"), ("32", "DEPTH=32", "W=3", "H=2")]


def pix(op, what):
    return [U("%s_depth%s" % (what, d[0]), "p_pixel.cpp", defs=["OP=%d" % op] + list(d[1:]), unwind=18, bounds="%s %s %s, any contents, pixel and colour" % d[1:]) for d in P]


check("P01", pix(0, "selected") + pix(1, "explicit") +
      [U("huge_depth%d" % d, "p_huge.cpp", defs=["DEPTH=%d" % d, "W=%d" % w, "H=%d" % h], unwind=5, hk=40, bounds="%dx%d at %d bits, empty image, four pixels of any colours, each one's neighbours and places at offsets cut to 8 or 16 bits" % (w, h, d)) for d, w, h in [(1, 1000, 700), (2, 420, 700), (4, 420, 320), (8, 421, 317), (16, 320, 240), (24, 300, 100), (32, 270, 100)]] +
      [U("big_depth%d" % d, "p_pixel.cpp", defs=["OP=0", "DEPTH=%d" % d, "W=%d" % w, "H=%d" % h], unwind=34, tier="t", bounds="%dx%d at %d bits" % (w, h, d)) for d, w, h in [(1, 32, 17), (2, 20, 9), (4, 14, 9), (16, 9, 7), (24, 5, 9), (32, 9, 5)]],
      outside="other frame sizes; colours that don't fit the depth")
check("P02", pix(2, "clear") + [U("clear_%dx%d" % (w, h), "p_pixel.cpp", defs=["OP=2", "DEPTH=8", "W=%d" % w, "H=%d" % h], unwind=270, hk=530, tier="qt" if w > h else "t", cbmc=["--max-field-sensitivity-array-size", "530"],
      bounds="%dx%d at 8 bits, any contents and colour" % (w, h)) for w, h in [(260, 2), (2, 260)]], outside="other frame sizes; colours that don't fit the depth")
CANVAS = dict(repo=["graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp"])
ANYC = "any frame buffer up to 8x8, rotation %d, any visible watched pixel, "


def rot(name, src, *defs, **kw):
    b = kw.pop("bounds", "")
    return [U("%s_rot%d" % (name, r * 90), src, defs=["ROT=%d" % r] + list(defs), bounds=("frame buffer 8x6, rotation %d, any visible watched pixel, " if "FIXED" in defs else ANYC) % (90 * r) + b, **dict(CANVAS, **kw)) for r in range(4)]


check("C02", rot("pixel", "c_pixel.cpp", unwind=4, bounds="every pixel coordinate with |c| < 2^30; rectangles with |c| <= 20"), outside="larger frame buffers; coordinates near the ends of int, where mirroring overflows")
def clarge(what, shape, *defs, w=300, h=280, k=720, rots=(0, 1, 2, 3), **kw):
    return [U("large_%s_rot%d" % (what, 90 * r), "c_large.cpp", defs=["ROT=%d" % r, "FIXED", "MAXW=%d" % w, "MAXH=%d" % h, shape] + list(defs), unwind=k,
              bounds="%s, frame buffer %dx%d, any watched pixel" % (shape, w, h), **dict(CANVAS, **kw)) for r in rots]


L6 = ["LIM=6", "MAXW=6", "MAXH=6"]
check("C03", rot("flat", "c_line.cpp", *L6, unwind=14, bounds="end points within -6..6 (frame buffers up to 6x6)") + rot("steep", "c_line.cpp", "STEEP", *L6, unwind=14, bounds="end points within -6..6 (frame buffers up to 6x6)") +
      rot("flat_9", "c_line.cpp", "LIM=9", unwind=20, bounds="end points within -9..9", tier="t", timeout=600) + rot("steep_9", "c_line.cpp", "STEEP", "LIM=9", unwind=20, bounds="end points within -9..9", tier="t", timeout=600) +
      clarge("flat", "LINE=-40,30,600,160", rots=(0,)) + clarge("back", "LINE=290,20,3,150", rots=(1,)) + clarge("steep", "LINE=200,270,-10,-30", rots=(2,)),
      outside="other long lines")
check("C04", rot("outline", "c_rect.cpp", unwind=13, bounds="corner within -10..10, sizes 1..10") + clarge("outline", "RECT=-20,6,310,265", rots=(1,)), outside="other large rectangles; empty or negative sizes")
check("C05", rot("filled", "c_rect.cpp", "FILLED", unwind=13, bounds="corner within -10..10, sizes 1..10") + clarge("filled", "RECT=-20,257,310,3", "FILLED", rots=(3,)), outside="other large rectangles; empty or negative sizes")

def circles(name, quick, thorough, *defs):
    us = []
    for tier, spans in (("qt", quick), ("t", thorough)):
        for lo, hi in spans:
            us += rot("%s_r%d_%d" % (name, lo, hi), "c_circle.cpp", "RMIN=%d" % lo, "RMAX=%d" % hi, *defs, unwind=2 * hi + 4, tier=tier, bounds="radius %d..%d, any centre up to a pixel beyond reach" % (lo, hi))
    return us


check("C06", circles("circle", [(0, 4), (5, 6)], [(7, 12), (13, 16)], "FIXED", "MAXH=6") + circles("any_size", [], [(0, 6)]) + clarge("circle", "CIRCLE=30,260,257", rots=(0,)), outside="other large radii and frame buffers; negative radii")
check("C07", circles("disc", [(0, 2), (3, 4)], [(5, 8)], "FILLED", "FIXED", "MAXH=6") + circles("any_size", [], [(0, 4)], "FILLED") + clarge("disc", "CIRCLE=140,140,128", "FILLED", h=4, rots=(0,), tier="t", timeout=800), outside="other large radii and frame buffers; negative radii")

FAR = "every coordinate with |c| <= 2^28, the rotation changing in between, frame buffers up to 5x5"
CL = ["GLYPHS=1", "MAXW=5", "MAXH=5"]
check("C01", [U(n, "c_clip.cpp", defs=["OP=%d" % i, "ROT=%d" % (i % 4)] + CL, unwind=k, bounds="%s; %s" % (n, FAR), **CANVAS)
              for i, n, k in [(0, "filled_rectangle_any_size", 7), (1, "circle_radius_0_2", 6), (3, "line_within_5", 8), (4, "rectangle_1_5", 7)]] +
             [U("glyph_3x2_rot%d" % (90 * i), "c_clip.cpp", defs=["OP=2", "ROT=%d" % (3 - i), "THEN=%d" % i, "GH=2", "GW=3"] + CL, unwind=5, bounds="one glyph up to 3x2; " + FAR, **CANVAS) for i in range(4)],
      outside="larger frame buffers; coordinates near the ends of int, where the arithmetic overflows")
check("C08", rot("glyph", "c_glyph.cpp", "FIRST=32", "GLYPHS=1", "FIXED", "MAXH=6", unwind=6, bounds="any glyph up to 4x3, any offset, any pen within -128..127") +
      rot("glyph_7x5", "c_glyph.cpp", "FIRST=32", "GLYPHS=1", "GW=7", "GH=5", "FAR", unwind=9, tier="t", timeout=600, bounds="any glyph up to 7x5, any offset, any pen with |c| < 2^29") +
      clarge("glyph", "GLYPH=250,260,20,-18,200", "GLYPHS=1", "GW=24", "GH=22", rots=(1,)), outside="other large glyphs and frame buffers")
check("C09", rot("string", "c_glyph.cpp", "FIRST=32", "GLYPHS=2", "GW=2", "GH=1", "STRING", "FIXED", "MAXH=6", unwind=4, bounds="strings of 0..2 characters, two glyphs up to 2x1 and a missing one, any metrics, any pen within -128..127") +
      rot("string_3", "c_glyph.cpp", "FIRST=250", "GLYPHS=2", "GW=3", "GH=2", "STRING", "FIXED", "MAXH=6", "LEN=3", unwind=5, tier="t", timeout=600, bounds="strings of 0..3 characters of codes from 250, two glyphs up to 3x2") +
      rot("string_6", "c_glyph.cpp", "FIRST=32", "GLYPHS=1", "GW=1", "GH=1", "STRING", "FIXED", "SAME", "FAR", "SHIFT=0", "LEN=6", unwind=8, bounds="6 times the same 1x1 character, any advance and offset, any pen with |c| < 2^29") +
      rot("string_40", "c_glyph.cpp", "FIRST=32", "GLYPHS=1", "GW=1", "GH=1", "STRING", "FIXED", "SAME", "NTH=39", "SHIFT=255", "LEN=40", unwind=43, hk=50, bounds="40 times the same 1x1 character with an advance of 255, the last one on the frame buffer"), outside="longer strings, larger glyphs")
FONT = dict(repo=["graphics/EmbeddedFont.cpp"])
check("F01", [U("bitmap", "f_bitmap.cpp", unwind=3, bounds="any font of 1..3 glyphs up to 4x3 with any first <= '~' and last, every character", **FONT),
              U("bitmap_large", "f_bitmap.cpp", defs=["GW=255", "GH=255", "BIG"], unwind=3, bounds="any font of 1..3 glyphs up to 255x255, anywhere in 64 KiB of bitmaps (not their contents), every character", **FONT),
              U("bitmap_8", "f_bitmap.cpp", defs=["GLYPHS=8"], unwind=3, tier="t", bounds="any font of 1..8 glyphs", **FONT)], outside="more glyphs; fonts without glyphs")
check("F02", [U("bounds", "f_bounds.cpp", unwind=4, bounds="texts of 0..3 characters, three glyphs with any metrics (sizes up to 4x3) and a missing one", **FONT),
              U("bounds_big", "f_bounds.cpp", defs=["GW=255", "GH=255", "BM=1", "LEN=2"], unwind=4, bounds="texts of 0..2 characters, any sizes (bitmaps not read)", tier="t", **FONT)], outside="longer texts")
check("F03", [U("table", "f_table.cpp", unwind=66, repo=["graphics/EmbeddedFont.cpp", "graphics/EmbeddedFonts.cpp"], bounds="every character code")])

AR = dict(inc=["mocks/arduino"])
ES = dict(inc=["mocks/esp"])
X20 = ["-std=c++20"]
A_AR = "the Arduino core is replaced by mocks/arduino and the stand-in in the harness (any behaviour its documentation allows)"
A_ES = "ESP-IDF is replaced by mocks/esp and the stand-in in the harness (any behaviour its documentation allows)"
ASPI = ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp"]
ESPI = ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp"]
AI2C = ["arduino/I2CBus.cpp", "arduino/I2CDevice.cpp"]
AUART = ["arduino/PacketUart.cpp"]
EUART = ["esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"]
def hlong(name, op, repo, *defs, m=300, few=False, **kw):
    return U("long_" + name, "h_long.cpp", defs=["OP=%d" % op, "M=%d" % m] + list(defs) + ["FEW"] * few, unwind=m + 3, hk=m + 10, repo=repo,
             cbmc=["--max-field-sensitivity-array-size", str(m + 10)], bounds="%d bytes at once, %s" % (m, "any bytes at 5 places, given ones elsewhere" if few else "any contents"), **kw)
SERIAL = ["arduino/SerialOut.cpp", "BufferedOut.cpp"]
SER = "texts of 0..3 characters twice, buffer of 5, one more byte"
check("B08", [U("arduino", "h_serial.cpp", unwind=8, repo=["arduino/SerialOut.cpp", "BufferedOut.cpp"], models=["charconv.cpp"], bounds=SER, **AR),
              U("esp32", "h_serial.cpp", unwind=8, repo=["esp32-esp-idf/SerialOut.cpp", "BufferedOut.cpp"], models=["charconv.cpp"], bounds=SER, **ES)] +
             [U("arduino_" + n, "h_serial.cpp", defs=["VT=" + t], unwind=26, cxx=TYPES, repo=SERIAL, models=["charconv.cpp"], bounds="every value of " + n, **AR) for n, t in VT.items()] +
             [U("arduino_float_bytes", "h_serial.cpp", defs=["OP=1"], unwind=34, repo=SERIAL, models=["charconv.cpp"], bounds="4 numbers, precisions 0..5, 0..3 bytes, compared with the text buffer", **AR),
              U("arduino_long_text", "h_serial.cpp", defs=["OP=2"], unwind=330, hk=660, repo=SERIAL, models=["charconv.cpp"], cbmc=["--max-field-sensitivity-array-size", "650"], bounds="any 150 bytes as 300 characters, compared with the text buffer", **AR)],
      assumptions=["the port accepts everything it is given"], outside="buffers over 65535 characters, ports that accept only a part")
MEM = (("vf_memset", 80),)
check("H01", [U(n, "h_espi.cpp", defs=["OP=%d" % i, "MOCK_CHUNK=4"], unwind=12, unwindset=MEM, repo=ESPI, bounds="0..11 bytes in chunks of 4, any contents, both duplex modes, failing or not", **ES) for i, n in enumerate(["send", "receive", "both"])] +
             [U(n + "_long", "h_espi.cpp", defs=["OP=%d" % i, "BIG=20000"], unwind=7, unwindset=MEM, repo=ESPI, bounds="0..20000 bytes in chunks of 4092 (places and sizes, not contents), failing or not", **ES) for i, n in enumerate(["send", "receive", "both"])] +
             [U(n + "_longest", "h_espi.cpp", defs=["OP=%d" % i, "BIG=65535"], unwind=18, unwindset=MEM, repo=ESPI, tier="t", bounds="0..65535 bytes in chunks of 4092 (places and sizes, not contents)", **ES) for i, n in enumerate(["send", "receive", "both"])],
      assumptions=[A_ES], outside="buses that aren't initialised; sending and receiving at once in half duplex mode, which the hardware does not offer")
check("H02", [U("lifecycle", "h_espi.cpp", defs=["OP=3", "MOCK_CHUNK=4"], unwind=12, unwindset=MEM, repo=ESPI, bounds="release, init, release, init or release, end of life, with any failures, pins and frequencies", **ES)],
      assumptions=[A_ES], outside="longer histories; a second init while the first is in use")
check("H03", [U(n, "h_aspi.cpp", defs=["OP=%d" % i], unwind=4, repo=ASPI, bounds="0..11 bytes, any contents and frequency", **AR) for i, n in enumerate(["send", "receive", "both", "bytes"])] +
             [hlong(n, i, ASPI, "SPI", m=1030, **AR) for i, n in enumerate(["send", "receive", "both"])],
      assumptions=[A_AR], outside="longer transfers")
R3 = [("receive", []), ("until", []), ("between", ["N=3", "CALLS=4"])]
RB = "buffers of 0..3 bytes, streams of %d bytes arriving at any time in at most %d reads, "
check("H04", [U(n, "h_eread.cpp", defs=["OP=%d" % i, "MOCK_TICK=1"] + d, unwind=5 if d else 8, repo=EUART, bounds=RB % ((3, 4) if d else (4, 6)) + "any bytes, timeouts and driver failures", **ES) for i, (n, d) in enumerate(R3)] +
             [hlong(n, i, EUART, "ESP", few=n != "receive", **ES) for i, (n, d) in enumerate(R3)],
      assumptions=[A_ES], outside="longer streams and buffers")
check("H05", [U(n, "h_aread.cpp", defs=["OP=%d" % i] + d, unwind=5 if d else 8, repo=AUART, bounds=RB % ((3, 4) if d else (4, 6)) + "any bytes and timeouts", **AR) for i, (n, d) in enumerate(R3)] +
             [hlong(n, i, AUART, few=True, **AR) for i, (n, d) in enumerate(R3)],
      assumptions=[A_AR], outside="longer streams and buffers")
TB = "any start of the tick counter (wraps included), any timeout, any passing of time of up to 255 ms between two looks"
check("H06", [U("arduino_" + n, "h_aread.cpp", defs=["OP=%d" % i, "TIMING"] + d, unwind=5 if d else 8, repo=AUART, bounds=TB, **AR) for i, (n, d) in enumerate(R3)] +
             [U("esp32_" + n, "h_eread.cpp", defs=["OP=%d" % i, "TIMING", "MOCK_TICK=1"] + d, unwind=5 if d else 8, repo=EUART, bounds=TB, **ES) for i, (n, d) in enumerate(R3[:2] + [("between", ["N=2", "CALLS=3", "SIZE=2"])])] +
             [U("esp32_receive_tick10", "h_eread.cpp", defs=["OP=0", "TIMING", "MOCK_TICK=10", "N=3", "CALLS=4"], unwind=5, repo=EUART, bounds="ticks of 10 ms; " + TB, **ES),
              U("esp32_between_3", "h_eread.cpp", defs=["OP=2", "TIMING", "MOCK_TICK=1", "N=3", "CALLS=4"], unwind=5, repo=EUART, bounds=TB, tier="t", **ES)],
      assumptions=[A_AR, A_ES], outside="longer streams and buffers; timeout 0")
check("H07", [U("arduino", "h_asend.cpp", unwind=10, repo=AUART, bounds="0..8 bytes, any of them accepted", **AR), U("esp32", "h_esend.cpp", defs=["OP=0"], unwind=10, repo=EUART, bounds="0..8 bytes, any of them accepted, or failure", **ES),
              hlong("arduino", 3, AUART, **AR), hlong("esp32", 3, EUART, "ESP", **ES)],
      assumptions=[A_AR, A_ES], outside="longer packets")
I2 = "0..5 bytes each way, any address and outcome"
check("H08", [U("arduino_" + n, "h_ai2c.cpp", defs=["OP=%d" % i], unwind=6, repo=AI2C, bounds=I2, **AR) for i, n in enumerate(["send", "receive", "both", "reset"])] +
             [U("esp32_" + n, "h_ei2c.cpp", defs=["OP=%d" % i], unwind=6, cxx=X20, repo=["esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp"], bounds=I2, **ES) for i, n in enumerate(["send", "receive", "both", "reset", "probe", "init"])] +
             [hlong("arduino_send", 0, AI2C, "I2C", **AR), hlong("arduino_receive", 1, AI2C, "I2C", m=250, **AR)],
      assumptions=[A_AR, A_ES], outside="longer transfers; 10 bit addresses")
check("H09", [U("arduino", "h_agpio.cpp", defs=["OP=0"], unwind=6, hk=260, repo=["arduino/GpioDigitalPin.cpp"], bounds="every pin, direction, pull and level", **AR),
              U("esp32", "h_egpio.cpp", defs=["OP=0"], unwind=6, hk=260, cxx=X20, repo=["esp32-esp-idf/GpioDigitalPin.cpp"], bounds="every pin, direction, pull, level and driver result", **ES)], assumptions=[A_AR, A_ES])
check("H10", [U("arduino", "h_agpio.cpp", defs=["OP=1"], unwind=6, hk=260, repo=["arduino/AnalogPin.cpp"], bounds="every pin and value", **AR),
              U("esp32", "h_egpio.cpp", defs=["OP=1"], unwind=11, hk=260, cxx=X20, repo=["esp32-esp-idf/AnalogPin.cpp"], bounds="two reads of every pin, any values and failures, the ESP32's pin map", **ES)], assumptions=[A_AR, A_ES], outside="other chips' pin maps")
check("H11", [U("arduino", "h_agpio.cpp", defs=["OP=2"], unwind=6, hk=260, repo=["arduino/Delays.cpp"], bounds="every time", **AR),
              U("esp32_counters", "h_egpio.cpp", defs=["OP=2", "HIGH=0xFFFF8000ull"], unwind=4, cxx=X20, repo=["esp32-esp-idf/Delays.cpp"], bounds="65536 milliseconds across the 32 bit range's end, every delay", **ES),
              U("esp32_counters_start", "h_egpio.cpp", defs=["OP=2", "HIGH=0"], unwind=4, cxx=X20, repo=["esp32-esp-idf/Delays.cpp"], bounds="the first 65536 milliseconds, every delay", **ES),
              U("esp32_microseconds", "h_egpio.cpp", defs=["OP=3"], unwind=8, cxx=X20, repo=["esp32-esp-idf/Delays.cpp"], bounds="every start and delay, ended within 6 looks at the clock", **ES)] +
             [U("esp32_light_sleep_%d" % i, "h_egpio.cpp", defs=["OP=4", "HIGH=" + h], unwind=5, cxx=X20, repo=[], bounds="%s..+255 ms at any tick count (wraps included), up to two sleeps, rejected or woken early" % h, **ES) for i, h in enumerate(["0u", "4294900u", "0x90000000u"])] +
             [U("esp32_deep_sleep", "h_egpio.cpp", defs=["OP=5", "HIGH=0u"], unwind=4, cxx=X20, repo=[], bounds="every time", **ES)],
      assumptions=[A_AR, A_ES], outside="ESP32 delay() waits whole ticks, rounded down")
check("H12", [U("init", "h_esend.cpp", defs=["OP=1"], unwind=10, repo=EUART, bounds="every port, pin, rate, line setting and driver result", **ES)], assumptions=[A_ES])

A_EX = "exceptions: the first typed handler catches every exception (all thrown here derive from std::exception)"
A_CONV = "FreeType, iconv, getopt and the streams are replaced by stand-ins (mocks/conv and the harness) with any behaviour their documentation allows"
CV = dict(inc=["mocks/conv", "/usr/include/freetype2"], exc=True, cxx=["-D_GLIBCXX_ASSERTIONS"])
GC = "gfx-font-converter/"
check("K01", [U("bits_%d" % i, "k_bits.cpp", defs=["K=%d" % i, "STEPS=6"], unwind=8, inc=["mocks/conv"], bounds="%d bits, then 6 times any bit, byte, flush or nothing" % i) for i in range(8)] +
             [U("bits_%d_more" % i, "k_bits.cpp", defs=["K=%d" % i, "STEPS=7"], unwind=9, inc=["mocks/conv"], tier="t", bounds="%d bits, then 7 steps" % i) for i in range(7)], outside="longer histories")
check("K02", [U(n, "k_encoding.cpp", defs=d, unwind=8, unwindset=(("strlen", 60), ("memcpy", 100), ("put_", 100)), models=["stdexcept.cpp"], repo=[GC + "EncodingConverter.cpp"], bounds=b, **CV)
              for n, d, b in [("text", ["RAW=0"], "5 characters of any values, each completing, continuing (up to 4) or breaking a sequence, any results of 1..4 bytes"),
                              ("text_first", ["RAW=0", "STEPS=1"], "1 character of any value and outcome, any result of 1..4 bytes"), ("text_second", ["RAW=0", "STEPS=2"], "2 characters of any values and outcomes, any results of 1..4 bytes"),
                              ("code", ["RAW=1"], "5 characters of any values, any outcomes and codes"), ("fails", ["FAILS", "RAW=0"], "any reason why the converter can't be opened")]],
      assumptions=[A_EX, A_CONV], outside="sequences longer than 4 bytes or giving more than 4")
FTS = ["works"] + ["fail%d_%d" % (f, s) for f in range(1, 8) for s in (0, 1)]
check("K05", [U(n, "k_freetype.cpp", defs=[] if n == "works" else ["FAIL=" + n[4], "SILENT=" + n[6]], unwind=12, unwindset=(("strlen", 60), ("memcpy", 100)), models=["stdexcept.cpp", "charconv.cpp"],
                repo=[GC + "FreeTypeLibrary.cpp", GC + "FreeTypeFace.cpp", GC + "FreeTypeGlyph.cpp"],
                bounds="any character, size, resolution, flags and mode" if n == "works" else "call %s of FreeType fails, %s an error text" % (n[4], "without" if n[6] == "1" else "with"), **CV) for n in FTS],
      assumptions=[A_EX, A_CONV], outside="more than one face or glyph")
def _opt(l, args="", n=3, tier="qt"):
    args = args or "".join("ab%d" % i for i in range(len(l)))
    return U("options_" + l.replace("*", "any") + ("_" + args[:n] if "e" in l else ""), "k_config.cpp", defs=["COUNT=%d" % len(l), "N=%d" % max(1, len(l)), 'LETTERS="%s"' % l, 'ARGS="%s"' % args, "LEN=%d" % n] + (["NUMBERS"] if "s" in l else []),
             unwind=12, unwindset=(("strlen", 60), ("memcpy", 100)), cbmc=["-DVF_ALLOC_MAX=64"], models=["stdexcept.cpp", "cstdlib.cpp"], repo=[GC + "FontConverterConfig.cpp"], tier=tier,
             bounds="the options %s; numbers of any 1..%d characters; other arguments fixed" % (l or "(none)", n), **CV)
check("K06", [_opt(""), _opt("fo"), _opt("e", "koi"), _opt("e", "aScII", 5), _opt("eo", "cp437kOi8R", 5), _opt("d"), _opt("s"), _opt("be", "cp1ASC"), _opt("f*"), _opt("ffoo"), _opt("fsb"), _opt("dd", tier="t")],
      assumptions=[A_EX, A_CONV], outside="other names; longer numbers; other option sequences")
CONV = [GC + f + ".cpp" for f in ("FontConverterConfig", "EncodingConverter", "FreeTypeLibrary", "FreeTypeFace", "FreeTypeGlyph")] + ["BufferedOut.cpp", "graphics/EmbeddedFont.cpp"]
KB = dict(unwind=260, hk=260, unwindset=(("memcpy", 1000), ("strlen", 160)), cbmc=["--max-field-sensitivity-array-size", "230", "--no-pointer-check"], objbits=13, models=["stdexcept.cpp", "cstdlib.cpp", "charconv.cpp"], repo=CONV, timeout=600, **CV)
HB = dict(KB, unwindset=(("memcpy", 1100), ("memset", 1100), ("strlen", 160)), cbmc=["--max-field-sensitivity-array-size", "1100", "--no-pointer-check"], models=["stdexcept.cpp", "cstdlib.cpp"], timeout=850)
SY = "any pixels, advances and positions of the glyphs "
A_MAIN = "memory safety of the converter's main function is not checked (its results are)"
check("K04", [U("ascii", "k_font.cpp", defs=["PITCH=2", "SHAPES={'A',5,3},{'~',9,2}"], bounds=SY + "A (5x3) and ~ (9x2) of 95", **KB),
              U("ends", "k_font.cpp", defs=["PITCH=1", "SHAPES={' ',8,1},{'!',1,2}"], bounds=SY + "space (8x1) and ! (1x2) of 95", **KB),
              U("eight", "k_font.cpp", defs=["PITCH=2", "SHAPES={'~',9,1},{0xA0,1,3},{0xFF,3,3}", "EIGHT=1", 'DIR_="out/"'], bounds=SY + "~ (9x1), 0xA0 (1x3) and 0xFF (3x3) of 191", **KB),
              U("large", "k_font.cpp", defs=["PITCH=32", "SHAPES={'A',255,4,200,-100,100},{'C',255,4,255,1,2},{'~',9,2,3,4,5}"], bounds="any pixels of A (255x4), C (255x4) and ~ (9x2) of 95: bitmaps beyond 255 bytes", **dict(KB, cbmc=["--max-field-sensitivity-array-size", "700", "--no-pointer-check"], tier="qt"))] +
             [U("fail%d" % f, "k_font.cpp", defs=["PITCH=1", "SHAPES={'A',3,2}", "FAIL=%d" % f, "SILENT=%d" % (f % 2)], bounds=("FreeType call %d fails" % f) if f < 7 else "", **KB) for f in range(1, 12)] +
             [U("refused_" + n, "k_font.cpp", defs=["PITCH=33", "SHAPES=" + s, "REFUSED"], bounds="a glyph just too large: " + n, **KB)
              for n, s in [("width", "{'A',256,1,5,0,0}"), ("height", "{'A',1,256,5,0,0}"), ("advance", "{'A',1,1,256,0,0}"), ("left", "{'A',1,1,2,128,0}"), ("right", "{'A',1,1,2,-129,0}"), ("top", "{'A',1,1,2,0,130}"), ("bottom", "{'A',1,1,2,0,-127}")]],
      assumptions=[A_EX, A_CONV, A_MAIN], outside="other shapes of glyphs; fonts of more than 64 KiB of bitmaps (refused)")
check("K03", [U("header", "k_font.cpp", defs=["PITCH=2", "SHAPES={'A',5,3,255,-128,-126},{'~',9,2,0,127,127}", "HEADER"], bounds="any pixels of A (5x3) and ~ (9x2) of 95, extreme positions and advances", **HB),
              U("fail7", "k_font.cpp", defs=["PITCH=1", "SHAPES={'A',3,2}", "FAIL=7", "HEADER"], bounds="the file can't be written", **HB),
              U("far", "k_font.cpp", defs=["PITCH=32", "SHAPES={'A',255,4,200,-100,100},{'C',255,4,255,1,2},{'~',9,2,3,4,5}", "HEADER", "FEWPIXELS"], bounds="A (255x4), C (255x4) and ~ (9x2) of 95, 10 bytes of any pixels: bitmaps beyond 255 bytes", **HB),
              U("lines", "k_font.cpp", defs=["PITCH=2", "SHAPES={' ',16,4,100,-10,10},{'!',12,4,7,1,-2},{'9',16,3,1,0,0}", "HEADER"], tier="t", bounds="any pixels of 20 bytes (two lines)", **HB)],
      assumptions=[A_EX, A_CONV, A_MAIN], outside="other shapes, positions and advances; the comments; file names that aren't C identifiers")
