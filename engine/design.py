"""Fills the per-property part of DESIGN.md from ORACLES below and the bounds in registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import registry
ORACLES = {
"B01": "The output starts at any fill level (reached by inserting text) in the middle of a larger array; afterwards every byte outside [old size, new size) of the buffer must be what it was, old size <= new size <= capacity.",
"B02": "The value is chosen as a sum of digits (leading one non-zero), so the expected text is known without dividing; the text must be it, or nothing when the room is smaller.",
"B03": "As B02, with the expected text preceded by max(0, min(width, room) - length) fill characters; then a second number, for which the width must be gone.",
"B04": "The float's mantissa and exponent are taken apart with integers; the integer part as in B02, the fraction as a 40 bit fixed point number, against which the printed digits are summed up and compared (error within one unit of the last digit).",
"B05": "Byte for byte against the inserted text, cut at the room.",
"B06": "Digits by a table of 16 characters; the number of bytes shown is room / 2.",
"B07": "After any insertions and clear(), a second output over an equal buffer is given the same insertion: both must be equal. Views: sizes up to 66000, contents not modelled.",
"B08": "A stand-in port records what it is given; it must be the concatenation of the texts as far as they fit, each sent at its end.",
"E01": "Bytes through memcpy, mirrored by the harness.",
"V01": "Bounds in 128 bit arithmetic; the subview's addresses and every element against the array.",
"V02": "Addresses, sizes, elements and writes of every kind of conversion against the array; reverse iteration mirrored.",
"S01": "A ghost map: the last value set per (name, type). Concrete types and order of sets per unit, symbolic names and values; then any (name, type) is read. No layout is assumed, only what DescriptorSize promises about room.",
"S02": "Ghost room: a new object fits exactly when size + DescriptorSize <= rest. A refused set must leave a byte-for-byte equal region; canaries around the region.",
"S03": "As S01 with a second PersistentStorage over the same memory without initialisation.",
"S04": "The region is an array of nondeterministic bytes; CBMC's pointer checks and canaries decide memory safety, unwinding assertions decide termination (each step of a chain takes at least a byte).",
"S05": "Two names of any 0..6 characters: when both are accepted, the second finds the first's value exactly if they are equal; refused names leave the region as it was.",
"G01": "Coordinates in 64 bit arithmetic, pixel by definition (corner = origin + size - 1).",
"C01": "A frame buffer that asserts its own range, coordinates up to 2^28; entirely outside: no pixel; covering: every pixel (watched pixel symbolic).",
"C02": "A recording frame buffer watches one symbolic pixel and counts its settings; the rotation's formula is written down once in the harness (`canvas.h`).",
"C03": "For each step along the longer axis the pixel with |2*minor error| <= longer length, by multiplication (no error accumulator); either one on a tie, the same for all pixels of a step: exactly one per step.",
"C04": "Membership of the watched pixel in the rectangle's edges.",
"C05": "Membership of the watched pixel in the rectangle.",
"C06": "Nearest pixel on the row or column: d2 - m < r2 <= d2 + m for m = max(|dx|, |dy|), which is (m - 1/2)^2-rounding without fractions; pixels with |dx| = |dy| are free.",
"C07": "d2 - m < r2 (see C06).",
"C08": "The bit of the watched pixel in the glyph's bitmap, rows packed without padding; reads outside the bitmap are caught by pointer checks on an exactly sized array.",
"C09": "As C08 for each character, its pen the sum of the advances before.",
"F01": "The code's place is counted in the harness (code - first, less 33 above 0x9F), the bitmap's size is (width * height + 7) / 8.",
"F02": "Every glyph's box against the reported size, and equality for the widest and lowest.",
"F03": "Each glyph's offset is the sum of the sizes before; the table of the shipped font is part of the encoding.",
"P01": "Every bit of the image is computed by position arithmetic (pixel = bit / depth) on constants, against the code's masks and shifts.",
"P02": "As P01 with all pixels.",
"H01": "A stand-in spi_device_polling_transmit copies or counts the bytes of each transaction and may fail at any of them; the ghost position must advance without gaps, up to the driver's limit.",
"H02": "A stand-in driver keeps the state of bus and device and refuses (asserts) calls in the wrong state; failures are symbolic.",
"H03": "A stand-in SPIClass records begin/transfer/end and returns symbolic bytes.",
"H04": "A stand-in driver holds a symbolic stream whose bytes arrive at symbolic times; what is read must be its next bytes up to the end byte or the buffer's size, and the rest must still be there.",
"H05": "As H04 with a stand-in HardwareSerial, with its own timeout.",
"H06": "The stand-in's clock starts anywhere (wraps included) and advances by symbolic amounts; waiting times given to the driver, the time at the end and reasons to end are compared with it in 64 bits.",
"H07": "A stand-in port records the packet.",
"H08": "A stand-in Wire / i2c_master driver records addresses and bytes, with symbolic acknowledgements and failures.",
"H09": "A stand-in GPIO driver records the settings per pin.",
"H10": "A stand-in ADC counts open units, returns symbolic values or failures.",
"H11": "A symbolic clock in 64 bits; waiting is measured by it.",
"H12": "A stand-in UART driver records the settings.",
"K01": "A ghost of the bits written; each byte of the stream is compared when due.",
"K02": "A stand-in iconv with symbolic behaviour per call (completes, needs more, breaks), which asserts what it is given; the expected code is decoded from the bytes given by formula.",
"K03": "The program's whole main runs in the encoding, with stand-ins for FreeType and the file system; the C text is taken apart by a small parser in the harness, the font made of it is shown by the real EmbeddedFont and compared with the rendered pixels.",
"K04": "As K03 with the binary files read back.",
"K05": "Stand-in FreeType with counted objects; order of release asserted; each call may be the failing one.",
"K06": "Options come from a stand-in getopt; symbolic number texts, decimal value computed in the harness.",
}
start, end = "<!-- per property: begin (engine/design.py) -->\n", "<!-- per property: end -->\n"


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = []
    for p in props:
        c = registry.CHECKS.get(p["id"])
        if not c:
            continue
        q = [u for u in c["units"] if "q" in u.tier]
        t = [u for u in c["units"] if u.tier == "t"]
        bounds = []
        for u in q:
            b = u.bounds.strip()
            if b and b not in bounds:
                bounds.append(b)
        show = bounds if len(bounds) <= 4 else bounds[:3] + ["... (%d more in registry.py)" % (len(bounds) - 3)]
        out.append("### %s %s\n- Oracle: %s\n- Quick bounds (%d harnesses): %s.\n" % (p["id"], p["title"], ORACLES[p["id"]], len(q), "; ".join(show)))
        tb = []
        for u in t:
            if u.bounds.strip() and u.bounds.strip() not in tb:
                tb.append(u.bounds.strip())
        if tb:
            out.append("- Thorough adds %d harnesses: %s.\n" % (len(t), "; ".join(tb[:3]) + ("; ..." if len(tb) > 3 else "")))
        if c["outside"]:
            out.append("- Outside: %s.\n" % c["outside"])
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    a, b = s.index(start) + len(start), s.index(end)
    s = s[:a] + "".join(out) + s[b:]
    rows = ["| bug | caught by | what it needs | what it breaks |\n|---|---|---|---|\n"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"]))
    start2, end2 = "<!-- seeds: begin (engine/design.py) -->\n", "<!-- seeds: end -->"
    a, b = s.index(start2) + len(start2), s.index(end2)
    open(path, "w").write(s[:a] + "".join(rows) + s[b:])


if __name__ == "__main__":
    main()
