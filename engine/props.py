"""The properties: writes properties.jsonl and MANIFEST.json (only properties with a check in registry.py are claimed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": hook}})
    if na:
        NA[id] = na


I, H, C, F = "inputs", "histories", "crash_points", "fault_sequences"
OUTF = ["BufferedOut.h", "BufferedOut.cpp"]
OUTS = [("buffer", "the caller's memory and how much of it is used", "BufferedOut.h")]
OUTW = "The tests insert a handful of short texts and numbers into a buffer that is big enough; values, settings, fill levels and capacities multiply."

p("B01", "Text output never writes outside its buffer", "Whatever is inserted into a text output, with whatever width, fill and precision, only bytes of the given buffer after the text already there change. The size only grows, never exceeds the capacity, and what was written before stays.",
  [I, H], "every inserted value, setting, fill level and buffer size", OUTW, OUTF, [("bounds checks of every insertion", "BufferedOut.cpp")], OUTS, ["size(), asStringView(), memory around the buffer"])
p("B02", "Integers appear exactly, or not at all", "Inserting an integer of any width and signedness appends exactly its decimal digits (with a minus sign when negative). When they don't fit into the rest of the buffer, nothing is appended.",
  [I], "every value of six integer types, every fill level", OUTW, OUTF, [("std::to_chars into the rest of the buffer", "BufferedOut.cpp")], OUTS, ["asStringView()"])
p("B03", "Field width pads the next number on the left, once", "After a width is set, the next integer is padded on the left with the fill character to that width, and never truncated; the width then is forgotten. The padding is cut to the room the number leaves it; a number that doesn't fit itself is not appended at all.",
  [I, H], "every non-negative width, fill, value and fill level", "The tests use two widths with room to spare.", OUTF, [("padding of the converted number", "BufferedOut.cpp")], OUTS + [("width, fill", "settings of the next insertion", "BufferedOut.h")], ["asStringView()"])
p("B04", "Floats: sign, integer part, exactly `precision` decimals, accurate", "Inserting a finite float prints a sign exactly for negative values, the digits of the integer part, and (for a precision above 0) a point and exactly that many decimals, whose value is within one unit of the last digit. When it doesn't fit, nothing but a prefix within the buffer is appended.",
  [I], "every float below 2^31 in magnitude, every precision >= 0, every fill level", "The tests print three values; rounding and sign handling depend on every bit.", OUTF, [("conversion of the integer part and the decimals", "BufferedOut.cpp")], OUTS + [("precision", "number of decimals", "BufferedOut.h")], ["asStringView()"])
p("B05", "Text is appended as it is, cut only at the end of the buffer", "Inserting a character, a C string or a text view appends its longest prefix that fits, unchanged, whatever the settings.",
  [I], "every text, every fill level, every setting", OUTW, OUTF, [("copy limited by the room left", "BufferedOut.cpp")], OUTS, ["asStringView()"])
p("B06", "Bytes appear as two hexadecimal digits each", "Inserting a byte or a span of bytes appends two hexadecimal digits per byte in order; bytes that don't fit completely are left out.",
  [I], "every byte span up to the bound, every fill level", "The tests print one span that fits.", OUTF, [("hexadecimal conversion", "BufferedOut.cpp")], OUTS, ["asStringView()"])
p("B07", "Clearing restarts; the views always show exactly the text", "After clearing, the output behaves like a new one over the same buffer. The text and data views show all of the text and nothing else at any size, including above 64 KiB.",
  [I, H], "every earlier history, every size up to 66000", "The tests never reach 64 KiB and clear once.", OUTF, [("views from the begin and the position", "BufferedOut.h")], OUTS, ["asStringView(), data(), size()"])

p("E01", "Byte order changes are exact and undo themselves", "Changing the byte order of a 16 or 32 bit value, of the two halves of a word, or of a float's bytes moves every byte to its mirrored place and changes nothing else; doing it twice gives the value back.",
  [I], "every 16 and 32 bit value", "The tests try single constants.", ["EndianConversion.h"], [("shifts and masks", "EndianConversion.h")], observe=["return values"])
p("V01", "Subviews are clipped to their view", "For every offset and count, subviews, heads and tails of a view contain exactly the elements asked for that exist in the view, in order, and never reach outside it, also when offset plus count wraps around.",
  [I], "every offset and count of 64 bits, views anywhere in an array", "The tests try a few in-range and one out-of-range argument.", ["MemoryView.h"], [("clipping in subspan/first/last", "MemoryView.h")], observe=["data(), size() of the result"])
p("V02", "A view covers exactly the memory it was made from", "However a view is made (pointer and size, two pointers, array), converted (constant, text, bytes) or iterated (both directions), it covers exactly the same memory, element for element, and writes through it arrive there.",
  [I], "every start and length within an array, any contents", "The tests check fixed arrays.", ["MemoryView.h"], [("constructors and conversions", "MemoryView.h")], observe=["elements, addresses, sizes"])

SF = ["PersistentStorage.h", "PersistentStorage.cpp"]
SS = [("buffer_", "the region that survives", "PersistentStorage.h"), ("free_head_", "end of the records", "PersistentStorage.h")]
p("S01", "Persistent storage is a map of (name, size) to the last stored value", "An object that was stored reads back with the value last stored under its name and size, whatever was stored before or since under other names or sizes. Objects never stored are absent, and updating a stored object always succeeds.",
  [I, H], "every history of up to two (thorough: three) sets of two sizes with any names and values, then one more, seen through any name", "The tests store two or three fixed objects; aliasing of names, sizes and record positions needs all histories.", SF,
  [("records chained by size, found by name and size", "PersistentStorage.h")], SS, ["get() results"])
p("S02", "A set that doesn't fit changes nothing; what fits is stored", "A new object is stored exactly when its size plus DescriptorSize still fits into the region. A refused set reports failure and leaves every byte of the region as it was; no set writes outside the region.",
  [I, H], "every region size and history within the bound", "The tests fill one region once.", SF, [("room check before the record is written", "PersistentStorage.h")], SS, ["return value, bytes of and around the region"])
p("S03", "A reopened storage has the same objects and stays usable", "Opening the region again without initialisation shows exactly the objects that were stored, with their values, and further sets behave as they would have before.",
  [H], "every history of up to two sets, then reopening, then a set", "The tests reopen one fixed image.", SF, [("scan of the chain at construction", "PersistentStorage.cpp")], SS, ["get() and set() on the second storage"])
p("S04", "Any memory image can be opened and used safely", "Opening a region with arbitrary contents ends, changes nothing, and afterwards reading and writing objects ends and never accesses memory outside the region.",
  [I, F], "every contents of regions up to the bound (what a power loss or other firmware left there)", "The tests open only images the library wrote.", SF, [("bounds checks while walking the chain", "PersistentStorage.cpp, PersistentStorage.h")], SS, ["memory accesses, termination, region contents"])
p("S05", "Names up to 4 characters and sizes tell objects apart", "Names of up to 4 characters are accepted and told apart exactly, including prefixes of each other and the empty name; longer names are refused without a change. Objects of different sizes under one name are different objects.",
  [I], "every two names of up to 6 characters", "The tests use a few distinct names.", SF, [("name comparison, descriptor of 4 characters", "PersistentStorage.h")], SS, ["set() and get() results"])

GF = ["graphics/BaseGeometry.h"]
p("G01", "Points, sizes and rectangles obey their geometry", "Moving a point or rectangle adds the offset and keeps the size, corners are the outermost pixels inside, size arithmetic and matrix products are exact, in place and by value alike.",
  [I], "every coordinate and size of 15 (int), 14 (int16_t) or 6 bits (int8_t)", "The tests check single values.", GF, [("the operators", "graphics/BaseGeometry.h")], observe=["results"])
CF = ["graphics/Canvas.h", "graphics/Canvas.cpp"]
CSTATE = [("rotate, size", "how canvas coordinates map to the frame buffer", "graphics/Canvas.h")]
CW = "The tests compare a few pictures of fixed drawings; positions, sizes, rotations and clipping multiply."
p("C01", "Drawing never leaves the frame buffer", "No drawing operation, at any coordinates and in any rotation, ever sets a pixel outside the frame buffer, and each one ends. What lies entirely outside draws nothing, whatever covers the frame buffer draws all of it.",
  [I, H], "coordinates up to 2^28, every rotation and change of it, frame buffers up to 5x5", CW, CF, [("setIfVisible, clipping", "graphics/Canvas.h, graphics/Canvas.cpp")], CSTATE, ["pixels set in the frame buffer"])
p("C02", "Rotations map every canvas pixel to its own frame buffer pixel", "In each of the four rotations the canvas has the rotated size, and drawing a pixel sets exactly the one frame buffer pixel that the clockwise rotation maps it to; rectangles map to the rectangle of their pixels.",
  [I], "every pixel coordinate, every frame buffer size up to 8x8, four rotations", CW, CF, [("transformCoords", "graphics/Canvas.cpp")], CSTATE, ["pixels set, getSize()"])
p("C03", "Lines are exact to half a pixel and complete", "A line sets both of its end pixels and exactly one pixel for each step along its longer axis, the nearest one to the ideal line, and nothing else, clipped to the frame buffer, in every rotation and direction.",
  [I], "all end points within the bound, every rotation and frame buffer size", CW, CF, [("Bresenham loop, straight lines apart", "graphics/Canvas.cpp")], CSTATE, ["pixels set"])
p("C04", "Rectangle outlines set exactly the edge pixels", "Drawing a rectangle sets exactly the visible pixels on its four edges, in every rotation and wherever it is clipped.", [I], "all rectangles within the bound, every rotation and frame buffer size", CW, CF, [("four straight lines at the transformed corners", "graphics/Canvas.cpp")], CSTATE, ["pixels set"])
p("C05", "Filled rectangles set exactly their pixels", "Drawing a filled rectangle sets exactly the visible pixels inside it, edges included, in every rotation and wherever it is clipped.", [I], "all rectangles within the bound, every rotation and frame buffer size", CW, CF, [("clipped rows", "graphics/Canvas.cpp")], CSTATE, ["pixels set"])
p("C06", "Circles set exactly the pixels nearest to the ideal circle", "Drawing a circle sets, for every row and column it spans, the pixels nearest to the ideal circle and no others (only the pixels on the diagonals may be left out), clipped, in every rotation.", [I], "every radius within the bound and every centre", CW, CF, [("Bresenham circle", "graphics/Canvas.cpp")], CSTATE, ["pixels set"])
p("C07", "Filled circles set exactly the circle's inside", "Drawing a filled circle sets exactly the pixels within the circle rounded to the nearest pixel, without gaps, clipped, in every rotation.", [I], "every radius within the bound and every centre", CW, CF, [("rows between the outline's pixels", "graphics/Canvas.cpp")], CSTATE, ["pixels set"])
p("C08", "A character sets exactly its glyph's pixels at the pen", "Drawing a character sets exactly the visible pixels that are set in its glyph's bitmap, placed by the pen, the glyph's offset and the rotation, and returns the glyph's advance; nothing outside the bitmap is read.", [I], "any glyph bitmap, size, offset and pen within the bounds, every rotation", "The tests draw a few characters of one font.", CF + ["graphics/EmbeddedFont.cpp"], [("bit loop", "graphics/Canvas.cpp")], CSTATE, ["pixels set, return value"])
p("C09", "Strings draw each character where the ones before it end", "Drawing a string draws exactly its characters in order, each with the pen moved right by the advances of those before it.", [I], "strings and glyph metrics within the bounds, every rotation", "The tests draw one string.", CF + ["graphics/EmbeddedFont.cpp"], [("drawStringAt", "graphics/Canvas.h")], CSTATE, ["pixels set"])
FF = ["graphics/EmbeddedFont.h", "graphics/EmbeddedFont.cpp", "graphics/GFXFontsAdapter.h"]
p("F01", "Every character code shows its own glyph", "For every font and every character code the glyph shown is the one at the code's place (codes between 0x7F and 0x9F take no place), or the first glyph for codes the font doesn't have. Its bitmap is exactly the bytes of that glyph.",
  [I], "every code, every first/last, fonts up to the bound", "The tests use one 7-bit font.", FF, [("index computation", "graphics/EmbeddedFont.cpp")], observe=["getBitmap() result"])
p("F02", "Text bounds contain the text", "A text drawn with its pen at the bounds' top left lies completely within the bounds' size. The width is exactly that of the drawn glyphs, and the height ends at the lowest one.",
  [I], "texts of up to 3 characters of any metrics", "The tests measure no text.", FF, [("getTextBounds", "graphics/EmbeddedFont.cpp")], observe=["getTextBounds() result"])
p("F03", "The shipped font is complete and consistent", "Every code from space to tilde of the shipped font has a glyph whose bitmap holds exactly its pixels, directly followed by the next glyph's, within the line and with an advance; all other codes show a space.",
  [I], "every character code", "The tests draw a few characters.", ["graphics/EmbeddedFonts.cpp", "graphics/GFXFonts/FreeSans15pt7b.h"] + FF, [("the tables", "graphics/GFXFonts/FreeSans15pt7b.h")], observe=["getBitmap() of the shipped font"])
PF = ["graphics/SimpleFrameBuffer.h", "graphics/FrameBufferBase.h"]
p("P01", "Setting a pixel changes that pixel only, at every colour depth", "At every colour depth, setting a pixel stores exactly the selected or given colour at that pixel's bits of the image (rows top down, most significant bits first) and leaves every other bit as it was.",
  [I], "every pixel, colour and earlier contents, all seven depths", "The tests use one bit per pixel.", PF, [("drawPixel", "graphics/SimpleFrameBuffer.h")], [("buffer", "the image", "graphics/SimpleFrameBuffer.h"), ("selectedColor", "colour of the next pixels", "graphics/SimpleFrameBuffer.h")], ["getImage()"])
p("P02", "Clearing fills the whole image; size and colour stay", "Clearing sets every pixel to the given colour at every colour depth and doesn't change the selected colour; the reported dimensions and the image size fit the depth.",
  [I, H], "every colour and earlier contents, all seven depths", "The tests use one bit per pixel.", PF, [("clear", "graphics/SimpleFrameBuffer.h")], [("buffer", "the image", "graphics/SimpleFrameBuffer.h")], ["getImage(), getWidth(), getHeight()"])

AW = "No test runs the platform code: it needs the device, and what the port or bus delivers, when, and which calls fail can't be chosen there."
p("B08", "Serial output sends each text once, complete, at its end", "What was inserted into a serial output, as far as it fits the buffer, goes to the port in order, once, when the text or line is ended, and not before. A line always ends with its newline, even when the buffer is full, and the next text starts empty.",
  [I, H], "every text within the bound, buffers exactly full and overfull", "No test uses SerialOut.", ["SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp"], [("flush", "arduino/SerialOut.cpp, esp32-esp-idf/SerialOut.cpp"), ("endl", "SerialOut.h")], observe=["bytes given to PacketUart::Send"])
SPIF = ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "SpiDevice.h"]
p("H01", "ESP32 SPI exchanges every byte once, in order, in chunks", "On ESP32 a transfer of any length sends and receives every byte exactly once and in order, in chunks no larger than the driver's limit, writes nothing else, and reports a failing driver call by stopping and returning false.",
  [I, F], "every length of 16 bits, any contents, any failing chunk", AW, SPIF, [("transfer", "esp32-esp-idf/SpiBus.cpp")], [("maxTransferSize", "largest chunk", "esp32-esp-idf/SpiBus.h")], ["driver calls, receive buffer, return value"])
p("H02", "ESP32 SPI bus is set up and released completely", "Initialising the ESP32 SPI bus succeeds exactly when bus and device are both set up with the given pins, frequency and mode. A failure leaves nothing set up. Releasing it, or its end of life, removes the device before freeing the bus; afterwards it can be initialised again. Failures are reported, and a failed removal can be tried again.",
  [H, F], "every history of up to two inits and releases with any failures", AW, SPIF, [("init, release, destructor", "esp32-esp-idf/SpiBus.cpp")], [("spiDevice", "device on the bus, null when none", "esp32-esp-idf/SpiBus.h")], ["driver calls, return values"])
p("H03", "Arduino SPI exchanges every byte once within a transaction", "On Arduino sending, receiving and exchanging move every byte exactly once and in order within one transaction with the bus settings, that is always ended; only the receive buffer is written.",
  [I], "every length up to 11, any contents and frequency", AW, ["arduino/SpiBus.h", "arduino/SpiBus.cpp", "arduino/SpiDevice.cpp"], [("chunks of 4 bytes and rest", "arduino/SpiBus.cpp")], observe=["bytes on the bus, receive buffer"])
UF = ["PacketUart.h"]
UW = "the received bytes in order, at most as many as the buffer has; reception until an end byte stops right after it, reception between bytes starts with the first start byte (skipping what comes before) and stops after the next end byte. Nothing else in the buffer changes and no received byte is lost. "
p("H04", "ESP32 serial reception delivers the bytes received, in order", "On ESP32 each receive function returns exactly " + UW + "A failing driver yields 0 bytes or ends the packet, never a made up length.",
  [I, F, "schedules"], "every byte stream, arrival pattern, buffer size and driver failure within the bound", AW, UF + ["esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("receive loops", "esp32-esp-idf/PacketUart.cpp")], observe=["buffer, return value, driver calls"])
p("H05", "Arduino serial reception delivers the bytes received, in order", "On Arduino each receive function returns exactly " + UW + "The port's own timeout setting is as before afterwards.",
  [I, "schedules"], "every byte stream, arrival pattern and buffer size within the bound", AW, UF + ["arduino/PacketUart.cpp"], [("receive loops", "arduino/PacketUart.cpp")], observe=["buffer, return value, port calls"])
p("H06", "Serial timeouts are kept, also when the tick counter wraps", "With a timeout, reception never waits for longer than what is left of it, never gives up before it has passed without an error or the end of the packet, and returns once it has passed, whatever arrives and whatever the tick counter's value at the start.",
  [I, "schedules"], "every start of the counter, timeout and passing of time", AW, UF + ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"], [("elapsed = now - start", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], observe=["waits asked from the driver, time passed"])
p("H07", "Serial sending hands over the packet and reports what was taken", "Sending gives exactly the packet's bytes in order to the port, waits until they are sent, and returns how many were accepted, 0 on failure; on Arduino the port's own timeout is restored.",
  [I, F], "every packet up to 8 bytes, any accepted part, failures", AW, UF + ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("Send", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], observe=["port calls, return value"])
p("H08", "I2C success means exactly these bytes were exchanged", "An I2C transfer addresses the device given, moves the bytes in order, and returns true exactly when the device acknowledged and all bytes were moved; the combined transfer receives only after everything was sent. Bus reset sends the general call reset, a probe (ESP32) reports whether the address acknowledges and releases its resources, setup (ESP32) reports failures.",
  [I, F], "every address, content, length up to 5, outcome", AW, ["I2CDevice.h", "arduino/I2CBus.cpp", "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp"], [("sendSync, receiveSync", "arduino/I2CDevice.cpp, esp32-esp-idf/I2CDevice.cpp")], observe=["driver calls, buffers, return values"])
p("H09", "Digital pins and chip select drive exactly their pin", "A digital pin is set up with the asked direction and pull, is set, reset and read at exactly its pin, and pins that don't exist (ESP32) are refused. A chip selector holds its pin low for its lifetime and high afterwards.",
  [I], "every pin number, direction, pull mode, level", AW, ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], [("init, set, reset, check", "arduino/GpioDigitalPin.cpp, esp32-esp-idf/GpioDigitalPin.cpp"), ("ChipSelector", "GpioDigitalPin.h")], observe=["platform calls"])
p("H10", "Analog reads return the pin's value, -1 on failure, again and again", "An analog read returns the value of exactly that pin; on ESP32 it returns -1 for pins without a channel and when the driver fails, and always releases the converter, so that the next read works.",
  [I, H, F], "every pin, value and failure, two reads", AW, ["AnalogPin.h", "arduino/AnalogPin.cpp", "esp32-esp-idf/AnalogPin.cpp"], [("singleReadADC", "esp32-esp-idf/AnalogPin.cpp")], observe=["return value, driver calls"])
p("H11", "Time, delays and sleeps are exact, also when the counter wraps", "The tick functions return the platform's time in milliseconds and microseconds. Delays wait for the time asked for (ESP32 milliseconds: whole ticks of it), no less and no longer than needed to notice. Sleeping lasts as long as asked, also when woken early, when sleep is refused, and when the counter wraps.",
  [I, "schedules"], "every start time, duration and wake up", AW, ["Delays.h", "arduino/Delays.cpp", "esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SleepFunctions.h"], [("ligntSleep, deepSleep", "esp32-esp-idf/SleepFunctions.h"), ("delayMicroseconds", "esp32-esp-idf/Delays.cpp")], observe=["platform calls, time passed"])
p("H12", "ESP32 serial ports are set up as asked, once", "Setting up an ESP32 serial port configures that port with the given pins (send and receive not swapped) and line settings before reporting success, and leaves a port alone that is already set up.",
  [I, F], "every port, pin, rate, setting and driver result", AW, ["esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/SimpleUartDevice.h"], [("init", "esp32-esp-idf/SimpleUartDevice.cpp")], observe=["driver calls"])

KW = "The font converter has no tests at all."
KC = "gfx-font-converter/"
p("K01", "Bits and bytes come out of the bit stream in order, complete", "Bits and bytes written to a BitStream in any mixture reach the stream below in order, most significant bit first, each full byte at once. A flush completes a started byte with zero bits and does nothing otherwise.",
  [I, H], "every sequence of bits, bytes and flushes up to the bound, starting at every bit position", KW, [KC + "BitStream.h"], [("operator<<, flush", KC + "BitStream.h")], [("buffer, bitCount", "the byte being filled", KC + "BitStream.h")], ["bytes passed to the stream below"])
p("K02", "Characters are converted as the sequences they form", "Characters given one by one to an EncodingConverter are converted as soon as they complete a sequence, to exactly what the encoding makes of it; unfinished and invalid sequences give nothing (code 0) and leave nothing behind for the next. A converter that can't be opened is reported by an exception, and one that was opened is closed once.",
  [I, H, F], "every sequence of characters and outcomes up to the bound", KW, [KC + "EncodingConverter.h", KC + "EncodingConverter.cpp"], [("convertRaw, convert", KC + "EncodingConverter.cpp")], [("buf, inSize", "the sequence so far", KC + "EncodingConverter.h")], ["returned text or code, calls of iconv"])
KM = [KC + "main.cpp", KC + "FreeTypeFace.cpp", KC + "EncodingConverter.cpp", "graphics/GFXFontsAdapter.h", "graphics/EmbeddedFont.cpp", "BufferedOut.cpp"]
p("K03", "Fonts converted to C text show the glyphs rendered", "The C text the font converter writes declares the font's bitmaps, glyphs and range under the font's name; compiled into a font and shown by EmbeddedFont, each character has exactly the pixels, size, advance and position FreeType rendered, at the size and resolution asked for.",
  [I, F], "every content of the glyphs' bitmaps, extreme positions and advances", KW, KM, [("writeHeaderFile, HexStringStream, TextGlyphStream, main", KC + "main.cpp")], observe=["the text written, EmbeddedFont's glyphs"])
p("K04", "Fonts converted to binary files show the glyphs rendered", "The two files the font converter writes, used as a font by EmbeddedFont, give each character of the encoding exactly the pixels, size, advance and position FreeType rendered. Glyphs too large for the format, files that can't be written and errors of FreeType or the command line are reported, and the program's result is 1; everything opened is closed.",
  [I, F], "every content, advance and position of the glyphs; every failing call", KW, KM, [("conversion loop, writing the table", KC + "main.cpp")], observe=["the files written, messages, the program's result, EmbeddedFont's glyphs"])
p("K05", "FreeType errors are reported, its objects released once, in order", "Every failing FreeType call becomes an exception with a message (also when FreeType has no texts for errors). Characters are rendered from the font, at the size and resolution asked for. Everything opened is released exactly once, the glyph and face before the library, also after errors and moves.",
  [I, F], "every failing call, with and without error texts; every character, size and resolution", KW, [KC + f for f in ("FreeTypeLibrary.h", "FreeTypeLibrary.cpp", "FreeTypeFace.h", "FreeTypeFace.cpp", "FreeTypeGlyph.h", "FreeTypeGlyph.cpp", "FreeTypeError.h")], [("owning handles, error checks", KC + "FreeTypeFace.cpp, FreeTypeGlyph.cpp, FreeTypeLibrary.cpp")], observe=["calls of FreeType, exceptions"])
p("K06", "The converter does what its command line asks for", "The font converter's settings are exactly those of its options (the last one of a kind wins) and the defaults otherwise; encodings are told in any case, and the last character is that of the encoding (7 or 8 bits). Numbers that aren't any are refused with an error; unknown options ask for help.",
  [I, F], "every number argument up to the bound, option sequences up to 4", KW, [KC + "FontConverterConfig.h", KC + "FontConverterConfig.cpp", KC + "main.cpp"], [("option loop", KC + "FontConverterConfig.cpp")], observe=["the getters, exceptions"])


def main():
    order = [x["id"] for x in PROPS]
    assert len(set(order)) == len(order)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in PROPS:
        c = registry.CHECKS.get(x["id"])
        if c is None:
            na.append({"property": x["id"], "reason": NA.get(x["id"], "no check yet")})
            continue
        quick = [u.bounds for u in c["units"] if "q" in u.tier]
        checks.append({"property": x["id"], "quick_cmd": "python3 engine/vf.py check " + x["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 engine/vf.py check " + x["id"],
                       "technique": "bounded symbolic execution of the compiled sources (LLVM IR to C, CBMC/SAT), counterexamples replayed natively",
                       "level": "other",
                       "level_note": "Holds for every input within the bounds of the harnesses (%d at the quick tier; e.g. %s), by the solver's verdict with unwinding assertions. Outside: %s. Trusted: clang's front end, engine/ir2c, CBMC and its SAT solver%s." % (
                           len(quick), quick[0] if quick else "-", c["outside"] or "nothing known", "; " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
    extra = set(registry.CHECKS) - set(order) - {"T"}
    assert not extra, extra
    m = {"version": 1, "setup_cmd": "python3 engine/vf.py setup", "checks": checks, "not_applicable": na,
         "notes": "One engine for all checks: see DESIGN.md. No hooks in /repo: the checks compile /repo's sources as they are, with mocks of the platform headers where the platform is missing. /verif/known_findings.jsonl lists the defects found and repaired."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not")


if __name__ == "__main__":
    main()
