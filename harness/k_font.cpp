// K04, K03: a font converted to the binary format (HEADER: to C) shows the glyphs FreeType rendered; what fails is reported.
#ifndef FAIL
#define FAIL 0                  // 1..6: a call of FreeType, 7, 8: a file; 9: a number that isn't one; 10: asked for help; 11: no font
#endif
#ifndef SILENT
#define SILENT 0
#endif
#ifndef EIGHT
#define EIGHT 0
#endif
#ifndef DIR_
#define DIR_ "bin/"
#endif
#ifdef HEADER
#define BINARY
#else
#define BINARY { 'b', nullptr },
#endif
#if FAIL == 9
#define OPTIONS { 'f', "d/a.ttf" }, { 's', "x" }
#elif FAIL == 10
#define OPTIONS { 'f', "d/a.ttf" }, { 'h', nullptr }
#elif FAIL == 11
#define OPTIONS { 'b', nullptr }
#elif EIGHT
#define OPTIONS { 'f', "d/a.ttf" }, BINARY { 'e', "koi8-R" }, { 'o', "out" }
#define LAST 0xFF
#define COUNT 191
#define PT "12pt8b"
#else
#define OPTIONS { 'f', "d/a.ttf" }, BINARY { 's', "9" }, { 'd', "72" }
#define PT "9pt7b"
#endif
#ifndef LAST
#define LAST 0x7E
#define COUNT 95
#endif
#define ENCODING (EIGHT ? "KOI8-R" : "ASCII")
#include "conv.h"
#include "graphics/EmbeddedFont.h"
// the characters with a bitmap; all others are empty
struct Shape { FT_ULong code; unsigned w, h; FT_Pos shift; int left, top; };   // shift, left, top: for REFUSED and HEADER only
static const Shape shapes[] = { SHAPES };
static const int SN = sizeof(shapes) / sizeof(shapes[0]);
static uint8_t pixels[SN][PITCH * 4];
#if defined(REFUSED) || defined(HEADER)
static const bool fixed = true;
#else
static const bool fixed = false;
#endif
static uint8_t advance[SN];
static int8_t left_[SN], top_[SN];
static bool rendered[SN];
static void makeGlyph(FT_BitmapGlyphRec& g, FT_ULong code)
{
    g.bitmap.rows = g.bitmap.width = 0;
    g.bitmap.pitch = 0;
    g.bitmap.buffer = nullptr;
    g.left = g.top = 0;
    g.root.advance.x = 0;
    for (int i = 0; i < SN; ++i)
        if (shapes[i].code == code)
        {
            rendered[i] = true;
            g.bitmap.rows = shapes[i].h;
            g.bitmap.width = shapes[i].w;
            g.bitmap.pitch = PITCH;
            g.bitmap.buffer = pixels[i];
            g.left = fixed ? shapes[i].left : left_[i];
            g.top = fixed ? shapes[i].top : top_[i];
            g.root.advance.x = (fixed ? shapes[i].shift : FT_Pos(advance[i])) * 65536;
        }
}
using namespace embedded::fonts;
static GlyphDescriptor glyphs[COUNT];
static uint8_t bitmaps[PITCH * 4 * SN];
#ifndef HEADER
static uint8_t one[7];
static void put(int file, unsigned at, char c)
{
    static_assert(sizeof(GlyphDescriptor) == 7);
    if (file == 0) { vf_assert(at < sizeof bitmaps, "no more than the font's bitmaps"); bitmaps[at] = uint8_t(c); return; }
    vf_assert(at < sizeof glyphs, "no more than the font's glyphs");
    one[at % 7] = uint8_t(c);
    if (at % 7 != 6) return;
    GlyphDescriptor& g = glyphs[at / 7];        // by value, for the solver's constant propagation
    g.bitmapOffset = uint16_t(one[0] | one[1] << 8);
    g.size.width = one[2];
    g.size.height = one[3];
    g.shift = one[4];
    g.offset.width = int8_t(one[5]);
    g.offset.height = int8_t(one[6]);
}
#else
// reads the C text: identifiers, numbers and punctuation; comments and spaces mean nothing
static const char* const bitmapsStart = "const uint8_t a" PT "Bitmaps [ ] = { ";
static const char* const glyphsStart = "const GFXglyph a" PT "Glyphs [ ] = { ";
static const char* const fontText = "const GFXfont a" PT " = { a" PT "Bitmaps , a" PT "Glyphs , # , # , # } ; ";
static char word[20], last;
static unsigned wordSize, number;
static int digits;              // hexadecimal digits to come
static bool comment, isNumber, negative, hex;
static int part;                // 0: bitmaps, 1: glyphs, 2: the font, 3: the end
static unsigned place;          // in the text expected
static unsigned bytesRead, glyphsRead, fields;
static int field[6], fontField[3];
static const char* expected() { return part == 0 ? bitmapsStart : part == 1 ? glyphsStart : fontText; }
static void token(const char* t, unsigned n)        // a word or a sign that isn't a number
{
    const char* e = expected();
    if (part < 3 && e[place] != 0)
    {
        for (unsigned i = 0; i < n; ++i) vf_assert(e[place + i] == t[i], "the declaration of the font");
        vf_assert(e[place + n] == ' ', "the declaration of the font");
        place += n + 1;
        if (part == 2 && e[place] == 0) part = 3;
        return;
    }
    vf_assert(part < 3 && n == 1, "nothing but values");
    static const char shape[] = "{#,{#,#},#,{#,#}}";
    if (part == 0)
    {
        if (*t == ',') { vf_assert(fields == 1, "a value before a comma"); fields = 0; }
        else if (*t == '}') fields = 2;
        else { vf_assert(*t == ';' && fields == 2, "the end of the bitmaps"); part = 1; place = fields = 0; digits = 0; }
    }
    else if (fields < 17) { vf_assert(shape[fields] == *t, "a glyph"); ++fields; }
    else if (*t == ',') { vf_assert(fields == 17, "a glyph before a comma"); fields = 0; }
    else if (*t == '}') { vf_assert(fields == 17, "a glyph before the end"); fields = 18; }
    else { vf_assert(*t == ';' && fields == 18, "the end of the glyphs"); part = 2; place = 0; }
    if (part == 1 && fields == 17 && *t == '}')
    {
        vf_assert(glyphsRead < COUNT, "no more glyphs than characters");
        GlyphDescriptor& g = glyphs[glyphsRead++];
        g.bitmapOffset = uint16_t(field[0]); g.size.width = uint8_t(field[1]); g.size.height = uint8_t(field[2]);
        g.shift = uint8_t(field[3]); g.offset.width = int8_t(field[4]); g.offset.height = int8_t(field[5]);
        vf_assert(g.bitmapOffset == field[0] && g.size.width == field[1] && g.size.height == field[2] && g.shift == field[3]
                  && g.offset.width == field[4] && g.offset.height == field[5], "values the glyph can hold");
    }
}
static void value(int v)
{
    if (part == 0)
    {
        vf_assert(fields == 0 && bytesRead < sizeof bitmaps && v <= 255, "bytes with commas between them");
        bitmaps[bytesRead++] = uint8_t(v);
        fields = 1;
    }
    else if (part == 1)
    {
        const int f = fields == 1 ? 0 : fields == 4 ? 1 : fields == 6 ? 2 : fields == 9 ? 3 : fields == 12 ? 4 : fields == 14 ? 5 : -1;
        vf_assert(f >= 0, "values where they belong");
        field[f] = v;
        ++fields;
    }
    else
    {
        const char* e = expected();
        vf_assert(part == 2 && e[place] == '#', "the font's own values");
        fontField[place == sizeof("const GFXfont a" PT " = { a" PT "Bitmaps , a" PT "Glyphs , ") - 1 ? 0 : e[place + 4] == '#' ? 1 : 2] = v;
        place += 2;
    }
}
static void endWord()
{
    if (isNumber) { vf_assert(digits == 0 && !(hex && number > 255), "hexadecimal numbers have two digits"); value(negative ? -int(number) : int(number)); }
    else if (wordSize) token(word, wordSize);
    wordSize = 0;
    isNumber = negative = hex = false;
    number = 0;
}
enum Kind : uint8_t { BAD, SPACE, LINE, SLASH, DIGIT, LETTER, MINUS, SIGN };
struct Kinds
{
    uint8_t of[128] = {};
    constexpr Kinds()
    {
        for (int c = '0'; c <= '9'; ++c) of[c] = DIGIT;
        for (int c = 'a'; c <= 'z'; ++c) of[c] = of[c - 'a' + 'A'] = LETTER;
        of[' '] = SPACE; of['\n'] = LINE; of['/'] = SLASH; of['-'] = MINUS; of['_'] = LETTER;
        of['['] = of[']'] = of['{'] = of['}'] = of['='] = of[';'] = of[','] = SIGN;
    }
};
static constexpr Kinds kinds;
static void put(int, unsigned, char c)
{
    if (digits)             // their values may be anything: never looked at but as digits
    {
        const bool dec = c >= '0' && c <= '9', up = c >= 'A' && c <= 'F', low = c >= 'a' && c <= 'f';
        vf_assert(dec || up || low, "a hexadecimal digit");
        number = number * 16 + unsigned(c - (dec ? '0' : up ? 'A' - 10 : 'a' - 10));
        --digits;
        last = '0';
        return;
    }
    if (comment)
    {
        if (c == '\n') { vf_assert(last != '\\', "comments end at the end of their line"); comment = false; }
        last = c;
        return;
    }
    const uint8_t kind = kinds.of[c & 127];
    if (kind == SPACE && last == ' ') return;
    const char before = last;
    last = c;
    if (kind == SLASH)
    {
        endWord();
        comment = before == '/';
        return;
    }
    vf_assert(c >= 0 && kind != BAD && before != '/', "signs that mean something; comments start with two slashes");
    if (kind == DIGIT && wordSize == 0) { isNumber = true; number = number * 10 + unsigned(c - '0'); return; }
    if (kind == LETTER || kind == DIGIT)
    {
        if (isNumber) { vf_assert(c == 'x' && number == 0, "0x starts a hexadecimal number"); digits = 2; hex = true; return; }
        vf_assert(wordSize < sizeof word, "words of the declarations");
        word[wordSize++] = c;
        return;
    }
    vf_assert(!negative || isNumber, "a number after its sign");
    endWord();
    if (kind == MINUS) negative = true;
    else if (kind == SIGN) token(&last, 1);
}
#endif
void vf_harness()
{
    ftSize.metrics.height = 20 * 64 + 32;
    for (int i = 0; i < SN; ++i)
    {
#ifdef FEWPIXELS
        for (unsigned k = 0; k < sizeof pixels[i]; ++k) pixels[i][k] = uint8_t(k * 37 + unsigned(i) * 11 + 5);
        for (unsigned y = 0; y < shapes[i].h; y += 3) pixels[i][y * PITCH] = vf_nd_u8("pixels"), pixels[i][y * PITCH + (shapes[i].w - 1) / 8] = vf_nd_u8("pixels");
#else
        vf_fill(pixels[i], sizeof pixels[i]);
#endif
        advance[i] = vf_nd_u8("advance");
        left_[i] = vf_nd_i8("left");
        top_[i] = vf_nd_i8("top");
        vf_assume(1 - top_[i] <= 127);
    }
    ft.fail = FAIL < 7 ? FAIL : 0;
    ft.silent = SILENT;
    ft.error = 0x55;
    failFile = FAIL > 6 && FAIL < 9 ? FAIL - 6 : 0;
#if EIGHT
    directory = "out";
#endif
    const int r = convert();
#ifndef PT
#define PT ""
#endif
#if FAIL || defined(REFUSED)
    vf_assert(r == 1, "an error is the program's result");
    vf_assert(complained == (FAIL < 10), "errors are reported");
    vf_assert(files == (FAIL == 8), "nothing is written");
    return;
#endif
    vf_assert(r == 0 && !complained, "converts");
    vf_assert(ft.height == 0 && ft.width == (EIGHT ? 12 : 9) * 64 && ft.horizontal == (EIGHT ? 141 : 72), "the size and resolution asked for");
#ifdef HEADER
    vf_assert(files == 1 && named(0, DIR_ "a" PT ".h"), "one header, with its name");
    vf_assert(part == 3 && glyphsRead == COUNT, "the whole font");
    vf_assert(fontField[0] == 0x20 && fontField[1] == LAST && fontField[2] == 20, "the range of characters and the height of a line");
    length[0] = bytesRead;
#else
    vf_assert(files == 2, "two files");
    vf_assert(named(0, DIR_ "a" PT "Bitmaps.bin") && named(1, DIR_ "a" PT "Glyphs.bin"), "the files' names");
    vf_assert(length[1] == sizeof glyphs, "a descriptor per character");
#endif
    vf_witness(true, "converted");
    const FontDescriptor d { { bitmaps, length[0] }, { glyphs, COUNT }, 0x20, LAST, 10 };
    const EmbeddedFont font(d);
    for (int i = 0; i < SN; ++i)
    {
        vf_assert(rendered[i], "every character is rendered");
        const auto b = font.getBitmap(char(shapes[i].code));
        vf_assert(b.effectiveSize.width == int(shapes[i].w) && b.effectiveSize.height == int(shapes[i].h), "the bitmap's size");
        const int8_t left = int8_t(fixed ? shapes[i].left : left_[i]), top = int8_t(fixed ? shapes[i].top : top_[i]);
        vf_assert(b.width == (fixed ? int(shapes[i].shift) : advance[i]), "how far the pen moves");
        vf_assert(b.offset.width == left && b.offset.height == 1 - top, "where the bitmap lies");
        const int n = int(shapes[i].w * shapes[i].h);
        vf_assert(int(b.bitmap.size()) == (n + 7) / 8, "the bitmap's bytes");
        for (int y = 0; y < int(shapes[i].h); ++y)
            for (int x = 0; x < int(shapes[i].w); ++x)
            {
                const int k = y * int(shapes[i].w) + x;
                vf_assert(((b.bitmap[size_t(k / 8)] >> (7 - k % 8)) & 1) == ((pixels[i][y * PITCH + x / 8] >> (7 - x % 8)) & 1), "the pixels FreeType rendered");
            }
    }
}
