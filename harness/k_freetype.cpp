// K05: FreeType's failures become errors with a message; what was opened is closed, once, glyph and face before the library.
#include "freetype.h"
#include "gfx-font-converter/FreeTypeLibrary.h"
#include "gfx-font-converter/FreeTypeFace.h"
#include "gfx-font-converter/FreeTypeGlyph.h"
static uint32_t symbol;
static int32_t flags, xRes, yRes;
static FT_F26Dot6 width, height;
static FT_Render_Mode mode;
static bool reached;
static void makeGlyph(FT_BitmapGlyphRec&, FT_ULong) {}
static void run(int fail)
{
    ft.fail = fail;
    bool thrown = false;
    try
    {
        FreeTypeLibrary library;
        vf_assert(library.get() == reinterpret_cast<FT_Library>(&ftLibrary), "the library opened");
        FreeTypeFace opened = library.createFace("a.ttf", 1);
        vf_assert(__builtin_strcmp(ft.path, "a.ttf") == 0 && ft.index == 1, "the font asked for");
        FreeTypeFace face(std::move(opened));
        vf_assert(face.get() == &ftFace, "the face opened");
        face.setCharSize(width, height, xRes, yRes);
        vf_assert(ft.width == width && ft.height == height && ft.horizontal == FT_UInt(xRes) && ft.vertical == FT_UInt(yRes), "the size asked for");
        {
            FreeTypeGlyph got = face.renderGlyph(symbol, flags, mode);
            vf_assert(ft.code == symbol && ft.flags == flags && ft.mode == mode, "the character asked for");
            vf_assert(ft.glyphs == 1, "a glyph to use");
            FreeTypeGlyph glyph(std::move(got));
            vf_assert(&glyph.getBitmapGlyph() == &ftGlyph, "its bitmap");
            vf_assert(!ft.outline, "only bitmaps are taken for bitmaps");
            reached = true;
        }
        vf_assert(ft.glyphs == 0, "the glyph is freed");
    }
    catch (const std::exception& e)
    {
        thrown = true;
        vf_assert(e.what() != nullptr && e.what()[0] != 0, "with a message");
    }
    vf_assert(thrown == (fail != 0 || ft.outline), "an error exactly when something failed");
    vf_assert(reached == !thrown, "nothing goes on after an error");
    vf_assert(!ft.libraryOpen && !ft.faceOpen && ft.glyphs == 0, "everything is closed");
    vf_assert(ft.libraries == (fail != INIT) && ft.faces == (fail != INIT && fail != OPEN), "opened once");
}
void vf_harness()
{
    flags = vf_nd_i32("flags");
    width = vf_nd_i32("width"); height = vf_nd_i32("height");
    xRes = vf_nd_i32("resolution"); yRes = vf_nd_i32("resolution");
    mode = FT_Render_Mode(vf_range(0, 4));
#ifdef FAIL
    ft.error = SILENT ? 0x55 : vf_range(1, 0xB9);      // one number: its text has a fixed length
    ft.silent = SILENT;
    symbol = 65;
#if FAIL == 7
    ft.outline = true;
    run(0);
#else
    run(FAIL);
#endif
#else
    symbol = vf_nd_u32("symbol");
    run(0);
    vf_witness(symbol > 0x10000, "beyond the basic plane");
#endif
}
