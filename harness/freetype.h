// Stand-in for FreeType: hands out one library, one face and one glyph slot; glyph images come from the harness.
#pragma once
#include "vf.h"
#include <stdexcept>
#include <ft2build.h>
#include FT_FREETYPE_H
#include <freetype/ftglyph.h>
#include <freetype/ftmodapi.h>
static struct FreeType
{
    bool libraryOpen, faceOpen, loaded, rendered;
    int libraries, faces, glyphs, done;      // opened; glyphs still open
    int fail;                                // the call that fails
    bool silent;                             // FreeType built without error texts
    bool outline;                            // the glyph is not a bitmap
    int error;
    FT_ULong code; FT_Int32 flags; FT_Render_Mode mode;
    char path[16]; FT_Long index;
    FT_F26Dot6 width, height; FT_UInt horizontal, vertical;
} ft;
enum { INIT = 1, OPEN, SIZE, LOAD, RENDER, GET };
static char ftLibrary;
static FT_FaceRec ftFace;
static FT_GlyphSlotRec ftSlot;
static FT_SizeRec ftSize;
static FT_BitmapGlyphRec ftGlyph;
static bool failing(int call) { return ft.fail == call; }
extern "C" {
const char* FT_Error_String(FT_Error e) { return ft.silent ? nullptr : "trouble"; }
FT_Error FT_Init_FreeType(FT_Library* l)
{
    if (failing(INIT)) return ft.error;
    vf_assert(!ft.libraryOpen, "one library");
    ft.libraryOpen = true;
    ++ft.libraries;
    *l = reinterpret_cast<FT_Library>(&ftLibrary);
    return 0;
}
FT_Error FT_Done_FreeType(FT_Library l)
{
    vf_assert(l == reinterpret_cast<FT_Library>(&ftLibrary) && ft.libraryOpen, "closes the library it opened, once");
    vf_assert(!ft.faceOpen, "faces are closed before the library");
    vf_assert(ft.glyphs == 0, "glyphs are freed before the library");
    ft.libraryOpen = false;
    return 0;
}
FT_Error FT_Property_Set(FT_Library l, const FT_String*, const FT_String*, const void*)
{
    vf_assert(l == reinterpret_cast<FT_Library>(&ftLibrary) && ft.libraryOpen, "a library that is open");
    return 0;
}
FT_Error FT_New_Face(FT_Library l, const char* path, FT_Long index, FT_Face* f)
{
    vf_assert(l == reinterpret_cast<FT_Library>(&ftLibrary) && ft.libraryOpen, "a library that is open");
    for (unsigned i = 0; i < sizeof(ft.path); ++i) { ft.path[i] = path[i]; if (path[i] == 0) break; }
    ft.index = index;
    if (failing(OPEN)) return ft.error;
    vf_assert(!ft.faceOpen, "one face");
    ft.faceOpen = true;
    ++ft.faces;
    ftFace.glyph = &ftSlot;
    ftFace.size = &ftSize;
    *f = &ftFace;
    return 0;
}
FT_Error FT_Done_Face(FT_Face f)
{
    vf_assert(f == &ftFace && ft.faceOpen && ft.libraryOpen, "closes the face it opened, once");
    ft.faceOpen = false;
    return 0;
}
FT_Error FT_Set_Char_Size(FT_Face f, FT_F26Dot6 w, FT_F26Dot6 h, FT_UInt x, FT_UInt y)
{
    vf_assert(f == &ftFace && ft.faceOpen, "a face that is open");
    ft.width = w; ft.height = h; ft.horizontal = x; ft.vertical = y;
    return failing(SIZE) ? ft.error : 0;
}
FT_Error FT_Load_Char(FT_Face f, FT_ULong code, FT_Int32 flags)
{
    vf_assert(f == &ftFace && ft.faceOpen, "a face that is open");
    ft.code = code; ft.flags = flags;
    ft.loaded = ft.rendered = false;
    if (failing(LOAD)) return ft.error;
    ft.loaded = true;
    return 0;
}
FT_Error FT_Render_Glyph(FT_GlyphSlot s, FT_Render_Mode mode)
{
    vf_assert(s == &ftSlot && ft.faceOpen && ft.loaded, "a glyph that is loaded");
    ft.mode = mode;
    if (failing(RENDER)) return ft.error;
    ft.rendered = true;
    return 0;
}
static void makeGlyph(FT_BitmapGlyphRec& g, FT_ULong code);     // the harness's
FT_Error FT_Get_Glyph(FT_GlyphSlot s, FT_Glyph* g)
{
    vf_assert(s == &ftSlot && ft.faceOpen && ft.rendered, "a glyph that is rendered");
    if (failing(GET)) return ft.error;
    vf_assert(ft.glyphs == 0, "glyphs are freed as they are done with");
    ++ft.glyphs;
    ftGlyph.root.format = ft.outline ? FT_GLYPH_FORMAT_OUTLINE : FT_GLYPH_FORMAT_BITMAP;
    makeGlyph(ftGlyph, ft.code);
    *g = &ftGlyph.root;
    return 0;
}
void FT_Done_Glyph(FT_Glyph g)
{
    vf_assert(g == &ftGlyph.root && ft.glyphs == 1, "frees the glyph it got, once");
    --ft.glyphs;
    ++ft.done;
}
}
