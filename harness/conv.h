// The whole font converter: its main function with stand-ins for FreeType, iconv, getopt and the files.
#pragma once
#include "freetype.h"
#include <cstring>
#include <cstdlib>
#include <new>
#define main converter_main
#include "gfx-font-converter/main.cpp"
#undef main
// the table of glyphs gets a typed block of memory: the solver's constant propagation follows no pointers in bytes
union Table { Table() {} ~Table() {} GlyphData glyphs[LAST - 0x20 + 1]; };
static Table table_;
static bool tableUsed;
void* operator new(size_t n)
{
    if (n == sizeof(table_) && !tableUsed) { tableUsed = true; return &table_; }
    return malloc(n);
}
void operator delete(void* p) noexcept { if (p != &table_) free(p); }
void operator delete(void* p, size_t) noexcept { if (p != &table_) free(p); }
// getopt: the options of this run
char* mock_optarg; int mock_optind = 1;
struct Option { char letter; const char* argument; };
static const Option options[] = { OPTIONS };
static unsigned optionsDone;
extern "C" int mock_getopt(int, char* const*, const char*)
{
    if (optionsDone == sizeof(options) / sizeof(options[0])) return -1;
    mock_optarg = const_cast<char*>(options[optionsDone].argument);
    return options[optionsDone++].letter;
}
// iconv: an 8 bit encoding whose codes are those of Unicode; to UTF-8: one character
static const iconv_t toCode = iconv_t(1), toText = iconv_t(2);
static int converters;
extern "C" iconv_t mock_iconv_open(const char* to, const char* from)
{
    ++converters;
    vf_assert(strcmp(from, ENCODING) == 0 || strcmp(to, ENCODING) == 0, "converts from or to the font's encoding");
    return to[1] == 'C' ? toCode : toText;
}
extern "C" int mock_iconv_close(iconv_t) { --converters; return 0; }
extern "C" size_t mock_iconv(iconv_t cd, char** in, size_t* inLeft, char** out, size_t* outLeft)
{
    const uint8_t c = uint8_t(**in);
    ++*in;
    --*inLeft;
    if (cd == toCode)
    {
        (*out)[0] = char(c); (*out)[1] = (*out)[2] = (*out)[3] = 0;
        *out += 4;
        *outLeft -= 4;
    }
    else { **out = '?'; ++*out; --*outLeft; }
    return 0;
}
// the files
static void put(int file, unsigned at, char c);      // a character written to a file
static unsigned length[2];
static char names[2][40];
static bool open_[2];
static int files, failFile;             // the file that can't be opened (1, 2)
static bool complained;
static const char* directory = "";      // the one that exists
bool mock_is_directory(const std::string& name) { return !name.empty() && name == directory; }
int mock_open(const std::string& name, unsigned)
{
    if (failFile == files + 1) return 0;
    vf_assert(files < 2, "no more than two files");
    for (unsigned i = 0; i < sizeof(names[0]) - 1; ++i) if (i < name.size()) names[files][i] = name[i];
    open_[files] = true;
    return 3 + files++;
}
void mock_close(int f) { open_[f - 3] = false; }
void mock_write(int f, const char* data, size_t size)
{
    if (f == 1) return;
    if (f == 2) { complained = true; return; }
    vf_assert(f >= 3 && f - 3 < files && open_[f - 3], "the file is open");
    for (size_t i = 0; i < size; ++i) put(f - 3, length[f - 3]++, data[i]);
}
static bool named(int f, const char* name) { return strcmp(names[f], name) == 0; }
static int convert()
{
    static char program[] = "bin/conv";
    char* argv[] = { program, nullptr };
    const int r = converter_main(1, argv);
    vf_assert(!ft.libraryOpen && !ft.faceOpen && ft.glyphs == 0 && converters == 0, "everything is closed");
    vf_assert(!open_[0] && !open_[1], "the files are closed");
    return r;
}
