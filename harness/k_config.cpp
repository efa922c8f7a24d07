// K06: the converter's command line.
#include "vf.h"
#include "gfx-font-converter/FontConverterConfig.h"
#include <stdexcept>
#include <getopt.h>
#ifndef N
#define N 2
#endif
#ifndef LEN
#define LEN 3
#endif
// getopt: the options come from the harness
char* mock_optarg; int mock_optind = 1;
static int count;                       // options on the command line
static int asked;
static char letter[N];
static char text[N][LEN + 1];           // their arguments
static int theArgc; static char** theArgv;
extern "C" int mock_getopt(int argc, char* const argv[], const char* options)
{
    vf_assert(argc == theArgc && argv == theArgv, "the program's arguments");
    if (asked == count) return -1;
    const char c = letter[asked], *arg = text[asked];
    ++asked;
    for (const char* o = options; *o; ++o)
        if (*o == c && c != ':')
        {
            mock_optarg = o[1] == ':' ? const_cast<char*>(arg) : nullptr;
            return c;
        }
    return '?';
}
static bool number(const char* t, int& v)       // what an integer looks like: spaces, a sign, digits, anything
{
    int i = 0;
    while (i < LEN && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) ++i;
    const bool minus = t[i] == '-';
    if (t[i] == '-' || t[i] == '+') ++i;
    if (t[i] < '0' || t[i] > '9') return false;
    v = 0;
    while (i < LEN && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0');
    if (minus) v = -v;
    return true;
}
static bool same(const std::string& s, const char* t)
{
    for (int i = 0; i <= LEN; ++i)
    {
        if (t[i] == 0) return s.size() == size_t(i);
        if (s.size() <= size_t(i) || s[i] != t[i]) return false;
    }
    return false;
}
static const char* file = ""; static const char* dir = ""; static const char* encoding = nullptr;
void vf_harness()
{
    char name[] = "x", *args[] = { name, nullptr };
    theArgc = 1; theArgv = args;
    count = COUNT;
    int dpi = 141, size = 12;
    bool binary = false, help = false, bad = false;
    for (int k = 0; k < COUNT; ++k)
    {
        letter[k] = LETTERS[k];
        if (letter[k] == '*')           // any option there is no meaning for
        {
            letter[k] = char(vf_nd_u8("option"));
            const char c = letter[k];
            vf_assume(c != 'f' && c != 'o' && c != 'd' && c != 's' && c != 'e' && c != 'b' && c != 0 && c != ':');
        }
        const char c = letter[k];
        for (int i = 0; i < LEN; ++i)
        {
            text[k][i] = ARGS[LEN * k + i];
            if (c == 'd' || c == 's') { text[k][i] = char(vf_nd_u8("argument")); vf_assume(text[k][i] != 0); }
        }
        if (bad) continue;
        if (c == 'f') file = text[k];
        else if (c == 'o') dir = text[k];
        else if (c == 'e') encoding = text[k];
        else if (c == 'd') bad = !number(text[k], dpi);
        else if (c == 's') bad = !number(text[k], size);
        else if (c == 'b') binary = true;
        else help = true;
    }
    bool thrown = false;
    try
    {
        FontConverterConfig config(theArgc, theArgv);
        vf_assert(!bad, "what isn't a number is refused");
        vf_assert(asked == count, "every option is looked at");
        vf_assert(same(config.getFontFileName(), file), "the font's file");
        vf_assert(same(config.getOutputDirectory(), dir), "the output directory");
        vf_assert(config.getDPI() == dpi && config.getFontSize() == size, "resolution and size");
        vf_assert((config.getFormat() == FontConverterConfig::Format::Binary) == binary, "the format");
        vf_assert(config.getPrintHelp() == help, "help when asked for, or for an unknown option");
        bool ascii = LEN == 5;
        for (int i = 0; i < LEN && encoding; ++i) if ((encoding[i] | 0x20) != "ascii"[i]) ascii = false;
        vf_assert(config.getFirstChar() == ' ', "starts with the space");
        vf_assert(config.getLastChar() == (encoding == nullptr || ascii ? '~' : 0xFF), "ends as the encoding does");
        const std::string& e = config.getEncoding();
        if (encoding == nullptr) vf_assert(e == "ASCII", "ASCII if nothing else is said");
        else
        {
            vf_assert(e.size() == LEN, "the encoding asked for");
            for (int i = 0; i < LEN; ++i)
            {
                const char c = encoding[i];
                vf_assert(e[i] == (c >= 'a' && c <= 'z' ? char(c - 'a' + 'A') : c), "the encoding asked for, in capitals");
            }
        }
    }
    catch (const std::exception&) { thrown = true; }
    vf_assert(thrown == bad, "an error exactly for what isn't a number");
#ifdef NUMBERS
    vf_witness(thrown, "refused");
    vf_witness(!thrown && size < 0, "negative");
#endif
}
