// B08: SerialOut: what was inserted is sent, once, in order, at end or endl.  VT: a number; OP 1: floats and bytes;
// OP 2: long texts.
#include "vf.h"
#ifdef VT
#include "digits.h"
#define LONGEST 24
#elif defined OP && OP == 1
#define LONGEST 30
#elif defined OP
#define LONGEST 320
#endif
#include "SerialOut.h"
#include "PacketUart.h"
#ifdef LONGEST
#define N LONGEST
#define CAP LONGEST
#else
#define N 10
#define CAP 5
#endif
static char sent[2 * N];
static int count, sends;
static bool accept = true;
namespace embedded
{
// stand-in for the port: takes everything
class PacketUart::UartDevice {};
uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t size, uint32_t timeout) const
{
    ++sends;
    vf_assert(timeout > 0, "waits for the port");
    for (int i = 0; i < N; ++i)
        if (i < size) { vf_assert(count < 2 * N, "no more than inserted"); sent[count++] = char(buffer[i]); }
    return size;
}
}
using embedded::SerialOut;
#ifdef LONGEST
static char buffer[CAP], buffer2[CAP];
#if defined(OP) && OP == 2
static uint8_t text[150];
#endif
void vf_harness()
{
    embedded::PacketUart::UartDevice device;
    embedded::PacketUart uart(device);
    SerialOut out({ buffer, CAP }, uart);
#ifdef VT
    const Decimal<VT> n;
    out << n.value << SerialOut::end {};
    vf_assert(sends == 1 && count == n.size(), "complete, once");
    for (int i = 0; i < int(Decimal<VT>::MAXD) + 1; ++i) if (i < n.size()) vf_assert(sent[i] == n.at(i), "decimal rendering");
    vf_witness(n.len == Decimal<VT>::MAXD, "longest value");
#else
    // as much as a text buffer of the same size takes
    embedded::BufferedOut reference({ buffer2, CAP });
#if OP == 1
    static const float values[] = { -12.75f, 0.0f, 1234.5625f, 3e6f };
    const float value = values[vf_range(0, 3)];
    const int precision = vf_range(0, 5);
    static uint8_t bytes[3];
    vf_fill(bytes, 3);
    const embedded::ConstBytesView span(bytes, size_t(vf_range(0, 3)));
    out << SerialOut::precision { precision } << value << span << SerialOut::end {};
    reference << embedded::BufferedOut::precision { precision } << value << span;
#else
    vf_fill(text, 150);
    const embedded::ConstBytesView span(text, 150);
    out << span << SerialOut::endl {};
    reference << span << "\n";
#endif
    const auto expected = reference.data();
    vf_assert(sends == 1 && count == int(expected.size()), "complete, once");
    for (int i = 0; i < LONGEST; ++i) if (i < count) vf_assert(sent[i] == char(expected.begin()[i]), "in order");
    vf_witness(count > 3, "sent");
#endif
}
#else
static char buffer[CAP], text1[4], text2[4];
static void anyText(char* t) { vf_fill(t, 3); t[3] = 0; }
static int length(const char* t) { return !t[0] ? 0 : !t[1] ? 1 : !t[2] ? 2 : 3; }
static char expected[2 * N];
static int expectedCount, inBuffer;
static void put(char c) { if (inBuffer < CAP) { expected[expectedCount++] = c; ++inBuffer; } }
static void put(const char* t) { for (int i = 0; i < 3; ++i) if (i < length(t)) put(t[i]); }
void vf_harness()
{
    embedded::PacketUart::UartDevice device;
    embedded::PacketUart uart(device);
    SerialOut out({ buffer, CAP }, uart);
    anyText(text1);
    anyText(text2);
    out << text1;
    put(text1);
    vf_assert(sends == 0, "nothing is sent before the end");
    const bool newline = vf_nd_bool("newline");
    out << text2;
    put(text2);
    if (newline) out << SerialOut::endl {}; else out << SerialOut::end {};
    if (newline) { if (inBuffer == CAP) inBuffer = 0; put('\n'); }
    inBuffer = 0;
    vf_assert(count == expectedCount, "everything that fit is sent");
    for (int i = 0; i < N; ++i) if (i < count) vf_assert(sent[i] == expected[i], "in order");
    if (newline) vf_assert(sent[count - 1] == '\n', "the line is ended, even when the buffer was full");
    // the next line starts empty
    const uint8_t byte = vf_nd_u8("byte");
    out << byte << SerialOut::end {};
    static const char hex[] = "0123456789ABCDEF";
    vf_assert(count == expectedCount + 2, "sent once");
    const char h = sent[count - 2], l = sent[count - 1];
    vf_assert((h | 0x20) == (hex[byte >> 4] | 0x20) && (l | 0x20) == (hex[byte & 15] | 0x20), "the next text");
    vf_witness(newline && length(text1) + length(text2) == CAP, "exactly full");
    vf_witness(newline && length(text1) + length(text2) > CAP, "cut");
    vf_witness(!newline && expectedCount == 0, "empty");
}
#endif
