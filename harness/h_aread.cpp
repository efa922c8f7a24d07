// H05, H06: receiving on Arduino.
#include "a_uart.h"
#ifndef SIZE
#define SIZE 3
#endif
size_t HardwareSerial::write(const uint8_t*, size_t) { vf_assert(0, "receiving doesn't send"); return 0; }
void HardwareSerial::flush() { vf_assert(0, "receiving doesn't flush"); }
void HardwareSerial::flush(bool) { vf_assert(0, "receiving doesn't flush"); }
static uint8_t buffer[SIZE], before[SIZE];
void vf_harness()
{
    embedded::PacketUart::UartDevice device(0);
    embedded::PacketUart uart(device);
    vf_fill(stream, N);
    vf_fill(before, SIZE);
    for (int i = 0; i < SIZE; ++i) buffer[i] = before[i];
    now = vf_nd_u32("start");
    const uint32_t t0 = now;
    const unsigned long oldTimeout = portTimeout = vf_nd_u16("port timeout");
    const uint8_t start = vf_nd_u8("start byte"), end = vf_nd_u8("end byte");
    const uint16_t timeout = vf_nd_u16("timeout");
    const int n = vf_range(0, SIZE);
#ifdef TIMING
    timed = timeout != 0 && OP != 1;
    limit = timeout;
#endif
    uint8_t* const b = buffer + SIZE - n;
#if OP == 0
    const int r = uart.Receive(b, uint16_t(n), timeout), skipped = 0;
    vf_assert(got == r, "no byte is lost");
    if (r < n) vf_assert(lastTick - firstTick >= timeout, "doesn't give up early");
    vf_witness(r == 0 && n > 0, "nothing arrived");
    vf_witness(r == n && n == SIZE, "all arrived");
    vf_witness(lastTick < firstTick && r > 0, "the counter wraps");
#elif OP == 1
    const int r = timeout == 0 && vf_nd_bool("default") ? uart.ReceiveUntil(b, uint16_t(n), end) : uart.ReceiveUntil(b, uint16_t(n), end, timeout), skipped = 0;
    vf_assert(got == r, "no byte is lost");
    for (int i = 0; i < SIZE; ++i) if (i < r - 1) vf_assert(b[i] != end, "stops at the end byte");
    if (r < n && (r == 0 || b[r - 1] != end)) vf_assert(gaveUp, "doesn't give up early");
    vf_assert(longestWait == 0 || longestWait == (timeout ? timeout : oldTimeout), "waits as told");
    vf_witness(r > 1 && r < n && b[r - 1] == end, "end byte");
    vf_witness(r == n && n == SIZE && b[r - 1] != end, "full");
    vf_witness(r < n && n > 0 && gaveUp, "timeout");
#elif OP == 2
    const int r = uart.ReceiveBetween(b, uint16_t(n), start, end, timeout), skipped = got - r;
    if (n < 2) vf_assert(r == 0 && got == 0, "no room for a packet");
    vf_assert(skipped >= 0, "bytes received");
    if (r == 0) { for (int i = 0; i < N; ++i) if (i < got) vf_assert(stream[i] != start, "nothing of a packet is lost"); }
    else
    {
        for (int i = 0; i < N; ++i) if (i < skipped) vf_assert(stream[i] != start, "starts at the first start byte");
        vf_assert(b[0] == start, "starts with the start byte");
        for (int i = 1; i < SIZE; ++i) if (i < r - 1) vf_assert(b[i] != end, "stops at the end byte");
        if (r < n && (r == 1 || b[r - 1] != end)) vf_assert(gaveUp, "doesn't give up early");
    }
    if (r == 0 && n >= 2) vf_assert(timeout != 0 && lastTick - firstTick >= timeout, "doesn't give up early");
    vf_assert(longestWait == 0 || longestWait == (timeout ? timeout : oldTimeout), "waits as told");
    vf_witness(r > 1 && r < n && b[r - 1] == end && skipped > 0, "packet after noise");
    vf_witness(r == n && n == SIZE && b[r - 1] != end, "full");
    vf_witness(r == 0 && got > 0, "no packet");
    vf_witness(start == end && r == 2 && b[1] == end, "same byte");
#endif
    vf_assert(r >= 0 && r <= n, "within the buffer");
    for (int i = 0; i < SIZE; ++i)
    {
        if (i < r) vf_assert(b[i] == stream[skipped + i], "the bytes received, in order");
        if (i < SIZE - n || (i >= SIZE - n + r)) vf_assert(buffer[i] == before[i], "nothing else is written");
    }
    vf_assert(portTimeout == oldTimeout, "the port's own timeout is restored");
#if defined(TIMING) && OP != 1
    if (timeout) vf_assert(now - t0 <= uint32_t(timeout) + 256 * 2 + longestWait, "returns in time");
#endif
}
