// An ESP32 serial port driver: an arbitrary stream arriving at arbitrary times; a millisecond counter starting anywhere.
#pragma once
#include "vf.h"
#include <driver/uart.h>
#ifndef N
#define N 4             // bytes of the stream
#endif
#ifndef CALLS
#define CALLS 6         // at most so many reads
#endif
static uint8_t stream[N];
static int got, calls, port;
static bool gaveUp, errors, failed;     // the last read brought nothing; the driver can fail
static uint32_t now, firstTick, lastTick;
static int ticks;
static uint32_t reads;
static bool timed;                  // reads only before `limit` milliseconds have passed (H06)
static uint32_t limit, lastWait;
namespace embedded
{
uint32_t getMillisecondTicks()
{
    now += vf_nd_u8("time passes");
    if (ticks++ == 0) firstTick = now;
    lastTick = now;
    return now;
}
uint64_t getMicrosecondTicks() { return vf_nd_u64("us"); }
void delay(uint32_t ms) { now += ms; }
void delayMicroseconds(uint32_t) {}
}
extern "C" int uart_read_bytes(uart_port_t p, void* buffer, uint32_t size, TickType_t wait)
{
    vf_assert(p == port, "this port");
    if (++calls > CALLS) vf_assume(0);
    lastWait = wait;
    if (timed)
    {
        const uint32_t elapsed = ticks ? lastTick - firstTick : 0;
        vf_assert(elapsed <= limit && uint64_t(wait) * portTICK_PERIOD_MS <= limit - elapsed, "waits no longer than what is left");
        vf_assert(limit - elapsed - wait * portTICK_PERIOD_MS < portTICK_PERIOD_MS, "and as long as that");
    }
    if (errors && vf_nd_bool("error")) { failed = gaveUp = true; return -1; }
    int n = vf_range(0, N);
    if (n > N - got) n = N - got;
    gaveUp = uint32_t(n) < size;
    if (uint32_t(n) > size) n = int(size);
    for (int i = 0; i < N; ++i) if (i < n) static_cast<uint8_t*>(buffer)[i] = stream[got + i];
    got += n;
    // gives up only after the whole time
    const uint32_t full = wait * portTICK_PERIOD_MS;
    uint32_t spent = vf_nd_u16("wait");
    if (spent > full) spent = full;
    now += gaveUp ? full : spent;
    return n;
}
