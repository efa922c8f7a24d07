// An Arduino serial port: an arbitrary stream arriving at arbitrary times; a millisecond counter starting anywhere.
#pragma once
#include "vf.h"
#include "arduino/PacketUartImpl.h"
#ifndef N
#define N 4             // bytes of the stream
#endif
#ifndef CALLS
#define CALLS 6         // at most so many reads
#endif
static uint8_t stream[N];
static int got;                     // consumed bytes
static int calls;
static bool gaveUp;                 // the last read brought nothing
static uint32_t now, firstTick, lastTick;
static int ticks;
static unsigned long portTimeout;
static uint32_t longestWait;        // longest time a single read was allowed to wait
uint32_t millis()
{
    now += vf_nd_u8("time passes");
    if (ticks++ == 0) firstTick = now;
    lastTick = now;
    return now;
}
uint32_t micros() { return vf_nd_u32("us"); }
void delay(uint32_t ms) { now += ms; }
void delayMicroseconds(uint32_t) {}
static bool arrives()
{
    if (++calls > CALLS) vf_assume(0);
    gaveUp = got >= N || !vf_nd_bool("arrives");
    return !gaveUp;
}
int HardwareSerial::available() { return got < N && vf_nd_bool("available"); }
int HardwareSerial::peek() { return arrives() ? stream[got] : -1; }
static bool timed;                  // single reads only before `limit` milliseconds have passed (H06)
static uint32_t limit;
int HardwareSerial::read() { if (timed && ticks) vf_assert(lastTick - firstTick < limit, "no read is started after the timeout"); return arrives() ? stream[got++] : -1; }
size_t HardwareSerial::read(uint8_t* data, size_t size)
{
    size_t n = 0;
    for (int i = 0; i < N; ++i)
        if (n == size_t(i) && n < size && arrives()) data[n++] = stream[got++];
    return n;
}
size_t HardwareSerial::readBytes(uint8_t* data, size_t size)
{
    size_t n = 0;
    for (int i = 0; i < N; ++i)
        if (n == size_t(i) && n < size)
        {
            if (longestWait < portTimeout) longestWait = uint32_t(portTimeout);
            if (arrives()) data[n++] = stream[got++];
            else now += uint32_t(portTimeout);
        }
    return n;
}
// the terminator is taken from the stream, but not stored
size_t HardwareSerial::readBytesUntil(char terminator, uint8_t* data, size_t size)
{
    size_t n = 0;
    bool done = false;
    for (int i = 0; i < N; ++i)
        if (!done && n < size)
        {
            if (longestWait < portTimeout) longestWait = uint32_t(portTimeout);
            if (!arrives()) { now += uint32_t(portTimeout); done = true; }
            else if (stream[got] == uint8_t(terminator)) { ++got; done = true; }
            else data[n++] = stream[got++];
        }
    return n;
}
void HardwareSerial::setTimeout(unsigned long t) { portTimeout = t; }
unsigned long HardwareSerial::getTimeout() { return portTimeout; }
