// H07: sending on Arduino.  B08 (SERIALOUT): the serial text output over it.
#include "vf.h"
#include "arduino/PacketUartImpl.h"
#define N 8
static unsigned long portTimeout, usedTimeout;
static uint8_t sent[N];
static int count, accepted, flushes, writes;
size_t HardwareSerial::write(const uint8_t* data, size_t size)
{
    ++writes;
    usedTimeout = portTimeout;
    accepted = vf_range(0, N);
    if (size_t(accepted) > size) accepted = int(size);
    for (int i = 0; i < N; ++i)
        if (i < accepted) { vf_assert(count < N, "no more than asked"); sent[count++] = data[i]; }
    return size_t(accepted);
}
void HardwareSerial::flush() { ++flushes; }
void HardwareSerial::flush(bool) { ++flushes; }
void HardwareSerial::setTimeout(unsigned long t) { portTimeout = t; }
unsigned long HardwareSerial::getTimeout() { return portTimeout; }
int HardwareSerial::available() { return 0; }
int HardwareSerial::peek() { return -1; }
int HardwareSerial::read() { vf_assert(0, "sending doesn't read"); return -1; }
size_t HardwareSerial::read(uint8_t*, size_t) { return 0; }
size_t HardwareSerial::readBytes(uint8_t*, size_t) { vf_assert(0, "sending doesn't read"); return 0; }
size_t HardwareSerial::readBytesUntil(char, uint8_t*, size_t) { return 0; }
uint32_t millis() { return vf_nd_u32("ms"); }
uint32_t micros() { return 0; }
void delay(uint32_t) {}
void delayMicroseconds(uint32_t) {}
static uint8_t data[N];
void vf_harness()
{
    embedded::PacketUart::UartDevice device(0);
    const embedded::PacketUart uart(device);
    vf_fill(data, N);
    const int n = vf_range(0, N);
    const unsigned long old = portTimeout = vf_nd_u32("port timeout");
    const uint32_t timeout = vf_nd_u32("timeout");
    const int r = uart.Send(data + N - n, uint16_t(n), timeout);
    vf_assert(r == count, "returns how much was accepted");
    for (int i = 0; i < N; ++i) if (i < count) vf_assert(sent[i] == data[N - n + i], "the bytes, in order");
    if (writes) vf_assert(usedTimeout == (timeout ? timeout : old), "with the given timeout");
    vf_assert(portTimeout == old, "the port's own timeout is restored");
    if (count) vf_assert(flushes > 0, "waits until it is sent");
    vf_witness(r == N, "all");
    vf_witness(r < n, "part");
}
