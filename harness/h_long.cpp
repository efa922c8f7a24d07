// H03, H04, H05, H07, H08: transfers longer than the other harnesses', of a given size; any contents.
// The stand-ins take and give everything at once; time stands still.
#include "vf.h"
#ifndef M
#define M 300
#endif
static uint8_t given[M], result[M + 5];      // what arrives; the receiver's buffer
static uint8_t data[M], sent[M];
static int got, count;
static const uint32_t start = 0xFFFFFFF0u;
#ifdef SPI
#include "arduino/SpiBus.h"
#include "SpiDevice.h"
static uint8_t exchange(uint8_t out) { vf_assert(got < M, "no more than asked"); sent[got] = out; return given[got++]; }
void SPIClass::beginTransaction(SPISettings) {}
void SPIClass::endTransaction() {}
uint8_t SPIClass::transfer(uint8_t d) { return exchange(d); }
void SPIClass::transfer(uint8_t* d, uint32_t size) { for (uint32_t i = 0; i < size; ++i) d[i] = exchange(d[i]); }
uint16_t SPIClass::transfer16(uint16_t d) { const uint16_t h = exchange(uint8_t(d >> 8)); return uint16_t(h << 8 | exchange(uint8_t(d))); }
uint32_t SPIClass::transfer32(uint32_t d) { const uint32_t h = transfer16(uint16_t(d >> 16)); return h << 16 | transfer16(uint16_t(d)); }
void SPIClass::transferBytes(const uint8_t* d, uint8_t* out, uint32_t size)
{
    for (uint32_t i = 0; i < size; ++i) { const uint8_t r = exchange(d ? d[i] : 0xFF); if (out) out[i] = r; }
}
void SPIClass::write(uint8_t d) { exchange(d); }
void SPIClass::writeBytes(const uint8_t* d, uint32_t size) { transferBytes(d, nullptr, size); }
#elif defined(I2C)
#include "arduino/I2CBus.h"
#include "I2CDevice.h"
void TwoWire::beginTransmission(uint16_t) {}
uint8_t TwoWire::endTransmission(bool) { return 0; }
size_t TwoWire::write(const uint8_t* d, size_t size)
{
    for (size_t i = 0; i < size; ++i) { vf_assert(count < M, "no more than asked"); sent[count++] = d[i]; }
    return size;
}
static int ready;
size_t TwoWire::requestFrom(uint16_t, size_t size, bool) { vf_assert(size <= M, "no more than asked"); ready = int(size); return size; }
int TwoWire::available() { return ready - got; }
int TwoWire::read() { return got < ready ? given[got++] : -1; }
#elif defined(ESP)
#include <driver/uart.h>
#include "esp32-esp-idf/PacketUartImpl.h"
namespace embedded
{
uint32_t getMillisecondTicks() { return start; }
uint64_t getMicrosecondTicks() { return 0; }
void delay(uint32_t) {}
void delayMicroseconds(uint32_t) {}
}
extern "C" {
void mock_abort() { vf_assume(0); }
int uart_read_bytes(uart_port_t, void* buffer, uint32_t size, TickType_t)
{
    int n = 0;
    while (uint32_t(n) < size && got < M) static_cast<uint8_t*>(buffer)[n++] = given[got++];
    return n;
}
int uart_write_bytes(uart_port_t, const void* d, size_t size)
{
    for (size_t i = 0; i < size; ++i) { vf_assert(count < M, "no more than asked"); sent[count++] = static_cast<const uint8_t*>(d)[i]; }
    return int(size);
}
esp_err_t uart_wait_tx_done(uart_port_t, TickType_t) { return ESP_OK; }
bool uart_is_driver_installed(uart_port_t) { return true; }
esp_err_t uart_param_config(uart_port_t, const uart_config_t*) { return ESP_OK; }
esp_err_t uart_set_pin(uart_port_t, int, int, int, int) { return ESP_OK; }
esp_err_t uart_driver_install(uart_port_t, int, int, int, QueueHandle_t*, int) { return ESP_OK; }
esp_err_t uart_driver_delete(uart_port_t) { return ESP_OK; }
esp_err_t uart_flush(uart_port_t) { return ESP_OK; }
esp_err_t uart_flush_input(uart_port_t) { return ESP_OK; }
esp_err_t uart_get_buffered_data_len(uart_port_t, size_t* n) { *n = size_t(M - got); return ESP_OK; }
}
#else
#include "arduino/PacketUartImpl.h"
static unsigned long portTimeout = 1000;
uint32_t millis() { return start; }
uint32_t micros() { return 0; }
void delay(uint32_t) {}
void delayMicroseconds(uint32_t) {}
int HardwareSerial::available() { return M - got; }
int HardwareSerial::peek() { return got < M ? given[got] : -1; }
int HardwareSerial::read() { return got < M ? given[got++] : -1; }
size_t HardwareSerial::read(uint8_t* d, size_t size) { size_t n = 0; while (n < size && got < M) d[n++] = given[got++]; return n; }
size_t HardwareSerial::readBytes(uint8_t* d, size_t size) { return read(d, size); }
size_t HardwareSerial::readBytesUntil(char terminator, uint8_t* d, size_t size)
{
    size_t n = 0;
    while (n < size && got < M)
    {
        const uint8_t b = given[got++];
        if (b == uint8_t(terminator)) break;
        d[n++] = b;
    }
    return n;
}
size_t HardwareSerial::write(const uint8_t* d, size_t size)
{
    for (size_t i = 0; i < size; ++i) { vf_assert(count < M, "no more than asked"); sent[count++] = d[i]; }
    return size;
}
void HardwareSerial::flush() {}
void HardwareSerial::flush(bool) {}
void HardwareSerial::setTimeout(unsigned long t) { portTimeout = t; }
unsigned long HardwareSerial::getTimeout() { return portTimeout; }
#endif
void vf_harness()
{
#ifdef FEW      // symbolic bytes only around the 256th and at the end
    for (int i = 0; i < M; ++i) given[i] = uint8_t(1 + i % 250);
    vf_fill(given + 254, 4);
    given[M - 1] = vf_nd_u8("last");
#else
    vf_fill(given, M);
#endif
    vf_fill(data, M);
    bool receives = true, sends = false;
#ifdef SPI
    static SPIClass spi;
    embedded::SpiBus bus(spi, 1000000);
    const embedded::SpiDevice device(bus);
#if OP == 0
    vf_assert(device.sendSync(data, M), "success");
    receives = false;
#elif OP == 1
    vf_assert(device.receiveSync(result, M), "success");
#else
    vf_assert(device.sendAndReceive(data, result, M), "success");
#endif
    sends = OP != 1;
    count = got;
#elif defined(I2C)
    static TwoWire wire;
    embedded::I2CBus bus(wire);
    const embedded::I2CDevice device(bus, 0x50);
#if OP == 0
    vf_assert(device.sendSync(data, M), "success");
    receives = false;
    sends = true;
#else
    vf_assert(device.receiveSync(result, M), "success");
#endif
#else
    embedded::PacketUart::UartDevice device(0);
    embedded::PacketUart uart(device);
#ifdef FEW
    const uint8_t first = 1, end = 255;
    given[0] = first;
#else
    const uint8_t first = given[0], end = vf_nd_u8("end byte");
#endif
    const bool ended = vf_nd_bool("ended");
    for (int i = 1; i < M - 1; ++i) vf_assume(given[i] != end);
    vf_assume((given[M - 1] == end) == ended);
    const int timeout = 1000;
    int r = M;
    const uint16_t room = ended ? M + 4 : M;    // stops at the end byte, or when the buffer is full
#if OP == 0
    r = uart.Receive(result, M, timeout);
#elif OP == 1
    vf_assume(first != end);
    r = uart.ReceiveUntil(result, room, end, timeout);
#elif OP == 2
    r = uart.ReceiveBetween(result, room, first, end, timeout);
#else
    r = uart.Send(data, M, timeout);
    receives = false;
    sends = true;
#endif
    vf_assert(r == M, "everything");
    vf_witness(ended, "ended");
    vf_witness(!ended, "full");
#endif
    if (receives)
    {
        vf_assert(got == M, "no byte is lost");
        for (int i = 0; i < M; ++i) vf_assert(result[i] == given[i], "the bytes received, in order");
    }
    if (sends)
    {
        vf_assert(count == M, "every byte once");
        for (int i = 0; i < M; ++i) vf_assert(sent[i] == data[i], "the bytes sent, in order");
    }
    for (int i = M; i < M + 5; ++i) vf_assert(result[i] == 0, "nothing else is written");
    vf_witness(given[M - 1] != given[0] && data[M - 1] != data[0], "done");
}
