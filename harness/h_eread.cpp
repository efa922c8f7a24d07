// H04, H06: receiving on ESP32.
#include "e_uart.h"
#include "esp32-esp-idf/PacketUartImpl.h"
#ifndef SIZE
#define SIZE 3
#endif
extern "C" {
void mock_abort() { vf_assume(0); }
int uart_write_bytes(uart_port_t, const void*, size_t) { vf_assert(0, "receiving doesn't send"); return 0; }
esp_err_t uart_wait_tx_done(uart_port_t, TickType_t) { return ESP_OK; }
bool uart_is_driver_installed(uart_port_t) { return true; }
esp_err_t uart_param_config(uart_port_t, const uart_config_t*) { return ESP_OK; }
esp_err_t uart_set_pin(uart_port_t, int, int, int, int) { return ESP_OK; }
esp_err_t uart_driver_install(uart_port_t, int, int, int, QueueHandle_t*, int) { return ESP_OK; }
esp_err_t uart_driver_delete(uart_port_t) { return ESP_OK; }
esp_err_t uart_flush(uart_port_t) { vf_assert(0, "nothing received is thrown away"); return ESP_OK; }
esp_err_t uart_flush_input(uart_port_t) { vf_assert(0, "nothing received is thrown away"); return ESP_OK; }
esp_err_t uart_get_buffered_data_len(uart_port_t, size_t* n) { *n = size_t(vf_range(0, N - got)); return ESP_OK; }
}
static uint8_t buffer[SIZE], before[SIZE];
void vf_harness()
{
    port = vf_range(0, 2);
    embedded::PacketUart::UartDevice device(port);
    embedded::PacketUart uart(device);
    vf_fill(stream, N);
    vf_fill(before, SIZE);
    for (int i = 0; i < SIZE; ++i) buffer[i] = before[i];
    now = vf_nd_u32("start");
    const uint32_t t0 = now;
    const uint8_t start = vf_nd_u8("start byte"), end = vf_nd_u8("end byte");
    const uint16_t timeout = vf_nd_u16("timeout");
    const int n = vf_range(0, SIZE);
#ifdef TIMING
    vf_assume(timeout > 0);
    timed = true;
    limit = timeout;
#else
    errors = true;
#endif
    uint8_t* const b = buffer + SIZE - n;
    int skipped = 0;
#if OP == 0
    const int r = uart.Receive(b, uint16_t(n), timeout);
    vf_assert(failed || got == r, "no byte is lost");
    if (failed) vf_assert(r == 0, "nothing on failure");
    vf_witness(r == n && n == SIZE, "all arrived");
    vf_witness(gaveUp && r == 1, "part");
#elif OP == 1
    const int r = uart.ReceiveUntil(b, uint16_t(n), end, timeout);
    vf_assert(got == r, "no byte is lost");
    for (int i = 0; i < SIZE; ++i) if (i < r - 1) vf_assert(b[i] != end, "stops at the end byte");
    if (r < n && (r == 0 || b[r - 1] != end)) vf_assert(timeout != 0 && lastTick - firstTick >= timeout, "doesn't give up early");
    vf_witness(r > 1 && r < n && b[r - 1] == end, "end byte");
    vf_witness(r == n && n == SIZE && b[r - 1] != end, "full");
    vf_witness(r < n && n > 0 && r > 0 && gaveUp, "timeout");
#elif OP == 2
    const int r = uart.ReceiveBetween(b, uint16_t(n), start, end, timeout);
    skipped = got - r;
    if (n < 2) vf_assert(r == 0 && got == 0, "no room for a packet");
    vf_assert(skipped >= 0, "bytes received");
    if (r == 0) { for (int i = 0; i < N; ++i) if (i < got) vf_assert(stream[i] != start, "nothing of a packet is lost"); }
    else
    {
        for (int i = 0; i < N; ++i) if (i < skipped) vf_assert(stream[i] != start, "starts at the first start byte");
        vf_assert(b[0] == start, "starts with the start byte");
        for (int i = 1; i < SIZE; ++i) if (i < r - 1) vf_assert(b[i] != end, "stops at the end byte");
        if (r < n && (r == 1 || b[r - 1] != end)) vf_assert(lastTick - firstTick >= timeout, "doesn't give up early");
    }
    if (r == 0 && n >= 2) vf_assert(gaveUp || lastTick - firstTick >= timeout, "doesn't give up early");
#if SIZE > 2
    vf_witness(r > 1 && r < n && b[r - 1] == end && skipped > 0, "packet after noise");
#endif
    vf_witness(r == n && n == SIZE && b[r - 1] != end, "full");
    vf_witness(r == 0 && got > 0, "no packet");
    vf_witness(start == end && r == 2 && b[1] == end, "same byte");
#endif
    vf_assert(r >= 0 && r <= n, "within the buffer");
    for (int i = 0; i < SIZE; ++i)
    {
        if (i < r) vf_assert(b[i] == stream[skipped + i], "the bytes received, in order");
        if (i < SIZE - n || (i >= SIZE - n + (OP == 2 && r == 0 && n > 0 ? 1 : r))) vf_assert(buffer[i] == before[i], "nothing else is written");
    }
#ifdef TIMING
    vf_assert(now - t0 <= uint32_t(timeout) + 256 * (CALLS + 2), "returns in time");
    vf_witness(now < t0 && r > 0, "the counter wraps");
    if (OP != 0) vf_witness(calls > 2 && gaveUp, "gives up after bytes");
#endif
}
