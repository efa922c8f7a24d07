// Stand-ins for the ESP-IDF headers: the declarations the library uses (and close relatives), for a chip like the ESP32.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_TIMEOUT 0x107
#ifdef __cplusplus
extern "C" {
#endif
void mock_abort(void);     // never returns
const char* esp_err_to_name(esp_err_t);
#ifdef __cplusplus
}
#endif
#define ESP_ERROR_CHECK(x) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) mock_abort(); } while (0)
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) (x)
