#pragma once
#include "esp_err.h"
#ifdef __cplusplus
extern "C" {
#endif
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us);
esp_err_t esp_light_sleep_start(void);
void esp_deep_sleep_start(void);
void esp_deep_sleep(uint64_t us);
#ifdef __cplusplus
}
#endif
