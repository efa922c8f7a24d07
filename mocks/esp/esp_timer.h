#pragma once
#include "esp_err.h"
#ifdef __cplusplus
extern "C"
#endif
int64_t esp_timer_get_time(void);
