#pragma once
#include "portmacro.h"
#ifdef __cplusplus
extern "C" {
#endif
void vTaskDelay(TickType_t);
TickType_t xTaskGetTickCount(void);
#ifdef __cplusplus
}
#endif
