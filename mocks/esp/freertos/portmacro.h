#pragma once
#include <stdint.h>
#ifndef MOCK_TICK
#define MOCK_TICK 10
#endif
typedef uint32_t TickType_t;
typedef int BaseType_t;
#define configTICK_RATE_HZ (1000 / MOCK_TICK)
#define portTICK_PERIOD_MS ((TickType_t)(1000 / configTICK_RATE_HZ))
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * (uint64_t)configTICK_RATE_HZ) / (uint64_t)1000U))
