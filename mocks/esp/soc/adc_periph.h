#pragma once
#include "../hal/gpio_types.h"
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
#define ADC_IO_UNUSED -1
#ifdef __cplusplus
extern "C"
#endif
const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM];
