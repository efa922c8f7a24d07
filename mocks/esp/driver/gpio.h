#pragma once
#include "../esp_err.h"
#include "../hal/gpio_types.h"
typedef struct { uint64_t pin_bit_mask; gpio_mode_t mode; gpio_pullup_t pull_up_en; gpio_pulldown_t pull_down_en; gpio_int_type_t intr_type; } gpio_config_t;
// the ESP32 has no GPIOs 20, 24 and 28..31
#define SOC_GPIO_VALID_GPIO_MASK (0xFFFFFFFFFFULL & ~(0ULL | (1ULL << 20) | (1ULL << 24) | (0xFULL << 28)))
#define SOC_GPIO_VALID_OUTPUT_GPIO_MASK (SOC_GPIO_VALID_GPIO_MASK & ~(0x3FULL << 34))
#define GPIO_IS_VALID_GPIO(n) ((n) >= 0 && (n) < SOC_GPIO_PIN_COUNT && ((1ULL << (n)) & SOC_GPIO_VALID_GPIO_MASK) != 0)
#define GPIO_IS_VALID_OUTPUT_GPIO(n) ((n) >= 0 && (n) < SOC_GPIO_PIN_COUNT && ((1ULL << (n)) & SOC_GPIO_VALID_OUTPUT_GPIO_MASK) != 0)
#ifdef __cplusplus
extern "C" {
#endif
esp_err_t gpio_config(const gpio_config_t*);
esp_err_t gpio_set_level(gpio_num_t, uint32_t);
int gpio_get_level(gpio_num_t);
esp_err_t gpio_reset_pin(gpio_num_t);
esp_err_t gpio_set_direction(gpio_num_t, gpio_mode_t);
esp_err_t gpio_set_pull_mode(gpio_num_t, gpio_pull_mode_t);
#ifdef __cplusplus
}
#endif
