#pragma once
#include "../esp_err.h"
#include "../hal/adc_types.h"
typedef enum { ADC_RTC_CLK_SRC_RC_FAST = 8, ADC_RTC_CLK_SRC_DEFAULT = 8 } adc_oneshot_clk_src_t;
typedef struct adc_oneshot_unit_ctx_t* adc_oneshot_unit_handle_t;
typedef struct { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; } adc_oneshot_unit_init_cfg_t;
typedef struct { adc_atten_t atten; adc_bitwidth_t bitwidth; } adc_oneshot_chan_cfg_t;
#ifdef __cplusplus
extern "C" {
#endif
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t*, adc_oneshot_unit_handle_t*);
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t, adc_channel_t, const adc_oneshot_chan_cfg_t*);
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t, adc_channel_t, int*);
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t);
void adc_power_acquire(void);
void adc_power_release(void);
#ifdef __cplusplus
}
#endif
