#pragma once
#include "../hal/gpio_types.h"
