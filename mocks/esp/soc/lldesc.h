#pragma once
#ifndef MOCK_CHUNK
#define MOCK_CHUNK 4092
#endif
#define LLDESC_MAX_NUM_PER_DESC MOCK_CHUNK
