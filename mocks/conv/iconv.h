// Stand-in for iconv.
#pragma once
#include <stddef.h>
#include <errno.h>
typedef void* iconv_t;
#ifdef __cplusplus
extern "C" {
#endif
iconv_t mock_iconv_open(const char* to, const char* from);
size_t mock_iconv(iconv_t cd, char** in, size_t* inLeft, char** out, size_t* outLeft);
int mock_iconv_close(iconv_t cd);
#ifdef __cplusplus
}
#endif
#define iconv_open mock_iconv_open
#define iconv mock_iconv
#define iconv_close mock_iconv_close
