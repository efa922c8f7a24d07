// Stand-in for getopt.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
extern char* mock_optarg;
extern int mock_optind;
int mock_getopt(int argc, char* const argv[], const char* options);
#ifdef __cplusplus
}
#endif
#define optarg mock_optarg
#define optind mock_optind
#define getopt mock_getopt
