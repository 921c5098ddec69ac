/* Logging has empty bodies: no property speaks about log output. */
#include <stdarg.h>
#include <stdint.h>
typedef int rtLogLevel;
void rtLogPrintf(rtLogLevel level, const char* mod, const char* file, int line, const char* format, ...) { (void)level; (void)mod; (void)file; (void)line; (void)format; }
int32_t rtThreadGetCurrentId(void) { return 1; }
const char* rtLogLevelToString(rtLogLevel l) { (void)l; return "INFO"; }
rtLogLevel rtLogLevelFromString(const char* s) { (void)s; return 3; }
void rtLogSetLogHandler(void* h) { (void)h; } void* rtLogGetLogHandler(void) { return 0; } void rtLog_SetLevel(rtLogLevel l) { (void)l; } rtLogLevel rtLog_GetLevel(void) { return 3; } void rtLog_SetOption(int o) { (void)o; } int rtLog_GetOption(void) { return 0; }
