// Every program needs these; gGetLoggingLevel is replaced where logging is not the subject.
#include "Configuration.h"
#include "Logger.h"
ConfigurationTable gConfig;
extern "C" int __wrap__Z16gGetLoggingLevelPKc(const char *) { return LOG_EMERG; }
int main(int argc, char **argv) { return mc_main(argc, argv); }
