// A translation unit that belongs to a log group.
#define LOG_GROUP LogGroup::SIP
#include "Logger.h"
int evaluations; static int arg() { evaluations++; return 7; }
bool groupEnabled(int l) { switch (l) { case 0: return IS_LOG_LEVEL(EMERG); case 1: return IS_LOG_LEVEL(ALERT); case 2: return IS_LOG_LEVEL(CRIT); case 3: return IS_LOG_LEVEL(ERR); case 4: return IS_LOG_LEVEL(WARNING); case 5: return IS_LOG_LEVEL(NOTICE); case 6: return IS_LOG_LEVEL(INFO); default: return IS_LOG_LEVEL(DEBUG); } }
bool groupWatch(int l) { switch (l) { case 0: return IS_WATCH_LEVEL(EMERG); case 1: return IS_WATCH_LEVEL(ALERT); case 2: return IS_WATCH_LEVEL(CRIT); case 3: return IS_WATCH_LEVEL(ERR); case 4: return IS_WATCH_LEVEL(WARNING); case 5: return IS_WATCH_LEVEL(NOTICE); case 6: return IS_WATCH_LEVEL(INFO); default: return IS_WATCH_LEVEL(DEBUG); } }
void groupLog(int l) { switch (l) { case 3: LOG(ERR) << "grp" << arg(); break; case 4: LOG(WARNING) << "grp" << arg(); break; case 5: LOG(NOTICE) << "grp" << arg(); break; case 6: LOG(INFO) << "grp" << arg(); break; default: LOG(DEBUG) << "grp" << arg(); } }
