// Stub of Trick's message service: the simulator records what would have been published.
#ifndef DST_STUB_MESSAGE_PROTO_H
#define DST_STUB_MESSAGE_PROTO_H
#include <cstdio>
enum { MSG_NORMAL = 0, MSG_INFO = 1, MSG_WARNING = 2, MSG_ERROR = 3, MSG_DEBUG = 10 };
extern "C" int message_publish(int level, const char* format, ...);
#endif
