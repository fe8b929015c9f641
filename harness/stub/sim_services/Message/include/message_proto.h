// Stand-in for Trick's message services.
#ifndef VF_MESSAGE_PROTO
#define VF_MESSAGE_PROTO
#define MSG_ERROR 0
#define MSG_WARNING 1
#define MSG_NORMAL 2
#define MSG_INFO 3
#define MSG_DEBUG 4
int message_publish(int level, const char* format, ...);
#endif
