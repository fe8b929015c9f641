// Stand-in for Trick's executive.
#ifndef VF_EXEC_PROTO
#define VF_EXEC_PROTO
int exec_terminate(const char* file, const char* text);
#endif
