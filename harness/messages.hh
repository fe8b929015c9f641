// A health & status manager that counts the messages the models log.
#ifndef VF_MESSAGES_HH
#define VF_MESSAGES_HH
#include "simulation/hs/TsHsMngr.hh"
#include "simulation/hs/TsHsMsg.hh"
extern TsHsMngr* tsGlobalHsMngr;
namespace vf {
struct Messages : public TsHsMngr {
    long warnings, errors;
    Messages() : warnings(0), errors(0) { tsGlobalHsMngr = this; }
    ~Messages() { tsGlobalHsMngr = 0; }
    void restart() {}
    void update() {}
    void shutdown() {}
    void msg(const std::string&, const int, const std::string&, TS_HS_MSG_TYPE type, const std::string&, const std::string&) {
        if (type == TS_HS_WARNING) ++warnings;
        if (type >= TS_HS_ERROR) ++errors;
    }
    void clear() { warnings = errors = 0; }
};
}
#endif
