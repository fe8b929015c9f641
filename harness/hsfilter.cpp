#include "vf.hh"
#include <pthread.h>
#include "stub/sim_services/Message/include/message_proto.h"
#include "simulation/hs/TsHsMsgStdFilter.hh"
#include "simulation/hs/TsHsMsgStdFilter.cpp"

int message_publish(int, const char*, ...) { return 0; }
static bool held = false, locked = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t*)    { if (locked) { fprintf(stderr, "deadlock\n"); exit(4); } locked = true; return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t*) { if (held || locked) return 16; locked = true; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t*)  { locked = false; return 0; }

int main() {
    TsHsMsgStdFilter* f = 0;
    long time = 0;
    return vf::run([&](const vf::Cmd& c) {
        bool pass = false;
        if (c.name == "Init") {
            delete f;
            f = new TsHsMsgStdFilter();
            held = locked = false;
            time = 0;
            f->setInterval(c[0]); f->setCount(c[1]); f->setHistory(c[2]); f->setBlocking(c[3]);
        }
        else if (c.name == "Send") {
            time += c[0];
            // the message is its file, line, subsystem and text together
            const long m = c[2];
            pass = f->shouldSendMessage(time / 4.0, m & 1 ? "f1" : "f0", m & 2 ? 12 : 1, (TS_HS_MSG_TYPE) c[1], m & 4 ? "S1" : "S",
                                        "text" + std::to_string(m / 8));
        }
        else if (c.name == "Set") {
            switch (c[0]) {
                case 1: f->setInterval(c[1]); break;
                case 2: f->setCount(c[1]); break;
                case 3: f->setHistory(c[1]); break;
                case 4: f->setEnabled(c[1]); break;
                default: f->setTypeFilter((TS_HS_MSG_TYPE) (c[0] - 5), c[1]);
            }
        }
        else if (c.name == "Hold")    held = true;
        else if (c.name == "Release") held = false;
        else if (c.name == "Restart") f->restart();
        else if (c.name == "Reset")   f->init();
        else vf::refuse(c);
        vf::Arr types;
        for (int t = 0; t < 5; ++t) types.b(f->isTypeFiltered((TS_HS_MSG_TYPE) t));
        return vf::Rec().b("pass", pass).i("processed", f->getMessagesProcessed()).i("suppressed", f->getMessagesSuppressed())
                        .i("fails", f->getLockFailures()).i("intv", f->getInterval()).i("count", f->getCount())
                        .i("hist", f->getHistory()).b("en", f->isEnabled()).raw("types", types.json()).json();
    });
}
