#include "vf.hh"
#include <ctime>
#include <fstream>
#include <unistd.h>
#include "stub/sim_services/Message/include/message_proto.h"
#include "stub/sim_services/include/exec_proto.h"
#include "simulation/hs/TsHsStdMngr.hh"
#include "simulation/hs/TsHsMsg.hh"
#include "simulation/hs/TsHsTextPlugin.hh"
#include "simulation/hs/TsHsConsolePlugin.hh"
#include "simulation/hs/TsHsMsgStdFilter.hh"
#include "simulation/hs/TsHsMsgStdFilter.cpp"
#define message_timestamp text_timestamp
#include "simulation/hs/TsHsTextPlugin.cpp"
#undef message_timestamp
#define message_timestamp console_timestamp
#include "simulation/hs/TsHsConsolePlugin.cpp"
#undef message_timestamp
#include "simulation/hs/TsHsStdMngr.cpp"
// The part that terminates the simulation is only compiled for Trick.
#undef no_TRICK_ENV
#include "simulation/hs/TsHsTermination.cpp"
#define no_TRICK_ENV 1

static std::string published, ended;
int message_publish(int, const char* format, ...) { published += format; return 0; }
int exec_terminate(const char* file, const char* text) { ended = std::string(file) + text; return 0; }
static TS_TIMER_TYPE met;
TS_TIMER_TYPE* ts_global_met_ptr = &met;

static const char* subsystems[] = {"HS", "A", "B", "AB", "LONGSUBSYSTEM", "LONGSUBSYSTEX"};
static const char* lists[] = {"", "A", "A,B", " ;B: AB", ":,; ", "LONGSUBSYSTEM;"};
static const char* types[] = {"DBG ", "INFO", "WARN", "ERR ", "FAT "};

static vf::Arr out[3];
// The message as <<time, text, line, type, subsystem>>, with -9 where it isn't what was logged.
static std::string entry(double time, const std::string& text, const std::string& file, long line, const std::string& function, long type,
                         const std::string& subsys) {
    long sub = -9, txt = -9;
    for (int i = 0; i < 5; ++i) if (subsys == std::string(subsystems[i]).substr(0, 12)) sub = i;
    if (text == " --------------------- H&S Restart ---------------------") { txt = -1; line = 0; sub = sub == 0 ? 0 : -9; }
    else if (text.compare(0, 4, "text") == 0) {
        txt = atol(text.c_str() + 4);
        if (file != "file" + std::to_string(line) || function != "f" + std::to_string(txt)) txt = -9;
    }
    return vf::Arr().n(time, 4).i(txt).i(line).i(type).i(sub).json();
}
struct Plugin : public TsHsOutputPlugin {
    int  k;
    bool bad, down;
    long updates;
    Plugin(int i) : TsHsOutputPlugin(100 + i), k(i), bad(false), down(false), updates(0) {}
    bool answer() { const bool b = bad; bad = false; return !b; }
    void configure(const TsHsPluginConfig&) {}
    bool init() { return true; }
    bool update() { ++updates; return answer(); }
    bool restart() { return true; }
    bool msg(const std::string& file, const int line, const std::string& function, TS_HS_MSG_TYPE type, const std::string& subsys,
             const TS_TIMER_TYPE& m, unsigned long stamp, const std::string& mtext) {
        out[k].raw(entry(m.seconds + (m.pre != 1 || m.sec != (int) m.seconds % 60) + (labs((long) stamp - (long) ::time(0)) > 300), mtext, file, line, function, type, subsys));
        return answer();
    }
    void shutdown() { down = true; }
};
static std::string trim(std::string s) {
    while (!s.empty() && s[s.size() - 1] == ' ') s.resize(s.size() - 1);
    return s;
}
static std::string path, file;      // the path configured, and the file created at it
static std::streamoff seen = 0;
// What was appended to the file: "TYPE | SUBSYSTEM    | +ddd hh:mm:ss | utc | file:line function() ... | text".
static void readFile() {
    std::ifstream f(file.c_str());
    if (!f) return;
    f.seekg(seen);
    std::string line;
    while (std::getline(f, line)) {
        std::vector<std::string> v;
        size_t from = 0;
        for (int i = 0; i < 5; ++i) {
            const size_t at = line.find(" | ", from);
            if (at == std::string::npos) break;
            v.push_back(line.substr(from, at - from));
            from = at + 3;
        }
        v.push_back(line.substr(from));
        int day, hour, min, sec, type = -9;
        char sign, file[99] = "", function[99] = "";
        int number = -9;
        if (v.size() != 6 || sscanf(v[2].c_str(), "%c%3d %2d:%2d:%2d", &sign, &day, &hour, &min, &sec) != 5 || v[2].size() != 13
            || v[3].size() != 20 || v[1].size() != 12) { out[0].s(line); continue; }
        for (int i = 0; i < 5; ++i) if (v[0] == types[i]) type = i;
        const size_t colon = v[4].find(':');
        if (colon != std::string::npos) {
            sscanf(v[4].substr(0, colon).c_str(), "%98s", file);
            sscanf(v[4].c_str() + colon + 1, "%d %98[^(]", &number, function);
        }
        // only whole seconds are written
        out[0].raw(entry(sign == '+' ? ((day * 24 + hour) * 60 + min) * 60 + sec : -1, v[5], file, number, function, type, trim(v[1])));
    }
    f.clear();
    f.seekg(0, std::ios::end);
    seen = f.tellg();
}

int main() {
    TsHsStdMngr* m = 0;
    Plugin*      p[3] = {0, 0, 0};
    path = "/tmp/vf_hs_" + std::to_string(getpid()) + ".log";
    const int rc = vf::run([&](const vf::Cmd& c) {
        for (auto& o : out) o = vf::Arr();
        ended.clear();
        if (p[1]) { p[1]->down = p[2]->down = false; }
        if (c.name == "Init") {
            unlink(file.c_str());
            TsHsConfig k;
            k.mQueueCapacity = c[0]; k.mQueueBlockingEnabled = 0;
            k.mRedundancyFilterInterval = c[1]; k.mRedundancyFilterCount = c[2]; k.mRedundancyFilterHistory = c[3];
            k.mFilterEnabled = c[4];
            k.mCategoryFilterDebugEnabled = c[5] & 1; k.mCategoryFilterInfoEnabled = c[5] & 2; k.mCategoryFilterWarningsEnabled = c[5] & 4;
            k.mCategoryFilterErrorsEnabled = c[5] & 8; k.mCategoryFilterFatalsEnabled = c[5] & 16;
            k.mTerminationEnabled = c[6]; k.mTerminationSubsystems = lists[c[7]];
            k.mTextPluginEnabled = c[8] > 0; k.mTextPluginOverwriteEnabled = c[8] != 3; k.mTextPluginPath = c[8] == 2 ? "/dev/null/none/log" : path;
            k.mConsolePluginEnabled = 0;
            delete m;
            m = new TsHsStdMngr(k);
            for (int i = 1; i < 3; ++i) m->mPluginMngr.add(p[i] = new Plugin(i));
            m->init();
            file = static_cast<TsHsTextPlugin*>(m->mPluginMngr.getPlugin(TsHsStdMngr::TS_HS_TEXT))->mFilename;
            seen = 0;  // the manager created the file anew
            met = TS_TIMER_TYPE();
            met.pre = 1;
        }
        else if (c.name == "Msg" || c.name == "Restart") {
            // a second is four steps of the specification's clock; only whole seconds are ever logged
            met.seconds += c.name == "Msg" ? c[0] : 1;
            const long s = (long) met.seconds;
            met.sec = s % 60; met.min = s / 60 % 60; met.hour = s / 3600 % 24; met.day = s / 86400;
            if (c.name == "Restart") m->restart();
            else m->msg("file" + std::to_string(c[2]), c[2], "f" + std::to_string(c[1]), (TS_HS_MSG_TYPE) c[3], subsystems[c[4]],
                        "text" + std::to_string(c[1]));
        }
        else if (c.name == "PostInit")   m->post_init();
        else if (c.name == "Helper")     m->inputOutputThread();
        else if (c.name == "FreezeInit") m->freeze_init();
        else if (c.name == "Freeze")     m->freeze();
        else if (c.name == "Unfreeze")   m->unfreeze();
        else if (c.name == "Update")     m->update();
        else if (c.name == "Shutdown")   m->shutdown();
        else if (c.name == "Fail")       p[c[0] - 1]->bad = true;
        else if (c.name == "Enable")     (c[0] == 1 ? m->mPluginMngr.getPlugin(TsHsStdMngr::TS_HS_TEXT) : p[c[0] - 1])->setEnabled(c[1]);
        else if (c.name == "List")       m->mTermination.setFatalToMultipleSubsystems(lists[c[0]]);
        else vf::refuse(c);
        readFile();
        const bool down2 = p[1]->down, down3 = p[2]->down;
        return vf::Rec().raw("text", out[0].json()).raw("one", out[1].json()).raw("two", out[2].json())
                        .raw("on", vf::Arr().b(m->mPluginMngr.getPlugin(TsHsStdMngr::TS_HS_TEXT)->isEnabled()).b(p[1]->isEnabled()).b(p[2]->isEnabled()).json())
                        .raw("up", vf::Arr().i(p[1]->updates).i(p[2]->updates).json()).raw("down", vf::Arr().b(down2).b(down3).json())
                        .b("ended", !ended.empty()).i("size", m->mMsgQueue.getSize()).i("over", m->mMsgQueue.getOverflows())
                        .i("processed", m->mMsgFilter.getMessagesProcessed()).i("suppressed", m->mMsgFilter.getMessagesSuppressed()).json();
    });
    unlink(file.c_str());
    unlink(path.c_str());
    return rc;
}
