#include "vf.hh"
#include "core/GunnsMinorStepLog.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicNode.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <fstream>
#include <unistd.h>
#include <dirent.h>
#include <cstring>

class FakeLink : public GunnsBasicLink
{
public:
    explicit FakeLink(int ports) : GunnsBasicLink(ports) {}
    void init(const std::string& name, GunnsNodeList* list, std::vector<GunnsBasicLink*>& v)
    {
        int p[2] = {0, 1};
        initialize(GunnsBasicLinkConfigData(name, list), GunnsBasicLinkInputData(false, 0.0), v, p);
    }
    virtual void step(const double) {}
    virtual void computeFlows(const double) {}
    double* A() { return mAdmittanceMatrix; }
    double* W() { return mSourceVector; }
};
static const int N = 2;
static GunnsMinorStepLog*           logger = 0;
static std::vector<FakeLink*>       links;
static std::vector<GunnsBasicLink*> vec;
static GunnsBasicNode               nodes[N + 1];
static GunnsNodeList                list;
static GunnsBasicLink*              array[2];
static bool refused = false, busy = false;
static int  major = 0, minor_ = 0;
static std::string dir;

static int code(const std::string& s)
{
    static const char* n[] = {"SUCCESS", "CONFIRM", "REJECT", "DELAY", "DECOMP_LIMIT", "MINOR_LIMIT", "MATH_FAIL"};
    for (int i = 0; i < 7; ++i) if (s == n[i]) return i;
    return -1;
}
static int linkCode(const std::string& s) { return s == "REJECT" ? 0 : s == "CONFIRM" ? 1 : s == "DELAY" ? 2 : -1; }

// One row as <<major, minor, decompositions, result, link results, value>>: everything recorded of
// the network is made from the value, and -1 is reported for it unless it all agrees.
static std::string row(const std::string& line)
{
    std::vector<std::string> f;
    std::string cur;
    std::istringstream is(line);
    while (std::getline(is, cur, ',')) f.push_back(cur[0] == ' ' ? cur.substr(1) : cur);
    if (f.size() != 4u + 2*N + (1 + 4 + 2) + (1 + 1 + 1)) return "[-9]";
    size_t k = 4;
    double v = atof(f[k].c_str());
    bool ok = true;
    for (int i = 0; i < N; ++i) ok = ok && atof(f[k++].c_str()) == v + i;
    for (int i = 0; i < N; ++i) ok = ok && atof(f[k++].c_str()) == v + 100 + i;
    const int r1 = linkCode(f[k++]);
    for (int i = 0; i < 4; ++i) ok = ok && atof(f[k++].c_str()) == v + 200 + i;
    for (int i = 0; i < 2; ++i) ok = ok && atof(f[k++].c_str()) == v + 300 + i;
    const int r2 = linkCode(f[k++]);
    ok = ok && atof(f[k++].c_str()) == v + 400;
    ok = ok && atof(f[k++].c_str()) == v + 500;
    return vf::Arr().i(atol(f[0].c_str())).i(atol(f[1].c_str())).i(atol(f[2].c_str())).i(code(f[3])).i(r1).i(r2)
           .n(ok ? v : -1).json();
}
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        delete logger;
        for (FakeLink* l : links) delete l;
        links.clear(); vec.clear();
        logger = new GunnsMinorStepLog();
        list.mNumNodes = N + 1;
        list.mNodes    = nodes;
        for (int i = 0; i <= N; ++i) nodes[i].initialize("n", 0.0);
        links.push_back(new FakeLink(2));
        links.push_back(new FakeLink(1));
        links[0]->init("first", &list, vec);
        links[1]->init("second", &list, vec);
        array[0] = links[0]; array[1] = links[1];
        logger->mInputData.mModeCommand = static_cast<GunnsMinorStepLogInputData::LogCommands>(c[0]);
        logger->mInputData.mLogSteps    = c[1];
        logger->mInputData.mPath        = dir;
        refused = busy = false;
        major = minor_ = 0;
        try { logger->initialize("log", N, 2, array); } catch (TsInitializationException&) { refused = true; }
    } else if (!refused) {
        if (c.name == "Cmd")       logger->mInputData.mModeCommand = static_cast<GunnsMinorStepLogInputData::LogCommands>(c[0]);
        else if (c.name == "Size") logger->mInputData.mLogSteps    = c[0];
        else if (c.name == "Path") {}
        else if (c.name == "Begin") {
            if (!busy) { busy = true; ++major; minor_ = 0; logger->beginMajorStep(); }
        } else if (c.name == "Minor") {
            if (busy) {
                logger->beginMinorStep(major, ++minor_);
                const double v = c[4];
                for (int i = 0; i < 4; ++i) links[0]->A()[i] = v + 200 + i;
                for (int i = 0; i < 2; ++i) links[0]->W()[i] = v + 300 + i;
                links[1]->A()[0] = v + 400;
                links[1]->W()[0] = v + 500;
                logger->recordLinkContributions();
                double p[N], q[N];
                for (int i = 0; i < N; ++i) { p[i] = v + i; q[i] = v + 100 + i; }
                logger->recordPotential(p);
                logger->recordNodesConvergence(q);
                for (int i = 0; i < 2; ++i)
                    if (c[2 + i] != 1) logger->recordLinkResult(i, static_cast<GunnsBasicLink::SolutionResult>(
                        c[2 + i] == 0 ? GunnsBasicLink::REJECT : GunnsBasicLink::DELAY));
                logger->recordStepResult(c[0], static_cast<GunnsMinorStepData::SolutionResults>(c[1]));
            }
        } else if (c.name == "End") {
            if (busy) { busy = false; logger->endMajorStep(); }
        } else if (c.name == "Async")  {
            logger->updateAsync();
        } else if (c.name == "Freeze") {
            if (!busy) logger->updateFreeze();
        } else vf::refuse(c);
    }
    if (c.name == "Path" && !refused) logger->mInputData.mPath = c[0] == 0 ? dir : dir + "absent/";
    long due = -1;
    if (!logger->mFilename.empty()) {
        const size_t at = logger->mFilename.rfind("log_");
        due = at == std::string::npos ? -2 : atol(logger->mFilename.c_str() + at + 4);
    }
    // collect what was written
    vf::Arr rows;
    int files = 0;
    long fileMajor = -1;
    bool header = true;
    if (c.name == "Async" || c.name == "Init") {
        DIR* d = opendir(dir.c_str());
        while (dirent* e = readdir(d)) {
            if (e->d_name[0] == '.') continue;
            ++files;
            fileMajor = strncmp(e->d_name, "log_", 4) == 0 ? atol(e->d_name + 4) : -2;
            std::ifstream f((dir + e->d_name).c_str());
            std::string line;
            bool first = true;
            while (std::getline(f, line)) {
                if (first) header = line.compare(0, 54, "Major Step, Minor Step, Decomposition, Solution Result") == 0
                               && line.find("first: Solution Result") != std::string::npos
                               && line.find("second: Solution Result") != std::string::npos;
                else rows.raw(row(line));
                first = false;
            }
            f.close();
            unlink((dir + e->d_name).c_str());
        }
        closedir(d);
    }
    vf::Rec r;
    r.b("refused", refused).i("cmd", logger->mInputData.mModeCommand).i("state", logger->mState).b("due", due != -1)
     .i("dueMajor", due).i("files", files).raw("rows", rows.json()).b("header", header).i("fileMajor", fileMajor);
    return r.json();
}
int main()
{
    char t[] = "/tmp/minorlogXXXXXX";
    dir = std::string(mkdtemp(t)) + "/";
    const int rc = vf::run(perform);
    rmdir(dir.c_str());
    return rc;
}
