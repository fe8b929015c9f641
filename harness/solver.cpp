#include "vf.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicNode.hh"
#include "software/exceptions/TsNumericalException.hh"
#include <ucontext.h>

// The solver runs on a stack of its own and hands control back whenever a link is first called in a
// new minor step, so that the links' answers can be decided one minor step at a time.
static ucontext_t     mainC, stepC;
static std::vector<char> stack_(1 << 20);
static int            haveK = 0;      // the minor step whose answers are in `script`
static std::vector<long> script;
static bool           live = false, threw = false, otherThrow = false;
static vf::Arr*       calls = 0;
static void need(int k)
{
    if (k == haveK) return;
    swapcontext(&stepC, &mainC);
    haveK = k;
}
static void call(long a, long b, long c = 0, long d = 0, double p = 0.0)
{
    calls->raw(vf::Arr().i(a).i(b).i(c).i(d).n(p).json());
}

class FakeLink : public GunnsBasicLink
{
public:
    int  mI;
    bool mNl;
    FakeLink(int i, bool nl) : GunnsBasicLink(1), mI(i), mNl(nl) {}
    void init(const GunnsBasicLinkConfigData& c, const GunnsBasicLinkInputData& in,
              std::vector<GunnsBasicLink*>& links) { int p[1] = {mI}; initialize(c, in, links, p); }
    long arg(int k) const { return script[6*mI + k]; }
    void apply()
    {
        const double g = arg(0);
        if (mAdmittanceMatrix[0] != g) { mAdmittanceMatrix[0] = g; mAdmittanceUpdate = true; }
        mSourceVector[0]   = arg(1);
        mOverrideVector[0] = arg(2) == 1;
        if (arg(2) == 1) mPotentialVector[0] = arg(3);
    }
    virtual bool isNonLinear() { return mNl; }
    virtual void processInputs()  { call(1, mI + 1); }
    virtual void processOutputs() { if (live) call(7, mI + 1); }
    virtual void step(const double dt) { need(1); call(2, mI + 1, 0, 0, dt); apply(); }
    virtual void minorStep(const double dt, const int k) { need(k); call(3, mI + 1, k, 0, dt); apply(); }
    virtual SolutionResult confirmSolutionAcceptable(const int conv, const int k)
    {
        need(k);
        call(4, mI + 1, conv, k, mPotentialVector[0]);
        return arg(4) == 0 ? REJECT : arg(4) == 1 ? CONFIRM : DELAY;
    }
    virtual bool resetLastMinorStep(const int conv, const int k)
    {
        call(5, mI + 1, conv, k, mPotentialVector[0]);
        return arg(5) == 1;
    }
    virtual void computeFlows(const double dt) { call(6, mI + 1, 0, 0, dt); }
};

static Gunns* net = 0;
static GunnsBasicNode* nodes = 0;
static std::vector<FakeLink*> links;
static std::vector<GunnsBasicLink*> vec;
static GunnsNodeList nodeList;

static void entry()
{
    try { net->step(4.0); }
    catch (TsNumericalException&) { threw = true; }
    catch (...) { otherThrow = true; }
    live = false;
    swapcontext(&stepC, &mainC);
}

static std::string perform(const vf::Cmd& c)
{
    vf::Arr log;
    calls = &log;
    threw = false;
    bool clash = false;
    if (c.name == "Init") {
        live = false;
        delete net; delete [] nodes;
        for (FakeLink* l : links) delete l;
        links.clear(); vec.clear();
        const int n = c[0];
        net = new Gunns();
        nodes = new GunnsBasicNode[n + 1];
        nodeList.mNumNodes = n + 1;
        nodeList.mNodes = nodes;
        for (int i = 0; i < n; ++i) nodes[i].initialize("n" + std::to_string(i), 8.0);
        nodes[n].initialize("ground", 0.0);
        net->initializeNodes(nodeList);
        GunnsBasicLinkInputData in(false, 0.0);
        for (int i = 0; i < n; ++i) {
            links.push_back(new FakeLink(i, c[4 + i] == 1));
            GunnsBasicLinkConfigData lc("l" + std::to_string(i), &nodeList);
            links[i]->init(lc, in, vec);
        }
        GunnsConfigData config("net", c[1] == 0 ? 0.5 : (double) c[1], 0.1, c[2], c[3]);
        net->initialize(config, vec);
    } else if (c.name == "Restart") {
        net->restart();
    } else if (c.name == "Begin") {
        if (live) clash = true;
        else {
            const int n = links.size();
            c[0] == 0 ? net->setNormalMode() : c[0] == 1 ? net->setDummyMode() : net->setSlaveMode();
            c[1] == 0 ? net->setRunMode() : net->setPauseMode();
            net->setWorstCaseTiming(c[2] == 1);
            net->mSorActive  = c[3] > 0;
            net->mSorMaxIter = c[3] == 1 ? 100 : 1;
            net->mDebugDesiredStep = c[4] == 1 ? 1000 : 0;
            net->setIslandMode(c[5] == 0 ? Gunns::OFF : c[5] == 1 ? Gunns::FIND : Gunns::SOLVE);
            std::vector<double> sp(n);
            for (int i = 0; i < n; ++i) sp[i] = c[6 + i];
            net->setSlavePotentialVector(&sp[0]);
            haveK = 0;
            live = true;
            getcontext(&stepC);
            stepC.uc_stack.ss_sp = &stack_[0];
            stepC.uc_stack.ss_size = stack_.size();
            stepC.uc_link = 0;
            makecontext(&stepC, entry, 0);
            swapcontext(&mainC, &stepC);
        }
    } else if (c.name == "Minor") {
        script = c.a;
        script.resize(6 * links.size());
        if (live) swapcontext(&mainC, &stepC);
    } else vf::refuse(c);

    vf::Rec r;
    r.b("busy", live).b("threw", threw).b("clash", clash or otherThrow).raw("calls", log.json());
    if (!live) {
        const int n = links.size();
        vf::Arr p, np, lp, lc, nc;
        for (int i = 0; i < n; ++i) {
            p.n(net->getPotentialVector()[i]);
            np.n(nodes[i].getPotential());
            lp.n(links[i]->getPotentialVector()[0]);
            if (net->getLinksConvergence()) lc.i(net->getLinksConvergence()[i]);
            if (net->getNodesConvergence()) nc.n(net->getNodesConvergence()[i]);
        }
        r.raw("P", p.json()).raw("np", np.json()).raw("lp", lp.json()).raw("lc", lc.json()).raw("nc", nc.json())
         .n("gp", nodes[n].getPotential())
         .i("major", net->getMajorStepCount()).i("minor", net->getMinorStepCount())
         .i("maxMinor", net->getMaxMinorStepCount()).i("dec", net->getDecompositionCount())
         .i("maxDec", net->mMaxDecompositionCount).i("lastDec", net->mLastDecomposition)
         .i("fail", net->getConvergenceFailCount()).i("rfail", net->getLinkResetStepFailCount())
         .r("avg", net->getAvgMinorStepCount(), 1000.0);
    }
    return r.json();
}
int main() { return vf::run(perform); }
