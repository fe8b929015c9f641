#include "vf.hh"
#include "interop/Distributed2WayBusFluid.hh"
#include <deque>

typedef Distributed2WayBusFluidInterfaceData Data;
struct SideH {
    Distributed2WayBusFluid bus;
    std::deque<Data*>       link;
    long                    pop;
    std::string             got;
    double                  limit;
};
static SideH* side[3] = {0, 0, 0};

static std::string arr(const double* v, int n)
{
    vf::Arr a;
    for (int i = 0; i < n; ++i) a.n(v[i]);
    return a.json();
}
static std::string obs(SideH& s)
{
    const Data& o = s.bus.mOutData;
    vf::Rec r;
    r.b("demand", s.bus.isInDemandRole()).i("ofc", o.mFrameCount).i("ofl", o.mFrameLoopback).n("cap", o.mCapacitance)
     .n("src", o.mSource).n("en", o.mEnergy).raw("mf", arr(o.mMoleFractions, o.getNumFluid()))
     .raw("tc", arr(o.mTcMoleFractions, o.getNumTc())).b("valid", s.bus.mInData.hasValidData())
     .raw("imf", arr(s.bus.mInData.mMoleFractions, s.bus.mInData.getNumFluid()))
     .raw("itc", arr(s.bus.mInData.mTcMoleFractions, s.bus.mInData.getNumTc()))
     .r("gain", s.bus.getDemandLimitGain(), 1e6).r("limit", s.limit, 1e4)
     .i("notes", s.bus.mNotifications.size()).i("pop", s.pop).raw("got", s.got);
    return r.json();
}
template <class T> static void fill(T& st, const vf::Cmd& c, size_t at)
{
    const int nf = c[at];
    const int nt = c[at + 1 + nf];
    st.initialize(nf, nt);
    for (int i = 0; i < nf; ++i) st.mMoleFractions[i] = c[at + 1 + i];
    for (int i = 0; i < nt; ++i) st.mTcMoleFractions[i] = c[at + 2 + nf + i];
}
template <class T> static void blank(T& st, int nf, int nt)
{
    st.initialize(nf, nt);
    st.mEnergy = -7;
    for (int i = 0; i < nf; ++i) st.mMoleFractions[i] = -7;
    for (int i = 0; i < nt; ++i) st.mTcMoleFractions[i] = -7;
}
template <class T> static std::string got(bool ok, double src, const T& st)
{
    return vf::Arr().i(ok).n(src).n(st.mEnergy).raw(arr(st.mMoleFractions, st.getNumFluid()))
           .raw(arr(st.mTcMoleFractions, st.getNumTc())).json();
}

static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        for (int x = 1; x <= 2; ++x) {
            delete side[x];
            SideH& s = *(side[x] = new SideH());
            s.pop = -1;
            s.got = "[]";
            s.limit = 0;
            const long f = c[6 + x];
            if (f == 1) s.bus.forceSupplyRole(); else if (f == 2) s.bus.forceDemandRole();
            s.bus.initialize(c[3*x-3] == 1, c[3*x-2], c[3*x-1]);
        }
    } else {
        SideH& s = *side[c[0]];
        SideH& other = *side[3 - c[0]];
        if      (c.name == "ForceRole")      c[1] == 0 ? s.bus.resetForceRole() : c[1] == 1 ? s.bus.forceSupplyRole() : s.bus.forceDemandRole();
        else if (c.name == "ProcessInputs")  s.bus.processInputs();
        else if (c.name == "ProcessOutputs") s.bus.processOutputs(c[1]);
        else if (c.name == "SetFluid")  { Distributed2WayBusFluidFluidState f; fill(f, c, 3); f.mPressure = c[1]; f.mEnergy = c[2]; s.bus.setFluidState(f); }
        else if (c.name == "SetFlow")   { Distributed2WayBusFluidFlowState f; fill(f, c, 3); f.mFlowRate = c[1]; f.mEnergy = c[2]; s.bus.setFlowState(f); }
        else if (c.name == "GetFluid")  { Distributed2WayBusFluidFluidState f; blank(f, c[1], c[2]); f.mPressure = -7; const bool ok = s.bus.getFluidState(f); s.got = got(ok, f.mPressure, f); }
        else if (c.name == "GetFlow")   { Distributed2WayBusFluidFlowState f; blank(f, c[1], c[2]); f.mFlowRate = -7; const bool ok = s.bus.getFlowState(f); s.got = got(ok, f.mFlowRate, f); }
        else if (c.name == "DemandLimit")    s.limit = s.bus.computeDemandLimit(c[1], c[2]);
        else if (c.name == "Pop")       {
            Distributed2WayBusNotification n(Distributed2WayBusNotification::ERR, "x");
            const unsigned int left = s.bus.popNotification(n);
            s.pop = n.mLevel;
            if (left != s.bus.mNotifications.size()) s.pop = -2;
            if (n.mLevel == Distributed2WayBusNotification::NONE && n.mMessage != "") s.pop = -3;
            if (n.mLevel != Distributed2WayBusNotification::NONE && n.mMessage == "") s.pop = -4;
        }
        else if (c.name == "Send")    { Data* d = new Data(); d->initialize(s.bus.mOutData.getNumFluid(), s.bus.mOutData.getNumTc()); *d = s.bus.mOutData; other.link.push_back(d); }
        else if (c.name == "Deliver") { if (!s.link.empty()) { s.bus.mInData = *s.link.front(); delete s.link.front(); s.link.pop_front(); } }
        else if (c.name == "Lose")    { if (!s.link.empty()) { delete s.link.front(); s.link.pop_front(); } }
        else vf::refuse(c);
    }
    return vf::Arr().raw(obs(*side[1])).raw(obs(*side[2])).json();
}
int main() { return vf::run(perform); }
