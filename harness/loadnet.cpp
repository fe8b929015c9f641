#include "vf.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include "aspects/electrical/Switch/SwitchElect.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.hh"
#include "software/exceptions/TsNumericalException.hh"

struct World {
    Gunns                       net;
    GunnsBasicNode              nodes[4];
    GunnsNodeList               list;
    GunnsBasicPotential         supply, battery;
    GunnsBasicConductor         load;
    SwitchElect                 m;
    GunnsElectUserLoadSwitch    b;
    GunnsElectUserLoadSwitch2   a, c;
    GunnsElectResistiveUserLoadConfigData*      rc[2];
    GunnsElectResistiveUserLoadInputData*       ri[2];
    GunnsElectConstantPowerUserLoadConfigData*  pc[2];
    GunnsElectConstantPowerUserLoadInputData*   pi[2];
    GunnsElectResistiveUserLoad*                r[2];
    GunnsElectConstantPowerUserLoad*            p[2];
    GunnsElectUserLoad*                         l[4];
    std::vector<GunnsBasicLink*> vec;
    ~World() { for (int i = 0; i < 2; ++i) { delete r[i]; delete p[i]; delete rc[i]; delete ri[i]; delete pc[i]; delete pi[i]; } }
};
static World* w = 0;

static void old(vf::Arr& a, GunnsElectSwitchUtil& s)
{
    vf::Arr t;
    if (s.mPosTrip) t.i(1);
    if (s.mNegTrip) t.i(2);
    if (s.mExternalTrip) t.i(3);
    a.raw(vf::Rec().b("pos", s.isClosed()).b("cmd", s.mSwitchCommandedClosed).b("wait", s.isWaitingToTrip()).b("just", s.isJustTripped()).raw("t", t.json()).json());
}
static void neu(vf::Arr& a, GunnsElectSwitchUtil2& s)
{
    GunnsTripLogic* l[] = {s.getInputUnderVoltageTrip(), s.getInputUnderVoltageReset(), s.getInputOverVoltageTrip(),
                           s.getInputOverVoltageReset(), s.getPosOverCurrentTrip(), s.getNegOverCurrentTrip()};
    vf::Arr t;
    for (int i = 0; i < 6; ++i) if (l[i]->isTripped()) t.i(i + 1);
    a.raw(vf::Rec().b("pos", s.getPosition()).b("cmd", s.getPositionCommand()).b("wait", s.isWaitingToTrip()).b("just", s.hasJustTripped()).raw("t", t.json()).json());
}
static std::string perform(const vf::Cmd& c)
{
    bool stepped = false, threw = false;
    double pfa = 0.0, pfb = 0.0;
    std::string before;
    const int fails = w ? w->net.getConvergenceFailCount() : 0;
    if (c.name == "Init") {
        delete w;
        w = new World;
        w->list.mNumNodes = 4;
        w->list.mNodes = w->nodes;
        for (int i = 0; i < 4; ++i) w->nodes[i].initialize(i == 3 ? "ground" : i == 0 ? "bus0" : i == 1 ? "bus1" : "bus2", 0.0);
        w->net.initializeNodes(w->list);
        w->supply.initialize(GunnsBasicPotentialConfigData("supply", &w->list, 10.0), GunnsBasicPotentialInputData(false, 0.0, c[0]), w->vec, 3, 0);
        GunnsElectSwitchUtilConfigData  mc(0.02, true, false, 0.0, c[4] > 1, c[4] > 1 ? 1 : 0, c[4]);
        GunnsElectSwitchUtilInputData   mi(false, 0, true, c[2] / 10.0, c[3] / 10.0);
        w->m.initialize(SwitchElectConfigData("M", &w->list, mc), SwitchElectInputData(false, 0.0, mi), w->vec, 0, 1);
        for (int i = 0; i < 2; ++i) {
            const bool duty = i == 1 && c[26] > 0;
            w->rc[i] = new GunnsElectResistiveUserLoadConfigData(i ? "load3" : "load1", c[25], c[17 + 4 * i], 4.0 * c[17 + 4 * i], c[18 + 4 * i] / 10.0,
                                                                 duty ? 1.0 * c[27] / c[26] : 0.0, duty ? 0.125 * c[26] : 0.0);
            w->ri[i] = new GunnsElectResistiveUserLoadInputData(1, 0.0, 0.0);
            w->pc[i] = new GunnsElectConstantPowerUserLoadConfigData(i ? "load4" : "load2", c[25], c[19 + 4 * i], c[19 + 4 * i] / 4.0, c[20 + 4 * i] / 10.0);
            w->pi[i] = new GunnsElectConstantPowerUserLoadInputData(1, 0.0, 0.0);
            w->l[2 * i] = w->r[i] = new GunnsElectResistiveUserLoad(w->rc[i], w->ri[i]);
            w->l[2 * i + 1] = w->p[i] = new GunnsElectConstantPowerUserLoad(w->pc[i], w->pi[i]);
        }
        w->a.addUserLoad(w->l[0]); w->a.addUserLoad(w->l[1]);
        w->b.addUserLoad(w->l[2]); w->b.addUserLoad(w->l[3]);
        w->a.initialize(GunnsElectUserLoadSwitch2ConfigData("A", &w->list, 0.02, c[11], -1000, 1000, -1000, 1000, -1000, 1000),
                        GunnsElectUserLoadSwitch2InputData(false, 0.0, true, c[5], c[6], c[7], c[8], c[9] / 10.0, c[10] / 10.0), w->vec, 1, 3);
        w->b.initialize(GunnsElectUserLoadSwitchConfigData("B", &w->list, 0.02, c[13]),
                        GunnsElectUserLoadSwitchInputData(false, 0.0, true, c[12] / 10.0, -10000.0), w->vec, 1, 3);
        w->c.initialize(GunnsElectUserLoadSwitch2ConfigData("C", &w->list, 0.02, c[16], -1000, 1000, -1000, 1000, -1000, 1000),
                        GunnsElectUserLoadSwitch2InputData(false, 0.0, true, 0, 0, 0, 0, c[14] / 10.0, c[15] / 10.0), w->vec, 1, 2);
        w->load.initialize(GunnsBasicConductorConfigData("load", &w->list, c[28] / 10.0), GunnsBasicConductorInputData(), w->vec, 2, 3);
        w->battery.initialize(GunnsBasicPotentialConfigData("battery", &w->list, c[1] > 0 ? 1.0 : 0.0), GunnsBasicPotentialInputData(false, 0.0, c[1]), w->vec, 3, 2);
        w->net.initialize(GunnsConfigData("net", 1.0e-7, 0.125, 200, 400), w->vec);
    }
    else if (c.name == "Supply")   w->supply.setSourcePotential(c[0]);
    else if (c.name == "Battery")  { w->battery.setDefaultConductivity(c[0] > 0 ? 1.0 : 0.0); w->battery.setSourcePotential(c[0]); }
    else if (c.name == "Cmd")      { if (c[0] == 0) w->a.mSwitch.setPositionCommand(c[1]); else if (c[0] == 1) w->b.mSwitch.setSwitchCommandedClosed(c[1]);
                                     else if (c[0] == 2) w->c.mSwitch.setPositionCommand(c[1]); else w->m.setSwitchCommandedClosed(c[1]); }
    else if (c.name == "Reset")    { if (c[0] == 0) w->a.mSwitch.mResetTripsCommand = true; else if (c[0] == 1) w->b.mSwitch.setTripReset();
                                     else if (c[0] == 2) w->c.mSwitch.mResetTripsCommand = true; else w->m.setSwitchTripReset(); }
    else if (c.name == "Fail")     { if (c[0] == 0) { w->a.mSwitch.setMalfFailClosed(c[1]); w->a.mSwitch.setMalfFailOpen(c[2]); }
                                     else if (c[0] == 2) { w->c.mSwitch.setMalfFailClosed(c[1]); w->c.mSwitch.setMalfFailOpen(c[2]); }
                                     else { GunnsElectSwitchUtil& s = c[0] == 1 ? w->b.mSwitch : w->m.mSwitch; s.setMalfFailClosed(c[1]); s.setMalfFailOpen(c[2]); } }
    else if (c.name == "External") (c[0] == 1 ? w->b.mSwitch : w->m.mSwitch).setExternalTrip(c[1]);
    else if (c.name == "Mode")     w->l[c[0] - 1]->getLoad()->setLoadOperMode(static_cast<UserLoadMode>(c[1]));
    else if (c.name == "Blow")     w->l[c[0] - 1]->getLoad()->setMalfBlowFuse(c[1]);
    else if (c.name == "Fuse")     w->l[c[0] - 1]->getLoad()->resetFuse();
    else if (c.name == "MalfI")    w->l[c[0] - 1]->getLoad()->setMalfOverrideCurrent(c[1], c[2] / 10.0);
    else if (c.name == "MalfP")    w->l[c[0] - 1]->getLoad()->setMalfOverridePower(c[1], c[2]);
    else if (c.name == "Magic")    { w->l[c[0] - 1]->getLoad()->mMagicPowerFlag = c[1]; w->l[c[0] - 1]->getLoad()->mMagicPowerValue = c[2]; }
    else if (c.name == "Override") { if (c[0] == 0) w->a.setLoadsOverride(c[1], c[2]); else if (c[0] == 1) w->b.setLoadsOverride(c[1], c[2]); else w->c.setLoadsOverride(c[1], c[2]); }
    else if (c.name == "Short")    { GunnsShortUtil& s = c[0] == 0 ? w->a.mShort : w->b.mShort; s.setMalfResistance(c[1] == 1, c[2] / 10.0); s.setMalfConstantPower(c[1] == 2, c[2]); }
    else if (c.name == "Restart")  w->net.restart();
    else if (c.name == "Step") {
        stepped = true;
        pfa = w->a.getFlux(); pfb = w->b.getFlux();
        vf::Arr q; old(q, w->m.mSwitch); old(q, w->b.mSwitch); neu(q, w->a.mSwitch); neu(q, w->c.mSwitch);
        for (int i = 0; i < 4; ++i) q.b(w->l[i]->getLoad()->isFuseBlown());
        before = q.json();
        try { w->net.step(0.125); } catch (TsNumericalException&) { threw = true; }
    }
    else vf::refuse(c);
    vf::Rec r;
    if (stepped) {
        vf::Arr sw, l, q;
        neu(sw, w->a.mSwitch); old(sw, w->b.mSwitch); neu(sw, w->c.mSwitch); old(sw, w->m.mSwitch);
        old(q, w->m.mSwitch); old(q, w->b.mSwitch); neu(q, w->a.mSwitch); neu(q, w->c.mSwitch);
        for (int i = 0; i < 4; ++i) q.b(w->l[i]->getLoad()->isFuseBlown());
        for (int i = 0; i < 4; ++i) {
            UserLoadBase* x = w->l[i]->getLoad();
            l.raw(vf::Rec().b("valid", x->getPowerValid()).b("blown", x->isFuseBlown()).r("i", x->getCurrent(), 1000.0).r("p", x->getPower(), 100.0).r("g", 1.0 / x->getResistance() - 1.0e-8, 1.0e6).json());
        }
        r.b("fail", threw or w->net.getConvergenceFailCount() != fails).raw("sw", sw.json()).raw("l", l.json()).b("events", q.json() != before)
         .r("v0", w->nodes[0].getPotential(), 1000.0).r("v1", w->nodes[1].getPotential(), 1000.0).r("v2", w->nodes[2].getPotential(), 1000.0)
         .r("fs", w->supply.getFlux(), 1000.0).r("fm", w->m.getFlux(), 1000.0).r("fa", w->a.getFlux(), 1000.0).r("fb", w->b.getFlux(), 1000.0)
         .r("fc", w->c.getFlux(), 1000.0).r("fd", w->load.getFlux(), 1000.0).r("fbat", w->battery.getFlux(), 1000.0).r("pfa", pfa, 1000.0).r("pfb", pfb, 1000.0)
         .r("va", w->a.mLoadsVoltage, 1000.0).r("vb", w->b.mLoadsVoltage, 1000.0).r("pa", w->a.getLoadsPower(), 100.0).r("pb", w->b.getLoadsPower(), 100.0)
         .r("ga", w->a.mShort.mShortConductance, 1.0e6).r("gb", w->b.mShort.mShortConductance, 1.0e6)
         .r("in1", w->nodes[1].getInflux(), 1000.0).r("out1", w->nodes[1].getOutflux(), 1000.0);
    } else r.b("fail", false);
    return r.json();
}
int main() { return vf::run(perform); }
