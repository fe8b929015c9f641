#include "vf.hh"
#include "messages.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "aspects/electrical/PowerBus/GunnsElectDistributedIf.hh"
#include "software/exceptions/TsNumericalException.hh"

// Node 0: the interface's bus with a load. Nodes 1 and 2: a voltage supply each, tied to the bus.
struct World {
    Gunns                        net;
    GunnsBasicNode               nodes[4];
    GunnsNodeList                list;
    GunnsElectConverterOutput    supply[2];
    GunnsBasicConductor          load, tie[2];
    GunnsElectDistributedIf      link;
    std::vector<GunnsBasicLink*> vec;
};
static World* w = 0;

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    bool threw = false, stepped = false;
    hs.clear();
    const int fails = w ? w->net.getConvergenceFailCount() : 0;
    if (c.name == "Init") {         // primary, forced role (1 supply, 2 demand), conductance (S), threshold (mV), load (0.1 S), voltages of the supplies
        delete w;
        w = new World;
        w->list.mNumNodes = 4;
        w->list.mNodes = w->nodes;
        for (int i = 0; i < 4; ++i) w->nodes[i].initialize("n" + std::to_string(i), 0.0);
        w->net.initializeNodes(w->list);
        GunnsElectDistributedIfConfigData cfg("if", &w->list, c[0] == 1, c[2], c[3] / 1000.0);
        for (int k = 0; k < 2; ++k) {
            GunnsElectConverterOutputConfigData sc("s", &w->list, GunnsElectConverterOutput::VOLTAGE, 10.0, 1.0);
            w->supply[k].initialize(sc, GunnsElectConverterOutputInputData(false, 0.0, c[5 + k] > 0, 120.0, 0.0, c[5 + k]), w->vec, k + 1);
            w->tie[k].initialize(GunnsBasicConductorConfigData("t", &w->list, 20.0), GunnsBasicConductorInputData(), w->vec, k + 1, 0);
            cfg.addSupply(&w->supply[k]);
        }
        w->link.initialize(cfg, GunnsElectDistributedIfInputData(c[1] == 2, c[1] == 1), w->vec, 0);
        w->load.initialize(GunnsBasicConductorConfigData("load", &w->list, c[4] / 10.0), GunnsBasicConductorInputData(), w->vec, 0, 3);
        w->net.initialize(GunnsConfigData("net", 1.0e-8, 0.1, 200, 400), w->vec);
    }
    else if (c.name == "In") {      // frame, loopback, demand, power (W), voltage (V)
        Distributed2WayBusElectInterfaceData& d = w->link.mInterface.mInData;
        d.mFrameCount = c[0]; d.mFrameLoopback = c[1]; d.mDemandMode = c[2] == 1; d.mDemandPower = c[3]; d.mSupplyVoltage = c[4];
    }
    else if (c.name == "Supply")  { w->supply[c[0]].setEnabled(c[1] == 1); w->supply[c[0]].setSetpoint(c[2]); }
    else if (c.name == "Tie")     w->tie[c[0]].setDefaultConductivity(c[1]);
    else if (c.name == "Load")    w->load.setDefaultConductivity(c[0] / 10.0);
    else if (c.name == "Force")   { if (c[0] == 1) w->link.mInterface.forceSupplyRole(); else if (c[0] == 2) w->link.mInterface.forceDemandRole(); else w->link.mInterface.resetForceRole(); }
    else if (c.name == "Malf")    (c[0] == 0 ? w->link.mMalfPowerLoad : w->link.mMalfVoltageSource) = c[1] == 1;
    else if (c.name == "Restart") w->net.restart();
    else if (c.name == "Step")    {
        stepped = true;
        try { w->net.step(0.1); } catch (TsNumericalException&) { threw = true; }
    }
    else vf::refuse(c);

    vf::Rec r;
    Distributed2WayBusElectInterfaceData& o = w->link.mInterface.mOutData;
    r.b("threw", threw or w->net.getConvergenceFailCount() != fails).b("demand", w->link.mInterface.isInDemandRole()).i("frame", o.mFrameCount).i("echo", o.mFrameLoopback)
     .b("asks", o.mDemandMode).r("volt", o.mSupplyVoltage, 1000.0).r("power", o.mDemandPower, 100.0);
    if (stepped) {
        vf::Arr v, i, t, a;
        for (int k = 0; k < 3; ++k) v.r(w->nodes[k].getPotential(), 1000.0);
        for (int k = 0; k < 2; ++k) { i.r(w->supply[k].getFlux(), 1000.0); t.r(w->tie[k].getFlux(), 1000.0); a.b(w->link.mSupplies[k].mSupplyData->mAvailable); }
        r.raw("v", v.json()).raw("i", i.json()).raw("t", t.json()).raw("avail", a.json())
         .r("src", w->link.mVoltageSource.getFlux(), 1000.0).r("draw", w->link.mPowerLoad.getFlux(), 1000.0).r("load", w->load.getFlux(), 1000.0)
         .r("influx", w->nodes[0].mInfluxRate, 1000.0).r("outflux", w->nodes[0].mOutfluxRate, 1000.0);
    }
    return r.json();
}
int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}
