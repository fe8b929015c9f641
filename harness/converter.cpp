#include "vf.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "software/exceptions/TsNumericalException.hh"

// Node 0: supply and converter input. Node 1: converter output, load, battery.
struct World {
    Gunns                       net;
    GunnsBasicNode              nodes[3];
    GunnsNodeList               list;
    GunnsBasicPotential         supply, battery;
    GunnsBasicConductor         load;
    GunnsElectConverterInput    in;
    GunnsElectConverterOutput   out;
    std::vector<GunnsBasicLink*> vec;
};
static World* w = 0;

static std::string perform(const vf::Cmd& c)
{
    bool threw = false, stepped = false;
    const int fails = w ? w->net.getConvergenceFailCount() : 0;
    if (c.name == "Init") {
        delete w;
        w = new World;
        w->list.mNumNodes = 3;
        w->list.mNodes = w->nodes;
        w->nodes[0].initialize("in", 0.0);
        w->nodes[1].initialize("out", 0.0);
        w->nodes[2].initialize("ground", 0.0);
        w->net.initializeNodes(w->list);
        w->supply.initialize(GunnsBasicPotentialConfigData("supply", &w->list, 20.0), GunnsBasicPotentialInputData(false, 0.0, c[12]), w->vec, 2, 0);
        GunnsElectConverterInputConfigData  ic("in", &w->list, 0, 0, c[11], c[9], c[10], 0);
        GunnsElectConverterInputInputData   ii(false, 0.0, true, 0.0, 0.0, 0.0);
        GunnsElectConverterOutputConfigData oc("out", &w->list, static_cast<GunnsElectConverterOutput::RegulatorType>(c[0]), c[3], c[4] / 100.0,
                                               0, 0, c[8], c[5], c[7], &w->in, c[1] == 1, c[6]);
        GunnsElectConverterOutputInputData  oi(false, 0.0, true, 0.0, 0.0, c[0] == 1 ? c[13] / 1000.0 : c[13]);
        if (c[2] == 0) w->in.initialize(ic, ii, w->vec, 0);
        w->out.initialize(oc, oi, w->vec, 1);
        if (c[2] == 1) w->in.initialize(ic, ii, w->vec, 0);
        w->load.initialize(GunnsBasicConductorConfigData("load", &w->list, c[14] / 10.0), GunnsBasicConductorInputData(), w->vec, 1, 2);
        w->battery.initialize(GunnsBasicPotentialConfigData("battery", &w->list, c[15] > 0 ? 1.0 : 0.0), GunnsBasicPotentialInputData(false, 0.0, c[15]), w->vec, 2, 1);
        w->net.initialize(GunnsConfigData("net", 1.0e-7, 0.1, 200, 400), w->vec);
    }
    else if (c.name == "Supply")   w->supply.setSourcePotential(c[0]);
    else if (c.name == "Setpoint") w->out.setSetpoint(w->out.mRegulatorType == GunnsElectConverterOutput::TRANSFORMER ? c[0] / 1000.0 : c[0]);
    else if (c.name == "Load")     w->load.setDefaultConductivity(c[0] / 10.0);
    else if (c.name == "Battery")  { w->battery.setDefaultConductivity(c[0] > 0 ? 1.0 : 0.0); w->battery.setSourcePotential(c[0]); }
    else if (c.name == "Enable")   c[0] == 0 ? w->in.setEnabled(c[1] == 1) : w->out.setEnabled(c[1] == 1);
    else if (c.name == "Block")    c[0] == 0 ? w->in.setMalfBlockage(c[1] > 0, c[1] / 1000.0) : w->out.setMalfBlockage(c[1] > 0, c[1] / 1000.0);
    else if (c.name == "Malf") {
        GunnsTripLogic* t[5] = {&w->out.mOutputOverVoltageTrip, &w->out.mOutputUnderVoltageTrip, &w->out.mOutputOverCurrentTrip, &w->in.mInputOverVoltageTrip, &w->in.mInputUnderVoltageTrip};
        t[c[0]]->mMalfForceTrip   = c[1] == 1;
        t[c[0]]->mMalfInhibitTrip = c[1] == 2;
    }
    else if (c.name == "Reset")    (c[0] == 0 ? w->in.mResetTrips : w->out.mResetTrips) = true;
    else if (c.name == "Restart")  w->net.restart();
    else if (c.name == "Step")     {
        stepped = true;
        try { w->net.step(0.1); } catch (TsNumericalException&) { threw = true; }
    }
    else vf::refuse(c);
    vf::Rec r;
    if (stepped) {
        vf::Arr tr;
        if (w->out.mOutputOverVoltageTrip.isTripped())  tr.s("ov");
        if (w->out.mOutputUnderVoltageTrip.isTripped()) tr.s("uv");
        if (w->out.mOutputOverCurrentTrip.isTripped())  tr.s("oc");
        if (w->in.mInputOverVoltageTrip.isTripped())   tr.s("iov");
        if (w->in.mInputUnderVoltageTrip.isTripped())  tr.s("iuv");
        r.b("threw", threw or w->net.getConvergenceFailCount() != fails).raw("tr", tr.json()).i("lim", w->out.mLimitState)
         .r("vin", w->nodes[0].getPotential(), 1000.0).r("iin", w->in.getFlux(), 1000.0)
         .r("v", w->nodes[1].getPotential(), 1000.0).r("i", w->out.getFlux(), 1000.0)
         .r("pin", w->out.getInputPower(), 10000.0).r("oloss", w->out.mTotalPowerLoss, 10000.0)
         .r("closs", w->out.mOutputChannelLoss, 10000.0).r("iloss", w->in.mTotalPowerLoss, 10000.0);
    } else r.b("threw", threw);
    return r.json();
}
int main() { return vf::run(perform); }
