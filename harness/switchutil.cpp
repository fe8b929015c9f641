#include "vf.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil.hh"
#include "aspects/electrical/Switch/Switch.hh"
#include "software/exceptions/TsInitializationException.hh"

template <class S, class C, class I> struct Driver
{
    S* sw;
    bool refused;
    Driver() : sw(0), refused(false) {}
    std::string perform(const vf::Cmd& c)
    {
        if (c.name == "Init") {
            delete sw;
            sw = new S();
            refused = false;
            C config(c[6], c[2], false, 0.0, c[3], c[4], c[5]);
            I input(false, 0, c[1], c[7], c[8]);
            try { sw->initialize(config, input, "card", 1); } catch (TsInitializationException&) { refused = true; }
        } else if (!refused) {
            if (c.name == "Cmd")           sw->setSwitchCommandedClosed(c[0]);
            else if (c.name == "Reset")    sw->setTripReset();
            else if (c.name == "External") sw->setExternalTrip(c[0]);
            else if (c.name == "Limits")   { sw->setPosTripLimit(c[0]); sw->setNegTripLimit(c[1]); }
            else if (c.name == "Malf")     { sw->mMalfFailClosed = c[0]; sw->mMalfFailOpen = c[1]; }
            else if (c.name == "Ignore")   sw->mMalfIgnoreCurrentTrip = c[0];
            else if (c.name == "MalfPos")  { sw->mMalfPosTripSetpointFail = c[0]; sw->mMalfPosTripSetpointFailValue = c[1]; }
            else if (c.name == "MalfNeg")  { sw->mMalfNegTripSetpointFail = c[0]; sw->mMalfNegTripSetpointFailValue = c[1]; }
            else if (c.name == "MalfRes")  { sw->mMalfFailResistance = c[0]; sw->mMalfFailResistPercent = c[1]; }
            else if (c.name == "Update")   sw->updateSwitchState(c[0]);
            else if (c.name == "Flow")     sw->updateSwitchFlow(c[0], c[1], c[2], c[3], c[4]);
            else vf::refuse(c);
        }
        if (refused) return "{\"refused\":true}";
        const double g = sw->getConductance();
        vf::Rec o;
        o.b("refused", false).b("closed", sw->isClosed()).b("cmd", sw->isCommandedClosed()).b("tripped", sw->isTripped())
         .b("pos", sw->isPosTrip()).b("neg", sw->isNegTrip()).b("wait", sw->isWaitingToTrip()).b("just", sw->isJustTripped())
         .n("amps", sw->getCurrent()).n("vin", sw->getInputVolts()).n("vout", sw->getOutputVolts())
         .r("power", sw->getPowerDissipation(), 10000)
         .raw("lim", vf::Arr().n(sw->getPosTripLimit()).n(sw->getNegTripLimit()).json())
         .i("show", sw->mSwitchStateEnum).n("res", g == 0.0 ? -1 : g > 1.0e8 ? 0 : 10000 / g);
        return o.json();
    }
};
static Driver<GunnsElectSwitchUtil, GunnsElectSwitchUtilConfigData, GunnsElectSwitchUtilInputData> a;
static Driver<Switch, SwitchConfigData, SwitchInputData> b;
static long which = 0;
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") which = c[0];
    return which == 0 ? a.perform(c) : b.perform(c);
}
int main() { return vf::run(perform); }
