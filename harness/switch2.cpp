#include "vf.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil2.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>

static GunnsElectSwitchUtil2* sw = 0;
static bool refused = false;
static GunnsTripLogic* logic(int i)
{
    GunnsTripLogic* l[] = {sw->getInputUnderVoltageTrip(), sw->getInputUnderVoltageReset(), sw->getInputOverVoltageTrip(),
                           sw->getInputOverVoltageReset(), sw->getPosOverCurrentTrip(), sw->getNegOverCurrentTrip()};
    return l[i - 1];
}
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        delete sw;
        sw = new GunnsElectSwitchUtil2();
        refused = false;
        GunnsElectSwitchUtil2ConfigData config(c[10], c[9]);
        GunnsElectSwitchUtil2InputData  input(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]);
        try { sw->initialize(config, input, "switch"); } catch (TsInitializationException&) { refused = true; }
        if (refused == sw->isInitialized()) return "{\"refused\":\"init flag\"}";
    } else if (!refused) {
        if (c.name == "Cmd")         sw->setPositionCommand(c[0]);
        else if (c.name == "Reset")  sw->mResetTripsCommand = true;
        else if (c.name == "Malf")   { sw->setMalfFailClosed(c[0]); sw->setMalfFailOpen(c[1]); }
        else if (c.name == "Trip")   { logic(c[0])->mMalfInhibitTrip = c[1]; logic(c[0])->mMalfForceTrip = c[2]; }
        else if (c.name == "Limit")  logic(c[0])->setLimit(c[1]);
        else if (c.name == "Res")    sw->mResistance = c[0];
        else if (c.name == "Update") sw->updateState();
        else if (c.name == "Solved") sw->updateTrips(c[0], c[1], c[2]);
        else if (c.name == "ResetTrips") sw->resetTrips();
        else vf::refuse(c);
    }
    if (refused) return "{\"refused\":true}";
    vf::Arr trip, lim;
    for (int i = 1; i <= 6; ++i) { trip.b(logic(i)->isTripped()); lim.n(logic(i)->getLimit()); }
    const double r = sw->getResistance();
    vf::Rec o;
    o.b("refused", false).b("pos", sw->getPosition()).b("cmd", sw->getPositionCommand()).b("tripped", sw->isTripped())
     .b("wait", sw->isWaitingToTrip()).b("just", sw->hasJustTripped()).raw("trip", trip.json()).raw("lim", lim.json())
     .n("res", r == 1.0 / DBL_EPSILON ? -1 : r == FLT_EPSILON ? -2 : r);
    return o.json();
}
int main() { return vf::run(perform); }
