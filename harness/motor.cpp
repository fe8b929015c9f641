#include "vf.hh"
#include "gunns-ts-models/common/controllers/fluid/TsPumpMotorController.hh"
#include "gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.hh"

static int kind = 0;
static TsPumpMotorController* p = 0;
static TsDcPwmDynMotor* m = 0;

template <class M> static bool malf(M& x, const vf::Cmd& c)
{
    if (c.name == "Load")         x.setLoadTorques(c[0] * 1.0e-5, 0.0, c[1] * 1.0e-5, 0.0);
    else if (c.name == "Degrade") { x.mMalfDegradeFlag = c[0]; x.mMalfDegradeValue = c[1] / 100.0; }
    else if (c.name == "Jam")     { x.mMalfJamFlag = c[0]; x.mMalfJamValue = c[1] / 100.0; }
    else if (c.name == "Spin")    { x.mMalfSpeedOverrideFlag = c[0]; x.mMalfSpeedOverrideValue = c[1]; }
    else if (c.name == "Heat")    { x.mMalfHeatRateBiasFlag = c[0]; x.mMalfHeatRateBiasValue = c[1]; }
    else return false;
    return true;
}
template <class M> static void motor(vf::Rec& r, M& x)
{
    r.r("mv", x.mVoltage, 1000.0).r("i", x.getCurrent(), 1000.0).r("p", x.getPower(), 100.0).r("speed", x.getSpeed(), 10.0)
     .r("heat", x.getWasteHeat(), 100.0).r("eff", std::fabs(x.getEfficiency()) < 1.0e5 ? x.getEfficiency() : 1.0e5, 1000.0).r("drive", x.mDriveTorque, 1.0e5).r("stall", x.mStallTorque, 1.0e5)
     .r("ext", x.mTotalExternalLoad, 1.0e5).r("fric", x.mFrictionTorque, 1.0e5);
}
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        kind = c[0];
        delete p; delete m; p = 0; m = 0;
        if (kind == 0) {
            p = new TsPumpMotorController;
            DcDynPumpMotorConfigData mc(c[12] / 100.0, c[13] / 100.0, c[14] * 1.0e-6, c[15], c[16] * 1.0e-4);
            TsPumpMotorControllerConfigData config(mc, c[1] / 100.0, c[2] / 100.0, c[3] / 100.0, c[4], c[5], c[6], c[7], c[8], c[9], 2.0 * c[10], c[11]);
            TsPumpMotorControllerInputData input;
            p->initialize(config, input, "pump");
        } else {
            m = new TsDcPwmDynMotor;
            TsDcPwmDynMotorConfigData config(c[1] / 100.0, c[2] / 1000.0, c[3] * 1.0e-5, c[4] * 1.0e-5, c[5] * 1.0e-4, c[6] / 100.0, c[7] * 1.0e-4, c[8] * 10.0);
            TsDcPwmDynMotorInputData input;
            m->initialize(config, input, "motor");
        }
    }
    else if (c.name == "Volts")        { if (p) p->setVoltage(c[0]); else m->setVoltage(c[0]); }
    else if (c.name == "Width" && m)   m->setPulseWidth(c[0] / 100.0);
    else if (c.name == "Sense" && p)   p->setSensedSpeed(c[0] < 0 ? p->getMotorSpeed() : c[0]);
    else if (c.name == "Temp" && p)    p->setSensedTemperature(c[0]);
    else if (c.name == "Command" && p) { p->setCommandEnable(c[0]); p->setCommandSpeed(c[1]); }
    else if (c.name == "Power" && p)   { p->mMalfFailPower = c[0]; p->mMalfPowerOverrideFlag = c[1]; p->mMalfPowerOverrideValue = c[2]; }
    else if (c.name == "Speed" && p)   { p->mMalfCommandSpeedFlag = c[0]; p->mMalfCommandSpeedValue = c[1]; }
    else if (c.name == "Load" && p)    p->setMotorLoadTorques(0.0, c[0] * 1.0e-5, 0.0, c[1] * 1.0e-5);
    else if (c.name == "Step")         { if (p) p->step(0.125); else m->step(0.125); }
    else if (!(p ? malf(p->mMotor, c) : malf(*m, c))) vf::refuse(c);
    vf::Rec r;
    if (p) {
        motor(r, p->mMotor);
        r.b("bus", p->isControllerBusPowered()).b("run", p->isMotorBusPowered()).b("trip", p->isTemperatureTripped()).b("start", p->mStartupState)
         .r("pw", p->getPulseWidth(), 1.0e5).r("err", p->mSpeedError, 1.0e5).r("total", p->getTotalWasteHeat(), 100.0)
         .r("amps", p->getTotalCurrent(), 1000.0).r("watts", p->getTotalPower(), 100.0).i("gen", 0);
    } else {
        motor(r, *m);
        r.b("bus", false).b("run", false).b("trip", false).b("start", false).i("pw", 0).i("err", 0).i("total", 0).i("amps", 0).i("watts", 0)
         .r("gen", m->getGeneratedCurrent(), 1000.0);
    }
    return r.json();
}
int main() { return vf::run(perform); }
