#include "vf.hh"
#include "gunns-ts-models/common/controllers/generic/TsPidController.hh"

static TsPidController* p = 0;
static double ret = 0.0;
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init" || c.name == "Reset") {
        if (c.name == "Init") { delete p; p = new TsPidController; }
        TsPidControllerConfigData config(c[0] / 4.0, c[1] / 4.0, c[2] / 4.0, c[3] / 4.0, c[4], c[5]);
        TsPidControllerInputData  input(c[6], c[7], c[8] / 4.0, c[9] / 4.0, c[10]);
        p->initialize(config, input, "pid");
    }
    else if (c.name == "Input")    p->setInput(c[0]);
    else if (c.name == "Setpoint") p->setSetpoint(c[0]);
    else if (c.name == "Interval") p->mInterval = c[0] / 4.0;
    else if (c.name == "Limits")   { p->mLimitLow = c[0]; p->mLimitHigh = c[1]; }
    else if (c.name == "Gains")    { p->mGainP = c[0] / 4.0; p->mGainI = c[1] / 4.0; p->mGainD = c[2] / 4.0; }
    else if (c.name != "Update" && c.name != "With") vf::refuse(c);
    ret = p->getOutput();
    if (c.name == "Update") ret = p->update(c[0] / 4.0);
    if (c.name == "With")   ret = p->update(c[0] / 4.0, c[1]);
    return vf::Rec().n("out", p->getOutput(), 64.0).n("ret", ret, 64.0).n("err", p->mError).n("sum", p->mIntegral, 4.0)
        .n("der", p->mDerivative).n("timer", p->mTimer, 4.0).json();
}
int main() { return vf::run(perform); }
