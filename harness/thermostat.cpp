#include "vf.hh"
#include "gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.hh"

static Thermostat* t = 0;
static int logicOf(int i) { return i == 0 ? ThermostatConfigData::SINGLE : i == 1 ? ThermostatConfigData::OR : ThermostatConfigData::AND; }

static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        delete t;
        t = new Thermostat;
        SensorAnalogConfigData sc(c[6] / 4.0, c[7] / 4.0, c[8] / 4.0, 0.0, 1.0, 0.0, 0.0, 0, UnitConversion::NO_CONVERSION, 0.0);
        SensorAnalogInputData  si(true, c[9] / 4.0);
        ThermostatConfigData config(sc, c[2] / 4.0, c[3] / 4.0, c[1], static_cast<ThermostatConfigData::LogicType>(logicOf(c[0])));
        ThermostatInputData  input(si, false, false, false, false, c[4] / 4.0, c[5] / 4.0);
        t->initialize(config, input, "thermostat");
    }
    else if (c.name == "Temp")     t->mTempSensor[c[0] - 1].setTruthInput(c[1] / 4.0);
    else if (c.name == "Sensor") {
        SensorAnalog& s = t->mTempSensor[c[0] - 1];
        s.mMalfFailToFlag = c[1]; s.mMalfFailToValue = c[2] / 4.0; s.mMalfFailOffFlag = c[3]; s.mMalfFailStuckFlag = c[4]; s.mMalfPerfectSensor = c[5];
    }
    else if (c.name == "Setpoint") t->setTemperatureSetpt(c[0] / 4.0);
    else if (c.name == "Bias")     t->setCommandSetptBias(c[0] / 4.0);
    else if (c.name == "Low")      { t->mMalfSetptLowFlag = c[0]; t->mMalfSetptLowValue = c[1] / 4.0; }
    else if (c.name == "High")     { t->mMalfSetptHighFlag = c[0]; t->mMalfSetptHighValue = c[1] / 4.0; }
    else if (c.name == "Malf")     { t->mMalfCmdOnFlag = c[0]; t->mMalfCmdOffFlag = c[1]; }
    else if (c.name == "Kill")     t->mIsKillSwitchEngaged = c[0];
    else if (c.name == "Update")   t->update(1.0);
    else vf::refuse(c);
    vf::Arr v;
    for (int i = 0; i < t->mNumSensors; ++i) v.n(t->mTempSensor[i].getSensedOutput(), 4.0);
    return vf::Rec().b("nominal", t->mCommandNominal == LoadON).b("setpt", t->mCommandSetpt == LoadON).b("actual", t->getCommandActual() == LoadON)
        .n("lo", t->mSetptLow, 4.0).n("hi", t->mSetptHigh, 4.0).raw("t", v.json()).json();
}
int main() { return vf::run(perform); }
