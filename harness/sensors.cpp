#include "vf.hh"
#include "gunns-ts-models/common/sensors/SensorAnalog.hh"
#include "gunns-ts-models/common/sensors/SensorBooleanBi.hh"
#include "gunns-ts-models/common/sensors/SensorBooleanAi.hh"
#include "gunns-ts-models/common/sensors/SensorVlvOpenClose.hh"
#include "gunns-ts-models/common/sensors/TsLimitSwitch.hh"
#include "gunns-ts-models/common/sensors/TsLimitSwitchAnalog.hh"
#include "gunns-ts-models/common/sensors/TsFanSpeedSensors.hh"
#include "gunns-ts-models/common/sensors/TsOpticSmokeDetector.hh"
#include "gunns-ts-models/common/sensors/TsNoise.hh"
#include "software/exceptions/TsInitializationException.hh"

struct World {
    SensorAnalog         analog;
    SensorBooleanBi      bi;
    SensorBooleanAi      ai;
    SensorVlvOpenClose   valve;
    TsLimitSwitch        limit;
    TsLimitSwitchAnalog  limita;
    TsFanSpeedSensors    fan;
    TsOpticSmokeDetector smoke;
};
static World* w = 0;
static int kind = 0;
static bool refused = false, noiseGood = true;
static double noise[2];
static int drawn = 0;
static double scripted() { return drawn < 2 ? noise[drawn++] : 1000; }

static SensorBase& base(int i) {
    switch (kind) {
        case 0: return w->analog;
        case 1: return w->bi;
        case 2: return w->ai;
        case 3: return i == 1 ? w->valve.mOpen : w->valve.mClose;
        default: return i == 1 ? w->fan.mSensorA : i == 2 ? w->fan.mSensorB : w->fan.mSensorC;
    }
}
static void init(const vf::Cmd& c) {
    noise[0] = noise[1] = 0; drawn = 0;
    noiseGood = true;
    switch (kind) {
        case 0: case 6: {
            const UnitConversion::Type conv[] = {UnitConversion::NO_CONVERSION, UnitConversion::UNIT_TO_MILLI, UnitConversion::C_TO_F};
            SensorAnalogConfigData config(c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[10] ? &scripted : 0, conv[c[8]], c[9]);
            SensorAnalogInputData input(c[11], c[12]);
            if (kind == 0) w->analog.initialize(config, input, "sensor");
            else w->fan.initialize(TsFanSpeedSensorsConfigData(config), TsFanSpeedSensorsInputData(input, input, input), "sensor");
            break;
        }
        case 1: w->bi.initialize(SensorBooleanBiConfigData(c[1]), SensorBooleanBiInputData(c[2], c[3]), "sensor"); break;
        case 2: w->ai.initialize(SensorBooleanAiConfigData(c[1], c[2], c[3]), SensorBooleanAiInputData(c[4], false, c[5]), "sensor"); break;
        case 3: w->valve.initialize(SensorVlvOpenCloseConfigData(SensorBooleanAiConfigData(c[1], c[2], c[3]), SensorBooleanAiConfigData(c[1], c[4], c[5])),
                                    SensorVlvOpenCloseInputData(c[6]), "sensor"); break;
        case 4: case 5: {
            TsLimitSwitchAnalogConfigData config;
            config.mNotPoweredValue = c[6]; config.mTargetValue = c[4]; config.mTolerance = c[5];
            TsLimitSwitchAnalogInputData input(c[1], c[2], c[3]);
            if (kind == 4) w->limit.initialize(config, input); else w->limita.initialize(config, input);
            break;
        }
        case 7: {
            TsOpticSmokeDetectorConfigData d;
            d.obsMaxPercentage = c[1] / 4.0; d.obsMinPercentage = c[2] / 4.0; d.obsSmokeContributer = c[3] / 4.0;
            d.scatterMaxPercentage = c[4] / 4.0; d.scatterMinPercentage = c[5] / 4.0; d.bitOnMaxScatterValue = c[6] / 4.0;
            d.nominalObscuration = c[7] / 4.0; d.nominalScatter = c[8] / 4.0; d.bitRecoveryTime = c[9] / 4.0;
            d.obsOffValue = c[10] / 4.0; d.scatOffValue = c[11] / 4.0;
            d.obsSensorConfigD.mMaxRange = 104; d.scatterSensorConfigD.mMaxRange = 2.25;
            d.obsPercentVoltSlope = -2; d.obsVoltIntercept = 4; d.scatPercentVoltSlope = 2; d.scatVoltIntercept = 0;
            TsOpticSmokeDetectorInputData i;
            i.isPowered = c[12]; i.isBitEnabled = c[13]; i.smokeLevelFactor = c[14] / 4.0; i.bitTimer = c[15] / 4.0;
            w->smoke.initialize(d, i, "detector");
            w->smoke.obscurationSensor.mNoiseFunction = w->smoke.scatterSensor.mNoiseFunction = &scripted;   // no noise
            break;
        }
    }
}
static bool initialized() {
    switch (kind) {
        case 3: return w->valve.mInitFlag;
        case 4: return w->limit.isInitialized();
        case 5: return !refused && w->limita.isInitialized();
        case 6: return w->fan.isInitialized();
        case 7: return w->smoke.isInitialized();
        default: return base(1).isInitialized();
    }
}
static void malf(SensorBase& b, const vf::Cmd& c) {
    b.mMalfPerfectSensor = c[0]; b.mMalfFailToFlag = c[1]; b.mMalfFailOffFlag = c[3]; b.mMalfFailStuckFlag = c[4]; b.mMalfIgnorePower = c[5];
    if (SensorAnalog* a = dynamic_cast<SensorAnalog*>(&b)) a->mMalfFailToValue = c[2];
    if (SensorBooleanBi* a = dynamic_cast<SensorBooleanBi*>(&b)) a->mMalfFailToValue = c[2];
}
static void error(SensorAnalog& a, const vf::Cmd& c) {
    switch (c[0]) {
        case 1: a.mMalfScaleFlag = c[1]; a.mMalfScaleValue = c[2]; break;
        case 2: a.mMalfBiasFlag = c[1]; a.mMalfBiasValue = c[2]; break;
        case 3: a.mMalfDriftFlag = c[1]; a.mMalfDriftRate = c[2]; break;
        case 4: a.mMalfNoiseFlag = c[1]; a.mMalfNoiseScale = c[2]; a.mMalfNoiseMultiplier = c[3]; break;
        default: a.mMalfResolutionFlag = c[1]; a.mMalfResolutionValue = c[2]; break;
    }
}
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        delete w;
        w = new World();
        kind = c[0];
        refused = false;
        try { init(c); } catch (TsInitializationException&) { refused = true; }
        if (refused == initialized()) return "{\"refused\":\"init flag\"}";
    } else if (!refused) {
        if (c.name == "Malf")       malf(base(c.a.size() > 6 ? c[6] : 1), c);
        else if (c.name == "Error") error(dynamic_cast<SensorAnalog&>(base(kind == 6 ? c[4] : 1)), c);
        else if (c.name == "Power") {
            if (kind == 7)      w->smoke.isPowered = c[0];
            else if (kind == 3) w->valve.setPowerFlag(c[0]);
            else if (kind == 6) w->fan.setPowerFlag(c[0]);
            else                base(1).setPowerFlag(c[0]);
        }
        else if (c.name == "Truth") {
            switch (kind) {
                case 0: w->analog.setTruthInput(c[0]); break;
                case 1: w->bi.setTruthInput(c[0]); break;
                case 2: w->ai.setTruthInput(c[0]); break;
                case 3: w->valve.setTruthInput(c[0]); break;
                case 6: w->fan.setTruthInput(c[0]); break;
                default: w->smoke.smokeLevelFactor = c[0] / 4.0;
            }
        }
        else if (c.name == "Noise") { noise[0] = c[0]; noise[1] = c[1]; }
        else if (c.name == "Update") {
            drawn = 0;
            switch (kind) {
                case 0: w->analog.update(c[0]); break;
                case 1: w->bi.update(c[0]); break;
                case 2: w->ai.update(c[0]); break;
                case 3: w->valve.update(c[0]); break;
                case 6: w->fan.update(c[0]); break;
                default: w->smoke.update(c[0] / 4.0);
            }
        }
        else if (c.name == "Bit")       w->smoke.isBitEnabled = c[0];
        else if (c.name == "MalfSmoke") { w->smoke.malfPowerToOn = c[0]; w->smoke.malfTotalFail = c[1]; }
        else if (c.name == "Sense")     { if (kind == 4) w->limit.update(c[0], c[1], c[2]); else w->limita.update(c[0], c[1], c[2]); }
        else if (c.name == "Failed")    { if (kind == 4) w->limit.setFailedValue(c[0]); else w->limita.setFailedValue(c[0]); }
        else if (c.name == "Draw") {
            TsNoise::initialize(c[0]);
            for (int i = 0; i < c[1]; ++i) { const double x = TsNoise::getNoise(); if (!(x >= -1 && x <= 1)) noiseGood = false; }
        }
        else vf::refuse(c);
    }
    if (refused) return "{\"refused\":true}";
    vf::Rec o;
    switch (kind) {
        case 0: o.n("out", w->analog.getSensedOutput()).n("truth", w->analog.getTruthOutput()).b("degraded", w->analog.mDegradedFlag).b("good", noiseGood); break;
        case 1: o.b("out", w->bi.getSensedOutput()).b("degraded", w->bi.mDegradedFlag); break;
        case 2: o.b("out", w->ai.getSensedOutput()).b("degraded", w->ai.mDegradedFlag); break;
        case 3: o.b("open", w->valve.mOpen.getSensedOutput()).b("close", w->valve.mClose.getSensedOutput()); break;
        case 4: o.b("out", w->limit.getValue()).b("truth", w->limit.mTrueValue); break;
        case 5: o.b("out", w->limita.getValue()).b("truth", w->limita.mTrueValue); break;
        case 6: {
            vf::Arr a;
            a.n(w->fan.mSensorA.getSensedOutput()).n(w->fan.mSensorB.getSensedOutput()).n(w->fan.mSensorC.getSensedOutput());
            o.r("sum", w->fan.getSensedOutput(), 3.0).raw("out", a.json());
            break;
        }
        default: {
            TsOpticSmokeDetector& s = w->smoke;
            o.b("on", s.isLoadOn).b("testing", s.isBitInProcess).n("obs", s.obscurationPercentage, 4).n("sca", s.scatterPercentage, 4)
             .n("sobs", s.obscurationSensor.getSensedOutput(), 4).n("ssca", s.scatterSensor.getSensedOutput(), 4)
             .n("vobs", s.obsSensedVoltage, 4).n("vsca", s.scatSensedVoltage, 4);
        }
    }
    return o.json();
}
int main() { return vf::run(perform); }
