#include "vf.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsToggleValveAssembly.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsOpenCloseValveAssembly.hh"
#include "gunns-ts-models/common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.hh"
#include "gunns-ts-models/common/controllers/fluid/TsPositionValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsSpeedValveController.hh"
#include "gunns-ts-models/common/controllers/fluid/TsTValveController.hh"
#include "software/exceptions/TsInitializationException.hh"

struct World {
    TsValveController              valve;
    TsPoweredValveController       powered;
    TsToggleValveController        toggle;
    TsOpenCloseValveController     openClose;
    TsPositionValveController      position;
    TsSpeedValveController         speed;
    TsDualSolenoidValveController  dual;
    TsTValveController             tvalve;
    TsToggleValveAssembly          toggleAsm;
    TsOpenCloseValveAssembly       openCloseAsm;
    TsDualSolenoidValveAssembly    dualAsm;
    bool                           queue[64], enables[64];
};
static World* w = 0;
static int kind = 0;
static bool refused = false;

static TsValveController& valve() {
    switch (kind) {
        case 0: return w->valve;      case 1: return w->powered;   case 2: return w->toggle;
        case 3: return w->openClose;  case 4: return w->position;  case 5: return w->speed;
        case 6: return w->dual;       case 7: return w->tvalve.mAPath;
        case 8: return w->toggleAsm.mController; case 9: return w->openCloseAsm.mController;
        default: return w->dualAsm.mController;
    }
}
static TsPoweredValveController&      powered()   { return dynamic_cast<TsPoweredValveController&>(valve()); }
static TsToggleValveController&       toggle()    { return dynamic_cast<TsToggleValveController&>(valve()); }
static TsOpenCloseValveController&    openClose() { return dynamic_cast<TsOpenCloseValveController&>(valve()); }
static TsDualSolenoidValveController& dual()      { return dynamic_cast<TsDualSolenoidValveController&>(valve()); }
static SensorBooleanAi& sensor(int i) {
    if (kind == 8)  return i == 1 ? w->toggleAsm.mSensorOpen    : w->toggleAsm.mSensorClosed;
    if (kind == 9)  return i == 1 ? w->openCloseAsm.mSensorOpen : w->openCloseAsm.mSensorClosed;
    return i == 1 ? w->dualAsm.mSensorOpen : w->dualAsm.mSensorClosed;
}
static void init(const vf::Cmd& c) {
    const double lo = c[1], hi = lo + 8, flo = c[2] / 8.0, fhi = c[3] / 8.0, pos = c[4] / 4.0, man = c[6] / 4.0;
    TsValveControllerConfigData vc(lo, hi, flo, fhi);
    TsValveControllerInputData  vi(pos, c[5], man);
    TsPoweredValveControllerConfigData pc(lo, hi, flo, fhi, c[9], c[8], 1, 4, 16, 8, c[10], (TsPoweredValveController::LatchType) c[7]);
    TsPoweredValveControllerInputData  pi(pos, c[5], man, c[11], c[12], c[13]);
    TsPositionValveControllerConfigData xc(lo, hi, flo, fhi, c[9], c[8], 1, 4, 16, 8, c[10], (TsPoweredValveController::LatchType) c[7], c[14] / 4.0);
    TsDualSolenoidValveControllerConfigData dc(lo, hi, flo, fhi, (TsDualSolenoidValveController::LatchType) c[7]);
    TsDualSolenoidValveControllerInputData  di(pos, c[5], man, c[11], c[12]);
    SensorBooleanAiConfigData so(false, hi, c[15] / 4.0), sc(false, lo, c[15] / 4.0);
    SensorBooleanAiInputData  si(true, false, pos);
    switch (kind) {
        case 0: w->valve.initialize(vc, vi, "valve"); break;
        case 1: w->powered.initialize(pc, pi, "valve"); break;
        case 2: w->toggle.initialize(pc, pi, "valve"); break;
        case 3: w->openClose.initialize(pc, pi, "valve"); break;
        case 4: w->position.initialize(xc, pi, "valve"); break;
        case 5: w->speed.initialize(pc, pi, "valve"); break;
        case 6: w->dual.initialize(dc, di, "valve"); break;
        case 7: w->tvalve.initialize(TsTValveControllerConfigData(vc, vc),
                                     TsTValveControllerInputData((TsTValveController::PositionType) c[7], vi, vi), "valve"); break;
        case 8: w->toggleAsm.initialize(TsToggleValveAssemblyConfigData(pc, so, sc), TsToggleValveAssemblyInputData(pi, si, si), "valve"); break;
        case 9: w->openCloseAsm.initialize(TsOpenCloseValveAssemblyConfigData(pc, so, sc), TsOpenCloseValveAssemblyInputData(pi, si, si), "valve"); break;
        default: w->dualAsm.initialize(TsDualSolenoidValveAssemblyConfigData(dc, so, sc), TsDualSolenoidValveAssemblyInputData(di, si, si), "valve"); break;
    }
}
static bool initialized() {
    return kind == 7 ? w->tvalve.isInitialized() : kind == 8 ? w->toggleAsm.isInitialized() : kind == 9 ? w->openCloseAsm.isInitialized()
         : kind == 10 ? w->dualAsm.isInitialized() : valve().isInitialized();
}
static void update(double dt) {
    if (kind == 7)       w->tvalve.update(dt);
    else if (kind == 8)  w->toggleAsm.update(dt);
    else if (kind == 9)  w->openCloseAsm.update(dt);
    else if (kind == 10) w->dualAsm.update(dt);
    else                 valve().update(dt);
}
static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        delete w;
        w = new World();
        kind = c[0];
        refused = false;
        try { init(c); } catch (TsInitializationException&) { refused = true; }
        if (refused == initialized()) return "{\"refused\":\"init flag\"}";
    } else if (!refused) {
        TsValveController& v = valve();
        if (c.name == "Supply")          powered().setSupplyVoltageFlag(c[0]);
        else if (c.name == "Enable")     powered().setEnabledFlag(c[0]);
        else if (c.name == "Cmd")        powered().setCmd(c[0]);
        else if (c.name == "Speed")      w->speed.setSpeedCommand(c[0]);
        else if (c.name == "OpenClose")  { openClose().setOpenCommand(c[0]); openClose().setCloseCommand(c[1]); }
        else if (c.name == "Toggle")     toggle().setToggle(c[0]);
        else if (c.name == "Queue") {
            TsToggleValveCmd& q = toggle().mCommand;
            q.mToggle_queue = w->queue; q.mEnable_queue = w->enables;
            q.mToggle_queue_size = q.mEnable_queue_size = c.a.size();
            for (size_t i = 0; i < c.a.size(); ++i) { w->queue[i] = c[i] % 2; w->enables[i] = c[i] / 2; }
        }
        else if (c.name == "PosCmd")     w->position.setPositionCommand(c[0] / 4.0);
        else if (c.name == "PosSensed")  w->position.setSensed(c[0] / 4.0);
        else if (c.name == "Sensed") {
            const TsOpenCloseValveSensed s(c[0], c[1]);
            if (kind == 2) w->toggle.setSensed(s); else if (kind == 3) w->openClose.setSensed(s); else w->speed.setSensed(s);
        }
        else if (c.name == "Handle") {
            openClose().mHandleStowed = c[0] ? TsOpenCloseValveController::UNSTOWED : TsOpenCloseValveController::STOWED;
            openClose().mHandlePosition = c[1];
        }
        else if (c.name == "Solenoid")   { dual().setOpenSolenoidCmd(c[0]); dual().setCloseSolenoidCmd(c[1]); }
        else if (c.name == "Select")     w->tvalve.setPosition((TsTValveController::PositionType) c[0]);
        else if (c.name == "Manual")     v.setManualPosition(c[0], c[1] / 4.0);
        else if (c.name == "SetPos")     v.setPosition(c[0] / 4.0);
        else if (c.name == "MalfValve")  { v.mMalfValveStuckFlag = c[0]; v.mMalfValveFailToFlag = c[1]; v.mMalfValveFailToValue = c[2] / 4.0; v.mMalfManualFlag = c[3]; }
        else if (c.name == "MalfDrive")  { powered().mMalfDriveStuckFlag = c[0]; powered().mMalfDriveFailToFlag = c[1]; powered().mMalfDriveFailToValue = c[2] / 4.0; }
        else if (c.name == "MalfPower")  { powered().mMalfPowerGoodFlag = c[0]; powered().mMalfPowerFailFlag = c[1]; }
        else if (c.name == "MalfSolenoid") { dual().mMalfOpenSolenoidFail = c[0]; dual().mMalfCloseSolenoidFail = c[1]; }
        else if (c.name == "MalfSense")  { sensor(c[0]).mMalfFailToFlag = c[1]; sensor(c[0]).mMalfFailToValue = c[2]; }
        else if (c.name == "Update")     update(c[0]);
        else vf::refuse(c);
    }
    if (refused) return "{\"refused\":true}";
    TsValveController& v = valve();
    TsPoweredValveController* p = dynamic_cast<TsPoweredValveController*>(&v);
    TsToggleValveController* t = dynamic_cast<TsToggleValveController*>(&v);
    TsDualSolenoidValveController* d = dynamic_cast<TsDualSolenoidValveController*>(&v);
    const double r = p ? p->getResistance() : 0;
    vf::Rec o;
    vf::Arr loads, sensed, b;
    loads.b(d && d->getOpenSolenoidLoad() == LoadON).b(d && d->getCloseSolenoidLoad() == LoadON);
    if (kind == 8)       sensed.b(w->toggleAsm.getOpenSensed()).b(w->toggleAsm.getCloseSensed());
    else if (kind == 9)  sensed.b(w->openCloseAsm.getOpenSensed()).b(w->openCloseAsm.getCloseSensed());
    else if (kind == 10) sensed.b(w->dualAsm.mSensorOpen.getSensedOutput()).b(w->dualAsm.mSensorClosed.getSensedOutput());
    else sensed.b(false).b(false);
    if (kind == 7) b.n(w->tvalve.mBPath.getPosition(), 4).n(w->tvalve.mBPath.getFluidPosition(), 256); else b.i(0).i(0);
    o.b("refused", false).n("pos", v.getPosition(), 4).n("fluid", v.getFluidPosition(), 256).b("stuck", v.isStuck())
     .b("lower", v.isLowerLimit()).b("upper", v.isUpperLimit()).n("power", p ? p->getPower() : 0).n("res", r == 1.0e6 ? -1 : r)
     .i("count", t ? t->mCommand.mToggleCount : 0).raw("loads", loads.json()).raw("sensed", sensed.json()).raw("b", b.json());
    return o.json();
}
int main() { return vf::run(perform); }
