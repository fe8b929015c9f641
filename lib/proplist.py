# prop(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, ...)

prop("C01", "Solver minor-step protocol",
     "In a major step every link is stepped once, in the order the links were registered, and after that only non-linear links are "
     "stepped again. Outside the worst-case timing mode, the solution of a network with non-linear links is accepted only in a minor "
     "step in which no potential moved by more than the tolerance since the last minor step and no link asked to delay or reject "
     "it; a delay keeps the solution and asks the links again. The major step never runs past its minor-step or decomposition "
     "limit. The solution solves the links' current contributions: a changed admittance is decomposed before it is used. Link "
     "outputs are processed once per major step, in reverse order, and only when it converged; the step, decomposition and failure "
     "counters count exactly what happened.",
     "inputs histories configurations",
     "All networks (any mix of linear and non-linear links), all answers the links give when asked to accept a solution, all "
     "sequences of major steps, limits, tolerances and solver run modes.",
     "Unit tests script a handful of link answers over two or three steps; the protocol has to hold for every sequence of answers.",
     ["core/Gunns.cpp", "core/Gunns.hh", "core/GunnsBasicLink.hh"],
     [("Gunns::step, iterateMinorSteps, buildAndSolveSystem, confirmSolutionAcceptance", "core/Gunns.cpp")],
     [("convergence counters", "steps since the solution last converged", "core/Gunns.cpp iterateMinorSteps")],
     ["calls made on a link that records them", "public counters and getters of the solver"],
     "Solver.tla: explored by TLC for two links and up to three minor steps, all answers; every edge replayed in the real "
     "solver with links that record their calls, and random runs of up to 4 links, 9 minor steps and 40 major steps validated by "
     "TLC. The random runs' admittances and potentials are small integers. Trusts TLC, the compiler and the harness.")

prop("C02", "Rejected and failed steps are rolled back",
     "When a link rejects a minor step's solution, every node and link is back at the potentials of the last good minor step, each "
     "non-linear link is told to reset and the convergence count restarts. When a major step fails to converge or to decompose "
     "within its limits, every node that no link overrides is back at the potentials of the last good major step, the failure is "
     "counted, and no link processes outputs. A step that cannot be solved leaves nothing behind that changes how later steps are "
     "solved. In slave mode the solution is the given one, in dummy mode the node potentials are left alone, and while paused "
     "nothing changes.",
     "histories fault_sequences inputs",
     "All histories of accepted, rejected, delayed and failing minor and major steps, with overrides, solver modes, pauses, failing "
     "iterative (SOR) solutions, matrices that cannot be decomposed, and restarts.",
     "Unit tests reject one step and look once; state left behind shows only in a later step.",
     ["core/Gunns.cpp", "core/GunnsBasicLink.cpp"],
     [("resetLastMinorStep, resetLastMajorStep, processMinor/MajorStepOutputs", "core/Gunns.cpp")],
     [("last minor and major potential vectors", "rollback points", "core/Gunns.cpp")],
     ["node and link potentials, calls on the links, counters"],
     "Solver.tla with overrides, run modes, pauses, SOR, math failures; graph edges (12000 of them in the quick tier) and random "
     "runs replayed in the real solver and validated by TLC. Trusts TLC, the compiler and the harness.")

prop("C03", "Islands are exactly the connected groups of nodes",
     "With the island mode on, after every solved step each node's island is the set of nodes connected to it through links that "
     "conduct between nodes other than the ground, in ascending order, and all its nodes hold the same one; solving island by "
     "island gives a solution of the whole network.",
     "inputs histories configurations",
     "All networks, all histories of conductances appearing and vanishing, ports moving, blockages and the mode switching in run.",
     "Unit tests build one or two fixed networks; islands merge and split with every switch and valve that moves in run.",
     ["core/Gunns.cpp", "core/GunnsBasicNode.cpp"],
     [("Gunns::findIslands, solveIslands", "core/Gunns.cpp")],
     [("island vectors", "node lists per island", "core/Gunns.cpp, core/GunnsBasicNode.hh")],
     ["GunnsBasicNode::getIslandVector, node potentials, link fluxes"],
     "Network.tla: every conductance on/off combination and mode of a 4-node ring explored by TLC, all edges replayed; random "
     "sparse networks of up to 6 nodes and 8 links. Trusts TLC, the compiler and the harness.")

prop("C04", "The solved network satisfies its links' laws and conserves flux",
     "After every solved step of a network of basic links (conductor, potential, source, capacitor), the ground is at zero, every "
     "link's flux is its law applied to the node potentials on its ports, the flux into every node that is not overridden equals "
     "the flux out of it and both are what the node reports, nodes with no path to the ground and no source rest at zero, and a "
     "requested network capacitance is the one the conductances imply. Links and nodes agree on every potential.",
     "inputs histories configurations",
     "All networks of these links, with conductances, sources, blockages, port moves, overrides, island modes, step sizes and "
     "restarts in any order.",
     "Unit tests check a few hand-solved networks; conservation has to survive every history of changes to the cached matrix.",
     ["core/Gunns.cpp", "core/GunnsBasicNode.cpp", "core/GunnsBasicLink.cpp", "core/GunnsBasicConductor.cpp",
      "core/GunnsBasicPotential.cpp", "core/GunnsBasicSource.cpp", "core/GunnsBasicCapacitor.cpp"],
     [("admittance and source assembly", "core/Gunns.cpp buildAdmittanceMatrix, buildSourceVector"),
      ("floating node conditioning", "core/Gunns.cpp"), ("flux transport", "core/GunnsBasicLink.cpp transportFlux")],
     [("mAdmittanceUpdate", "whether the link's admittance changed since the matrix was built", "core/GunnsBasicLink.hh")],
     ["node potentials and fluxes, link fluxes, network capacitances"],
     "Network.tla states the equations as relations on the observed values (to 1e-4 of a unit of potential); a small network's "
     "switchings explored by TLC and replayed, random networks of up to 5 nodes and 9 links. A floating group with a "
     "source in it is unspecified. Trusts TLC, the compiler and the harness.")

prop("C05", "Links' ports stay well-formed under any port commands",
     "However links' ports are moved, by the model or by user commands, every port is on a node of the network and no link "
     "joins a node other than the ground to itself; a refused or locked request changes nothing and says so, a user command is "
     "carried out at most once, at the next step, and reports success or failure; after a move the link acts on its new nodes and "
     "no longer on the old ones.",
     "inputs histories",
     "All sequences of port moves, user port commands, locks, steps and restarts, with valid and invalid ports and nodes.",
     "Unit tests try single commands; swaps and conflicts of several ports and commands need sequences.",
     ["core/GunnsBasicLink.cpp", "core/Gunns.cpp"],
     [("GunnsBasicLink::setPort, checkPortRules, processUserPortCommand", "core/GunnsBasicLink.cpp")],
     [("node map", "node of each port", "core/GunnsBasicLink.hh")],
     ["node map, return of setPort, user command state, resulting solution"],
     "Network.tla: ports of two links on two nodes explored by TLC with valid and invalid commands, locks and restarts, edges "
     "replayed; random networks with moving ports. Restart re-applies the default ports one at a time under the same "
     "rules. Trusts TLC, the compiler and the harness.")

prop("C06", "The minor step log holds and writes exactly the recorded steps",
     "While recording, the solver's minor step log holds the latest minor steps, oldest first and no more than its size, each with "
     "its major and minor step number, decompositions, result, potentials, and every link's result and contributions. A file is "
     "due exactly when a snap is commanded or, in automatic recording, when a major step ends without success; from then until the "
     "file is written the log does not change, whatever is commanded, resized or solved meanwhile, and the file holds exactly that "
     "log, named after its last major step. Recording states follow the commands; a bad size or command is refused at "
     "initialization, and a file that can't be opened loses the dump but doesn't stop the log.",
     "schedules histories inputs",
     "All interleavings of user commands, solver steps, resizing in freeze and the file writing thread, for all log sizes.",
     "Unit tests record a handful of steps and dump once; what survives a dump that is late, a resize while it is due, or a log "
     "shorter than a major step depends on the interleaving.",
     ["core/GunnsMinorStepLog.cpp", "core/GunnsMinorStepLog.hh"],
     [("beginMajorStep, endMajorStep, initiateDump, updateAsync, updateFreeze", "core/GunnsMinorStepLog.cpp"),
      ("ring buffer of steps", "core/GunnsMinorStepLog.hh")],
     [("log state", "paused, recording or a file due", "core/GunnsMinorStepLog.hh mState")],
     ["the command, the state, the file name due, and the rows of the file written"],
     "MinorLog.tla: explored by TLC for logs of 0 to 2 steps and 3 major steps with the writer and the freeze job at any point; "
     "edges (40000 in the quick tier) and random runs with logs of up to 8 steps replayed in the real log, written to a scratch "
     "directory and read back, and validated by TLC. Covers the log object; that the solver calls it as here is not "
     "covered. Trusts TLC, the compiler and the harness.")

prop("C08", "Fluid bus: exactly one side owns the volume",
     "Two models joined over a lagged fluid bus end up, whenever their capacitances stop changing, with exactly one side in Supply "
     "and the other in Demand, and stay so; a side changes role only on valid data from the other side or on a forced role, and a "
     "forced role is kept until released. Each side reports and reads only what its role allows, and the mixture, energy, "
     "pressure or flow one side sends is what the other side reads, whatever the sizes of their mixture arrays.",
     "schedules histories inputs fault_sequences",
     "All relative speeds of the two sides, link latencies, lost messages, capacitance histories, forced roles, mixture sizes and "
     "invalid data.",
     "Unit tests drive one side by hand through a few frames; role negotiation depends on the interleaving of both sides with a "
     "link that delays and loses data.",
     ["ms-utils/interop/Distributed2WayBusBase.cpp", "ms-utils/interop/Distributed2WayBusFluid.cpp"],
     [("flipModesOnInput, flipModesOnCapacitance, forced role guards", "ms-utils/interop/Distributed2WayBusFluid.cpp"),
      ("updateFrameCounts", "ms-utils/interop/Distributed2WayBusBase.cpp"),
      ("hasValidData", "ms-utils/interop/Distributed2WayBusFluid.cpp")],
     [("role", "outgoing demand mode flag", "Distributed2WayBusBaseInterfaceData"),
      ("frame counters", "frames sent, echoed and since the last flip", "Distributed2WayBusBase")],
     ["return of every public call and the outgoing interface data"],
     "FluidBus.tla: TLC explores both sides exhaustively, asynchronously (any relative speed, forced roles) and in lockstep with "
     "latency 1-3 (settling); every edge of those graphs taken in the quick tier's budget and random runs with losses, forces, "
     "bad data and differing mixture sizes are replayed in two real objects and validated by TLC. The demand flow limit is "
     "compared to 2e-5. Trusts TLC, the compiler and the harness.")

prop("C09", "Electrical bus: roles follow available voltage",
     "Two electrical models joined over a lagged bus, initialized with one primary side, settle with exactly one of them in Supply "
     "once their voltage supplies stop changing. A side gives up Supply only when its best available voltage is below what the "
     "other side offers, takes Supply back only when the other side has also gone to Demand and a full loop of frames has passed, "
     "and otherwise only a forced role changes it; in Supply it demands no power, in Demand it is given no load.",
     "schedules histories inputs fault_sequences",
     "All relative speeds of the two sides, link latencies, lost messages, histories of available voltages, and forced roles.",
     "Unit tests call one side's update with a few hand-set inputs; no test joins two sides over a lagged link.",
     ["ms-utils/interop/Distributed2WayBusBase.cpp", "ms-utils/interop/Distributed2WayBusElect.cpp"],
     [("Distributed2WayBusElect::update", "ms-utils/interop/Distributed2WayBusElect.cpp"),
      ("updateFrameCounts", "ms-utils/interop/Distributed2WayBusBase.cpp")],
     [("role", "outgoing demand mode flag", "Distributed2WayBusBaseInterfaceData")],
     ["return of every public call and the outgoing interface data"],
     "ElectBus.tla: explored exhaustively by TLC, asynchronously and in lockstep with latency 1-3 (settling); graph edges and "
     "random runs with losses, forced roles and re-initialization are replayed in two real objects and validated by TLC. "
     "Trusts TLC, the compiler and the harness.")

prop("C11", "Electrical switches follow commands, malfunctions and trips",
     "A switch is closed exactly as commanded unless a malfunction, a trip or a missing power supply says otherwise: failed closed "
     "closes it, failed open opens it, a tripped switch is open and stays open until reset. It trips only on a converged solution, "
     "at its trip priority, when the measured current or voltage is beyond the limit then in force and the trip isn't inhibited or "
     "ignored, and never while failed closed; before its priority it waits and keeps its position. Over-current trips are reset "
     "only by command, under- and over-voltage trips also when the voltage is back within the reset limit. A removed malfunction "
     "leaves nothing behind: limits, protection and resistance are what they were.",
     "histories inputs",
     "All sequences of commands, malfunctions, limits, resets, supply losses and solutions, for GunnsElectSwitchUtil2 and its trip "
     "logics, GunnsElectSwitchUtil and Switch.",
     "Unit tests set one condition at a time from a fresh switch; what goes wrong is left over from earlier trips, malfunctions "
     "and waiting.",
     ["aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp", "aspects/electrical/TripLogic/GunnsTripLogic.cpp",
      "aspects/electrical/Switch/GunnsElectSwitchUtil.cpp", "aspects/electrical/Switch/Switch.cpp"],
     [("updateState, updateTrips", "aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp"),
      ("GunnsTripLogic::checkForTrip", "aspects/electrical/TripLogic/GunnsTripLogic.cpp"),
      ("updateSwitchState, updateSwitchFlow", "aspects/electrical/Switch/GunnsElectSwitchUtil.cpp")],
     [("trip flags", "what tripped the switch", "GunnsTripLogic::mIsTripped, GunnsElectSwitchUtil::mPosTrip, mNegTrip, mExternalTrip")],
     ["position, trip, waiting and just-tripped flags, limits, resistance, current, power"],
     "Switch2.tla and SwitchUtil.tla: explored by TLC from several configurations to a depth of 4 events (5 in the thorough tier), "
     "30000 edges of each graph (all in the thorough tier) and random runs of up to 200 events replayed in the real objects and validated by "
     "TLC. Values are small integers. Trusts TLC, the compiler and the harness.")

prop("C12", "Load switches and user loads: what blows, what trips and what the loads take",
     "In a network of switches and user loads the solution a step ends with satisfies every protection in force: a fuse whose load "
     "takes more than its limit blows before any switch trips on that solution, at most one fuse per switch at a time, and switches "
     "trip in the order of their priorities, a later one only if the current is still beyond its limit after the earlier ones "
     "acted. Blown fuses and trips stay until reset. Every load takes the current and power of its mode, malfunction, fuse, duty "
     "cycle and under-voltage limit at the voltage its switch supplies, and none when that is open; an overridden switch is open "
     "to its supply and feeds its loads, or its output node, with the override voltage; shorts load the switch they are on. The "
     "currents balance on every bus, as do the flows nodes report.",
     "histories inputs",
     "All sequences of supply voltages, switch commands, resets, malfunctions, load modes, fuse changes, overrides and shorts over "
     "the steps of a network of a supply, a breaker (SwitchElect), GunnsElectUserLoadSwitch and GunnsElectUserLoadSwitch2 with "
     "resistive and constant power loads, a further bus and a battery.",
     "Unit tests call the acceptance of one link with made-up potentials; which of several protections acts first, and on what "
     "solution, is decided by how they meet in the solver over its minor steps.",
     ["aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp", "aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp",
      "aspects/electrical/Switch/SwitchElect.cpp", "aspects/electrical/UserLoad/UserLoadBase.cpp"],
     [("confirmSolutionAcceptable", "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp"),
      ("UserLoadBase::step, updateFuse", "aspects/electrical/UserLoad/UserLoadBase.cpp"),
      ("Gunns::confirmSolutionAcceptable", "core/Gunns.cpp")],
     [("trips and fuses", "what has tripped or blown", "GunnsElectUserLoadSwitch::mSwitch, UserLoadBase::mFuseIsBlown"),
      ("loads voltage", "what the loads are supplied with", "GunnsElectUserLoadSwitch::mLoadsVoltage")],
     ["potentials, currents, powers, positions, trips, fuses, loads' voltage, current, power and conductance, node in- and outflux"],
     "LoadNet.tla (on Switch2.tla and SwitchUtil.tla): explored by TLC from two networks to a depth of 3 steps (4 in the thorough "
     "tier); 8000 edges (60000 in the thorough tier) and random networks with up to 40 steps replayed in the real solver, "
     "validated by TLC. Potentials are compared within tolerances of a few mV; where a decision is too close to call (a current "
     "within 2.5 % of its limit, constant power loads near collapse, the step after one that failed to converge) only balance "
     "and the loads' own laws are required. Trusts TLC, the compiler and the harness.")

prop("C18", "Valve controllers: position follows commands, malfunctions and trips",
     "A valve's position changes only by a command given while its controller is powered and enabled, at the rate the command and "
     "the scale give; by its latch when power or enable is lost; by its manual handle; or by a malfunction, each with its "
     "documented precedence over the others. It stays within its range, a stuck valve stays where it is, and when a malfunction "
     "ends the controller continues from the position the valve then has. Fluid position, power and resistance load, limit "
     "flags and limit switches always are those of the position and command in force. Queued toggle commands are each "
     "counted once, and an even number of them leaves the valve where it was.",
     "histories inputs",
     "All sequences of commands, power and enable changes, malfunctions, handle movements, sensor failures and steps, for the "
     "toggle, open/close, position, speed and dual solenoid controllers, their TValve counterparts and their assemblies.",
     "Unit tests check one command or malfunction from a freshly initialized controller; errors come from what an earlier move, "
     "malfunction or handle leaves behind.",
     ["gunns-ts-models/common/controllers/fluid/TsValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsOpenCloseValveController.cpp",
      "gunns-ts-models/common/controllers/fluid/TsToggleValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp"],
     [("TsValveController::update, enforcePosition", "gunns-ts-models/common/controllers/fluid/TsValveController.cpp"),
      ("TsPoweredValveController::update", "gunns-ts-models/common/controllers/fluid/TsPoweredValveController.cpp")],
     [("valve position", "actual position of the valve", "TsValveController::mPosition"),
      ("command queue", "toggle commands not yet done", "TsToggleValveController")],
     ["position, fluid position, sensed position, limit switch outputs, load state, command flags"],
     "ValveCtl.tla: explored by TLC for each kind of controller to a bounded depth; edges of the graph and random runs are "
     "replayed in the real objects and validated by TLC. Positions and rates are multiples of 1/16. Trusts TLC, the compiler and "
     "the harness.")

prop("C19", "Closed loop controllers: PID controller, pump motor controller and motors",
     "A PID controller changes its output only when its update interval is over, by the gains times the error, its integral and its "
     "derivative over the time since the last update, and keeps it within its limits. A pump motor controller is powered exactly "
     "while its supply is within its range and not failed, its motor only while it is also enabled and not tripped; an "
     "over-temperature trip stays until the temperature is below the reset limit or power is lost. The pulse width follows the "
     "control law within 0 to 1 and is zero without power or command; from every start until the speed is first reached the motor's "
     "current is limited to the startup limit. Motors obey their torque, current, back-EMF, friction, load, jam and degradation "
     "laws: speed never is negative, and power, waste heat and total load are those of what the motor and controller draw.",
     "histories inputs",
     "All sequences of supply voltages, commands, sensed speeds and temperatures, loads, malfunctions and steps, for "
     "TsPidController, TsPumpMotorController with DcDynPumpMotor, and TsDcPwmDynMotor.",
     "Unit tests step once or run one start; trips, startup and the filter's memory matter in restarts after trips, power losses, "
     "malfunctions and changes of command.",
     ["gunns-ts-models/common/controllers/fluid/TsPumpMotorController.cpp", "gunns-ts-models/common/controllers/generic/TsPidController.cpp",
      "gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp", "gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.cpp"],
     [("determinePower, checkTrips, updateControlFilter", "gunns-ts-models/common/controllers/fluid/TsPumpMotorController.cpp"),
      ("TsPidController::update", "gunns-ts-models/common/controllers/generic/TsPidController.cpp"),
      ("DcDynPumpMotor::step", "gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp")],
     [("startup state", "current limited until the speed is reached", "TsPumpMotorController::mStartupState"),
      ("pulse width", "integral of the control filter", "TsPumpMotorController::mPulseWidth"),
      ("integral, timer", "PID memory", "TsPidController::mIntegral, mTimer")],
     ["power buses, trip, startup, pulse width, current, power, torques, speed, waste heat, total current; PID output, integral, derivative, timer"],
     "Motor.tla and Pid.tla: explored by TLC from three and two configurations to a depth of 4 steps and 6 events (5 and 7 in the "
     "thorough tier), 8000 and 10000 edges of the graphs and random histories replayed in the real objects and validated by TLC. "
     "Pid.tla is exact on inputs that keep every value a binary fraction; in Motor.tla power, trips and startup are exact, "
     "continuous quantities are compared within the rounding of their units, each step from the observed last one. Efficiency is "
     "only compared above 10 W. Trusts TLC, the compiler and the harness.")

prop("C22", "Heater control: thermostats switch by their sensors, setpoints and malfunctions",
     "A thermostat asks for heat when its sensors read below the low setpoint and none when they read above the high one - all of "
     "them with AND logic, any of them with OR logic - and keeps its command in between. Setpoint changes and biases shift both "
     "setpoints; malfunctioned setpoints take their place for the command, but not for the nominal command, which goes on as if "
     "there were none. The heater gets that command unless a command malfunction (off before on) or else the kill switch says "
     "otherwise, and once those end the command is again that of the sensors as if they had never been.",
     "histories inputs",
     "All sequences of temperatures, sensor malfunctions, setpoint changes, biases, setpoint and command malfunctions, kill switch "
     "settings and updates, for thermostats of one to three sensors.",
     "Unit tests check single updates; hysteresis and what malfunctions leave behind are a matter of history.",
     ["gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp", "gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp"],
     [("Thermostat::update, readSensors", "gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp"),
      ("HtrControl::considerCommandMalfs", "gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp")],
     [("commands", "nominal, by setpoints and actual", "HtrControl::mCommandNominal, Thermostat::mCommandSetpt")],
     ["nominal, setpoint and actual commands, setpoints, sensed temperatures"],
     "Thermostat.tla (with the sensors of Sensors.tla): explored by TLC from three configurations to a depth of 8 events (10 in the "
     "thorough tier), 40000 edges (all in the thorough tier) and random histories of up to 100 updates replayed in the real object "
     "and validated by TLC, exactly. Temperatures are quarters of a kelvin. Trusts TLC, the compiler and the harness.")

prop("C20", "Sensors report the truth as configured, powered and failed",
     "A sensor's output is the truth, converted, scaled, biased, drifted, made noisy and quantized exactly as configured and as its "
     "active malfunctions say, and within its range; unpowered it is the off value and failed it is the failed value. It is "
     "flagged degraded exactly while a malfunction is active, and after the last malfunction is removed nothing of it remains. "
     "The same holds for boolean and valve sensors, limit switches, fan speed sensors and the optic smoke detector with its "
     "built-in test.",
     "histories inputs",
     "All configurations, truths, power changes, combinations and orders of malfunctions, noise draws and time steps.",
     "Unit tests check each malfunction alone with one configuration; combinations, orders and what a removed malfunction leaves "
     "are not sampled.",
     ["gunns-ts-models/common/sensors/SensorAnalog.cpp", "gunns-ts-models/common/sensors/SensorBooleanBi.cpp",
      "gunns-ts-models/common/sensors/SensorBooleanAi.cpp", "gunns-ts-models/common/sensors/TsLimitSwitch.cpp",
      "gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp", "gunns-ts-models/common/sensors/TsFanSpeedSensors.cpp"],
     [("SensorAnalog::update, degrade, applyResolution", "gunns-ts-models/common/sensors/SensorAnalog.cpp"),
      ("TsOpticSmokeDetector::update, performBitTest", "gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp")],
     [("drift", "accumulated drift malfunction bias", "SensorAnalog::mDriftMalfBias"),
      ("bit timer", "time since the built-in test ended", "TsOpticSmokeDetector::bitTimer")],
     ["sensed output, degraded and power flags, voltages"],
     "Sensors.tla: explored by TLC from a configuration of each kind; 30000 edges of the graph (all in the thorough tier) and "
     "random runs of up to 200 events are replayed in the real objects and validated by TLC. Values are integers, resolutions "
     "powers of two. A limit switch failed without power is left unspecified. Trusts TLC, the compiler and the harness.")

prop("C17", "H&S message queue: no message lost, doubled or mixed up",
     "However the threads that log and the jobs that remove messages are interleaved, each call on the health & status queue takes "
     "effect as a whole at one moment between its beginning and its end: a removal returns the oldest waiting message, complete, or "
     "says there is none; a message is delivered once, in the order it was inserted; when the queue is full the oldest is dropped "
     "and counted; a non-blocking insertion that cannot get the lock is counted, and changes nothing else. Resizing keeps the "
     "newest messages in order.",
     "schedules histories inputs",
     "All interleavings of the calls of several threads at their requests for the lock, with the lock held by others, and all sizes "
     "and resizings.",
     "Unit tests use the queue from one thread, or from threads whose interleaving is left to chance.",
     ["ms-utils/simulation/hs/TsHsMsgQueue.cpp"],
     [("insertMsg, removeMsg", "ms-utils/simulation/hs/TsHsMsgQueue.cpp"), ("reallocQueue", "ms-utils/simulation/hs/TsHsMsgQueue.cpp")],
     [("queue", "nodes between head and tail", "TsHsMsgQueue::mHead, mTail")],
     ["answers of the calls, size, empty, full, capacity, overflow and lock failure counts"],
     "HsQueue.tla: TLC explores up to 7 (9) events of 3 threads; the calls of the real queue run as coroutines that give way at "
     "every lock request, so the edges of the graph and random schedules are replayed exactly and validated by TLC "
     "(linearization at the call's last step). Memory-model effects below the lock are not modelled. Trusts TLC, the compiler "
     "and the harness.")

prop("C26", "H&S manager: every message reaches every output, once and in order, or is accounted for",
     "A logged message is output at once before the helper thread is started, and afterwards by the helper, freeze or shutdown job; "
     "all enabled output plugins get it, complete and in the order logged, unless the filter suppresses it or the queue overflows, "
     "both of which are counted. The filter suppresses the categories it is told to and lets a message pass no more than the "
     "configured number of times within the configured interval for as long as it is among the most recently passed ones "
     "it remembers. A plugin that fails gets nothing more, and does not affect the others. A fatal message terminates the simulation "
     "exactly if its subsystem is listed and termination is on. The log file continues over restarts.",
     "schedules histories inputs fault_sequences",
     "All sequences of messages, filter settings, jobs, freezes, restarts, plugin failures and queue overflows.",
     "Unit tests log a few messages through each part on its own; the filter's history and the pipeline's modes depend on all that "
     "happened before.",
     ["ms-utils/simulation/hs/TsHsStdMngr.cpp", "ms-utils/simulation/hs/TsHsMsgStdFilter.cpp", "ms-utils/simulation/hs/TsHsOutputPlugin.cpp",
      "ms-utils/simulation/hs/TsHsTextPlugin.cpp", "ms-utils/simulation/hs/TsHsTermination.cpp"],
     [("shouldSendMessage, purgeMessages", "ms-utils/simulation/hs/TsHsMsgStdFilter.cpp"),
      ("TsHsStdMngr::msg, freeze, shutdown", "ms-utils/simulation/hs/TsHsStdMngr.cpp"),
      ("TsHsOutputPluginMngr::msg", "ms-utils/simulation/hs/TsHsOutputPlugin.cpp")],
     [("remembered messages", "times each was passed", "TsHsMsgStdFilter::mMessageMap"),
      ("mode", "immediate or queued", "TsHsStdMngr::mImmediateMode")],
     ["what the plugins are given, lines of the log file, termination calls, counters"],
     "HsFilter.tla and HsMngr.tla (over HsFilterCore.tla): explored by TLC to a bounded depth; graph edges and random runs are replayed "
     "in the real manager, filter, text plugin and termination, with stand-ins for Trick's services, and validated by TLC. "
     "Two different messages never pass at the same time in the schedules, as which of them is older is left to the code. "
     "The console and SQLite plugins are not covered. Trusts TLC, the compiler and the harness.")

prop("C16", "Fluid networks conserve mass, composition, trace compounds and energy",
     "In every major step of a fluid network, what the links report to flow leaves one node and enters the other: each gas, each "
     "trace compound and the heat of every node change by exactly what flows in and out, what boundary sources bring or take and "
     "what heat is put in. A node that gives more than it holds in a step gives all it holds and passes on its share of what flows in; "
     "what a node without volume holds is what flows into it. A boundary source that takes fluid out takes trace compounds at the "
     "node's concentration. Sources move the flow demanded of them, less their blockage; conductors pass flow only down the pressure.",
     "histories inputs configurations",
     "All networks of tanks, plain nodes, conductors, sources and boundary sources, gas mixtures, temperatures, flow directions, demands "
     "and blockages, including tanks emptied within a step.",
     "Unit tests check one link or one node at a time with given flows, and a few fixed networks for a few steps; conservation over "
     "many links, reversals and overflow is not sampled.",
     ["core/GunnsFluidNode.cpp", "core/GunnsFluidLink.cpp", "core/GunnsFluidConductor.cpp", "core/GunnsFluidSource.cpp",
      "core/GunnsFluidCapacitor.cpp", "core/GunnsFluidUtils.cpp", "aspects/fluid/source/GunnsFluidSourceBoundary.cpp",
      "aspects/fluid/fluid/PolyFluid.cpp", "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp"],
     [("integrateFlows, collectInflux", "core/GunnsFluidNode.cpp"), ("transportFlows", "core/GunnsFluidConductor.cpp"),
      ("transportFlows", "aspects/fluid/source/GunnsFluidSourceBoundary.cpp")],
     [("contents", "mass of each gas, of the trace compound, enthalpy", "GunnsFluidNode::mContent")],
     ["node masses, compositions, trace compounds, enthalpies and temperatures; link flow rates; node pressures"],
     "FluidNet.tla: TLC checks conservation over small networks and flows; random networks of up to 5 nodes and 7 links run for up to "
     "100 events in the real code and TLC validates every node's contents after every step against the reported flows, to 5e-7 kg and "
     "1e-5 of the flows (masses), 2e-4 (energy). The flows are the solver's (see C01); flows sucked from the vacuum node by a negative pressure, "
     "closed loops of overflowing nodes and heated overflowing nodes are left out. Two known findings. Trusts TLC, the compiler and the harness.")

prop("C27", "Flow transport order: every link moves once and every node integrates once, in the right order",
     "In each update of a network's flows, every link computes its flows before anything moves; then every link transports exactly "
     "once and every node but the ground integrates exactly once. A link takes from a node that gives more than it holds only after that "
     "node has integrated; a node integrates only after every link that brings it something has transported. This order is given up, with a "
     "warning, for one link at a time, only when nothing else can go.",
     "histories inputs configurations",
     "All networks, port maps, flow directions (none, out, in, both ways) and sets of overflowing nodes.",
     "Unit tests run the orchestrator on one or two fixed networks; the order depends on the whole graph of flows.",
     ["core/GunnsFluidFlowOrchestrator.cpp", "core/GunnsBasicFlowOrchestrator.cpp"],
     [("GunnsFluidFlowOrchestrator::update, checkAllComplete", "core/GunnsFluidFlowOrchestrator.cpp")],
     [("link and node states", "which links have transported and nodes integrated", "GunnsFluidFlowOrchestrator::mLinkStates, mNodeStates")],
     ["the sequence of calls made to links and nodes, warnings"],
     "FlowOrder.tla: TLC explores every order the specification allows on small networks; all networks of one or two links between two nodes "
     "and ground with every direction and overflow, and random networks of up to 12 links, run in the real orchestrators, whose every call "
     "TLC validates. Trusts TLC, the compiler and the harness.")

prop("C13", "DC-DC converters: regulation, limits, trips and the power balance of both sides",
     "A converter that is on holds its output at its setpoint, or at the limit it regulates to: a voltage regulator or transformer goes "
     "to constant over-current, a current or power regulator to its over-voltage, under-voltage or over-current limit, and returns when "
     "the limit no longer binds. Its output never takes current in. The input draws what the output delivers, plus the channel loss, over the "
     "efficiency; a side that is off, tripped, or without supply passes nothing. Protections trip "
     "on the values of a settled solution, lowest priority number first, so one that another's trip makes moot does not trip; "
     "a trip stays until it is reset or inhibited, and a limit or priority of zero disables it. A reset of the output side resets both sides.",
     "inputs histories configurations fault_sequences",
     "All regulators, limits, priorities, efficiencies and conductances, both orders of the links, and all sequences of supply, setpoint, "
     "load, battery, enable, blockage, trip malfunction, reset and restart.",
     "Unit tests drive one side with the other side's effect filled in by hand, or a network for a few fixed steps; which protection trips "
     "depends on the sequence of solutions within the step, both sides, and all that happened before.",
     ["aspects/electrical/Converter/GunnsElectConverterInput.cpp", "aspects/electrical/Converter/GunnsElectConverterOutput.cpp",
      "aspects/electrical/TripLogic/GunnsTripLogic.cpp"],
     [("confirmSolutionAcceptable, updateLimitState, resetLastMinorStep", "aspects/electrical/Converter/GunnsElectConverterOutput.cpp"),
      ("confirmSolutionAcceptable, linearizeCpl", "aspects/electrical/Converter/GunnsElectConverterInput.cpp"),
      ("checkTrip", "aspects/electrical/TripLogic/GunnsTripLogic.cpp")],
     [("trips", "which protections are tripped", "GunnsTripLogic::mIsTripped"),
      ("limit state", "what the output regulates to", "GunnsElectConverterOutput::mLimitState")],
     ["trips, limit state, voltages and currents of both sides, input power, losses"],
     "Converter.tla: TLC explores sequences of events to a bounded depth, every edge is replayed in a real network of a supply, both sides of the converter, "
     "a load and a battery, and TLC validates the observations, as it does those of random configurations and schedules. Both sides are in "
     "one network, without sensors or an efficiency table. Where a comparison is too close to call, the input is overloaded, its "
     "supply is zero under load, or the output's voltage stays while its current changes, only what "
     "holds in any case is required. Trusts TLC, the compiler and the harness.")

prop("C28", "Thermal networks keep heat: stores, conduction, radiation, sources and phase change",
     "In a solved thermal network the heat that arrives at a node is the heat that leaves it: what its heat store takes up, what "
     "conductors, radiation and boundary links carry, and what sources, heaters and panels put in. A store warms by exactly the heat "
     "it takes up, including its external heat fluxes (or the averages of its heat queues), divided by its capacitance, and an edited "
     "capacitance changes no temperature. Conductors carry their conductance times the temperature difference, radiation goes with the "
     "difference of the fourth powers and the view, both reduced by a blockage. Sources put in what they are told, tuned, "
     "blocked or overridden, in their configured fractions. A phase change battery holds its phase change temperature while its "
     "material is in both phases and turns the heat it gets into phase, no further than all of its material; a leak takes hot "
     "material only, until none is left. A held temperature is held, until it is released.",
     "histories inputs configurations",
     "All networks of three heat stores (one possibly a phase change battery) with conductors, radiation, a boundary, all kinds of "
     "sources and heat queues, and all sequences of loads, boundary temperatures, malfunctions, overrides, edits, leaks and steps.",
     "Unit tests check a link at a time for a step or two; the balance of a network and the phase changes are a matter of histories.",
     ["aspects/thermal/GunnsThermalCapacitor.cpp", "aspects/thermal/GunnsThermalPhaseChangeBattery.cpp", "aspects/thermal/GunnsThermalRadiation.cpp",
      "aspects/thermal/GunnsThermalSource.cpp", "aspects/thermal/GunnsThermalCapacitorHeatQueues.cpp", "core/GunnsBasicCapacitor.cpp",
      "core/GunnsBasicConductor.cpp"],
     [("GunnsThermalCapacitor::updateState, GunnsBasicCapacitor::buildCapacitance", "aspects/thermal/GunnsThermalCapacitor.cpp, core/GunnsBasicCapacitor.cpp"),
      ("GunnsThermalPhaseChangeBattery::updatePhaseFraction, updateMassLeak", "aspects/thermal/GunnsThermalPhaseChangeBattery.cpp"),
      ("GunnsThermalSource::step, buildSourceVector", "aspects/thermal/GunnsThermalSource.cpp")],
     [("phase", "mass and hot fraction of the battery", "GunnsThermalPhaseChangeBattery::mHotPhaseFraction"),
      ("stores", "temperatures and capacitances", "GunnsThermalCapacitor::mPotentialVector")],
     ["node temperatures and net fluxes, link fluxes and conductances, source fluxes, hot fraction, mass and leak rate"],
     "Thermal.tla: networks without coupling are predicted and explored by TLC to 3 steps (4 in the thorough tier) with battery, queue, source, "
     "hold and leak inputs, every edge replayed in the real network; random histories of up to 80 steps of coupled networks are validated by "
     "TLC against the links' laws and the nodes' balance, within what the rounding to 1e-6 K and 0.01 W explains. A node whose "
     "temperature is held has its solution replaced after the fact, so the balance is required only while none is held. Temperatures "
     "outside 50 to 600 K are left unchecked. Trusts TLC, the compiler and the harness.")

prop("C23", "Fluid valves follow their pressures within their limits and pass what they say",
     "A fluid valve's position stays within 0 to 1, never moves faster than its rate limit, is held exactly while the valve is stuck "
     "and goes to the failed-to position otherwise. A check valve opens in proportion between its closing and opening pressures and "
     "passes nothing at or below the closing one once it has had time to close; a three-way valve splits its position over its two paths, leaving out the "
     "non-mixing band, and the three-way check valve turns to the path with the higher pressure drop by that path's own opening pressure. A relief valve "
     "(and, mirrored, a regulator) stays closed up to its crack pressure, opens along its pop-open line, is fully open above the full-open "
     "pressure, closes along the line to its reseat pressure and holds its position in between when the pressure turns; bias and inlet dependence "
     "shift the pressure. The flow of every path is what its position, leak and blockage let through at the pressure drop, in the direction of the drop, and what leaves one "
     "node enters the other; a balanced regulator passes gas only up to its regulated pressure, never against back pressure, and "
     "takes from its inlet everything it has passed.",
     "histories inputs configurations",
     "All valves of the seven kinds and all sequences of imposed pressures, positions, blockages, leaks, tunings, stuck and failed-to malfunctions, pressure biases, "
     "set points, restarts and steps.",
     "Unit tests sample each branch once from a set state; hysteresis, rate limits and malfunctions set and removed are histories.",
     ["aspects/fluid/conductor/GunnsFluidValve.cpp", "aspects/fluid/conductor/GunnsFluidCheckValve.cpp", "aspects/fluid/conductor/GunnsFluid3WayValve.cpp",
      "aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp", "aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp",
      "aspects/fluid/conductor/GunnsFluidReliefValve.cpp", "aspects/fluid/conductor/GunnsFluidRegulatorValve.cpp",
      "aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp", "core/GunnsFluidConductor.cpp"],
     [("updateValveState and updatePosition of the relief valve and the regulator", "aspects/fluid/conductor/GunnsFluidReliefValve.cpp"),
      ("GunnsFluid3WayCheckValve::calculateValvePosition", "aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp"),
      ("GunnsFluidBalancedPrv::step, transportFlows", "aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp")],
     [("position", "position and hysteresis state of the valve", "GunnsFluidReliefValve::mPosition, mState"),
      ("buffer", "mass passed and not yet taken from the inlet", "GunnsFluidBalancedPrv::mInletMassBuffer")],
     ["position of the valve and its paths, state, conductivity and flow of each path, mass held, flow into and out of each node"],
     "Valves.tla: each kind of valve explored by TLC to 3 steps (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in the real valve; "
     "random histories of up to 120 steps validated by TLC from the observed position, within what rounding explains. One gas at one temperature, valves without wall heat; "
     "the pressures are imposed by the harness. Trusts TLC, the compiler and the harness.")

prop("C24", "Batteries account for their charge, heat and cell failures",
     "A battery's open-circuit potential and resistance are those of its working cells, in series or parallel, at their charge. Its "
     "current drains or charges the cells that carry it in equal shares, so that no charge is made or lost short of an empty or a full "
     "cell; a cell's charge never leaves 0 to 1, an empty battery takes charge, and a cell failed open keeps its charge while a "
     "shorted one loses it. State of charge and capacity count the working cells only, with their overridden capacities. A thermal "
     "runaway passes from cell to cell at the given interval, releases a growing power that uses up the cell's charge in about "
     "the given duration, ends with the charge, and ends in all cells when it is removed. The heat is what the resistance and the "
     "runaways release; a restart keeps all charge.",
     "histories inputs configurations",
     "All batteries of up to 4 cells and all sequences of terminal voltages (charge and discharge), cell failures, capacity overrides, runaways "
     "of cells and of the battery, blockages, restarts and steps.",
     "Unit tests drain a battery for a few steps; charging from empty, failures set and removed, and their combinations are histories.",
     ["aspects/electrical/Batt/GunnsElectBattery.cpp", "aspects/electrical/Batt/GunnsElectBatteryCell.cpp", "core/GunnsBasicPotential.cpp"],
     [("GunnsElectBattery::updateState, updateCells, updateOutputs", "aspects/electrical/Batt/GunnsElectBattery.cpp"),
      ("GunnsElectBatteryCell::updateSoc and the effective values", "aspects/electrical/Batt/GunnsElectBatteryCell.cpp")],
     [("charge", "state of charge and runaway power of each cell", "GunnsElectBatteryCell::mSoc"),
      ("runaway", "next cell and timer of the runaway", "GunnsElectBattery::mThermalRunawayCell")],
     ["conductance, open circuit potential, current, heat, state of charge and capacity of the battery, charge, voltage and runaway power of each cell"],
     "Battery.tla: two cells in series and in parallel explored by TLC to 3 steps (4 in the thorough tier), a sample of the edges (all in the thorough tier) "
     "replayed in the real battery; random histories of up to 150 steps of 1 to 4 cells validated by TLC from the observed current "
     "within what rounding explains. The terminals are imposed by the harness. A runaway in a cell failed open is left open. Trusts TLC, the compiler and the harness.")

prop("C14", "Process links conserve every gas and trace compound they take from a stream",
     "Adsorbers, multi-adsorbers, gas separators, selective membranes and multi-separators make and lose no matter, whichever way the stream flows: for every "
     "gas and trace compound, what the link takes out of its nodes less what it puts into them is the growth of the mass it holds "
     "(adsorbed mass, separated liquid, and separated fluid in a multi-separator's buffer, which leaves in the next step by that fluid's own port). "
     "A bed's adsorbed mass never goes negative and its adsorption never takes it past capacity. Adsorption is at most what the stream carries, by efficiency, rate limit and the capacity that "
     "remains, slowed as the bed fills and by the loading of compounds that displace this one; desorption follows the compound's partial pressure "
     "and what the bed holds. A separator separates only from a forward flow with a saturated gas and while it runs. A membrane moves its one gas down its "
     "partial-pressure difference and none where its ends disagree about the direction, and takes at most 99 % of it from a stream. The source vector given to the network is what the nodes get "
     "(last step's, for a multi-separator's ports).",
     "histories inputs configurations",
     "All such links and all sequences of stream gases and mixtures, pressures, forward and reversed flows, blockages, efficiency malfunctions, desorption cycles, separator speeds and "
     "transfers, separation fractions, restarts and steps.",
     "Unit tests adsorb for one step with a forward flow; reversals, a bed that fills up or empties, and buffers under a changing flow are histories.",
     ["aspects/fluid/source/GunnsFluidAdsorber.cpp", "aspects/fluid/source/GunnsFluidMultiAdsorber.cpp", "aspects/fluid/source/GunnsFluidSeparatorGas.cpp",
      "aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp", "aspects/fluid/source/GunnsFluidMultiSeparator.cpp"],
     [("GunnsFluidAdsorber::computeSorbtionRate, updateFluid", "aspects/fluid/source/GunnsFluidAdsorber.cpp"),
      ("AdsorptionCompound::update", "aspects/fluid/source/GunnsFluidMultiAdsorber.cpp"),
      ("GunnsFluidMultiSeparator::separateFluid, transportFlows", "aspects/fluid/source/GunnsFluidMultiSeparator.cpp")],
     [("held", "mass adsorbed or separated of each constituent", "GunnsFluidAdsorber::mAdsorbedMass"),
      ("buffer", "separated fluid to deliver in the next step", "GunnsFluidMultiSeparator::mSeparationBuffer")],
     ["source vector; rate of each constituent into and out of each node; mass held; loading"],
     "Process.tla: each kind of link explored by TLC to 2 or 3 steps (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in the real link; "
     "random histories of up to 100 steps validated by TLC, within what rounding explains. Gas and flow are imposed by the harness, at one temperature; "
     "heat, trace compounds of a multi-adsorber (a known finding) and shared ports are left out. Trusts TLC, the compiler and the harness.")

prop("C21", "Accumulators conserve what their chambers hold, and their bellows, pressures, edits and malfunctions stay consistent",
     "In a spring or gas-pressurized accumulator the bellows position, liquid volume and pressurizer volume stay consistent with each other and within the chamber's limits, and the liquid's pressure is the "
     "spring's at that position, plus the pressure head, plus the gas pressure, which is what the gas held makes at its temperature in the volume left. Unless forced or held, each chamber's mass "
     "changes by exactly what flows through its port, and the fluid taken from or given to the node has the right mixture, warms by its own heat and stays within the temperature limits. The link conducts by "
     "the chamber's capacitance, tapering off in the dead bands, and nothing leaves an empty or enters a full accumulator; where the one-way fill mode is on, moving away from a stop ramps the conductance at its rate. "
     "A stuck bellows keeps its position and mass and, from its next step, passes nothing; malfunctions cancel edits and take precedence over them; a rupture forces "
     "bellows and pressure at their rates and lets the gas flow again only when both are reached. Position, pressure and temperature edits reach their values no faster than their limits, hold them for the hold time, and "
     "with simultaneous or non-reactive edits the other quantity is held.",
     "histories inputs configurations",
     "All accumulators and all sequences of node pressures and fluids, stick, stick-to-position and rupture malfunctions, position, pressure and temperature edits and their combinations, holds, restarts and steps.",
     "Unit tests take one step of each kind; edits overlapping each other, malfunctions and hold times, and bellows reaching their stops are histories.",
     ["aspects/fluid/capacitor/GunnsFluidAccum.cpp", "aspects/fluid/capacitor/GunnsFluidAccumGas.cpp"],
     [("GunnsFluidAccum::updateFluid, updateEffConductivityScale", "aspects/fluid/capacitor/GunnsFluidAccum.cpp"),
      ("GunnsFluidAccumGas::updatePressurizerFluid, updateGasChamber", "aspects/fluid/capacitor/GunnsFluidAccumGas.cpp")],
     [("pos, vol, n", "bellows position, volume and amount of liquid", "GunnsFluidAccum::mBellowsPosition, mLiquidVolume, mInternalFluid"),
      ("gas, gp", "gas held and its pressure", "GunnsFluidAccumGas::mGasInternalFluid"),
      ("edB, edP, simul", "edits in progress", "GunnsFluidAccum::mEditBellowsFlag")],
     ["position, volumes, masses, pressures, temperatures, conductances, source vector and fluxes of both ports, what enters and leaves the nodes, edit flags and timers"],
     "Accum.tla: a spring and a gas accumulator explored by TLC to 2 steps (3 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in the real link; "
     "random histories of up to 100 steps of other configurations validated by TLC, every quantity from those it depends on as observed, within what rounding explains. Node pressures are imposed by the harness; "
     "flows that would empty a chamber within one step and springs of zero slope are left out. Mixing from a node that nothing flows into is a known finding. Trusts TLC, the compiler and the harness.")

prop("C10", "The two sides of a fluid distributed interface share one volume and exchange fluid faithfully",
     "Exactly one side of a fluid interface between two networks owns the volume at the interface: a side taking the Demand role gives up its node's volume and gets all of it back when it returns to the Supply role, "
     "also across restarts. In the Demand role the side's node takes the Supply's pressure through a conductance that follows both sides' capacitances, the round-trip latency and the blockage malfunction, and takes the Supply's "
     "mixture, trace compounds and energy; what it then draws or returns is reported to the Supply as total molar rate with its own mixture, trace compounds and energy. In the Supply role the side conducts nothing, and "
     "exactly the flow reported by the Demand side enters or leaves its node, with the reported mixture and energy, or nothing as long as no valid data of the Demand side has arrived. The capacitance a side reports excludes what it or "
     "other interfaces only borrow from their Supply sides, and is never negative. Fluids that one side does not know, and the trace compounds' share, change the bulk rate but not the mixture's proportions. "
     "Roles change only as forced, by the other side's word, or where the reported capacitances call for it after the round trip.",
     "histories schedules inputs",
     "All configurations of a side (pair master, enthalpy or temperature, demand option, mixture sizes, forced roles), all sequences of messages that are late, repeated, missing or invalid, node states, "
     "pressures, network capacitances, other interfaces, malfunctions, restarts, and steps with or without input and output.",
     "Unit tests take one call of each kind; role changes with late messages, volumes handed over and back, and reverse flow with differing mixtures are histories.",
     ["core/GunnsFluidDistributedIf.cpp", "ms-utils/interop/Distributed2WayBusFluid.cpp"],
     [("GunnsFluidDistributedIf::processInputs, processOutputs, step", "core/GunnsFluidDistributedIf.cpp"),
      ("Distributed2WayBusFluid::flipModesOnInput, computeDemandLimit", "ms-utils/interop/Distributed2WayBusFluid.cpp")],
     [("x.demand", "role", "Distributed2WayBusFluid::isInDemandRole"),
      ("x.vol, supV, pend", "the node's volume, the volume given up, the volume edit in progress", "GunnsFluidDistributedIf::mSupplyVolume, GunnsFluidCapacitor::editVolume"),
      ("srcP, dflux", "the Supply's pressure, the Demand's flow", "GunnsFluidDistributedIf::mSourcePressure, mDemandFlux"),
      ("in, read", "the message waiting, the message read last", "GunnsFluidDistributedIf::mInData, Distributed2WayBusFluid::mInData")],
     ["role, volume of the node, fluids of the node and of the flow, conductance, source, flux, moles of each fluid entering and leaving the node, message sent"],
     "FluidIf.tla: one side explored by TLC to 3 steps (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in the real link; random histories of up to 80 steps validated by TLC, "
     "within what rounding explains. The other side, the network's pressure and its capacitance are played by the harness (the role protocol between two sides is C08). Two bulk fluids and one trace compound. "
     "Trusts TLC, the compiler and the harness.")

prop("C15", "The two sides of an electrical distributed interface agree who supplies, and deliver what they promise",
     "One side of an electrical interface between two networks supplies and the other demands, starting with the pair master as the supply. A side changes its role only as forced, or, once it has heard from the other side, "
     "to Demand when its best available supply is below the other side's, and to Supply when the other side asks for it and the round trip since its last change is over; so both sides settle on the "
     "higher voltage as supply. A supply is available exactly when it is enabled and a path in the network connects it to the interface. In the Demand role the interface acts as a source of the other side's voltage behind its "
     "conductance, never drawing current back, and reports the power it takes; in the Supply role it draws the power the other side demands, as a load on its network, and reports the actual voltage. "
     "With either role's malfunction the load or source is off. What it delivers, draws and reports fits the network's solution in the step roles change in, too, and currents balance at the bus.",
     "histories schedules inputs",
     "All configurations of a side and all sequences of late, repeated or missing messages, supplies switched and changed, paths opened and closed, loads, forced roles, malfunctions, restarts and steps in which roles change, once or twice.",
     "Unit tests call the methods one by one without a network; roles changing back and forth within the minor steps of a network's solution, with late messages, are histories of a whole network.",
     ["aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp", "ms-utils/interop/Distributed2WayBusElect.cpp"],
     [("GunnsElectDistributedIf::minorStep, confirmSolutionAcceptable, processOutputs", "aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp"),
      ("Distributed2WayBusElect::update", "ms-utils/interop/Distributed2WayBusElect.cpp"),
      ("GunnsElectConverterOutput::confirmSolutionAcceptable", "aspects/electrical/Converter/GunnsElectConverterOutput.cpp")],
     [("demand, forced", "role, forced role", "Distributed2WayBusBase::mInData, mForcedRole"),
      ("path, look", "what the last look for paths found, whether it looks again", "GunnsElectDistributedIf::mSupplies"),
      ("in, frame, echo, fsf, loop", "message read, frame count and round trip", "Distributed2WayBusElect::mInData, mLoopLatency")],
     ["role and message of the interface, availability of each supply, node voltages, current of every link, power reported"],
     "ElectIf.tla: one side in a real network (a bus with the interface and a load, two regulated supplies tied to it) explored by TLC to 3 steps (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed; "
     "random histories of up to 80 steps validated by TLC, within what rounding explains. The other side's messages are played by the harness. The bus flows counted twice are a known finding. Trusts TLC, the compiler and the harness.")

prop("C25", "Pumps, fans and turbines move fluid and take or give power as their speed and pressures say",
     "A displacement pump moves its cycle volume per turn, as the mass of what is at the side it takes from, in either direction, less with cavitation or a blockage, and none backwards with a check valve. A fan's or "
     "centrifugal pump's pressure is that of its curve at its speed, density and flow (the affinity laws), where the curve meets the filtered resistance of the system, less what cavitation takes from it; a stopped one makes no pressure of its own. "
     "A turbine's flow and efficiency follow its maps at the corrected speed and the filtered pressure ratio, and it makes no power against a reversed pressure. "
     "Each machine turns at the motor's speed by its drive ratio; its power is the work it does on the fluid by its efficiency, its torque is that power over the motor's speed, and "
     "what flows leaves one node and enters the other. A drive shaft turns faster or slower by exactly the torques of the machines on it and its friction over its inertia, never backwards; an override fixes its speed, and a jam takes its part of the load. "
     "Cavitation sets in when the inlet's pressure is under the liquid's saturation pressure or by malfunction, and grows and dies away over its duration.",
     "histories inputs configurations",
     "All such machines (curves, maps, ratios, check valves, filters, inertias) and all sequences of pressures, temperatures and mixtures, motor speeds, blockages, cavitation, jams and overrides, restarts and steps.",
     "Unit tests take one step with one set of numbers; the filtered system resistance, the shaft's speed and cavitation's growth are histories.",
     ["aspects/fluid/source/GunnsGasDisplacementPump.cpp", "aspects/fluid/source/GunnsLiquidDisplacementPump.cpp", "aspects/fluid/potential/GunnsGasFan.cpp", "aspects/fluid/potential/GunnsLiquidCentrifugalPump.cpp",
      "aspects/fluid/potential/GunnsPumpCavitation.cpp", "aspects/fluid/conductor/GunnsGasTurbine.cpp", "aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp"],
     [("GunnsGasFan::updateState, computeSourcePressure", "aspects/fluid/potential/GunnsGasFan.cpp"),
      ("GunnsGasDisplacementPump::updateState", "aspects/fluid/source/GunnsGasDisplacementPump.cpp"),
      ("GunnsGasTurbine::updateState", "aspects/fluid/conductor/GunnsGasTurbine.cpp"),
      ("GunnsDriveShaftSpotter::stepPreSolver, stepPostSolver", "aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp")],
     [("motor", "motor speed", "GunnsGasFan::mMotorSpeed, GunnsDriveShaftSpotter::mMotorSpeed"),
      ("cav, el", "fraction cavitated, time cavitating", "GunnsPumpCavitation"),
      ("before", "the flow, pressure and resistance before the step", "GunnsGasFan::mSystemConstant")],
     ["speed, pressure, conductance, source, flux, mass and volume flow, power, torque, cavitation, pressure ratio and efficiency of each machine; speed, load and power of the shaft"],
     "Pumps.tla: each kind of machine explored by TLC to 4 steps (6 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in the real machine between two imposed nodes; random histories of up to 30 commands "
     "(steps of 1, 2 or 40 ticks) validated by TLC, each from the quantities observed before, within what rounding explains. Fan curves are quadratic, wall heat is left out. Trusts TLC, the compiler and the harness.")


prop("C29", "The parts of a fluid mixture agree, and mixing conserves mass, energy and trace compounds",
     "Mass and mole fractions of a fluid add up to one and are the same composition; its molecular weight, density, specific heat, enthalpy, viscosity, thermal conductivity, Prandtl number, adiabatic index, moles, the masses and flows of its constituents and the masses of its trace compounds are those of its state. "
     "Adding a stream to a fluid adds the flow, each constituent's flow and the energy, so that positive streams mix to fractions and a temperature between theirs; gathered from nothing, the trace compounds that came in make the mixture's. "
     "Setting temperature, pressure, flow, mass, moles, fractions or constituents' masses, editing by total or partial pressures (negative ones count as none), resetting and copying change what they name, keep the rest in agreement and never touch another fluid; "
     "fractions that don't add up are refused and change nothing. Asked for enthalpy, temperature, density or pressure at another state, a fluid answers consistently and stays as it is. "
     "Trace compounds flow in and out by moles, and never become less than nothing.",
     "histories inputs",
     "All sequences of these operations on three fluids of the same three gases and two trace compounds, for all compositions (including pure ones), temperatures, pressures, flows, masses and moles, negative flows that take out only what is there.",
     "Unit tests set one mixture once; whether its parts still agree depends on the operations that came before.",
     ["aspects/fluid/fluid/PolyFluid.cpp", "aspects/fluid/fluid/PolyFluid.hh", "aspects/fluid/fluid/MonoFluid.cpp", "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp"],
     [("PolyFluid::addState, edit, setMassAndMassFractions, setMoleAndMoleFractions", "aspects/fluid/fluid/PolyFluid.cpp"),
      ("MonoFluid::addState", "aspects/fluid/fluid/MonoFluid.cpp"),
      ("GunnsFluidTraceCompounds::flowIn, flowOut, updateMoleFractions", "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp")],
     [("f", "the fluids: temperature, pressure, flow, mass, moles, fractions, enthalpy, trace compounds", "PolyFluid"),
      ("ok", "which parts are meant to agree after what was done", "the order of the PolyFluid calls"),
      ("pre", "the fluids before the operation", "PolyFluid")],
     ["temperature, pressure, flow, mass, moles, mass and mole fractions, molecular weight, density, specific heat, enthalpy, viscosity, thermal conductivity, Prandtl number, adiabatic index, constituents' partial pressures, masses and flows, trace compounds' fractions and masses of every fluid; exceptions; answers"],
     "Fluids.tla: three fluids explored by TLC to 3 operations (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in real PolyFluids; random histories of up to 25 operations validated by TLC, each from the fluids observed before, "
     "within rounding. The pressure, density and partial pressures right after addState are left out until the temperature is set (their owners always set them), and the trace compounds of a fluid that gets a stream without having been reset. "
     "Trusts TLC, the compiler and the harness.")


prop("C07", "Plugs and sockets: a socket holds one plug, and the jumper's ends follow their plugs",
     "A socket accepts one plug at a time and keeps it until that plug itself is unplugged; a plug is in at most one socket of its list, and says which. A jumper's end is at the node of the socket its plug is in, "
     "and after unplugging in what surrounds that socket, until plugged in again. A connection request is honoured only from a plug that is not connected and only by a free socket, a disconnection request only for the socket the plug is in (or from a loose plug, "
     "which goes to that socket's surroundings); both are used up by the update, whether honoured or not. A direct request moves a plug there at once if the socket is free, and leaves it unplugged otherwise, until it is disabled. "
     "A self-sealing end that is not connected, two ends at one node, a self-sealing socket and a socket with a plug conduct nothing but their leak malfunction, at the set rate for the pressures at the time; anything else conducts as configured, less the blockage. "
     "The solver is told of every move. Initial connections that can't be made are refused. Restarting from a checkpoint puts every plug back in its socket, and loose ends where they were.",
     "histories inputs",
     "All sequences of connection, disconnection and direct requests, malfunctions, checkpoints and restarts on several plugs with differing lists of the same sockets, in any order of the links, in fluid and basic networks.",
     "Unit tests plug one jumper into one socket at a time; who holds what depends on the order in which several plugs ask for the same sockets.",
     ["core/GunnsBasicJumper.cpp", "core/GunnsBasicJumperPlug.cpp", "core/GunnsBasicSocket.cpp", "core/GunnsFluidJumper.cpp", "core/GunnsFluidJumperPlug.cpp", "core/GunnsFluidSocket.cpp"],
     [("GunnsBasicJumperPlug::update, processDirectConnectionRequest, processConnectionRequest, processDisconnectionRequest", "core/GunnsBasicJumperPlug.cpp"),
      ("GunnsBasicSocket::requestConnection, requestDisconnection, updateState", "core/GunnsBasicSocket.cpp"),
      ("GunnsBasicJumper::updateState, restartModel", "core/GunnsBasicJumper.cpp"),
      ("GunnsFluidJumper::updateState, restartModel", "core/GunnsFluidJumper.cpp"),
      ("GunnsFluidSocket::requestConnection, updateState", "core/GunnsFluidSocket.cpp"),
      ("GunnsFluidJumperPlug::processDirectConnectionRequest", "core/GunnsFluidJumperPlug.cpp")],
     [("held", "the plug each socket holds", "mConnection, mHasConnection"),
      ("map", "nodes of the jumpers' ends", "mNodeMap"),
      ("active, last, in, out, direct", "each plug's connection and requests", "GunnsBasicJumperPlug"),
      ("g, leakG, was", "conductivity of each link and of its leak", "mEffectiveConductivity, mLeakConductivity, mPreviousLeakRate")],
     ["socket of each plug, plug of each socket, requests left, nodes of the jumpers' ends, conductivities and admittances, admittance update flags, flows into the nodes, initialization errors"],
     "Plugs.tla: up to four plugs and three sockets explored by TLC to 3 updates (4 in the thorough tier), a sample of the edges (all in the thorough tier) replayed in real jumpers and sockets, basic and fluid; random histories of up to 100 updates validated by TLC. "
     "Leaks are compared to 0.2 %. Trusts TLC, the compiler and the harness.")


prop("C30", "Editing a tank changes what was asked and nothing else",
     "An edit of a tank's temperature and pressure, or temperature and partial pressures, takes the contents there in one update, keeping the mixture or making exactly the asked one, holds the tank's node at that pressure until the edit ends, and ends only at its targets: "
     "for an undisturbed tank with the second update. A temperature edit is made once and keeps the pressure and mixture; a volume edit is made once and keeps temperature and partial pressures. An edit of a gas's partial pressure at a rate moves that gas alone, by the rate times the time step "
     "towards its target, never away from it or past it, and ends within a step of it, whatever other gases' edits do; temperature, other gases and trace compounds stay. Masses fit the partial pressures, volume and temperature after each, and trace compounds follow the moles. "
     "Temperatures and pressures of zero, and rates of zero, are refused with a warning. Without an edit nothing appears or vanishes: what leaves a tank arrives in the other. The heat from the shell, the rate of pressure and the outputs are those of the contents; "
     "a balloon's volume is that of its pressure and inflatability (scaled by its malfunction), within its limits, and a stuck one keeps its volume. A restart ends all edits.",
     "histories inputs",
     "All sequences of starting, changing and cancelling these edits on a tank or balloon of three gases and a trace compound, in a solved network with the pipe to another tank open or closed, of time steps, volumes and restarts.",
     "Unit tests make one edit in a tank without a network; whether another's effect leaks into it depends on which edits overlap and when each one ends.",
     ["aspects/fluid/capacitor/GunnsFluidTank.cpp", "aspects/fluid/capacitor/GunnsFluidBalloon.cpp", "core/GunnsFluidCapacitor.cpp", "core/GunnsFluidNode.cpp"],
     [("GunnsFluidTank::updateState, updateFluid, performFluidEdit, computeDpdt, processOutputs, restartModel", "aspects/fluid/capacitor/GunnsFluidTank.cpp"),
      ("GunnsFluidBalloon::processVolumeEdit, updateInflatability, updateInflation", "aspects/fluid/capacitor/GunnsFluidBalloon.cpp"),
      ("GunnsFluidCapacitor::step", "core/GunnsFluidCapacitor.cpp")],
     [("et, etp, etpp, er, ev", "edits in progress", "mEditTemperatureFlag, mEditTemperaturePressureFlag, mEditTemperaturePartialPressureFlag, mEditPartialPressureRateFlag, mEditVolumeFlag"),
      ("vT, vP, vpp, rate, vV", "their targets", "mEditTemperatureValue, mEditPressureValue, mEditPartialPressureValue, mEditPartialPressureRateValue, mEditVolume"),
      ("t, pp, x, v, m, tc", "the contents", "PolyFluid of the node"),
      ("held, aim", "the pressure the node is held at", "mOverrideVector, mPotentialVector")],
     ["temperature, pressure, partial pressures, mole fractions, masses and trace compounds of both tanks, volume, edits in progress, node potential and override, flow, heat, rate of pressure, link outputs, warnings"],
     "Tank.tla: the edits of an isolated tank explored by TLC to 3 updates (4 and more overlaps in the thorough tier), a sample of the edges (all in the thorough tier) replayed in a real tank in a solved network; random histories of up to 60 rounds validated by TLC, each update from the contents observed before, "
     "within rounding. With the pipe open, and for balloons, what the flows do to the contents is left to C02: the edits' lives, volumes, balances, heat and outputs are checked. Content edits and rate edits are not made in the same update, balloons are not edited to nothing or at rates, nor while they malfunction, and a tank that ran dry is left out. "
     "Trusts TLC, the compiler and the harness.")
