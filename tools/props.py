# The property catalogue: one entry per property, plus what the technique does not address.
def P(id, title, statement, over, qtext, why, files, mechanism, tech, note, **kw):
    a = dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mechanism]); a.update(kw)
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a, tech=tech, note=note)

SOLVER = ["core/Gunns.cpp", "core/Gunns.hh", "core/GunnsBasicLink.cpp", "core/GunnsBasicNode.cpp"]
BASIC = ["core/GunnsBasicConductor.cpp", "core/GunnsBasicCapacitor.cpp", "core/GunnsBasicPotential.cpp", "core/GunnsBasicSource.cpp", "core/GunnsBasicFlowController.cpp"]

PROPS = [
P("S01", "A converged network solution conserves flow and obeys every element's law",
  "Whenever a network step in normal mode reports a converged solution, the potentials it reports satisfy every node's balance equation, each element carries exactly the flow its own law gives for those potentials, and the inflow and outflow collected by each node are the sums over the links attached to it at that moment. The network capacitance a node asked for is the net flux into it per unit of potential rise, in that same step's system. This holds after any sequence of blockages, port moves, parameter steps, overrides, time-step changes, pauses and solver or island mode changes.",
  ["histories", "configurations", "fault_sequences"], "Every network topology built from the core basic links and every history of disturbances and mode changes before the step.",
  "Unit tests solve a few fixed three-node networks once or twice; the property quantifies over topologies and over histories in which cached state survives from earlier steps.",
  SOLVER + BASIC + ["ms-utils/math/linear_algebra/CholeskyLdu.cpp"],
  ["Links contribute admittance and source terms each step; the solver assembles, conditions, decomposes and solves, then outputs potentials to ports and nodes and lets links transport flows"],
  "seeded search over topologies and disturbance schedules; residual of the independently assembled equations, element laws and node balances checked after every step",
  "CPU solver; conductances 1e-5..1e3; islands with no path to ground are excluded from absolute-potential checks."),
P("S02", "Re-using decompositions and splitting islands never changes the solution",
  "A network that re-uses its previous matrix decomposition, or solves its disconnected islands separately, reports the same potentials and flows as a network that rebuilds and solves everything from scratch at every step. When islands are being tracked, every node is told exactly the set of nodes it is currently connected to.",
  ["histories", "configurations"], "Every sequence of parameter changes, port moves, solver, run and island mode changes over a pair of twin networks.",
  "The stale-cache case needs a particular order of change, mode switch and step; tests check that a rebuild flag is set, not that no history leaves it wrong.",
  SOLVER, ["Admittance-update flags from links trigger rebuild and decomposition; islands are found from the off-diagonals; separately decomposed blocks are copied back"],
  "twin-network differential simulation under the same seeded schedule",
  "Compared on nodes that have an admittance path to ground, to 1e-7 relative."),
P("S03", "Non-linear iteration follows the confirm, delay, reject protocol exactly",
  "In every step of a non-linear network the solver re-solves until the potentials settle within tolerance and every non-linear link confirms; a rejection by any link restores the potentials of the last accepted iteration and resets every non-linear link, a delay is honoured only once the solution has converged, and links compute their flows exactly once and only in steps that converge. A step that reaches the iteration limit or the decomposition limit restores the potentials of the previous step, counts and reports one failure, and never disturbs the correctness of later steps.",
  ["schedules", "histories", "fault_sequences"], "Every interleaving of votes, admittance changes, reset failures and limits over any sequence of steps.",
  "Tests script two or three vote sequences on one network; the state machine's behaviour depends on the whole vote history and on what the previous step left behind.",
  SOLVER, ["Minor-step loop with convergence counter, minor and major saved potential vectors, and per-link convergence votes"],
  "scripted fault-injecting links checked call by call against an executable reference model of the iteration",
  "Reference solver is dense elimination; steps within 1e-7 of the tolerance boundary are not judged."),
P("S04", "Numerical failures are contained in the step they occur in",
  "When a step fails numerically, because a link raises a numerical error, makes the system unsolvable, keeps rejecting, or exhausts the decomposition limit, node potentials stay finite and hold no partial solution. As soon as the fault is gone the very next step succeeds and satisfies the network equations, whether or not any link announces a change.",
  ["fault_sequences", "histories"], "Every placement of faults in any minor step of any link, in any island mode, followed by clean steps.",
  "Recovery depends on what the failing step left in the cached matrix; tests assert that the exception is thrown and stop there.",
  SOLVER + ["ms-utils/math/linear_algebra/CholeskyLdu.cpp"], ["Exceptions leave the step; rebuild state must survive; limits reset potentials to the last good step"],
  "fault injection at scripted minor steps with recovery oracle on the following steps",
  "Faults that put non-finite values into the source vector are excluded: the solver makes no promise about them."),
P("S05", "Pause, slave and dummy modes do only what they promise",
  "A paused network changes no potential, calls no link and counts nothing; in slave mode every node and port holds exactly the supplied external potentials; in dummy mode the solver leaves the links' potentials to the links. Links still step once and transport flows once in slave and dummy mode, and switching modes at any step leaves the network solving correctly when it returns to normal mode.",
  ["schedules", "histories"], "Every order of mode changes, supplied slave vectors and disturbances.",
  "Tests exercise each mode once from a fresh network, not transitions between them with changes in between.",
  SOLVER, ["Run mode and solver mode are read at the start of each step; slave vector overrides the solution"],
  "mode-change schedules checked against the executable reference model", "As for the iteration protocol."),
P("S06", "Dynamic port moves respect the mapping rules and take effect immediately",
  "A port move or user port command is accepted exactly when the port and node exist, the map is not locked, and no two ports of the link would share a non-ground node; refused moves change nothing and are reported as failed to the user. Every accepted move is reflected in the very next solution, and a restart puts every unlocked link back on its default nodes.",
  ["histories", "schedules"], "Every sequence of moves, user commands, locks, restarts and steps over any network.",
  "Tests move one port of one link; rules interact across ports, locks, pending user commands and restarts.",
  ["core/GunnsBasicLink.cpp", "core/GunnsBasicLink.hh"], ["Port rules, default node map, user command state machine, admittance map update on a move"],
  "random port-operation histories against a port-map model, with the network equations checked after each step", "Basic two-port links."),
P("S07", "A network restart changes nothing that happens afterwards",
  "Restarting a network after any step, any number of times, leaves the run as it would have been: node potentials, contents, trace compounds, link fluxes and port connections of every later step are those of the same run without the restart. Nothing that a link or node needs to go on is lost, counted twice or recomputed differently. This covers the basic, fluid, thermal and electrical networks with their flow-through components, reactors, adsorbers, stores, batteries and switches. What restart functions document to drop is excepted: edits in progress, port moves and external heat inputs of thermal links, the filter memories of flow controllers and turbines, a balloon's last volume change, hot reactor temperature, and the converters' and regulators' trip and limit states.",
  ["histories", "crash_points", "configurations"], "Every network, history of commands and malfunctions, and restart point or set of restart points.",
  "Unit tests call restartModel() once on a fresh object and check which members it zeroes; whether the run goes on as before depends on the whole network's state at that point.",
  ["core/Gunns.cpp", "core/GunnsBasicLink.cpp", "core/GunnsBasicNode.cpp", "core/GunnsFluidNode.cpp", "core/GunnsFluidConductor.cpp", "core/GunnsFluidCapacitor.cpp", "aspects/thermal/GunnsThermalPhaseChangeBattery.cpp", "aspects/fluid/source/GunnsFluidAdsorber.cpp", "aspects/fluid/source/GunnsFluidSorptionBed.cpp"],
  ["Gunns::restart() restarts every node and link; each resets what its checkpoint does not hold, and must rebuild it from what remains"],
  "each seeded random network and disturbance schedule is run twice, once with restarts at random steps, and the two histories must agree step by step",
  "The checkpoint load is replaced by the state left in memory, so attributes that a checkpoint would lose but restart forgets to rebuild are not seen. Comparison ends at a step that overdraws a node."),
P("S08", "Hoses and cables carry flow where they are plugged; a socket holds one plug",
  "A socket holds at most one plug and a plug is in at most one socket, and both always agree. A request to plug in takes effect in the step it is made if the plug is free and the socket empty, and otherwise changes nothing; a request to unplug frees the socket and leaves the hose's end at that socket's ambient node; a direct connection does both, keeps trying while its socket is taken, and can be disabled. In every step the whole network behaves exactly as if each jumper were a plain conductor between the nodes its ends are plugged to, carrying nothing while a self-sealing plug is out or both ends meet at one node, and each socket a plain conductor to its ambient node while it is open and does not seal itself. A restart leaves every plug and every hose's end where it is.",
  ["histories", "schedules", "configurations"], "Every electrical or fluid network of jumpers and sockets, every order of competing requests, blockages and restarts.",
  "Unit tests plug one jumper into two or three sockets in a fixed order with the solver left out; contention, refused and repeated requests, restarts in between, and the flow that results only arise in histories inside a solved network.",
  ["core/GunnsBasicJumper.cpp", "core/GunnsBasicJumperPlug.cpp", "core/GunnsBasicSocket.cpp", "core/GunnsFluidJumper.cpp", "core/GunnsFluidJumperPlug.cpp", "core/GunnsFluidSocket.cpp"],
  ["Requests are processed link by link inside the network's step, so the outcome depends on the order of the links and on what was requested before"],
  "seeded schedules of requests and restarts; a reference model of who is plugged where drives a twin network of plain conductors, which the real network must match in every step, beside the plugs' and sockets' own status",
  "Leak malfunctions, sockets that are moved, and plugs commanded both ways at once are not judged."),
P("H01", "The H&S message queue delivers every accepted message once, in order",
  "Every message handed to the queue is either delivered exactly once, unaltered and in the order it was queued, or counted as overwritten or as a lock failure; nothing else is ever lost, duplicated or invented. Capacity is respected, a full queue drops its oldest message, a blocking queue never skips a message, and removing from a queue that holds messages always yields one, whatever producers and consumers do at the same time.",
  ["schedules", "histories"], "Every interleaving of producer and consumer threads, every queue size and every clear, resize, freeze and restart placed between them.",
  "Unit tests call the queue from one thread; losses and duplicates need a preemption between two particular statements.",
  ["ms-utils/simulation/hs/TsHsMsgQueue.cpp", "ms-utils/simulation/hs/TsHsMsgQueue.hh", "ms-utils/simulation/hs/TsHsMsg.cpp"],
  ["Ring buffer guarded by one mutex that is tried or waited for; overflow and lock-failure counters account for losses"],
  "simulated threads preempted at instruction level by a seeded scheduler; exactly-once, FIFO and conservation oracles over the recorded history",
  "Sequentially consistent interleavings; bounded threads and messages per run."),
P("H02", "The H&S filter suppresses exactly the repeats its rules name",
  "A message passes the filter exactly when its category is not suppressed and it is not a repeat beyond the configured count within the configured interval among the remembered messages; when the memory is full the message seen longest ago is forgotten. Processed and suppressed counts add up at all times, concurrent senders never pass more copies than allowed, and a blocking filter never drops a message because of a lock conflict.",
  ["schedules", "histories"], "Every history of messages, clock steps, clock jumps and reconfigurations, and every interleaving of concurrent senders.",
  "Tests run short fixed sequences at a constant clock; eviction order and timing windows depend on the whole history.",
  ["ms-utils/simulation/hs/TsHsMsgStdFilter.cpp", "ms-utils/simulation/hs/TsHsMsgStdFilter.hh"],
  ["Bounded history of messages with last-sent time and count, guarded by a mutex"],
  "simulated clock and threads; decision-by-decision comparison with an executable reference model",
  "Exact decisions compared in single-threaded histories; counting bounds in concurrent ones."),
P("H03", "Each H&S message reaches every enabled log once or is accounted for as lost",
  "Every message sent through the manager, from any thread and at any time between initialisation and shutdown, reaches each enabled log exactly once with its own fields and the time it was sent, in the order each thread sent it, or is suppressed by the filter or counted as lost by a named counter. Freezes, restarts, bursts, full queues, lock conflicts and disks that fail, fill up or write short lose nothing else, never deadlock and never tear messages into each other.",
  ["schedules", "histories", "fault_sequences"], "Every interleaving of senders with the helper thread, every freeze and restart, every file-open and write failure.",
  "Tests use one thread and a working disk, and sleep in real time; the guarantee is about all interleavings and failing disks.",
  ["ms-utils/simulation/hs/TsHsStdMngr.cpp", "ms-utils/simulation/hs/TsHsTextPlugin.cpp", "ms-utils/simulation/hs/TsHsConsolePlugin.cpp", "ms-utils/simulation/hs/TsHsMsgQueue.cpp", "ms-utils/simulation/hs/TsHsMsgStdFilter.cpp"],
  ["Manager filters and queues messages in the caller's thread; update() or a helper thread drains the queue to the plugins, each with its own lock and failure counter"],
  "whole manager under simulated threads, clock and disk with injected open and write failures; logs parsed back and compared with the sent history",
  "Sequentially consistent interleavings; Trick's own message plugin is stubbed."),
P("N01", "A super-network behaves exactly like the single network it replaces",
  "Sub-networks combined into a super-network, in any nesting and joined at any locations, own disjoint nodes and solve to the same potentials and flows as one network holding all their nodes and links, through any history of disturbances. Each sub-network's pre- and post-solver logic runs exactly once per update and sub-networks never step by themselves; an exception anywhere in an update is reported to health and status, never escapes, and later updates are unaffected.",
  ["configurations", "histories", "fault_sequences"], "Every composition of sub-networks, nested super-networks and joints, and every history of disturbances and exceptions.",
  "Tests build one fixed pair of tiny networks and check call counts.",
  ["core/network/GunnsSuperNetworkBase.cpp", "core/network/GunnsBasicSuperNetwork.cpp", "core/network/GunnsNetworkBase.cpp", "core/network/GunnsMultiLinkConnector.cpp"],
  ["Node offsets are handed out in order; sub-networks share the super-network's node array and link list; connectors move ports onto joint nodes"],
  "differential simulation of composed and flat twin networks under one seeded disturbance and exception schedule",
  "Basic aspect; up to 4 sub-networks with 3 joints."),
P("N02", "A network's mutex is exclusive, never leaked and never deadlocks",
  "With its mutex enabled, a network or super-network updates only while no other thread holds its mutex, and threads holding it see the network standing still. The mutex is released on every path out of an update or a user's critical section, including exceptions, repeated locks and early unlocks, so every thread always makes progress.",
  ["schedules", "fault_sequences"], "Every interleaving of updating threads and mutex users, with exceptions thrown in either.",
  "A test that locks once in one thread cannot see an interleaving or a leaked lock on an exceptional path.",
  ["core/network/GunnsNetworkBase.cpp", "core/network/GunnsSuperNetworkBase.cpp", "core/network/GunnsMutexLock.hh"],
  ["A scope guard locks the POSIX mutex around the update and unlocks it on destruction"],
  "simulated threads and mutexes with deadlock, leak and exclusion detection under seeded preemption",
  "Users are assumed to take the mutex as documented."),
P("D01", "The distributed fluid bus keeps its roles paired over a faulty network",
  "Two simulations sharing a fluid bus exchange data that the receiver either uses exactly as sent, in the role it was meant for, or ignores as invalid; a pressure is never taken for a flow rate. Roles change only for the documented causes, forced roles are obeyed, role changes are announced once, demand flow limits follow the published filter and never exceed the stable gain. Once loss, delay, duplication, partitions, stalls and restarts stop, the sides settle within a bounded number of frames on exactly one demand role, with the larger capacitance supplying, and stay there.",
  ["schedules", "histories", "fault_sequences"], "Every history of capacitances, forced roles, network faults, stalls and restarts of either side.",
  "Unit tests call one side with hand-made inputs; role negotiation is a two-party protocol over stale, lost and reordered data.",
  ["ms-utils/interop/Distributed2WayBusFluid.cpp", "ms-utils/interop/Distributed2WayBusBase.cpp"],
  ["Roles are negotiated from the capacitances each side last heard; frame counts are echoed to measure loop latency"],
  "two real bus ends over a simulated lossy network; step-by-step contract checks and bounded-progress oracle after healing",
  "Forced roles are set on both sides, opposite to each other. Exactly one side is primary."),
P("D02", "Fluid networks joined across simulations exchange mass and energy exactly",
  "When two fluid networks are joined by the distributed interface, the demand side's node holds exactly the fluid state the supply side last sent, the supply side's node loses or gains exactly the mass, species, trace compounds and enthalpy of the flow demanded, the demand side's network receives exactly what its interface draws, and each side sends what its network really did. A node's volume is on one side at a time. Whatever the message delays, losses, stalls and role changes, the joined pressures stay bounded and settle once the network heals.",
  ["schedules", "histories", "fault_sequences"], "Every pair of fluid networks and mixtures joined by the interface, and every history of network faults, stalls, forced roles, blockages and malfunctions.",
  "Unit tests exercise one interface against hand-made data; the ledger across two networks, role changes and stale messages only exists in whole joined simulations.",
  ["core/GunnsFluidDistributedIf.cpp", "ms-utils/interop/Distributed2WayBusFluid.cpp", "core/GunnsFluidCapacitor.cpp"],
  ["The supply side applies the demand flow to its node, the demand side imposes the supplied state on its own"],
  "two complete fluid networks over a simulated lossy data network; independent ledgers per step and end to end, bounded pressure after healing",
  "Flows are exchanged last-value, as the interface does, so ledgers are per applied message. Overdrawn supply nodes and steps of a role change are not judged. Property fits are judged between 150 and 600 K."),
P("D03", "The distributed electrical bus keeps one supplier over a faulty network",
  "Two simulations sharing an electrical bus agree on which of them supplies it: the side with the higher available voltage. Roles change only for the documented causes and each change is announced once; the load a supply side carries is the load its peer reported. Whatever messages are lost, delayed, duplicated, reordered or cut off, and whichever side stalls or restarts, once the network heals the sides settle within a bounded number of frames on exactly one supplier and stay there.",
  ["schedules", "histories", "fault_sequences"], "Every history of supply voltages, loads, forced roles, network faults, stalls and restarts of either side.",
  "Unit tests call one side with hand-made inputs; deadlock and flip-flop need two sides and stale data.",
  ["ms-utils/interop/Distributed2WayBusElect.cpp", "ms-utils/interop/Distributed2WayBusBase.cpp"],
  ["Roles are negotiated from the last voltages and loads heard; flips are rate-limited by loop latency"],
  "two real bus ends over a simulated lossy network; step-by-step contract checks and bounded-progress oracle after healing",
  "Forced roles are set on both sides, opposite to each other. Exactly one side is primary."),
P("F01", "Fluid networks neither create nor lose mass of any species",
  "In every step of a fluid network each node gains exactly the mass of each species that its links' declared flow rates deliver to it, the total changes only by what boundary links bring in or take out, and a link's mass flow is its molar flow times the molecular weight of the fluid it moves. This holds through blockages, stuck and leaking valves, flow reversal, overflow of small nodes, zero-volume nodes, time-step changes and any history of commands. Only a node asked for more than it holds and receives in a step is excepted.",
  ["histories", "configurations", "fault_sequences"], "Every network of fluid nodes and links, mixture and initial state, under every schedule of malfunctions, commands and time steps.",
  "Unit tests check one link or one node for one step; conservation depends on the order in which links and overflowing nodes complete and on the whole disturbance history.",
  ["core/GunnsFluidNode.cpp", "core/GunnsFluidFlowOrchestrator.cpp", "core/GunnsFluidLink.cpp", "core/GunnsFluidConductor.cpp", "core/GunnsFluidPotential.cpp", "core/GunnsFluidSource.cpp", "core/GunnsFluidCapacitor.cpp", "core/GunnsFluidUtils.cpp", "aspects/fluid/fluid/PolyFluid.cpp"],
  ["Links schedule outflows, the orchestrator orders transport through overflowing nodes, nodes mix inflows into their contents"],
  "seeded random fluid networks and disturbance schedules; independent ledger of every species checked after every step and accumulated over the run",
  "Ideal gases and four liquids, 1 to 4 species, up to 9 nodes. Steps in which the orchestrator or a node warns of conservation errors are not judged."),
P("F02", "Fluid networks conserve energy except for declared heat",
  "Without thermal expansion effects, every node's enthalpy changes in a step by exactly the enthalpy of the flows its links deliver. Links that exchange no heat pass fluid on at unchanged enthalpy, and pipes, fans and heat exchangers heat the fluid by exactly the heat they take from their walls. This holds for every mixture, through flow reversal, overflow and malfunctions.",
  ["histories", "configurations", "fault_sequences"], "Every network of fluid nodes and links, mixture and initial state, under every schedule of malfunctions, commands, wall temperatures and time steps.",
  "Unit tests recompute one link's formula with the same helpers; a leak of energy shows only against a ledger over interacting links and nodes.",
  ["core/GunnsFluidNode.cpp", "core/GunnsFluidFlowOrchestrator.cpp", "core/GunnsFluidLink.cpp", "core/GunnsFluidUtils.cpp", "aspects/fluid/fluid/PolyFluid.cpp", "aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp", "aspects/fluid/conductor/GunnsFluidPipe.cpp"],
  ["Nodes integrate inflow and outflow enthalpy; heat transfer links change their internal fluid's temperature and record the heat"],
  "seeded random fluid networks and disturbance schedules; independent enthalpy ledger after every step",
  "Temperatures within the validity range of the property fits."),
P("F03", "Trace compounds follow the fluid and are conserved",
  "Trace compounds ride on the bulk fluid: in every step each node gains exactly the mass of each compound carried by the fluid its links deliver, the total changes only across boundaries, and the stored masses and mole fractions agree with each other. They are never negative and mixing never raises a concentration above the highest one present, whatever the schedule of disturbances.",
  ["histories", "configurations", "fault_sequences"], "Every network, mixture and trace compound load under every schedule of malfunctions, commands and time steps.",
  "Tests cover the trace compound arithmetic of one object; the guarantee is about repeated transfer between contents, inflow, outflow and internal fluids.",
  ["aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp", "aspects/fluid/fluid/PolyFluid.cpp", "core/GunnsFluidNode.cpp"],
  ["Masses flow in and out with the bulk fluid and mole fractions are recomputed from them"],
  "seeded random fluid networks and disturbance schedules; independent ledger of every compound",
  "Concentrations below 1e-15 may be cut to zero, as documented."),
P("F04", "Fluid states stay physical and passive networks only relax",
  "Masses, densities and temperatures stay finite and non-negative and mixture fractions stay in range and sum to one. Passive links only flow from high to low pressure. In a closed network mixture fractions never leave the range spanned by the initial contents, and without expansion effects temperatures never leave the range spanned by contents and walls. Every derived property a node or its outflow reports (molecular weight, moles, density, viscosity, specific heat, conductivity, enthalpy) is that of its mixture at its temperature and pressure, whatever flows made it. Once disturbances stop, every node settles to the pressure its mass, volume and temperature imply.",
  ["histories", "configurations", "fault_sequences"], "Every network of fluid nodes and passive links under every schedule of malfunctions, commands, wall temperatures and time steps.",
  "A second-law violation or drift shows only in closed loops over many steps, not in single-step unit tests.",
  ["core/GunnsFluidNode.cpp", "core/GunnsFluidCapacitor.cpp", "core/GunnsFluidConductor.cpp", "aspects/fluid/conductor/GunnsFluidValve.cpp", "aspects/fluid/conductor/GunnsFluidCheckValve.cpp", "aspects/fluid/fluid/PolyFluid.cpp"],
  ["The capacitor's density correction pulls the solved pressure back to the equation of state"],
  "seeded random networks with a disturbance phase and a quiet phase; bounds each step, settling after the quiet phase",
  "Settling is judged in gas networks without pumps, sources or boundaries."),
P("T01", "Thermal networks keep an exact energy ledger and obey the second law",
  "Every conduction, radiation, potential, source, heater and panel delivers exactly the heat its own law gives for the temperatures and commands of the step, split over its ports by its fractions, and every node's stored heat changes in a step by exactly the heat its links and its external source deliver. Passive elements only carry heat from hot to cold, a passive network never leaves the range of temperatures it started from, and a phase change battery accounts for latent heat and leaked mass. This holds under every malfunction, override, capacitance edit, checkpoint reload, restart and time-step change.",
  ["histories", "fault_sequences", "configurations"], "Every network of capacitors, conductors, radiators, potentials, sources, heaters, panels, coolers and phase change batteries under every schedule of malfunctions, overrides, edits, port moves, restarts and time steps.",
  "Unit tests check one link against its own formula for one step; energy that goes missing between edits, overrides and restarts shows only in a ledger over a network's history.",
  ["aspects/thermal/GunnsThermalCapacitor.cpp", "aspects/thermal/GunnsThermalHeater.cpp", "aspects/thermal/GunnsThermalPanel.cpp", "aspects/thermal/GunnsThermalMultiPanel.cpp", "aspects/thermal/GunnsThermalSource.cpp", "aspects/thermal/GunnsThermalPotential.cpp", "aspects/thermal/GunnsThermalPhaseChangeBattery.cpp", "aspects/thermal/GunnsThermoelectricDevice.cpp", "core/GunnsBasicConductor.cpp", "core/GunnsBasicCapacitor.cpp", "core/Gunns.cpp"],
  ["Links contribute conductances and heat sources; capacitors integrate net heat into temperature over the step"],
  "seeded random thermal networks and fault schedules; independent heat ledger, element laws and second-law bounds after every step",
  "Steps in which an override replaces a solved temperature are excluded from the balance; temperatures above 1e5 K are not judged."),
P("T02", "A thermal network file describes exactly the network that gets built",
  "A thermal network built from its XML files is exactly the network that the usable entries of those files describe: damaged entries are skipped and reported one by one, a missing, unreadable, cut-off or useless file makes the load fail with a fatal message instead of building something else, and loading again after a refused load gives the same network as a first load. Heater commands, miswiring and capacitance group scaling act on exactly the links they name, and a checkpoint reload restores the capacitances that were in effect at the checkpoint.",
  ["fault_sequences", "histories", "configurations"], "Every set of network files, every damage to entries or files, every order of refused and repeated loads, heater commands, capacitance edits and checkpoint reloads.",
  "Tests load a handful of fixed files; which state survives a refused load or a reload depends on the sequence of events before it.",
  ["aspects/thermal/network/ThermFileParser.cpp", "aspects/thermal/network/ThermalNetwork.cpp", "ms-utils/parsing/ParseTool.cpp", "ms-utils/parsing/tinyxml/tinyxmlparser.cpp"],
  ["The parser collects vectors per link type which the network turns into config data and links; group scale factors are undone before a checkpoint load and applied again after it"],
  "seeded generation of files, entry damage, disk faults and command histories; differential check against a network built directly from the description",
  "Entries are damaged by leaving out, emptying or misspelling tags; view scalars given by position are a known finding."),
P("E01", "Electrical distribution solves its circuit and trips selectively",
  "In every step that converges, an electrical network of sources, switches, loads, selectors and shorts sits at the solution of its circuit: voltages and currents satisfy every element's law and Kirchhoff's current law, open switches carry nothing, and the flow totals of the nodes are those of the links. Switches trip, recover and blow fuses exactly as their limits, sensed values, trip priorities, commands and malfunctions say: downstream before upstream, a tripped switch is open until it is reset, and no closed protected switch is left beyond its limit. This holds under every sequence of commands, resets, faults, overrides, sensor malfunctions, port moves and restarts.",
  ["histories", "configurations", "fault_sequences"], "Every network of these elements with every trip setting under every schedule of commands, short circuits, malfunctions, overrides, source changes, port moves and restarts.",
  "Unit tests check one switch with hand-set voltages; trip cascades, recoveries and stale solver or override state depend on the other links and on the history.",
  ["aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp", "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp", "aspects/electrical/Switch/SwitchElect.cpp", "aspects/electrical/Switch/GunnsElectSwitchUtil.cpp", "aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp", "aspects/electrical/TripLogic/GunnsTripLogic.cpp", "aspects/electrical/Switch/GunnsElectSelector.cpp", "aspects/electrical/resistive/GunnsShortUtil.cpp", "aspects/electrical/UserLoad/UserLoadBase.cpp", "aspects/electrical/UserLoad/ResistiveLoad.cpp", "aspects/electrical/UserLoad/ConstantPowerLoad.cpp"],
  ["Links delay, reject or confirm a converged solution by trip priority until nobody trips"],
  "seeded random electrical networks and fault schedules; executable reference of circuit solution and trip sequence, element laws and Kirchhoff balance after every step",
  "Trip decisions closer than 1e-5 to their limit are not judged; loads see their switch's last accepted current, so steps in which a supply collapses are not compared with the reference."),
P("E02", "Batteries, converters, power loads, diodes and supplies account for every watt",
  "In every step that converges, batteries, converters, constant-power loads, diodes, power-law resistors and selecting power supplies sit at the solution of their circuit and no solution that is not a number counts as converged. A converter input draws exactly the power its output delivers plus its declared losses, a regulator holds its setpoint or its limit and never feeds current backwards, and converter trips happen at their priority and only beyond their limits. A battery's cells lose exactly the charge its current and failures take and its heat is its losses; a supply draws its load from the input its rules select and reports it. This holds under every sequence of commands, cell failures, blockages, load and source changes and restarts.",
  ["histories", "configurations", "fault_sequences"], "Every network of these elements with every setting, under every schedule of setpoints, enables, trips and resets, cell failures, thermal runaway, biases, blockages, input failures, time steps and restarts.",
  "Unit tests step one link with hand-set voltages; agreement of both sides of a converter, state of charge and limit states depend on the order of rejections inside a step and on the history.",
  ["aspects/electrical/Batt/GunnsElectBattery.cpp", "aspects/electrical/Batt/GunnsElectBatteryCell.cpp", "aspects/electrical/Converter/GunnsElectConverterInput.cpp", "aspects/electrical/Converter/GunnsElectConverterOutput.cpp", "aspects/electrical/TripLogic/GunnsTripLogic.cpp", "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp", "aspects/electrical/Diode/GunnsElectRealDiode.cpp", "aspects/electrical/IPS/GunnsElectIps.cpp", "aspects/electrical/resistive/GunnsResistorPowerFunction.cpp", "core/Gunns.cpp"],
  ["Converter input and output exchange voltage and power every minor step and reject each other's invalid values; batteries integrate charge once per major step"],
  "seeded random power networks and fault schedules; element laws, two-sided power accounts, battery reference model, supply selection rules and Kirchhoff balance after every step",
  "Steps that do not converge and the one after, the first step after a restart, powers within three solutions of a command or rejection and converters that used up their allowed state changes are not compared with the laws. The total reported by GunnsElectIps with several inputs is a known finding."),
P("F05", "Flow-through fluid components obey their setting and create or lose nothing",
  "Relief, regulator, balanced pressure-reducing, 3-way, 3-way check, hatch and hi-fi valves, orifices, pumps, turbines, heaters and heat exchangers take from one port exactly what they give at the other: no mass, species or trace compound appears or vanishes inside them except the water a condensing heat exchanger reports as condensed, and the only heat is what their wall, segments or heater gave. Valve positions follow their opening and closing curves with hysteresis, rate limit, stuck and fail-to malfunctions; flow follows the conductance that position, blockage and leak set, and never runs against the pressure that drives it or back through a closed check valve; positive-displacement pumps move the volume their speed sweeps; a blocked, closed or stopped component moves nothing. No condition inside a component aborts the run.",
  ["histories", "fault_sequences", "configurations"], "Every network of these components and wires between fluid nodes under every schedule of malfunctions, set points, speeds, wall temperatures and time steps.",
  "Unit tests exercise one component for one step between prescribed ports; hysteresis, owed mass buffers, reversals and emptied nodes only arise in histories inside a solved network.",
  ["aspects/fluid/conductor/GunnsFluidReliefValve.cpp", "aspects/fluid/conductor/GunnsFluidRegulatorValve.cpp", "aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp", "aspects/fluid/conductor/GunnsFluid3WayValve.cpp", "aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp", "aspects/fluid/conductor/GunnsFluidHatch.cpp", "aspects/fluid/conductor/GunnsFluidHxDynHtc.cpp", "aspects/fluid/conductor/GunnsFluidCondensingHx.cpp", "aspects/fluid/hi-fi/GunnsFluidHiFiValve.cpp", "aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp"],
  ["A component computes its conductance or demand in step(), the network solves, then the component transports fluid with its internal state"],
  "seeded random component networks and disturbance schedules; a recording node reports what each link really gave and took, compared with each component's own law every step",
  "Latent energy of condensation, hydrogen mixtures in the condensing heat exchanger and nodes emptied through within a step are not judged for heat."),
P("F06", "Fluid stores hold, and change to, exactly what they are edited to",
  "Tanks, inflatable balloons and spring accumulators hold exactly the fluid that their node's links gave them, whatever the history. An operator edit of temperature, pressure, partial pressures, volume or bellows position ends, at exactly what it asked for; while it goes on the store's pressure is forced to the target, and not after; an isolated store then stays there. A partial pressure rate edit moves the chosen constituents by the commanded rate, leaves the others alone, and stops within one step of its target. Reported pressure rate, shell heat, partial pressures, fractions, volumes and bellows position always describe the content; a balloon's volume and an accumulator's spring pressure, conductance and liquid volume follow their laws and limits, and a stuck bellows or balloon does not move. A restart ends every edit.",
  ["histories", "fault_sequences", "configurations"], "Every network of these stores, wires and volumes under every schedule of edits, holds, malfunctions, head and heat steps, and time steps, including edits that overlap.",
  "Unit tests run one edit at a time on one prescribed node and one step; overlapping edits, edits interrupted by malfunctions, and the state after the edit only arise in histories inside a solved network.",
  ["aspects/fluid/capacitor/GunnsFluidTank.cpp", "aspects/fluid/capacitor/GunnsFluidBalloon.cpp", "aspects/fluid/capacitor/GunnsFluidAccum.cpp", "core/GunnsFluidCapacitor.cpp"],
  ["A store is edited through flags that its step() turns into potential overrides and source fluxes over several steps, while the node integrates what its other links move"],
  "seeded random networks of stores and schedules of edits and malfunctions; a recording node reports what each link really moved; every step is compared with the commanded edit and the store's laws recomputed from its settings",
  "Balloon temperature edits and stores below 200 K are not judged for the edit's end state; steps in which a node is asked for more than it holds are not judged for conservation."),
P("F07", "Fluid source components exchange exactly what they declare",
  "Adsorbers (plain, hot, multi-compound), reactors, gas and multi separators, crew metabolism links, boundary sources, fires, hydrogen redox stacks and sorption beds change the fluid of the nodes they touch by exactly what they declare: what a node loses of each species and trace compound is what the adsorbed, stored or separated amounts gained, what a reaction makes and consumes follows its stoichiometry and efficiency limits, and the heat is what reaction, wall and exchanged fluid carry. Loads stay within capacity and rate limits, nothing is adsorbed that did not pass by, and nothing negative is ever stored. What a component tells the solver as its source is what it then moves, at the port where it moves it, and nothing once it stops. Every node's content changes by exactly the sum of what its links moved. No condition inside a component aborts the run.",
  ["histories", "fault_sequences", "configurations"], "Every network of these components, wires and volumes under every schedule of malfunctions, demands, cycle commands, blockages, wall temperatures and time steps.",
  "Unit tests call one component's step and transport once between prescribed nodes; loads, reversals, stalls, shared nodes and stale sources only arise in histories inside a solved network.",
  ["aspects/fluid/source/GunnsFluidAdsorber.cpp", "aspects/fluid/source/GunnsFluidHotAdsorber.cpp", "aspects/fluid/source/GunnsFluidMultiAdsorber.cpp", "aspects/fluid/source/GunnsFluidReactor.cpp", "aspects/fluid/source/GunnsFluidHotReactor.cpp", "aspects/fluid/source/GunnsFluidSeparatorGas.cpp", "aspects/fluid/source/GunnsFluidMultiSeparator.cpp", "aspects/fluid/source/GunnsFluidMetabolic.cpp", "aspects/fluid/source/GunnsFluidMetabolic2.cpp", "aspects/fluid/source/GunnsFluidMetabolic3.cpp", "aspects/fluid/source/GunnsFluidSourceBoundary.cpp", "aspects/fluid/source/GunnsFluidFireSource.cpp", "aspects/fluid/source/GunnsFluidSimpleH2Redox.cpp", "aspects/fluid/source/GunnsFluidSorptionBed.cpp"],
  ["A source component demands flow in step(), the network solves, then it transports what its internal state allows in that step and buffers the difference"],
  "seeded random source networks and disturbance schedules; a recording node reports what each link really gave and took, compared with each component's own declared change every step and with the nodes' contents",
  "Steps in which a node is asked for more than it holds are documented not to conserve and are not judged; multi-adsorber exchanges that cancel exactly are not judged."),
P("L01", "The minor step log holds exactly the last minor steps and disturbs nothing",
  "While the log records, it keeps exactly the last N minor steps, each with the major and minor step numbers, the solver's verdict (a linear network's only minor step is recorded as confirmed), the node potentials, and every link's verdict, admittances and sources as they were in that minor step. A snapshot command, or in automatic mode a step that fails to converge or throws and no other step, writes all of them, oldest first, into one file named after the last major step, exactly once and with nothing mixed in from later steps, however the writing thread and the network are scheduled and whenever the log is resized. Commands given while a file is written take effect afterwards; recording starts again empty. A file that cannot be opened loses that one file only. The network's solution is the same with and without the log.",
  ["schedules", "histories", "fault_sequences", "configurations"], "Every schedule of log commands, resizes, convergence failures, link exceptions, refused files and thread preemptions.",
  "Unit tests call the log's methods in turn from one thread; the interleaving of a network that steps with a thread that writes, and what the solver really records through rejected, delayed and failed minor steps, are never exercised together.",
  ["core/GunnsMinorStepLog.cpp", "core/GunnsMinorStepLog.hh", "core/Gunns.cpp"],
  ["One thread steps the network and fills a ring buffer; another renders the buffer to disk when asked, without a lock, relying on the log's mode"],
  "network and writer run as simulated threads preempted at basic blocks, the disk may refuse a file; every file is compared cell by cell with the minor steps that the links themselves saw, and the network with an unlogged twin",
  "Sequentially consistent memory; node convergence and decomposition columns are not judged; only open failures are injected on the disk."),
P("C01", "Sensors show what power, malfunctions and noise make of the truth, no more",
  "Whatever the order of power losses, malfunctions, noise values and time steps: a sensor that is powered (or ignores power) and not failed off shows the converted truth with its scale, bias, drift, noise and resolution applied in that order, or its failed-to value, or the value it last showed when stuck; an unpowered or failed-off one shows its off value; a perfect one the converted truth. Each malfunction acts only on the sensor it is set on and only while it is set; drift grows with time while active and is forgotten when cleared. The shown value always stays within the sensor's range, the reported truth is never touched by malfunctions, and the degraded flag tells exactly whether a malfunction is active. Boolean, valve position and limit switches obey the same order of precedence. Noise stays within one amplitude and is produced in bounded time from any source of random numbers.",
  ["histories", "fault_sequences", "inputs", "configurations"], "Every history of power, malfunctions, truth, noise and time steps.",
  "Unit tests switch one malfunction on at a time for one step with fixed numbers; combinations, recovery, held values and drift over many steps, and sensors sharing a configuration, are not sampled.",
  ["gunns-ts-models/common/sensors/SensorAnalog.cpp", "gunns-ts-models/common/sensors/SensorBase.hh", "gunns-ts-models/common/sensors/SensorBooleanBi.cpp", "gunns-ts-models/common/sensors/SensorBooleanAi.cpp", "gunns-ts-models/common/sensors/SensorVlvOpenClose.cpp", "gunns-ts-models/common/sensors/TsFanSpeedSensors.cpp", "gunns-ts-models/common/sensors/TsLimitSwitch.cpp", "gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp", "gunns-ts-models/common/sensors/TsNoise.cpp"],
  ["Sensors are updated once per step with the power and truth that the simulation gives them, and draw noise from an injected function"],
  "seeded schedules of malfunctions, power losses and time steps over banks of sensors with an injected noise source; each shown value is compared with a reference model of the sensor chain after every step",
  "Values that lie on a rounding or limit boundary within float accuracy may go either way; logarithmic unit conversions are not used."),
P("C02", "Valve controllers move, stop, latch and draw power as commanded and no further",
  "Whatever the order of power losses, enabling, commands, manual operation, malfunctions and time steps: a valve controller that is powered and enabled moves at its commanded rate (position to its target within its tolerance, open/close to the commanded end unless its end-of-travel switch stops it, toggle once per toggle, dual solenoid to the driven side, three-way to the selected path only); without power or enable it goes where its latch type sends it, or stays; a stuck drive keeps, a failed drive takes its fail-to position. Manual operation overrides the drive unless disabled, failing to a position overrides manual, and stuck overrides all. The position always stays within the command range and the fluid position follows it linearly; stuck and limit flags and the power drawn (none, holding, moving, stalled) fit the situation. The PID controller follows its law at its interval within its limits. After power and a steady command return, every valve arrives within its transit time.",
  ["histories", "fault_sequences", "configurations"], "Every history of power, commands, manual operation, malfunctions and time steps.",
  "Unit tests set one flag and take one step with fixed numbers; precedence of combined faults, recovery, reversed drives and arrival over many steps are not sampled.",
  ["gunns-ts-models/common/controllers/fluid/TsValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsPoweredValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsOpenCloseValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsSpeedValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsToggleValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsDualSolenoidValveController.cpp", "gunns-ts-models/common/controllers/fluid/TsTValveController.cpp", "gunns-ts-models/common/controllers/valveAssemblies/TsOpenCloseValveAssembly.cpp", "gunns-ts-models/common/controllers/valveAssemblies/TsToggleValveAssembly.cpp", "gunns-ts-models/common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.cpp", "gunns-ts-models/common/controllers/generic/TsPidController.cpp"],
  ["Controllers are updated once per step with the commands, power and sensed positions of that step"],
  "seeded schedules of power losses, commands, manual operation, malfunctions and time steps over banks of valve controllers; each position, flag and power compared with a reference model after every step, and arrival checked after the faults stop",
  "Position sensors outside the valve assemblies belong to the harness; toggle command queues are not used; a reversed drive with end-of-travel switches need not arrive."),
P("C03", "Motor drives, thermostats and smoke detectors act by their laws and recover",
  "Whatever the order of supply changes, commands, loads, lost sensors, malfunctions and time steps: a pump motor's controller is powered exactly within its voltage range, trips on temperature above its limit until below its reset or unpowered, drives its motor only when powered, enabled and not tripped, and limits the current until it has spun up; pulse width stays in 0 to 1, current within its limit, and speed never negative; motor speed, current and heat follow torque balance and energy balance, and the supply sees the power of controller plus motor. A thermostat commands its heater from its sensors, setpoints, bias and AND/OR logic with hysteresis, setpoint malfunctions, forced commands and kill switch in that order of precedence. A smoke detector shows its configured levels, self test and voltages, only while powered. When disturbances stop, motors reach their speed, thermostats hold their band and self tests end.",
  ["histories", "fault_sequences", "configurations"], "Every history of supply, commands, loads, malfunctions and time steps.",
  "Unit tests take single steps with one malfunction and fixed numbers; closed loops, trips and recovery over many steps and combined faults are not sampled.",
  ["gunns-ts-models/common/controllers/fluid/TsPumpMotorController.cpp", "gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp", "gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.cpp", "gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp", "gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp", "gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp"],
  ["Devices are updated once per step with the supply, command, load and temperature of that step"],
  "seeded schedules of supply losses, commands, loads, malfunctions and time steps over banks of motors, thermostats in a closed loop with a wall, and smoke detectors; each output compared with a reference model every step, and spin-up, band and end of self test checked after the faults stop",
  "Speed control is judged for arrival only where gains and motor time constant allow it; the total power under a supply-override malfunction is not judged; setpoint comparisons within rounding may go either way."),
P("O01", "Optimizers use just what their runs returned, in any order, and can be resumed",
  "Whatever the order in which the results of the Monte Carlo runs of an epoch come back, and even if some come twice: each slave drives its model by its trajectories and reports the sum of its weighted squared errors with its run; every run gets the state of its particle or gradient, inside the allowed range of each variable; after each epoch a particle swarm's global and personal bests are the smallest costs returned so far, at the very states that had them, and never get worse; particles move by inertia, personal and global pull within their speed limit and are reflected at the range limits; gradient descent goes the way the costs of its own epoch say. Each epoch adds one row with those values to the histories, and the state file shows the last state. A swarm restarted from it goes on from the saved positions, velocities and bests; a torn state file is refused; a file that cannot be opened is reported.",
  ["schedules", "fault_sequences", "histories", "configurations"], "Every order of results, every sequence of epochs, stops and restarts.",
  "Unit tests return each result at once, in order, for one epoch; results that overtake each other, repeated results, several epochs and restarts from a torn file are not sampled.",
  ["core/optimization/GunnsOptimMonteCarlo.cpp", "core/optimization/GunnsOptimParticleSwarm.cpp", "core/optimization/GunnsOptimGradientDescent.cpp", "core/optimization/GunnsOptimBase.cpp", "core/optimization/GunnsOptimFactory.cpp", "core/GunnsInfraFunctions.cpp"],
  ["Slave runs of one epoch finish in any order", "The master is stopped and restarted between epochs' files"],
  "seeded schedules of slave completions (reordered, duplicated, missing), stops, torn state files and file open failures over a Monte Carlo master with real slaves; each run handed out, best state, movement and file row compared with a reference built from the results returned",
  "Files keep six digits, so restarts are compared to that accuracy; constraints between input variables are not used; only open failures are injected while the master writes."),
]
NOT_APPLICABLE = []
