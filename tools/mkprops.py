#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state=(), mechanism=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=list(state), mechanism=list(mechanism),
                     observe_at=list(observe), hook_needed=hook)))

ST = "src/runtime/Stage.cpp"; MK = "src/runtime/MatchKeySequence.cpp"; MS = "src/runtime/MultiStage.cpp"
SS = "src/server/ServerState.cpp"; PC = "src/config/ParseConfig.cpp"; PK = "src/config/ParseKeySequence.cpp"

prop("C01", "Mappings are applied in order, held back, completed or forwarded as documented",
 "For every set of mappings and every history of key presses and releases, the emitted key events are exactly those of the documented principle: the pending input is compared with the active input expressions in configuration order, the first one that matches emits its output, one that can still match holds the input back. When nothing can match any more the longest exactly matching beginning is applied, otherwise the oldest key stroke is forwarded, and matching continues with the rest.",
 ["histories", "configurations"], "all mapping lists (sequences, groups, holds, Not, Any, strings) x all interleavings of press/repeat/release of several keys",
 "Each unit test replays one hand-written history against one configuration; the outcome depends on the interleaving of presses, repeats and releases and on which mappings compete.",
 [ST, MK], ["pending input sequence", "keys held on output"], ["match_input", "forward_from_sequence", "finish_sequence"], ["return value of Stage::update", "ServerState::on_send_key"])
prop("C02", "No key stays pressed once all input is released",
 "Whenever all physical keys are released, no virtual key is on, no context-activation output is held and no delayed output is pending, every key the mapper pressed on its output has been released again. Unless input is still held back because a mapping might match, the mapper is then back in its idle state, so the next key stroke is treated like the first one.",
 ["histories", "configurations"], "all configurations x all key histories which end with everything released, including focus changes and timeouts on the way",
 "One fuzz test exercises a single configuration with five keys and single-stage processing; suppression, output-on-release, timeouts, contexts and stages are only tried on short scripted histories.",
 [ST, MS, SS], ["keys held on output with their triggers"], ["release_triggered", "update_output"], ["balance of emitted press/release events", "Stage::is_clear"])
prop("C03", "Keys which no mapping mentions pass through unchanged, once and in order",
 "A key that does not occur in any active mapping is forwarded: each press yields exactly one press, each repeat while held at most one repeated press, and its release exactly one release. Forwarded keys are never reordered relative to each other, and without any active mapping every event is passed on immediately and unchanged.",
 ["histories", "configurations"], "all configurations x all histories mixing mapped and unmapped keys (keyboard keys, mouse buttons, wheel)",
 "Tests check the forwarding of individual keys next to a few mappings, not conservation of the whole stream for arbitrary interleavings.",
 [ST, MS], ["pending input sequence"], ["forward_from_sequence"], ["emitted key events"])
prop("C04", "Negated keys in outputs are released during and restored after the output",
 "While an output containing a negated key (or a negated Any) is emitted, that key is not down on the output from the position of the negation on, unless the output itself presses it. Keys released that way which are still held are pressed again before the next output which does not suppress them, and a negation never releases a virtual key or triggers anything twice.",
 ["histories", "configurations"], "all outputs with negations x all combinations of held keys and following key strokes",
 "Tests cover about ten fixed histories; temporary release and reapplication depend on what else is held and on what comes next.",
 [ST], ["suppressed and temporarily released output keys"], ["apply_output", "update_output"], ["emitted key events"])
prop("C05", "Output after ^ is emitted exactly once, when the trigger is released",
 "For an output split with ^ the first part is emitted once when the input matches, while the second part is pending key repeat emits nothing, and the second part is emitted exactly once when the triggering key is released (immediately when it was already released). When the context which triggered it is deactivated by a focus change in between, the second part is not emitted.",
 ["histories", "configurations"], "all split outputs x all interleavings of other keys, repeats, focus changes between press and release of the trigger",
 "Tests script five histories; interleavings of several pending second parts with focus changes and modifiers are not enumerated.",
 [ST], ["pending outputs on release"], ["continue_output_on_release", "cancel_inactive_output_on_release"], ["emitted key events"])
prop("C06", "Timeouts in inputs match exactly when the time has or has not elapsed",
 "An input expression with a timeout matches only when at least that time passed without the cancelling key event, and one with a negated timeout only when less time passed. A pending timeout is requested and answered at most once, an elapsed one never also counts as cancelled (and vice versa), and key repeats neither restart nor cancel it.",
 ["histories", "configurations", "schedules"], "all mappings with (negated) timeouts x all timings of key events relative to the deadline",
 "Tests inject fixed elapsed times in about fifteen scenarios; relative timing of several keys, repeats and competing timeouts is not enumerated.",
 [ST, MK, SS], ["current timeout", "time since request"], ["schedule_timeout", "cancel_timeout", "should_cancel"], ["emitted key events", "scheduled timeout of the server"])
prop("C07", "Mappings starting with ? never delay or swallow preceding input",
 "Input is never held back because a mapping which starts with ? might still match; such a mapping only matches when the strokes just typed, ignoring earlier unrelated ones, end with its expression. When it matches, only the last stroke is replaced by its output, the preceding strokes have already been emitted.",
 ["histories", "configurations"], "all mixes of ?-mappings and ordinary mappings x all histories",
 "Tests cover a few phrases and one fuzz configuration; the retained history and its clean up depend on the whole past input.",
 [ST, MK], ["retained input history"], ["clean_up_history", "match_input"], ["emitted key events"])
prop("C08", "Only mappings of active contexts apply, and the last active override wins",
 "A mapping is applied only if its context is currently active: selected by the focused window, its modifier filter agrees with the keys held at that moment, and its device filter accepts the device the event came from; contexts which fall through share the mappings of the next one. An input mapped to a command emits the output given by the last active context overriding it, and nothing of an inactive context is ever emitted.",
 ["histories", "configurations"], "all context lists (fallthrough, modifier and device filters, overrides) x all interleavings of focus changes, device changes and key events",
 "Tests check single focus changes between key strokes; activation changing in the middle of a pending or held sequence is quantified over histories.",
 [ST], ["client-selected contexts", "active contexts"], ["update_active_contexts", "device_matches_filter", "find_output"], ["emitted key events"])
prop("C09", "ContextActive outputs are applied once per activation and undone once",
 "A mapping on context activation emits its output exactly once each time its context becomes active and releases it (and emits its part after ^) exactly once each time the context becomes inactive. On a switch all deactivations are processed before the activations, and a context which stays active is not toggled.",
 ["histories", "configurations"], "all sets of contexts with activation mappings x all sequences of focus changes and modifier changes",
 "Tests script a handful of switches; toggling by modifier filters during key processing gives many more histories.",
 [ST, MS, SS], ["active contexts"], ["on_context_active_event"], ["emitted key events"])
prop("C10", "Stages compose: each stage sees exactly what the previous one emitted",
 "A configuration with several stages behaves like the single stages connected in series: every key event emitted by a stage is the input of the next in the same order, and only the output of the last reaches the system. Timeouts and virtual key changes reach every stage once, actions and virtual key toggles emitted by a stage bypass the later ones, and active contexts are assigned to the stage which owns them.",
 ["histories", "configurations"], "all splits of configurations into stages x all histories",
 "Five scripted histories exist; composition has to hold for every event sequence and stage content.",
 [MS], ["per-stage state"], ["MultiStage::update", "MultiStage::set_active_client_contexts"], ["emitted key events"])
prop("C11", "Concurrent key repeat of several devices is limited to the last pressed device",
 "While keys are held on several devices, repeated presses are only accepted from the device on which a key was pressed last (until it repeats itself, also from the device which was already repeating), and other devices' repeats are dropped without any effect. A first press and a release are never dropped because of another device's repeat.",
 ["histories"], "all interleavings of press, repeat and release events of several devices",
 "One scripted history exists; the arbitration depends on the order of events of all devices.",
 [ST], ["last pressed/repeating device"], ["apply_input"], ["emitted key events"])
prop("C12", "Virtual keys toggle consistently and every change is reported",
 "A virtual key is toggled exactly once for each time it is output (or pressed, released or toggled by request, where a request for the current state changes nothing), every toggle is reported to the client once with the new state, and mappings and contexts depending on it see the new state immediately and in every stage. Mutually toggling configurations terminate.",
 ["histories", "configurations"], "all configurations using virtual keys x all key histories and external requests",
 "Tests script a few toggles; toggles nested in the processing of other output and stage interplay are history dependent.",
 [SS, MS, ST], ["virtual keys down"], ["set_virtual_key_state", "toggle_virtual_key", "flush_send_buffer"], ["IClientPort::send_virtual_key_state", "emitted key events"])
prop("C13", "Delayed output keeps its order and is emitted completely exactly once",
 "Output containing delays is emitted completely, exactly once and in order; what follows a delay is emitted only after the delay has passed, and output of later input waits behind it. Triggered actions are reported to the client exactly once each at their position, and while output is pending repeats of the last key are not queued.",
 ["histories", "configurations", "schedules", "fault_sequences"], "all outputs with delays and actions x all timings of further input and flushes, and transient send failures",
 "A single test flushes one delayed output; interleaving of new input with a partly flushed queue is not enumerated.",
 [SS], ["send buffer", "scheduled flush"], ["send_key_sequence", "flush_send_buffer"], ["ServerState::on_send_key", "IClientPort::send_triggered_action"])
prop("C14", "The exit key combination works in every configuration",
 "Pressing left Shift, Escape and K one after another, with no other keyboard key event in between, always requests the exit of the server, whatever is mapped, held or pending, and releases all keys held on the output. No other input ever does.",
 ["histories", "configurations"], "all configurations x all histories before and around the combination",
 "No test covers it with mappings that consume these keys or with pending input.",
 [ST, MS, SS], ["exit sequence position"], ["advance_exit_sequence", "should_exit"], ["ServerState::on_exit_requested", "emitted key events"])
prop("C15", "Replacing the configuration or losing the client releases everything",
 "When a new configuration arrives or the client disconnects, every key held on the output is released, all virtual keys are off, pending timeouts are cancelled and nothing which was triggered under the old configuration is emitted later. From then on the server behaves as if it had been started with the new configuration.",
 ["histories", "crash_points", "configurations"], "all points in a history at which the configuration is replaced or the connection ends",
 "One test replaces the configuration while idle; held keys, pending delays and timeouts at the moment of the change are not covered.",
 [SS, "src/server/unix/main.cpp"], ["server state surviving a reconnect"], ["reset_configuration", "release_all_keys"], ["emitted key events", "behaviour after the reset"])
prop("C16", "Key-info requests and injected keys have exactly the requested effect",
 "After a request for the next key, exactly the next pressed key (of a keyboard or mouse) is reported once with its device and is swallowed, and no other event is affected. An injected input sequence is processed exactly as if typed on a device without name, and an injected output sequence is emitted exactly as given, including its delays.",
 ["histories"], "all positions of such requests in key histories",
 "Tests do not cover these requests at all.",
 [SS], ["pending next-key request"], ["translate_input", "on_inject_input_message", "on_inject_output_message"], ["IClientPort::send_next_key_info", "emitted key events"])
prop("C17", "Key expressions are translated to the documented event sequences",
 "Every input and output expression (sequences, groups, holds, negations, Any, timeouts, strings, ^ and ?) is translated to the event sequence its documentation prescribes, with each pressed key released again in outputs. Every expression outside of the grammar is rejected with an error.",
 ["inputs"], "all token strings of the expression grammar up to a bound, for inputs and outputs",
 "Tests list about a hundred expressions; nesting and combination of operators is unbounded.",
 [PK, "src/runtime/Timeout.h", "src/config/string_iteration.h"], [], ["ParseKeySequence::operator()"], ["parsed sequence or error"])
prop("C18", "A configuration is compiled to mappings and contexts without loss or reordering",
 "Every mapping line of a configuration takes effect in the context and at the position it is written: the first of several mappings of an input comes first, commands resolve to their default or context override, logical modifiers stand for both physical keys, forwarded modifiers and fallthrough contexts act as documented and contexts of other systems have no effect. Invalid configurations are rejected with an error naming the line, never half-applied.",
 ["inputs", "configurations"], "all configurations composed of contexts, stages, mappings, commands, aliases, logical keys and directives up to a bound",
 "Tests list individual configurations; interaction of contexts, stages, overrides, logical key expansion and context optimisation is combinatorial.",
 [PC, "src/config/Config.h"], [], ["ParseConfig", "optimize_contexts", "replace_logical_modifiers"], ["parsed configuration or error"])
prop("C19", "Messages survive any fragmentation of the byte stream",
 "Whatever sizes the pieces have in which the transport delivers the bytes, the receiver processes every message exactly once, completely and in sending order, never acts on an incomplete message, and reports a closed connection, or one with a message of a wrong length, instead of continuing with garbage.",
 ["schedules", "fault_sequences"], "all message sequences x all fragmentations and positions at which the stream breaks off",
 "No test covers the connection code.",
 ["src/common/Connection.h", "src/common/Host.cpp", "src/server/ClientPort.cpp", "src/client/ServerPort.cpp"], ["receive buffer"], ["Connection::read_messages", "Connection::send_message"], ["delivered messages"])
prop("C20", "The server works with exactly the configuration the client parsed",
 "The mappings, outputs, commands, contexts with all their filters and flags, stages, device grab filters, directives and active contexts used by the server are identical to those of the configuration the client has loaded, in the same order. This holds for each transmitted configuration and every later message refers to the configuration most recently sent.",
 ["configurations", "schedules"], "all configurations and context selections which can be sent",
 "Tests construct the server's stages directly from the parsed configuration and bypass the transmission.",
 ["src/client/ServerPort.cpp", "src/server/ClientPort.cpp"], [], ["ServerPort::send_config", "ClientPort::read_messages"], ["configuration received by the server"])
prop("C21", "The client always reports exactly the contexts matching the focused window",
 "After every focus change, configuration update or (de)activation the contexts reported to the server are exactly those whose class, title and path filters accept the focused window, in ascending order; when mapping is deactivated none are. They are reported whenever they change and again after each transmitted configuration.",
 ["histories", "configurations"], "all window filters x all sequences of focus changes, configuration updates and toggles",
 "Tests cover filter evaluation of single contexts only, the client's update logic is untested.",
 ["src/client/ClientState.cpp", "src/config/Config.h", "src/common/Filter.h"], ["active contexts"], ["update_active_contexts", "send_config", "toggle_active"], ["active contexts messages"])
prop("C22", "A failing configuration update leaves the running configuration in effect",
 "When a configuration file cannot be read or parsed, the previously loaded configuration stays completely in effect, for the mappings as well as for the commands executed by actions. When the file (or a file it includes) is changed to a valid one it is loaded and sent exactly once, and an action executes exactly the command which the configuration in effect assigns to it. The options given in the configuration apply, and nothing else is ever executed, whatever the titles of windows contain.",
 ["histories", "fault_sequences"], "all sequences of file modifications (valid, invalid, missing), reload and set-config requests and triggered actions",
 "No test covers the client.",
 ["src/client/ClientState.cpp", "src/client/ConfigFile.cpp"], ["loaded configuration", "recently used configurations"], ["ConfigFile::update", "ClientState::load_config"], ["transmitted configuration", "executed commands"])
prop("C23", "Control requests are answered once, correctly and to the right requester",
 "Each request of a keymapperctl connection is answered exactly once on that connection and in order; reported virtual key states are the current ones, and a connection waiting for a virtual key gets exactly one notification at its next change. Requests naming an unknown key have no effect, names and aliases denote the same key, and a new connection with the same instance id ends the previous one and no other.",
 ["histories", "schedules"], "all interleavings of requests of several control connections with virtual key changes",
 "No test covers the control port.",
 ["src/client/ControlPort.cpp", "src/client/ClientState.cpp"], ["virtual key states", "control connections"], ["ControlPort::read_messages", "on_virtual_key_state_changed"], ["messages on the control connections"])
prop("C24", "Keys sent to virtual devices are well-formed and wheel motion is preserved",
 "Each key sent to the system appears on a virtual device as press, repeats and release in that order, a release goes to the device which has the key pressed, and every batch ends with a synchronization. High resolution wheel motion is passed on completely, with one low resolution step per accumulated detent and the sign preserved, and other events are forwarded unmodified by the device which corresponds to their source.",
 ["histories", "configurations"], "all sequences of key, button, wheel and forwarded events of several devices and device changes",
 "No test covers the virtual devices.",
 ["src/server/unix/VirtualDevicesLinux.cpp", "src/server/unix/GrabbedDevicesLinux.cpp"], ["pressed keys per device", "wheel accumulator"], ["send_key_event", "forward_event"], ["events written to the uinput devices"])
prop("C25", "Exactly the intended devices are grabbed",
 "A device is grabbed if and only if the last grab filter which accepts it says so, or without such a filter when it is a keyboard (or a mouse and mouse mappings exist) by the default rules; the mapper's own virtual devices are never grabbed. Events of a grabbed device are attributed to that device, also after devices are added or removed.",
 ["configurations", "histories"], "all device sets with capabilities x all filter lists x all plug/unplug sequences",
 "No test covers device grabbing.",
 ["src/server/unix/GrabbedDevicesLinux.cpp", "src/common/Filter.h"], ["grabbed devices"], ["evaluate_grab_filters", "update"], ["grab requests to the devices", "device index of events"])
prop("C26", "Devices are returned when a client leaves and the next one is served alike",
 "When the client leaves, or the server is told to end, every key pressed on a virtual device is released, all devices are returned to the system and the virtual devices disappear. A client which connects later is served exactly as the first one would have been, whatever happened before, and the server gives up a connection only when the devices to grab changed.",
 ["histories", "configurations"], "all histories of clients connecting, sending configurations and leaving, with devices plugged in and removed and keys held or output pending meanwhile",
 "No test covers the server's main loop or reconnecting clients.",
 ["src/server/unix/main.cpp", "src/server/ServerState.cpp", "src/server/ClientPort.cpp"], ["client connection", "grabbed devices", "pending output"], ["main_loop", "connection_loop", "read_initial_config", "reset_configuration"], ["grab requests to the devices", "events written to the uinput devices", "connection to the client"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
