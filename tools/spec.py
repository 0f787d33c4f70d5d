"""Single source of the property list: `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note))


L = "content/lib/pyswitch/"
BFS = ("explicit-state model checking: exhaustive breadth-first exploration of the real application in lock-step "
       "with a reference model")
ENUM = "explicit-state model checking: exhaustive enumeration of inputs/histories of the real code against a reference model"

prop("C01", "Every press and release reaches exactly the enabled actions, in order",
     "When a foot switch goes down, every action assigned to it that is enabled when its turn comes is pushed exactly once, in "
     "the order of the configuration; when it goes up, every enabled one is released exactly once. Nothing else ever triggers an "
     "action: no repeated polling, no incoming MIDI traffic, no display update and no other switch.",
     ["histories", "schedules", "configurations"],
     "all sequences of switch edges, enable toggles, polls, updates and MIDI bursts over several switch layouts (incl. nested action lists)",
     "tests press one switch once in a fixed situation; the claim is about every interleaving of edges, polling and traffic",
     [L + "controller/inputs.py", L + "controller/controller.py", L + "controller/actions/__init__.py"],
     [("edge detection", L + "controller/inputs.py: SwitchController.process"), ("main loop", L + "controller/controller.py: Controller.tick")],
     observe=["push()/release() calls of user defined actions"], technique=BFS)

prop("C02", "A press triggers either the short or the hold actions, never both",
     "On a switch with hold actions, a press that is released before the hold time triggers the normal actions once (push and "
     "release) and no hold action; a press lasting longer triggers the hold actions once, and their release with the switch, and "
     "no normal action. With hold repetition enabled, the hold actions repeat for as long as the switch is held and never after. "
     "Every press starts fresh, whatever the timing of earlier presses was.",
     ["schedules", "histories"],
     "all sequences of edges and polls with time steps below, around and above the hold time, for one and two switches, with and without repetition",
     "timing behaviour: tests mock the timer and sample a few schedules",
     [L + "controller/inputs.py", L + "misc.py"],
     [("hold timing", L + "controller/inputs.py: SwitchController.process"), ("period timer", L + "misc.py: PeriodCounter")],
     observe=["push()/release() calls of user defined actions"], technique=BFS)

prop("C03", "Latch, momentary and enable/disable modes toggle state as documented",
     "For every button mode (enable, disable, latch, momentary, inverted momentary, one shot, hold momentary), any sequence of "
     "presses and releases with any timing leaves the function in the state the mode documents: latching toggles once per press, "
     "momentary is active exactly while held, hold momentary latches on short presses and is momentary on long ones. Externally "
     "set state is taken into account by the next press.",
     ["schedules", "histories", "configurations"],
     "all press/release/external change sequences with time steps around the hold time, for all modes",
     "tests run a handful of press sequences per mode",
     [L + "controller/actions/__init__.py"],
     [("push button modes", L + "controller/actions/__init__.py: PushButtonAction.push/release")],
     observe=["state of the action", "state changes reported to the callback"], technique=BFS)

prop("C04", "Every request is answered once, shared, and expires when unanswered",
     "A parameter request produces exactly one message on the wire however many listeners ask concurrently, each asking listener "
     "is informed of every answer until the request ends, and of its termination when no answer arrives within the request "
     "lifetime. A request that timed out never blocks a later one, and parameters depending on another parameter are requested "
     "again whenever that parameter changes, for all of their listeners.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of requests by several listeners, answers, lost answers, unrelated messages and elapsed time, incl. chains of dependent parameters",
     "lost/late answers and interleavings of several listeners are combinatorial; tests drive single requests",
     [L + "controller/client.py"],
     [("request bookkeeping", L + "controller/client.py: Client/ClientRequest"), ("dependencies", L + "controller/client.py: ClientParameterMapping.depends handling")],
     observe=["outgoing MIDI bytes", "listener callbacks", "number of open requests"], technique=BFS)

prop("C05", "Parameters are addressed and encoded exactly as the Kemper protocol says",
     "Setting a parameter to any value of its range sends exactly the bytes the Kemper MIDI protocol defines for it; requesting "
     "it sends the defined request; and an answer for an address updates exactly the parameters at that address with exactly the "
     "transmitted value (numbers 0..16383 or text). Messages for other addresses, functions or kinds change nothing.",
     ["inputs"],
     "every parameter of the catalogue x every value, every 14 bit address x every parameter, all text lengths/characters",
     "tests check single parameters with a few sample values; the address and value spaces are large",
     [L + "controller/client.py", L + "clients/kemper/__init__.py"] + [L + "clients/kemper/mappings/%s.py" % x for x in
      ("amp", "bank", "cabinet", "effects", "fixed_fx", "freeze", "looper", "morph", "pedals", "rig", "rotary", "select", "system", "tempo", "tempo_bpm")],
     [("wire encoding", L + "controller/client.py: ClientParameterMapping.set_value/parse"), ("NRPN addressing", L + "clients/kemper/__init__.py: NRPN_VALUE / KemperNRPNMessage")],
     observe=["outgoing MIDI bytes", "value of the parameter"], technique=ENUM)

prop("C06", "The rig number is assembled only from matching message pairs",
     "The rig number shown and used for all rig/bank dependent functions is the one of the last complete two-part rig "
     "announcement (bank select CC 32 followed by program change) of the device, for every split and repetition of the parts. A lone "
     "part, or foreign messages between or around the parts, never produce another number.",
     ["histories", "inputs", "configurations"],
     "all sequences of first/second parts, repeated and lone parts, foreign messages, waits and updates, for all subsets of the rig number based parameters, until no new state appears",
     "two messages must be combined across time, for several listeners sharing them; tests send the two halves in order",
     [L + "controller/client.py", L + "clients/kemper/mappings/rig.py", L + "clients/kemper/mappings/select.py", L + "clients/kemper/mappings/bank.py"],
     [("two-part parsing", L + "controller/client.py: ClientTwoPartParameterMapping")],
     observe=["values of the parameters", "listener notifications"], technique=BFS)

prop("C07", "Bidirectional communication recovers and never shows stale data",
     "The bidirectional protocol announces itself until the device answers, keeps the session alive before its lease ends, and "
     "detects a silent device within the documented time; then every displayed value is reset and the session is negotiated again, "
     "as often as needed. While connected, every value the device pushes is taken over, no value covered by the protocol "
     "is polled, and values set by the controller are shown at once.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of sense messages, their loss, foreign traffic, parameter changes and waits from 0.2 s to 6 s up to the depth bound, for several lease times",
     "timing and loss of keep-alives; tests step through one scripted session",
     [L + "clients/kemper/__init__.py", L + "controller/client.py"],
     [("session handling", L + "clients/kemper/__init__.py: KemperBidirectionalProtocol"), ("feedback", L + "controller/client.py: BidirectionalClient")],
     observe=["outgoing beacons and requests", "terminations seen by listeners", "parameter values"], technique=BFS)

prop("C08", "MIDI routing delivers every message exactly along the configured routes",
     "Every message received from a MIDI source reaches every target routed from it exactly once, unchanged and in order per "
     "source, and nothing else; messages of the application reach exactly the targets routed from the application. On byte level "
     "messages survive any chunking of the stream, and channels are filtered as configured.",
     ["configurations", "histories", "inputs"],
     "all routing tables over two devices (256) and three devices (32768), all input sequences up to length 4, all splits of message triples at byte level",
     "number of routing tables x traffic patterns; tests use one or two tables",
     [L + "controller/midi.py", L + "hardware/adafruit/AdafruitUsbMidiDevice.py", L + "hardware/adafruit/AdafruitDinMidiDevice.py"],
     [("routing", L + "controller/midi.py: MidiController")],
     observe=["bytes on the outgoing ports", "messages delivered to the application"], technique=ENUM)

prop("C09", "Switches stay responsive and updates happen under any MIDI load",
     "All inputs are polled before every processed MIDI message, a tick processes at most the configured number of messages, "
     "and every updateable is updated once per elapsed update interval, however much MIDI traffic is waiting. No message is "
     "dropped or processed twice, and messages are processed in the order of arrival.",
     ["schedules", "histories", "configurations"],
     "all backlogs 0..34 x limits x numbers of elements x positions of a switch edge in the burst; all histories of bursts, edges and waits to the depth bound",
     "load and timing dependent: unit tests use few messages and a mocked period",
     [L + "controller/controller.py", L + "misc.py"],
     [("main loop", L + "controller/controller.py: Controller.tick"), ("updates", L + "misc.py: Updater")],
     observe=["order of switch polls, MIDI reads and updates"], technique=BFS)

prop("C10", "Paging enables exactly the actions of the selected page",
     "With pagers, an action bound to a page is enabled exactly while that page is selected, whatever the sequence of page "
     "changes was; rotating pagers step through the pages cyclically, direct ones select their page. After each change the "
     "LEDs, labels and page indication are those of the enabled actions, and presses only reach these.",
     ["histories", "configurations"],
     "all sequences of presses, releases, idle times and updates over several pager configurations, until no new state appears",
     "state after arbitrary sequences of page changes; tests check single page changes",
     [L + "clients/local/actions/pager.py", L + "controller/actions/__init__.py"],
     [("paging", L + "clients/local/actions/pager.py: PagerAction"), ("reset", L + "controller/actions/__init__.py: Action.reset")],
     observe=["MIDI messages sent by presses", "LED colours", "label texts and colours"], technique=BFS)

prop("C11", "Switch LEDs are divided among the enabled actions without overlap",
     "For any number of pixels and actions, the enabled LED-using actions of a switch get disjoint segments in their order, the first "
     "one takes the surplus, and all pixels are used whenever there are not more actions than pixels... a setting of colour or brightness changes only "
     "its own segment and never pixels of another switch.".replace("... a", "; a"),
     ["configurations", "inputs"],
     "0..5 pixels x 0..5 actions x every LED usage and enable pattern x single and multi colours x pixel numberings",
     "a combinatorial table; tests have a handful of entries",
     [L + "controller/actions/__init__.py", L + "controller/inputs.py"],
     [("segments", L + "controller/actions/__init__.py: Action segment selection"), ("LED output", L + "controller/inputs.py: SwitchController colors/brightnesses")],
     observe=["pixel colours on the LED driver"], technique=ENUM)

prop("C12", "On/off functions mirror the device in state, messages, LED and label",
     "The state shown for an on/off parameter is the comparison of the last value reported by the device with the reference value, "
     "for every comparison mode, and off when the device does not answer. Presses send exactly the configured on or off "
     "value(s), including restoring the value the device had while off, and LED, brightness, label colour and label text always "
     "show the current state with the configured settings.",
     ["histories", "configurations", "fault_sequences"],
     "all sequences of presses, device side changes, answered and unanswered updates, outages and enable changes over 22 configurations to the depth bound",
     "feedback loop between user, application and device; tests set up single situations",
     [L + "controller/callbacks/__init__.py", L + "controller/actions/__init__.py", L + "clients/kemper/__init__.py"],
     [("evaluation", L + "controller/callbacks/__init__.py: BinaryParameterCallback"), ("state", L + "controller/actions/__init__.py: PushButtonAction")],
     observe=["outgoing MIDI bytes", "LED pixels", "label text and colour"], technique=BFS)

K = L + "clients/kemper/"
prop("C13", "Rig and bank selection leads to the announced rig",
     "For every current rig, a press of a rig or bank selection function makes the Kemper load exactly the rig the function stands for "
     "(selected rig and bank, off rig/bank when it is already selected, next/previous rig or bank with wrap-around, automatically "
     "remembered off rig/bank), the rig button message is sent with 1 on push and 0 on release of the same rig, and labels and LEDs show "
     "the documented current or target bank and rig with the bank colours, also after rig changes made at the device or before it is known.",
     ["inputs", "histories", "configurations"],
     "all 625 rigs x every option combination, and all orders of presses and device side rig changes to the depth bound for switch combinations",
     "625 rigs x options x histories; tests sample a few rigs and check MIDI messages of single actions",
     [K + "actions/rig_select.py", K + "actions/rig_up_down.py", K + "actions/bank_select.py", K + "actions/bank_up_down.py", K + "mappings/select.py", K + "__init__.py"],
     [("rig select", K + "actions/rig_select.py: _KemperRigSelectCallback"), ("rig id", L + "controller/client.py: ClientTwoPartParameterMapping")],
     observe=["MIDI messages and the rig loaded by a simulated device", "LED pixels", "label texts and colours"], technique=BFS)

prop("C14", "A preselected bank is shown until a rig selection applies it",
     "A bank preselected with a switch or the encoder is pending in PySwitch exactly as long as it is in the device: it survives rig "
     "changes at the device, any rig selection applies and ends it (without sending own bank messages), it is shown in the rig name label, by "
     "blinking rig and preselecting switches and by target displays, and these return to normal afterwards.",
     ["histories", "configurations", "time"],
     "all orders of presses, releases, encoder turns, device side rig changes and waiting to the depth bound over 11 combinations of inputs",
     "shared state between several actions; tests check one action at a time with a faked preselection",
     [K + "actions/bank_select_encoder.py", K + "actions/bank_up_down.py", K + "actions/bank_select.py", K + "actions/rig_select.py", K + "actions/rig_up_down.py",
      K + "__init__.py", L + "controller/actions/EncoderAction.py"],
     [("preselection", K + "actions/rig_select.py: push"), ("encoder", K + "actions/bank_select_encoder.py"), ("name label", K + "__init__.py: KemperRigNameCallback")],
     observe=["MIDI messages and preselection/rig of a simulated device", "LED blinking", "rig name label"], technique=BFS)

prop("C16", "Pedals follow the position within the configured range, steps and rate",
     "After every position read, the value sent last by an expression pedal is the position scaled to the parameter's range, right to one "
     "configured step, with zero below the threshold and the maximum at full travel; it only rises with a rising position. No value is sent twice "
     "in a row, more often than the frame rate allows or while disabled, and with auto calibration nothing is sent before the minimum "
     "window has been seen and the range seen so far maps to the full range.",
     ["inputs", "histories", "time", "configurations"],
     "all 65536 positions rising and falling for 16 configurations; all sequences of positions and waiting times to the depth bound, with and without calibration",
     "a numeric function of the whole 16 bit range and of the history of positions seen; tests sample some positions",
     [L + "controller/actions/AnalogAction.py", L + "controller/inputs.py"],
     [("scaling and calibration", L + "controller/actions/AnalogAction.py: process"), ("polling", L + "controller/inputs.py: ContinuousController")],
     observe=["MIDI messages sent", "calls of the transfer function"], technique=BFS)

prop("C17", "Every encoder step changes the value by one step, applied or preselected",
     "Each detent moves the controlled parameter by one step from the value it currently has, also after changes made at the device, limited to "
     "the configured range; nothing is sent at the limits or while disabled. With an accept button, turning only preselects: accept sends the "
     "preselected value once, cancel or a change of the reset parameter drops it, and a preselection does not survive a page it does not belong to.".replace(
         ", and a preselection does not survive a page it does not belong to", ""),
     ["histories", "schedules", "configurations"],
     "all orders of turns, device side changes, button presses, enable changes and updates to the depth bound over 16 encoder configurations",
     "interplay of turns, feedback from the device and buttons; tests check single turns",
     [L + "controller/actions/EncoderAction.py", L + "controller/inputs.py", L + "clients/local/actions/encoder_button.py"],
     [("steps", L + "controller/actions/EncoderAction.py: process"), ("buttons", L + "clients/local/actions/encoder_button.py: ENCODER_BUTTON")],
     observe=["MIDI messages sent", "parameter values"], technique=BFS)

prop("C18", "Value previews show the adjusted value and then give the label back",
     "A label used as preview display shows the value adjusted last (blinking while it is only preselected) until the timeout after the last "
     "change, accept or cancel, and then shows the current content of the label in its original colour, including changes of that content "
     "made meanwhile. Inputs sharing a label do not disturb each other beyond the last one winning.",
     ["histories", "time", "configurations"],
     "all orders of turns, buttons, content changes, reset parameter changes and waiting to the depth bound over 10 configurations with one and two encoders",
     "depends on the timing of turns against timeouts and content changes; tests check a few timelines",
     [L + "controller/preview.py", L + "controller/actions/EncoderAction.py", L + "ui/elements.py"],
     [("preview", L + "controller/preview.py: ValuePreview"), ("label", L + "ui/elements.py: DisplayLabel")],
     observe=["label text and text colour"], technique=BFS)

LA = L + "clients/local/actions/"
prop("C19", "Parameter up/down switches move the parameter by every step they make",
     "Each press of a PARAMETER_UP_DOWN switch, and each repetition while it is held, moves the parameter by the configured offset from its current "
     "value, also when changed at the device, limited to the range; nothing is sent at the limits. Repetition starts and stops exactly with the switch, "
     "also across page changes, and the parameter is followed when its value is lost or not yet known. A preview display shows the adjusted value.",
     ["histories", "schedules", "configurations"],
     "all orders of presses, releases, updates, device side changes, lost answers and page changes to the depth bound over one and two switches",
     "depends on how steps, answers and updates interleave; tests check single steps",
     [LA + "param_change.py", L + "controller/preview.py"],
     [("up/down", LA + "param_change.py: PARAMETER_UP_DOWN")],
     observe=["MIDI messages and parameter value of a simulated device", "preview label"], technique=BFS)

prop("C20", "Message switches send exactly the configured messages, in their rotation",
     "Rotating message switches send one message per press in the configured order, wrapping around, and show text, colour and brightness of the message "
     "sent last; custom message, HID and Boomerang switches send exactly their configured messages or keys on press, release and hold, "
     "whatever other messages arrive. Fixed texts show exactly the configured text and colours, on every page they are shown.",
     ["histories", "configurations"],
     "all orders of presses, releases, page changes and incoming messages to the depth bound over all kinds of message switches",
     "rotation state is shared with pages and messages; tests check a single rotation",
     [LA + "rotate.py", LA + "custom.py", LA + "hid.py", LA + "fixed_text.py", L + "clients/boomerang/actions/boomerang.py"],
     [("rotation", LA + "rotate.py"), ("custom", LA + "custom.py")],
     observe=["MIDI messages", "keyboard calls", "label texts, colours, LEDs"], technique=BFS)

prop("C15", "In tuner mode switches only end the tuner; afterwards all is back to normal",
     "While the device reports the tuner engaged, the tuner display is shown and a switch pressed ends the tuner when released, doing nothing else "
     "unless processing of overridden actions is configured; when the tuner ends, by switch or at the device, the previous display is shown again "
     "and every switch does again what it did before. LEDs show the state of their functions again after a strobe tuner released them.",
     ["histories", "schedules", "time", "configurations"],
     "all orders of presses, releases, waiting, parameter changes, tuner changes at the device and late reports to the depth bound over 1 and 2 switches of every kind",
     "mode change racing with held switches, hold timers and late reports of the device; tests switch the mode once",
     [L + "controller/inputs.py", L + "controller/controller.py", K + "__init__.py", K + "actions/tuner.py"],
     [("override", L + "controller/inputs.py: override_action"), ("tuner display", K + "__init__.py: TunerDisplayCallback")],
     observe=["MIDI messages", "displayed root element", "LEDs"], technique=BFS)

prop("C21", "The morph button and its displays follow the morph state of the device",
     "The morph button sends the morph press on push and release as the device expects it and shows the colour between base and morph sound that "
     "belongs to the morph value of the device; a rig selection with morph state shows it for the selected rig only and toggles or holds the morph as "
     "configured when its rig is selected already. It stays right over rig changes, page changes and lost answers.",
     ["inputs", "histories", "configurations"],
     "all 16384 morph values; all orders of presses, releases, device side changes, lost answers and page changes to the depth bound over single and combined displays",
     "the display is fed by two independent values whose reports interleave with presses; tests check single reports",
     [K + "actions/morph.py", K + "actions/rig_select_and_morph_state.py", K + "actions/rig_select.py", K + "mappings/morph.py"],
     [("morph", K + "actions/morph.py: KemperMorphCallback"), ("rig select", K + "actions/rig_select_and_morph_state.py")],
     observe=["MIDI messages", "LED and label colours"], technique=BFS)

prop("C22", "Effect slots show the family and state of the effect in the slot",
     "An effect slot, effect button or fixed effect shows the name and colour of the effect type the device reports for it and its on/off state by "
     "brightness; an empty slot is shown as empty and dark. Pressing sends the command that toggles exactly this slot or effect. All this holds for every "
     "effect type, in any order of type and state reports, over rig and page changes, polled and bidirectional.",
     ["inputs", "histories", "schedules", "configurations"],
     "all 16384 type values for all naming options; all orders of type and state changes, presses, rig and page changes and lost answers to the depth bound",
     "type and state are separate parameters answered independently; tests check a few types with fixed order",
     [L + "controller/callbacks/effect_enable.py", K + "actions/effect_state.py", K + "actions/effect_state_extended_names.py",
      K + "actions/effect_button.py", K + "actions/fixed_fx.py"],
     [("type and state", L + "controller/callbacks/effect_enable.py: EffectEnableCallback"), ("families", K + "actions/effect_state.py")],
     observe=["MIDI messages", "label text and colour", "LED colour and brightness"], technique=BFS)

prop("C23", "Display areas are divided without overlap, loss or spill",
     "Taking a strip from an area (top, bottom, left, right) yields a part and a rest which together cover exactly the original area without overlap; the non-taking variants leave "
     "the area unchanged and yield the same part. A split container distributes its area over its children in their order so that "
     "each child lies inside, no children overlap, all have the same size up to rounding, empty places take no space, and this holds in whatever order the containers are built and nested.",
     ["inputs", "histories", "configurations"],
     "all small areas, all amounts and sides, all removal sequences; all containers with 0-9 children at many widths, nested, in all building orders",
     "integer division and rounding for every size; tests use round numbers",
     [L + "ui/ui.py", L + "ui/layout.py", L + "ui/DisplaySplitContainer.py"],
     [("areas", L + "ui/ui.py: DisplayBounds"), ("split containers", L + "ui/DisplaySplitContainer.py: DisplaySplitContainer")],
     observe=["bounds of areas and elements"], technique=BFS)
prop("C24", "The right screen is shown: all its elements initialised once and updated",
     "At any time exactly the element tree chosen by the display callback is on the screen (each label drawn exactly once, at its position, in order); every element of a tree is "
     "initialised exactly once, when it is shown first, no matter how often screens are switched; exactly the updateable elements of the "
     "shown tree are updated every period; the connection indicator is shown in the colour of the current protocol state, or hidden when there is no protocol.",
     ["histories", "configurations"],
     "all orders of screen-switching parameter changes, foreign values, updates and connection losses over element trees of several shapes",
     "switching between screens back and forth in any order, with late initialisation",
     [L + "ui/ui.py", L + "ui/UiController.py", L + "ui/elements.py"],
     [("UI controller", L + "ui/UiController.py: UiController"), ("indicator", L + "ui/elements.py: BidirectionalProtocolState")],
     observe=["displayed tree, texts", "calls of init and update", "indicator colour"], technique=BFS)
prop("C33", "A display label shows what was set last, with readable contrast",
     "A label always draws the text set last (or the overriding text while one is set, or the value of its parameter), wrapped to the configured width, centered in its area "
     "at the configured scale, over the background set last reduced by the stroke; if no text colour is given, text is white on dark and black on "
     "bright backgrounds; setting attributes before or after the label is first shown makes no difference; with too little memory left the warning is shown instead of texts.",
     ["inputs", "histories", "configurations"],
     "all orders of setting texts, colours, overrides, parameter changes, losses and initialisation over 40 layouts; all background colours on a grid",
     "history of setters interleaved with (late) initialisation; the whole colour cube",
     [L + "ui/elements.py"], [("labels", L + "ui/elements.py: DisplayLabel")],
     observe=["drawn text, position, colours"], technique=BFS)

prop("C26", "The tuner shows the reported note and deviance; the strobe follows its sign",
     "The tuner display shows the name of the note the device reports, in the in-tune colour exactly when the deviance is inside the calibrated window, and "
     "the marker at the position proportional to the deviance, always inside the display. The strobe moves over the switches in the direction and speed "
     "of the deviance, stands still in tune, and gives the LEDs back when the tuner is switched off.",
     ["inputs", "histories", "time", "configurations"],
     "all 16384 deviance values rising and falling and all 128 notes over 12 layouts; all orders of deviance reports, waiting and tuner off/on over 11 strobe settings",
     "a numeric function of the full input range plus a timed animation; tests sample both",
     [L + "ui/elements.py", L + "controller/strobe.py", K + "__init__.py"],
     [("tuner display", L + "ui/elements.py: TunerDisplay"), ("strobe", L + "controller/strobe.py: StrobeController")],
     observe=["label texts and colours, marker position", "LED colours and brightness"], technique=BFS)

prop("C27", "Whatever the web configurator offers works on the device",
     "Every action, mapping and display callback listed by the web configurator exists on the device with the parameters and defaults shown; with every offered value of every parameter (and every combination of two) "
     "the device starts and survives any use and any change at the amplifier without error, with valid colours and texts, sending only valid messages; parameters which describe the look (texts, colours, use of LEDs) change "
     "nothing but that look, and LEDs which are not to be used stay untouched.",
     ["inputs", "configurations", "histories"],
     "all entries of the definitions; all values offered for each parameter, all pairs of values; 13 operations each, and all sequences of two operations for single values",
     "offered values x pairs x histories; the tests use hand-picked parameters",
     ["web/htdocs/definitions", K + "actions", L + "clients/local/actions", K + "mappings", K + "callbacks"],
     [("catalogue", "web/htdocs/definitions/actions.json"), ("values", "web/htdocs/definitions/meta.json"), ("actions", K + "actions"), ("local actions", L + "clients/local/actions")],
     observe=["exceptions", "messages sent", "texts, colours"], technique=ENUM)
prop("C28", "Labels show the current rig name, rig number and parameter values",
     "A rig name label shows name and/or number of the rig currently loaded at the device, in the configured variant, after any order of rig changes, renaming, lost answers and "
     "connection losses, with and without bidirectional protocol; the default text is shown when the name is unknown. Parameter labels show the last reported value in "
     "the configured conversion, or the default text; tempo and volume conversions are right for every value.",
     ["inputs", "histories", "configurations"],
     "all orders of rig changes, renaming, lost answers, disconnection and reconnection over all label variants; all 625 rigs; all 16384 tempo values; whole volume range",
     "histories with lost answers and reconnection; tests inject single values",
     [K + "__init__.py", K + "callbacks/convert_volume.py", K + "callbacks/tempo_bpm.py", L + "controller/callbacks/parameter_display.py"],
     [("rig name", K + "__init__.py: KemperRigNameCallback"), ("parameter labels", L + "controller/callbacks/parameter_display.py: ParameterDisplayCallback"),
      ("conversions", K + "callbacks/convert_volume.py: convert_volume")],
     observe=["label texts"], technique=BFS)
prop("C31", "Tempo displays follow beat and tempo; the tap button sends each tap",
     "The tempo LED is lit with the beat and dark between beats in the configured colour and brightness, the tempo label shows the current tempo of the device, also after "
     "page changes and after the tuner; a tempo change made while the same rig is loaded is shown shortly in the preview label and then disappears; "
     "every press and release of the tap button sends its message.",
     ["inputs", "histories", "time", "configurations"],
     "all orders of beats, tempo and rig changes, tuner, page changes, losses, taps and waiting; all 16384 tempo values",
     "state shared between LED, label, preview, tuner and pages over long histories",
     [K + "actions/tempo.py", L + "controller/preview.py", K + "mappings/tempo.py", K + "mappings/tempo_bpm.py"],
     [("tempo display", K + "actions/tempo.py: SHOW_TEMPO"), ("tap", K + "actions/tempo.py: TAP_TEMPO")],
     observe=["LED colours", "label texts", "messages sent"], technique=BFS)

prop("C25", "Explore mode shows the pin of every pressed switch and lights every LED",
     "In explore mode, on any board and whichever pins can't be used, every usable pin is listened to; pressing a switch shows the name of its pin, and steps "
     "the highlighted LED triplet by one so that every LED of the strip can be lit and its number is shown; pins in use do not stop the start.",
     ["histories", "configurations"],
     "all orders of pressing and releasing up to 4 switches on boards with 1-30 pins and several sets of pins in use",
     "start on any board and any order of pressed switches; tests use two switches and stand-ins",
     [L + "controller/explore.py", L + "process.py"],
     [("explore mode", L + "controller/explore.py: ExploreModeController"), ("start", L + "process.py")],
     observe=["texts on the screen", "LED colours", "pins claimed"], technique=BFS)
prop("C29", "Inputs, LEDs, MIDI ports and display are wired as the device is",
     "For every supported device, each named input reacts to its own pin and to no other, lights its own LEDs, and has its own place in the strobe ring; "
     "pedals and encoders cover the whole range of their values; display, LED strip and serial port are opened on the pins of the device; with each of the shipped MIDI routings every message "
     "from USB, DIN or the application reaches exactly the ports its description says, unchanged and in order.",
     ["inputs", "histories", "configurations"],
     "all pins in all pairs, all pedal positions, encoder ranges; all sequences of messages over all shipped routings at byte level",
     "wiring tables and transports are mocked away in the tests",
     [L + "hardware/devices", L + "hardware/adafruit", L + "process.py", "examples/MIDICaptain MIDI Routings"],
     [("devices", L + "hardware/devices/pa_midicaptain_10.py"), ("drivers", L + "hardware/adafruit/AdafruitSwitch.py"), ("start", L + "process.py"),
      ("routings", "examples/MIDICaptain MIDI Routings")],
     observe=["messages at the ports", "LED colours", "pins claimed"], technique=ENUM)
prop("C32", "The device always starts the right firmware; USB drive by start-up switch",
     "The USB drive is enabled at boot exactly as configured and by the documented switch; the start script always starts PySwitch, and the multi boot scripts always start the firmware chosen by "
     "the pressed switch, or the one chosen last where it is remembered, also after a power loss at any moment of any earlier boot, with all pins released before.",
     ["crash points", "histories", "faults"],
     "all sequences of boots with all pressed switches, power loss at every file operation (also torn writes), read-only drive, to the fixpoint",
     "crash points and histories of boots; the start scripts are not covered by tests at all",
     ["content/boot.py", "content/code.py", "examples/Multiboot"],
     [("boot", "content/boot.py"), ("start", "content/code.py"), ("multi boot", "examples/Multiboot")],
     observe=["firmware started", "USB drive state", "saved file"], technique=BFS)
prop("C34", "Every shipped configuration runs, and what it shows follows the amplifier",
     "With each configuration shipped (default, templates, examples) the complete firmware starts, claims each pin once, and survives every sequence of operations of switches, pedals, encoders and of changes at the device "
     "without error; all colours and texts are valid and on the screen, the rig name shown is the one selected; after any changes made at the amplifier the screen and LEDs are "
     "those of a freshly started device with the amplifier in the same state.",
     ["histories", "configurations", "faults"],
     "49 configurations; all sequences of two operations (switches, pedals, encoders, device changes, loss of the device); all sequences of three changes at the device against a fresh start",
     "the whole system with real configurations and histories; tests check single classes",
     [L + "process.py", "content/inputs.py", "content/display.py", "content/communication.py", "web/htdocs/templates", "examples"],
     [("start", L + "process.py"), ("default", "content/inputs.py"), ("templates", "web/htdocs/templates"), ("examples", "examples")],
     observe=["texts, colours", "messages sent", "exceptions"], technique=ENUM)
prop("C30", "Paging changes nothing but what is visible",
     "Two ready-made functions which share a switch and label on two pages behave as if each had a switch and label of its own: after any order of operations, page changes and changes at the device, the device is in the same state, "
     "and switch LEDs and label show exactly what the function of the current page would show with a switch and label of its own; a function on a hidden page neither sends, nor writes to labels or LEDs.",
     ["histories", "configurations"],
     "52 variants of ready-made functions in all pairs; all sequences of operations, page changes and device changes up to the depth; with and without bidirectional protocol",
     "pairs of functions over histories; the tests enable and disable single actions",
     [L + "controller/actions", L + "clients/local/actions/pager.py", L + "controller/callbacks/__init__.py", K + "actions", K + "callbacks"],
     [("pages", L + "clients/local/actions/pager.py"), ("actions", L + "controller/actions/__init__.py: Action"), ("callbacks", L + "controller/callbacks/__init__.py: Callback"),
      ("bank preselect", K + "actions/rig_select.py")],
     observe=["label texts and colours", "LED colours", "device state"], technique=ENUM)
prop("C35", "The web configurator saves what was loaded, with exactly the requested edit",
     "Opening a configuration in the web configurator and saving it gives files which mean the same: the same inputs, actions, parameters, labels and custom code, with shared objects still shared, and the device starts with them and shows and sends "
     "the same; every edit (adding, replacing, removing, moving and reordering actions, changing parameters, hold options and labels) changes exactly what was asked for, in any order of edits, and the saved files always start.",
     ["inputs", "histories", "configurations"],
     "all single edits at all inputs and labels of the shipped and hand written configurations, dependent sequences of edits; saved files executed and booted",
     "source to source transformation of any configuration by any sequence of edits; the Python tests do not cover it",
     ["web/htdocs/python/parser", "web/htdocs/js/model", "web/htdocs/js/PySwitchRunner.js"],
     [("parser", "web/htdocs/python/parser/PySwitchParser.py"), ("model", "web/htdocs/js/model/parser/Parser.js"), ("file list", "web/htdocs/js/PySwitchRunner.js")],
     observe=["objects made by the saved files", "texts, colours, messages after the start"], technique=ENUM)
