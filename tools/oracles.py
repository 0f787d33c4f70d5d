"""Oracle per property for DESIGN.md (what the reference model is, where it comes from)."""
ORACLE = {
"C01": "recording actions on every switch; model = set of levels and enable flags: expected call log of each edge is the list of actions enabled at their turn. Nothing may be logged outside edges.",
"C02": "model of one press: start time, hold time, repeat; a poll at or after the hold time fires hold actions once (or every hold time with repetition), release decides short/long; polls between timer boundaries accept no alternative. The time of a poll is the only time the firmware can know.",
"C03": "state machine per documented mode (README table of modes); device feedback overrides the state; hold momentary decided by press duration.",
"C04": "model of request slots: parameter -> listeners, start time; bytes on the wire are matched one to one; answers are injected as bytes. At the exact lifetime boundary no event is placed.",
"C05": "independent address table (`checks/kmap.py`, from the Kemper MIDI parameter documentation) -> expected bytes; decoding checked on every parameter for every address at once, so foreign addresses must leave all other parameters unchanged.",
"C06": "last complete pair (CC 32 value, then program change) -> 128*cc+pc, everything derived from it; model keeps only the pending first part.",
"C07": "protocol model: time of last beacon, last sense message, connected flag, with the documented lease times and tolerances; values known to listeners must be reset after a loss.",
"C08": "routing model = the table; expected output = concatenation per target of the routed inputs in order; DIN and USB transports at byte level with partial reads.",
"C09": "access log of polls, reads, updates; rules on the log: all inputs polled between any two reads, number of reads <= limit+1, each updateable exactly once per elapsed interval.",
"C10": "selected page per pager (by ID, cyclic), enabled set = predicate of page; LEDs, labels computed from the enabled actions' configuration; presses must reach exactly these.",
"C11": "direct formula of the segments from number of pixels and enabled LED users; neighbours untouched.",
"C12": "simulated device holding the parameter (answers now, late, never, refuses, changes by itself); shown state = comparison of the last report.",
"C13": "simulated Kemper with 125 banks x 5 rigs incl. rig button and bank select messages; expected rig from the option semantics; label text format and bank colours.",
"C14": "the same device with pending preselection; PySwitch's pending bank must equal the device's; rig name label, blinking and target displays from it.",
"C15": "device with tuner mode and (optionally delayed) reports; model of held switches at mode changes; root element of the display; functions must work normally after it.",
"C16": "scaling formula with a tolerance of one configured step + monotonicity + rate rule; calibration window model.",
"C17": "model of value (device and last known), preselection, limits; every detent moves it by a step.",
"C18": "model of the label: content, preview text, timeout since last change, blinking phase where documented.",
"C19": "device with parameter (answers, late answers, loss); each step counted from the latest value PySwitch can know.",
"C20": "rotation index per switch; exact messages/keys, label texts and LED colours of the last message.",
"C21": "device with morph value and state per rig; colour interpolation between base and morph colour within rounding; toggle/momentary semantics.",
"C22": "device with types and states per slot and per rig; family table of effect types from the Kemper documentation; empty slot rule; polled and bidirectional.",
"C26": "note names, in-tune window, linear marker position formula; strobe: position advanced in direction of the sign with speed by magnitude; LED owner restored after the tuner.",
"C23": "set arithmetic on pixels: part and rest must be disjoint and their union the original area; containers: children inside, disjoint, in order, equal shares up to one pixel.",
"C24": "model: chosen tree from the last parameter value; drawn labels of that tree computed from its specification; counters of init and update calls per element.",
"C33": "model of the last set text, override, parameter value and colours; drawing read from the displayio stand-ins (absolute position, text, colours); luminance formula for contrast with tolerance at the threshold.",
"C27": "signatures read from the code (inspect) against the definitions; the whole firmware booted with a generated configuration per choice against the simulated device: no exception, valid colours/texts/messages, rig name; for parameters of the look: the same run with the reference value must send and show the same apart from that look. Not demanded: text mappings for numeric functions, 7 bit mappings with larger values, rig_off with a bank but without bank_off, several LEDs without colour lists in ROTATING_MESSAGES.",
"C28": "simulated device (`checks/kdev.py`) with rig names, dates, parameters and optional bidirectional protocol; expected text from the device's current state, default text after the device stopped answering.",
"C31": "model of last beat, device tempo, preview (text, time shown) and tuner/page state; previews which may or may not be shown (tempo change together with a rig change or while hidden) are accepted both ways.",
"C25": "list of usable pins of the board and position of the highlighted triplet; expected text and LEDs after each press.",
"C30": "differential: the real code with both functions on their own switch, LEDs and label without pages, driven by the same operations (only the function visible is operated); device state and look of the visible function compared.",
"C29": "wiring tables written down independently per device (pin, LEDs, ring position); MIDI values by linear formula with tolerance; routing matrix per shipped routing from its name and description; both ports compared at byte level.",
"C32": "set of firmwares which may start without switch = last completed choice plus choices interrupted by a power loss; a disk model with crash points before, within and after each write.",
"C34": "no exception, valid colours and positions, rig name equals the simulated amplifier's; convergence: display and LEDs compared to a second run of the real firmware started with the amplifier already in the final state.",
"C35": "the original file is executed with recording stand-ins (every call, attribute and shared object becomes a node), the edit is performed on these objects, the saved file is executed the same way and both object graphs are compared (imports by where the name is really defined); the saved files are then booted with the whole firmware; opening and saving: same LEDs, texts and messages, and saving again changes nothing.",
}
