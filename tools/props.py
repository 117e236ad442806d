#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No byte sequence from the serial port can crash frame decoding",
  "Decoding any non-empty sequence of bytes received from the controller (Decode), any frame beginning with a start byte (NewMessage) and any payload handed to a payload decoder returns normally. It never panics, whatever the declared lengths, sub-lengths, function codes or trailing bytes are; malformed content is reported as an error.",
  ["inputs"],"every byte buffer, including truncated frames, declared lengths that disagree with the content, length arithmetic that wraps, and bytes following the frame",
  "TestDecode/TestNewMessage feed about fifteen hand-written well-formed frames; no test has a short frame with a valid checksum, a lying sub-length or an ACK followed by other bytes",
  ["serialapi/message.go","serialapi/application_command_handler.go","serialapi/discovery_nodes.go","serialapi/get_node_protocolinfo.go","commands/reports/report.go"],
  [("length checks before indexing","serialapi/message.go Decode/NewMessage"),("length checks of the payload decoders","commands/reports/*.go")],["return of Decode/NewMessage","panic"])

p("C02","Frame boundaries and checksum verdict are exact",
  "For a buffer starting with SOF the decoder asks for more data exactly while the buffer is shorter than the declared length plus two, and otherwise consumes exactly declared length plus two bytes if and only if the final byte equals the complement of the XOR of the preceding bytes after SOF, and reports an invalid frame (-1 with an error and no message) if not. ACK, NAK and CAN bytes consume exactly one byte and are classified as exactly that; any other first byte is reported as not a frame (-1, no message).",
  ["inputs"],"every buffer of every length and every declared length 0..255",
  "tests check a handful of frames, one bad checksum and two truncated prefixes",
  ["serialapi/message.go"],[("Decode","serialapi/message.go"),("GenerateChecksum","serialapi/message.go")],["length, message and error returned by Decode"])

p("C03","Decoding a frame neither alters the buffer nor reads past the frame",
  "Decoding leaves every byte of the caller's receive buffer unchanged, also when the checksum is wrong. The result for a complete frame depends only on the bytes of that frame: appending any further bytes after it changes neither the consumed length nor the decoded message nor the error outcome.",
  ["inputs"],"every frame and every sequence of bytes that may follow it in the receive buffer",
  "every test buffer ends exactly with its frame and is not inspected afterwards",
  ["serialapi/message.go","serialapi/get_node_protocolinfo.go"],[("slicing of the frame out of the buffer","serialapi/message.go Decode")],["buffer content after Decode","message decoded with and without following bytes"])

p("C04","Every outgoing payload is framed so that the receiver recovers it",
  "For every payload of up to 252 bytes the compiled frame is SOF, a length equal to payload length plus two, a zero request byte, the payload unchanged, and a checksum that the decoder accepts, and decoding it consumes exactly the whole frame. The caller's payload bytes are not modified.",
  ["inputs"],"every payload content and every length 0..252",
  "one two-byte payload is tested",
  ["serialapi/message.go"],[("CompileMessage","serialapi/message.go"),("GenerateChecksum","serialapi/message.go")],["bytes returned by CompileMessage"])

p("C05","The receive loop recovers every frame however the bytes are chunked",
  "When a byte stream made of noise bytes (anything but a start byte), corrupted frames (wrong checksum, no further start byte inside) and valid frames arrives without pauses, every valid frame is handled exactly once and in order, whatever the boundaries of the individual reads, and a corrupted frame or noise byte costs none of the valid frames that follow it. If more than 40 ms pass between two reads, the incomplete remainder of the earlier read is discarded and the next frame is received cleanly.",
  ["inputs","histories","schedules"],"every chunking of the stream, every frame content, every noise/corruption before a frame, every inter-read delay",
  "TestConnect delivers each frame in exactly one read with no noise; resynchronisation is never exercised",
  ["connection.go","serialapi/message.go"],[("incomming buffer, 40 ms age check, drop-one-byte resync","connection.go Reader")],["reports delivered by the receive loop","bytes written to the port"])

p("C06","Each received frame is acknowledged exactly once, and only frames are",
  "For every valid data frame received (also one with an unknown function or undecodable content) exactly one ACK byte is written to the port; nothing is written in response to ACK, NAK, CAN, noise bytes, incomplete frames or frames with a bad checksum.",
  ["inputs","histories"],"every received byte stream within the bound",
  "TestConnect only looks at two acknowledged frames",
  ["connection.go"],[("conn.readWriteCloser.Write([]byte{0x06})","connection.go Reader")],["bytes written to the port"])

p("C07","Message header and application-command fields are decoded from the frame",
  "For every valid frame with a supported function, the decoded message carries the frame's length, type and function. For an application command it carries the sending node, the command class and command and a report decoded from exactly the sub-length bytes of the command; an unsupported function yields an error and no message.",
  ["inputs"],"every frame content",
  "the tests do not compare any decoded field of a message",
  ["serialapi/message.go","serialapi/application_command_handler.go"],[("NewMessage","serialapi/message.go"),("NewApplicationCommandHandler","serialapi/application_command_handler.go")],["Message returned by Decode"])

p("C08","Node discovery bitmap and protocol info are decoded exactly",
  "In a discovery response bit b of bitmap byte i (at most 29 bytes, at least 6) marks exactly node index 8*i+b as active, and indexes without a bit are inactive. A protocol-info response decodes listening (0x80), routing (0x40), version (low three bits plus one), 40000 baud if and only if bits 0x38 equal 0x10 and else 9600, flirs (0x60), beaming (0x10), security (0x01) and the basic, generic and specific class bytes; shorter payloads give an error.",
  ["inputs"],"every payload up to the protocol maximum",
  "one bitmap and four info payloads are tested",
  ["serialapi/discovery_nodes.go","serialapi/get_node_protocolinfo.go"],[("NewDiscoverdNodes","serialapi/discovery_nodes.go"),("NewGetNodeProtocolInfo","serialapi/get_node_protocolinfo.go")],["decoded struct"])

p("C09","Reports are recognised and decoded exactly; anything else is an error",
  "A report is produced only for the supported (command class, command, length) combinations and is of the matching kind: switch binary v1/v2, switch multilevel v1/v4 (values capped at 100, 0xFE marked not valid), alarm (short and long form), manufacturer specific (three big-endian words as four lower-case hex digits), multi-channel end points (flags and count) and wake-up, each field taken from its byte. Every other combination, and every payload too short for its kind, gives an error; either a usable report or an error is returned, never neither.",
  ["inputs"],"every command class, command and payload",
  "the tests check single payloads per report",
  ["commands/reports/report.go","commands/reports/alarm.go","commands/reports/switch_binary.go","commands/reports/switch_multilevel.go","commands/reports/manufacturer_specific.go","commands/reports/multi_instance_endpoint.go","commands/reports/wakeup.go"],
  [("New","commands/reports/report.go"),("New* constructors","commands/reports/*.go")],["report and error returned"])

p("C10","Sensor readings decode to the transmitted value, type and unit",
  "A multilevel sensor report of size 1, 2 or 4 decodes to the signed big-endian integer in its value bytes divided by ten to the power of the precision bits, with size, scale and precision taken from their bit fields. The type name and unit depend only on the sensor type and scale and are those of the sensor table; a payload shorter than two bytes plus the declared size is an error.",
  ["inputs"],"every sensor payload: all types, scales, precisions, sizes and value bytes",
  "tests use the value 1 with precision 0 for each type; no negative values, no precision, no size 1/2 value check",
  ["commands/reports/sensor_multi_level.go"],[("NewSensorMultiLevel","commands/reports/sensor_multi_level.go")],["fields of the decoded report"])

p("C11","Set-commands carry the requested value to the requested node",
  "A binary-switch set encodes the requested node and 0xFF for on or 0x00 for off in the fixed send-data layout. A multilevel set encodes the requested node and a level that is always within 0..99: the integer part of the requested value, 0 for anything below 1 (or not a number) and 99 for anything above 99. A raw command encodes the node, the payload length plus one and the payload unchanged.",
  ["inputs"],"every node id 0..255, every float64 value including NaN and infinities, every raw payload",
  "five level values and two switch values with one node id are tested",
  ["commands/SwitchBinary.go","commands/SwitchMultilevel.go","commands/raw.go"],[("SetValue/SetNode/Encode","commands/*.go")],["bytes returned by Encode"])

p("C12","Commands to an endpoint are wrapped without losing anything",
  "Encapsulating a send-data command for an endpoint keeps the function byte and node id, increases the declared length by four, inserts the multi-channel encapsulation header with exactly the given endpoint id, and keeps every following byte in order. Encoding twice gives the same bytes and does not alter the wrapped command.",
  ["inputs"],"every command of at least three bytes and every endpoint id",
  "one four-byte message is tested",
  ["commands/MultiChannelEncap.go"],[("Encode","commands/MultiChannelEncap.go")],["bytes returned by Encode"])

p("C13","Transition durations decode as specified for every byte",
  "A duration byte 0..127 is that many seconds, 128..253 is that byte minus 127 minutes, and 254 and 255 give an error; the textual form is the duration's text or the error's text.",
  ["inputs"],"all 256 values",
  "six values are tested",
  ["commands/duration.go"],[("Duration","commands/duration.go")],["returned duration and error"])

p("C14","A reply only ever completes the request it answers",
  "A received frame completes a pending request only if it carries the request's function (or is an application command answering a send-data request) and, unless it is a protocol-info reply, comes from the addressed node and has the requested command class and, where one was given, the expected report id; a protocol-info reply, which names no node, answers the oldest pending protocol-info request only; frames too short to carry these never match and never crash. A frame that satisfies all of these does complete the request.",
  ["inputs"],"every pending request and every received frame",
  "TestSendPackageMatch checks five frames against one request, none of them short",
  ["connection.go"],[("sendPackage.Match, MatchByteAt","connection.go"),("newSendPackage","connection.go")],["result of matching; reply handed to the requester"])

p("C15","Every timed request ends: with its reply, or closed, and never crashes",
  "A caller that sends a request with a timeout always gets a result: the matching reply if one arrives in time (whenever the caller looks for it), otherwise its channel is closed when the timeout has passed or at once when the controller answers NAK. This holds for every interleaving of the caller with the send, receive and timeout workers and for every reply content, including replies that cannot be decoded; no interleaving panics, closes a channel twice or leaves the caller waiting for ever.",
  ["schedules","inputs","fault_sequences"],"every interleaving at synchronisation points, every controller answer (ACK, NAK, CAN, none, garbage, undecodable or valid reply) and its timing",
  "the only test performs one request with an immediate well-formed reply",
  ["connection.go"],[("returnChan, Close, IsOpen","connection.go"),("timeoutWorker","connection.go")],["result channel of the request","process crash"],
  [("inFlight","requests waiting for a reply","connection.go")])

p("C16","One command at a time, in order; CAN resends it, NAK fails it",
  "The next command is written to the port only after the controller has answered the previous one with ACK, NAK or CAN, or after one second without an answer. Commands from one sender are written in the order sent and with their bytes unchanged; a command answered with CAN is written again, unchanged; a command answered with ACK or NAK is not.",
  ["schedules","fault_sequences","histories"],"every sequence of controller answers and answer delays within the bound",
  "tests send one command at a time and always answer ACK",
  ["connection.go"],[("Writer, lastResult, lastCommand","connection.go"),("CAN resend","connection.go Reader")],["bytes written to the port and their times"])

p("C17","Reports reach exactly the node that sent them",
  "Every decodable application command received from the controller is delivered exactly once, with the node id of the frame, and changes the state of the node with that id and of no other node; reports from unknown nodes are ignored without effect or crash.",
  ["inputs","histories"],"every node id and report content",
  "no test delivers a report to a node",
  ["connection.go","controller.go"],[("reportCallback","connection.go Reader"),("DeliverReportToNode","controller.go")],["StateBool/StateFloat of the nodes"])

p("C18","Node state reflects the last report and each change is announced",
  "After a switch, multilevel, sensor or alarm report the node's observable state equals what the report says (on = value is on / greater than zero, level = reported level, sensor value under the lower-case key type_unit; an active alarm sets alarm, its type and last type and clears alarm again after one second), other state keys are untouched, and every state change is announced by exactly one update event carrying the node's id. Reports without state never change it, and the node is never left locked.",
  ["inputs","histories"],"every report content and prior state",
  "no test covers node state at all",
  ["nodes/node.go"],[("ProcessEvent","nodes/node.go")],["StateBool, StateFloat, pushed events"])

p("C19","On, Off and Level send exactly the supported command to this node",
  "On, Off and Level on a node or on an endpoint write exactly one command, addressed to that node and (for an endpoint) encapsulated for that endpoint: a binary-switch set if the node supports binary switch (On/Off only), otherwise a multilevel set if it supports multilevel switch, with on as level 99, off as 0 and Level as the clamped value; if the node supports neither, nothing is sent.",
  ["inputs","configurations"],"every node id, endpoint id, set of command classes and level",
  "no test calls these",
  ["nodes/commands.go","nodes/endpoints.go"],[("On/Off/Level, HasCommand","nodes/commands.go nodes/endpoints.go nodes/node.go")],["commands written to the connection"])

p("C20","An endpoint number always means that endpoint",
  "After a node has reported n endpoints, looking up endpoint k returns the endpoint whose id is k for every 1 <= k <= n and nothing for any other number, never crashing; commands to it are addressed to endpoint k of that node. The same holds after the node was restored from the configuration.",
  ["inputs"],"every reported endpoint count and every looked-up number, including zero, negative and too large",
  "no test covers endpoints",
  ["nodes/endpoints.go","nodes/request_endpoints.go","nodes/list.go"],[("Endpoint","nodes/endpoints.go"),("RequestEndpoints","nodes/request_endpoints.go")],["return value of Endpoint, ids of Endpoints"])

p("C21","An identified node has its identity and all of its command classes",
  "When identification of a node ends, the node carries the protocol info and manufacturer data it reported, the brand, product and description of the matching device-database entry, and its command classes are the mandatory classes of its device class plus those of its database entry, none lost and none duplicated by retries; its awake state equals its listening flag, and its states have been requested if it has classes with states. Identification never alters the shared class tables, so nodes do not influence each other.",
  ["inputs","histories","fault_sequences"],"every reply content and every pattern of failed requests within the bound",
  "no test runs identification to its end",
  ["nodes/node.go","database/commandclasses.go"],[("Identify","nodes/node.go")],["Node fields after Identify"])

p("C22","Sleeping nodes are only spoken to while awake",
  "During identification of a node that does not listen permanently, no manufacturer, endpoint or state request is sent before the node has announced a wake-up, or more than ten seconds after its last one, also when a part of the identity is known from the stored configuration; after a wake-up the identification proceeds, and for a listening node it proceeds at once. Protocol info, which the controller answers itself, is requested without waiting.",
  ["schedules","histories","inputs"],"every order of wake-ups and identification steps within the bound",
  "no test covers wake-up",
  ["nodes/node.go"],[("isAwake, WakeUp handling","nodes/node.go")],["requests written to the connection"])

p("C23","Discovery registers exactly the active nodes, once each",
  "After a discovery response every active node other than the controller itself (index 0) is present in the node list exactly once under its own id, with one discovery event, and no inactive node is added; nodes already known (for example restored from the configuration) are kept as they are and not announced again. An announced or listed node can be used at once. An absent or wrong response adds nothing and does not crash.",
  ["inputs"],"every discovery bitmap and every set of already known nodes within the bound",
  "TestConnect discovers a single node with one bitmap",
  ["controller.go","nodes/list.go"],[("getNodes, initNode","controller.go")],["Controller.Nodes","event queue"])

p("C24","The node list can be used from several goroutines",
  "Any concurrent mix of adding, looking up and listing nodes completes without deadlock and without unsynchronised access to the list's map, a lookup after an add returns the added node, and a listing handed to the caller is not changed or invalidated by later additions.",
  ["schedules"],"every interleaving at synchronisation points of concurrent list operations",
  "no test uses the list concurrently",
  ["nodes/list.go"],[("List RWMutex","nodes/list.go")],["return of Get/All, deadlock, concurrent map access"])

p("C25","Saved configuration restores every node",
  "Saving the configuration and loading it again, in a new process, gives the same nodes with the same ids, identification data, command classes, endpoints and states, wired to the new connection and announced once each (as long as the event queue holds them). A restored node behaves like the original: it accepts every report and every command.",
  ["histories","inputs","configurations"],"every set of nodes and node contents within the bound",
  "no test saves or loads a configuration",
  ["controller.go","nodes/list.go","nodes/node.go"],[("SaveConfigurationToFile, LoadConfigurationFromFile","controller.go"),("List.MarshalJSON/UnmarshalJSON","nodes/list.go")],["nodes after loading"])

p("C26","A crash or failure while saving never loses the stored configuration",
  "At every crash point during a save (process killed or power lost) the configuration file holds either the complete previous or the complete new configuration, never a truncated or mixed one; if the save cannot be completed the previous file stays as it was and the failure is reported to the caller.",
  ["crash_points","fault_sequences"],"a crash or an I/O error at every file operation of a save",
  "no test saves, let alone crashes",
  ["controller.go"],[("SaveConfigurationToFile","controller.go")],["content of the configuration file"])

p("C27","No configuration file content can crash start-up or later use",
  "Loading any readable configuration file, including an empty, foreign or hand-edited one with missing or null members, either restores nodes or reports an error, without crashing; every restored node can then process every report, be listed, looked up and commanded without crashing.",
  ["inputs","configurations"],"every JSON document shape up to the bound (members absent, null, empty or present)",
  "no test loads a configuration",
  ["controller.go","nodes/list.go","nodes/node.go"],[("loadConfigurationFromFile","controller.go"),("List.UnmarshalJSON, Add","nodes/list.go")],["panic"])

p("C28","A device-database lookup returns the device asked for",
  "For every manufacturer, product type and product id a node can report, the lookup returns either nothing or a device whose recorded manufacturer, type and id are exactly those asked for, freshly made so that callers cannot influence each other; every device of the database is found under its own ids. The mandatory command classes returned for a generic and specific device class are those recorded for exactly that pair, and none for an unrecorded pair.",
  ["inputs"],"all 2^48 identifier triples and all 2^16 device-class pairs",
  "no test touches the database",
  ["database/devices.go","database/commandclasses.go","database/mandatory.go"],[("New","database/devices.go"),("GetMandatoryCommandClasses","database/commandclasses.go")],["returned device and classes"])

p("C29","A serial recording contains the bytes that crossed the port, in order",
  "Recording is transparent: reads and writes return what the port returned and pass the same bytes. Each read and write is recorded once with its direction and exactly the bytes transferred, in the order in which they happened, even if the caller reuses its buffer immediately afterwards.",
  ["schedules","inputs","histories"],"every sequence of reads and writes within the bound, every interleaving with the log writer, buffer reuse",
  "TestWriteToLog records one row with a private buffer",
  ["serialrecorder/serialrecorder.go"],[("Read, Write, writeToLog, logWriter","serialrecorder/serialrecorder.go")],["rows encoded to the logger"])

p("C30","Converting a recording to hex loses no bytes",
  "For every recording, the bytes printed for each direction are, in order, exactly the recorded bytes of that direction; rows less than a millisecond apart are joined and others are not, and no recorded row is dropped. With both directions printed, a line whose rows all come before those of another line is printed before it.",
  ["inputs","histories"],"every sequence of rows (directions, timestamps, data) within the bound",
  "the command has no tests",
  ["cmd/serialrecordingtohex/serialrecordingtohex.go"],[("logRowCombiner","cmd/serialrecordingtohex/serialrecordingtohex.go")],["printed rows"])

p("C31","The connection survives port failures",
  "When the port fails the connection reports itself disconnected, closes the port and is opened again after one second, for ever; after any number of reconnects there is still exactly one send worker and one receive worker, so commands are sent one at a time and every command sent after the reconnect reaches the new port. A failure to open the port for the first time is returned to the caller.",
  ["fault_sequences","histories"],"every pattern of open and read failures within the bound",
  "only a failing first open is tested",
  ["connection.go","gozwave.go"],[("Connect, Writer, Reader","connection.go"),("reconnect loop","gozwave.go")],["Connected, bytes written to the ports"])

p("C32","A slow or absent event consumer never stalls the network",
  "Events are queued for the consumer in order, and when the queue is full further events are dropped rather than blocking: processing of reports, discovery and identification never waits for the consumer.",
  ["schedules","histories"],"every number of events and every consumer speed",
  "no test reads or neglects the event queue",
  ["controller.go"],[("pushEvent","controller.go")],["event queue; progress of ProcessEvent"])

p("C33","Every update is eventually saved",
  "When a configuration file is in use, ten quiet seconds after any sequence of node updates the file has been written with the state of that moment, and further updates lead to further saves; no update is forgotten. Saving never collides with reports that arrive at the same time.",
  ["schedules","histories"],"every timing of updates within the bound",
  "no test covers the save worker",
  ["controller.go"],[("saveDebouncer, pushEvent","controller.go")],["writes of the configuration file"])

p("C34","Function and command names are unambiguous",
  "The textual name of a serial function or command class identifies it: no two codes share a non-empty name, and the exported constant of that name has that code.",
  ["inputs"],"all 256 codes of both enumerations",
  "the tests enumerate the known names but not the unknown codes or the constants",
  ["serialapi/types.go","commands/constants.go"],[("String","serialapi/types.go commands/constants.go")],["returned names"])

p("C35","Generated device code compiles to the device data it was made from",
  "For every text (without NUL characters) in the device database, the escaped form placed between quotes in the generated source is one string literal that denotes exactly the original text; product references and lookup keys keep the ids: every reference in the database has one lookup case and one device (that of the first file that has it), with the command classes of the first end point, the parameters and their options or ranges. Every command-class label of the specification text is mapped to the class it names, or to none if the library has no such class, and the generated table of mandatory classes lists exactly the classes that the specification text gives for a device class, whatever text of the known form it is made from.",
  ["inputs"],"every string and every label",
  "the generator's tests do not compile at this commit",
  ["generators/database/database.go","generators/commandclasses/commandclasses.go","database/mandatory.go","database/mandatory.txt"],[("escaper","generators/database/database.go"),("StringToByte","generators/commandclasses/commandclasses.go")],["escaped text; mapped class"])

p("C36","The library may be used from several goroutines at once",
  "While the controller receives reports, discovers and identifies nodes, saves its configuration and reconnects, a program may use nodes, endpoints, the node list, the connection, event queue and saving from any goroutines through their methods: no two accesses to the same memory, one of them a write, are unsynchronised (no data race), and nothing crashes or deadlocks. The same holds for the recording port.",
  ["schedules","histories"],"every schedule within the bound",
  "the tests run without a race detector and use one goroutine; a race shows only on particular interleavings",
  ["connection.go","controller.go","nodes/node.go","nodes/commands.go","nodes/endpoints.go","serialrecorder/serialrecorder.go"],[("Writer, Reader, timeoutWorker","connection.go"),("HasCommand, isAwake, Identify, ProcessEvent","nodes/node.go"),("Open, Read, Write","serialrecorder/serialrecorder.go")],["pairs of memory accesses without a happens-before order"])

p("C37","Requests for a node ask exactly what is meant",
  "Requesting the protocol info, the manufacturer data, the end points or the states of a node writes requests that name this node and no other: protocol info as function 0x41, manufacturer data as class 0x72 command 0x04, end points as class 0x60 command 0x07, and for states, per command class of the node and in their order, binary switch 0x25/0x02, multilevel switch 0x26/0x02 and multilevel sensor 0x31/0x01, nothing for other classes. For protocol info, manufacturer data and end points the caller gets the content of the reply to its own request; no reply, an undecodable one, a reply of another kind or a failing connection is an error and nothing of the node is replaced by it. A node whose command classes are unknown is not asked for end points.",
  ["inputs","fault_sequences"],"every node id, class list, reply content and failure within the bound",
  "the tests use one fixed node and well-formed replies",
  ["nodes/node.go","nodes/commands.go"],[("RequestProtocolInfo, RequestManufacturerSpecific, RequestEndpoints, RequestStates","nodes/node.go nodes/commands.go")],["bytes written to the port; returned value and error"])

p("C38","The text of a report shows its values",
  "The printed form of a report shows the values of that report: on/off state, level or unknown, target and transition duration for switches; value with six decimals, type and unit for sensors; all fields in hexadecimal for alarms; the three ids for manufacturer data; flags and number for end points.",
  ["inputs"],"every payload of every report kind within the bound",
  "no test prints a report",
  ["commands/reports/*.go","commands/duration.go"],[("String","commands/reports/*.go")],["returned text"])

p("C39","Nothing is left behind",
  "What has ended is gone: after a failed Connect the library does not touch the port again; after every request has ended - by its reply, a refusal, a resend or its timeout, read by the caller or not - after reports, alarms and saves, and after any number of port failures and reconnects the library runs no more goroutines than before, and every failed port has been closed once.",
  ["histories","fault_sequences","schedules"],"every history within the bound",
  "the tests end before anything could linger",
  ["connection.go","gozwave.go","controller.go","nodes/node.go"],[("ConnectWithCustomPortOpener","gozwave.go"),("Writer, Reader, timeoutWorker, WriteAndWaitForReport","connection.go"),("pushEvent, saveDebouncer","controller.go")],["number of goroutines (runtime.NumGoroutine), calls of the port opener"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
