#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

LIB, DEV, SES, APP, PKT = "src/lib.rs", "src/device.rs", "src/session.rs", "src/app_config.rs", "src/packets.rs"
HTTP, POS = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs"

p("C01", "No client behaviour can stop the server or starve other clients",
  "Whatever packets a UCI client sends (malformed, truncated, with unknown opcodes, in any device or session state) and whenever it or its peers disconnect or lose the write side, the Pica event loop keeps running. Other connected clients keep getting correct responses and new clients can still connect, reset and be served. A well framed packet (known message type) does not cost the sender its own connection either.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every byte content of well framed UCI packets, every interleaving of clients, every disconnect or broken-sink point, including the instant of a ranging tick",
  "The tests drive two well behaved clients through one happy path each; no malformed packet, no disconnect in the middle of a session, no tick racing with a command.",
  [LIB, DEV, SES, APP],
  [("event loop dispatches every command without panicking", "src/lib.rs Pica::run / Pica::pica_command"),
   ("malformed commands are answered, malformed data packets ignored", "src/device.rs Device::receive_packet"),
   ("connection task reports its end so that state is cleaned", "src/lib.rs Pica::add_device")],
  ["liveness of the Pica::run future", "responses of a second and of a fresh client"])

p("C02", "Every command gets exactly one response, in order, with its GID and OID",
  "After the first CORE_DEVICE_RESET, every complete command packet gets exactly one response carrying the same GID and OID, in the order of the commands; an unknown or unsupported GID is answered with the single status byte UNKNOWN_GID (0x07), and an unknown or unimplemented OID, or a malformed payload, with the single status byte UNKNOWN_OID (0x08). Before the first reset, any other command of a known GID is answered by exactly one CORE_DEVICE_STATUS_NTF(ERROR) instead and has no effect. Response and notification packets received from the host produce no output and no effect.",
  ["inputs", "histories"],
  "all GID/OID/payload combinations, well formed or not, in all device states, alone or pipelined in bursts",
  "The tests only send a dozen well formed commands, one at a time, after a reset.",
  [DEV, LIB, "src/uci_packets.pdl"],
  [("dispatch on GID/OID and error responses", "src/device.rs Device::receive_command, Device::receive_packet"),
   ("reset gate", "src/device.rs Device::receive_command (is_reset)")],
  ["packets written to the client's sink"])

p("C03", "Sessions follow the FiRa lifecycle with exact statuses and notifications",
  "A session exists from a successful SESSION_INIT to SESSION_DEINIT (or device reset or disconnection), starts in INIT, moves to IDLE on the first accepted configuration, to ACTIVE on SESSION_START from IDLE only and back to IDLE on SESSION_STOP from ACTIVE only; a command not allowed in the current state, on an unknown session, on a duplicate identifier or beyond 255 sessions is refused with its documented status and changes nothing. SESSION_GET_STATE and SESSION_GET_COUNT always report exactly this state, and every state transition, and nothing else, produces exactly one SESSION_STATUS_NTF with the new state and the reason code.",
  ["histories", "inputs"],
  "all sequences of session commands over any session identifiers (32 bits), up to and beyond 255 sessions, with other sessions and devices alive",
  "The tests run init, configure, start, stop, deinit once each for one session; refusals, duplicates, limits and longer histories are never reached.",
  [DEV, SES],
  [("session commands", "src/device.rs session_init, session_deinit, session_start, session_stop, session_get_state, session_get_count"),
   ("state transitions send notifications", "src/session.rs Session::set_state"),
   ("MAX_SESSION", "src/device.rs")],
  ["SESSION_*_RSP and SESSION_STATUS_NTF packets"],
  [{"name": "Session.state", "meaning": "INIT/IDLE/ACTIVE", "where": "src/session.rs"}])

p("C04", "Device is ACTIVE exactly while it has an active session",
  "After a reset the device state is READY; it is ACTIVE exactly while at least one of its sessions is ACTIVE and READY otherwise, whatever made the session start or stop (start, stop, deinit, in-band stop from a peer, emptied multicast list, reset). Each change, and only a change, is announced by exactly one CORE_DEVICE_STATUS_NTF with the new state, a new connection and every reset being announced as READY. CORE_GET_CONFIG(DEVICE_STATE) reports the current state.",
  ["histories"],
  "all histories mixing several sessions on several devices with every way of starting and stopping a session",
  "Tests have a single session per device, so any miscount of active sessions is invisible.",
  [DEV, LIB, SES],
  [("active session count", "src/device.rs n_active_sessions in session_start/stop/deinit"),
   ("in-band stop", "src/lib.rs Pica::stop_controlee_ranging"),
   ("device status notification", "src/device.rs Device::set_state")],
  ["CORE_DEVICE_STATUS_NTF", "CORE_GET_CONFIG_RSP"],
  [{"name": "Device.n_active_sessions", "meaning": "number of ACTIVE sessions", "where": "src/device.rs"}])

p("C05", "CORE_DEVICE_RESET returns a device to its initial state",
  "Whatever happened before, a CORE_DEVICE_RESET is answered OK, followed by exactly one DEINIT SESSION_STATUS_NTF per existing session and one CORE_DEVICE_STATUS_NTF(READY); afterwards no ranging or data notification of an earlier session is ever sent. From then on the device is indistinguishable, through its UCI interface, from a newly connected device that was reset (no sessions, default device and application configuration, ranging counts at 0), while its handle and address are kept.",
  ["histories"],
  "any history of the device (configured, ranging, with queued data, with peers) before the reset, and any continuation after it",
  "Tests only reset a fresh device.",
  [DEV, SES],
  [("device is rebuilt from scratch", "src/device.rs Device::core_device_reset"),
   ("sessions stop their task and notify when dropped", "src/session.rs impl Drop for Session")],
  ["all packets of the client after the reset, compared with a fresh device"])

p("C06", "Sessions and devices do not interfere with each other",
  "Commands for one session never change the state, configuration, counters, queued data or notifications of another session of the same device, and nothing a device does (commands, malformed packets, reset, connection, disconnection) changes what another device observes. The only cross-device effects are those of the protocol: ranging and data exchange between sessions with the same identifier, and the in-band stop of a removed controlee.",
  ["histories", "schedules"],
  "all interleavings of the histories of several devices and sessions, including equal session identifiers on different devices and identifiers differing in a single bit",
  "Tests never look at one client while another one does something unrelated.",
  [LIB, DEV, SES],
  [("sessions are keyed by device handle and session id", "src/lib.rs Pica::uci_packet, src/device.rs sessions map"),
   ("per-device state", "src/device.rs struct Device")],
  ["packet streams of the other clients with and without the interfering commands"])

p("C07", "Application configuration is atomic, gated by state and read back exactly",
  "SESSION_SET_APP_CONFIG is accepted only in INIT (then moving the session to IDLE) or ACTIVE (AOA_RESULT_REQ excepted), only when the mandatory parameters end up present, and only if every parameter is supported and well formed; otherwise nothing changes and the response names exactly the invalid parameters (empty list when refused for another reason). SESSION_GET_APP_CONFIG returns, for every supported parameter that is set, exactly the last accepted value or the FiRa default, and fails with an empty list if any requested parameter is unsupported or unset.",
  ["inputs", "histories"],
  "all parameter identifiers and values (valid, invalid, wrong length), in all orders and groupings, in all session states, over sequences of set and get commands; also the AppConfig set/get API directly",
  "Unit tests set one fixed configuration; values, orders, errors and read-back of the 60 parameters are not exercised.",
  [APP, DEV],
  [("parse and store one parameter", "src/app_config.rs AppConfig::set"),
   ("read one parameter", "src/app_config.rs AppConfig::get"),
   ("copy, check, then commit", "src/device.rs session_set_app_config")],
  ["SESSION_SET_APP_CONFIG_RSP, SESSION_GET_APP_CONFIG_RSP", "AppConfig::set / AppConfig::get"])

p("C08", "Device configuration and capability commands report the device truthfully",
  "CORE_SET_CONFIG applies every valid parameter of the command and reports exactly the invalid ones (READ_ONLY for DEVICE_STATE, INVALID_PARAM for unknown identifiers), and is rejected without effect while the device is ACTIVE. CORE_GET_CONFIG returns the current value of all requested parameters, or INVALID_PARAM with exactly the unknown ones and empty values. CORE_GET_DEVICE_INFO, CORE_GET_CAPS_INFO, ANDROID_SET_COUNTRY_CODE and ANDROID_GET_POWER_STATS answer OK in every device state, always with the same well formed content: the versions (UCI 2.0, MAC 1.3.0, PHY 1.3.0, test 1.1) and the list of capabilities the controller is documented to have, and zero power statistics.",
  ["inputs", "histories"],
  "all lists of parameters (known, unknown, repeated, odd lengths), in READY and ACTIVE state",
  "Tests never call CORE_SET_CONFIG or CORE_GET_CONFIG with more than one parameter nor in the ACTIVE state.",
  [DEV],
  [("device configuration", "src/device.rs core_set_config, core_get_config"),
   ("device information", "src/device.rs core_get_device_info, core_get_caps_info, DEFAULT_CAPS_INFO")],
  ["CORE_*_RSP and ANDROID_*_RSP packets"])

p("C09", "Multicast list updates edit the controlee list exactly as reported",
  "SESSION_UPDATE_CONTROLLER_MULTICAST_LIST is refused (NOT_EXIST, REJECTED or SYNTAX_ERROR) without effect unless the session exists, is IDLE or ACTIVE, is a controller in one-to-many mode and the payload is well formed. Otherwise controlees are processed in order: each added one is appended once unless already present or the list already holds 8 or more, each removed one is deleted if present, sub-session keys are refused unless STS_CONFIG is 4, and the response lists a status per controlee and an overall status consistent with them. The DST_MAC_ADDRESS and NUMBER_OF_CONTROLEES parameters read back afterwards are exactly the edited list and its length.",
  ["inputs", "histories"],
  "all sequences of updates with all four actions, list lengths around the limit, duplicate and unknown addresses, malformed payloads, in every session state",
  "The multicast test adds and removes one or two controlees.",
  [DEV],
  [("list update", "src/device.rs session_update_controller_multicast_list"),
   ("MAX_NUMBER_OF_CONTROLEES", "src/device.rs")],
  ["SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_RSP", "SESSION_GET_APP_CONFIG_RSP"])

p("C10", "Removing controlees stops exactly the right sessions",
  "When a controlee is removed from the list of a session and IN_BAND_TERMINATION_ATTEMPT_COUNT is not 0, exactly the ACTIVE sessions with the same identifier whose device address is the removed one become IDLE with reason SESSION_STOPPED_DUE_TO_INBAND_SIGNAL and stop ranging; nothing else is stopped, and nothing at all when the count is 0 or the address was not in the list. A removal in ACTIVE state also produces one SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_NTF listing the removed controlees. If the list becomes empty an ACTIVE session becomes IDLE with reason ERROR_INVALID_NUM_OF_CONTROLEES, stops ranging, and can be started again.",
  ["histories"],
  "all sets of devices sharing session identifiers and addresses, all removal commands, all attempt counts",
  "The multicast test has one controlee and never checks who else is affected, nor what happens afterwards.",
  [DEV, LIB, SES],
  [("in-band stop", "src/lib.rs Pica::stop_controlee_ranging"),
   ("removal and empty list", "src/device.rs session_update_controller_multicast_list")],
  ["SESSION_STATUS_NTF and SESSION_INFO_NTF of all the devices"])

p("C11", "Active sessions range at their configured interval with consecutive counts",
  "While a session is ACTIVE with notifications enabled, it emits one SESSION_INFO_NTF per RANGING_DURATION milliseconds, the first one RANGING_DURATION after the start, and none in any other state: once the response to a stop, deinit or reset, or the notification of another stop, is received no more is sent until the next start. Sequence numbers start at 0 and increase by 1 per notification over the whole life of the session, including stops and restarts; SESSION_GET_RANGING_COUNT returns the number of notifications sent. With SESSION_INFO_NTF_CONFIG set to 0 none is sent and the count does not change.",
  ["histories", "schedules"],
  "all ranging intervals, all start/stop/restart/reconfigure sequences, several sessions and devices at once, commands landing on any instant relative to a tick",
  "Tests wait for a couple of notifications in real time and do not check when, how many, or that they stop.",
  [DEV, LIB, SES],
  [("ranging task", "src/device.rs session_start"),
   ("ranging round", "src/lib.rs Pica::ranging"),
   ("task stop", "src/session.rs Session::stop_ranging_task")],
  ["SESSION_INFO_NTF with virtual time stamps", "SESSION_GET_RANGING_COUNT_RSP"])

p("C12", "Ranging reports exactly the compatible peers and anchors, with right values",
  "Each SESSION_INFO_NTF contains exactly one measurement per anchor named in the session's DST_MAC_ADDRESS and per other device whose session with the same identifier is ACTIVE, has a different role and type, and where each side's list contains the other's DEVICE_MAC_ADDRESS, provided the estimator gives a result in both directions. Distance, azimuth and elevation are the estimator's values from the local device to the peer, the destination angles those from the peer to the local device (negative angles in two's complement), and the address is the peer's (short or extended according to the session's address mode).",
  ["inputs", "histories", "configurations"],
  "all scenes of devices and anchors, all role/type/address configurations, all estimator results including none, before and after peers start, stop, reconfigure or vanish",
  "The ranging test has one compatible pair and an estimator that always returns the same default.",
  [LIB, APP],
  [("compatibility", "src/app_config.rs AppConfig::is_compatible_for_ranging, src/device.rs can_start_ranging"),
   ("measurement construction", "src/lib.rs make_measurement, Pica::ranging")],
  ["SESSION_INFO_NTF packets"])

p("C13", "In-band data is delivered once, in order, to the right receivers",
  "Application data sent on a ranging-and-in-band-data session is acknowledged by SESSION_DATA_CREDIT_NTF(available) and, at the sender's following ranging rounds, delivered to exactly the other devices whose session with the same identifier is an ACTIVE in-band-data session with the responder role, if the sender's is ACTIVE with the initiator role: the delivered bytes are the queued bytes, in order, exactly once, with the session identifier and the sender's address. Data on an unknown session, on a session of another type, or a received-data packet sent by the host is refused by SESSION_DATA_TRANSFER_STATUS_NTF with status 4, 5 or 7 and is never delivered; malformed data packets are ignored.",
  ["inputs", "histories"],
  "all message sizes from 0 to beyond 65535 queued bytes, all sequences of messages and rounds, all combinations of session types, roles and states of several devices",
  "The data transfer test sends one or two fixed small buffers between one pair.",
  [LIB, DEV, SES],
  [("queue", "src/session.rs Session::data_message_snd"),
   ("delivery", "src/lib.rs Pica::ranging"),
   ("roles", "src/device.rs can_start_data_transfer, can_receive_data_transfer")],
  ["DATA_MESSAGE_RCV, SESSION_DATA_CREDIT_NTF, SESSION_DATA_TRANSFER_STATUS_NTF packets"])

p("C14", "Outgoing messages are segmented losslessly within the size limits",
  "Every message to a client is written as one or more packets with the same MT, GID and OID, each with a length field equal to its payload size and a payload of at most 255 bytes for control and 1024 bytes for data packets, all but the last being marked incomplete and the last complete. Concatenating the payloads gives the message exactly, and packets of different messages are never interleaved.",
  ["inputs"],
  "all message lengths, in particular multiples of the limits and one off them, for responses, notifications and data",
  "Tests reach at most two or three sizes, none at a boundary.",
  [LIB, PKT],
  [("segmentation", "src/lib.rs Pica::write_routine"),
   ("limits", "src/packets.rs MAX_CTRL_PACKET_PAYLOAD_SIZE, MAX_DATA_PACKET_PAYLOAD_SIZE")],
  ["packets written to the client's sink"])

p("C15", "Incoming packets are framed and reassembled regardless of chunking",
  "The result of sending a sequence of UCI packets over TCP depends only on the bytes, not on how they are split into writes; a control message sent in several segments is handled exactly like the same message in one packet, and consecutive packets sent together are handled separately and in order. Closing the connection inside a packet or a segmented message has no effect other than the disconnection. Control packets use an 8 bit length and data packets a 16 bit length.",
  ["inputs", "schedules", "crash_points"],
  "all splits of a byte stream into TCP writes, all segmentations of control messages, all truncation points, data packets up to 65535 bytes",
  "Tests write each packet in one call and never segment.",
  [PKT, LIB],
  [("packet framing", "src/packets.rs uci::read"),
   ("reassembly", "src/lib.rs Pica::read_routine")],
  ["responses on a TCP connection"])

p("C16", "Anchor and device identities are unique and consistent",
  "Handles given to devices and anchors are never reused during the life of the environment, and the addresses of simultaneously existing anchors and devices are distinct. Creating an anchor fails with DeviceAlreadyExists exactly when the address belongs to an existing anchor or device and otherwise returns a new handle; destroying one returns its handle exactly when an anchor with that address exists and DeviceNotFound otherwise, never affecting a device.",
  ["histories"],
  "all interleavings of anchor creations and destructions (short and extended addresses, colliding with device addresses) with connections and disconnections",
  "No test creates an anchor.",
  [LIB],
  [("anchor commands", "src/lib.rs Pica::create_anchor, Pica::destroy_anchor, Pica::get_category"),
   ("handle counter", "src/lib.rs Pica::counter, Pica::add_device")],
  ["results of the CreateAnchor/DestroyAnchor commands", "PicaEvent::Connected"])

p("C17", "Every connection is announced once and its loss once",
  "Each accepted connection produces exactly one Connected event with a new handle and, whenever the peer closes its input or its output fails, exactly one Disconnected event with the same handle and address, which follows it; after it the device takes part in nothing (no ranging with it, its address is free). Connections are otherwise never dropped.",
  ["histories", "fault_sequences"],
  "all interleavings of connections, closures of the read side, failures of the write side, and traffic, with or without a usable trace directory",
  "Tests do not observe events and never disconnect in the middle of something.",
  [LIB],
  [("connect and disconnect", "src/lib.rs Pica::add_device, Pica::disconnect"),
   ("event broadcast", "src/lib.rs Pica::send_event")],
  ["PicaEvent broadcast", "ranging results of the peers"])

p("C18", "The pcapng trace is valid and contains exactly the exchanged packets",
  "With a trace directory set, each connection gets its own file device-<handle>.pcapng that is, at any quiescent point, a well formed pcapng file (section header, one interface of link type 293, enhanced packet blocks with matching leading and trailing lengths). Its packet blocks are exactly the UCI packets received from and written to that client, byte for byte, each direction in order, and timestamps do not decrease.",
  ["inputs", "histories"],
  "all packet sizes (all residues modulo 4, segmented messages, data packets), all numbers of clients",
  "No test enables tracing.",
  ["src/pcapng.rs", LIB],
  [("block writer", "src/pcapng.rs File::create, File::write"),
   ("call sites", "src/lib.rs Pica::read_routine, Pica::write_routine")],
  ["device-<handle>.pcapng files"])

p("C19", "Addresses parse and print consistently",
  "A string is accepted as an address exactly when, after removing ':' and '%3A' separators, it is 4 or 16 hexadecimal digits, which then are the 2 or 8 address bytes in order; anything else is an error, never a panic. Printing gives upper case two digit groups joined by ':' and parsing that gives the same address back, through Display, String and serde alike. The byte vector of an address is its bytes and its integer value is their little endian reading.",
  ["inputs"],
  "all strings and all short and extended addresses",
  "Unit tests have a handful of examples.",
  ["src/mac_address.rs"],
  [("parsing", "src/mac_address.rs TryFrom<String>"), ("printing", "src/mac_address.rs From<&MacAddress> for String, Display"),
   ("conversions", "src/mac_address.rs From for u64 and Vec<u8>")],
  ["MacAddress public API"])

p("C20", "Range, azimuth and elevation match the geometry of the scene",
  "For any two positions the range is the Euclidean distance (to within one unit, capped at 65535), the same in both directions, and azimuth and elevation are those of the other device seen in the local frame given by yaw, pitch and roll, to within rounding of one degree of direction; results always lie in [-180,180] and [-90,90]. Translating both positions changes nothing, and no position makes the computation fail.",
  ["inputs"],
  "all 16 bit coordinates and all yaw, pitch and roll values, including coincident and axis aligned positions",
  "Unit tests use about thirty hand computed positions, with rotations about one axis at a time.",
  [POS],
  [("geometry", "src/bin/http-server/position.rs Position::new, compute_range_azimuth_elevation, azimuth, elevation")],
  ["compute_range_azimuth_elevation", "neighbor-updated events of pica-http"])

p("C21", "The HTTP interface maintains exactly the requested scene",
  "After any sequence of HTTP requests and UCI connections, get-state lists exactly the connected UCI devices and the existing anchors with their category, address and last set position and orientation. create-anchor succeeds (200) exactly when the address is free and answers 409 otherwise, destroy-anchor succeeds exactly when such an anchor exists and set-position (or init-uci-device) exactly when such a device or anchor exists, answering 404 otherwise; malformed addresses or positions are answered 406, unknown paths 404, and refused requests change nothing.",
  ["histories", "inputs"],
  "all sequences of requests with valid and invalid arguments mixed with UCI connections and disconnections, with and without event subscribers",
  "No test starts the HTTP server.",
  [HTTP, POS, LIB],
  [("request routing and handlers", "src/bin/http-server/main.rs http_request, Context::http_*"),
   ("scene", "src/bin/http-server/main.rs Context.devices")],
  ["HTTP responses of pica-http"])

p("C22", "HTTP events replay to the same scene that get-state reports",
  "Every subscriber of /events receives, as well formed server-sent events, exactly the changes made after it subscribed, in order: device-added, device-removed and device-updated events which, applied to the scene at subscription, give the scene reported by get-state, whether the change came from HTTP or from a UCI connection. Each position update is followed by exactly two neighbor-updated events per other device, one in each direction, with the distance and angles of the new positions. Refused requests produce no event and a leaving subscriber affects nobody.",
  ["histories", "inputs"],
  "all sequences of scene changes with any number of subscribers joining and leaving",
  "No test starts the HTTP server.",
  [HTTP, POS],
  [("event broadcast", "src/bin/http-server/main.rs Context::http_events, http_set_position, http_create_anchor, handle_connection_events")],
  ["/events stream of pica-http"])

p("C23", "The Rust UCI packet codec round-trips and never panics",
  "Encoding any well formed UCI packet and decoding the bytes gives the same packet, with the field layout of the UCI specification (little endian, explicit counts). Decoding arbitrary bytes either fails cleanly or gives a packet that re-encodes to the same bytes up to reserved bits; it never panics and never reads past the declared counts.",
  ["inputs"],
  "all packet types with all field values and list lengths; all byte strings",
  "The generated tests cover one or two canned vectors per packet and are not part of the stable suite.",
  ["src/uci_packets.pdl", PKT, "build.rs"],
  [("packet grammar", "src/uci_packets.pdl"), ("generated codec", "src/packets.rs uci")],
  ["pica::packets::uci encode/decode"])

p("C24", "The Python host library frames, reassembles and dispatches packets faithfully",
  "For any stream of UCI packets split in any way, the Python Host delivers each complete control message (reassembled from its segments) to the control queue and each data message to the data queue, in order and unmodified; the packets it sends carry the right length field. expect_control and expect_data return a packet matching the expected class or value (values compared by their fields, as the generated classes compare them) and raise ValueError on a mismatch and a timeout error when nothing arrives. When the server closes the connection the reader stops instead of spinning.",
  ["inputs", "schedules"],
  "all packet sequences, segmentations, chunkings and truncation points",
  "The Python tests use it against the server with unsegmented packets only.",
  ["py/pica/pica/__init__.py"],
  [("reader", "py/pica/pica/__init__.py Host._read_exact, Host._read_packet, Host._read_packets"),
   ("expectations", "py/pica/pica/__init__.py Host.expect_control, Host.expect_data")],
  ["Host API over a local stream"])

p("C25", "Console commands send the UCI command they name",
  "Each command of the interactive Python console sends exactly the documented UCI command (or, for the commands about the scene, the documented HTTP request) with the parameters given and no other traffic, prints the answer, and terminates without an exception when the controller answers.",
  ["inputs"],
  "all console commands with all admissible arguments",
  "No test runs the console.",
  ["py/pica/console.py"],
  [("commands", "py/pica/console.py class Device")],
  ["bytes received by a stand-in controller"])

p("C26", "Over pica-http, UCI ranging reports the positions set through HTTP",
  "When UCI clients and anchors are placed through the HTTP interface, every SESSION_INFO_NTF a ranging client receives reports, for each peer or anchor in its session, the distance, azimuth and elevation computed from the positions currently set, in both directions, and the newest positions once a set-position request has been answered. Anchors destroyed over HTTP and clients that disconnected are no longer reported.",
  ["histories", "configurations"],
  "all scenes and position updates interleaved with running sessions",
  "No test starts the HTTP server, and the default binary has no positions.",
  [HTTP, POS, LIB],
  [("ranging estimator", "src/bin/http-server/main.rs impl RangingEstimator for Context")],
  ["SESSION_INFO_NTF on TCP connections to pica-http"])

p("C27", "Static pages are served unmodified",
  "pica-http serves each documented static path (/, /openapi, /openapi.yaml and the three component scripts) with its declared content type and the exact bytes of the corresponding file in the source tree, whatever the query string, and serves nothing else under other paths; responses are unaffected by concurrent requests.",
  ["inputs"],
  "all request paths and query strings",
  "No test starts the HTTP server.",
  [HTTP, "static/index.html"],
  [("static table", "src/bin/http-server/main.rs STATIC_FILES, http_request")],
  ["HTTP responses of pica-http"])

p("C28", "The Python and Rust codecs agree on every packet",
  "For every UCI packet, the bytes produced by the Python packet library are accepted by the Rust codec and decode to the same field values, and conversely; a byte string rejected by one as a given packet type is rejected by the other (except that the Python library lets the eight reserved application configuration identifiers through).",
  ["inputs"],
  "all control and data packet types with all field values, and mutated byte strings",
  "The Python codec is a separately generated file, only exercised on the packets of the integration tests.",
  ["py/pica/pica/packets/uci.py", "src/uci_packets.pdl"],
  [("Python codec", "py/pica/pica/packets/uci.py"), ("Rust codec", "src/packets.rs uci")],
  ["parse/serialize of both libraries"])

p("C29", "The pica binary serves the same protocol over real TCP",
  "The pica program started with --uci-port serves any number of simultaneous TCP clients with the same responses, notifications and ranging rounds (in real time) as the library, reports zero distances, writes traces when --pcapng-dir is given, and survives abrupt disconnections and half closed connections.",
  ["histories", "schedules", "fault_sequences"],
  "all client histories over loopback TCP, abrupt closures at any byte",
  "The Python integration tests run two scripted clients.",
  ["src/bin/main.rs", LIB, PKT],
  [("listener", "src/bin/main.rs accept_incoming, main")],
  ["loopback TCP connections to the pica binary"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
