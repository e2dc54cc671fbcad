#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


U, A, Z, B, T = ("zigpy_cc/uart.py", "zigpy_cc/api.py", "zigpy_cc/zpi_object.py",
                 "zigpy_cc/buffalo.py", "zigpy_cc/types.py")
D, APP, ST, NV, CF = ("zigpy_cc/definition.py", "zigpy_cc/zigbee/application.py",
                      "zigpy_cc/zigbee/start_znp.py", "zigpy_cc/zigbee/nv_items.py",
                      "zigpy_cc/config.py")

prop("C01", "Every valid received frame is delivered exactly once, in order, intact",
     "However the adapter's byte stream is cut into reads and whatever time passes between them, every well-formed frame in it is handed on exactly once, "
     "in order, with exactly its type, subsystem, command and payload, as soon as its last byte has arrived - frames "
     "with an empty payload and maximum-length frames included. Bytes between frames that are not a start-of-frame "
     "marker are skipped. A frame whose checksum does not match is discarded and costs no other frame.",
     ["inputs", "schedules"],
     "All frame sequences (payload length 0..250, any valid type/subsystem, any command id, payload bytes including "
     "0xFE), all ways of splitting the stream into reads, noise without 0xFE between frames, single-byte corruption "
     "that leaves the length intact.",
     "The tests feed five fixed byte strings, one split point, no empty payload, no noise before a frame and never "
     "two frames in one read.",
     [U], [("incremental frame parser", "uart.py Parser.write"), ("read loop", "uart.py Gateway.data_received"),
           ("checksum", "uart.py UnpiFrame.from_buffer")],
     ["frames handed from the gateway to its api object", "application messages after the full serial stack"],
     [("receive buffer", "bytes of the frame being assembled", "uart.py Parser.buffer")])

prop("C02", "Everything sent to the adapter is well-formed frames in issue order",
     "Apart from the single bootloader-skip byte after connecting, what is written to the serial port is always a "
     "concatenation of complete frames (start marker, length, command bytes, payload, matching checksum), one per "
     "command issued, in the order the commands were issued, however the operating system splits the writes. A "
     "command that cannot be encoded is rejected to its caller, and nothing at all of it is written.",
     ["inputs", "schedules"],
     "All encodable commands and payloads up to the 250-byte frame limit, unencodable ones (missing or out-of-range "
     "parameters, over-long payload), concurrent callers, partial writes by the port.",
     "The tests only check that a mock's write was called; no test looks at the bytes of a frame on the wire.",
     [U, Z, A], [("frame encoder", "uart.py UnpiFrame.to_buffer"), ("send", "uart.py Gateway.send"),
                 ("command encoder", "zpi_object.py ZpiObject.to_unpi_frame")],
     ["bytes written to the serial port, parsed by an independent parser"])

prop("C03", "Command parameters survive encoding and decoding exactly",
     "For every command of the adapter protocol, the parameters given by a caller appear on the wire in the "
     "documented order, width and byte order, and the parameters of every response or notification received are "
     "returned to the caller with exactly the values the adapter sent. This includes fixed- and variable-length "
     "buffers, lists whose length precedes them, signed values, IEEE addresses and neighbour tables.",
     ["inputs"],
     "Every command in the command table in both directions whose parameter types are implemented, with boundary "
     "and random values for every parameter and empty to full-length lists and buffers.",
     "The tests cover a handful of commands with one value each.",
     [B, Z, D], [("parameter writer", "buffalo.py Buffalo.write_parameter"),
                 ("parameter reader", "buffalo.py Buffalo.read_parameter"),
                 ("command table", "definition.py Definition"),
                 ("length propagation", "zpi_object.py ZpiObject.read_parameters")],
     ["bytes written to the port", "payload of responses and notifications"])

prop("C04", "Values that do not fit are refused; short payloads never yield a message",
     "A parameter value that does not fit the width of its field is refused with an error to the caller and never "
     "truncated, wrapped or clamped onto the wire. A received payload that ends before its parameters do never "
     "produces a message, completes a request or changes the device table; the parameters that are delivered are "
     "always complete.",
     ["inputs"],
     "All integer parameters of all commands with values just and far outside their range in both directions; all "
     "proper prefixes of all response and notification payloads.",
     "No test passes an out-of-range value or a truncated payload.",
     [B, Z, A], [("width check", "buffalo.py Buffalo.write"), ("bounds check", "buffalo.py Buffalo.read")],
     ["exception to the caller and bytes on the wire", "messages delivered to the application"])

prop("C05", "Frames that cannot be interpreted are contained",
     "A received frame with an unknown subsystem, unknown command, invalid type, unsupported or impossible payload "
     "is dropped on its own: every well-formed frame before and after it, also in the same read, is still handled, "
     "pending commands still receive their answers, and no error escapes into the serial transport.",
     ["inputs", "schedules"],
     "All (type, subsystem, command id) combinations with arbitrary payloads interleaved in one read or several with "
     "valid notifications and with responses to pending commands; application handlers that raise.",
     "The tests never feed an uninterpretable frame through the receive path.",
     [U, A, Z], [("dispatch loop", "uart.py Gateway.data_received"), ("object decoding", "zpi_object.py from_unpi_frame")],
     ["application messages", "completion of pending requests", "event-loop exception handler"])

prop("C06", "At most one synchronous command is outstanding at the adapter",
     "A new command frame is written only after the previous synchronous command has been answered, has timed out or "
     "was cancelled, whatever number of tasks issue commands. After a reset request nothing further is written until "
     "the adapter's reset indication has arrived (or its 30 s limit passed).",
     ["schedules", "fault_sequences"],
     "Any number of concurrent callers, any response latency, dropped and erroneous responses, cancellations, resets "
     "between commands.",
     "The tests issue one command at a time against a mock.",
     [A], [("request lock", "api.py API.request_raw"), ("reset wait", "api.py API._request_raw")],
     ["order of frames written by the host and responses completed by the simulated adapter"])

prop("C07", "A caller receives the adapter's answer to its own command",
     "With any number of callers, every command that completes returns exactly the response the adapter gave to that "
     "very command, matched on subsystem, command and response type. Notifications, requests-shaped frames and "
     "same-named responses of other subsystems, arriving before, together with or after the response, neither "
     "complete the command nor change its result, and are still delivered to the application.",
     ["schedules", "inputs"],
     "Concurrent callers over many command types, unique values per response, interfering frames placed before, in "
     "the same read as, and after the real response.",
     "One test completes one command with one response.",
     [A], [("response matching", "api.py Waiter.match"), ("dispatch", "api.py API.data_received")],
     ["returned payloads against the simulated adapter's log", "application messages"],
     [("waiter table", "exchanges in progress", "api.py API._waiters")])

prop("C08", "Every command ends within its limit and failures do not block the next",
     "Every synchronous command ends: with the response if the adapter answers within the limit (6 s; 20 s for "
     "starting the network or commissioning; 30 s for a reset), otherwise with a timeout at the limit; an adapter "
     "status that the caller does not expect is raised as a command error carrying that status, while expected "
     "statuses return the response. After any such timeout, error, cancellation or encoding failure the following "
     "commands are sent and answered normally.",
     ["fault_sequences", "schedules"],
     "All response delays around the limits, all status bytes against all expected-status sets, cancellations at any "
     "moment, sequences of failing and succeeding commands.",
     "No test exercises a timeout, a non-zero status or a cancelled command.",
     [A, T], [("timeout", "api.py Waiter.wait"), ("limits", "types.py Timeouts"), ("status check", "api.py _request_raw")],
     ["virtual time and outcome of each call"])

prop("C09", "Late, duplicate and unsolicited replies do no harm and nothing is left over",
     "Responses and notifications that arrive twice, after their command timed out or was cancelled, or without any "
     "command, raise no error, complete nothing that is still waiting for something else and do not disturb later "
     "commands. Once all exchanges have ended and their limits have passed, nothing of them remains in the driver, "
     "whatever way they ended, and an exchange whose submission failed reports that failure even when its reply "
     "already came or its waiting time already passed.",
     ["histories", "fault_sequences"],
     "Histories of commands and data requests with duplicated, late and stray responses and confirms, rejected "
     "submissions whose reply already arrived or expired.",
     "The tests never deliver a reply twice, late or unsolicited.",
     [A, APP], [("waiter expiry", "api.py API.wait_for callback"), ("waiter removal", "api.py data_received/_request_raw")],
     ["outcomes of later commands", "loop exception handler", "number of exchanges held at quiescence"],
     [("waiter table", "exchanges in progress", "api.py API._waiters")])

prop("C10", "A device's ZDO reply reaches the request that asked for it",
     "When a device answers a ZDO request within 10 s of its being sent to the adapter, the reply is delivered exactly once and "
     "carries the transaction number of the oldest unanswered request of that kind to that device, for every "
     "transaction number 0 to 255. Replies of other devices or kinds, or to requests whose submission failed, are "
     "never attributed to it, and a reply nobody is waiting for is not delivered.",
     ["schedules", "histories"],
     "Concurrent ZDO requests to several devices and of several kinds, all transaction numbers, replies in any "
     "cross-device order, before the submission response, in the same read, duplicated, missing, after rejected or "
     "timed-out submissions.",
     "One test answers one node-descriptor request with one transaction number.",
     [A, APP], [("reply waiter", "api.py create_response_waiter"), ("sequence attachment", "api.py data_received"),
                ("delivery", "application.py handle_znp")],
     ["messages handed to zigpy (handle_message)", "results of zigpy ZDO calls"],
     [("waiter sequence", "transaction number a reply is attributed to", "api.py Waiter.sequence")])

prop("C11", "ZDO requests reach the adapter with the meaning the caller gave them",
     "A ZDO request (node, power, simple, match and user descriptors, active endpoints, bind, unbind, LQI and routing "
     "tables, leave, permit join) is submitted to the adapter exactly once, as the corresponding adapter command "
     "addressed to the requested device, with every field of the request intact; bindings keep their target whether "
     "it is a device endpoint or a group. A request that the adapter rejects or leaves unanswered is not repeated, and "
     "its caller is told. Anything that is not a ZDO request, whatever its application profile, is "
     "sent as application data and never as a ZDO command.",
     ["inputs"],
     "All supported ZDO requests with all field values, all device addresses, all profiles.",
     "The tests translate one bind and one permit-join request.",
     [Z, APP], [("translation", "zpi_object.py ZpiObject.from_cluster")],
     ["commands decoded independently from the bytes on the wire"])

prop("C12", "ZDO replies reach the caller with the content the device sent",
     "The reply to a ZDO request, as decoded by zigpy from what the driver delivers, has exactly the status, address "
     "and content (descriptor, endpoint list, match list, neighbour table, ...) that the device sent, comes from that "
     "device and answers that kind of request. Error replies are delivered with their status.",
     ["inputs"],
     "All reply kinds (node, power, simple, match descriptor, active endpoints, bind, unbind, leave, permit join, "
     "LQI) with all field values, list lengths and statuses.",
     "The tests deliver one node-descriptor and one LQI reply.",
     [APP, Z, B], [("reply translation", "application.py REQUESTS/handle_znp"), ("re-encoding", "zpi_object.py to_unpi_frame")],
     ["results of zigpy ZDO calls made through the public device API"])

prop("C13", "Outgoing application messages go out as addressed; outcomes are truthful",
     "Each unicast, multicast or broadcast application message is submitted to the adapter exactly once, with exactly "
     "its destination and addressing mode, endpoints, cluster, transaction number, radius and data. The caller is told "
     "success exactly when the adapter accepted it, gets the adapter's status and an error text when it was rejected, "
     "and an error when the adapter did not answer.",
     ["inputs", "fault_sequences"],
     "All addresses, endpoints, clusters, sequence numbers, radii and payload sizes; all three kinds; all adapter "
     "statuses; missing answers.",
     "The tests send one message of each kind to a mock that always succeeds.",
     [APP, Z], [("translation", "zpi_object.py from_cluster"), ("outcome", "application.py request/mrequest/broadcast")],
     ["commands decoded independently from the wire", "return values"])

prop("C14", "Incoming application messages are delivered once to the right device",
     "Every incoming application message from a known device, in short or extended form and identified by network or "
     "by IEEE address, is handed to zigpy exactly once, in order, for that device, with the cluster, source and "
     "destination endpoints and data the adapter reported, and updates that device's link quality, which no other message changes. Messages from "
     "unknown senders are dropped without any effect on other devices.",
     ["inputs", "schedules"],
     "All message fields, any number of devices, both message forms and both address modes, several messages per "
     "read, unknown senders, devices whose address changes.",
     "The tests deliver two fixed messages.",
     [APP, Z], [("dispatch", "application.py handle_znp")],
     ["messages handed to zigpy (handle_message)", "device link quality"])

prop("C15", "Joined devices are known at their latest address and can be interviewed",
     "After a device announces itself, the application's device table holds exactly one entry for its IEEE address "
     "with the most recently announced network address, listeners are told, and traffic to and from it uses that "
     "address. A device that answers the adapter's queries is interviewed to completion with the endpoints, clusters, "
     "manufacturer and model it reported, also when several devices join at once.",
     ["histories", "schedules"],
     "Histories of joins, re-joins with new addresses and swaps of addresses between devices; several devices "
     "interviewed concurrently under varying latencies and reply orders.",
     "One test delivers one announcement and checks one call.",
     [APP, A], [("announce handling", "application.py handle_znp"), ("join", "application.py handle_join (zigpy)")],
     ["device table", "listener events", "completed interviews against the simulated devices"])

prop("C16", "Requests in progress are limited to the adapter's capacity, which is usable",
     "At most 2 application requests (16 on Z-Stack 3.x.0 adapters) are in progress at once, where a group or "
     "broadcast message stays in progress for 0.2 s after the adapter accepted it. The full capacity is usable, and a "
     "request that fails, times out or is cancelled gives its place back.",
     ["schedules", "configurations"],
     "Any mix of concurrent unicasts, multicasts, broadcasts and permit-join requests on all adapter types, any "
     "latencies, errors, timeouts, cancellations.",
     "The tests make single requests.",
     [APP], [("semaphore", "application.py startup/request/mrequest/broadcast")],
     ["submission times at the simulated adapter in virtual time"])

prop("C17", "Starting up brings the adapter to exactly the configured network",
     "After startup with network formation succeeds, the adapter is running as coordinator and its non-volatile "
     "settings equal the configuration (channels, PAN id, extended PAN id, network key, key distribution off), with "
     "device type coordinator, direct callbacks on, the configured marker set and, on Z-Stack 1.2, the trust-centre "
     "link key - from any prior adapter state and for every supported firmware. On Z-Stack 3 an adapter that was "
     "configured but never given a PAN id keeps its random one; the application then knows the coordinator's address. "
     "(An adapter that carries the configured marker is taken to have device type, callbacks and link key in place: "
     "they are always written before the marker.)",
     ["configurations", "histories"],
     "All firmware types, all prior contents of the relevant settings (absent, matching, differing in any one item), "
     "all prior device states, all configurations including PAN id 0 and defaults.",
     "No test runs startup at all.",
     [ST, NV, T, APP], [("validation", "start_znp.py needsToBeInitialised"), ("initialisation", "start_znp.py initialise"),
                        ("boot", "start_znp.py boot"), ("options", "types.py NetworkOptions")],
     ["non-volatile memory and state of the simulated adapter"])

prop("C18", "An adapter already running the configured network is left untouched",
     "When the adapter already holds the configured network, startup neither resets it nor writes any of its "
     "non-volatile settings nor starts commissioning; it only starts the stack if it is not already running as "
     "coordinator. Starting up twice in a row with the same configuration therefore keeps the network and its devices, "
     "and any single differing setting (marker, channels, key distribution, network key, PAN id, extended PAN id) leads "
     "to re-initialisation.",
     ["configurations", "histories"],
     "All firmware types and device states, all configurations, repeated startups, each single differing item.",
     "No test runs startup at all.",
     [ST, NV], [("validation", "start_znp.py needsToBeInitialised"), ("boot", "start_znp.py boot")],
     ["commands received by the simulated adapter"])

prop("C19", "All coordinator endpoints are registered once and the green-power group joined",
     "After startup the adapter has every one of the driver's 13 endpoints with its profile, device id and cluster "
     "lists, and endpoint 242 is in the green-power group 0x0B84. Endpoints and group membership already present are "
     "not registered again, whatever subset is present and whatever other traffic arrives meanwhile.",
     ["configurations", "schedules"],
     "All subsets of endpoints already active, group present or absent, foreign endpoint-list replies and other "
     "notifications interleaved.",
     "No test runs startup at all.",
     [ST], [("registration", "start_znp.py registerEndpoints"), ("group", "start_znp.py addToGroup")],
     ["endpoint and group tables of the simulated adapter"])

prop("C20", "The driver recovers from losing the serial connection",
     "After the connection of a running driver is lost at any moment - idle, during requests or during a previous "
     "recovery - the driver closes it and retries until the adapter is reachable, then is fully operational again "
     "within bounded time: requests succeed and incoming messages are delivered. A startup asked for by the user that "
     "loses its connection fails and leaves nothing open. There is never more than one open connection or recovery in "
     "progress, and requests made meanwhile end instead of hanging and are not reported as accepted unless the adapter "
     "got them.",
     ["fault_sequences", "crash_points"],
     "Losses at any event of startup, traffic and recovery, repeated losses, ports that stay unavailable or an adapter "
     "that stays silent for some attempts.",
     "No test loses a connection.",
     [APP, A, U], [("loss detection", "uart.py Gateway.connection_lost"), ("recovery loop", "application.py reconnect")],
     ["port opens and closes, requests and messages after recovery, in virtual time"])

prop("C21", "Shutdown releases the port for good",
     "After shutdown the serial port is closed and stays closed: no reconnection happens later, no matter whether the "
     "driver was idle, busy, recovering from a loss, waiting to retry, or had failed to start or was never started. "
     "Shutdown itself never fails, can be repeated, and a deliberate close is not treated as a lost connection; "
     "commands still pending end in bounded time.",
     ["schedules", "histories"],
     "Shutdown at any moment of the life cycle, including every stage of a recovery, after failed or cancelled "
     "startup, repeated, and followed by a fresh start.",
     "One test closes a mock.",
     [APP, A, U], [("shutdown", "application.py shutdown"), ("close", "api.py API.close, uart.py Gateway.close")],
     ["port opens and closes in virtual time"])

prop("C22", "Probing answers truthfully and always releases the port",
     "Probing a port reports true exactly when the adapter answers the version query within 2 s of the start of the "
     "probe, and false - without raising - when it is silent, answers with anything else, or the port cannot be opened "
     "or fails meanwhile. In every case, cancellation included, the port is closed afterwards.",
     ["fault_sequences", "schedules"],
     "All answer delays and contents, noise, port errors at opening, reading or writing, losses and cancellations at "
     "any moment.",
     "Three tests probe with a mocked connect.",
     [A, U], [("probe", "api.py API.probe"), ("connect", "uart.py connect")],
     ["probe result, port opens and closes in virtual time"])

prop("C23", "The configured or the only matching serial port is opened as configured",
     "With automatic selection, exactly the one attached adapter (Texas Instruments vendor id 0451 or QinHeng "
     "1a86:7523) is opened, and with none or several matching a serial error is raised and nothing is opened; with an "
     "explicit path that path is opened. The port is opened with the configured speed, no parity, one stop bit and the "
     "configured flow control, and the bootloader-skip byte followed by a 1 s pause precedes every command.",
     ["configurations", "inputs"],
     "All combinations of attached ports (matching, similar but not matching), paths, speeds and flow-control modes.",
     "Three tests check flow control of an explicit path; selection is untested.",
     [U, CF], [("selection", "uart.py detect_port"), ("connect", "uart.py connect"), ("schema", "config.py SCHEMA_DEVICE")],
     ["arguments of the port being opened", "bytes and times at the port"])

prop("C24", "An interrupted or failing startup never passes for a configured network",
     "If the adapter rejects or does not answer any step of startup, startup reports failure - or succeeds only with "
     "the configured network fully in place. Whatever step an attempt was interrupted at (failure, lost connection, "
     "power cut of the adapter), the next undisturbed startup succeeds and ends with the configured network fully in "
     "place.",
     ["crash_points", "fault_sequences", "configurations"],
     "Every step of startup on every firmware type and from several prior states, with each of: error status, missing "
     "answer, missing notification, connection loss, adapter restart.",
     "No test runs startup at all.",
     [ST, APP], [("order of initialisation, marker written last", "start_znp.py initialise"),
                 ("status checks", "api.py _request_raw")],
     ["non-volatile memory and state of the simulated adapter after each attempt"])

prop("C25", "Permit-join and the LED follow what was asked",
     "Opening the network for joining sends the adapter a permit-join command for all routers and the coordinator with "
     "exactly the requested duration (0 to 254 s, other values are refused), and opening it through one device sends it "
     "to that device; a permit-join command that the adapter rejects or leaves unanswered is not repeated, and when it was "
     "for the whole network or the adapter itself the caller is told. The adapter's LED is switched on when the network opens for joining and off when it closes and "
     "after the network is formed, except on Z-Stack 3.x.0 adapters, which are never sent an LED command; a failing LED "
     "command disturbs nothing.",
     ["inputs", "configurations", "fault_sequences"],
     "All durations, all adapter types, via network or device, sequences of open/close notifications, LED commands "
     "that fail or are unanswered.",
     "The tests do not cover permit-join or the LED.",
     [APP, Z], [("permit", "application.py permit_ncp"), ("LED", "application.py set_led/handle_znp")],
     ["commands decoded from the wire"])

prop("C26", "Drivers in one process are independent of each other",
     "Several driver instances in one process, each with its own adapter, do not affect each other: each writes, "
     "delivers, answers, recovers and times out exactly as it would alone, whatever the others, their adapters and "
     "probes of further ports do at the same time.",
     ["schedules", "fault_sequences", "configurations"],
     "Two or three drivers with different firmware, configurations and loads, started and stopped at different times, "
     "with failing adapters and lost connections, and probes running beside them.",
     "No test has two drivers at once.",
     [A, U, APP, Z], [("per-connection state", "api.py API.__init__, uart.py Parser/Gateway"),
                      ("per-application state", "application.py __init__, _startup")],
     ["bytes at the port, deliveries and outcomes of each driver, against the same life lived alone"])

prop("C27", "What a driver does depends on its adapter, not on its past",
     "A driver that has come to rest behaves as a new one on an adapter in the same state: after any history of "
     "successful, failed, unanswered and cancelled requests, joins, noise, lost connections, failed starts and "
     "restarts, the same events lead to the same commands, deliveries, outcomes and times.",
     ["histories", "fault_sequences"],
     "All histories of the kinds listed, any length, ended by rest, a restart or a recovery; then any later events.",
     "Each test uses a fresh object.",
     [A, APP, U, ST], [("request bookkeeping", "api.py request_raw, wait_for"), ("restart", "application.py _startup"),
                       ("recovery", "application.py reconnect")],
     ["bytes at the port, deliveries and outcomes, against a new driver on a copy of the adapter"])

prop("C28", "What arrives costs bounded memory and work; the event loop is never blocked",
     "Whatever arrives on the line - noise, partial frames, bad checksums, undefined commands, answers nobody waits "
     "for, notifications - the driver keeps nothing of it beyond the unfinished frame and pending deliveries, the work "
     "per received byte does not grow with what came before, and no operation of the driver (opening, probing, "
     "starting, requests, recovery, shutdown) blocks the event loop it runs in.",
     ["inputs", "histories"],
     "Input streams of all these kinds and their mixtures, of any length, cut into reads of 1 to 1024 bytes; whole "
     "lives of a driver with faults.",
     "The tests feed a few frames; none looks at what is kept.",
     [U, A, APP], [("receive buffer", "uart.py Parser.write"), ("dispatch", "api.py data_received"),
                   ("pauses", "uart.py connect, application.py")],
     ["size of everything reachable from the driver", "functions executed per byte", "blocking calls"])

prop("C29", "Known devices survive a restart; removed devices are gone",
     "With zigpy's database, the devices known when the application stops - orderly or not - are known, with the same "
     "address, endpoints and clusters, after the next start, can be used in both directions without a new interview, "
     "and keep their membership of the network: the adapter is not re-initialised. Removing a device sends it a leave "
     "request at its current address and forgets it whether or not it answers; it stays forgotten until it joins again. "
     "A neighbour scan reports what the devices report.",
     ["histories", "fault_sequences"],
     "Sequences of joins, address changes, removals (answered, silent, rejected, unanswered), scans, failed starts and "
     "restarts on every firmware type.",
     "No test restarts anything.",
     [APP, ST, A], [("device table", "application.py handle_znp, handle_join, _startup"),
                    ("leave", "zpi_object.py from_cluster"), ("configured check", "start_znp.py needs_to_be_initialised")],
     ["device table, messages and commands across restarts with a database on disk"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
