"""Writes /verif/properties.jsonl (kept as Python so that the text is readable and diffable)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over.split(), "text": " ".join(text.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": files.split(),
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


CC = "pyzwave/commandclass/"

prop(
    "C01",
    "Received commands decode to the values laid out on the wire",
    """Decoding the bytes of any well-formed command the library has a message type for gives a
    message of that type in which every field equals the value at its place in the Z-Wave command
    layout: bit fields, signed and unsigned big-endian integers, scaled decimal meter and sensor
    values with their scale, node and sensor bitmasks, names, addresses, length-prefixed lists and
    header options. Options and metadata of kinds the library does not know, if not marked as
    critical, are passed over without disturbing the rest. Fields missing from the end of a shortened frame stay unset and do not disturb
    the fields that are there, and a list of groups that was cut short holds the groups that are there.
    A command without a message type decodes to a message that still
    reports its command class and command number.""",
    "inputs",
    "every registered message type x every well-formed payload (all field values, all list lengths, all optional parts, truncation at field boundaries)",
    "The tests decode one or two captured frames per message type, so most bit positions, sign bits, sizes, list lengths and combinations of optional parts are never read.",
    "pyzwave/message.py pyzwave/types.py pyzwave/util.py " + " ".join(CC + f for f in ("Zip.py", "ZipND.py", "ZipGateway.py", "NetworkManagementProxy.py", "NetworkManagementInclusion.py", "AssociationGrpInfo.py", "Association.py", "NodeProvisioning.py", "SensorMultilevel.py", "Meter.py", "Mailbox.py", "Configuration.py", "Supervision.py")),
    [("Message.decode / deserialize", "pyzwave/message.py"), ("AttributesMixin.parseAttributes", "pyzwave/util.py"), ("type deserializers", "pyzwave/types.py")],
    [("attributes table of each message", "ordered wire layout", "pyzwave/commandclass/*.py")],
    ["Message.decode(bytes) and the attributes of the returned message"],
)

prop(
    "C02",
    "Composed commands have the exact wire layout or are refused",
    """A message built from field values that fit composes to its command class byte, its command
    byte and then every field at its place in the Z-Wave command layout with reserved bits zero;
    decoding those bytes gives the values back, and composing a decoded message in which no field
    is missing gives the original bytes. A value too large for its field is refused with an exception and never changes a
    neighbouring field. A message whose mandatory field was never set is refused with an
    AttributeError, while optional parts that were never set are sent empty.""",
    "inputs",
    "every message type the library can compose x every assignment of field values, in range, out of range and missing",
    "The tests compose a handful of messages with one fixed set of values; neighbouring bit fields, reserved fields of different width and range limits are never varied.",
    "pyzwave/message.py pyzwave/types.py pyzwave/commandclass/Zip.py pyzwave/commandclass/ZipND.py pyzwave/commandclass/Configuration.py pyzwave/commandclass/Association.py pyzwave/commandclass/Supervision.py pyzwave/commandclass/NetworkManagementProxy.py",
    [("Message.compose", "pyzwave/message.py"), ("BitStreamWriter.addBits/addBytes and type serializers", "pyzwave/types.py")],
    [],
    ["Message.compose() bytes, Message.decode(compose())"],
)

prop(
    "C03",
    "Bit streams read and write exactly the bits asked for",
    """Reading bits within a byte, or whole bytes at a byte boundary, from a bit stream returns
    exactly the next bits or bytes of the data, most significant bit first; peeking never moves the position, reading moves it by exactly the
    amount read, and reading past the end raises EOFError instead of inventing data. Writing a
    sequence of bit fields that together fill whole bytes without crossing one, integers of any width, signedness and byte
    order, produces exactly their concatenation, so that reading the same sequence back returns
    the same values.""",
    "inputs histories",
    "every byte string x every sequence of byte-respecting read/peek/advance/remaining operations; every sequence of fields that pack into bytes",
    "The tests read a few fixed bits; they never mix peeks, bit reads and byte reads over arbitrary data or hit the end of the data in the middle.",
    "pyzwave/types.py",
    [("BitStreamReader", "pyzwave/types.py"), ("BitStreamWriter", "pyzwave/types.py")],
    [("_start", "bit position", "pyzwave/types.py")],
    ["return values of BitStreamReader methods; bytes(BitStreamWriter)"],
)

prop(
    "C04",
    "No datagram can stop or derail reception",
    """Whatever bytes arrive on a gateway connection, a node connection or the unsolicited socket,
    handling them never raises into the event loop, leaves no failed background task, and does not
    lose, change or misattribute any traffic that is handled before or after. Well-formed
    commands that arrive between arbitrary garbage are still delivered, and requests that are
    outstanding still complete.""",
    "inputs histories",
    "every datagram (random, truncated, bit-flipped, structurally valid but with odd options, missing inner command) interleaved with valid traffic on all three kinds of socket",
    "The tests feed one undecodable packet to one socket; the space of malformed packets and its effect on later traffic cannot be sampled by hand.",
    "pyzwave/zipconnection.py pyzwave/zipgateway.py pyzwave/adapter.py pyzwave/connection.py pyzwave/message.py pyzwave/application.py pyzwave/node.py",
    [("ZIPConnection.onPacket", "pyzwave/zipconnection.py"), ("ZIPGateway.onUnsolicitedMessage", "pyzwave/zipgateway.py")],
    [],
    ["event loop exception handler, listener deliveries, results of sends"],
)

prop(
    "C05",
    "A send reports success exactly when its own packet was acknowledged",
    """Sending a command transmits one Z/IP packet with that command and the given source and
    destination endpoints and reports success if and only if an
    acknowledgement carrying that packet's sequence number arrives before the deadline; otherwise
    it reports failure. When the gateway answers that the packet is queued for a sleeping node the
    deadline moves to the announced delay plus 60 seconds (180 seconds if the announced delay is
    negative), counted from that answer, every time such an answer arrives. Packets that are in
    flight at the same time never share a sequence number and lost, late, duplicate, reordered or
    foreign acknowledgements never affect another send.""",
    "schedules histories fault_sequences",
    "every interleaving of concurrent sends, acknowledgements, queued answers, losses, duplicates, timeouts and cancellations on one connection, including more than 256 packets",
    "The tests await one acknowledgement at a time with mocked sleeps; concurrent sends, sequence number wrap-around and races between an answer and its deadline are never exercised.",
    "pyzwave/adapter.py pyzwave/zipconnection.py pyzwave/commandclass/Zip.py",
    [("Ack.wait / queued / received", "pyzwave/adapter.py"), ("Adapter.waitForAck / ackReceived", "pyzwave/adapter.py"), ("ZIPConnection.send", "pyzwave/zipconnection.py")],
    [("_ackQueue", "sends waiting for an acknowledgement by sequence number", "pyzwave/adapter.py"), ("_seq", "last sequence number", "pyzwave/zipconnection.py")],
    ["datagrams sent, virtual time and value of each send() result"],
)

prop(
    "C06",
    "A connection is kept alive whenever it has been idle for 25 seconds",
    """After a connection is established, a keep-alive message asking for an acknowledgement is sent
    whenever 25 seconds have passed since the last time a command or keep-alive was sent on that
    connection, and never earlier. Received traffic of any kind, including acknowledgements of the
    keep-alive, neither postpones nor cancels it.""",
    "schedules histories",
    "every schedule of sends, received packets, acknowledgements and idle periods on gateway and node connections",
    "The test calls the keep-alive function directly; nothing checks when it fires over a history of traffic.",
    "pyzwave/zipconnection.py",
    [("resetKeepAlive / keepAlive", "pyzwave/zipconnection.py")],
    [("_keepAlive", "pending timer", "pyzwave/zipconnection.py")],
    ["virtual time of every datagram sent"],
)

prop(
    "C07",
    "A request returns the matching reply or times out, independent of others",
    """A request made to the gateway or to a node returns the first message of the awaited type that
    arrives after the request was made and before its deadline, even if the reply overtakes the
    acknowledgement, and raises a timeout otherwise. Each request keeps its own deadline: several
    requests waiting for the same or for different types neither cancel, time out nor starve one
    another. Once no request is waiting for it any more - answered, timed out, failed to send or
    cancelled - a message is delivered to the listeners as unsolicited traffic instead of being
    swallowed.""",
    "schedules histories fault_sequences",
    "every interleaving of concurrent requests with replies before/after the acknowledgement, same-instant replies and deadlines, send failures and cancellations, at gateway and node level",
    "The tests run one request with a reply injected right after the send; no two requests, no failing send and no race with the deadline is ever run.",
    "pyzwave/util.py pyzwave/adapter.py pyzwave/node.py",
    [("MessageWaiter.addWaitingSession / messageReceived / waitForMessage", "pyzwave/util.py"), ("Adapter.sendAndReceive", "pyzwave/adapter.py"), ("Node.sendAndReceive", "pyzwave/node.py")],
    [("_sessions", "who waits for which message", "pyzwave/util.py")],
    ["result, exception and time of each request; listener deliveries"],
)

prop(
    "C08",
    "Every received command reaches exactly the right node endpoint once",
    """A command received on a node's own connection, or on the unsolicited socket from the address
    of a known node, is delivered exactly once, unchanged and in order of arrival, to the node and
    endpoint it came from and to no other; a command from an address that belongs to no known node
    is delivered to nobody. A command that asks for an acknowledgement on the unsolicited socket
    gets exactly one positive acknowledgement back to its sender, with the same sequence number and
    the endpoints swapped, while other commands get none. Commands from the controller itself and
    commands on the gateway connection go to the application's own listeners and not to a node.""",
    "histories inputs schedules",
    "every history of commands from any node, endpoint and unknown sender over both kinds of socket, with and without acknowledgement request",
    "The tests deliver single hand-made packets to mocked connections; attribution among many nodes and endpoints is not varied.",
    "pyzwave/zipgateway.py pyzwave/zipconnection.py pyzwave/application.py pyzwave/node.py pyzwave/commandclass/Zip.py",
    [("onUnsolicitedMessage / onMessageReceived", "pyzwave/zipgateway.py"), ("Application.messageReceived / onMessageReceived", "pyzwave/application.py"), ("ZipPacket.response", "pyzwave/commandclass/Zip.py")],
    [("_nodes", "node id to address", "pyzwave/zipgateway.py"), ("_connections", "node id to connection", "pyzwave/zipgateway.py")],
    ["deliveries to node/endpoint listeners, datagrams sent from the unsolicited socket"],
)

prop(
    "C09",
    "Commands for a node are sent to that node's own address and endpoint",
    """A command sent to a node or endpoint leaves on a connection to that node's own IP address as
    announced by the gateway for that node id, carries that endpoint as destination and endpoint 0
    as source, and contains the command unchanged. This holds for any number of concurrent sends
    to different nodes and for delayed, repeated or unrelated address announcements; at most one
    connection is opened per node and it is reused. If the node's address cannot be learned the
    send raises a timeout and the command is sent nowhere; a node that could not be connected to is
    tried again with the next command.""",
    "schedules histories",
    "every set of concurrent and sequential sends to nodes and endpoints with address announcements delayed, lost, duplicated or reordered",
    "The tests resolve one node at a time with an immediate answer.",
    "pyzwave/zipgateway.py pyzwave/node.py pyzwave/connection.py",
    [("connectToNode / ipOfNode / sendToNode", "pyzwave/zipgateway.py"), ("Node.send", "pyzwave/node.py")],
    [("_connections", "node id to connection", "pyzwave/zipgateway.py")],
    ["address and content of every datagram sent"],
)

prop(
    "C10",
    "The application tracks the gateway's node list and announces every change",
    """After startup and after each node list report has been processed, the application's nodes are
    exactly the endpoints of the nodes in the gateway's latest list except the controller itself,
    with the device classes and listening state the gateway reports for them; an endpoint shares the
    listening, FLiRS and failed state of its node. Every node or
    endpoint that appears is announced exactly once as added (one by one and as a batch) and
    every one that disappears exactly once as removed, and nodes that stay keep their identity.
    This also holds when reports overlap with nodes still being loaded or when address lookups
    fail.""",
    "histories schedules fault_sequences",
    "every sequence of node lists, with multi channel nodes, arbitrary reply delays, overlapping updates and lost replies",
    "The tests apply one update with canned replies; overlapping updates and repeated add/remove are never run.",
    "pyzwave/application.py pyzwave/zipgateway.py",
    [("startup / nodeListUpdated / loadNode / loadEndPointNode", "pyzwave/application.py"), ("getNodeList / node list report handling", "pyzwave/zipgateway.py")],
    [("Application.nodes", "known nodes", "pyzwave/application.py")],
    ["Application.nodes, nodeAdded/nodesAdded/nodeRemoved/nodesRemoved events"],
)

prop(
    "C11",
    "The advertised command class list decides what a node supports",
    """For any command class list a node advertises, the node supports exactly the command classes
    listed outside a support/control mark section, and nothing that is only listed as controlled.
    Command classes after the Security S0 mark are supported again and are flagged as requiring
    S0, those before it are not. Every supported command class is represented by an object of the
    registered type with that id, or by a generic object that still reports its id.""",
    "inputs",
    "every byte list, with any number and placement of marks, known and unknown command classes",
    "The tests build nodes from three fixed lists.",
    "pyzwave/node.py pyzwave/commandclass/CommandClass.py",
    [("Node.__init__", "pyzwave/node.py"), ("CommandClass.load", "pyzwave/commandclass/CommandClass.py")],
    [("supported", "supported command classes", "pyzwave/node.py")],
    ["Node.supports, Node.supported, CommandClass.securityS0/id/name"],
)

prop(
    "C12",
    "Each supervised command is executed once and reported once",
    """A command wrapped in a supervision request is handled exactly as if it had arrived bare, once,
    by the same handlers with the same flags. Exactly one supervision report goes back to the node
    and endpoint, with the request's session id and no further updates announced, with status 0xFF
    if the command was handled and 0x00 if it was not. Commands that are not supervised never cause
    a supervision report.""",
    "inputs histories",
    "every inner command, session id, endpoint, handler outcome and interleaving of supervised and bare commands",
    "The tests use one inner command with mocked handling and one session id.",
    "pyzwave/node.py pyzwave/commandclass/Supervision.py",
    [("supervision decorator", "pyzwave/node.py"), ("Supervision.Get.parse_command", "pyzwave/commandclass/Supervision.py")],
    [],
    ["datagrams sent to the node, deliveries to listeners, result of handleMessage"],
)

prop(
    "C13",
    "A node routes each command to its command class handler, then its listeners",
    """A command delivered to a node is offered to the supported command class it belongs to: to that
    class's own handler first and, unless that handles it, to every listener method named after the
    command; only if none of them handles it are the node's general listeners asked, each once, and
    the command counts as handled exactly if one of them or a waiting request took it. Handlers of
    one command class never see commands of another. Multilevel sensor reports of version 5 or
    newer reach listeners only if the node announced that sensor type and that scale, older
    versions always do.""",
    "inputs histories configurations",
    "every command, set of supported classes, set of listeners with any return values, waiting requests, and sensor type/scale tables",
    "The tests try single listeners on single commands; the combination of handlers, listeners, waiting requests and sensor tables is not explored.",
    "pyzwave/node.py pyzwave/commandclass/CommandClass.py pyzwave/commandclass/__init__.py pyzwave/commandclass/SensorMultilevel.py",
    [("Node.handleMessage", "pyzwave/node.py"), ("CommandClass.handleMessage", "pyzwave/commandclass/CommandClass.py"), ("SensorMultilevel report handler", "pyzwave/commandclass/SensorMultilevel.py")],
    [],
    ["calls recorded by listeners, return value of handleMessage"],
)

prop(
    "C14",
    "Stored node settings survive a restart unchanged",
    """After any history of updates, what was learned about a node's command classes - version,
    interviewed flag, configuration parameters, association groups and their members, group names,
    profiles and command lists, sensor types, manufacturer, version and Z-Wave Plus information -
    is restored with equal values and types when a node with the same id is added again by an
    application using the same storage. The storage creates what it needs below its path, keeps
    every node and endpoint apart and ignores stored data for command classes the node no longer
    has. A node without stored settings starts empty.""",
    "histories inputs",
    "every content of the command class attributes reachable from reports, several nodes and endpoints, repeated store/reload cycles",
    "The tests write two integers and mock the file system.",
    "pyzwave/persistantstorage.py pyzwave/util.py pyzwave/commandclass/CommandClass.py pyzwave/commandclass/Association.py pyzwave/commandclass/AssociationGrpInfo.py pyzwave/commandclass/Configuration.py",
    [("YamlStorage.nodeAdded / nodeUpdated", "pyzwave/persistantstorage.py"), ("__getstate__ / __setstate__", "pyzwave/util.py")],
    [],
    ["attributes of the reloaded command classes"],
)

prop(
    "C15",
    "Updates are signalled for storage at once, or once when the lock ends",
    """Outside a storage lock every update of a supported command class of a node signals that node
    for storage exactly once, and immediately. Inside a storage lock nothing is signalled; when the
    outermost lock of the node ends, normally or by an exception, exactly one signal is sent if
    anything was updated inside it and none otherwise, and exceptions pass through. Locks may be
    nested or overlap in concurrent tasks, and they affect only their own node.""",
    "histories schedules",
    "every sequence and nesting of locks, updates and exceptions on several nodes, including overlapping tasks",
    "The tests run one lock with one update.",
    "pyzwave/node.py",
    [("storageLock / commandClassUpdated", "pyzwave/node.py")],
    [("_storageStatus", "lock state", "pyzwave/node.py")],
    ["nodeUpdated notifications"],
)

prop(
    "C16",
    "Interviews learn versions and mark only complete interviews",
    """Interviewing a node interviews each of its supported command classes whose version is known or
    can be requested, even if others time out. A command class's version is requested exactly when
    it is not known, and a class whose version cannot be learned is not interviewed. A class counts
    as interviewed exactly if its last attempt ran to completion; an attempt that timed out leaves
    it not interviewed, and what the node answered is what the command class afterwards
    reports.""",
    "histories fault_sequences inputs",
    "every set of command classes, version answers, and pattern of lost or late answers over repeated interviews",
    "The tests mock sendAndReceive for one class at a time; no interview with a lossy node is run end to end.",
    "pyzwave/commandclass/CommandClass.py pyzwave/node.py pyzwave/commandclass/Version.py pyzwave/commandclass/ManufacturerSpecific.py pyzwave/commandclass/ZwavePlusInfo.py pyzwave/commandclass/SensorMultilevel.py",
    [("interviewDecorator / requestVersion", "pyzwave/commandclass/CommandClass.py"), ("Node.interview", "pyzwave/node.py")],
    [("_interviewed, _version", "interview state", "pyzwave/commandclass/CommandClass.py")],
    ["requests sent to the node; version, interviewed and attributes of each class"],
)

prop(
    "C17",
    "Association interviews record every group and set up the lifeline once",
    """Interviewing associations records for every group the node has its capacity and exactly the
    members the node reported, including endpoints, whichever groups fail to answer and using the
    multi channel commands exactly when the node supports them. On a Z-Wave Plus node whose group 1
    does not already contain the controller, the controller is added to group 1 with the command
    kind the node supports and the group is read again; in every other case no association is
    changed.""",
    "inputs configurations fault_sequences",
    "every group count, group content (with endpoints), set of supported classes, and pattern of lost answers",
    "The tests run two fixed nodes with canned answers.",
    "pyzwave/commandclass/Association.py pyzwave/commandclass/MultiChannelAssociation.py",
    [("Association.interview / interviewGrouping / setupLifeLine", "pyzwave/commandclass/Association.py"), ("Nodes", "pyzwave/commandclass/Association.py")],
    [],
    ["commands received by the simulated node; Association.groupings"],
)

prop(
    "C18",
    "The mailbox delivers every queued message once, in order",
    """Every message the gateway pushes into the mailbox and that is accepted is handed back exactly
    once, in the order it was pushed for that queue, when the sleeping node wakes up and
    acknowledges message by message, with the last-message mark on exactly the final one. A message
    identical to one already waiting in the same queue is not queued a second time; queues never
    mix, an empty queue answers with an empty last message, and a message whose hand-over was not
    acknowledged by the gateway stays queued.""",
    "histories schedules fault_sequences",
    "every history of pushes, wake-ups, acknowledgements, queue handles, lost hand-overs and overlapping pushes",
    "The tests push and pop a single message.",
    "pyzwave/mailbox.py pyzwave/commandclass/Mailbox.py",
    [("MailboxService push/pop", "pyzwave/mailbox.py")],
    [("_queue", "messages by queue handle", "pyzwave/mailbox.py")],
    ["Mailbox queue commands sent to the gateway"],
)

prop(
    "C19",
    "Queued mailbox messages are announced every minute until delivered",
    """While a message waits in the mailbox, the gateway is sent a heartbeat for it every 60 seconds
    after it was accepted, carrying its queue handle and content: a waiting notice, except every
    tenth, which is a ping. Heartbeats stop when the message has been handed over and never start
    for a message that was not accepted; losing a heartbeat or failing to reach the gateway for it
    does not stop the later ones, and messages do not disturb each other's heartbeats.""",
    "schedules histories fault_sequences",
    "every schedule of pushes, deliveries and lost or failing heartbeats over many minutes and many messages",
    "The tests patch sleep and run a single iteration.",
    "pyzwave/mailbox.py",
    [("QueueItem heartbeat task", "pyzwave/mailbox.py")],
    [],
    ["virtual time, operation and content of mailbox commands sent"],
)

prop(
    "C20",
    "Notifications reach every listener, in order, whatever the others do",
    """Speaking to listeners calls the named method of every registered listener that has one exactly
    once per registration, in registration order, passing the speaker and the arguments unchanged;
    listeners without that method are skipped. A synchronous listener that raises does not prevent
    the remaining listeners from being called. Asking waits for all of them and returns their
    values, leaving out synchronous listeners that raised, in registration order, whether they are
    synchronous or asynchronous and in whatever order they finish; only the exception of an
    asynchronous listener may pass to the one who asked.""",
    "inputs schedules histories",
    "every list of listeners (with/without the method, sync/async, raising, slow) and every sequence of speak/ask",
    "The tests use one or two listeners with fixed behaviour.",
    "pyzwave/util.py",
    [("Listenable.addListener / speak / ask", "pyzwave/util.py")],
    [("_listeners", "registered listeners", "pyzwave/util.py")],
    ["calls recorded by listeners, value of ask()"],
)

prop(
    "C21",
    "Network management calls send the right command and return the gateway's answer",
    """Each network management call sends exactly one command of the right kind carrying its
    arguments and, in any number of calls, a sequence number that fits a byte and differs from the
    previous call's; it returns what the gateway reported: failed nodes, endpoint count (individual
    plus aggregated), capabilities, node information, removal status, or the node list, which is
    asked for only while unknown. If no answer arrives in time the calls return their documented
    empty result (empty set, zero, empty report, remove-failed) instead of raising, and what is
    missing from a shortened answer counts as empty. Removing a node or an endpoint object returns
    true only if the gateway reported the node as removed. The fire-and-forget calls complete and
    tell whether they were acknowledged.""",
    "histories inputs fault_sequences",
    "every sequence (hundreds of calls) of network management calls, arguments, answers and losses",
    "The tests make each call once with a canned answer; sequence numbers beyond a few calls and unusual arguments are never used.",
    "pyzwave/zipgateway.py pyzwave/commandclass/NetworkManagementProxy.py pyzwave/commandclass/NetworkManagementInclusion.py",
    [("ZIPGateway network management methods", "pyzwave/zipgateway.py")],
    [("_nmSeq", "network management sequence number", "pyzwave/zipgateway.py")],
    ["commands received by the simulated gateway, return values"],
)

prop(
    "C22",
    "Typed attributes keep their value and type through every way of setting them",
    """An attribute of a message or command class has the same value and declared type whether it was
    given to the constructor, assigned, or restored from saved state, and reading it returns what
    was set last. Saving an object's state and restoring it into a new one gives equal attributes,
    and the saved state contains only plain values equal to the attributes. Observers are told
    exactly of assignments that change the value, with the new and the old value, and never
    otherwise.""",
    "inputs histories",
    "every attribute type the library declares x every accepted value x every sequence of assignments, saves and restores",
    "The tests set two integer attributes, and the state test among them does not pass on this Python version.",
    "pyzwave/util.py pyzwave/types.py pyzwave/commandclass/CommandClass.py pyzwave/commandclass/Association.py",
    [("AttributesMixin", "pyzwave/util.py"), ("VarDictAttribute", "pyzwave/commandclass/CommandClass.py")],
    [("_attributes", "typed values", "pyzwave/util.py")],
    ["attribute reads, __getstate__/__setstate__, attributeUpdated calls"],
)

prop(
    "C23",
    "Association group information collects exactly what the node reports",
    """For every group announced in any number of group information reports, the group's name and
    command list are requested once per announcement, and the group afterwards has the announced
    profile and the name and command list last reported for that group, in whatever order the
    reports arrive. Reports about groups that were never announced change nothing and break
    nothing. Every change is signalled for storage.""",
    "histories inputs schedules",
    "every sequence of group info, name and command list reports for known and unknown groups",
    "The tests feed one report of each kind, in one order.",
    "pyzwave/commandclass/AssociationGrpInfo.py",
    [("report handlers", "pyzwave/commandclass/AssociationGrpInfo.py")],
    [("groupings", "collected groups", "pyzwave/commandclass/AssociationGrpInfo.py")],
    ["AssociationGrpInfo.groupings, requests sent, storage signals"],
)

prop(
    "C24",
    "Device specific keys keep their 16 bytes in every representation",
    """A device specific key given as its 16 bytes or as its text of eight five-digit groups is the
    same key: the text form is the big-endian 16-bit words in decimal, padded to five digits and
    joined by dashes, converting in either direction loses nothing, and it compares equal to its
    text form only. A key of any other byte length is refused when read from a message or set, and
    no key at all stays empty; only the part of a key a user enters while adding a node may be
    shorter.""",
    "inputs",
    "every 16-byte key, every other length, every text",
    "The tests use one key.",
    "pyzwave/types.py pyzwave/commandclass/NodeProvisioning.py pyzwave/commandclass/NetworkManagementInclusion.py",
    [("dsk_t", "pyzwave/types.py")],
    [],
    ["text, equality, composed bytes of messages with a key"],
)

prop(
    "C25",
    "Configuration parameters are read, cached and set per parameter number",
    """Reading a configuration parameter returns the value the node last reported for that parameter
    number; it is asked of the node only if it was never reported or a fresh value is demanded, and
    a report about another parameter is never mistaken for the answer. Every configuration report
    updates exactly its own parameter's value and size and is signalled for storage, whether it was
    requested or not. Setting a parameter sends exactly that number, size and value to the node and
    returns whether it was acknowledged.""",
    "histories inputs schedules",
    "every sequence of concurrent reads, sets and reports for any parameters, sizes and values, with losses",
    "The tests read one parameter with a canned report.",
    "pyzwave/commandclass/Configuration.py",
    [("Configuration.get / set / report handler", "pyzwave/commandclass/Configuration.py")],
    [("parameters", "cache", "pyzwave/commandclass/Configuration.py")],
    ["return values, commands received by the node, parameters"],
)

prop(
    "C26",
    "Messages, nodes and command classes never share mutable state",
    """Nothing done to one message, node, command class, storage or adapter object - setting or
    reading attributes, changing the lists and dictionaries they hand out, adding listeners,
    waiting for messages - changes any other object, including objects created later.""",
    "histories",
    "every sequence of creations, reads, writes and in-place changes over several objects of every type",
    "The tests look at one object at a time.",
    "pyzwave/util.py pyzwave/message.py pyzwave/commandclass/Association.py pyzwave/commandclass/Zip.py pyzwave/commandclass/CommandClass.py pyzwave/node.py",
    [("AttributesMixin / Message default handling", "pyzwave/message.py")],
    [],
    ["state of every other object before and after each operation"],
)

prop(
    "C27",
    "Every message can be shown as text",
    """Every message that can be decoded from the wire or built from values, known or unknown, and
    every command class and device key state can be turned into its text representation and its
    detailed debug text without raising; the debug text names the command and every field that is
    set with its value and changes nothing in the object.""",
    "inputs",
    "every decodable frame, every message type with any subset of fields, every command class state",
    "The tests print a few messages.",
    "pyzwave/util.py pyzwave/message.py pyzwave/types.py pyzwave/commandclass/CommandClass.py",
    [("debugString / __repr__", "pyzwave/util.py")],
    [],
    ["str(), repr(), debugString()"],
)

prop(
    "C28",
    "Connecting puts the gateway in the wanted mode and registers for messages",
    """Connecting to a gateway asks for its mode and sets the wanted mode exactly when the reported
    mode differs, registers the library's address and port for unsolicited messages, and learns the
    node list and the address of every node in it, so that afterwards unsolicited commands of every
    node are attributed. A mode report that does not arrive leaves the mode untouched and does not
    stop the connection from being set up.""",
    "inputs schedules fault_sequences",
    "every gateway mode, node list, reply delay and pattern of lost replies during connect",
    "The tests mock every step of connect separately.",
    "pyzwave/zipgateway.py",
    [("ZIPGateway.connect / setGatewayMode / setupUnsolicitedConnection", "pyzwave/zipgateway.py")],
    [],
    ["commands received by the simulated gateway"],
)

prop(
    "C29",
    "Inclusion and exclusion progress is announced faithfully",
    """Every node-add and node-remove status the gateway sends is announced exactly once, unchanged
    and in order, to the application's listeners and is not offered to them as an ordinary message.
    An exclusion that completed for a node outside the network is additionally announced as removal
    of node 0, and no other status is. Every other command on the gateway connection is announced
    once as an ordinary message and counts as handled exactly if a listener returned True.""",
    "histories inputs",
    "every sequence of status and other commands on the gateway connection, with any listeners",
    "The tests send three fixed statuses.",
    "pyzwave/application.py pyzwave/adapter.py",
    [("Application.onMessageReceived", "pyzwave/application.py"), ("Adapter.commandReceived", "pyzwave/adapter.py")],
    [],
    ["events recorded by application listeners"],
)

prop(
    "C30",
    "DTLS connections deliver each datagram intact with the configured key",
    """A DTLS connection only does its handshake with the configured pre-shared key, given to the TLS library
    unchanged and never written beyond the buffer for it (a key there is no room for is not used at all).
    Connecting returns only once the handshake is done. Until it is stopped or reading fails, every datagram
    received is handed to the current handler unchanged, exactly once, in order, on the event loop and, when
    listening, with the address of the peer; what is sent is passed on unchanged. After being stopped, even
    before being connected, at most the datagram being received is still delivered and the thread ends.""",
    "inputs schedules",
    "every key, datagram, buffer size and interleaving of the receive thread with the event loop",
    "The DTLS tests start no thread and use no socket or key at all.",
    "pyzwave/dtlsconnection.py",
    [("DTLSConnection", "pyzwave/dtlsconnection.py")],
)

prop(
    "C31",
    "Named values, command classes and commands stand for the specification's numbers",
    """The names the library gives to enumerated values (modes, statuses, operations, keys, sensor and
    meter types, scales, options, metadata), command classes and commands stand for the numbers the
    Z-Wave specification assigns to them. A received number is equal to exactly the named value with
    that number, is found under that name in options and metadata, and shows that name, or shows as
    unknown with its number if it has none. A named value given to a command is transmitted as its
    number. The text of a command names its class and command, or their numbers when they have no
    name.""",
    "inputs",
    "every enumerated field x every number, named or not, received, composed from the name and shown; every command class and command number",
    "The tests use a handful of named values in one direction each; a wrong number behind a name passes whenever the same name is used to build the expectation.",
    "pyzwave/types.py pyzwave/message.py pyzwave/adapter.py pyzwave/commandclass/__init__.py " + " ".join(CC + f for f in ("Zip.py", "NetworkManagementProxy.py", "NetworkManagementInclusion.py", "NodeProvisioning.py", "SensorMultilevel.py", "Meter.py", "Mailbox.py", "Configuration.py", "ApplicationStatus.py")),
    [("enum_t", "pyzwave/types.py"), ("Message.__repr__", "pyzwave/message.py"), ("registerCmdClass", "pyzwave/commandclass/__init__.py"), ("Meter.Report.scale", "pyzwave/commandclass/Meter.py")],
    [("ENUMS", "named values", "pyzwave/commandclass/SensorMultilevel.py")],
    ["decoded attributes compared with named values, composed bytes, text"],
)

prop(
    "C32",
    "A save that is cut off loses nothing that was stored before",
    """If the process ends at any moment while the storage saves the settings of a node, or the disk
    becomes full while it does, an application started later on the same storage path loads every node:
    the node being saved has either all the settings stored before or all the settings being saved, the
    other nodes have the settings stored for them, and further saves work. A save that returns without
    an error is stored.""",
    "crash_points inputs fault_sequences",
    "every moment of a save at which the content of the storage directory differs, every disk size, every content stored before and being saved",
    "The test of saving replaces open() and looks at nothing; no test ends a save half way.",
    "pyzwave/persistantstorage.py",
    [("YamlStorage.nodeUpdated", "pyzwave/persistantstorage.py")],
    [("files below nodes/", "stored settings", "pyzwave/persistantstorage.py")],
    ["settings restored by YamlStorage.nodeAdded into fresh nodes"],
)

prop(
    "C33",
    "Plain connections carry each datagram unchanged until they are stopped",
    """Each datagram sent over an unencrypted connection leaves once, byte for byte, for port 4123 of the
    address connected to, or for the address given if the connection listens, and each datagram that
    arrives is handed once, byte for byte, to the handler set at that time, in order of arrival and
    with its sender's address if the connection listens; connections do not mix. Datagrams the network
    refuses end nothing. Sending before connecting returns False and sends nothing; stopping releases
    the socket, nothing arrives or leaves afterwards, and the connection can be started again.""",
    "schedules histories inputs",
    "every history of starts, stops, sends, arrivals, handlers and refusals on several connections; every datagram",
    "The tests replace the socket and the protocol with mocks; no datagram is ever sent or received.",
    "pyzwave/connection.py",
    [("Connection", "pyzwave/connection.py"), ("ZipClientProtocol", "pyzwave/connection.py")],
    [("_sock", "transport of the socket", "pyzwave/connection.py")],
    ["datagrams at peers on loopback sockets and on a simulated network", "arguments of the handlers", "open sockets of the process"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
