prop("T01", "A send completes exactly on its own acknowledgement and leaves nothing behind",
     "A command sent over a Z/IP connection completes successfully when, and only when, an acknowledgement with the sequence number of its packet arrives before its timeout; otherwise it completes unsuccessfully at the timeout, never hangs. "
     "A nack-waiting answer for it extends the timeout to the announced delay (never shortens it below a minute for a negative one). Acknowledgements for other sends, or that nobody waits for, have no effect. "
     "After a send ended, was cancelled or timed out, its number is free again and a late acknowledgement is ignored.",
     "schedules faults histories", "every order of acknowledgements, nack-waiting answers, nacks, timeouts and cancellations for one send and for two concurrent sends",
     "the tests drive single orders (ack then done, queued then timeout); a leftover pending entry or a missed order shows only later",
     ZC, [("pending acknowledgements", "ZIPConnection.send, waitForAck, ackReceived in pyzwave/adapter.py and pyzwave/zipconnection.py"), ("packet reception", "ZIPConnection.onPacket")],
     ["result of ZIPConnection.send", "packets given to Connection.send"],
     "All environment histories up to length 3 (thorough: 4); sequence numbers concrete.", AI + "typestate of the pending-acknowledgement protocol")
prop("T02", "A sequence number in use is not given to another send",
     "Every packet sent over a Z/IP connection carries a sequence number from 0 to 255, and while a send still waits for its acknowledgement (for instance for a sleeping node) no other packet is sent with the same number, however many sends happen meanwhile; so an acknowledgement never completes the wrong send.",
     "histories", "any number of sends while 1, 2 or 5 earlier ones still wait",
     "needs more than 256 sends during one wait; the tests send two", ZC,
     [("sequence number allocation", "ZIPConnection.send in pyzwave/zipconnection.py")], ["sequence numbers of the packets given to Connection.send"],
     "270 (thorough: 600) sends while others are parked.", AI + "wrap-around of the counter analysed over its full period")
prop("S01", "A response completes its request whenever it comes, and nothing of a wait remains",
     "A request that waits for a response gets the first matching response received after the request was issued, even one that arrives before the transmission is acknowledged; it fails with a timeout after the given time, and a failed transmission ends it. "
     "When it has ended in any way (response, timeout, error, cancellation) nothing of it remains: later messages of that type reach the listeners. Several tasks waiting for the same type do not disturb each other: ending one wait neither ends nor deafens another, and delivering never raises.",
     "schedules histories faults", "every order of response, foreign message, transmission result, timeout and cancellation, on the adapter and on a node; several concurrent waits",
     "tests only use the order request, ack, response; races need the response to overtake the ack or a second waiter",
     "pyzwave/util.py pyzwave/adapter.py pyzwave/node.py", [("waiting sessions", "MessageWaiter in pyzwave/util.py"), ("request and response", "Adapter.sendAndReceive, Node.sendAndReceive")],
     ["result of sendAndReceive and waitForMessage", "messages given to listeners"],
     "All environment histories up to length 4 (thorough: 5).", AI + "typestate of the waiting sessions")
prop("S02", "A received command completes only waits for its own type and is otherwise delivered once",
     "A command received by an adapter, plain or inside a Z/IP packet, completes exactly the waits for its own command type - a wait that names the answer it wants only if it is that answer, and it goes on waiting otherwise; waits given up or timed out take nothing; a command nobody waits for is given to every listener exactly once, as the very message received; a command that completed a wait is not delivered as well.",
     "inputs histories", "every combination of received type (also unknown ones) and waits for other types; every history of three messages and two (thorough: three) waits",
     "tests use one type at a time", "pyzwave/adapter.py pyzwave/util.py", [("dispatch", "Adapter.commandReceived, MessageWaiter.messageReceived")],
     ["messages given to listeners", "result of waitForMessage"], "Representative types, waits on up to four types.", AI + "delivery effects per path")
prop("T03", "No datagram makes reception fail",
     "Whatever datagram arrives on a Z/IP connection or on the gateway's unsolicited port - truncated at any byte, with bogus lengths, without or with a broken embedded command, of an unexpected kind, from known or unknown addresses - the receive callback returns without raising and sends continue to work.",
     "inputs faults", "every truncation of a Z/IP packet, every flag byte, broken options and commands, every known bare command, in idle and sending state",
     "tests feed four malformed packets to one callback", "pyzwave/zipconnection.py pyzwave/zipgateway.py pyzwave/message.py pyzwave/types.py",
     [("packet reception", "ZIPConnection.onPacket"), ("unsolicited reception", "ZIPGateway.onUnsolicitedMessage")], ["exceptions out of the receive callbacks"],
     "Enumerated datagram shapes with symbolic contents; bytes that count something take boundary values (quick: every fourth bare command).", AI + "exception effects of the receive callbacks")
prop("T04", "Acknowledgements are consumed, plain commands are delivered exactly once",
     "For a packet received on a Z/IP connection: an acknowledgement completes its own pending send and is never delivered; a nack never completes a send successfully; a packet without ack or nack flags that carries a command is given to the listeners exactly once, with source and contents intact, and completes no send; a packet without a command is not delivered. "
     "Node advertisements are delivered once; keep alives and unknown packets neither are delivered nor complete a send.",
     "inputs", "every combination of transport flags and of packet shapes, for the pending send's number and another",
     "tests cover five flag combinations with mocked handlers", ZC, [("packet reception", "ZIPConnection.onPacket")], ["messages given to onMessageReceived listeners", "result of ZIPConnection.send"],
     "All flag combinations (quick: 14 of 64), remaining bits symbolic.", AI + "delivery effects per path")
prop("T05", "A connected link always has one keep alive due within 25 seconds",
     "From the moment a Z/IP connection is connected exactly one keep alive timer is armed, due 25 seconds after the last transmission; when it expires exactly the keep alive packet is sent and the timer is armed again. Sending restarts it; there are never two timers and never none.",
     "histories", "every order of sends, receptions, resets and timer expiries after connecting", "tests call resetKeepAlive once with a mocked timer", "pyzwave/zipconnection.py",
     [("keep alive", "ZIPConnection.keepAlive, resetKeepAlive")], ["armed loop timers", "packets given to Connection.send"], "All histories of length 4 (thorough: 5).", AI + "typestate of the timer")
prop("T06", "Unsolicited packets are acknowledged once and attributed to the node whose address they came from",
     "A packet arriving on the gateway's unsolicited port from the address of a known node is acknowledged if and only if it asks for it - one acknowledgement to that address, with its sequence number and its endpoints swapped, and no command - and its command, if any, is given to the messageReceived listeners exactly once with that node's id, the sending endpoint and the transport options. "
     "A packet from any other address is neither acknowledged nor delivered.",
     "inputs", "every sequence number, endpoint and flag, known and unknown senders among several nodes", "tests use a single node and two packets",
     "pyzwave/zipgateway.py pyzwave/commandclass/Zip.py", [("unsolicited reception", "ZIPGateway.onUnsolicitedMessage"), ("acknowledgement", "Zip.ZipPacket.response")],
     ["packets given to Connection.sendTo", "messages given to messageReceived listeners"], "All abstract paths, sequence number, endpoints and irrelevant flags symbolic; three known nodes.", AI + "attribution dataflow from address to node id")
prop("T07", "The DTLS thread enters the event loop only through its thread safe door",
     "The DTLS reading thread never runs callbacks of the event loop itself: received packets and the connection event reach the loop only through its thread safe scheduling, in the order received, each exactly once. The thread ends on a socket error and after stop, and survives anything else.",
     "schedules faults", "every sequence of packets, errors and stop requests, as client and server, with and without handler", "the thread body has no test at all", "pyzwave/dtlsconnection.py",
     [("reading thread", "DTLSConnection.run")], ["callbacks run by the reading thread", "callbacks scheduled on the loop"], "All socket histories up to length 4 (thorough: 5).", "abstract interpretation of the thread body with effect tracking: which calls happen on the thread and which only through the loop")
prop("T08", "PSK callbacks never write beyond the buffers of the TLS library",
     "The DTLS pre-shared-key callbacks write at most as many bytes as the buffers they are given can hold, write exactly the configured key and, as a client, an identity that is a terminated string, and return the key's length when both fit, and return zero otherwise.",
     "inputs", "every combination of key length and buffer sizes from the boundary set", "callbacks are never called by a test; an overflow corrupts native memory", "pyzwave/dtlsconnection.py",
     [("PSK callbacks", "DTLSConnection.clientPskCb, serverPskCb")], ["memory copies made by the callbacks", "returned length"], "Boundary set of sizes 0, 1, 15, 16, 17, 32, 64.", "abstract interpretation with tracking of every raw memory write and its bound")
prop("T09", "Datagrams pass the socket layer unchanged and in the right direction",
     "A datagram received by a connection reaches its callback once, unchanged, with the sender's address when it listens and without when it is a client, and is ignored when no callback is set. Data is sent unchanged to the connected peer, or to the given address; sending without a socket reports failure and sends nothing. "
     "A lost connection closes its socket and never raises.",
     "histories", "every order of receptions, sends, errors and loss, client and server", "tests use mocks for either side", "pyzwave/connection.py",
     [("datagram socket", "Connection and ZipClientProtocol")], ["data given to the transport and to the callback"], "All histories up to length 3 (thorough: 4).", AI + "dataflow of datagrams between socket and callback")
prop("T10", "A DTLS connection is set up with the pre-shared key, with the right peer, and reported only then",
     "Connecting or listening starts one background thread and makes no connection on the caller's. The thread makes a datagram socket that accepts pre-shared-key ciphers only, as a client to the address asked for and the gateway's DTLS port, as a server on its own port; "
     "it gives the TLS library the callback of that side and object - which supplies the configured key and stays alive as long as the connection - before, as a client only, one handshake is made. Connecting is reported done only after all of that, and raises a timeout when it does not happen.",
     "inputs faults", "client and server, every step of the set-up failing, connections that come up in time or not", "none of this code is run by a test", "pyzwave/dtlsconnection.py",
     [("set-up of the socket", "DTLSConnection.createDtlsPskSock"), ("connecting", "DTLSConnection.connect, listen, run")], ["calls of ssl, dtls and socket", "result of connect"],
     "Failures at each step, two peers, a second connection alongside.", "abstract interpretation of the set-up with effect tracking of every call of the TLS library, and reachability of the callback objects", thorough=False)
