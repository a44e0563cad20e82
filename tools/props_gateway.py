GWF = "pyzwave/zipgateway.py pyzwave/zipconnection.py pyzwave/adapter.py pyzwave/util.py"

prop("G01", "Every network management operation sends its own command and returns exactly what came back",
     "Each network management operation of the gateway (add/remove node and their stop commands, security keys, DSK, failed node list and removal, node list, node info, multi channel end points and capability) sends one packet with its own command, exactly the given arguments and a sequence number that fits its byte and differs from the previous one, however often it is used. "
     "It returns success only when the command was acknowledged, or the reported value when a report arrives, and otherwise - no acknowledgement, no report, a report without the list asked for - its failure value; it never raises and never hangs. Asked again, it asks the controller again and returns the new answer.",
     "inputs histories faults", "every operation with all node ids, endpoints and reported values; every order of acknowledgement, missing acknowledgement, report and timeout; hundreds of operations in a row",
     "tests use one operation with one acknowledgement; overflow of the sequence number needs 256 operations, and a missing acknowledgement is tested nowhere",
     GWF, [("network management operations", "ZIPGateway.addNode ... removeNodeStop in pyzwave/zipgateway.py")], ["packets given to Connection.send", "results of the operations"],
     "All environment histories up to length 3 (thorough: 4); arguments and report contents symbolic; 270 (thorough: 600) operations in a row.", AI + "request/answer effects per path")
prop("G02", "Commands for a node go over one connection to that node's own address",
     "A command sent to a node - on the list of nodes or not - goes over a connection to that node's advertised address, with the gateway's key and the given endpoints, exactly once; there is at most one connection per node, also when several tasks send at once and whatever the order of advertisements (also unrequested ones of other nodes). "
     "A command received over a node's connection is reported with that node's id, its endpoint and contents. An advertisement that ends before the address is no address. A failed lookup fails that send only, with a timeout, and sending again later works.",
     "schedules faults", "three concurrent sends to two nodes, every interleaving with answers, foreign advertisements and missing answers",
     "tests send one command to one node with a mocked lookup", GWF,
     [("node connections", "ZIPGateway.connectToNode, ipOfNode, sendToNode"), ("attribution", "ZIPGateway.onMessageReceived, messageReceived")],
     ["connections opened", "packets given to Connection.send per connection", "messageReceived listeners"],
     "All interleavings of three sends to two nodes.", AI + "address attribution and ownership of connections")
prop("G03", "The node list follows the latest report, and every node is known by its address",
     "Whatever the order of node list reports and address lookups, the gateway's node list is the one of the latest report and the listeners were last told about it; packets from the address of a node in the list are attributed to it once its address was advertised, packets from the address of a node no longer in the list are not attributed, and a node that does not answer hides no other node. A report that ends before its list changes nothing and does not fail.",
     "schedules histories faults", "every order of reports with different lists, address answers and silent nodes",
     "tests deliver one report with all answers", GWF, [("node list", "ZIPGateway.onUnsolicitedMessage, getNodeList, __retrieveAddresses__")],
     ["result of getNodeList", "nodeListUpdated and messageReceived listeners"], "All histories up to length 3 (thorough: 4) over four node lists.", AI + "staleness of shared state across suspension points")
prop("G04", "An answer is given to the request it belongs to",
     "When two requests of one kind for different nodes are under way, or an answer to an earlier request arrives after its timeout, each request returns the answer to its own question, never the answer to another one.",
     "schedules", "every request kind whose answer identifies its request, both orders of answers, late answers",
     "tests never have two requests under way", GWF + " pyzwave/message.py pyzwave/node.py pyzwave/commandclass/NetworkManagementProxy.py pyzwave/commandclass/NetworkManagementInclusion.py",
     [("waiting sessions", "MessageWaiter in pyzwave/util.py"), ("correlation", "Message.isAnsweredBy in pyzwave/message.py")], ["results of the requests"],
     "Two requests, both orders, and one late answer, per kind. One known finding (getNodeInfo).", AI + "correlation of answers with requests", thorough=False)
prop("G05", "Connecting the gateway prepares it completely, whatever the gateway answers",
     "Connecting opens the connection with the configured address and key, switches the gateway to stand alone mode if and only if it is in another mode, listens for unsolicited packets, sets the unsolicited destination to that address and port once, and learns the addresses of all nodes. Silence of the gateway to any of these does not make connecting fail or hang, "
     "and only the nodes that did not answer are unknown afterwards; exactly one keep alive timer is armed.",
     "faults", "every combination of answers and silence in the connection procedure", "tests answer everything with mocks", GWF,
     [("connecting", "ZIPGateway.connect, setupUnsolicitedConnection")], ["packets given to Connection.send", "connections and listening sockets", "messageReceived listeners"],
     "All combinations of answers and silence.", AI + "effects of the connection procedure per environment", thorough=False)
