APF = "pyzwave/application.py pyzwave/node.py pyzwave/util.py"

prop("A01", "The application's nodes follow the node list, and listeners are told about every change exactly once",
     "Whatever the order of node list updates, the adapter's answers and slow listeners, once everything is settled the application has exactly the nodes and end points of the latest list (without the controller itself), and the listeners were told - one by one and in batches - exactly about the nodes that came and went: replaying what they were told gives the application's nodes, nothing is announced twice or withdrawn without having been announced. "
     "When an answer is missing, the next update repairs the list.",
     "schedules histories faults", "every order of up to three node list updates over four lists with two open requests, answers in any order, listeners slow in nodesAdded or nodeRemoved, one failing request",
     "tests deliver one update at a time with mocked answers", APF, [("following the node list", "Application.nodeListUpdated, loadNode")],
     ["Application.nodes", "nodeAdded, nodesAdded, nodeRemoved and nodesRemoved listeners"], "All environment histories up to length 5 (thorough: 6).", AI + "lost updates across suspension points, replay of the announced changes")
prop("A02", "A node is loaded with exactly what is reported about it and its end points",
     "Every node of the list except the controller is loaded with its own device classes, listening flag and supported command classes as reported - also when it reports none or does not answer -, and one node per reported end point with that end point's own device classes and command classes, addressed as node:endpoint; a node without the multi channel command class has no end points, and the controller is never asked about itself. Changes of each such node reach the storage exactly once.",
     "inputs", "all reported device classes and flags (symbolic), 0 to 3 end points, with and without multi channel, loaded at startup or by an update",
     "tests load one fixed node and one fixed end point", APF, [("loading nodes", "Application.loadNode, loadEndPointNode"), ("node identity", "Node, NodeEndPoint in pyzwave/node.py")],
     ["Application.nodes and the attributes of the nodes", "nodeUpdated of the storage"], "Reported bytes symbolic; up to 3 end points.", AI + "value provenance from report to attribute", thorough=False)
prop("A03", "A command is handled by the end point it came from and nobody else",
     "A command received from a node is handled by the node with exactly that node id and end point, once; nobody handles it when the application does not know that end point, and a command of the controller itself goes to the application's listeners. It is reported as handled if and only if somebody handled it.",
     "inputs", "commands from known and unknown nodes and end points and from the controller, handled or not", "tests route two fixed messages", APF,
     [("routing", "Application.messageReceived, Node.handleMessage")], ["onMessage listeners of the nodes", "messageReceived listeners", "result of messageReceived"],
     "All combinations of sources and answers.", AI + "effects per path", thorough=False)
prop("A04", "Add and remove status reports reach every listener, and only a finished removal announces a removed node",
     "A node add or remove status report is given once to every listener under its own name and counts as handled; the removal of a node unknown to the network (node id 0) is announced as removed if and only if the report says that the removal is done. "
     "Any other command of the controller is given to every listener, and counts as handled if and only if a listener handled it; a failing listener changes nothing of this for the others.",
     "inputs faults", "all kinds of reports, removal status and node ids, two listeners that handle, do not handle or fail", "tests use one report with one mocked listener", APF,
     [("controller reports", "Application.onMessageReceived")], ["addNodeStatus, removeNodeStatus, nodeRemoved, nodesRemoved and messageReceived listeners", "result of onMessageReceived"],
     "All combinations.", AI + "effects per path", thorough=False)
prop("A05", "Startup loads and announces every node once, whatever happens meanwhile",
     "When the application starts, all nodes of the list are loaded and each is announced exactly once, also when the node list changes while it starts, when a listener is slow or when a listener fails; startup always ends.",
     "schedules faults", "every order of answers, one list change at any point of startup, slow and failing listeners", "tests start with all answers at once", APF,
     [("startup", "Application.startup, nodeListUpdated")], ["Application.nodes", "nodeAdded and nodesAdded listeners"], "All environment histories up to length 5 (thorough: 6).", AI + "interleavings of startup with list updates")
