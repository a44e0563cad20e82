NF = "pyzwave/node.py pyzwave/persistantstorage.py"
CF = "pyzwave/commandclass/__init__.py pyzwave/commandclass/AssociationGrpInfo.py pyzwave/node.py"

prop("N01", "A supervised command is answered exactly once, to the right end point, and truthfully",
     "Every supervised command received from a node is answered with exactly one supervision report for that session, to the node and end point it came from; the status is success if and only if the command inside was handled, also when the command inside is missing, unknown or itself supervised. "
     "A report that cannot be sent does not make the handling of the command fail or happen twice. A command that ends before its session is neither answered nor an error.",
     "inputs faults", "all session numbers and flags (symbolic), handled / not handled / missing / unknown / nested commands, report sent or not, node and end points", "tests use one supervised command",
     NF, [("supervision", "Node.handleMessage, supervision"), ("sending to a node", "Node.send")], ["commands sent to the node", "result of handleMessage"], "All abstract paths.", AI + "typestate of the supervision session")
prop("N02", "Every change of a node reaches the storage, however changes are grouped",
     "A change of a node or of one of its command classes is stored at once, unless storage locks are held; then it is stored exactly once, when the last of the locks ends - also when locks are nested or overlap, and when the block under the lock fails or is cancelled. Nothing is stored when nothing changed.",
     "schedules faults", "every order of begin, change and end of up to three nested or overlapping locks, blocks that end normally, fail or are cancelled", "tests use one lock that ends normally",
     NF, [("storage lock", "Node.storageLock, PersistantStorage lock"), ("change notifications", "AttributesMixin, Speaker")], ["nodeUpdated of the storage"], "All environment histories up to the bound.", AI + "counting of stores against changes")
prop("N03", "Supported and controlled command classes are read exactly as listed",
     "From any list of command classes a node supports exactly the classes listed before the mark, controls those after it, and the classes behind the security mark are supported securely; a list ending at or within a mark is accepted. Node and end point identities, the Z-Wave Plus flag and the device classes are those given, and setting the classes again replaces the old ones.",
     "inputs", "all lists of up to six entries over classes, extended classes and marks, first node and end points", "tests use two fixed lists", NF, [("command class list", "Node.parseNif"), ("identity", "Node, NodeEndPoint")],
     ["Node.supported, attributes of the node"], "Lists enumerated up to the bound; identities symbolic.", AI + "value provenance", thorough=False)
prop("N04", "A command reaches each interested party at most once and is reported handled only if one handled it",
     "A command received for a node reaches the waiter for it, the handler of its command class, the listeners of the command class and the listeners of the node each at most once, and its handling is reported if and only if one of them handled it. A command for a command class the node does not have is still offered to waiters and listeners. Each command counts by itself, also one that repeats an earlier one.",
     "inputs", "all combinations of waiter, handler, class listener and node listener, present or not, handling or not", "tests look at one party at a time", NF, [("dispatch", "Node.handleMessage, CommandClass.handleMessage, ZWaveMessageHandler")],
     ["delivery to waiter, handler and listeners", "result of handleMessage"], "All combinations.", AI + "effects per path", thorough=False)
prop("N05", "Commands of a node are sent to it alone, and an answer is taken or its absence reported in time",
     "Whatever is sent through a node, an end point or one of its command classes goes to that node id and end point, once, whatever is known about the node (failed, asleep, listening); a request ends with the report of that node and end point or with the timeout error after its time, and a send that failed is reported as such.",
     "inputs schedules faults", "all node ids and end points (symbolic), every order of answers of other nodes, late, missing and failing ones", "tests use mocked sends", NF,
     [("sending", "Node.send, sendAndReceive"), ("command classes", "CommandClass.send, sendAndReceive, set")], ["commands sent", "results and errors of the requests"], "All environment histories up to the bound.", AI + "address provenance", thorough=False)
prop("N06", "The interview reaches every command class whatever the others do",
     "An interview of a node asks for the version of every supported command class and then interviews each exactly once, also when some answers never come, cannot be sent, end early or come as errors; a class is marked as interviewed if and only if its last interview completed (it did not return False, fail or time out), and its version is the one reported for that class.",
     "schedules faults", "every choice of answered, silent and unsent requests over three command classes", "tests interview one class with prepared answers", CF,
     [("interview", "Node.interview, interviewDecorator, CommandClass.requestVersion")], ["commands sent", "version and interviewed of the command classes"], "All fault choices up to the bound.", AI + "fault injection at every suspension point")
prop("C01", "Interviews store exactly what the device reported",
     "After the interview of the version, Z-Wave Plus information, manufacturer and sensor command classes their attributes equal what the device reported, each from its own report; reports of other sensors or arriving in between are not mixed in. What a report does not contain - the icons in version 1 of the Z-Wave Plus information - stays as it was. A later interview, and a version asked for again, replace what was known by what is reported then, including sensor types that are no longer reported.",
     "inputs schedules", "all report contents (symbolic), reports of other sensors in between", "tests use one fixed report", CF + " pyzwave/commandclass/Version.py pyzwave/commandclass/ZwavePlusInfo.py pyzwave/commandclass/ManufacturerSpecific.py pyzwave/commandclass/SensorMultilevel.py",
     [("interviews", "Version, ZwavePlusInfo, ManufacturerSpecific, SensorMultilevel")], ["attributes of the command classes"], "Reported values symbolic.", AI + "value provenance from report to attribute", thorough=False)
prop("C02", "Every association group is known as reported, and the lifeline is set exactly when it is missing",
     "After the interview every association group has the nodes and limits reported for that very group; the controller is added to the lifeline if and only if the device is a Z-Wave Plus device whose lifeline does not contain it, once, and the multi channel variant is used if and only if both sides can. A group that does not answer a later interview keeps what it reported before, a report that ends early counts as none, and groups the device no longer has are neither kept nor asked for.",
     "inputs schedules faults", "0 to 3 groups, all contents, Z-Wave Plus or not, lifeline present or not, with and without multi channel, silent groups", "tests use one group", CF + " pyzwave/commandclass/Association.py pyzwave/commandclass/MultiChannelAssociation.py",
     [("association interview", "Association.interview, setupLifeLine"), ("multi channel association", "MultiChannelAssociation")], ["groups of the association command class", "commands sent"], "Up to three groups.", AI + "value provenance")
prop("C03", "Association group information is assigned to the group it names, in whatever order it arrives",
     "Names, profiles and command lists of association groups end up at the group each report names, in whatever order the reports come, and a report for an unknown group changes nothing and does not fail. Another interview takes nothing away.",
     "inputs schedules", "every order of reports for known and unknown groups, unsolicited ones included", "tests deliver one report each", "pyzwave/commandclass/AssociationGrpInfo.py",
     [("group information", "AssociationGrpInfo")], ["groups of the association group information command class"], "Up to two groups and three reports.", AI + "value provenance", thorough=False)
prop("C04", "The value of a configuration parameter is the one last reported for that very parameter",
     "Reading a configuration parameter returns the value reported for that very parameter - the remembered one when it is known and may be used, otherwise a fresh one asked from the node, and never the value of another parameter reported meanwhile. "
     "Every report updates exactly its own parameter and is stored once. Setting a parameter sends its number, size and value, and does not change what is remembered.",
     "inputs histories", "every history of three (thorough: five) reports, requests and settings of two parameters; all values of all sizes (symbolic) for single reports", "tests use one parameter and one report", "pyzwave/commandclass/Configuration.py pyzwave/node.py",
     [("configuration", "Configuration.get, Configuration.set and the report handler")], ["commands sent", "values returned", "Configuration.parameters", "nodeUpdated"], "All histories up to the bound.", AI + "value provenance over histories")
prop("C05", "Sensor readings of unsupported types or scales do not reach the listeners, all others do",
     "A sensor report reaches the listeners of the node once if its sensor type and scale are among those the device said it supports, or if the device did not say (older versions); otherwise it is suppressed and counts as handled. This also holds for what was known before a restart.",
     "inputs", "versions, supported types and scale masks, fresh or read back from storage; all readings (symbolic)", "tests use two fixed reports", "pyzwave/commandclass/SensorMultilevel.py",
     [("sensor report filter", "SensorMultilevel report handler")], ["onReport and onMessage listeners", "result of handleMessage"], "All combinations.", AI + "effects per path", thorough=False)
prop("C06", "What was stored last is what the command class knows",
     "Whenever a command class has learned something from its node - by an interview, a version request, a request of the application or a report, completed, timed out, failed or cancelled - the last stored settings of the node are what the command class then knows.",
     "inputs histories faults", "every command class with state, interviewed for the first time or again, silence, failing sends, errors and cancellation at every question", "tests look at the interview result, not at what was stored", CF + " pyzwave/commandclass/Configuration.py pyzwave/commandclass/SensorMultilevel.py",
     [("announcing changes", "commandClassUpdated in CommandClass.py and the command classes"), ("interview", "interviewDecorator")], ["nodeUpdated of the storage", "attributes of the command classes"], "All fault positions up to the fourth question.", AI + "dataflow from every state change to a store")
prop("C07", "No report can make its handling fail or leave half of it behind",
     "A decodable report never makes its handling fail, however short it is or whatever its contents; a report that ends before its value changes nothing, and a report about one thing never changes what is known about another.",
     "inputs", "all prefixes of reports to the classes with handlers, nonsense contents, sends that succeed or fail", "tests use complete reports", "pyzwave/commandclass/Configuration.py pyzwave/commandclass/AssociationGrpInfo.py pyzwave/commandclass/SensorMultilevel.py",
     [("report handlers", "handlers registered with ZWaveMessageHandler")], ["result of handleMessage", "attributes of the command classes"], "All prefixes of the sample reports.", AI + "exception flow of the report handlers", thorough=False)
prop("C08", "A message handler handles the messages of its own class and of derived classes only",
     "A handler registered in a command class handles exactly the messages it is registered for, in that class and in classes derived from it unless they replace it; it is never used for the class it derives from or for unrelated classes.",
     "inputs", "classes with and without own handlers, derived, replaced and inherited ones, all their messages", "tests have no derived command classes", "pyzwave/commandclass/__init__.py pyzwave/commandclass/CommandClass.py",
     [("handler registration", "ZWaveMessageHandler"), ("dispatch", "CommandClass.handleMessage")], ["result of CommandClass.handleMessage", "listeners of the command class"], "All combinations.", AI + "class registry evaluated statically", thorough=False)
