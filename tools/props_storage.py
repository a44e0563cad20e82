SF = "pyzwave/persistantstorage.py pyzwave/commandclass/CommandClass.py pyzwave/util.py"
MF = "pyzwave/mailbox.py"

prop("P01", "What is stored for a node is what the same node knows after a restart",
     "The settings stored for a node and loaded again - text only, as the storage gives them - leave every command class with exactly the attributes, version and interview state it had, for this node and end point only; storing what was loaded stores the same again. No two nodes or end points share a file, and the same one is always stored in the same. "
     "Only plain values are stored, and storing works from the first time on, when there is no directory yet.",
     "inputs histories", "every command class with state, complete and incomplete interviews, reports of configuration values and association groups, root nodes and end points, fresh and existing directories", "tests load one attribute and never look at what is written", SF,
     [("storing and loading", "YamlStorage.nodeUpdated, nodeAdded"), ("state of attributes", "__getstate__ and __setstate__ of the command classes and attribute types")], ["attributes of the command classes after nodeAdded", "files written"],
     "The file system and the YAML format are modelled (every scalar comes back as text).", AI + "file system and document effects, value provenance through the stored document", thorough=False)
prop("P02", "Interrupted storing leaves the old or the new settings",
     "Whenever the program ends or a step fails while the settings of a node are stored, the settings found later are completely the old or completely the new ones, and storing again works.",
     "faults", "a crash after every step and a failure of every step of storing, first time or not", "tests never interrupt a write", SF, [("storing", "YamlStorage.nodeUpdated")], ["settings loaded after the interruption"],
     "Writes may be cut anywhere; the operating system is assumed to rename atomically and keep the order of completed steps.", AI + "file system effects at every crash point", thorough=False)
prop("M01", "A pushed mailbox message is kept if and only if that was acknowledged, once, and delivered in order",
     "A message pushed to the mailbox is announced as waiting, and it is kept if and only if this announcement could be sent; a message equal to one waiting in the same queue is not queued again, also when both are pushed at the same time. Everything kept is later delivered once, in the order it was pushed, each queue on its own.",
     "schedules histories faults", "every history of three (thorough: four) pushes to two queues with equal and different messages, announcements sent, not sent, failing or delayed", "tests push one message with an immediate answer", MF,
     [("accepting messages", "MailboxService push")], ["commands sent to the mailbox proxy"], "All histories up to the bound.", AI + "check-then-act races across suspension points")
prop("M02", "A node that wakes up gets every waiting message once, in order, the last one marked",
     "A wake-up or acknowledgement of a queue is answered with the oldest waiting message of that queue, marked as last if and only if none follows, or with an empty last answer when nothing waits; a message stays waiting until it was sent once, and it is not sent again while it is being sent. An acknowledgement without queue means the queue that woke up last, and is ignored when there is none.",
     "schedules histories faults", "every history of three (thorough: four) wake-ups, acknowledgements, pushes and ends of delayed sends, with zero to three messages, sends that succeed, fail, raise or take long", "tests pop one message", MF,
     [("delivering messages", "MailboxService pop")], ["commands sent to the mailbox proxy"], "All histories up to the bound.", AI + "typestate of every queued message")
prop("M03", "A waiting message is announced every minute until it is delivered, and not longer",
     "From its acceptance until its delivery a message is announced once a minute, every tenth time by a ping, also after announcements that failed; a message not accepted or already delivered is never announced.",
     "histories faults", "22 (thorough: 32) minutes with one or two messages, announcements failing or taking long at several points, delivery tried at several points", "a test looks at the first ten announcements with a mocked clock", MF,
     [("heartbeats", "QueueItem")], ["commands sent to the mailbox proxy"], "Up to 32 minutes.", AI + "timers and their cancellation over logical time")
prop("M04", "Enabling the mailbox directs it to this program, and only commands for the mailbox concern it",
     "Enabling the mailbox sends exactly one command to the controller that switches the mailbox proxy on and names the given address and port as destination, and reports whether that was acknowledged. A command that is neither a push, an acknowledgement nor a wake-up - any other command of the registry, a queue command with another operation, a message that merely looks alike, a push or wake-up that ends before its queue - is not answered, not reported as handled, never fails and leaves every waiting message where it was.",
     "inputs faults", "every command of the registry and every queue operation, with and without waiting messages; enabling acknowledged, not acknowledged and failing", "tests enable it once with a mock and send it one foreign message", MF,
     [("enabling", "MailboxService.initialize"), ("receiving", "MailboxService.messageReceived")], ["commands sent to the mailbox proxy"], "Every registered command, without contents.", AI + "effects of every received message type", thorough=False)
