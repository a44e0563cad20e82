prop("U01", "Listeners are isolated from each other and from the speaker",
     "A message spoken reaches every listener that has a method for it exactly once, with the speaker and the arguments, whatever the other listeners do: a listener that raises, is slow or whose task is cancelled disturbs neither the other listeners nor the speaker. Asking returns the answers of the listeners that answered, in the order the listeners were added.",
     "schedules faults", "three listeners of every kind (absent, plain, coroutine, slow, raising, cancelled), slow ones finishing in any order", "tests use one or two well behaved listeners",
     "pyzwave/util.py", [("listeners", "Listenable in pyzwave/util.py")], ["calls of the listeners", "result of ask"], "All combinations of three listeners and all orders of their ends.", AI + "effects and exceptions per path", thorough=False)
prop("U02", "Two objects of one kind never share mutable state",
     "Two messages of a type, the command classes of two nodes, and two instances of each component never share a mutable value: changing a list, set or nested value of one is never visible in another one, including defaults of fields that were never set.",
     "inputs", "every message type, every command class, every component class", "a test that looks at one instance cannot see sharing", "pyzwave/message.py pyzwave/util.py pyzwave/commandclass/__init__.py pyzwave/commandclass/CommandClass.py pyzwave/node.py pyzwave/application.py pyzwave/mailbox.py pyzwave/zipgateway.py pyzwave/zipconnection.py pyzwave/connection.py",
     [("field defaults", "Message.__getattr__"), ("attribute defaults", "AttributesMixin in pyzwave/util.py"), ("constructors", "every component")], ["identity of the values of two instances"],
     "Every message type, command class and component.", "heap reachability (escape/alias analysis) over abstractly constructed pairs of objects", thorough=False)
prop("U03", "Every module can be imported first and yields the same command registry",
     "Importing any module of the library first, in a fresh interpreter, succeeds, and whichever is first, the registry of supported commands is the same complete one.",
     "inputs", "every module of the package", "the test suite imports modules in one order only", "pyzwave/__init__.py pyzwave/message.py pyzwave/commandclass/__init__.py pyzwave/commandclass/CommandClass.py pyzwave/node.py",
     [("imports and registration", "all modules")], ["import errors", "pyzwave.commandclass.ZWaveMessage"], "Every module as the first one.", "import-order analysis: abstract execution of the module bodies in dependency order", thorough=False)
prop("U04", "Declared attributes keep their type; every change is announced once and changes nothing else",
     "A value assigned to a declared attribute of a message, command class or group is read back as that value in the declared type (nested attributes and tables from their stored form as well), and the very same object if it had the type already. "
     "An assignment that changes the value is announced exactly once with the name, the new and the old value; one that does not, is refused, or reads, is not announced. Reading an attribute never set gives a default of its type that stays the same object. No other attribute and no other object changes, and the state contains exactly the attributes that have a value.",
     "histories", "every history of three assignments, loads, reads and changes of nested values over plain, list, nested, tuple and table attributes", "tests assign one attribute once",
     "pyzwave/util.py pyzwave/commandclass/CommandClass.py", [("attributes", "AttributesMixin in pyzwave/util.py"), ("tables", "VarDictAttribute in pyzwave/commandclass/CommandClass.py")], ["attributes read", "attributeUpdated", "__getstate__"],
     "All histories of length 3 over 18 actions, on a class declared by the check with one attribute of each kind.", "abstract interpretation with a typed shadow model; aliasing by abstract object identity", thorough=False)
