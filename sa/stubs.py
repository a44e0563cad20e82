"""Environment classes, analysed together with the program."""
SRC = '''
from pyzwave.adapter import Adapter
from pyzwave.commandclass import Basic, Configuration, SwitchBinary, ZWaveMessageHandler
from pyzwave.commandclass.CommandClass import CommandClass


class StubAdapter(Adapter):
    """An adapter whose transmissions are decided by the scenario."""

    def __init__(self, hook):
        super().__init__()
        self.hook = hook

    async def send(self, cmd, sourceEP=0, destEP=0, timeout=3):
        return await self.hook("send", 0, cmd, sourceEP, destEP, timeout)

    async def sendToNode(self, nodeId, cmd, sourceEP=0, destEP=0, timeout=3):
        return await self.hook("sendToNode", nodeId, cmd, sourceEP, destEP, timeout)

    async def connect(self):
        return await self.hook("connect")

    async def addNode(self, txOptions):
        return await self.hook("addNode", txOptions)

    async def addNodeDSKSet(self, accept, inputDSKLength, dsk):
        return await self.hook("addNodeDSKSet", accept, inputDSKLength, dsk)

    async def addNodeKeysSet(self, grantCSA, accept, grantedKeys):
        return await self.hook("addNodeKeysSet", grantCSA, accept, grantedKeys)

    async def addNodeStop(self):
        return await self.hook("addNodeStop")

    async def getFailedNodeList(self):
        return await self.hook("getFailedNodeList")

    async def getMultiChannelCapability(self, nodeId, endpoint):
        return await self.hook("getMultiChannelCapability", nodeId, endpoint)

    async def getMultiChannelEndPoints(self, nodeId):
        return await self.hook("getMultiChannelEndPoints", nodeId)

    async def getNodeInfo(self, nodeId):
        return await self.hook("getNodeInfo", nodeId)

    async def getNodeList(self):
        return await self.hook("getNodeList")

    async def removeFailedNode(self, nodeId):
        return await self.hook("removeFailedNode", nodeId)

    async def removeNode(self):
        return await self.hook("removeNode")

    async def removeNodeStop(self):
        return await self.hook("removeNodeStop")

    async def setNodeInfo(self, generic, specific, cmdClasses):
        return await self.hook("setNodeInfo", generic, specific, cmdClasses)


async def locked(node, until):
    """Hold the storage lock of a node until the given awaitable ends."""
    with node.storageLock():
        await until()


class SpecialConfiguration(Configuration.Configuration):
    """A command class derived from another one, with handlers of its own."""

    seen = ()

    @ZWaveMessageHandler(Configuration.BulkReport)
    async def __bulk__(self, report, _flags):
        self.seen = self.seen + ("bulk",)
        return True

    @ZWaveMessageHandler(Configuration.Set)
    async def __set__handler__(self, report, _flags):
        self.seen = self.seen + ("set",)
        return False


class OtherConfiguration(Configuration.Configuration):
    """Another one, replacing an inherited handler."""

    seen = ()

    @ZWaveMessageHandler(Configuration.Report)
    async def __own__(self, report, _flags):
        self.seen = self.seen + ("report",)
        return True


class PlainSpecial(SpecialConfiguration):
    """No handlers of its own."""


class Switch(CommandClass):
    """A command class with one handler for two classes' messages."""

    NAME = "SWITCH"
    seen = ()

    @ZWaveMessageHandler(SwitchBinary.Set)
    async def __switch__(self, report, _flags):
        self.seen = self.seen + ("switch",)
        return True
'''
