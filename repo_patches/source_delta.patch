From 39bb211ff8a41df1ce0f8ac798a32478b84fa85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 01/67] fix: refuse bit field values that do not fit instead of
 changing their neighbours

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..c8ad6d0 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -70,6 +70,8 @@ class BitStreamWriter(bytearray):
 
     def addBits(self, value, size):
         """Add size number of bits to the stream"""
+        if not 0 <= value < 1 << size:
+            raise OverflowError("{} does not fit in {} bits".format(value, size))
         byte = 0
         if self._start == 0:
             # Start new byte
-- 
2.43.0


From c91264cd9a64b1607887ee1a4a838cd98475ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 02/67] fix: never move the stream reader backwards on a bogus
 length

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index c8ad6d0..1bfcd77 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -54,6 +54,8 @@ class BitStreamReader:
     def value(self, size: int, advance: bool = True) -> bytes:
         """Return the next size number of bytes from the stream"""
         startByte = int(self._start / 8)
+        if size < 0:
+            raise EOFError("Tried to read backwards")
         if advance:
             self.advance(size * 8)
         if startByte + size > len(self._value):
-- 
2.43.0


From bf94dfa4eb227adff4748c5b59a750db9e1cfe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 03/67] fix: the first byte of the supported sensor bit mask
 holds the lowest types

---
 pyzwave/commandclass/SensorMultilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..2036c4c 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,7 +56,7 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-- 
2.43.0


From 44081e8e6443c87a8a99a9a8ccb0d0aba934ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 04/67] fix: write the length in front of a supervised command

---
 pyzwave/commandclass/Supervision.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..88bf8f2 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,5 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import BitStreamReader, BitStreamWriter, bits_t, flag_t, reserved_t, uint8_t
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +23,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From aa374cac9b8a892f5cc61cfd916165d5c4489710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 05/67] fix: decode CONFIGURATION_SET

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..b54b6cb 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the value"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From 10c21e211151a207a62567ae7c3e6e78b19939f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 06/67] fix: ignore header extension options that are not
 supported, keep the packet

---
 pyzwave/commandclass/Zip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..677bc41 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -134,6 +134,10 @@ class ZIPPacketOptionEncapsulationFormatInfo(ZIPPacketOptionData, AttributesMixi
     )
 
 
+class ZIPPacketOptionUnknown(ZIPPacketOptionData, bytes_t):
+    """Option not (yet) implemented"""
+
+
 class ZIPPacketOptionExpectedDelay(ZIPPacketOptionData, int24_t):
     """Zip Packet option expexted delay"""
 
@@ -159,7 +163,7 @@ class ZIPPacketOption(AttributesMixin):
 
     def parse_optionData(self, stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse attribute optionData"""
-        clsType = ZIPPacketOptionData
+        clsType = ZIPPacketOptionUnknown
         length = stream.byte()
         data = stream.value(length)
         if self.optionType == ZIPPacketOptionType.MAINTENANCE_REPORT:
@@ -204,6 +208,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if isinstance(option.optionData, ZIPPacketOptionUnknown):
+                # Not supported, must not stop the packet from being received
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From 1b1cc2750641f55632409f01cb8319187bd60f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 07/67] fix: ignore unknown elements in a maintenance report,
 keep the packet

---
 pyzwave/commandclass/Zip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 677bc41..5903955 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,13 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            if imeType not in list(IMEType):
+                # Added in a later version of the specification
+                continue
+            imeType = IMEType(imeType)
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
-- 
2.43.0


From fbca7e6c40574babe4f00e89b503d5e813b92da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 08/67] fix: ignore sensor types that are not known, keep the
 rest of the report

---
 pyzwave/commandclass/SensorMultilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 2036c4c..22fdc96 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -59,7 +59,7 @@ class SensorSupported(set):
         value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
-            if value & 1 == 1:
+            if value & 1 == 1 and i in list(SensorType):
                 supported.add(SensorType(i))
             value >>= 1
             i += 1
-- 
2.43.0


From babe769ec1cad0cae77e1666fc93f3d4d2c54f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 09/67] fix: send reserved bits as zero in their own width,
 also for a decoded message

---
 pyzwave/message.py | 6 +++++-
 pyzwave/types.py   | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..e8658e5 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -1,6 +1,6 @@
 import logging
 
-from pyzwave.types import BitStreamReader, BitStreamWriter
+from pyzwave.types import BitStreamReader, BitStreamWriter, ReservedBase
 from pyzwave.util import AttributesMixin
 
 _LOGGER = logging.getLogger(__name__)
@@ -25,6 +25,10 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
+            if issubclass(attrType, ReservedBase):
+                # Reserved bits share their name, a decoded value could be from any of them
+                attrType(attrType.default).serialize(stream)
+                continue
             if name not in self._attributes:
                 default = getattr(attrType, "default", None)
                 if default is not None:
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 1bfcd77..d7e995c 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -324,13 +324,18 @@ class float_t(float):  # pylint: disable=invalid-name
         return (value, size, scale)
 
 
+class ReservedBase(BitsBase):
+    """Base type for bits that are reserved"""
+
+    default = 0
+
+
 def reserved_t(size):  # pylint: disable=invalid-name
     """Return the type for bits that are reserved and must not be used"""
     # pylint: disable=redefined-outer-name
-    class reserved_t(BitsBase):  # pylint: disable=invalid-name
+    class reserved_t(ReservedBase):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
-        default = 0
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From 56c3254e4594320b0f3d29c5c3e05c42ef9377c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 10/67] fix: reject a header extension option without a length

---
 pyzwave/commandclass/Zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 5903955..c9d1c59 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -210,6 +210,8 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         extLength = stream.byte() - 1
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
+            if reader.bytesLeft() < 2:
+                raise EOFError("Header extension option is cut short")
             option = ZIPPacketOption()
             option.parseAttributes(reader)
             if isinstance(option.optionData, ZIPPacketOptionUnknown):
-- 
2.43.0


From 57abeb70e0c818fde6ae0bbf5313b0aaa092b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 11/67] fix: reject a group info report with fewer groups than
 it announces

---
 pyzwave/commandclass/AssociationGrpInfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..ff223b9 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -135,7 +135,8 @@ class GroupInfoReport(Message):
         retval = []
         for _ in range(int(self.groupCount)):
             grp = GroupInfoGroupType()
-            grp.parseAttributes(stream)
+            # Each entry is seven bytes, never accept a partial one
+            grp.parseAttributes(BitStreamReader(stream.value(7)))
             retval.append(grp)
         return retval
 
-- 
2.43.0


From 6a687f4ea95dd27cf9ef71d518262c1b3ee50fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 12/67] fix: taking the remaining bytes leaves the reader at
 the end, not beyond it

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index d7e995c..780f0e8 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -48,7 +48,7 @@ class BitStreamReader:
         """Return all the remaining bytes in the stream"""
         startByte = int(self._start / 8)
         if advance:
-            self.advance(len(self._value) * 8)
+            self._start = max(self._start, len(self._value) * 8)
         return self._value[startByte:]
 
     def value(self, size: int, advance: bool = True) -> bytes:
-- 
2.43.0


From 6c8751f2f193b6b1dad7f9757e1d11eedc8af1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 13/67] fix: refuse DSK texts with groups that do not fit in 16
 bits

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 780f0e8..fd44556 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -374,6 +374,8 @@ class dsk_t:  # pylint: disable=invalid-name
         dsk = bytearray(16)
         for i, value in enumerate(fields):
             word = int(value, base=10)
+            if not 0 <= word <= 0xFFFF:
+                raise ValueError("DSK group {} is not a 16 bit value".format(value))
             dsk[i * 2] = (word >> 8) & 0xFF
             dsk[i * 2 + 1] = word & 0xFF
         self._dsk = bytes(dsk)
-- 
2.43.0


From 8003db76cf605561e630a50f459dcc7f9da5bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 14/67] fix: a queued packet without an expected delay is still
 an acknowledgement

---
 pyzwave/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..f86d815 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -78,7 +78,8 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             ack = self._ackQueue.get(ackId, None)
             if not ack:
                 return False
-            ack.queued(zipPkt.headerExtension.expectedDelay)
+            # The expected delay is optional
+            ack.queued(getattr(zipPkt.headerExtension, "expectedDelay", 0))
             return True
         ack = self._ackQueue.pop(ackId, None)
         if not ack:
-- 
2.43.0


From f74f7cf246f07870f4eae822d4ef1bce49128926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 15/67] fix: forget the ack of a cancelled send

---
 pyzwave/adapter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index f86d815..8b95c2f 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -234,5 +234,8 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            # Not only on timeout, the waiting task can also be cancelled
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From 6c610fd7ccb81e71c262c2d758eda85a0c5a21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 16/67] fix: do not reuse the sequence number of a message that
 waits for a sleeping node

---
 pyzwave/zipconnection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..160f38a 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -74,6 +74,14 @@ class ZIPConnection(Adapter):
         self._conn.send(msg.compose())
         self.resetKeepAlive()
 
+    def nextSequenceNumber(self) -> int:
+        """Returns the next sequence number not used by a message still waiting for its ack"""
+        for i in range(1, 257):
+            seqNo = (self._seq + i) & 0xFF
+            if seqNo not in self._ackQueue:
+                return seqNo
+        raise Exception("No free sequence number")
+
     def onPacket(self, pkt):
         """Called when a packed has recevied from the connection"""
         try:
@@ -138,7 +146,7 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
-        self._seq = (self._seq + 1) & 0xFF
+        self._seq = self.nextSequenceNumber()
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 8abdcb9cf0e32b0831971ed6cd594cdc8eb1638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 17/67] fix: give every waiter its own session, and forget it
 when the wait has ended

---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 pyzwave/util.py    | 26 +++++++++++++++-----------
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 8b95c2f..d726426 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -212,8 +212,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..80784b6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..db3d30c 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -174,20 +174,24 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
-            session.set_result(message)
-            return True
-        return False
+        handled = False
+        for session in self._sessions.pop(message.hid(), []):
+            if not session.done():
+                session.set_result(message)
+                handled = True
+        return handled
+
+    def removeWaitingSession(self, msgType, session):
+        """Remove a session that will not be waited for any longer"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
@@ -199,5 +203,5 @@ class MessageWaiter:
             _LOGGER.warning("Timeout waiting for message %s", msgType)
             raise
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From d188528c9c3cd43e914493afd3a0d17a8f1113d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 18/67] fix: a packet that ends before its announced command is
 not delivered

---
 pyzwave/zipconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 160f38a..3570579 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -107,7 +107,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
-- 
2.43.0


From 171c8793bc1fa35e1d376b7a833a576355a6dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 19/67] fix: ignore unsolicited datagrams that cannot be
 decoded or carry no command

---
 pyzwave/zipgateway.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..dca98e2 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -263,7 +263,15 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message. Raw message:")
+            _LOGGER.error("%s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket):
+            _LOGGER.warning("Unknown unsolicited packet from %s: %s", address, zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
@@ -279,6 +287,9 @@ class ZIPGateway(ZIPConnection):
                 ackReponse = zipPkt.response(success=True)
                 self._unsolicitedConnection.sendTo(ackReponse.compose(), address)
 
+            if zipPkt.command is None:
+                # Nothing but transport information in this packet
+                return True
             self.speak(
                 "messageReceived",
                 nodeId,
-- 
2.43.0


From a43dc4ecb7a6fb2d5a3671840b2d271de1164630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 20/67] fix: losing a connection whose supervision already
 ended is no error

---
 pyzwave/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index 6a41a8f..09a10ea 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -29,7 +29,8 @@ class ZipClientProtocol:
     def connection_lost(self, exc):  # pylint: disable=invalid-name
         """Called when connection is lost"""
         _LOGGER.warning("Connection closed %s", exc)
-        self.onConLost.set_result(True)
+        if not self.onConLost.done():
+            self.onConLost.set_result(True)
 
 
 class Connection:
-- 
2.43.0


From cacb9ad5a9098fb986e68c8182fb875691cae0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 21/67] fix: do not forget a stop requested right after the
 connection was set up

---
 pyzwave/dtlsconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 133aef1..79c3140 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -68,8 +68,8 @@ class DTLSConnection(threading.Thread):
 
     def run(self):  # pylint: disable=missing-function-docstring
         self._sock = self.createDtlsPskSock()
-        self._loop.call_soon_threadsafe(self._connectionEvent.set)
         self._running = True
+        self._loop.call_soon_threadsafe(self._connectionEvent.set)
         while self._running:
             try:
                 if self._server:
-- 
2.43.0


From a218b1ca4ba9e2b978654339a90c28a74c1e9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 22/67] fix: never write a psk or identity beyond the buffers
 given by the tls library

---
 pyzwave/dtlsconnection.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 79c3140..9aaeb66 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -104,17 +104,24 @@ class DTLSConnection(threading.Thread):
         """Stop the thread"""
         self._running = False
 
-    def clientPskCb(self, _ssl, _hint, identity, _maxIdenityLen, cpsk, _maxPskLen):
+    def clientPskCb(self, _ssl, _hint, identity, maxIdentityLen, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        # The identity is a null terminated string
+        iden = "Client_identity".encode("utf-8") + b"\0"
+        if length > maxPskLen or len(iden) > maxIdentityLen:
+            _LOGGER.error("The psk or its identity is too long")
+            return 0
         memmove(cpsk, self._psk, length)
-        iden = "Client_identity"
-        memmove(identity, iden.encode("utf-8"), len(iden))
+        memmove(identity, iden, len(iden))
         return length
 
-    def serverPskCb(self, _ssl, _identity, cpsk, _maxPskLen):
+    def serverPskCb(self, _ssl, _identity, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        if length > maxPskLen:
+            _LOGGER.error("The psk is too long")
+            return 0
         memmove(cpsk, self._psk, length)
         return length
 
-- 
2.43.0


From 533134d83254c36439f7507746b579e74a908ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 23/67] fix: ignore unsolicited packets that end within their
 header

---
 pyzwave/zipgateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index dca98e2..fa34e29 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -269,7 +269,7 @@ class ZIPGateway(ZIPConnection):
             _LOGGER.error("Could not decode unsolicited message. Raw message:")
             _LOGGER.error("%s", pkt)
             return False
-        if not isinstance(zipPkt, Zip.ZipPacket):
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.destEP is None:
             _LOGGER.warning("Unknown unsolicited packet from %s: %s", address, zipPkt)
             return False
         sourceIp = ipaddress.IPv6Address(address[0])
-- 
2.43.0


From cce096a3437230406334ff9b3333fab04919e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 24/67] fix: keep the network management sequence number within
 its byte

---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index fa34e29..d74d280 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -206,7 +206,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -221,7 +221,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -233,7 +233,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From cc92409a2aed8c3153d489734344b04133013005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 25/67] fix: report failure of a network management command
 that was not acknowledged

---
 pyzwave/zipgateway.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d74d280..db7f8d9 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -40,10 +40,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
@@ -53,10 +52,9 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
@@ -69,10 +67,9 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeStop(self) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -82,10 +79,9 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def connect(self):
         await super().connect()
@@ -227,10 +223,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def removeNodeStop(self) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -239,10 +234,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     def onMessageReceived(self, connection: ZIPConnection, message: Message):
         """Called when a message is received from any node connection. Not unsolicited."""
@@ -316,7 +310,8 @@ class ZIPGateway(ZIPConnection):
                 timeout=timeout,
             )
             if report.mode != mode:
-                await self.send(ZipGateway.GatewayModeSet(mode=mode))
+                cmd = ZipGateway.GatewayModeSet(mode=mode)
+                return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             _LOGGER.error("Got timeout waiting for gateway mode report")
             return False
-- 
2.43.0


From 5cb489a56202e2e08d6f56149096f1780a3d0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 26/67] fix: a multi channel end point report without
 aggregated end points is valid

---
 pyzwave/zipgateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index db7f8d9..e91dbb7 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -124,7 +124,7 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
-- 
2.43.0


From d2110dae1aec56a796995097a223d936e7cb320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 27/67] fix: take the address of a node only from the
 advertisement of that node

---
 pyzwave/util.py       | 25 ++++++++++++++++---------
 pyzwave/zipgateway.py |  7 ++++++-
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index db3d30c..e2d3054 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -169,29 +169,36 @@ class MessageWaiter:
         super().__init__()
         self._sessions = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, match=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+        If match is supplied only messages it returns true for are waited for.
         """
         session = asyncio.get_event_loop().create_future()
-        self._sessions.setdefault(msgType.hid(), []).append(session)
+        self._sessions.setdefault(msgType.hid(), []).append((session, match))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
         handled = False
-        for session in self._sessions.pop(message.hid(), []):
-            if not session.done():
-                session.set_result(message)
-                handled = True
+        remaining = []
+        for session, match in self._sessions.pop(message.hid(), []):
+            if session.done():
+                continue
+            if match and not match(message):
+                remaining.append((session, match))
+                continue
+            session.set_result(message)
+            handled = True
+        if remaining:
+            self._sessions[message.hid()] = remaining
         return handled
 
     def removeWaitingSession(self, msgType, session):
         """Remove a session that will not be waited for any longer"""
         sessions = self._sessions.get(msgType.hid(), [])
-        if session in sessions:
-            sessions.remove(session)
+        sessions[:] = [entry for entry in sessions if entry[0] is not session]
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index e91dbb7..f777048 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -195,8 +195,13 @@ class ZIPGateway(ZIPConnection):
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
+        session = self.addWaitingSession(
+            ZipND.ZipNodeAdvertisement, lambda response: response.nodeId == nodeId
+        )
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement, timeout=3, session=session
+        )
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From 47a207d4b88240c4457c16254ec74c9ee882e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 28/67] fix: a node without an address must not hide the other
 nodes, nor a removed node come back

---
 pyzwave/zipgateway.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index f777048..4c09638 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -184,14 +184,26 @@ class ZIPGateway(ZIPConnection):
                 continue
             del self._nodes[nodeId]
 
-        # Find new nodes
+        # Add new nodes
         for nodeId in report.nodes:
-            if nodeId in self._nodes:
-                continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+            self._nodes.setdefault(nodeId, {})
+        await self.__retrieveAddresses__()
         self.speak("nodeListUpdated")
 
+    async def __retrieveAddresses__(self):
+        """Retrieve the ip-address of all nodes where it is not known yet"""
+        for nodeId in list(self._nodes.keys()):
+            if self._nodes.get(nodeId, {}).get("ip"):
+                continue
+            try:
+                ipv6 = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Could not get the ip-address of node %s", nodeId)
+                continue
+            if nodeId in self._nodes:
+                # Not removed meanwhile
+                self._nodes[nodeId] = {"ip": ipv6}
+
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
@@ -338,6 +350,5 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.getNodeList()
+        await self.__retrieveAddresses__()
-- 
2.43.0


From 2bd63b1f86ef05cef872d5c10bdeb4649aa55fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 29/67] fix: open only one connection to a node, also when
 several tasks need it at once

---
 pyzwave/zipgateway.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 4c09638..98112ae 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectionLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -90,16 +91,18 @@ class ZIPGateway(ZIPConnection):
 
     async def connectToNode(self, nodeId) -> ZIPConnection:
         """Returns a connection to the node"""
-        if nodeId in self._connections:
-            return self._connections[nodeId]
-
-        ipv6 = await self.ipOfNode(nodeId)
-
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+        lock = self._connectionLocks.setdefault(nodeId, asyncio.Lock())
+        async with lock:
+            if nodeId in self._connections:
+                return self._connections[nodeId]
+
+            ipv6 = await self.ipOfNode(nodeId)
+
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From 07353cffbb5b5dd86825e2224e10184bbd0ee9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 30/67] fix: give a report only to the request it answers

---
 pyzwave/adapter.py                                 |  2 +-
 pyzwave/commandclass/Configuration.py              |  1 +
 pyzwave/commandclass/NetworkManagementInclusion.py |  1 +
 pyzwave/commandclass/NetworkManagementProxy.py     |  2 ++
 pyzwave/commandclass/Version.py                    |  1 +
 pyzwave/message.py                                 | 13 +++++++++++++
 pyzwave/node.py                                    |  2 +-
 7 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index d726426..4263e48 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,7 +211,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(waitFor, cmd.isAnsweredBy)
         try:
             await self.send(cmd, **kwargs)
             return await self.waitForMessage(waitFor, session=session, timeout=timeout)
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index b54b6cb..d2a264e 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -68,6 +68,7 @@ class Get(Message):
     """Command Class message COMMAND_CLASS_CONFIGURATION CONFIGURATION_GET"""
 
     NAME = "GET"
+    correlation = ("parameterNumber",)
     attributes = (("parameterNumber", uint8_t),)
 
 
diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..89d7b6d 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -46,6 +46,7 @@ class FailedNodeRemove(Message):
     """Command Class message COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION FAILED_NODE_REMOVE"""
 
     NAME = "FAILED_NODE_REMOVE"
+    correlation = ("nodeID",)
 
     attributes = (
         ("seqNo", uint8_t),
diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..cbd62c4 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -76,6 +76,7 @@ class MultiChannelCapabilityGet(Message):
     """
 
     NAME = "NM_MULTI_CHANNEL_CAPABILITY_GET"
+    correlation = ("nodeID", "endPoint")
 
     attributes = (
         ("seqNo", uint8_t),
@@ -116,6 +117,7 @@ class MultiChannelEndPointGet(Message):
     """
 
     NAME = "NM_MULTI_CHANNEL_END_POINT_GET"
+    correlation = ("nodeID",)
 
     attributes = (
         ("seqNo", uint8_t),
diff --git a/pyzwave/commandclass/Version.py b/pyzwave/commandclass/Version.py
index fd4a3cb..46e6da3 100644
--- a/pyzwave/commandclass/Version.py
+++ b/pyzwave/commandclass/Version.py
@@ -61,6 +61,7 @@ class VersionCommandClassGet(Message):
     """Command Class message COMMAND_CLASS_VERSION VERSION_COMMAND_CLASS_GET"""
 
     NAME = "VERSION_COMMAND_CLASS_GET"
+    correlation = ("requestedCommandClass",)
     attributes = (("requestedCommandClass", uint8_t),)
 
 
diff --git a/pyzwave/message.py b/pyzwave/message.py
index e8658e5..8a2e3a9 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -10,6 +10,8 @@ class Message(AttributesMixin):
     """Base class for all Z-Wave messages. This class should not be initiated manually"""
 
     NAME = None
+    # Fields an answer must repeat to belong to this request
+    correlation = ()
 
     def cmdClass(self) -> int:
         """Return the command class id for this message"""
@@ -73,6 +75,17 @@ class Message(AttributesMixin):
         name = self.NAME or "0x{:02X}".format(cmd)
         return "<Z-Wave {}.{}>".format(cmdClassName, name)
 
+    def isAnsweredBy(self, response) -> bool:
+        """
+        Returns true if the response belongs to this request. The response must repeat
+        the values of the fields listed in the class attribute 'correlation'.
+        """
+        for name in self.correlation:
+            value = getattr(response, name)
+            if value is not None and value != getattr(self, name):
+                return False
+        return True
+
     @classmethod
     def decode(cls, pkt: bytearray):
         """Decode a raw bytearray into a Message object"""
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 80784b6..c34d48b 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,7 +244,7 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(waitFor, cmd.isAnsweredBy)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
-- 
2.43.0


From d09deddff1964157759dc790935c1fdd2753fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 31/67] fix: a failing asynchronous listener must not disturb
 the other listeners or the speaker

---
 pyzwave/util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index e2d3054..fee3f11 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -136,7 +136,17 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        results = await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        )
+        retval = []
+        for result in results:
+            if isinstance(result, BaseException):
+                # One failing listener must not hide the answers from the others
+                _LOGGER.warning("Error calling listener.%s: %r", message, result)
+                continue
+            retval.append(result)
+        return retval
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From cd2c9c00143007027f925d3ae328af691019ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 32/67] fix: do not update the nodes from several tasks at the
 same time

---
 pyzwave/application.py | 68 ++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..860254d 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,8 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        # Loading nodes takes time, updates must not work on the nodes at the same time
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,30 +100,37 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
-        nodeList = await self.adapter.getNodeList()
-        nodesToRemove = []
-        for nodeId, node in self._nodes.items():
-            if node.rootNodeId in nodeList:
-                continue
-            nodesToRemove.append(nodeId)
-        for nodeId in nodesToRemove:
-            del self._nodes[nodeId]
-            await self.ask("nodeRemoved", nodeId)
-        # For clients supporting batch removing
-        if nodesToRemove:
-            await self.ask("nodesRemoved", nodesToRemove)
-
-        # Find new nodes
-        newNodes = []
-        for nodeId in nodeList:
-            if "{}:0".format(nodeId) in self._nodes:
-                continue
-            newNodes.extend(await self.loadNode(nodeId))
+        async with self._nodesLock:
+            nodeList = await self.adapter.getNodeList()
+            nodesToRemove = []
+            for nodeId, node in self._nodes.items():
+                if node.rootNodeId in nodeList:
+                    continue
+                nodesToRemove.append(nodeId)
+            for nodeId in nodesToRemove:
+                del self._nodes[nodeId]
+                await self.ask("nodeRemoved", nodeId)
+            # For clients supporting batch removing
+            if nodesToRemove:
+                await self.ask("nodesRemoved", nodesToRemove)
+
+            # Find new nodes
+            newNodes = []
+            for nodeId in nodeList:
+                if "{}:0".format(nodeId) in self._nodes:
+                    continue
+                newNodes.extend(await self.loadNode(nodeId))
 
         if newNodes:
-            await self.ask("nodesAdded", newNodes)
-        for node in newNodes:
-            await self.ask("nodeAdded", node)
+            await self.__nodesAdded__(newNodes)
+
+    async def __nodesAdded__(self, nodes: list):
+        """Tell the listeners about new nodes"""
+        await self.ask("nodesAdded", nodes)
+        for node in nodes:
+            if self._nodes.get(node.nodeId) is node:
+                # Not removed meanwhile
+                await self.ask("nodeAdded", node)
 
     @property
     def nodes(self) -> Dict[int, Node]:
@@ -167,12 +177,12 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
-        for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
+        async with self._nodesLock:
+            for nodeId in await self.adapter.getNodeList():
+                await self.loadNode(nodeId)
 
-        for nodeId in await self.adapter.getFailedNodeList():
-            _LOGGER.warning("FAILED node %s", nodeId)
+            for nodeId in await self.adapter.getFailedNodeList():
+                _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
-            await self.ask("nodeAdded", node)
+            nodes = list(self._nodes.values())
+        await self.__nodesAdded__(nodes)
-- 
2.43.0


From 5fb82b8c6b682b04416dc0742057ff7f3eb884bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 33/67] fix: changing the default of a field must not change
 all other messages

---
 pyzwave/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 8a2e3a9..26bcf6d 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 from pyzwave.types import BitStreamReader, BitStreamWriter, ReservedBase
@@ -64,7 +65,8 @@ class Message(AttributesMixin):
             for attrName, attrType in getattr(self, "attributes"):
                 if attrName != name:
                     continue
-                return getattr(attrType, "default", None)
+                # A copy, the default is shared by all messages
+                return copy.copy(getattr(attrType, "default", None))
         return self._attributes.get(name)
 
     def __repr__(self):
-- 
2.43.0


From a792e0ba595fde424c499e05205b960b97d69fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 34/67] fix: make it possible to import any module first

---
 pyzwave/commandclass/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/__init__.py b/pyzwave/commandclass/__init__.py
index 10310d7..f76d4d2 100644
--- a/pyzwave/commandclass/__init__.py
+++ b/pyzwave/commandclass/__init__.py
@@ -53,7 +53,9 @@ class ZWaveMessageHandler:
     """Decorator for functions handeling command class messages"""
 
     def __init__(self, message):
-        self.hid = message.hid()
+        # Not message.hid(), pyzwave.message is not fully loaded if it is imported first
+        cmdClass, cmd = ZWaveMessage.reverseMapping[message]
+        self.hid = (cmdClass << 8) | (cmd & 0xFF)
         self.func = None
 
     def __call__(self, func):
-- 
2.43.0


From 497ffb6c79197aaa34796d16747136ecaab787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 35/67] fix: a supervised command that is missing is reported
 as not handled

---
 pyzwave/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index c34d48b..109e745 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,7 +27,8 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
-        if await func(self, message.command, flags):
+        command = message.command
+        if command is not None and await func(self, command, flags):
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
-- 
2.43.0


From 95775f40c41f7881f40ff86f99c863c2ac9ce08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 36/67] fix: a command class list may end with the first byte
 of a mark

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 109e745..d995d19 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -86,7 +86,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if cmdClass == 0xF1 and cmdClasses[i + 1 : i + 2] == [0x00]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 91ecad7946da1063a4bc1f03a7ac5a07e7bfb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 37/67] fix: changes of a node must be stored when the last of
 several storage locks ends

---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index d995d19..6ccc001 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -73,6 +73,7 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -274,13 +275,19 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
-        try:
+        # Locks may be nested or held by several tasks at the same time
+        self._storageLocks += 1
+        if self._storageStatus == StorageStatus.CLEAN:
             self._storageStatus = StorageStatus.LOCKED_CLEAN
+        try:
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                dirty = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if dirty:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 6d49ec5b97ec655331a77f2066bbf739dc3454e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 38/67] fix: take the scales of a sensor only from the report
 of that sensor

---
 pyzwave/commandclass/SensorMultilevel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 22fdc96..90f7075 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -101,6 +101,7 @@ class SupportedGetScale(Message):
     """
 
     NAME = "SUPPORTED_GET_SCALE"
+    correlation = ("sensorType",)
     attributes = (("sensorType", SensorType_t),)
 
 
-- 
2.43.0


From 5217742cacee76bd7bde5681bf17328b61eb64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 39/67] fix: take the nodes of an association group only from
 the report of that group

---
 pyzwave/commandclass/Association.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..90a3eec 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -194,6 +194,7 @@ class Get(Message):
     """Command Class message COMMAND_CLASS_ASSOCIATION ASSOCIATION_GET"""
 
     NAME = "GET"
+    correlation = ("groupingIdentifier",)
 
     attributes = (("groupingIdentifier", uint8_t),)
 
-- 
2.43.0


From 22f383ddace8bd222ab97c3d9494287e29edf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 40/67] fix: ignore the command list of an unknown association
 group

---
 pyzwave/commandclass/AssociationGrpInfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index ff223b9..8b60c38 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -171,6 +171,8 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
         return True
 
-- 
2.43.0


From 398f8c2e19d560bb2dbf2b026489dba3c2f3e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 41/67] fix: values of builtin types lost their stored value
 with Python 3.11 and later

---
 pyzwave/commandclass/CommandClass.py |  4 ++--
 pyzwave/util.py                      | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..4b5a21f 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from typing import Dict, Any
 
-from pyzwave.util import AttributesMixin, Listenable
+from pyzwave.util import AttributesMixin, Listenable, stateOf
 from pyzwave.commandclass import ZWaveCommandClass
 from pyzwave.message import Message
 
@@ -42,7 +42,7 @@ def VarDictAttribute(KeyType, ValueType):  # pylint: disable=invalid-name
             return "{}:\n{}".format(self.__class__.__name__, "\n".join(attrs))
 
         def __getstate__(self):
-            return {i: value.__getstate__() for i, value in self.items()}
+            return {i: stateOf(value) for i, value in self.items()}
 
         def __setitem__(self, name, value):
             if isinstance(value, ValueType):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index fee3f11..066969b 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,17 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def stateOf(value) -> Any:
+    """
+    Return the state of an attribute value. Values of builtin types have no state,
+    they are stored as they are. From Python 3.11 they do have the method __getstate__.
+    """
+    getstate = getattr(type(value), "__getstate__", None)
+    if getstate in (None, getattr(object, "__getstate__", None)):
+        return value
+    return value.__getstate__()
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,10 +91,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
-                values[attr] = value.__getstate__()
-            else:
-                values[attr] = value
+            values[attr] = stateOf(value)
         return values
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 29eca02ba481341da600b5e3799e0ab88707dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 42/67] fix: a command class not interviewed was interviewed
 after it was loaded

---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 4b5a21f..f0a5e1a 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -201,7 +201,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # The storage gives everything as strings, and all strings but the empty are true
+        self._interviewed = state.get("interviewed", False) in (True, "true")
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From 5e5ef0304001687aad11e985e403142d3a067222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 43/67] fix: the commands of association groups were loaded as
 text

---
 pyzwave/commandclass/AssociationGrpInfo.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8b60c38..fd77530 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -23,6 +23,17 @@ from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
 
+class Commands(list):
+    """Commands in an association group. Each one is a list with the command class and command"""
+
+    def __getstate__(self):
+        return [list(command) for command in self]
+
+    def __setstate__(self, state):
+        for commandClass, command in state:
+            self.append([int(commandClass), int(command)])
+
+
 class Group(DictAttribute):
     """Attribute for an association group"""
 
@@ -31,7 +42,7 @@ class Group(DictAttribute):
         # ("mode", uint8_t),  # Not used according to docs, always zero. No need to save it
         ("profile", uint16_t),
         # ("eventCode", uint16_t),  # Not used according to docs, always zero. No need to save it
-        ("commands", list),
+        ("commands", Commands),
     )
 
 
-- 
2.43.0


From 8a967a159392030d03924d4a0b8b6ef3c33bc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 44/67] fix: an interview that does not complete must be
 stored, too

---
 pyzwave/commandclass/CommandClass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index f0a5e1a..66efc34 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -78,12 +78,14 @@ def interviewDecorator(interview):
         try:
             commandClass._interviewed = False  # pylint: disable=protected-access
             retval = await interview()
+            if retval is not False:
+                commandClass._interviewed = True  # pylint: disable=protected-access
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
             return False
-        if retval is not False:
-            commandClass._interviewed = True  # pylint: disable=protected-access
-        commandClass.speak("commandClassUpdated")
+        finally:
+            # Also an interview that did not complete has changed the command class
+            commandClass.speak("commandClassUpdated")
         return retval
 
     return wrapper
-- 
2.43.0


From 41327ac080f03d78eb038456d7305a15f50eb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 45/67] fix: what is reported about association groups was
 never stored

---
 pyzwave/commandclass/AssociationGrpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index fd77530..0662e49 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -185,12 +185,14 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
         for group in report.groups:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -204,6 +206,7 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
-- 
2.43.0


From 0a7bedccd4f94d6a53003f03eb48461aa2707e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 46/67] fix: settings were never stored without a directory for
 them and got lost if interrupted

---
 pyzwave/persistantstorage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..c6386b3 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -46,8 +46,13 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
+        path: pathlib.Path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        # Write to another file first to not lose the old settings if we get interrupted
+        tmpPath = path.with_suffix(".tmp")
+        with tmpPath.open("w") as fd:
             yaml.dump(settings, fd)
+        tmpPath.replace(path)
 
     @property
     def path(self) -> str:
-- 
2.43.0


From 9640e68caa1e4eb4e2d487f74d114b077985db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 47/67] fix: incomplete reports made their handling fail or
 were stored

---
 pyzwave/commandclass/AssociationGrpInfo.py | 8 +++++++-
 pyzwave/commandclass/Configuration.py      | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 0662e49..f07db06 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -182,6 +182,9 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.commandClass is None:
+            # Incomplete report
+            return False
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
@@ -190,7 +193,7 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups:
+        for group in report.groups or []:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
             self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
@@ -203,6 +206,9 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupNameReport)
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
+        if report.name is None:
+            # Incomplete report
+            return False
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index d2a264e..d530957 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -129,6 +129,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.value is None:
+            # Incomplete report
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
-- 
2.43.0


From b0c4b0dfaa0a7ecd7bcf53db8e766193221af73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 48/67] fix: handlers of a derived command class were also used
 for the class it derives from

---
 pyzwave/commandclass/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/__init__.py b/pyzwave/commandclass/__init__.py
index f76d4d2..07b0503 100644
--- a/pyzwave/commandclass/__init__.py
+++ b/pyzwave/commandclass/__init__.py
@@ -63,8 +63,9 @@ class ZWaveMessageHandler:
         return self
 
     def __set_name__(self, owner, name):
-        if not hasattr(owner, "__messageHandlers__"):
-            owner.__messageHandlers__ = {}
+        if "__messageHandlers__" not in vars(owner):
+            # A copy, our handlers are not for the class we inherit from
+            owner.__messageHandlers__ = dict(getattr(owner, "__messageHandlers__", {}))
         owner.__messageHandlers__[self.hid] = self.func
 
 
-- 
2.43.0


From ccdc073ed05508646de8228c0c8eca9bf62f186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 49/67] fix: mailbox messages that could not be sent got lost,
 others were delivered in reverse order

---
 pyzwave/mailbox.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..b4fdbe4 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -24,6 +24,8 @@ class QueueItem:
         self._handle = handle
         self._data = data
         self._task = None
+        # Set while the entry is being sent or not accepted yet
+        self.busy = False
 
     @property
     def checksum(self) -> int:
@@ -89,7 +91,8 @@ class MailboxService:
 
     async def __popQueue__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
-        if not self._queue.get(queueHandle, None):
+        waiting = [item for item in self._queue.get(queueHandle, []) if not item.busy]
+        if not waiting:
             return await self._adapter.sendToNode(
                 nodeId,
                 Mailbox.Queue(
@@ -98,18 +101,25 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
-                operation=Mailbox.Queue.Operation.POP,
-                queueHandle=queueHandle,
-                mailboxEntry=queueItem.data,
-            ),
-        )
+        queueItem = waiting[0]
+        # Do not send it again if there is another request while it is being sent
+        queueItem.busy = True
+        try:
+            ret = await self._adapter.sendToNode(
+                nodeId,
+                Mailbox.Queue(
+                    last=len(waiting) == 1,
+                    operation=Mailbox.Queue.Operation.POP,
+                    queueHandle=queueHandle,
+                    mailboxEntry=queueItem.data,
+                ),
+            )
+        finally:
+            queueItem.busy = False
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
+            # Keep the message if it could not be sent
+            self._queue[queueHandle].remove(queueItem)
             queueItem.stop()
         return True
 
-- 
2.43.0


From ef05a567bd022b8392fb5f6801bd6fbf6d02f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 50/67] fix: a mailbox message pushed again while it is being
 accepted was queued twice

---
 pyzwave/mailbox.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index b4fdbe4..a749321 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -130,18 +130,26 @@ class MailboxService:
             if item.checksum == checksum:
                 # Message has already been queueud
                 return False
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=False,
-                operation=Mailbox.Queue.Operation.WAITING,
-                queueHandle=queueHandle,
-                mailboxEntry=message,
-            ),
-        )
+        # Add it before it is accepted, the same message could be pushed again meanwhile
+        queueItem.busy = True
+        self._queue[queueHandle].append(queueItem)
+        ret = False
+        try:
+            ret = await self._adapter.sendToNode(
+                nodeId,
+                Mailbox.Queue(
+                    last=False,
+                    operation=Mailbox.Queue.Operation.WAITING,
+                    queueHandle=queueHandle,
+                    mailboxEntry=message,
+                ),
+            )
+        finally:
+            queueItem.busy = False
+            if not ret:
+                self._queue[queueHandle].remove(queueItem)
         if ret:
             queueItem.start()
-            self._queue[queueHandle].append(queueItem)
         return ret
 
     async def messageReceived(
-- 
2.43.0


From e6e1b8e4f50afe54f0b9bd67341d8dc0239f29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 51/67] fix: the heartbeats of a mailbox message ended when
 sending one failed

---
 pyzwave/mailbox.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index a749321..83c57ec 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -60,15 +60,19 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except Exception as error:
+                # Try again the next time
+                _LOGGER.warning("Could not send mailbox heartbeat: %r", error)
 
 
 class MailboxService:
-- 
2.43.0


From 99a03dbbd5b8bda0948c4f67e6f38d7129034349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 52/67] fix: an acknowledge before any node was awake raised

---
 pyzwave/mailbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 83c57ec..42c2276 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -174,6 +174,9 @@ class MailboxService:
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
             queueHandle = message.queueHandle or self._lastQueueId
+            if queueHandle is None:
+                # No node has been awake
+                return False
             return await self.__popQueue__(rootNodeId, queueHandle)
 
         if (
-- 
2.43.0


From 36ada1068559f16323c896046845f7844019ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 53/67] fix: nodes 225 to 232 of a node list were never seen

---
 pyzwave/commandclass/NetworkManagementProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index cbd62c4..cf1e4c0 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,7 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From 6fea383f82e9e38864fa54cd0445f32772947b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 54/67] fix: the DTLS server bound an IPv4 socket to an IPv6
 address

---
 pyzwave/dtlsconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 9aaeb66..a30b887 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -156,7 +156,7 @@ class DTLSConnection(threading.Thread):
         """Create a new socket and configure it for DTLS PSK"""
         if self._server:
             sock = dtls.wrap_server(
-                socket.socket(socket.AF_INET, socket.SOCK_DGRAM),
+                socket.socket(socket.AF_INET6, socket.SOCK_DGRAM),
                 certfile="/tmp/ZIPR.x509_1024.pem",
                 keyfile="/tmp/ZIPR.key_1024.pem",
                 ca_certs="/tmp/Portal.ca_x509.pem",
-- 
2.43.0


From 39513b817974b915ef1466af8a712367d5b4abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 55/67] fix: a message could not be created with a dsk_t as the
 value of a DSK

---
 pyzwave/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index fd44556..93031e6 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -362,6 +362,9 @@ class dsk_t:  # pylint: disable=invalid-name
         return self.__getstate__() == other
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            self._dsk = state._dsk
+            return
         if isinstance(state, bytes):
             if len(state) == 16 or len(state) == 0:
                 self._dsk = state
-- 
2.43.0


From 73301cbb43321fa743fd885362baac8f60d2cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 56/67] fix: an incomplete report aborted the interview of all
 remaining command classes

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 6ccc001..87cf888 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -191,6 +191,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception as error:
+                # For example an incomplete report, the others must still be interviewed
+                _LOGGER.warning("Could not interview %s: %r", cmdClass.name, error)
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From 90f6d0fd93fccfdb96ddfc4073ec62a0b9544326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 57/67] fix: devices with version 1 of the Z-Wave Plus
 information could not be interviewed

---
 pyzwave/commandclass/ZwavePlusInfo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/ZwavePlusInfo.py b/pyzwave/commandclass/ZwavePlusInfo.py
index a61c533..73890b9 100644
--- a/pyzwave/commandclass/ZwavePlusInfo.py
+++ b/pyzwave/commandclass/ZwavePlusInfo.py
@@ -27,8 +27,11 @@ class ZwavePlusInfo(CommandClass):
         self.zwavePlusVersion = report.zwavePlusVersion
         self.roleType = report.roleType
         self.nodeType = report.nodeType
-        self.installerIconType = report.installerIconType
-        self.userIconType = report.userIconType
+        # The icons are not included in version 1
+        if report.installerIconType is not None:
+            self.installerIconType = report.installerIconType
+        if report.userIconType is not None:
+            self.userIconType = report.userIconType
 
 
 @ZWaveMessage(COMMAND_CLASS_ZWAVEPLUS_INFO, ZWAVEPLUS_INFO_GET)
-- 
2.43.0


From a877d98cddc050520ac688a8c022ab06100a17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 58/67] fix: an incomplete version report raised instead of
 leaving the version unknown

---
 pyzwave/commandclass/CommandClass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 66efc34..650be1e 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -165,6 +165,9 @@ class CommandClass(AttributesMixin, Listenable):
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
             )
+            if answer.commandClassVersion is None:
+                # Incomplete report
+                return 0
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
             return 0
-- 
2.43.0


From a7cc5c0cad30c8c2b0382be35f889fe521e93597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 59/67] fix: an incomplete association report ended the
 interview of the remaining groups

---
 pyzwave/commandclass/Association.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 90a3eec..ba4489b 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -157,6 +157,9 @@ class Association(CommandClass):
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
             return
+        if report.maxNodesSupported is None:
+            # Incomplete report
+            return
         group.maxNodes = report.maxNodesSupported
         group.nodes = report.nodes
 
-- 
2.43.0


From 59d8be0905d2d6ab1e4cda4e22631bfcc34460f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 60/67] fix: an incomplete node list report made startup or its
 handling fail

---
 pyzwave/zipgateway.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 98112ae..f7cb19f 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -113,6 +113,9 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
+        if report.failedNodeList is None:
+            # Incomplete report
+            return set()
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
@@ -158,6 +161,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            # Incomplete report
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: {} for x in report.nodes}
         return report.nodes
@@ -181,6 +187,9 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
+        if report.nodes is None:
+            # Incomplete report
+            return
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
-- 
2.43.0


From c5654448f6fe1585386641f8930ac2401a174a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:32 +0000
Subject: [PATCH 61/67] fix: an incomplete supervised command raised

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 87cf888..4118b76 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,6 +27,9 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
+        if message.sessionID is None:
+            # Incomplete, it cannot be answered
+            return False
         command = message.command
         if command is not None and await func(self, command, flags):
             await self.send(
-- 
2.43.0


From eccb979c0bf8a5759276b3f0abf2092d9e30497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:33 +0000
Subject: [PATCH 62/67] fix: an incomplete mailbox message raised, and an
 incomplete wake up notification forgot the node awake

---
 pyzwave/mailbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 42c2276..f2f7757 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -166,6 +166,9 @@ class MailboxService:
     ):
         """Handle incoming mailbox messages"""
         if isinstance(message, Mailbox.WakeupNotification):
+            if message.queueHandle is None:
+                # Incomplete message
+                return False
             self._lastQueueId = message.queueHandle
             return await self.__popQueue__(rootNodeId, message.queueHandle)
 
@@ -182,6 +185,7 @@ class MailboxService:
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.PUSH
+            and message.queueHandle is not None
         ):
             return await self.__pushQueue__(
                 rootNodeId, message.queueHandle, message.mailboxEntry
-- 
2.43.0


From e35e66252862f76363d49904407952c8b625b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:18 +0000
Subject: [PATCH 63/67] fix: a sensor report without a value raised

---
 pyzwave/commandclass/SensorMultilevel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 90f7075..60b39df 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -168,6 +168,9 @@ class SensorMultilevel(CommandClass):
         if not supportedScales:
             # Type is not supported, suppress further processing
             return True
+        if report.sensorValue is None:
+            # Incomplete report
+            return False
         scaleMask = 1 << report.sensorValue.scale
         if supportedScales & scaleMask == 0:
             # Scale is not supported, suppress message
-- 
2.43.0


From 9c36d700eadfc37fe12225a4bb466bb0c14a9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 64/67] fix: asking a meter report without a value for its
 scale raised

---
 pyzwave/commandclass/Meter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Meter.py b/pyzwave/commandclass/Meter.py
index 54ca20d..46ffe43 100644
--- a/pyzwave/commandclass/Meter.py
+++ b/pyzwave/commandclass/Meter.py
@@ -93,6 +93,9 @@ class Report(Message):
     @property
     def scale(self) -> int:
         """Return the scale for this value"""
+        if self.meterValue is None:
+            # Incomplete report
+            return None
         scale = self.meterValue.scale
         if self.scale2:
             scale |= 0x04
-- 
2.43.0


From 1df8b4c3de5c6be49a24c9369dc83f3c0836ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 65/67] fix: an advertisement without an address was taken as
 the address of a node

---
 pyzwave/zipgateway.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index f7cb19f..a4ad529 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -220,7 +220,8 @@ class ZIPGateway(ZIPConnection):
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         session = self.addWaitingSession(
-            ZipND.ZipNodeAdvertisement, lambda response: response.nodeId == nodeId
+            ZipND.ZipNodeAdvertisement,
+            lambda response: response.nodeId == nodeId and response.ipv6 is not None,
         )
         self._conn.send(msg.compose())
         response = await self.waitForMessage(
-- 
2.43.0


From 2c5a887083474d33973bf641731b6786a987b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:15 +0000
Subject: [PATCH 66/67] fix: sensor types the node no longer reports were kept
 by an interview

---
 pyzwave/commandclass/SensorMultilevel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 60b39df..82c0673 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -183,6 +183,9 @@ class SensorMultilevel(CommandClass):
         report: Message = await self.sendAndReceive(
             SupportedGetSensor(), SupportedSensorReport
         )
+        for sensor in set(self.supportedTypes) - set(report.bitMask):
+            # Not reported (any more)
+            del self.supportedTypes[sensor]
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
                 SupportedGetScale(sensorType=sensor), SupportedScaleReport
-- 
2.43.0


From a2a2647b8349a377a33248c40f5b8d54f8d35000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 67/67] fix: association groups the node no longer has were
 kept and asked for by an interview

---
 pyzwave/commandclass/Association.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index ba4489b..0c5ea5b 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -107,6 +107,8 @@ class Groupings(dict):
 
     def setNumGroups(self, number: int):
         """Set the number of groups this node has"""
+        for i in [i for i in self if i > number]:
+            del self[i]
         for i in range(1, number + 1):
             if i not in self:
                 group = Group()
-- 
2.43.0

