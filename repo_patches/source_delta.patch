From 21002206936f2d5c37dba292592bc2d130348393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 01/57] fix: save the value of builtin typed attributes

Since Python 3.11 object implements __getstate__, so the hasattr() check is
always true and str, int and list attributes were saved as None.
---
 pyzwave/commandclass/CommandClass.py |  4 ++--
 pyzwave/util.py                      | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..4b5a21f 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from typing import Dict, Any
 
-from pyzwave.util import AttributesMixin, Listenable
+from pyzwave.util import AttributesMixin, Listenable, stateOf
 from pyzwave.commandclass import ZWaveCommandClass
 from pyzwave.message import Message
 
@@ -42,7 +42,7 @@ def VarDictAttribute(KeyType, ValueType):  # pylint: disable=invalid-name
             return "{}:\n{}".format(self.__class__.__name__, "\n".join(attrs))
 
         def __getstate__(self):
-            return {i: value.__getstate__() for i, value in self.items()}
+            return {i: stateOf(value) for i, value in self.items()}
 
         def __setitem__(self, name, value):
             if isinstance(value, ValueType):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..d76f34f 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,19 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def stateOf(value):
+    """
+    Return the state of a value to use for serialization. Values without any
+    explicit state are returned as is.
+    """
+    getState = getattr(type(value), "__getstate__", None)
+    if getState is getattr(object, "__getstate__", None):
+        # Since Python 3.11 all objects has a default implementation. It does not
+        # hold the actual value for builtin types
+        return value
+    return value.__getstate__()
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,10 +93,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
-                values[attr] = value.__getstate__()
-            else:
-                values[attr] = value
+            values[attr] = stateOf(value)
         return values
 
     def __setattr__(self, name, value):
-- 
2.43.0


From bb7e5884883ed20b68b7f113d50aa1ba482192e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 02/57] fix: restore the interviewed flag of a command class
 correctly

YamlStorage loads all scalars as strings and bool("false") is True.
---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 4b5a21f..73910c7 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -201,7 +201,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # The state may come from a yaml file where all values are strings
+        self._interviewed = str(state.get("interviewed", False)).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From 2ffe8350606190be3fa0a87f81d4f7ffdb4141ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 03/57] fix: restore the association group commands as integers

YamlStorage loads all scalars as strings.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..e982ec6 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -23,6 +23,17 @@ from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
 
+class Commands(list):
+    """The commands (command class and command pairs) for an association group"""
+
+    def __getstate__(self):
+        return [list(command) for command in self]
+
+    def __setstate__(self, state):
+        for commandClass, command in state:
+            self.append([int(commandClass), int(command)])
+
+
 class Group(DictAttribute):
     """Attribute for an association group"""
 
@@ -31,7 +42,7 @@ class Group(DictAttribute):
         # ("mode", uint8_t),  # Not used according to docs, always zero. No need to save it
         ("profile", uint16_t),
         # ("eventCode", uint16_t),  # Not used according to docs, always zero. No need to save it
-        ("commands", list),
+        ("commands", Commands),
     )
 
 
-- 
2.43.0


From db22434bedc1daadfd6583eff7afddca6add78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 04/57] fix: create the directory for the stored node settings

Nothing was ever stored unless the nodes directory was created manually.
---
 pyzwave/persistantstorage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..c5afd72 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -46,7 +46,9 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
+        path: pathlib.Path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        with open(path, "w") as fd:
             yaml.dump(settings, fd)
 
     @property
-- 
2.43.0


From 9d046cf6a281c0ea02db83156d37bfc5b7ed1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 05/57] fix: let each request wait for its message on its own

All requests waiting for the same message type shared one future. When one of
them timed out or was cancelled so were the others, and the timeout removed
sessions started later. A message received in the same moment as the timeout
raised InvalidStateError.
---
 pyzwave/util.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index d76f34f..44707ba 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -184,20 +184,28 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
+        handled = False
+        for session in self._sessions.pop(message.hid(), []):
+            if session.done():
+                # Nobody is waiting for this session anymore
+                continue
             session.set_result(message)
-            return True
-        return False
+            handled = True
+        return handled
+
+    def removeWaitingSession(self, msgType, session):
+        """Stop waiting for the message in a session created with addWaitingSession()"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
+        if not sessions:
+            self._sessions.pop(msgType.hid(), None)
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
@@ -206,8 +214,10 @@ class MessageWaiter:
         try:
             await asyncio.wait_for(session, timeout)
         except asyncio.TimeoutError:
-            _LOGGER.warning("Timeout waiting for message %s", msgType)
-            raise
+            if not session.done() or session.cancelled():
+                _LOGGER.warning("Timeout waiting for message %s", msgType)
+                raise
+            # The message was received in the same moment as the timeout
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From 25ce22a06b31c88a3fbb0c359b70e640023dba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 06/57] fix: do not lose a reply that arrives before the ack
 from a node

Node.sendAndReceive waited for a new message instead of using the session
setup before sending. Also stop waiting if the message could not be sent,
otherwise the next message of that type was swallowed.
---
 pyzwave/node.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..80784b6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
-- 
2.43.0


From 2c60b03ddc37de79f54fa3fe50c48efa24543e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 07/57] fix: stop waiting for the reply if a message could not
 be sent

Otherwise the next unsolicited message of that type was swallowed.
---
 pyzwave/adapter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..db6764e 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,8 +211,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
-- 
2.43.0


From 52bcba6f5c810b968617504637ea4857cd9ac35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 08/57] fix: always forget about an ack when the wait for it is
 over

An ack received in the same moment as the timeout raised KeyError and a
cancelled send made its sequence number unusable.
---
 pyzwave/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index db6764e..c0ff0ce 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -236,5 +236,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From e98e8ac7f5002ad3eb6760daf32f5d6e51de3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 09/57] fix: do not reuse the sequence number of a message
 still waiting for its ack

Messages queued for sleeping nodes may wait for a long time. Once the sequence
number wrapped around to such a message the new message was sent but then
failed with an exception.
---
 pyzwave/zipconnection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..21e1b69 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -138,7 +138,11 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
-        self._seq = (self._seq + 1) & 0xFF
+        for _ in range(0x100):
+            self._seq = (self._seq + 1) & 0xFF
+            if self._seq not in self._ackQueue:
+                # Not used by a message still waiting for its ack
+                break
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From df5504842facb392e3296b84490f82524679318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 10/57] fix: wrap the network management sequence number

It is sent as one byte, after 255 commands all further ones failed with
OverflowError.
---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..9948fac 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -206,7 +206,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -221,7 +221,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -233,7 +233,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 602322ada6b9984363212c54da17b9cfeea3ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 11/57] fix: return the default value of a message attribute as
 its own typed object

The default of lists and dicts was shared by all messages. It also lacked the
interface of the type, a delayed (queued) ack without a header extension raised
AttributeError instead of being treated as an ack without expected delay.
---
 pyzwave/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..3d8f26a 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -58,7 +58,9 @@ class Message(AttributesMixin):
             for attrName, attrType in getattr(self, "attributes"):
                 if attrName != name:
                     continue
-                return getattr(attrType, "default", None)
+                default = getattr(attrType, "default", None)
+                # Do not hand out the default itself since it is shared by all messages
+                return None if default is None else attrType(default)
         return self._attributes.get(name)
 
     def __repr__(self):
-- 
2.43.0


From f4ff52900c9dfdc8d3aed0621f1b3c32f1d51511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 12/57] fix: ignore unsolicited packets that are not a Z/IP
 packet with a command

Any packet that could not be decoded, or did not contain a command, raised an
exception in the datagram handler.
---
 pyzwave/zipgateway.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9948fac..2fcdc36 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -263,7 +263,15 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message. Raw message:")
+            _LOGGER.error("%s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.command is None:
+            _LOGGER.warning("Received unsolicited message without command: %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
-- 
2.43.0


From fed088cd503d837ef1c2b80d11ba20675841361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 13/57] fix: ignore packets and supervision requests without a
 command

They raised AttributeError when looking for someone waiting for the command.
---
 pyzwave/node.py          | 3 +++
 pyzwave/zipconnection.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 80784b6..41df867 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -160,6 +160,9 @@ class Node(Listenable, MessageWaiter):
     @supervision
     async def handleMessage(self, message: Message, flags: Zip.HeaderExtension) -> bool:
         """Handle and incomming message. Route it to the correct handler"""
+        if message is None:
+            # Supervision request without any command
+            return False
         handled = False
         if self.messageReceived(message) is True:
             # Message has already been handled
diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 21e1b69..030f8c0 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
-- 
2.43.0


From 2a608ffed76eb8cfcae6534b85377a3c46cca277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 14/57] fix: accept header extension options and maintenance
 report fields that are not known

A Z/IP packet with an option or a maintenance report field without a decoder
could not be decoded at all. Skip what is not known and keep the raw data of
known options without a decoder.
---
 pyzwave/commandclass/Zip.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..c0cb060 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,13 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            if imeType not in list(IMEType):
+                # Not known to us, skip it
+                continue
+            imeType = IMEType(imeType)
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
@@ -138,6 +142,10 @@ class ZIPPacketOptionExpectedDelay(ZIPPacketOptionData, int24_t):
     """Zip Packet option expexted delay"""
 
 
+class ZIPPacketOptionUnknown(ZIPPacketOptionData, bytes_t):
+    """Zip Packet option not yet implemented, holds the raw data"""
+
+
 class ZIPPacketOptionType(IntEnum):
     """ZIP Packet option type"""
 
@@ -159,7 +167,7 @@ class ZIPPacketOption(AttributesMixin):
 
     def parse_optionData(self, stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse attribute optionData"""
-        clsType = ZIPPacketOptionData
+        clsType = ZIPPacketOptionUnknown
         length = stream.byte()
         data = stream.value(length)
         if self.optionType == ZIPPacketOptionType.MAINTENANCE_REPORT:
@@ -204,6 +212,12 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if (
+                not option.critical
+                and option.optionType not in list(ZIPPacketOptionType)
+            ):
+                # Options not marked as critical must be ignored if they are not known
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From d06ac3d4649541dbc39e5688a4eae21ef42a8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 15/57] fix: always compose reserved fields with their own size

Reserved fields share the same name and different sizes. Composing a decoded
message used the last one for all of them and failed or corrupted the
neighbouring fields.
---
 pyzwave/message.py | 4 ++++
 pyzwave/types.py   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 3d8f26a..f377071 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,6 +25,10 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
+            if getattr(attrType, "reserved", False):
+                # Several reserved fields may share the same name
+                attrType(attrType.default).serialize(stream)
+                continue
             if name not in self._attributes:
                 default = getattr(attrType, "default", None)
                 if default is not None:
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..e761d5f 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -327,6 +327,7 @@ def reserved_t(size):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
         default = 0
+        reserved = True
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From 89462fce7ee43cf208fb3633a4dd39dbcb1dbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 16/57] fix: refuse to write bit values that do not fit

A value too large for its bits silently changed the neighbouring fields.
---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index e761d5f..6cdc605 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -70,6 +70,8 @@ class BitStreamWriter(bytearray):
 
     def addBits(self, value, size):
         """Add size number of bits to the stream"""
+        if not 0 <= value < 1 << size:
+            raise OverflowError("{} does not fit in {} bits".format(value, size))
         byte = 0
         if self._start == 0:
             # Start new byte
-- 
2.43.0


From c00925b5d5accea676a9a569ce1c3b5cdf66261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 17/57] fix: compose the length of a supervised command

---
 pyzwave/commandclass/Supervision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..174010d 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,12 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bits_t,
+    flag_t,
+    reserved_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +30,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From 97c49dd8f4eecab428d2f082b20ccec1d25a9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 18/57] fix: decode the supported sensors bitmask in the right
 byte order

Bit mask 1 holds the sensor types 1-8, bit mask 2 the types 9-16 and so on.
Sensor types without a name made the whole report undecodable.
---
 pyzwave/commandclass/SensorMultilevel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..c80d43e 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,12 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        # The first bit mask holds type 1-8, the second 9-16 and so on
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                supported.add(SensorType(i) if i in list(SensorType) else i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From 935200c55abb4d787214e36122048b852727c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 19/57] fix: only use the address advertised for the requested
 node

Any advertisement was taken as the answer, so commands for a node could be sent
to the address of another node when several addresses were requested.
---
 pyzwave/commandclass/ZipND.py |  2 ++
 pyzwave/util.py               | 29 ++++++++++++++++++++---------
 pyzwave/zipgateway.py         | 10 +++++++++-
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/pyzwave/commandclass/ZipND.py b/pyzwave/commandclass/ZipND.py
index f121a96..664a7e5 100644
--- a/pyzwave/commandclass/ZipND.py
+++ b/pyzwave/commandclass/ZipND.py
@@ -14,6 +14,8 @@ from pyzwave.types import (
 )
 from . import ZWaveMessage, registerCmdClass
 
+VALIDITY_INFORMATION_NOT_FOUND = 0x02
+
 registerCmdClass(COMMAND_CLASS_ZIP_ND, "ZIP_ND")
 
 
diff --git a/pyzwave/util.py b/pyzwave/util.py
index 44707ba..981daf5 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -179,33 +179,44 @@ class MessageWaiter:
         super().__init__()
         self._sessions = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, matches=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+        The optional function matches is called with each message of this type and
+        returns if this is the message to wait for.
         """
         session = asyncio.get_event_loop().create_future()
-        self._sessions.setdefault(msgType.hid(), []).append(session)
+        self._sessions.setdefault(msgType.hid(), []).append((session, matches))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
         handled = False
-        for session in self._sessions.pop(message.hid(), []):
+        remaining = []
+        for session, matches in self._sessions.pop(message.hid(), []):
             if session.done():
                 # Nobody is waiting for this session anymore
                 continue
+            if matches and not matches(message):
+                # Not the message this session is waiting for
+                remaining.append((session, matches))
+                continue
             session.set_result(message)
             handled = True
+        if remaining:
+            self._sessions[message.hid()] = remaining
         return handled
 
     def removeWaitingSession(self, msgType, session):
         """Stop waiting for the message in a session created with addWaitingSession()"""
-        sessions = self._sessions.get(msgType.hid(), [])
-        if session in sessions:
-            sessions.remove(session)
-        if not sessions:
-            self._sessions.pop(msgType.hid(), None)
+        sessions = [
+            item
+            for item in self._sessions.pop(msgType.hid(), [])
+            if item[0] is not session
+        ]
+        if sessions:
+            self._sessions[msgType.hid()] = sessions
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 2fcdc36..ee84783 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -199,8 +199,16 @@ class ZIPGateway(ZIPConnection):
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
+        session = self.addWaitingSession(
+            ZipND.ZipNodeAdvertisement,
+            lambda advertisement: advertisement.nodeId == nodeId
+            and advertisement.validity != ZipND.VALIDITY_INFORMATION_NOT_FOUND
+            and advertisement.ipv6 is not None,
+        )
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement, timeout=3, session=session
+        )
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From 0b689fab95e68b3b1d2986907e45c6b91ee8089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 20/57] fix: only open one connection to each node

Sending several commands at the same time to a node not yet connected opened
one connection for each of them.
---
 pyzwave/zipgateway.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index ee84783..10280aa 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -94,16 +95,17 @@ class ZIPGateway(ZIPConnection):
 
     async def connectToNode(self, nodeId) -> ZIPConnection:
         """Returns a connection to the node"""
-        if nodeId in self._connections:
-            return self._connections[nodeId]
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
+            ipv6 = await self.ipOfNode(nodeId)
 
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From ec6c8e95132fe58115ca26557dad0d8545bf34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 21/57] fix: process node list reports even if an address
 cannot be retrieved

A node not answering with its address aborted the processing of the node list,
nodes removed in the meantime came back and the controller id was not updated.
---
 pyzwave/zipgateway.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 10280aa..1af3fb8 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -161,6 +161,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            _LOGGER.warning("Received node list report without any nodes")
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: {} for x in report.nodes}
         return report.nodes
@@ -185,6 +188,10 @@ class ZIPGateway(ZIPConnection):
     ):
         """Update nodes from a nodeListReport"""
         # Find removed nodes
+        if report.nodes is None:
+            _LOGGER.warning("Received node list report without any nodes")
+            return
+        self._nodeId = report.nodeListControllerId
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
                 continue
@@ -192,12 +199,24 @@ class ZIPGateway(ZIPConnection):
 
         # Find new nodes
         for nodeId in report.nodes:
-            if nodeId in self._nodes:
-                continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+            self._nodes.setdefault(nodeId, {})
+        await self.__updateAddresses__(report.nodes)
         self.speak("nodeListUpdated")
 
+    async def __updateAddresses__(self, nodeIds):
+        """Retrieve the ip-addresses not already known"""
+        for nodeId in nodeIds:
+            if nodeId not in self._nodes or self._nodes[nodeId].get("ip"):
+                continue
+            try:
+                ipv6 = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Could not retrieve the address of node %s", nodeId)
+                continue
+            if nodeId in self._nodes:
+                # Not removed while waiting for the address
+                self._nodes[nodeId]["ip"] = ipv6
+
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
@@ -345,6 +364,4 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.__updateAddresses__(await self.getNodeList())
-- 
2.43.0


From bfe162bcd3f1324e5b56131b0bd048a057a604da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 22/57] fix: close the connection to a removed node

The connection was kept and used for the next node with the same id even if
that node has another address.
---
 pyzwave/zipconnection.py | 7 +++++++
 pyzwave/zipgateway.py    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 030f8c0..5d30f09 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -49,6 +49,13 @@ class ZIPConnection(Adapter):
         await self._conn.connect(self._address, self._psk)
         self.resetKeepAlive()
 
+    def disconnect(self):
+        """Close the connection"""
+        if self._keepAlive:
+            self._keepAlive.cancel()
+            self._keepAlive = None
+        self._conn.stop()
+
     async def getFailedNodeList(self) -> list:
         raise NotImplementedError()
 
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 1af3fb8..a417b8e 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -196,6 +196,10 @@ class ZIPGateway(ZIPConnection):
             if nodeId in report.nodes:
                 continue
             del self._nodes[nodeId]
+            connection = self._connections.pop(nodeId, None)
+            if connection:
+                # The node id may be reused by a node with another address
+                connection.disconnect()
 
         # Find new nodes
         for nodeId in report.nodes:
-- 
2.43.0


From e08cc3065a9dae3d58626f1c93d7f8663d49a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 23/57] fix: handle overlapping node list updates one at a time

Updates arriving while nodes were still being loaded loaded and announced the
same nodes again.
---
 pyzwave/application.py | 77 ++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..4ad417c 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -32,6 +33,7 @@ class Application(Listenable):
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
         self._cmdClasses = []
+        self._nodeListLock = asyncio.Lock()
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
         """Load an endpoint for a node"""
@@ -97,30 +99,35 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
-        nodeList = await self.adapter.getNodeList()
-        nodesToRemove = []
-        for nodeId, node in self._nodes.items():
-            if node.rootNodeId in nodeList:
-                continue
-            nodesToRemove.append(nodeId)
-        for nodeId in nodesToRemove:
-            del self._nodes[nodeId]
-            await self.ask("nodeRemoved", nodeId)
-        # For clients supporting batch removing
-        if nodesToRemove:
-            await self.ask("nodesRemoved", nodesToRemove)
-
-        # Find new nodes
-        newNodes = []
-        for nodeId in nodeList:
-            if "{}:0".format(nodeId) in self._nodes:
-                continue
-            newNodes.extend(await self.loadNode(nodeId))
-
-        if newNodes:
-            await self.ask("nodesAdded", newNodes)
-        for node in newNodes:
-            await self.ask("nodeAdded", node)
+        # The listeners are notified about the changes in the order they happens but we do
+        # not wait for them until the lock is released. A listener may take a long time.
+        futures = []
+        async with self._nodeListLock:
+            nodeList = await self.adapter.getNodeList()
+            nodesToRemove = []
+            for nodeId, node in self._nodes.items():
+                if node.rootNodeId in nodeList:
+                    continue
+                nodesToRemove.append(nodeId)
+            for nodeId in nodesToRemove:
+                del self._nodes[nodeId]
+                futures.extend(self.speak("nodeRemoved", nodeId))
+            # For clients supporting batch removing
+            if nodesToRemove:
+                futures.extend(self.speak("nodesRemoved", nodesToRemove))
+
+            # Find new nodes
+            newNodes = []
+            for nodeId in nodeList:
+                if "{}:0".format(nodeId) in self._nodes:
+                    continue
+                newNodes.extend(await self.loadNode(nodeId))
+
+            if newNodes:
+                futures.extend(self.speak("nodesAdded", newNodes))
+            for node in newNodes:
+                futures.extend(self.speak("nodeAdded", node))
+        await asyncio.gather(*futures)
 
     @property
     def nodes(self) -> Dict[int, Node]:
@@ -167,12 +174,16 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
-        for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
-
-        for nodeId in await self.adapter.getFailedNodeList():
-            _LOGGER.warning("FAILED node %s", nodeId)
-
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
-            await self.ask("nodeAdded", node)
+        futures = []
+        async with self._nodeListLock:
+            for nodeId in await self.adapter.getNodeList():
+                await self.loadNode(nodeId)
+
+            for nodeId in await self.adapter.getFailedNodeList():
+                _LOGGER.warning("FAILED node %s", nodeId)
+
+            nodes = list(self._nodes.values())
+            futures.extend(self.speak("nodesAdded", nodes))
+            for node in nodes:
+                futures.extend(self.speak("nodeAdded", node))
+        await asyncio.gather(*futures)
-- 
2.43.0


From d21e85c08b676395709c3986c091fffe75044ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 24/57] fix: allow storage locks to be nested and overlap

Ending one lock ended all of them and taking a lock dropped the updates made
inside an outer one.
---
 pyzwave/node.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 41df867..5db1685 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,7 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -276,13 +277,18 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
-        try:
+        if self._storageLocks == 0:
             self._storageStatus = StorageStatus.LOCKED_CLEAN
+        self._storageLocks += 1
+        try:
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                dirty = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if dirty:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 66d4dcbd71ffb52522f5b4063782235bfb0427d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 25/57] fix: store the association group information and ignore
 unknown groups

The information collected was never signalled for storage, a command list for a
group not announced failed, and announcing a group again dropped what was
already known about it.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index e982ec6..62611c5 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -145,6 +145,9 @@ class GroupInfoReport(Message):
         """Parse groups"""
         retval = []
         for _ in range(int(self.groupCount)):
+            if stream.bytesLeft() == 0:
+                # Shortened report
+                break
             grp = GroupInfoGroupType()
             grp.parseAttributes(stream)
             retval.append(grp)
@@ -181,13 +184,22 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
+        if report.commandClass is None:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups:
-            self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+        for group in report.groups or []:
+            # Keep what is already known if the group is announced again
+            self.groupings.setdefault(
+                group.groupingIdentifier, Group()
+            ).profile = group.profile
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -200,7 +212,10 @@ class AssociationGrpInfo(CommandClass):
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
         if report.groupingIdentifier not in self.groupings:
             return True
+        if report.name is None:
+            return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
-- 
2.43.0


From f16afcd1f16c12e9ecb77624883fdc5d44b8d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 26/57] fix: continue with the mailbox heartbeats if one could
 not be sent

---
 pyzwave/mailbox.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..1f5ec64 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -58,15 +58,19 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except Exception as error:
+                # Do not let this stop the following heartbeats
+                _LOGGER.warning("Could not send mailbox heartbeat: %s", error)
 
 
 class MailboxService:
-- 
2.43.0


From 6498a53af51a02cfc2d07a3e01f9f22123bbcba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 27/57] fix: hand over the messages in the mailbox in order and
 do not lose them

The last message was handed over first, a message not received by the gateway
was dropped, and pushing the same message twice at once queued it twice. Ignore
shortened messages without a queue handle.
---
 pyzwave/mailbox.py | 91 +++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 37 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 1f5ec64..eaa6fa3 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -80,6 +80,7 @@ class MailboxService:
         self._adapter: Adapter = adapter
         self._adapter.addListener(self)
         self._lastQueueId = None
+        self._locks = {}
         self._queue = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
@@ -92,51 +93,62 @@ class MailboxService:
         return await self._adapter.send(msg)
 
     async def __popQueue__(self, nodeId: int, queueHandle: int):
-        _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
-        if not self._queue.get(queueHandle, None):
-            return await self._adapter.sendToNode(
+        async with self._locks.setdefault(queueHandle, asyncio.Lock()):
+            queue = self._queue.get(queueHandle, [])
+            _LOGGER.debug("Pop queue (%d)", len(queue))
+            if not queue:
+                return await self.__send__(
+                    nodeId,
+                    Mailbox.Queue(
+                        last=True,
+                        operation=Mailbox.Queue.Operation.POP,
+                        queueHandle=queueHandle,
+                    ),
+                )
+            queueItem = queue[0]
+            ret = await self.__send__(
                 nodeId,
                 Mailbox.Queue(
-                    last=True,
+                    last=len(queue) == 1,
                     operation=Mailbox.Queue.Operation.POP,
                     queueHandle=queueHandle,
+                    mailboxEntry=queueItem.data,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
-                operation=Mailbox.Queue.Operation.POP,
-                queueHandle=queueHandle,
-                mailboxEntry=queueItem.data,
-            ),
-        )
-        _LOGGER.info("Sent message from queue: %s", ret)
-        if ret:
-            queueItem.stop()
-        return True
+            _LOGGER.info("Sent message from queue: %s", ret)
+            if ret:
+                # Keep it in the queue unless we know it was received
+                queue.remove(queueItem)
+                queueItem.stop()
+            return True
 
     async def __pushQueue__(self, nodeId: int, queueHandle: int, message: bytes):
-        queueItem = QueueItem(nodeId, queueHandle, message, self._adapter)
-        checksum = queueItem.checksum
-        for item in self._queue.setdefault(queueHandle, []):
-            if item.checksum == checksum:
-                # Message has already been queueud
-                return False
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=False,
-                operation=Mailbox.Queue.Operation.WAITING,
-                queueHandle=queueHandle,
-                mailboxEntry=message,
-            ),
-        )
-        if ret:
-            queueItem.start()
-            self._queue[queueHandle].append(queueItem)
-        return ret
+        async with self._locks.setdefault(queueHandle, asyncio.Lock()):
+            queueItem = QueueItem(nodeId, queueHandle, message, self._adapter)
+            checksum = queueItem.checksum
+            for item in self._queue.setdefault(queueHandle, []):
+                if item.checksum == checksum:
+                    # Message has already been queueud
+                    return False
+            ret = await self.__send__(
+                nodeId,
+                Mailbox.Queue(
+                    last=False,
+                    operation=Mailbox.Queue.Operation.WAITING,
+                    queueHandle=queueHandle,
+                    mailboxEntry=message,
+                ),
+            )
+            if ret:
+                queueItem.start()
+                self._queue[queueHandle].append(queueItem)
+            return ret
+
+    async def __send__(self, nodeId: int, message: Message) -> bool:
+        try:
+            return await self._adapter.sendToNode(nodeId, message)
+        except asyncio.TimeoutError:
+            return False
 
     async def messageReceived(
         self,
@@ -148,6 +160,8 @@ class MailboxService:
     ):
         """Handle incoming mailbox messages"""
         if isinstance(message, Mailbox.WakeupNotification):
+            if message.queueHandle is None:
+                return False
             self._lastQueueId = message.queueHandle
             return await self.__popQueue__(rootNodeId, message.queueHandle)
 
@@ -156,11 +170,14 @@ class MailboxService:
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
             queueHandle = message.queueHandle or self._lastQueueId
+            if queueHandle is None:
+                return False
             return await self.__popQueue__(rootNodeId, queueHandle)
 
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.PUSH
+            and message.queueHandle is not None
         ):
             return await self.__pushQueue__(
                 rootNodeId, message.queueHandle, message.mailboxEntry
-- 
2.43.0


From 69ae2bdc49cddc20688a9ab89413d820281810ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 28/57] fix: load nodes with a command class list ending with
 an extended command class

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 5db1685..8cb87eb 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -86,7 +86,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if cmdClass == 0xF1 and 0x00 in cmdClasses[i + 1 : i + 2]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From f95446301fd59eba3d722e05dab8c8d9ef408450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 29/57] fix: compare bit values with each other by their value

---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 6cdc605..578e454 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -217,6 +217,8 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
+        if isinstance(other, BitsBase):
+            return self._value == int(other)
         return self._value.__eq__(other)
 
     def __int__(self):
-- 
2.43.0


From 4866c0778f7ff19984d5df0af4121758b6415f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 30/57] fix: allow the user entered part of a dsk to be sent

---
 pyzwave/commandclass/NetworkManagementInclusion.py |  7 ++++++-
 pyzwave/types.py                                   | 12 +++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..b8ca485 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -29,6 +29,7 @@ from pyzwave.types import (
     dsk_t,
     enum_t,
     flag_t,
+    partialDsk_t,
     reserved_t,
     uint4_t,
     uint8_t,
@@ -162,9 +163,13 @@ class NodeAddDSKSet(Message):
         ("accept", flag_t),
         ("-", reserved_t(3)),
         ("inputDSKLength", uint4_t),
-        ("dsk", dsk_t),
+        ("dsk", partialDsk_t),
     )
 
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the part of the dsk entered by the user"""
+        return stream.value(self.inputDSKLength)
+
 
 class Keys(IntFlag):
     """Keys flags for S2 bootstrapping"""
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 578e454..1768949 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -346,7 +346,7 @@ class dsk_t:  # pylint: disable=invalid-name
     def __getstate__(self):
         return "-".join(
             [
-                "{:05d}".format((self._dsk[i] << 8) | self._dsk[i + 1])
+                "{:05d}".format(int.from_bytes(self._dsk[i : i + 2], "big"))
                 for i in range(0, len(self._dsk), 2)
             ]
         )
@@ -394,6 +394,16 @@ class dsk_t:  # pylint: disable=invalid-name
         return stream.value(length)
 
 
+class partialDsk_t(dsk_t):  # pylint: disable=invalid-name
+    """Type for the leading part of a DSK key, such as when entered by the user"""
+
+    def __setstate__(self, state):
+        if isinstance(state, bytes) and len(state) < 16:
+            self._dsk = state
+            return
+        super().__setstate__(state)
+
+
 class IPv6(ipaddress.IPv6Address):
     """Type for a IPv6 address"""
 
-- 
2.43.0


From 75d0a5274e475420e00adcfab5feb6cef37760f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 31/57] fix: include the length of the dsk in the node
 provisioning set command

---
 pyzwave/commandclass/NodeProvisioning.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 941f727..b638167 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -1,6 +1,14 @@
 from enum import IntEnum
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bytes_t, dsk_t, reserved_t, uint5_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bytes_t,
+    dsk_t,
+    reserved_t,
+    uint5_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 from .CommandClass import VarDictAttribute
 
@@ -51,6 +59,19 @@ class Set(Message):
 
     attributes = (("seqNo", uint8_t), ("dsk", dsk_t), ("metaDataExtension", bytes_t))
 
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed dsk"""
+        dsk = BitStreamWriter()
+        self.dsk.serialize(dsk)
+        stream.addBytes(len(dsk), 1, False)
+        stream.extend(dsk)
+
+    @staticmethod
+    def parse_dsk(stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed dsk"""
+        stream.advance(3)  # Reserved
+        return dsk_t.deserializeN(stream, stream.bits(5))
+
 
 @ZWaveMessage(
     COMMAND_CLASS_NODE_PROVISIONING, COMMAND_NODE_PROVISIONING_LIST_ITERATION_GET
-- 
2.43.0


From 858036ad2b414b51417a6a573aaf0776486bc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 32/57] fix: convert attribute values in the same way no matter
 how they are set

---
 pyzwave/types.py |  4 ++++
 pyzwave/util.py  | 31 +++++++++++++++----------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 1768949..d4c211f 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -358,6 +358,10 @@ class dsk_t:  # pylint: disable=invalid-name
         return self.__getstate__() == other
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            # Copy another key
+            self._dsk = state._dsk
+            return
         if isinstance(state, bytes):
             if len(state) == 16 or len(state) == 0:
                 self._dsk = state
diff --git a/pyzwave/util.py b/pyzwave/util.py
index 981daf5..10786b0 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -23,6 +23,18 @@ def stateOf(value):
     return value.__getstate__()
 
 
+def toAttributeType(attrType, value):
+    """Return a new value of the type of an attribute"""
+    if hasattr(attrType, "__setstate__"):
+        newValue = attrType()
+        newValue.__setstate__(value)
+        return newValue
+    if isinstance(value, tuple) and issubclass(attrType, (int, float)):
+        # Numeric types may hold more than the value itself
+        return attrType(*value)
+    return attrType(value)
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -39,11 +51,8 @@ class AttributesMixin:
             if isinstance(value, AttributesMixin):
                 # Is a subclass of ourself, not not wrap it
                 self._attributes[attrName] = value
-            elif hasattr(attrType, "__setstate__"):
-                self._attributes[attrName] = attrType()
-                self._attributes[attrName].__setstate__(value)
             else:
-                self._attributes[attrName] = attrType(value)
+                self._attributes[attrName] = toAttributeType(attrType, value)
 
     def attributeUpdated(self, name, newValue, oldValue):
         """Called if an attribute value was updated"""
@@ -104,13 +113,8 @@ class AttributesMixin:
                 if isinstance(value, attrType):
                     # Correct type set, use it directly
                     newValue = value
-                elif hasattr(attrType, "__setstate__"):
-                    newValue = attrType()
-                    newValue.__setstate__(value)
-                elif isinstance(value, tuple):
-                    newValue = attrType(*value)
                 else:
-                    newValue = attrType(value)
+                    newValue = toAttributeType(attrType, value)
                 if oldValue == newValue:
                     return
                 self._attributes[name] = newValue
@@ -122,12 +126,7 @@ class AttributesMixin:
         for attrName, attrType in getattr(self, "attributes"):
             if attrName not in state:
                 continue
-            if hasattr(attrType, "__setstate__"):
-                value = attrType()
-                value.__setstate__(state[attrName])
-            else:
-                value = attrType(state[attrName])
-            self._attributes[attrName] = value
+            self._attributes[attrName] = toAttributeType(attrType, state[attrName])
 
 
 class Listenable:
-- 
2.43.0


From dbf4041f800fa1ce366874f962515f4cb27590d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 33/57] fix: do not take a report about something else as the
 response to a request

---
 pyzwave/commandclass/Association.py      |  7 ++++++-
 pyzwave/commandclass/CommandClass.py     |  2 ++
 pyzwave/commandclass/Configuration.py    |  7 ++++++-
 pyzwave/commandclass/SensorMultilevel.py |  5 ++++-
 pyzwave/node.py                          | 16 ++++++++++++----
 5 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..fef58a1 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -145,14 +145,19 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+
+        def matches(report):
+            return report.groupingIdentifier == groupingIdentifier
+
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
+                matches=matches,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier), Report
+                Get(groupingIdentifier=groupingIdentifier), Report, matches=matches
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 73910c7..8162a87 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -162,6 +162,8 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
+                matches=lambda report: report.requestedCommandClass == self.id
+                and report.commandClassVersion is not None,
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..8c8dd2b 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -135,7 +135,12 @@ class Configuration(CommandClass):
         """Request configuration value from node. Return the cached value if it is already known."""
         if cached and number in self.parameters:
             return self.parameters[number].value
-        report: Report = await self.sendAndReceive(Get(parameterNumber=number), Report)
+        report: Report = await self.sendAndReceive(
+            Get(parameterNumber=number),
+            Report,
+            matches=lambda report: report.parameterNumber == number
+            and report.value is not None,
+        )
         return report.value
 
     async def set(self, parameterNumber: int, size: Size, value: int) -> bool:
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index c80d43e..22c58cf 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -182,6 +182,9 @@ class SensorMultilevel(CommandClass):
         )
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
-                SupportedGetScale(sensorType=sensor), SupportedScaleReport
+                SupportedGetScale(sensorType=sensor),
+                SupportedScaleReport,
+                matches=lambda report, sensor=sensor: report.sensorType == sensor
+                and report.scaleBitMask is not None,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 8cb87eb..9f0912b 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -3,7 +3,7 @@ import asyncio
 from enum import Enum, auto
 from contextlib import contextmanager
 import logging
-from typing import Dict
+from typing import Callable, Dict
 
 from pyzwave.adapter import Adapter
 from pyzwave.commandclass import (
@@ -245,10 +245,18 @@ class Node(Listenable, MessageWaiter):
         )
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self,
+        cmd: Message,
+        waitFor: Message,
+        timeout: int = 3,
+        matches: Callable[[Message], bool] = None,
+        **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. The optional function matches
+        is called to tell if a message of this type is the response to this request.
+        """
+        session = self.addWaitingSession(waitFor, matches)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
-- 
2.43.0


From 30efed6c825f58c4985ae7372807dcd7024cf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 34/57] fix: handle shortened configuration and sensor reports

---
 pyzwave/commandclass/Configuration.py    | 3 +++
 pyzwave/commandclass/SensorMultilevel.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 8c8dd2b..518651b 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -124,6 +124,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.parameterNumber is None or report.value is None:
+            # Shortened report
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 22c58cf..99ad337 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -168,6 +168,9 @@ class SensorMultilevel(CommandClass):
         if not supportedScales:
             # Type is not supported, suppress further processing
             return True
+        if report.sensorValue is None:
+            # Shortened report
+            return True
         scaleMask = 1 << report.sensorValue.scale
         if supportedScales & scaleMask == 0:
             # Scale is not supported, suppress message
-- 
2.43.0


From 6710fb4cc4d7a1956c68aabf56b09beb42263e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 35/57] fix: store the result of an interview that timed out

---
 pyzwave/commandclass/CommandClass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 8162a87..a391d8a 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -80,6 +80,8 @@ def interviewDecorator(interview):
             retval = await interview()
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
+            # The command class is no longer interviewed and may be partly updated
+            commandClass.speak("commandClassUpdated")
             return False
         if retval is not False:
             commandClass._interviewed = True  # pylint: disable=protected-access
-- 
2.43.0


From 115d8f501e36383ee203d9990b634571f12a2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 36/57] fix: decode the length of the dsk in the smart start
 reports

---
 pyzwave/commandclass/NetworkManagementInclusion.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index b8ca485..de48233 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -32,6 +32,7 @@ from pyzwave.types import (
     partialDsk_t,
     reserved_t,
     uint4_t,
+    uint5_t,
     uint8_t,
 )
 from . import ZWaveMessage, registerCmdClass
@@ -113,9 +114,15 @@ class IncludedNIFReport(Message):
 
     attributes = (
         ("seqNo", uint8_t),
+        ("-", reserved_t(3)),
+        ("dskLength", uint5_t),
         ("dsk", dsk_t),
     )
 
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse attribute dsk"""
+        return dsk_t.deserializeN(stream, self.dskLength)
+
 
 @ZWaveMessage(COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION, NODE_ADD)
 class NodeAdd(Message):
@@ -392,5 +399,11 @@ class SmartStartJoinStartedReport(Message):
 
     attributes = (
         ("seqNo", uint8_t),
+        ("-", reserved_t(3)),
+        ("dskLength", uint5_t),
         ("dsk", dsk_t),
     )
+
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse attribute dsk"""
+        return dsk_t.deserializeN(stream, self.dskLength)
-- 
2.43.0


From 3daa5f044c4f22d60ac02161b3c9f415dda97682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 37/57] fix: decode the configuration set command

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 518651b..c90de00 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the value"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From e2a7bc78de84bfa11ee16ad129f710fb8194f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 38/57] fix: decode messages from a bytearray as documented

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index d4c211f..f97688b 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -8,7 +8,7 @@ class BitStreamReader:
 
     def __init__(self, value):
         self._start = 0
-        self._value = value
+        self._value = bytes(value)
 
     def advance(self, length):
         """Advance the stream length bits"""
-- 
2.43.0


From e8317c752dfbfb8e0654de4ee2b6536716373c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 39/57] fix: stop at the end after reading the rest of a bit
 stream

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index f97688b..be48719 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -48,7 +48,7 @@ class BitStreamReader:
         """Return all the remaining bytes in the stream"""
         startByte = int(self._start / 8)
         if advance:
-            self.advance(len(self._value) * 8)
+            self._start = len(self._value) * 8
         return self._value[startByte:]
 
     def value(self, size: int, advance: bool = True) -> bytes:
-- 
2.43.0


From 56d069801a0f90ddcdb474aafce333159a7b5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 40/57] fix: keep the scale of a number given when creating a
 message

---
 pyzwave/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 10786b0..25d9701 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -29,9 +29,12 @@ def toAttributeType(attrType, value):
         newValue = attrType()
         newValue.__setstate__(value)
         return newValue
-    if isinstance(value, tuple) and issubclass(attrType, (int, float)):
+    if issubclass(attrType, (int, float)):
         # Numeric types may hold more than the value itself
-        return attrType(*value)
+        if isinstance(value, attrType):
+            return value
+        if isinstance(value, tuple):
+            return attrType(*value)
     return attrType(value)
 
 
-- 
2.43.0


From 41a237ed19cc54dd2bed794ede29c44904f3c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 41/57] fix: acknowledge an unsolicited node list report that
 asks for it

---
 pyzwave/zipgateway.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index a417b8e..05ae8e9 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -309,6 +309,10 @@ class ZIPGateway(ZIPConnection):
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.ackRequest:
+                self._unsolicitedConnection.sendTo(
+                    zipPkt.response(success=True).compose(), address
+                )
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 746bed76e527ce1dcf344c0659d738b44626f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 42/57] fix: keep the message handlers of a derived command
 class apart from its base class

---
 pyzwave/commandclass/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/__init__.py b/pyzwave/commandclass/__init__.py
index 10310d7..afda6ca 100644
--- a/pyzwave/commandclass/__init__.py
+++ b/pyzwave/commandclass/__init__.py
@@ -61,8 +61,9 @@ class ZWaveMessageHandler:
         return self
 
     def __set_name__(self, owner, name):
-        if not hasattr(owner, "__messageHandlers__"):
-            owner.__messageHandlers__ = {}
+        if "__messageHandlers__" not in vars(owner):
+            # Do not change the handlers of a class this one is derived from
+            owner.__messageHandlers__ = dict(getattr(owner, "__messageHandlers__", {}))
         owner.__messageHandlers__[self.hid] = self.func
 
 
-- 
2.43.0


From 4955b2b3dec8c32a61b87b4f40e8e7b603bc3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 43/57] fix: ignore supervision requests without a session id

---
 pyzwave/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 9f0912b..1049823 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -26,6 +26,10 @@ def supervision(func):
     async def __wrapper__(self, message: Message, flags):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
+        if message.sessionID is None:
+            # Incomplete request, there is no session to report the status for
+            _LOGGER.warning("Received incomplete supervision request %s", message)
+            return False
         # Handle supervision calls
         if await func(self, message.command, flags):
             await self.send(
-- 
2.43.0


From 2b35a27dc910919d6c7e0e2b5062c7a86f9c0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 44/57] fix: handle shortened reports of failed nodes and end
 points

---
 pyzwave/zipgateway.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 05ae8e9..55cc6c7 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -116,6 +116,9 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
+        if report.failedNodeList is None:
+            _LOGGER.warning("Received failed node list report without any nodes")
+            return set()
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
@@ -130,7 +133,8 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        # The aggregated end points may be missing in the report
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
-- 
2.43.0


From 9b8e1379a2769e6a7d370961a470ab9fb2280649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 45/57] fix: know all announced association groups before
 asking for details

A report that arrived while the requests for an earlier group of the same group
information report were sent was dropped, and a newer profile was overwritten.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 62611c5..f217455 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -194,12 +194,15 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups or []:
+        groups = report.groups or []
+        # Other reports may arrive while the requests below are sent. Know all groups first
+        for group in groups:
             # Keep what is already known if the group is announced again
             self.groupings.setdefault(
                 group.groupingIdentifier, Group()
             ).profile = group.profile
             self.speak("commandClassUpdated")
+        for group in groups:
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
-- 
2.43.0


From b52b8dc86acc1ae6754cc642844a98ae06dcfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 46/57] fix: do not share the node list of a report with the
 association group

---
 pyzwave/commandclass/Association.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index fef58a1..e5d4e1c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -163,7 +163,7 @@ class Association(CommandClass):
             # Got the wrong message. Should hopyfully not happen...
             return
         group.maxNodes = report.maxNodesSupported
-        group.nodes = report.nodes
+        group.nodes = Nodes(report.nodes)
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0


From 94cc2b35a2d07565c91d4285ed41ade7d0d885f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 47/57] fix: listen for DTLS connections on a socket of the
 family of its address

---
 pyzwave/dtlsconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 133aef1..920deda 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -149,7 +149,7 @@ class DTLSConnection(threading.Thread):
         """Create a new socket and configure it for DTLS PSK"""
         if self._server:
             sock = dtls.wrap_server(
-                socket.socket(socket.AF_INET, socket.SOCK_DGRAM),
+                socket.socket(socket.AF_INET6, socket.SOCK_DGRAM),
                 certfile="/tmp/ZIPR.x509_1024.pem",
                 keyfile="/tmp/ZIPR.key_1024.pem",
                 ca_certs="/tmp/Portal.ca_x509.pem",
-- 
2.43.0


From f71a1d687012a6ac4ecba0450fc0062419300552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 48/57] fix: do not write a DTLS key beyond the buffer for it

---
 pyzwave/dtlsconnection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 920deda..88b5422 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -104,17 +104,23 @@ class DTLSConnection(threading.Thread):
         """Stop the thread"""
         self._running = False
 
-    def clientPskCb(self, _ssl, _hint, identity, _maxIdenityLen, cpsk, _maxPskLen):
+    def clientPskCb(self, _ssl, _hint, identity, _maxIdenityLen, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        if length > maxPskLen:
+            # Does not fit in the buffer, there is no key to use
+            return 0
         memmove(cpsk, self._psk, length)
         iden = "Client_identity"
         memmove(identity, iden.encode("utf-8"), len(iden))
         return length
 
-    def serverPskCb(self, _ssl, _identity, cpsk, _maxPskLen):
+    def serverPskCb(self, _ssl, _identity, cpsk, maxPskLen):
         """Callback function used by ssl to get the DTLS psk"""
         length = len(self._psk)
+        if length > maxPskLen:
+            # Does not fit in the buffer, there is no key to use
+            return 0
         memmove(cpsk, self._psk, length)
         return length
 
-- 
2.43.0


From 8419258ab782405641b62053854ed21df2b0caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 49/57] fix: let a DTLS connection be stopped before it is
 connected

---
 pyzwave/dtlsconnection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/dtlsconnection.py b/pyzwave/dtlsconnection.py
index 88b5422..f3d9d0f 100644
--- a/pyzwave/dtlsconnection.py
+++ b/pyzwave/dtlsconnection.py
@@ -57,6 +57,7 @@ class DTLSConnection(threading.Thread):
         self._address = address
         self._psk = psk
         self._connectionEvent.clear()
+        self._running = True
         self.start()
         await asyncio.wait_for(self._connectionEvent.wait(), timeout=10)
 
@@ -64,12 +65,12 @@ class DTLSConnection(threading.Thread):
         """Start server socket"""
         self._server = True
         self._psk = psk
+        self._running = True
         self.start()
 
     def run(self):  # pylint: disable=missing-function-docstring
         self._sock = self.createDtlsPskSock()
         self._loop.call_soon_threadsafe(self._connectionEvent.set)
-        self._running = True
         while self._running:
             try:
                 if self._server:
-- 
2.43.0


From fb05602e6e7bd09be110a146c27806f57854a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 50/57] fix: do not ignore the nodes 225-232 in node lists

---
 pyzwave/commandclass/NetworkManagementProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..0c3c70f 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,7 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From 4396330e75cd420878ce2eb15ac74ef99eec46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 51/57] fix: position of the local bit in
 ZIP_INV_NODE_SOLICITATION

---
 pyzwave/commandclass/ZipND.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/ZipND.py b/pyzwave/commandclass/ZipND.py
index 664a7e5..8eb0c3a 100644
--- a/pyzwave/commandclass/ZipND.py
+++ b/pyzwave/commandclass/ZipND.py
@@ -27,9 +27,9 @@ class ZipInvNodeSolicitation(Message):
 
     NAME = "ZIP_INV_NODE_SOLICITATION"
     attributes = (
-        ("-", reserved_t(4)),
+        ("-", reserved_t(5)),
         ("local", flag_t),
-        ("-", reserved_t(3)),
+        ("-", reserved_t(2)),
         ("nodeId", uint8_t),
     )
 
-- 
2.43.0


From 887ade00b005674d1bbbfa39b4669aaa198843de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 52/57] fix: assigning the same number in another scale was
 ignored

---
 pyzwave/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 25d9701..7f0bd91 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -5,7 +5,7 @@ import inspect
 import logging
 from typing import Dict, Any
 
-from pyzwave.types import BitStreamReader
+from pyzwave.types import BitStreamReader, float_t
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -38,6 +38,14 @@ def toAttributeType(attrType, value):
     return attrType(value)
 
 
+def sameValue(oldValue, newValue) -> bool:
+    """Return if two values of an attribute are the same"""
+    if isinstance(oldValue, float_t) and isinstance(newValue, float_t):
+        # The same number in another scale is another value
+        return oldValue == newValue and oldValue.scale == newValue.scale
+    return oldValue == newValue
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -118,7 +126,7 @@ class AttributesMixin:
                     newValue = value
                 else:
                     newValue = toAttributeType(attrType, value)
-                if oldValue == newValue:
+                if sameValue(oldValue, newValue):
                     return
                 self._attributes[name] = newValue
                 self.attributeUpdated(name, newValue, oldValue)
-- 
2.43.0


From a7ce70027e5df93f48adda6d7bb404db34dbab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 53/57] fix: ignore metadata extensions that are not known
 unless they are critical

---
 pyzwave/commandclass/NodeProvisioning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index b638167..293c484 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -45,9 +45,13 @@ class MetadataExtension(VarDictAttribute(MetadataExtensionType, bytes)):
         retval = {}
         while stream.bytesLeft():
             metadataType = stream.bits(7)
-            _critical = stream.bit()
+            critical = stream.bit()
             length = stream.byte()
-            retval[metadataType] = stream.value(length)
+            value = stream.value(length)
+            if not critical and metadataType not in list(MetadataExtensionType):
+                # Metadata not marked as critical must be ignored if it is not known
+                continue
+            retval[metadataType] = value
         return retval
 
 
-- 
2.43.0


From 1d0b416c642c06c3702459498c25b1c47016a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 54/57] fix: keep the stored settings of a node if saving them
 is interrupted

---
 pyzwave/persistantstorage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c5afd72..d01d93b 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -48,8 +48,11 @@ class YamlStorage(PersistantStorage):
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
         path: pathlib.Path = self.pathForNode(node.nodeId)
         path.parent.mkdir(parents=True, exist_ok=True)
-        with open(path, "w") as fd:
-            yaml.dump(settings, fd)
+        # Do not write to the file directly. If we are interrupted while writing
+        # it the settings stored earlier would be lost.
+        tmpPath = path.with_suffix(".tmp")
+        tmpPath.write_text(yaml.dump(settings))
+        tmpPath.replace(path)
 
     @property
     def path(self) -> str:
-- 
2.43.0


From a61bdbc551e5d6253d1de0f78fe3487c766ddfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 55/57] fix: stopping a connection that is not connected does
 nothing

---
 pyzwave/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index 6a41a8f..ddaab04 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -93,7 +93,8 @@ class Connection:
     def stop(self):
         """Stop the thread"""
         self._running = False
-        self._sock.close()
+        if self._sock:
+            self._sock.close()
 
     def _msgReceived(self, msg, sender):
         if not self._onMessage:
-- 
2.43.0


From 7b540992f88ffb1a16d8934a03b8cc7cb3ffcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 56/57] fix: do not keep a connection made while its node was
 removed

---
 pyzwave/zipgateway.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 55cc6c7..662701d 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -30,6 +30,7 @@ class ZIPGateway(ZIPConnection):
         self._connections = {}
         self._connectLocks = {}
         self._nodes = {}
+        self._removedNodes = set()
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
@@ -200,17 +201,25 @@ class ZIPGateway(ZIPConnection):
             if nodeId in report.nodes:
                 continue
             del self._nodes[nodeId]
-            connection = self._connections.pop(nodeId, None)
-            if connection:
-                # The node id may be reused by a node with another address
-                connection.disconnect()
+            self._removedNodes.add(nodeId)
+            self.__disconnectNode__(nodeId)
 
         # Find new nodes
         for nodeId in report.nodes:
+            if nodeId in self._removedNodes:
+                # The connection may have been under way when the node was removed
+                self._removedNodes.remove(nodeId)
+                self.__disconnectNode__(nodeId)
             self._nodes.setdefault(nodeId, {})
         await self.__updateAddresses__(report.nodes)
         self.speak("nodeListUpdated")
 
+    def __disconnectNode__(self, nodeId: int):
+        """Drop the connection, the node id may be reused by a node with another address"""
+        connection = self._connections.pop(nodeId, None)
+        if connection:
+            connection.disconnect()
+
     async def __updateAddresses__(self, nodeIds):
         """Retrieve the ip-addresses not already known"""
         for nodeId in nodeIds:
-- 
2.43.0


From 8f2cb660dc98a739d01e3e67e41ae4a46ffd2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:49 +0000
Subject: [PATCH 57/57] fix: collect the members of an association group from
 all its reports

---
 pyzwave/commandclass/Association.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index e5d4e1c..9da6fef 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -146,8 +146,16 @@ class Association(CommandClass):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
 
+        nodes = Nodes()
+
         def matches(report):
-            return report.groupingIdentifier == groupingIdentifier
+            if report.groupingIdentifier != groupingIdentifier:
+                return False
+            if report.reportsToFollow:
+                # The nodes did not fit in one report, wait for the last one
+                nodes.extend(report.nodes)
+                return False
+            return True
 
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
@@ -163,7 +171,8 @@ class Association(CommandClass):
             # Got the wrong message. Should hopyfully not happen...
             return
         group.maxNodes = report.maxNodesSupported
-        group.nodes = Nodes(report.nodes)
+        nodes.extend(report.nodes)
+        group.nodes = nodes
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0

