From c42f4c930bd42c93bb4dbda9702c894bd72c22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 01/40] fix: match the generic frame grammar in linear time

The nested quantifiers backtracked exponentially on long frames that almost
match (24 digits followed by a letter took seconds). The new pattern accepts
the same language.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..041ac69 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 69f562f44d69bb0a2d840fc48f22a5a1982050c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 02/40] fix: parse frames with an unknown WHO as generic
 messages

parse_message documents GenericMessage for an unknown WHO tag, but the
ValueError of the Who enumeration escaped instead.
---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 041ac69..115d11f 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # the WHO tag is unknown
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From f4dd164039a8da5fb860058252bcd892de4fe587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 03/40] fix: recognise dimension requests whose dimension has
 parameters

*#18*51*52#24#5## was parsed as a dimension response without values.
---
 pyown/messages/dimension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..e1c5aa7 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
-- 
2.43.0


From 9a9e4c5c0243286556caf00ccbf351e7da885b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 04/40] fix: recognise dimension writings whose dimension has
 parameters

*#18*51*#1200#1*5## was parsed as a dimension response.
---
 pyown/messages/dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index e1c5aa7..de73b52 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -63,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
-- 
2.43.0


From c8b801037e124fd966e3903d4ab901c92dc80b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:42 +0000
Subject: [PATCH 05/40] fix: do not add an empty value to dimension writings
 without values

*#13**#0## was encoded back as *#13**#0*##.
---
 pyown/messages/dimension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index de73b52..b1a615c 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -92,7 +92,7 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*#{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -124,4 +124,4 @@ class DimensionResponse(DimensionWriting, BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
-- 
2.43.0


From 877a5e12484d8dc1055c3b3af38f6560510ed117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:10 +0000
Subject: [PATCH 06/40] fix: reject wrong tags when parsing ACK and NACK

A single matching tag was enough to be accepted.
---
 pyown/messages/ack.py  | 2 +-
 pyown/messages/nack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/ack.py b/pyown/messages/ack.py
index 6b687f6..27333d3 100644
--- a/pyown/messages/ack.py
+++ b/pyown/messages/ack.py
@@ -40,7 +40,7 @@ class ACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "1":
+        if list(tags) != ["#", "1"]:
             raise InvalidMessage(message="Invalid ACK message")
 
         return cls()
diff --git a/pyown/messages/nack.py b/pyown/messages/nack.py
index 959c082..60b4cce 100644
--- a/pyown/messages/nack.py
+++ b/pyown/messages/nack.py
@@ -40,7 +40,7 @@ class NACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "0":
+        if list(tags) != ["#", "0"]:
             raise InvalidMessage(tags)
 
         return cls()
-- 
2.43.0


From 5039915cef98ab40e6b059a539b2041ca0f58450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 07/40] fix: make generic messages hashable

Their tags are a list, so hash() raised TypeError.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 115d11f..4ca1500 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 9c3bec9ef3ac3539c0895dbbb3ef51a92fdfff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 08/40] fix: give every known WHO a description

Reading the name of five members raised KeyError.
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From 04afe771e77cb4268e7dd281bb6f67b16c339eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:29 +0000
Subject: [PATCH 09/40] fix: classify general, area and group addresses of a
 local bus

0#4#01 and #5#4#01 were refused and 1#4#01 was taken for a light point.
---
 pyown/tags/where.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/where.py b/pyown/tags/where.py
index 376eb34..bd8a0c9 100644
--- a/pyown/tags/where.py
+++ b/pyown/tags/where.py
@@ -39,6 +39,11 @@ class Where(TagWithParameters):
             WhereType: The type of the WHERE tag.
         """
         # TODO: Refactor this method and write tests for it.
+        # an address on a local bus is followed by #4#<interface>
+        address, local_bus, _ = self.string.rpartition("#4#")
+        if local_bus and address:
+            return WhereType.LOCAL_BUS if address == "0" else Where(address).type
+
         if self.string == "0":
             return WhereType.GENERAL
         elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
-- 
2.43.0


From 04009a2558ee232898d235888247dfea339fd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 10/40] fix: keep the valid frames received together with an
 invalid one

One malformed frame made every other frame of the same packet disappear,
although valid messages are documented to be added to the queue.
---
 pyown/protocol/protocol.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..894ce69 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -78,22 +78,29 @@ class OWNProtocol(Protocol):
             raise e
 
         # Sometimes multiple messages can be sent in the same packet
-        try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
-        except ParseError as e:
-            log.warning(f"Received invalid message: {e}")
-            raise e
+        messages: list[BaseMessage] = []
+        error: ParseError | None = None
+        for frame in text.split("##"):
+            if not frame:
+                continue
 
-        # If there are no messages, return
-        if not messages:
-            return
+            try:
+                messages.append(parse_message(frame + "##"))
+            except ParseError as e:
+                log.warning(f"Received invalid message: {e}")
+                error = error or e
 
-        log.debug(f"Received messages: {messages}")
+        if messages:
+            log.debug(f"Received messages: {messages}")
 
         # Call the on_message_received future
         for msg in messages:
             self._messages_queue.put_nowait(msg)
 
+        # Report the invalid message only after the valid ones have been added to the queue
+        if error is not None:
+            raise error
+
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
         self._lock.acquire()
-- 
2.43.0


From 2201fd0a8af1981078aa5c8390d731c9c6b1d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:06 +0000
Subject: [PATCH 11/40] fix: reassemble messages split across TCP segments

Each packet was parsed on its own, so a frame cut by TCP segmentation was
either mis-parsed as a shorter frame or reported as invalid.
---
 pyown/protocol/protocol.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 894ce69..b43b01d 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,7 +1,9 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
+from typing import Pattern
 
 from ..exceptions import ParseError
 from ..messages import BaseMessage, parse_message
@@ -12,6 +14,9 @@ __all__ = [
 
 log = logging.getLogger("pyown.protocol")
 
+# The beginning of a message whose terminator has not been received yet
+PARTIAL_MESSAGE: Pattern[str] = re.compile(r"\*[0-9#*]*")
+
 
 class OWNProtocol(Protocol):
     """Asyncio protocol for the OpenWebNet TCP connection.
@@ -40,6 +45,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # The message received only in part so far
+        self._buffer: str = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -72,15 +80,23 @@ class OWNProtocol(Protocol):
         """
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            text = data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
 
-        # Sometimes multiple messages can be sent in the same packet
+        # Sometimes multiple messages can be sent in the same packet, and a message can be split across packets,
+        # so what follows the last terminator is kept until the rest of the message is received
+        *frames, rest = (self._buffer + text).split("##")
+        rest = rest.lstrip()
+        if rest and not PARTIAL_MESSAGE.fullmatch(rest):
+            frames.append(rest)
+            rest = ""
+        self._buffer = rest
+
         messages: list[BaseMessage] = []
         error: ParseError | None = None
-        for frame in text.split("##"):
+        for frame in frames:
             if not frame:
                 continue
 
-- 
2.43.0


From cd7aee16ad878640e54fe4868fa3ded22687617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:31 +0000
Subject: [PATCH 12/40] fix: hand received messages to the readers in the order
 they asked

asyncio.Queue lets a new reader take the message another one has already been
woken up for, so a command started in the instant the answer of a previous one
arrived could steal that answer.
---
 pyown/protocol/protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index b43b01d..85b8bc4 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -50,6 +50,9 @@ class OWNProtocol(Protocol):
 
         self._lock = Lock()
 
+        # Readers are served in the order they asked
+        self._read_lock = asyncio.Lock()
+
     def connection_made(self, transport: BaseTransport):
         """Called by the transport class when the socket is connected to the server."""
         log.info("Connection made")
@@ -150,5 +153,6 @@ class OWNProtocol(Protocol):
         Returns:
             BaseMessage: The message from the server, it will be a subclass of BaseMessage
         """
-        messages = await self._messages_queue.get()
+        async with self._read_lock:
+            messages = await self._messages_queue.get()
         return messages
-- 
2.43.0


From a4a4f625b4636e993da9735670902e8c9775a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:33 +0000
Subject: [PATCH 13/40] fix: end the event loop when the connection is dropped
 or closed

The loop kept waiting for a message that could not arrive anymore, and failed
on the missing transport after close().
---
 pyown/client/client.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..f017411 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,13 +112,23 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while self._protocol is not None:
+            # by putting timeout as None, it will wait indefinitely for a message
+            read = self._loop.create_task(self.read_message(timeout=None))
             try:
-                # by putting timeout as None, it will wait indefinitely for a message
-                message = await self.read_message(timeout=None)
+                await asyncio.wait((read, self._on_connection_end), return_when="FIRST_COMPLETED")
+                if not read.done():
+                    # the connection ended and all the messages received have been dispatched
+                    break
+                message = read.result()
+            except InvalidSession:
+                # the client was closed before the read could start
+                break
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            finally:
+                read.cancel()
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
-- 
2.43.0


From 34d96f5e5651e7d99c38195c7a23bd495db375e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 14/40] fix: keep the event loop running on unsupported energy
 addresses

An event from an address EnergyManagement refuses (or 7N without parameters,
which raised IndexError) terminated the whole event loop.
---
 pyown/client/client.py       | 3 +++
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index f017411..b2f9899 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -149,6 +149,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Item address not supported, WHO={who}, WHERE={e.tag}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..744e423 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From 037ea39f403d511f65465b263dd80e095afc0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:07 +0000
Subject: [PATCH 15/40] fix: dispatch camera events

Camera was missing from the item types, so its callbacks were never called
and get_item refused it.
---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..9469a7b 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -14,5 +15,6 @@ ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.AUTOMATION: Automation,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
+    Who.VIDEO_DOOR_ENTRY: Camera,
 }
 """A dictionary that maps the Who tag to the corresponding item class."""
-- 
2.43.0


From 044cba33e78b9a4c4a0a98b809f435d3d8229260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 16/40] fix: allow parameters on light commands

WhatLight is an enumeration, so adding a parameter raised ValueError and the
dimmer commands with a speed or a step could never be sent.
---
 pyown/items/lighting/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..32b4129 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
-- 
2.43.0


From 2c1aa4f57d83aeb1f69636f6b9be209225846348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:25 +0000
Subject: [PATCH 17/40] fix: send the speed of a dimmer step as its second
 parameter

The frame is 30#<levels>#<speed>: without a value the speed was sent in the
place of the levels. The documented speed range is also checked, as turn_on
and turn_off do.
---
 pyown/items/lighting/dimmer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..d1fa79f 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,12 +87,17 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.UP_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
+            # the speed is the second parameter, so the value cannot be omitted
+            if value is None:
+                what = what.with_parameter(1)
             what = what.with_parameter(speed)
 
         await self.send_normal_message(what)
@@ -106,12 +111,17 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.DOWN_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
+            # the speed is the second parameter, so the value cannot be omitted
+            if value is None:
+                what = what.with_parameter(1)
             what = what.with_parameter(speed)
 
         await self.send_normal_message(what)
-- 
2.43.0


From 18236babd2c58ea160c8f61800d8ffe1c86f3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 18/40] fix: decode light events by the documented dimensions

Dimension 1 is the dimmer level and speed, 2 the temporization and 14 the
white temperature (docs/original/who1.md); 1 was taken for the temporization,
8 (working time) for the level and 13 for the white temperature.
---
 pyown/items/lighting/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 32b4129..995306d 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -235,7 +235,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -243,7 +243,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -258,7 +258,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From 14d7bee1c145e96d27a06870ccc2523eea8d9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 19/40] fix: request the working time of a lamp with dimension
 8

Dimension 3 asks which lights are on.
---
 pyown/items/lighting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 995306d..263811d 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -204,7 +204,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
-- 
2.43.0


From 45e1a8711c649f62e436dde3ae4a2f24e973cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 20/40] fix: write the white temperature with dimension 14

It is the documented dimension and the one already used to request it.
---
 pyown/items/lighting/dimmer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index d1fa79f..e1f9663 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -173,7 +173,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From 96ad2993548200187de29a5d01ba1930fb856286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:53 +0000
Subject: [PATCH 21/40] fix: report a light as on for levels, timed, blinking
 and translated commands

Every status other than a plain 1 was passed to the callbacks as off: dimmer
levels 2-10, timed and blinking commands, 1#speed and 1000#1.
---
 pyown/items/lighting/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 263811d..f2a7817 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -265,10 +265,15 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[0].tag),
                 )
         elif isinstance(message, NormalMessage):
+            what = message.what
+            if what.tag == WhatLight.COMMAND_TRANSLATION and what.parameters:
+                # the translated command is the first parameter
+                what = What(what.parameters[0])
+
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                what.tag != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From 13e863807def5927cf58e30259624a3588288408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:24 +0000
Subject: [PATCH 22/40] fix: dispatch energy events whose dimension has
 parameters

511#M#D, 512#M, 513#M, 514#M, 52#Y#M and 72#N are not members of the
enumeration, so none of these events ever reached its callbacks.
---
 pyown/items/energy/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 744e423..985d190 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,10 +553,10 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = message.dimension
 
         tasks = []
-        callbacks = cls._event_callbacks.get(dim, [])
+        callbacks = cls._event_callbacks.get(DimensionEnergy(dim.tag), [])
 
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
-- 
2.43.0


From 36c6afbb464176e673ca462948ab361606722d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 23/40] fix: pass the day to the daily totalizer callbacks

They are documented to receive the item, the day, the month, the hour and the
energy, but the day was left out.
---
 pyown/items/energy/energy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 985d190..e584f58 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -562,9 +562,10 @@ class EnergyManagement(BaseItem):
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
             month = int(dim.parameters[0])
+            day = int(dim.parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
             month = int(dim.parameters[0])
             hour = int(message.values[0].string)
-- 
2.43.0


From 78c593ff2b1ac3d73befbb06a88c1098723b9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:28 +0000
Subject: [PATCH 24/40] fix: pass the totalizer number to the totalizer
 callbacks

They are documented to receive the item, the totalizer number, the date of the
last reset and the energy, but the number was left out.
---
 pyown/items/energy/energy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index e584f58..de59398 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -619,8 +619,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(dim.parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 3e843408e450ea0e58739568a7d54212665c57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 25/40] fix: send the month before the day when asking for
 daily totalizers

The documented frame is *18*57#<M>#<D>*where##.
---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index de59398..f992162 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From ee338cae95cab43d522fc78eae56674b18ea15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 26/40] fix: read the actuator status from its six values

The frame is *#18*where*71*<disabled>*<forcing>*...*<advanced>##, but all the
fields were taken from the characters of the first value.
---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index f992162..1a01691 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From fdb4adbdb0311e28401765ba95eb9d1bbf1d63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:33 +0000
Subject: [PATCH 27/40] fix: read the bits of a Stop&Go event from the right

The mask is b13...b1, so the last digit is the open/close bit; the bits were
assigned in the reverse order.
---
 pyown/items/energy/energy.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 1a01691..c1f680b 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -583,19 +583,19 @@ class EnergyManagement(BaseItem):
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(message.values[0].string[-1])),
+                failure=bool(int(message.values[0].string[-2])),
+                block=bool(int(message.values[0].string[-3])),
+                open_cc=bool(int(message.values[0].string[-4])),
+                open_ground_fault=bool(int(message.values[0].string[-5])),
+                open_vmax=bool(int(message.values[0].string[-6])),
+                self_test_off=bool(int(message.values[0].string[-7])),
+                auto_reset_off=bool(int(message.values[0].string[-8])),
+                check_off=bool(int(message.values[0].string[-9])),
+                waiting_closing=bool(int(message.values[0].string[-10])),
+                first_24h_open=bool(int(message.values[0].string[-11])),
+                power_fail_down=bool(int(message.values[0].string[-12])),
+                power_fail_up=bool(int(message.values[0].string[-13])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
-- 
2.43.0


From 8d1d0ad529d4c83608c4bcbee33f515650644b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 28/40] fix: read the Stop&Go status mask as a string of bits

The 13 binary digits b13...b1 were read as a decimal number before testing the
bits.
---
 pyown/items/energy/stop_go.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..db538b4 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -77,6 +77,7 @@ class StopGo(EnergyManagement):
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
                     # in this case we have a value containing a 13-bit bitmask with each bit representing one attribute
+                    val = int(msg.values[0].string, 2)
                     status.open = bool(val & 0x01)  # bit 1
                     status.failure = bool(val & 0x02)  # bit 2
                     status.block = bool(val & 0x04)  # bit 3
-- 
2.43.0


From d124e8d5a728ff71b464982c16d6c27a6f9df86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 29/40] fix: encode the gateway time zone as sign and two
 digits

Negative offsets were wrong (timedelta.seconds of -1 h is 82800) and the field
had four digits instead of the documented three, which read back as 0 hours.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..2cfa3f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 755bc18b95c4f13e3900afbed0af236d8e6b828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:00 +0000
Subject: [PATCH 30/40] fix: send the day of the week when setting the gateway
 date and time

The documented fields are H*M*S*T*W*D*M*Y, also expected by get_datetime.
---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 2cfa3f7..0589dc2 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -399,8 +399,10 @@ class Gateway(BaseItem):
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
+        # the day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From 0ac9af873b0187ee5e22b191b6044e13f58030be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 31/40] fix: return the MAC address in hexadecimal

The gateway sends six decimal values, which were joined unconverted.
---
 pyown/items/gateway/gateway.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 0589dc2..fd6d486 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,7 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
+        # the octets are sent as decimal numbers
+        mac = ":".join(f"{int(o.string):02X}" for o in (oct1, oct2, oct3, oct4, oct5, oct6))
         return mac
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
-- 
2.43.0


From bf7b73ca70a444cffc5e941f219bb7809a0c5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:04 +0000
Subject: [PATCH 32/40] fix: pass text values to the gateway callbacks as one
 argument

Strings are sequences, so net mask, MAC address, model and versions were
spread one character per argument.
---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index fd6d486..8106b9b 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -509,10 +509,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From eeaf7b3b53d44e7285f7d63eb896b2cae54a0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:39 +0000
Subject: [PATCH 33/40] fix: follow the documented frames in the HMAC handshake

The server key and proof are sent as *#<digits>## and were used with the
leading # and without converting the digits to hexadecimal, and the client
answer lacked the # of *#Rb*HMAC##, so the handshake could never succeed.
---
 pyown/client/base.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..cd250ae 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._parse_hmac_digits(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +192,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,11 +201,35 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth.hex().encode(), self._parse_hmac_digits(resp).encode()):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _parse_hmac_digits(message: BaseMessage) -> str:
+        """Gets the hex string from a `*#<digits>##` message of the hmac authentication.
+
+        Args:
+            message (BaseMessage): The message sent by the server
+
+        Returns:
+            str: The hex string
+
+        Raises:
+            InvalidAuthentication: if the message does not contain only a string of digits
+        """
+        digits = message.message.removeprefix("*#").removesuffix("##")
+        try:
+            hex_string = digits_to_hex(digits)
+        except (IndexError, ValueError):
+            hex_string = ""
+
+        if not hex_string or hex_to_digits(hex_string) != digits:
+            raise InvalidAuthentication("Invalid hmac message")
+
+        return hex_string
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From 7b73e0ee79bbaeba3a3ba8a5f41a9bc9c1e813f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:12 +0000
Subject: [PATCH 34/40] fix: let a client be started again after its connection
 ended

---
 pyown/client/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index cd250ae..f8a777d 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -86,6 +86,11 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        if self._on_connection_start.done():
+            # The client was already started, so the new connection needs its own futures
+            self._on_connection_start = self._loop.create_future()
+            self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-- 
2.43.0


From 1880f9b40e258baed70c93eeb8f5872f14025f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:50 +0000
Subject: [PATCH 35/40] fix: the error for a refused Stop&Go address carries
 the address

---
 pyown/items/energy/stop_go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index db538b4..130f5b8 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -29,7 +29,7 @@ class StopGo(EnergyManagement):
         """
         super().__init__(client, where, who=who)
         if self.get_type() != TypeEnergy.STOP_GO:
-            raise InvalidTag(f"Invalid tag for a Stop&Go item: {where}")
+            raise InvalidTag(self.where)
 
     async def enable_automatic_reset(self) -> None:
         """Enable the automatic reset of the Stop&Go device."""
-- 
2.43.0


From 45e0e173bc498439e9144fa9efd21ab1bc159790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:53 +0000
Subject: [PATCH 36/40] fix: the error for refused ACK tags carries the tags

---
 pyown/messages/ack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/ack.py b/pyown/messages/ack.py
index 27333d3..ef8974b 100644
--- a/pyown/messages/ack.py
+++ b/pyown/messages/ack.py
@@ -41,6 +41,6 @@ class ACK(BaseMessage):
         """
         # the first tag bust be #
         if list(tags) != ["#", "1"]:
-            raise InvalidMessage(message="Invalid ACK message")
+            raise InvalidMessage(tags)
 
         return cls()
-- 
2.43.0


From fcccec2561c2ce0c595b96e9466374698f86ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 37/40] fix: a password that is not numeric fails the OPEN
 authentication without being shown

---
 pyown/client/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index f8a777d..7f60430 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -150,7 +150,11 @@ class BaseClient(ABC):
         Args:
             nonce (str): The nonce sent by the server
         """
-        enc = own_calc_pass(self._password, nonce)
+        try:
+            enc = own_calc_pass(self._password, nonce)
+        except ValueError:
+            # The original error contains the password
+            raise InvalidAuthentication("The open authentication needs a numeric password") from None
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
         resp = await self.read_message()
-- 
2.43.0


From 210883e4457e1e3b099a8ef3c098629bba3eff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:22 +0000
Subject: [PATCH 38/40] fix: a message waiting for the gateway to read fails
 when the connection ends, instead of waiting forever

---
 pyown/protocol/protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 85b8bc4..2c321d6 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -5,7 +5,7 @@ from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 from typing import Pattern
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidSession, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -137,11 +137,17 @@ class OWNProtocol(Protocol):
             msg (BaseMessage): The message to send
             delay (float): The delay to wait before sending the message.
                 If the messages are sent too fast, certain servers will respond with invalid messages.
+
+        Raises:
+            InvalidSession: if the connection ends while the message is waiting to be sent.
         """
         data = msg.bytes
 
         # block multiple messages from being sent at the same time
         while self._lock.locked():
+            if self._transport.is_closing():
+                # writing is never resumed on a connection that has ended
+                raise InvalidSession("The connection has ended")
             await asyncio.sleep(delay)
 
         self._transport.write(data)
-- 
2.43.0


From 742e0217c01957981792ef7a09887170984286cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 39/40] fix: keep plain strings in the tags made from members
 of the enums

str() on such a tag returned the member itself, so Python initialised the
member again with the tag: a TypeError, and a member unusable from then on.
---
 pyown/tags/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index 4bfcfcf..d6585ac 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -37,7 +37,8 @@ class Tag:
 
     # noinspection PyUnusedLocal
     def __init__(self, string: str | int = "", *args, **kwargs):
-        if isinstance(string, int):
+        if isinstance(string, (int, str)):
+            # the members of the enums are kept as plain strings: str() on a tag must not return a member
             self._string = str(string)
         else:
             self._string = string
-- 
2.43.0


From 9caf2f7690bc0eade80e4100caa726ab44a35c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:55 +0000
Subject: [PATCH 40/40] fix: a callback that fails as soon as it is called no
 longer stops the other callbacks of the event

---
 pyown/items/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..32fd161 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -81,8 +81,13 @@ class BaseItem(ABC):
         self._client = client
 
     @staticmethod
-    def _create_tasks(funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
-        return [asyncio.create_task(func(*args)) for func in funcs]
+    async def _run_callback(func: CoroutineCallback, *args: Any) -> None:
+        # called inside the task, so that a call which fails only affects that callback
+        await func(*args)
+
+    @classmethod
+    def _create_tasks(cls, funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
+        return [asyncio.create_task(cls._run_callback(func, *args)) for func in funcs]
 
     @classmethod
     async def call_callbacks(cls, item: Self, message: BaseMessage) -> list[Task]:
-- 
2.43.0

