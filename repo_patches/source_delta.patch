From 6c17b5153e7e2c5007e46c08bd446de25dc46884 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 01/25] fix: deliver frames with an empty payload as soon as
 they are complete

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From 77cdac1d6cc843906c60ead0c676293668990aed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 02/25] fix: drop frames that cannot be handled without losing
 the rest of the read

---
 zigpy_cc/uart.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..985cd93 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,15 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as e:
+                # one bad frame must not take the rest of the read with it
+                LOGGER.warning("Frame dropped: %r", e)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From a947d2a9006d9e9c61695baecb504927fa9dcf29 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 03/25] fix: do not fail a rejected request with KeyError and
 drop the waiter of a failed one

---
 zigpy_cc/api.py                | 11 +++++++++--
 zigpy_cc/zigbee/application.py | 34 ++++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..5cd5ffc 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -144,8 +144,9 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
+                waiter = self._waiters.pop(waiter_id, None)
+                if waiter is not None:
+                    waiter.set_result(result)
 
                 raise CommandError(
                     result.payload["status"],
@@ -170,6 +171,12 @@ class API:
                 LOGGER.warning("Unknown type '%s'", obj.command_type)
                 raise Exception("Unknown type '{}'".format(obj.command_type))
 
+    def remove_waiter(self, waiter_id):
+        """Forget a response waiter whose request was not submitted."""
+        waiter = self._waiters.pop(waiter_id, None)
+        if waiter is not None:
+            waiter.future.cancel()
+
     def create_response_waiter(self, obj: ZpiObject, sequence=None):
         if obj.command_type == CommandType.SREQ and obj.command.startswith(
             "dataRequest"
diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..6a37431 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -188,19 +188,24 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 data,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
+            api = self._api
             waiter_id = None
-            waiter = self._api.create_response_waiter(obj, sequence)
+            waiter = api.create_response_waiter(obj, sequence)
             if waiter:
                 waiter_id = waiter.id
 
-            async with self._semaphore:
-                await self._api.request_raw(obj, waiter_id)
-                """
-                As a group command is not confirmed and thus immediately returns
-                (contrary to network address requests) we will give the
-                command some time to 'settle' in the network.
-                """
-                await asyncio.sleep(0.2)
+            try:
+                async with self._semaphore:
+                    await api.request_raw(obj, waiter_id)
+                    """
+                    As a group command is not confirmed and thus immediately returns
+                    (contrary to network address requests) we will give the
+                    command some time to 'settle' in the network.
+                    """
+                    await asyncio.sleep(0.2)
+            except BaseException:
+                api.remove_waiter(waiter_id)
+                raise
 
         except CommandError as ex:
             return ex.status, "Couldn't enqueue send data multicast: {}".format(ex)
@@ -239,14 +244,19 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj = ZpiObject.from_cluster(
                 device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
             )
+            api = self._api
             waiter_id = None
             if expect_reply:
-                waiter = self._api.create_response_waiter(obj, sequence)
+                waiter = api.create_response_waiter(obj, sequence)
                 if waiter:
                     waiter_id = waiter.id
 
-            async with self._semaphore:
-                await self._api.request_raw(obj, waiter_id)
+            try:
+                async with self._semaphore:
+                    await api.request_raw(obj, waiter_id)
+            except BaseException:
+                api.remove_waiter(waiter_id)
+                raise
 
         except CommandError as ex:
             return ex.status, "Couldn't enqueue send data request: {}".format(ex)
-- 
2.43.0


From 6b871222c90796d8c1946c1023a41d7c078dba3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 04/25] fix: deliver replies to requests with sequence number 0

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 5cd5ffc..224b74d 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -249,7 +249,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 5e60f2faf42973c1e241c332fb4c71acca869f1b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 05/25] fix: deliver the replies to power, match and user
 descriptor, unbind and leave requests

---
 zigpy_cc/zigbee/application.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 6a37431..fc722ed 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -35,9 +35,14 @@ REQUESTS = {
     "mgmtPermitJoinReq": (ZDOCmd.Mgmt_Permit_Joining_req, 3),
     "mgmtPermitJoinRsp": (ZDOCmd.Mgmt_Permit_Joining_rsp, 2),
     "nodeDescRsp": (ZDOCmd.Node_Desc_rsp, 2),
+    "powerDescRsp": (ZDOCmd.Power_Desc_rsp, 2),
     "activeEpRsp": (ZDOCmd.Active_EP_rsp, 2),
     "simpleDescRsp": (ZDOCmd.Simple_Desc_rsp, 2),
+    "matchDescRsp": (ZDOCmd.Match_Desc_rsp, 2),
+    "userDescRsp": (ZDOCmd.User_Desc_rsp, 2),
     "bindRsp": (ZDOCmd.Bind_rsp, 2),
+    "unbindRsp": (ZDOCmd.Unbind_rsp, 2),
+    "mgmtLeaveRsp": (ZDOCmd.Mgmt_Leave_rsp, 2),
 }
 
 IGNORED = (
-- 
2.43.0


From e4398ef6b0ebf1034d0cb35f2fcfc94af05b0389 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 06/25] fix: send messages of all application profiles as
 application data

---
 zigpy_cc/zpi_object.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..f495232 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -23,6 +22,8 @@ BufferAndListTypes = [
     ParameterType.LIST_UINT8,
 ]
 
+ZDO_PROFILE_ID = 0
+
 
 class ZpiObject:
     def __init__(
@@ -103,15 +104,15 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile == ZDO_PROFILE_ID:
+            subsystem = Subsystem.ZDO
+            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
+        else:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
             else:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 2)
-        else:
-            subsystem = Subsystem.ZDO
-            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
         name = cmd["name"]
         parameters = (
             cmd["response"] if cmd["type"] == CommandType.SRSP else cmd["request"]
-- 
2.43.0


From afb73d10720c49ad605b46edfc728815fbdbb2b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 07/25] fix: send user descriptor requests

---
 zigpy_cc/zpi_object.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index f495232..45f69e9 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,5 @@
 from zigpy.types import BroadcastAddress
+from zigpy.zdo.types import ZDOCmd
 
 from zigpy_cc import uart
 from zigpy_cc.buffalo import Buffalo, BuffaloOptions
@@ -24,6 +25,11 @@ BufferAndListTypes = [
 
 ZDO_PROFILE_ID = 0
 
+# ZDO clusters whose adapter command has a different id
+ZDO_COMMAND_IDS = {
+    ZDOCmd.User_Desc_req: 8,
+}
+
 
 class ZpiObject:
     def __init__(
@@ -106,7 +112,8 @@ class ZpiObject:
     ):
         if profile == ZDO_PROFILE_ID:
             subsystem = Subsystem.ZDO
-            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
+            command_id = ZDO_COMMAND_IDS.get(cluster, cluster)
+            cmd = next(c for c in Definition[subsystem] if c["ID"] == command_id)
         else:
             subsystem = Subsystem.AF
             if addr_mode is None:
-- 
2.43.0


From ce436f36c61da6a8cb489f2e4a9060304e0f9b4b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 08/25] fix: translate bind and unbind requests for groups

---
 zigpy_cc/zpi_object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index 45f69e9..d0bff7d 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -160,6 +160,11 @@ class ZpiObject:
             payload = cls.read_parameters(
                 bytes([addrmode]) + nwk.to_bytes(2, "little") + data[1:], parameters
             )
+        elif name in ("bindReq", "unbindReq") and data[12] == AddressMode.ADDR_GROUP:
+            # the adapter takes the group in the first bytes of an IEEE address
+            payload = cls.read_parameters(
+                nwk.to_bytes(2, "little") + data[1:] + bytes(7), parameters
+            )
         else:
             # TODO
             # assert sequence == data[0]
-- 
2.43.0


From 962d58c489d0cd04aedd86d0660738113cd348fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 09/25] fix: deliver the replies to routing table requests

---
 zigpy_cc/buffalo.py            | 19 +++++++++++++++++++
 zigpy_cc/zigbee/application.py |  1 +
 2 files changed, 20 insertions(+)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 23399ea..428e038 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -41,6 +41,9 @@ class Buffalo:
         elif type == ParameterType.LIST_UINT16:
             for v in value:
                 self.write(v, 2)
+        elif type == ParameterType.LIST_ROUTING_TABLE:
+            for v in value:
+                self.write_routing_table(v)
         elif type == ParameterType.LIST_NEIGHBOR_LQI:
             for v in value:
                 self.write_neighbor_lqi(v)
@@ -52,6 +55,11 @@ class Buffalo:
     def write(self, value, length=1, signed=False):
         self.buffer += value.to_bytes(length, "little", signed=signed)
 
+    def write_routing_table(self, value):
+        self.write(value["destAddr"], 2)
+        self.write(value["status"])
+        self.write(value["nextHop"], 2)
+
     def write_neighbor_lqi(self, value):
         for i in value["extPanId"]:
             self.write(i)
@@ -100,6 +108,9 @@ class Buffalo:
             elif type == ParameterType.LIST_UINT16:
                 for i in range(0, options.length):
                     res.append(self.read_int(2))
+            elif type == ParameterType.LIST_ROUTING_TABLE:
+                for i in range(0, options.length):
+                    res.append(self.read_routing_table())
             elif type == ParameterType.LIST_NEIGHBOR_LQI:
                 for i in range(0, options.length):
                     res.append(self.read_neighbor_lqi())
@@ -121,6 +132,14 @@ class Buffalo:
     def read_ieee_addr(self):
         return zigpy.types.EUI64(self.read(8))
 
+    def read_routing_table(self):
+        item = dict()
+        item["destAddr"] = zigpy.types.NWK(self.read_int(2))
+        item["status"] = self.read_int()
+        item["nextHop"] = zigpy.types.NWK(self.read_int(2))
+
+        return item
+
     def read_neighbor_lqi(self):
         item = dict()
         item["extPanId"] = self.read_ieee_addr()
diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index fc722ed..0491396 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -32,6 +32,7 @@ REQUESTS = {
     "matchDescReq": (ZDOCmd.Match_Desc_req, 2),
     "endDeviceAnnceInd": (ZDOCmd.Device_annce, 2),
     "mgmtLqiRsp": (ZDOCmd.Mgmt_Lqi_rsp, 2),
+    "mgmtRtgRsp": (ZDOCmd.Mgmt_Rtg_rsp, 2),
     "mgmtPermitJoinReq": (ZDOCmd.Mgmt_Permit_Joining_req, 3),
     "mgmtPermitJoinRsp": (ZDOCmd.Mgmt_Permit_Joining_rsp, 2),
     "nodeDescRsp": (ZDOCmd.Node_Desc_rsp, 2),
-- 
2.43.0


From defed390faf0764422d9877b8d0849d234cf6577 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 10/25] fix: send multicast messages with the requested number
 of hops

---
 zigpy_cc/zigbee/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 0491396..ef27d39 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -25,6 +25,7 @@ LOGGER = logging.getLogger(__name__)
 CHANGE_NETWORK_WAIT = 1
 SEND_CONFIRM_TIMEOUT = 60
 PROTO_VER_WATCHDOG = 0x0108
+MAX_HOPS = 30
 
 REQUESTS = {
     "nwkAddrReq": (ZDOCmd.NWK_addr_req, 0),
@@ -192,6 +193,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 0xFF,
                 sequence,
                 data,
+                radius=hops or MAX_HOPS,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
             api = self._api
-- 
2.43.0


From 792be1171657f6f5c096c4346998ea9bd6ee8605 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 11/25] fix: deliver incoming messages in extended form

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index ef27d39..95aeb4c 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -385,6 +385,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             dst_ep = obj.payload["dstendpoint"]
             data = obj.payload["data"]
             lqi = obj.payload["linkquality"]
+            if obj.command == "incomingMsgExt":
+                # the address field holds an IEEE or a network address
+                if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                    ieee = nwk
+                else:
+                    nwk = nwk[0] | nwk[1] << 8
 
         else:
             LOGGER.warning(
-- 
2.43.0


From 4ca689ba911790534fb43cc32198699d986fea83 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 12/25] fix: apply a changed PAN id on Z-Stack 1.2

---
 zigpy_cc/zigbee/start_znp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..a45331c 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -123,6 +123,8 @@ async def needsToBeInitialised(znp: API, version, options):
                     LOGGER.debug("Skip enforcing panID because a random panID is used")
                 else:
                     raise e
+            else:
+                raise e
 
         return False
     except AssertionError as e:
-- 
2.43.0


From 42643f2e44c29262246bee3a96e55b6d28fdea4b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 13/25] fix: accept PAN id 0

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 252380a4624091f0854a4df24b9512a74ec0fa32 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 14/25] fix: use the adapter's own list of endpoints when
 registering them

---
 zigpy_cc/zigbee/start_znp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index a45331c..12950b8 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -152,7 +152,9 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0


From 4549007a16ad58dc24664a9e46e9501e00a7308a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 15/25] fix: ignore a lost connection nobody uses yet

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 224b74d..4aefe9f 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From e2ef3e2a3cdca4d3f1c4d9fa88a658556371cab0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 16/25] fix: close the port when connecting is interrupted

---
 zigpy_cc/uart.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 985cd93..a97396a 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -122,14 +122,19 @@ class Gateway(asyncio.Protocol):
     def connection_made(self, transport: serial_asyncio.SerialTransport):
         """Callback when the uart is connected"""
         LOGGER.debug("Connection made")
-        self._open = True
         self._transport = transport
         if self._connected_future:
+            if self._connected_future.cancelled():
+                # nobody waits for this connection any more
+                transport.close()
+                return
             self._connected_future.set_result(True)
+        self._open = True
 
     def close(self):
         self._open = False
-        self._transport.close()
+        if self._transport is not None:
+            self._transport.close()
 
     def write(self, data):
         self._transport.write(data)
@@ -208,9 +213,13 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        protocol.close()
+        raise
 
     return protocol
-- 
2.43.0


From ae938437b99e4dd924042a2c67ec3d79964f526a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 17/25] fix: probing reports a port that cannot be opened as no
 adapter

---
 zigpy_cc/api.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 4aefe9f..29980bd 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -2,9 +2,6 @@ import asyncio
 import logging
 from typing import Any, Dict, Optional
 
-import serial
-import zigpy.exceptions
-
 from zigpy_cc import uart
 from zigpy_cc.config import CONF_DEVICE_PATH, SCHEMA_DEVICE
 from zigpy_cc.definition import Definition
@@ -286,11 +283,7 @@ class API:
         try:
             await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
             return True
-        except (
-            asyncio.TimeoutError,
-            serial.SerialException,
-            zigpy.exceptions.ZigbeeException,
-        ) as exc:
+        except Exception as exc:
             LOGGER.debug(
                 "Unsuccessful radio probe of '%s' port",
                 device_config[CONF_DEVICE_PATH],
-- 
2.43.0


From 9e920ea27751f4f15df81397ca7e36ddc9f9fc3d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 18/25] fix: leave the LED off when the network was closed

---
 zigpy_cc/zigbee/application.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 95aeb4c..46e7cf6 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -71,6 +71,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._api = None
 
         self.discovering = False
+        self._join_closed = False
         self.version = {}
 
     async def shutdown(self):
@@ -362,9 +363,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             return
 
         if obj.subsystem == t.Subsystem.ZDO and obj.command == "mgmtPermitJoinRsp":
-            self.set_led(LedMode.On)
+            # the adapter itself also responds when the network was closed
+            if nwk != 0 or not self._join_closed:
+                self.set_led(LedMode.On)
 
         if obj.subsystem == t.Subsystem.ZDO and obj.command == "permitJoinInd":
+            self._join_closed = obj.payload["duration"] == 0
             self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
             return
 
-- 
2.43.0


From 6cd3ab4755650b0c0c9689a8a2cf679f4f2801f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 19/25] fix: count the time for a reply from the sending of its
 request

---
 zigpy_cc/api.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 29980bd..b4292e8 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -125,6 +125,11 @@ class API:
         LOGGER.debug("--> %s", obj)
         frame = obj.to_unpi_frame()
 
+        response_waiter = self._waiters.get(waiter_id)
+        if response_waiter is not None:
+            # the time for the reply starts when the request is sent
+            self._expire_later(response_waiter)
+
         if obj.command_type == CommandType.SREQ:
             timeout = (
                 20000
@@ -217,23 +222,21 @@ class API:
         self._waiters[waiter.id] = waiter
         self._waiter_id += 1
 
+        if sequence is None:
+            self._expire_later(waiter)
+
+        return waiter
+
+    def _expire_later(self, waiter: Waiter):
         def callback():
             if not waiter.future.done() or waiter.future.cancelled():
-                LOGGER.warning(
-                    "No response for: %s %s %s %s",
-                    command_type.name,
-                    subsystem.name,
-                    command,
-                    payload,
-                )
+                LOGGER.warning("No response for: %s", waiter)
                 try:
                     self._waiters.pop(waiter.id)
                 except KeyError:
                     LOGGER.warning("Waiter not found: %s", waiter)
 
-        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)
-
-        return waiter
+        asyncio.get_event_loop().call_later(waiter.timeout / 1000 + 0.1, callback)
 
     def data_received(self, frame):
         try:
-- 
2.43.0


From 4bb0c98109626e99acd532074aae9bf21d9f3c19 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 20/25] fix: shut down an application that never connected

---
 zigpy_cc/zigbee/application.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 46e7cf6..4469e59 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -76,15 +76,18 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        self._close()
+
+    def _close(self):
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
         asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
-            if self._api is not None:
-                self._api.close()
+            self._close()
             await asyncio.sleep(5)
             try:
                 await self.startup(True)
-- 
2.43.0


From fd3d648531f4d25119fb0324ddc7dd7bae2840b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 21/25] fix: stop reconnecting at shutdown

---
 zigpy_cc/zigbee/application.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4469e59..1a09ca9 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -71,22 +71,28 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._api = None
 
         self.discovering = False
+        self._reconnect_task = None
         self._join_closed = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
+        task, self._reconnect_task = self._reconnect_task, None
         self._close()
+        if task is not None:
+            task.cancel()
+            await asyncio.wait([task])
 
     def _close(self):
         if self._api is not None:
             self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
-        while True:
+        task = self._reconnect_task
+        while self._reconnect_task is task:
             self._close()
             await asyncio.sleep(5)
             try:
-- 
2.43.0


From 6ad0560845aaf4f7abdd9f2c759a7c8191b304cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 22/25] fix: fail a startup that loses its connection and close
 the port

---
 zigpy_cc/zigbee/application.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 1a09ca9..cb8e6a4 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -72,11 +72,14 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
         self.discovering = False
         self._reconnect_task = None
+        self._starting = False
+        self._lost = False
         self._join_closed = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
+        self._lost = True
         task, self._reconnect_task = self._reconnect_task, None
         self._close()
         if task is not None:
@@ -88,7 +91,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             self._api.close()
 
     def connection_lost(self):
-        self._reconnect_task = asyncio.create_task(self.reconnect())
+        self._lost = True
+        if not self._starting:
+            self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         task = self._reconnect_task
@@ -104,9 +109,22 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
     async def startup(self, auto_form=False):
         """Perform a complete application startup"""
+        self._starting, self._lost = True, False
+        try:
+            await self._startup(auto_form)
+            if self._lost:
+                raise Exception("Connection lost during startup")
+        except BaseException:
+            self._close()
+            raise
+        finally:
+            self._starting = False
 
+    async def _startup(self, auto_form):
         LOGGER.info("Starting zigpy-cc version: %s", __version__)
         self._api = await API.new(self, self._config[CONF_DEVICE])
+        if self._lost:
+            raise Exception("Closed while connecting")
 
         try:
             await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
-- 
2.43.0


From d27b0d30caab752e932d8939925e9f0c6f47f10e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 23/25] fix: refuse IEEE addresses which are not 8 bytes long

---
 zigpy_cc/buffalo.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 428e038..6662303 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -29,8 +29,7 @@ class Buffalo:
             self.write(value, 4)
         elif type == ParameterType.IEEEADDR:
             if isinstance(value, Iterable):
-                for i in value:
-                    self.write(i)
+                self.write_ieee_addr(value)
             else:
                 self.write(value, 8)
         elif type == ParameterType.BUFFER:
@@ -55,16 +54,21 @@ class Buffalo:
     def write(self, value, length=1, signed=False):
         self.buffer += value.to_bytes(length, "little", signed=signed)
 
+    def write_ieee_addr(self, value):
+        value = list(value)
+        if len(value) != 8:
+            raise ValueError("IEEE address is not 8 bytes long: %s" % (value,))
+        for i in value:
+            self.write(i)
+
     def write_routing_table(self, value):
         self.write(value["destAddr"], 2)
         self.write(value["status"])
         self.write(value["nextHop"], 2)
 
     def write_neighbor_lqi(self, value):
-        for i in value["extPanId"]:
-            self.write(i)
-        for i in value["extAddr"]:
-            self.write(i)
+        self.write_ieee_addr(value["extPanId"])
+        self.write_ieee_addr(value["extAddr"])
         self.write(value["nwkAddr"], 2)
         self.write(
             value["deviceType"]
-- 
2.43.0


From 34c2a13f984931c0f427b926cb3452df8c650012 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 24/25] fix: refuse neighbor flags that do not fit their bits

---
 zigpy_cc/buffalo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 6662303..62817a6 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -70,6 +70,12 @@ class Buffalo:
         self.write_ieee_addr(value["extPanId"])
         self.write_ieee_addr(value["extAddr"])
         self.write(value["nwkAddr"], 2)
+        if not (
+            0 <= value["deviceType"] <= 3
+            and 0 <= value["rxOnWhenIdle"] <= 3
+            and 0 <= value["relationship"] <= 7
+        ):
+            raise OverflowError("neighbor flags out of range: %s" % (value,))
         self.write(
             value["deviceType"]
             | (value["rxOnWhenIdle"] * 4)
-- 
2.43.0


From cd9acbd8208f06d3f4559ce3bc203ddf6e1a3fe1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 25/25] fix: a ZDO reply does not reset the device's link
 quality

---
 zigpy_cc/zigbee/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index cb8e6a4..144fae6 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -443,7 +443,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             )
             return
 
-        device.radio_details(lqi, rssi)
+        if obj.subsystem == t.Subsystem.AF:
+            # replies to ZDO requests do not tell a link quality
+            device.radio_details(lqi, rssi)
 
         LOGGER.info("handle_message %s", obj.command)
         self.handle_message(device, profile_id, cluster_id, src_ep, dst_ep, data)
-- 
2.43.0

