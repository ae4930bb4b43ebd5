From d391baec6f6156eb27ed6929b6b2c77e89872f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/31] fix: treat proprietary sentence with missing msgId
 field as unknown message

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..1c0135e 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -330,7 +330,7 @@ class NMEAMessage:
                     dic = nms.NMEA_PAYLOADS_SET[key]
                 else:
                     dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
+        except (IndexError, KeyError) as err:  # unknown msgid
             erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
             if self._validate & nmt.VALMSGID:
                 raise nme.NMEAMessageError(erm) from err
-- 
2.43.0


From 69534125db818d1fe6f9d5321318ce986f7053fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/31] fix: bound repeating groups by number of fields present

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 1c0135e..d9006b5 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -204,6 +204,8 @@ class NMEAMessage:
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
+            if self._streaming and pindex >= len(self._payload):
+                break  # no more fields in payload
             gindex[-1] = i + 1
             for key1 in attd.keys():
                 pindex, gindex = self._set_attribute(
-- 
2.43.0


From ce5cbb313c755002f2e3ebd037c473b1ba7359b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 03/31] fix: make proprietary definitions in NMEA_PAYLOADS_POLL
 reachable

---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index d9006b5..c34bba8 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -366,7 +366,9 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            if key in nmpp.NMEA_PAYLOADS_POLL_PROP:
+                return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            return nmp.NMEA_PAYLOADS_POLL[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
         return nmgp.NMEA_PAYLOADS_GET_PROP[key]
-- 
2.43.0


From a493613b02f421a2ce4b8411c71e82d45a6efd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 04/31] fix: generate checksum for new messages without payload
 definition

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index c34bba8..740efaf 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,7 +128,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From 8e765869a7fa61a5a6bfd95626c6adace21fb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 05/31] fix: prevent message mutation via payload list or
 attribute deletion

---
 src/pynmeagps/nmeamessage.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 740efaf..2252fe7 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -625,6 +625,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
@@ -700,7 +715,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From c5c28026694bf22300a7dd2f2abf4894934781de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 06/31] fix: do not alter payload when parsing PSSNSNC messages

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 2252fe7..0ef6f36 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -241,12 +241,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 41e6206368211535c44b0c672e4f5e85eb6cc248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 07/31] fix: decode ddmmyyyy (DTL) date attributes

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 0ef6f36..676b30a 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -747,7 +747,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From b96cfd83ab42c2a9aa76c40a7dbaa771cc258e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/31] fix: normalise GNSS time of week and avoid float
 truncation in utc2wnotow

---
 src/pynmeagps/nmeahelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..1e1f5e2 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -773,10 +773,9 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
+    wno, tow = divmod(ts, 604800000)
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From 00bc01241d45ed09c2ba172e6b9e315fda047ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 09/31] fix: derive leapsecond offset from UTC rather than GNSS
 time in wnotow2utc

---
 src/pynmeagps/nmeahelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1e1f5e2..1b57396 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -842,7 +842,9 @@ def wnotow2utc(
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
+            lps = ls
+            if lps is None:  # leapsecond table is in terms of UTC, not GNSS time
+                lps = leapsecond(utc - timedelta(seconds=leapsecond(utc, gnss)), gnss)
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From 6948f7d269d2a2ba47639fbf03a97a6b39fe73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 10/31] fix: carry rounded minutes into degrees in ddd2dmm

---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1b57396..94b6e53 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -202,7 +202,8 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
 
     try:
         degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        minutes = round(degrees * 60, 7 if hpmode else 5)  # may round up to next degree
+        degrees, minutes = divmod(minutes, 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
-- 
2.43.0


From 4e7018bfb349692d1ffdd02ceaf1f7bde433c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 11/31] fix: carry rounded minutes and seconds in deg2dmm and
 deg2dms

---
 src/pynmeagps/nmeahelpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 94b6e53..7b2c23e 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -235,7 +235,8 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # may round up to next degree
+        degrees, minutes = divmod(round(degrees * 60, 7), 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
@@ -260,7 +261,8 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        # may round up to next minute
+        minutes, seconds = divmod(round(degrees * 3600, 5), 60)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
-- 
2.43.0


From e3adbe5871b6e616a54ea858dc9de01d80e6f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 12/31] fix: keep data when segment ends before or inside CRLF
 after chunk

---
 src/pynmeagps/socketwrapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..19497de 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -161,6 +161,9 @@ class SocketWrapper:
                 # premature end of length bytes
                 partial = length_bytes
                 break
+            if length_bytes == b"\r\n":
+                # trailing CRLF of chunk at end of previous segment
+                continue
             try:
                 chunk_length = int(length_bytes.strip(), 16)
             except ValueError:
@@ -184,10 +187,14 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
+            trailer = instream.readline()
             if chunk_length == 0:
                 # final chunk
                 break
+            if trailer[-2:] != b"\r\n":
+                # premature end of chunk trailing CRLF
+                partial = trailer
+                break
 
         return chunks, partial
 
-- 
2.43.0


From 3a20f25b2eafce6e6a24304ad5fd0cb453777a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 13/31] fix: make TNL GGKx definition reachable

---
 src/pynmeagps/nmeatypes_get_prop.py | 2 +-
 src/pynmeagps/nmeatypes_poll.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeatypes_get_prop.py b/src/pynmeagps/nmeatypes_get_prop.py
index b9f76e1..326f299 100644
--- a/src/pynmeagps/nmeatypes_get_prop.py
+++ b/src/pynmeagps/nmeatypes_get_prop.py
@@ -815,7 +815,7 @@ NMEA_PAYLOADS_GET_PROP = {
         "height": ST,  # starts with "EHT-"
         "hunit": CH,  # 'M'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # "GGK"
         "utctime": TM,
         "utcdate": DT,
diff --git a/src/pynmeagps/nmeatypes_poll.py b/src/pynmeagps/nmeatypes_poll.py
index fdca516..b24431a 100644
--- a/src/pynmeagps/nmeatypes_poll.py
+++ b/src/pynmeagps/nmeatypes_poll.py
@@ -197,7 +197,7 @@ NMEA_PAYLOADS_POLL = {
     "TNLGGK": {
         "msgId": ST,  # 'GGK'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # 'GGKx'
     },
     "TNLPJK": {
-- 
2.43.0


From efc86c77a15b7853f84e4afd3864937b4ebe3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 14/31] fix: look up user-defined definition by message id as
 given

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 676b30a..f34e97c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -322,7 +322,7 @@ class NMEAMessage:
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
+                dic = self._userdefined[self.msgID]
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0


From ea3f678d79d0277cefba1e02ff2d1dbcbf4b15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 15/31] fix: derive group size from numeric attribute suffixes
 only

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 7b2c23e..1ec717d 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -460,8 +460,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = re.search(r"_(\d+)(_\d+)*$", a)
+        if ai is not None:
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From c15eb97317e6b21d3b336ea68dbfe2dd72242d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 16/31] fix: recognise ack/nak responses for all Quectel QTM
 messages

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index f34e97c..e07c24c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -360,7 +360,8 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
+
+        if key[0:3] == "QTM":
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-- 
2.43.0


From 9ab65bb87889d354d6e2b025c31d455efe05575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 17/31] fix: quote talker and msgID properly in repr

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index e07c24c..69a181a 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -604,7 +604,7 @@ class NMEAMessage:
         """
 
         return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
             f"{self._mode}, payload={self._payload})"
         )
 
-- 
2.43.0


From 6102b0209a17b641a41d47186198e74f7509e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 18/31] fix: calculate checksum over encoded bytes

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1ec717d..7d4e511 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8"):
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From 4be9bde96215f08d8e4c4b2d14eb1913083f24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 19/31] fix: write altitude in ISO6709 string with a single
 sign

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 7d4e511..2cd2a4a 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -649,7 +649,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 0d48fc0fe88c2aedaecf13baf9ce9daac0d417f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 20/31] fix: zero pad hex2str to any width

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 2cd2a4a..4978298 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -507,7 +507,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From 6a2b03e915d38e0e73328891125b1c3d5eca50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 21/31] fix: do not lose sentence preceded by stray dollar sign

---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..6cf8a15 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == byte1:  # stray $ immediately before header
+                    byte2 = self._read_bytes(1)
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From 713517bd7aaa18c028e2e47f3bc2e88950566327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 22/31] fix: never write minutes or seconds in exponent
 notation

---
 src/pynmeagps/nmeahelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 4978298..3c31596 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,6 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
+from decimal import Decimal
 from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
@@ -241,7 +242,8 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+        minutes = Decimal(str(round(minutes, 7)))
+        return f"{int(degrees)}\u00b0{minutes:f}\u2032{sfx}"
     except (TypeError, ValueError):
         return ""
 
@@ -268,7 +270,8 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+        seconds = Decimal(str(round(seconds, 5)))
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{seconds:f}\u2033{sfx}"
     except (TypeError, ValueError):
         return ""
 
-- 
2.43.0


From 39470bceef76abdfda51d35070bfd60f3b1da97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 23/31] fix: never write ISO6709 elements in exponent notation

---
 src/pynmeagps/nmeahelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 3c31596..0d2a834 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -652,7 +652,9 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
+    # fixed point notation, even for very small values
+    lat, lon, alt = [f"{Decimal(str(abs(c))):f}" for c in (lat, lon, alt)]
+    return f"{lati}{lat}{loni}{lon}{alti}{alt}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 33c4de518fb196f8c3c82c5cecf06bf75b2e701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 24/31] fix: accept sentence too short to include group count

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 69a181a..3c3fdd9 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -199,6 +199,8 @@ class NMEAMessage:
                 rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
             else:
                 rng = groupsize(**kwargs)
+        elif self._streaming and pindex >= len(self._payload):
+            rng = 0  # short sentence, may not include named attribute
         else:  # number of repeats is defined in named attribute
             rng = getattr(self, numr)
         # recursively process each group attribute,
-- 
2.43.0


From 4fb7fa3495183172cb5b40bd1d82cf032c9d8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 25/31] fix: make GET QTMCFGGEOFENCE_DIS definition reachable

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3c3fdd9..89b5b30 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -497,6 +497,8 @@ class NMEAMessage:
         elif mode == nmt.GET:
             if (py and lp == 13) or (not py and l1):
                 key += "_POLY"
+            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
+                key += "_DIS"
             elif lp in (1, 2):
                 key = self._get_dict_qtmacknak(key, mode)
         return key
-- 
2.43.0


From 921b745edcf5351fe7ce536732221f2f720c700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 26/31] fix: automatic week rollover compares the UTC time of
 the next candidate

The candidate one rollover ahead was approximated without its own leap
second offset, so a time of the last few seconds rolled to the wrong era.
---
 src/pynmeagps/nmeahelpers.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 0d2a834..4d6c127 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -845,18 +845,22 @@ def wnotow2utc(
         rollover = 1024
     wno = wno % rollover if modwno else wno
     tow %= 604800000
-    current = datetime.now(timezone.utc)
-    i = 0
-    while True:
-        utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
+
+    def toutc(wno: int) -> datetime:
+        utc = ep0 + timedelta(days=wno * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
             lps = ls
             if lps is None:  # leapsecond table is in terms of UTC, not GNSS time
                 lps = leapsecond(utc - timedelta(seconds=leapsecond(utc, gnss)), gnss)
             utc -= timedelta(seconds=lps)
-        if not autoroll:
-            break
-        if utc + timedelta(days=rollover * 7) > current:
+        return utc
+
+    current = datetime.now(timezone.utc)
+    utc = toutc(wno)
+    while autoroll:
+        wno += rollover
+        utcnext = toutc(wno)
+        if utcnext > current:
             break
-        i += 1
+        utc = utcnext
     return utc
-- 
2.43.0


From a4a2d150231db2c651f503b5dd4f5e263af0e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 27/31] fix: haversine of antipodal points raised ValueError

---
 src/pynmeagps/nmeahelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 4d6c127..c1716c8 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -492,9 +492,8 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    dist = radius * acos(max(-1.0, cosd))  # rounding can give < -1 at antipodes
 
     return dist
 
-- 
2.43.0


From b941f7555bc6285ef696762bfc0c8219cb27e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 28/31] fix: text with lone surrogates made parse() raise
 UnicodeEncodeError

---
 src/pynmeagps/nmeahelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index c1716c8..f143488 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -442,6 +442,8 @@ def get_parts(message: object) -> tuple:
     try:
         if isinstance(message, bytes):
             message = message.decode("utf-8")
+        else:
+            message.encode("utf-8")  # text that has no UTF-8 form is badly formed
         content, cksum = message.strip("$\r\n").split("*", 1)
         hdr, *payload = content.split(",")
         s = 1 if hdr[:1] == "P" else 2
-- 
2.43.0


From 95faa3673b1534349a589fa7a052ce28fc76abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:51 +0000
Subject: [PATCH 29/31] fix: reader received from the socket before refusing an
 invalid msgmode

---
 src/pynmeagps/nmeareader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 6cf8a15..f61673f 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -81,14 +81,14 @@ class NMEAReader:
         """
         # pylint: disable=too-many-arguments
 
-        if isinstance(stream, socket):
-            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)
-        else:
-            self._stream = stream
         if msgmode not in (0, 1, 2):
             raise nme.NMEAParseError(
                 f"Invalid stream mode {msgmode} - must be 0, 1 or 2."
             )
+        if isinstance(stream, socket):
+            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)
+        else:
+            self._stream = stream
         self._quitonerror = quitonerror
         self._errorhandler = errorhandler
         self._nmea_only = nmeaonly
-- 
2.43.0


From 947a3664cc1ce9f4239762f78746d9507a7e0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:50 +0000
Subject: [PATCH 30/31] fix: dates and times with missing digits were decoded
 to wrong values

---
 src/pynmeagps/nmeahelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index f143488..7acbf71 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -181,6 +181,8 @@ def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date
         else:
             dform = "%d%m%y"
         utc = datetime.strptime(dates, dform)
+        if len(dates) != (8 if form == DTL else 6) or " " in dates:
+            raise ValueError()  # strptime tolerates missing digits
         return utc.date()
     except (TypeError, ValueError):
         return ""
@@ -735,6 +737,8 @@ def time2utc(times: str) -> datetime | str:
         if len(times) == 6:  # decimal seconds is omitted
             times = times + ".00"
         utc = datetime.strptime(times, "%H%M%S.%f")
+        if times[6:7] != ".":
+            raise ValueError()  # strptime tolerates missing digits
         return utc.time()
     except (TypeError, ValueError):
         return ""
-- 
2.43.0


From 165f0689e3d92f2031fd8be5f8681684a96cd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:43 +0000
Subject: [PATCH 31/31] fix: ddmmyyyy dates before the year 1000 were written
 with too few digits

strftime's %Y is not zero-padded on every platform, so date2str(.., DTL) gave
text of fewer than 8 digits, which does not convert back.
---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 7acbf71..06ffce1 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -154,7 +154,8 @@ def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
         if form == DM:
             dform = "%m%d%y"
         elif form == DTL:
-            dform = "%d%m%Y"
+            # strftime may not pad years before 1000
+            dform = "%d%m" + dat.strftime("%Y").zfill(4)
         else:
             dform = "%d%m%y"
         return dat.strftime(dform)
-- 
2.43.0

