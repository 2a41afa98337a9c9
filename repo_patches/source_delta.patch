From 2b9d8d16bce6e729162a7d5520f2ff757ea9d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:46 +0000
Subject: [PATCH 01/60] fix: apply the sign of an ISO 8601 UTC offset to its
 minutes too

---
 epsilon/extime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..2127aa0 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,9 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    # the sign applies to the minutes as well as the hours
+                    tzmin = int(tzhour[0] + (tzmin or '0'))
+                    return FixedOffset(int(tzhour), tzmin)
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From a8fbd6b329be898d179bd0d4dc886a9ea79e045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:47 +0000
Subject: [PATCH 02/60] fix: make Time instances orderable on Python 3

---
 epsilon/extime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 2127aa0..e0aae1f 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -940,6 +940,18 @@ class Time(object):
             raise TypeError("Cannot meaningfully compare %r with %r" % (self, other))
         return cmp(self._time, other._time)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
     def __eq__(self, other):
         if isinstance(other, Time):
             return cmp(self._time, other._time) == 0
-- 
2.43.0


From acd53403696a50fe52b6ad0ae3e5deb7f468f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:48 +0000
Subject: [PATCH 03/60] fix: parse 12:xx pm as the hour after noon

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index e0aae1f..0bc8a93 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 34b2d44e4745022359c28c172d2068f7c0ed71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:48 +0000
Subject: [PATCH 04/60] fix: never resolve noon or midnight to a time already
 past

---
 epsilon/extime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 0bc8a93..ff39e70 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -252,9 +252,8 @@ class Time(object):
         else:
             assert when == 'midnight'
             hour = 0
-        dtnow = now.asDatetime(tzinfo).replace(
-            minute=0, second=0, microsecond=0)
-        dtthen = dtnow.replace(hour=hour)
+        dtnow = now.asDatetime(tzinfo).replace(second=0, microsecond=0)
+        dtthen = dtnow.replace(hour=hour, minute=0)
         if dtthen < dtnow:
             dtthen += datetime.timedelta(days=1)
 
-- 
2.43.0


From 4fbe10c509a7259ba42f9f530c7c90db1cbc1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:49 +0000
Subject: [PATCH 05/60] fix: FixedOffset.tzname must return a string

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index ff39e70..0580260 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -90,7 +90,7 @@ class FixedOffset(datetime.tzinfo):
         return self.offset
 
     def tzname(self, dt):
-        return _timedeltaToSignHrMin(self.offset)
+        return '%s%02i:%02i' % _timedeltaToSignHrMin(self.offset)
 
     def dst(self, tz):
         return self._zeroOffset
-- 
2.43.0


From 7072200ffb23d228d8d78e0f79c0562992825da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:50 +0000
Subject: [PATCH 06/60] fix: keep the fraction of a Time parsed with a
 fractional second when formatting ISO 8601

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 0580260..affcc63 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -787,7 +787,7 @@ class Time(object):
             ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
             ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
             ('%s%02i' % (timeSep, dtime.second), datetime.timedelta(seconds=1)),
-            (microsecond, datetime.timedelta(microseconds=1)),
+            (microsecond, datetime.timedelta(microseconds=999999)),
             (timezone, datetime.timedelta(hours=1))
         ]
 
-- 
2.43.0


From f88c1f2dc3dec788eea83aa9f58a936a832962a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 07/60] fix: format week-resolution Times as ISO 8601 weeks

---
 epsilon/extime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index affcc63..f24dd60 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -791,6 +791,10 @@ class Time(object):
             (timezone, datetime.timedelta(hours=1))
         ]
 
+        if self.resolution == datetime.timedelta(weeks=1):
+            return '%04i%sW%02i' % (
+                dtime.isocalendar()[0], dateSep, dtime.isocalendar()[1])
+
         formatted = ''
         for part, minResolution in parts:
             if self.resolution <= minResolution:
-- 
2.43.0


From 533230bcc59c0cd13cc235ba3a1219c7a7336b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:52 +0000
Subject: [PATCH 08/60] fix: accept ISO 8601 fractions which round up to a
 whole second

---
 epsilon/extime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index f24dd60..c2b1b46 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -433,6 +433,9 @@ class Time(object):
                 if groups[key] is None:
                     groups[key] = 1
             groups['fractionalsec'] = float('.'+groups['fractionalsec'])
+            if groups['fractionalsec'] > 0.999999:
+                # rounding must not carry into the next second.
+                groups['fractionalsec'] = 0.999999
             for key in defaultTo0 + defaultTo1 + ['year']:
                 groups[key] = int(groups[key])
 
-- 
2.43.0


From f3e6ebedb06e97a1447159e3035fc8010b106034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:05 +0000
Subject: [PATCH 09/60] fix: count the bytes, not the characters, of a juice
 box body

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..e1de96f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 269a255c8b40534591fd75755ea9a80ef70427b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:06 +0000
Subject: [PATCH 10/60] fix: do not lose the empty body of a juice box

---
 epsilon/juice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e1de96f..483fff0 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,11 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    length = int(b.pop(LENGTH, -1))
+    if length == 0:
+        # no body follows the headers, but the box does have one.
+        b[BODY] = ''
+    return max(length, 0), b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From e054903e0017225d30dbe0da7f9f8147131a5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:08 +0000
Subject: [PATCH 11/60] fix: close the connection after a juice command's
 declared fatal error

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 483fff0..9ce2d31 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -225,7 +225,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From ede5b3a0fb6b511a0f47969793d07487a8db2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:09 +0000
Subject: [PATCH 12/60] fix: do not recurse once per juice box received with a
 body

---
 epsilon/liner.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..0b90cb9 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -16,10 +16,18 @@ class LineReceiver(Protocol):
     def rawDataReceived(self, data):
         pass
 
+    # The data passed to setLineMode by rawDataReceived, or None if
+    # rawDataReceived is not being called.
+    _extra = None
+
     def setLineMode(self, extra=b''):
         self.lineMode = True
         if extra:
-            self.dataReceived(extra)
+            if self._extra is not None:
+                # dataReceived is going to deal with this, without recursing.
+                self._extra += extra
+            else:
+                self.dataReceived(extra)
 
     def isDisconnecting(self):
         if self.transport is None:
@@ -34,6 +42,14 @@ class LineReceiver(Protocol):
         self.lineMode = False
 
     def dataReceived(self, data):
+        while data:
+            data = self._dataReceived(data)
+
+    def _dataReceived(self, data):
+        """
+        Process some data and return whatever part of it was passed back to
+        setLineMode by rawDataReceived, which remains to be processed.
+        """
         buffer = self.buffer
         buffer += data
         delimiter = self.delimiter
@@ -58,7 +74,12 @@ class LineReceiver(Protocol):
             if self.isDisconnecting():
                 return
             if buffer:
-                self.rawDataReceived(buffer)
+                self._extra = b''
+                try:
+                    self.rawDataReceived(buffer)
+                    return self._extra
+                finally:
+                    self._extra = None
         else:
             self.buffer = buffer
 
-- 
2.43.0


From 82868c9d5d5f191c2890f3b0dc44bc15595a07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:09 +0000
Subject: [PATCH 13/60] fix: connect the protocol switched to only once when
 the switch box has a body

---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 9ce2d31..5278596 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -913,7 +913,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From 1b8b03b76fde9d175d581d8852997576855dadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:10 +0000
Subject: [PATCH 14/60] fix: parse Unicode, EncodedString, Path and
 Base64Binary juice arguments on Python 3

---
 epsilon/juice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5278596..24a5037 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -2,6 +2,7 @@
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
 import warnings, pprint
+import base64
 import keyword
 import io
 
@@ -508,7 +509,7 @@ class EncodedString(Argument):
         return inObject.encode(self.encoding)
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
@@ -517,11 +518,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString))
 
 class Path(Unicode):
     def fromString(self, inString):
@@ -537,9 +538,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From 879674925b520c5ac2367c43699ae0ee33a8c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:11 +0000
Subject: [PATCH 15/60] fix: route real AMP boxes, which have byte string keys
 and values

---
 epsilon/amprouter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..8520c1c 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -9,12 +9,13 @@ multiple L{IBoxReceiver}/I{IBoxSender} pairs over a single L{AMP} connection.
 from itertools import count
 
 import six
-from twisted.protocols.amp import IBoxReceiver, IBoxSender
+from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
 from zope.interface import implementer
 
 from epsilon.structlike import record
 
 _ROUTE = '_route'
+_ROUTE_BYTES = b'_route'
 _unspecified = object()
 
 
@@ -89,7 +90,11 @@ class Route(record('router receiver localRouteName remoteRouteName',
         if self.remoteRouteName is _unspecified:
             raise RouteNotConnected()
         if self.remoteRouteName is not None:
-            box[_ROUTE] = self.remoteRouteName
+            if isinstance(box, AmpBox):
+                # The keys and values of real AMP boxes are bytes.
+                box[_ROUTE_BYTES] = six.ensure_binary(self.remoteRouteName)
+            else:
+                box[_ROUTE] = self.remoteRouteName
         self.router._sender.sendBox(box)
 
 
@@ -186,6 +191,8 @@ class Router:
         indicated by the box, or handle it directly if there is no route.
         """
         route = box.pop(_ROUTE, None)
+        if route is None and _ROUTE_BYTES in box:
+            route = six.ensure_text(box.pop(_ROUTE_BYTES))
         self._routes[route].receiver.ampBoxReceived(box)
 
 
-- 
2.43.0


From 544d5e0e7216608e337065d0d55025b2fc454904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 16/60] fix: allow a route to be unbound before its router is
 started

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 8520c1c..056a08a 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -66,7 +66,11 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        mapping = self.router._routes
+        if mapping is None:
+            # The router has not been started yet.
+            mapping = self.router._unstarted
+        del mapping[self.localRouteName]
 
 
     def start(self):
-- 
2.43.0


From 95bfa3d8bff64a10229e4df8737f4511f0819b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 17/60] fix: allow routes to be bound and unbound while the
 router starts or stops

---
 epsilon/amprouter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 056a08a..01e3d3a 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -179,12 +179,14 @@ class Router:
         Initialize route tracking objects.
         """
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
-            # Any route which has been bound but which does not yet have a
-            # remote route name should not yet be started.  These will be
-            # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
+        # Any route which has been bound but which does not yet have a remote
+        # route name should not yet be started.  These will be started in
+        # Route.connectTo.  Starting a route may bind, connect or unbind other
+        # routes.
+        for route in [
+            route for route in self._unstarted.values()
+            if route.remoteRouteName is not _unspecified]:
+            route.start()
         self._routes = self._unstarted
         self._unstarted = None
 
@@ -204,7 +206,8 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
+        # Stopping a route may bind or unbind other routes.
+        for route in list(self._routes.values()):
             route.stop(reason)
         self._routes = None
 
-- 
2.43.0


From 3d27fdcf3daffd1ebed0fb1825b5a72877a87ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 18/60] fix: never generate a route identifier which is already
 bound

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 01e3d3a..34ca28b 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -147,7 +147,11 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        mapping = self._routes or self._unstarted or {}
+        identifier = six.text_type(next(self._routeCounter))
+        while identifier in mapping:
+            identifier = six.text_type(next(self._routeCounter))
+        return identifier
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From e37a6b20387a7c5ff5c64c8c1fd503690081bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:15 +0000
Subject: [PATCH 19/60] fix: log out of a login which completes after the
 connection is lost

---
 epsilon/ampauth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..3f03283 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _disconnected = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,10 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._disconnected:
+                # There is no one left to use the avatar.
+                logout()
+                raise UnauthorizedLogin('Connection lost during login')
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +227,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._disconnected = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From 8c3b8ef1cc9cf85c732f7a2f71859b5170d3a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:16 +0000
Subject: [PATCH 20/60] fix: log out of a login which completes after another
 one on the same connection

---
 epsilon/ampauth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index 3f03283..d52f89d 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -198,6 +198,10 @@ class CredReceiver(AMP):
                 # There is no one left to use the avatar.
                 logout()
                 raise UnauthorizedLogin('Connection lost during login')
+            if self.logout is not None:
+                # Another login attempt finished first.
+                logout()
+                raise UnauthorizedLogin('Already logged in')
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
-- 
2.43.0


From a7682bcf50906742c46f0082523dd69d53b8e55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:18 +0000
Subject: [PATCH 21/60] fix: honour modeAttribute in modal classes

---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From 7b6731d2eea6963dded8773bb7568e127d082472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:19 +0000
Subject: [PATCH 22/60] fix: remember None results too

---
 epsilon/remember.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..dde2acc 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,9 +27,8 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
+        if remembername in oself.__dict__:
+            return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
         return rememberme
-- 
2.43.0


From 84fafc2b9368acc11dd45d29b51fc4dfd0057212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 23/60] fix: do not mistake a sibling directory's mount for the
 working device

---
 epsilon/scripts/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..da14c6e 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -424,7 +424,7 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
+            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
     possibilities.sort()
     try:
-- 
2.43.0


From 6fd7d358a7de60451d0e7d63a82aa4eb1692e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 24/60] fix: use bytes for the benchmark start/stop
 notifications

---
 epsilon/scripts/benchmark.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index da14c6e..bfc6bcc 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,8 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in six.iterbytes(data):
+                byte = six.int2byte(byte)
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From 1e73ba364f6c62a20a3aa2074dd15b21304803b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 25/60] fix: make epsilon.process importable with current
 Python and zope.interface

---
 epsilon/process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..21eb3e2 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,11 +5,10 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
-
-from zope.interface import implements
+import os, sys
 
 from twisted.internet import reactor
+from twisted.python.modules import getModule
 from twisted.application.service import IService, Service
 from twisted.internet.stdio import StandardIO
 
@@ -31,7 +30,10 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
+        module = getModule(pkg)
+        p = module.filePath.dirname()
+        if module.isPackage():
+            p = os.path.dirname(p)
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From d750a6ba294946ae48218104b2d085d4176f4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 26/60] fix: allow a juice command argument to be called f

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 24a5037..8cea8dc 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -227,7 +227,7 @@ class DispatchMixin:
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
                         code, desc, key in command.fatalErrors))
-            return maybeDeferred(aCallable, **kw).addCallback(
+            return maybeDeferred(lambda: aCallable(**kw)).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
         return doit
-- 
2.43.0


From 5152670f18d40bce176eced0078a91da32382fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 27/60] fix: let a juice command inherit the errors of its base
 command

---
 epsilon/juice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 8cea8dc..f9d94f2 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -598,13 +598,14 @@ class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
             re = attrs['reverseErrors'] = {}
             er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            for v, k in six.viewitems(getattr(newtype, 'errors', {})):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(getattr(newtype, 'fatalErrors', {})):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From 00a8798af5a763f88060029bd46185e7da2f6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:09 +0000
Subject: [PATCH 28/60] fix: of several devices mounted over each other, report
 the visible one

---
 epsilon/scripts/benchmark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index bfc6bcc..278325e 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -427,7 +427,9 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
             parts = L.split()
             if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
+    # The sort is stable: of several devices mounted at the same place, the one
+    # mounted last hides the others.
+    possibilities.sort(key=lambda possibility: possibility[0])
     try:
         return possibilities[-1][-1]
     except IndexError:
-- 
2.43.0


From 26d02573e45ef6ca5362735b4105e9acea3e5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:06 +0000
Subject: [PATCH 29/60] fix: let the tracer be uninstalled, and the spewer
 print arguments on Python 3

---
 epsilon/spewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From f76922693b89b95136108fbceb5f2999452a56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:47 +0000
Subject: [PATCH 30/60] fix: let asplode create files on Python 3

---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
-- 
2.43.0


From 7200c4c6e34f6974728e7b14d3be080d5282f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 31/60] fix: preparing a juice connection for TLS again dropped
 what was held back

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index f9d94f2..0288d91 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -844,7 +844,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From 5e4173f89ce53ffdccbc42fd89337167788c2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:43 +0000
Subject: [PATCH 32/60] fix: ISO 8601 text with a trailing newline, foreign
 digits or offset minutes beyond 59 was accepted

---
 epsilon/extime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index c2b1b46..6320a5c 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -382,12 +382,12 @@ class Time(object):
                         |
                         (?P<tzhour> [+\-]\d{2})
                         (
-                            :? (?P<tzmin> \d{2})
+                            :? (?P<tzmin> [0-5]\d)
                         )?
                     )?
                 )?
             )?
-        )? $""", re.VERBOSE)
+        )? \Z""", re.VERBOSE | getattr(re, 'ASCII', 0))
 
 
     def fromISO8601TimeAndDate(klass, iso8601string, tzinfo=None):
-- 
2.43.0


From faf31256f1971c9e6f9dc841a611d282946ea284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:53 +0000
Subject: [PATCH 33/60] fix: the spewer left out keyword-only arguments

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..829a799 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
-- 
2.43.0


From 0376b0360aad7f611944a98acd14201b72a00491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:55 +0000
Subject: [PATCH 34/60] fix: RFC 2822 dates with a day beyond the end of a
 short month were refused

---
 epsilon/extime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 6320a5c..033109c 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -5,6 +5,7 @@ Extended date/time formatting and miscellaneous functionality.
 See the class 'Time' for details.
 """
 
+import calendar
 import datetime
 import re
 
@@ -31,6 +32,7 @@ def sanitizeStructTime(struct):
     newstruct = []
     for value, maxValue, minValue in zip(struct[:6], maxValues, minValues):
         newstruct.append(max(minValue, min(value, maxValue)))
+    newstruct[2] = min(newstruct[2], calendar.monthrange(*newstruct[:2])[1])
     return tuple(newstruct) + struct[6:]
 
 def _timedeltaToSignHrMin(offset):
-- 
2.43.0


From d0e427123e7cffefa04cfe245cb240248e617590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:57 +0000
Subject: [PATCH 35/60] fix: years before 1000 were not written with four
 digits in RFC 2822 dates

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 033109c..d6998c1 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -723,7 +723,7 @@ class Time(object):
         if includeDayOfWeek:
             rfcstring += self.rfc2822Weekdays[dtime.weekday()] + ', '
 
-        rfcstring += '%i %s %4i %02i:%02i:%02i %s' % (
+        rfcstring += '%i %s %04i %02i:%02i:%02i %s' % (
             dtime.day,
             self.rfc2822Months[dtime.month - 1],
             dtime.year,
-- 
2.43.0


From 1bbdbd891282dfada598f246988d69787c5dc346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:59 +0000
Subject: [PATCH 36/60] fix: whole hours were written wrongly in timezones
 which are not whole hours from UTC

---
 epsilon/extime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index d6998c1..b1cb32a 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -800,9 +800,14 @@ class Time(object):
             return '%04i%sW%02i' % (
                 dtime.isocalendar()[0], dateSep, dtime.isocalendar()[1])
 
+        resolution = self.resolution
+        if dtime.minute and resolution == datetime.timedelta(hours=1):
+            # a whole hour elsewhere, but not in this timezone
+            resolution = datetime.timedelta(minutes=1)
+
         formatted = ''
         for part, minResolution in parts:
-            if self.resolution <= minResolution:
+            if resolution <= minResolution:
                 formatted += part
 
         return formatted
-- 
2.43.0


From a83a5109c83baec0301809177a8dd36176dd168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:35 +0000
Subject: [PATCH 37/60] fix: answers given after a protocol switch went into
 the stream of the new protocol

---
 epsilon/juice.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 0288d91..12b5ca6 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -331,6 +331,12 @@ class JuiceParserBase(DispatchMixin):
         for key, value in OR:
             value.errback(reason)
 
+    def _cannotAnswer(self):
+        """
+        Return C{True} if the peer can not be sent any more answers.
+        """
+        return self.transport is None
+
     def juiceBoxReceived(self, box):
         if debug:
             log.msg("Juice receive: %s" % pprint.pformat(dict(six.viewitems(box))))
@@ -350,7 +356,7 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None:
+                if self._cannotAnswer():
                     return
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
@@ -373,7 +379,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None:
+                if not self._cannotAnswer():
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
@@ -794,6 +800,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
 
         assert self.innerProtocol is None, "Protocol can only be safely switched once."
+        self._lock()
         self.setRawMode()
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
@@ -801,6 +808,9 @@ class Juice(LineReceiver, JuiceParserBase, object):
 
     innerProtocolClientFactory = None
 
+    def _cannotAnswer(self):
+        return self.__locked or super(Juice, self)._cannotAnswer()
+
     def juiceBoxReceived(self, box):
         if self.__locked and COMMAND in box and ASK in box:
             # This is a command which will trigger an answer, and we can no
-- 
2.43.0


From bd178caf1ce286370babd21ac1e4fd272c4efcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:51 +0000
Subject: [PATCH 38/60] fix: remembered attributes made from functions of the
 same name shared one value

---
 epsilon/remember.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index dde2acc..d08b126 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -17,16 +17,32 @@ class remembered(record('creationFunction')):
     @ivar creationFunction: the decorated function, to be called to create the
         value.  This should be a 1-argument callable, that takes only a 'self'
         parameter, like a method.
+
+    @ivar attributeName: the name of the attribute under which this descriptor
+        is found on its class, or C{None} if it was not defined in the body of
+        a class.
     """
 
     value = None
+    attributeName = None
+
+    def __set_name__(self, owner, name):
+        """
+        Note the name of the attribute, which unlike that of the function is
+        unique within the class.
+        """
+        self.attributeName = name
+
 
     def __get__(self, oself, type):
         """
         Retrieve the value if already cached, otherwise, call the
         C{creationFunction} to create it.
         """
-        remembername = "_remembered_" + self.creationFunction.__name__
+        name = self.attributeName
+        if name is None:
+            name = self.creationFunction.__name__
+        remembername = "_remembered_" + name
         if remembername in oself.__dict__:
             return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
-- 
2.43.0


From 405b2a83654ac3560af061245524467108efdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:27 +0000
Subject: [PATCH 39/60] fix: requiring a hotfix for deferred generators failed
 where Twisted has none

---
 epsilon/hotfix.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..0539ba0 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -35,12 +35,14 @@ def require(packageName, fixName):
             d = defer.waitForDeferred(defer.succeed(1))
             yield d
             result.append(d.getResult())
-        defer.deferredGenerator(test)()
-        if result == [1]:
-            from epsilon.hotfixes import deferredgenerator_tfailure
-            deferredgenerator_tfailure.install()
-        else:
-            assert result == [None]
+        # Recent versions of Twisted do not have what there is to fix.
+        if hasattr(defer, 'deferredGenerator'):
+            defer.deferredGenerator(test)()
+            if result == [1]:
+                from epsilon.hotfixes import deferredgenerator_tfailure
+                deferredgenerator_tfailure.install()
+            else:
+                assert result == [None]
     elif (packageName, fixName) == ("twisted", "proto_helpers_stringtransport"):
         from twisted.test.proto_helpers import StringTransport
         st = StringTransport()
-- 
2.43.0


From 42f5a1dced530a9059a7f5ea7ea0e9a1f20f7b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:54 +0000
Subject: [PATCH 40/60] fix: a process spawned with the name of a subpackage
 could not import it

---
 epsilon/process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/process.py b/epsilon/process.py
index 21eb3e2..bf907c3 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -34,6 +34,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
         p = module.filePath.dirname()
         if module.isPackage():
             p = os.path.dirname(p)
+        for _ in range(pkg.count('.')):
+            p = os.path.dirname(p)
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From 044c3be84999963d608bad5b3636c0bba36c4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:56 +0000
Subject: [PATCH 41/60] fix: packages in a directory whose name only begins
 like that of the library could not be imported by a spawned process

---
 epsilon/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index bf907c3..1e88721 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -36,7 +36,7 @@ def spawnProcess(processProtocol, executable, args=(), env={},
             p = os.path.dirname(p)
         for _ in range(pkg.count('.')):
             p = os.path.dirname(p)
-        if p.startswith(os.path.join(sys.prefix, 'lib')):
+        if p.startswith(os.path.join(sys.prefix, 'lib', '')):
             continue
         pythonpath.append(p)
     pythonpath = list(set(pythonpath))
-- 
2.43.0


From 124c56f5f7c0c84a2f11d6512e2eb6059fa0b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 42/60] fix: the device of a working directory below a mount
 point with white space in its name was not found

---
 epsilon/scripts/benchmark.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 278325e..022306f 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno
+import os, time, sys, socket, io, pprint, errno, re
 
 import six
 import twisted
@@ -425,8 +425,11 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
-                possibilities.append((len(parts[1]), parts[0]))
+            # White space is written as octal escapes.
+            mountPoint = re.sub(
+                r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), parts[1])
+            if (cwd + '/').startswith(mountPoint.rstrip('/') + '/'):
+                possibilities.append((len(mountPoint), parts[0]))
     # The sort is stable: of several devices mounted at the same place, the one
     # mounted last hides the others.
     possibilities.sort(key=lambda possibility: possibility[0])
-- 
2.43.0


From 4fc647eb25f342f89fb6d0cd80b30f36334cce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:32 +0000
Subject: [PATCH 43/60] fix: a route unbound while its router starts or stops
 was still notified

---
 epsilon/amprouter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 34ca28b..3bf67ca 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -190,7 +190,8 @@ class Router:
         for route in [
             route for route in self._unstarted.values()
             if route.remoteRouteName is not _unspecified]:
-            route.start()
+            if self._unstarted.get(route.localRouteName) is route:
+                route.start()
         self._routes = self._unstarted
         self._unstarted = None
 
@@ -212,7 +213,8 @@ class Router:
         """
         # Stopping a route may bind or unbind other routes.
         for route in list(self._routes.values()):
-            route.stop(reason)
+            if self._routes.get(route.localRouteName) is route:
+                route.stop(reason)
         self._routes = None
 
 
-- 
2.43.0


From cbbc0eee25818330f127075b0fdb9ceff1ee11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:34 +0000
Subject: [PATCH 44/60] fix: report a juice error as the most specific class
 declared, whatever their order

---
 epsilon/juice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 12b5ca6..6d60853 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -223,6 +223,11 @@ class DispatchMixin:
 #                 return result
             def checkKnownErrors(error):
                 key = error.trap(*command.allErrors)
+                for errorType in error.type.__mro__:
+                    if errorType in command.allErrors:
+                        # the most specific error declared
+                        key = errorType
+                        break
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-- 
2.43.0


From 75d4e8102255d19977a43c3ab9a2dc2da10baf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 45/60] fix: tell everyone whose iterator a scheduling service
 drops when it is stopped

---
 epsilon/cooperator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..ecb8932 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -17,15 +17,28 @@ class SchedulingService(Service):
     """
     def __init__(self):
         self.coop = Cooperator(started=False)
+        self._tasks = []
 
     def addIterator(self, iterator):
-        return self.coop.coiterate(iterator)
+        task = self.coop.cooperate(iterator)
+        self._tasks.append(task)
+        def finished(result):
+            self._tasks.remove(task)
+            return result
+        return task.whenDone().addBoth(finished)
 
     def startService(self):
         self.coop.start()
 
     def stopService(self):
+        # Cooperator.stop notifies only every other one of its iterators, but
+        # it does so with each one which is resumed after it.
+        tasks = self._tasks[:]
+        for task in tasks:
+            task.pause()
         self.coop.stop()
+        for task in tasks:
+            task.resume()
 
 __all__ = [
     'SchedulerStopped', 'Cooperator',
-- 
2.43.0


From 0570733d90361b06e391e3103e7c15db453da0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:16 +0000
Subject: [PATCH 46/60] fix: a scheduling service did not say that it was
 running

---
 epsilon/cooperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index ecb8932..36699e0 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -28,9 +28,11 @@ class SchedulingService(Service):
         return task.whenDone().addBoth(finished)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
+        Service.stopService(self)
         # Cooperator.stop notifies only every other one of its iterators, but
         # it does so with each one which is resumed after it.
         tasks = self._tasks[:]
-- 
2.43.0


From df85314ca62ea1574f02ec2b21fbabd4b7095d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:38 +0000
Subject: [PATCH 47/60] fix: a spawned process searched the directories of the
 packages named in no particular order

---
 epsilon/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 1e88721..acd0e2e 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -39,7 +39,10 @@ def spawnProcess(processProtocol, executable, args=(), env={},
         if p.startswith(os.path.join(sys.prefix, 'lib', '')):
             continue
         pythonpath.append(p)
-    pythonpath = list(set(pythonpath))
+    # Search these in the same order as this process does.
+    searched = [os.path.abspath(p) for p in sys.path]
+    pythonpath = sorted(set(pythonpath), key=lambda p: (
+        searched.index(p) if p in searched else len(searched), p))
     pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
-- 
2.43.0


From 8b2d814c187e06a2ac836bff7636be58b005523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:41 +0000
Subject: [PATCH 48/60] fix: a process spawned without a Python path of its own
 imported from its working directory

---
 epsilon/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index acd0e2e..d5dd9ef 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -43,7 +43,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
     searched = [os.path.abspath(p) for p in sys.path]
     pythonpath = sorted(set(pythonpath), key=lambda p: (
         searched.index(p) if p in searched else len(searched), p))
-    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
+    if env.get('PYTHONPATH'):
+        pythonpath.extend(env['PYTHONPATH'].split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
     return reactor.spawnProcess(processProtocol, executable, args,
-- 
2.43.0


From 471a35ffeaa8479b9d68d0a9954e758f45212ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:55 +0000
Subject: [PATCH 49/60] fix: ask for a protocol switch in the namespace given

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6d60853..0ca5cf7 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -716,7 +716,7 @@ class ProtocolSwitchCommand(Command):
     makeResponse = classmethod(makeResponse)
 
     def do(self, proto, namespace=None):
-        d = super(ProtocolSwitchCommand, self).do(proto)
+        d = super(ProtocolSwitchCommand, self).do(proto, namespace)
         proto._lock()
         def switchNow(ign):
             innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
-- 
2.43.0


From bdcd3afef7adb1efbc72b8b6d609b41322252532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:20 +0000
Subject: [PATCH 50/60] fix: a box sent again through a route to the default
 receiver kept its earlier route

---
 epsilon/amprouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 3bf67ca..bdf6da8 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -99,6 +99,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
                 box[_ROUTE_BYTES] = six.ensure_binary(self.remoteRouteName)
             else:
                 box[_ROUTE] = self.remoteRouteName
+        else:
+            # The box may have been sent through another route before.
+            box.pop(_ROUTE_BYTES if isinstance(box, AmpBox) else _ROUTE, None)
         self.router._sender.sendBox(box)
 
 
-- 
2.43.0


From 9d27ebe2cf7e8a1db525066608e650e4169873cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:55 +0000
Subject: [PATCH 51/60] fix: juice lists of encoded strings and of box lists
 can be sent on Python 3

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 0ca5cf7..cec3b40 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -495,7 +495,8 @@ class ListOf(Argument):
     def toStringProto(self, inObject, proto):
         L = []
         for inSingle in inObject:
-            outString = self.subarg.toStringProto(inSingle, proto)
+            outString = six.ensure_str(
+                self.subarg.toStringProto(inSingle, proto))
             assert self.delimiter not in outString
             L.append(outString)
         return self.delimiter.join(L)
-- 
2.43.0


From ba9511aba165d636d61cda475e736bc1476ab93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 52/60] fix: a benchmark record can be made when a device
 appears while it runs

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 022306f..fd48c00 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -363,7 +363,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
         tt = utils.FileWrapper(output)
         jj.makeConnection(tt)
 
-        if after.partition is not None:
+        if before.partition is not None and after.partition is not None:
             read_count = after.partition.readCount - before.partition.readCount
             read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
             write_count = after.partition.writeCount - before.partition.writeCount
@@ -374,7 +374,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
             write_count = None
             write_sectors = None
 
-        if after.disk is not None:
+        if before.disk is not None and after.disk is not None:
             read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
             write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
         else:
-- 
2.43.0


From 5661c5b8a61c02b1218edc3331d193592fff2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 53/60] fix: a remembered attribute which overrides another is
 remembered by itself

---
 epsilon/remember.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index d08b126..371c10b 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -18,9 +18,9 @@ class remembered(record('creationFunction')):
         value.  This should be a 1-argument callable, that takes only a 'self'
         parameter, like a method.
 
-    @ivar attributeName: the name of the attribute under which this descriptor
-        is found on its class, or C{None} if it was not defined in the body of
-        a class.
+    @ivar attributeName: the full name, including that of its class, of the
+        attribute under which this descriptor is found, or C{None} if it was
+        not defined in the body of a class.
     """
 
     value = None
@@ -29,9 +29,10 @@ class remembered(record('creationFunction')):
     def __set_name__(self, owner, name):
         """
         Note the name of the attribute, which unlike that of the function is
-        unique within the class.
+        unique, even if the attribute overrides one of a base class.
         """
-        self.attributeName = name
+        self.attributeName = '%s.%s.%s' % (
+            owner.__module__, owner.__qualname__, name)
 
 
     def __get__(self, oself, type):
-- 
2.43.0


From eaa414f2d125e70b713d6063df0ab91ae8e9f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:05 +0000
Subject: [PATCH 54/60] fix: what is held back until TLS starts goes out as it
 was when it was sent

---
 epsilon/juice.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index cec3b40..b0dff8b 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -828,15 +828,16 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         Send a juice.Box to my peer.
 
-        Note: transport.write is never called outside of this method.
+        Note: transport.write is never called outside of this method, except
+        for what it held back until TLS was started.
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
+        if debug:
+            log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
+        result = completeBox.serialize()
         if self._startingTLSBuffer is not None:
-            self._startingTLSBuffer.append(completeBox)
+            self._startingTLSBuffer.append(result)
         else:
-            if debug:
-                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
-            result = completeBox.serialize()
             self.transport.write(result)
 
     def sendCommand(self, command, __content='', __answer=True, **kw):
@@ -871,8 +872,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
             stlsb = self._startingTLSBuffer
             if stlsb is not None:
                 self._startingTLSBuffer = None
-                for box in stlsb:
-                    self.sendPacket(box)
+                for result in stlsb:
+                    self.transport.write(result)
         else:
             raise RuntimeError(
                 "Previously authenticated connection between %s and %s "
-- 
2.43.0


From bdc1d22a507df8a9a3d574f88940e31c2a1d3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 55/60] fix: a juice error without its code or description left
 the request it was for waiting forever

---
 epsilon/juice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index b0dff8b..8a7822e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -351,11 +351,10 @@ class JuiceParserBase(DispatchMixin):
             question.addErrback(self._puke)
             self._wrap(question.callback)(box)
         elif ERROR in box:
+            error = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
             question = self._outstandingRequests.pop(box[ERROR])
             question.addErrback(self._puke)
-            self._wrap(question.errback)(
-                Failure(RemoteJuiceError(box[ERROR_CODE],
-                                         box[ERROR_DESCRIPTION])))
+            self._wrap(question.errback)(Failure(error))
         elif COMMAND in box:
             cmd = box[COMMAND]
             def sendAnswer(answerBox):
-- 
2.43.0


From 89942497d19840e5f3d62cdbeaca6fb66eb65a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 56/60] fix: a juice list could arrive with its elements cut
 elsewhere if one ended like its delimiter begins

---
 epsilon/juice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 8a7822e..c61c61b 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -498,7 +498,10 @@ class ListOf(Argument):
                 self.subarg.toStringProto(inSingle, proto))
             assert self.delimiter not in outString
             L.append(outString)
-        return self.delimiter.join(L)
+        result = self.delimiter.join(L)
+        # An element may end, or begin, with a part of the delimiter.
+        assert result.split(self.delimiter) == (L or [''])
+        return result
 
 class Integer(Argument):
     fromString = int
-- 
2.43.0


From f31462dace2c0fa8eb82f5639fd84a783c853a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:41 +0000
Subject: [PATCH 57/60] fix: a route connected once more started its receiver
 once more

---
 epsilon/amprouter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index bdf6da8..f57e8d0 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -54,11 +54,13 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Set the name of the route which will be added to outgoing boxes.
         """
+        connected = self.remoteRouteName is not _unspecified
         self.remoteRouteName = remoteRouteName
         # This route must not be started before its router is started.  If
         # sender is None, then the router is not started.  When the router is
-        # started, it will start this route.
-        if self.router._sender is not None:
+        # started, it will start this route.  It must not be started again if
+        # it is merely connected to another name.
+        if self.router._sender is not None and not connected:
             self.start()
 
 
-- 
2.43.0


From ebe42a0042405be825136e12c7d8a972c8e6dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:44 +0000
Subject: [PATCH 58/60] fix: a route connected after it was unbound was still
 started

---
 epsilon/amprouter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index f57e8d0..7969319 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -48,7 +48,10 @@ class Route(record('router receiver localRouteName remoteRouteName',
     @type remoteRouteName: C{unicode} or L{NoneType}
     @ivar remoteRouteName: The name of the route which will be added to all
         boxes sent to this sender.  If C{None}, no route will be added.
+
+    @ivar _unbound: Whether this route was removed from its router.
     """
+    _unbound = False
 
     def connectTo(self, remoteRouteName):
         """
@@ -59,8 +62,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
         # This route must not be started before its router is started.  If
         # sender is None, then the router is not started.  When the router is
         # started, it will start this route.  It must not be started again if
-        # it is merely connected to another name.
-        if self.router._sender is not None and not connected:
+        # it is merely connected to another name, nor once it is unbound.
+        if (self.router._sender is not None and not connected
+            and not self._unbound):
             self.start()
 
 
@@ -73,6 +77,7 @@ class Route(record('router receiver localRouteName remoteRouteName',
             # The router has not been started yet.
             mapping = self.router._unstarted
         del mapping[self.localRouteName]
+        self._unbound = True
 
 
     def start(self):
-- 
2.43.0


From 7e168237c85510de35e884be7c405bec2b49d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 59/60] fix: measure a directory's own size anew each time

---
 epsilon/scripts/benchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index fd48c00..686356c 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -454,6 +454,8 @@ def getOneSize(ch):
     @return: The size, in bytes, of the given path only.
     """
     try:
+        # The path may have been asked for its size before.
+        ch.restat()
         return ch.getsize()
     except OSError as e:
         if e.errno == errno.ENOENT:
-- 
2.43.0


From f9f65d4655342f265bb15a37c875ff2d1d8e5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:28 +0000
Subject: [PATCH 60/60] fix: a box sent or received before can be sent as a new
 request

A box once sent to ask for an answer kept its tag, so that sent again
wanting none it was answered all the same; a box which came as an answer
was taken for an answer when sent on as a request.
---
 epsilon/juice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index c61c61b..840d40e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -413,7 +413,10 @@ class JuiceParserBase(DispatchMixin):
             box[ASK] = tag
             result = self._outstandingRequests[tag] = Deferred()
         else:
+            # the box may have been sent or received before
+            box.pop(ASK, None)
             result = None
+        box.pop(ANSWER, None)
         box.sendTo(self)
         return result
 
-- 
2.43.0

