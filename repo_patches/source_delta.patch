From 415f2e0b01b43d0db65e61d493dd4d599ee7a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/42] fix: closing or failing a connection must never reopen
 it nor skip the handshake

A close_notify received during the handshake moved the connection to
Closed, a post-handshake state where application data flows both ways in
plaintext. Same for close_sending_end() during the handshake. Calling
close_receiving_end() on a failed connection, or receiving close_notify
after closing the sending end, re-enabled sending. Data received past
close_notify was processed, and garbage received once failed raised.
---
 src/siotls/connection.py      | 18 +++++++++++++++---
 src/siotls/states/__init__.py |  3 +--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..3a5341a 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -93,9 +93,11 @@ class TLSConnection:
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore all incoming data
         self._input_data += data
 
-        while True:
+        while self._state.can_receive and not isinstance(self._state, states.Failed):
             try:
                 next_content = self._read_next_content()
                 if not next_content:
@@ -150,6 +152,8 @@ class TLSConnection:
         raise NotImplementedError
 
     def close_receiving_end(self):
+        if isinstance(self._state, states.Failed):
+            return
         if not self.is_post_handshake():
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
@@ -159,6 +163,11 @@ class TLSConnection:
         self._state.can_receive = False
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            # nothing was authenticated yet, the connection is unusable
+            self._send_content(alerts.CloseNotify())
+            self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
@@ -171,8 +180,11 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
-        self._move_to_state(states.Failed)
+        try:
+            if fatal_alert and self._state.can_send:
+                self._send_content(fatal_alert)
+        finally:
+            self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
         return isinstance(self._state, states.Connected | states.Closed | states.Failed)
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..703697b 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,8 +36,7 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
+                self.close_receiving_end()
                 logger.debug("%s closed its sending side", self.config.other_side)
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
-- 
2.43.0


From 546f7dca0a86b1a46d9d9db70dac40dc3efc4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 02/42] fix: error alerts must fail the connection whatever
 their level or description

Error alerts sent with the warning level were ignored, an unknown warning
alert raised AttributeError, and a fatal user_canceled or unknown alert
raised TypeError. The received alert was also echoed back to the peer.
---
 src/siotls/contents/alerts.py |  2 +-
 src/siotls/states/__init__.py | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..dd6c516 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -77,7 +77,7 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
         try:
             cls = abc[AlertDescription(description)]
         except ValueError:
-            cls = type(f'UnknownAlert{description}', (Alert,), {
+            cls = type(f'UnknownAlert{description}', (Alert, TLSFatalAlert), {
                 'level': level,
                 'description': description,
                 '_struct': '',
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 703697b..8bc0d17 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,7 +1,7 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
+from siotls.contents.alerts import UnexpectedMessage
 from siotls.iana import AlertDescription, AlertLevel, ContentType
 
 logger = logging.getLogger('siotls.connection')
@@ -38,12 +38,16 @@ class State(metaclass=abc.ABCMeta):
             if alert.description == AlertDescription.CLOSE_NOTIFY:
                 self.close_receiving_end()
                 logger.debug("%s closed its sending side", self.config.other_side)
-            elif alert.level == AlertLevel.WARNING:
+            elif alert.description == AlertDescription.USER_CANCELED:
                 logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+                     self.config.other_side, type(alert).__name__)
             else:
+                # RFC-8446 section 6: all the other alerts are errors,
+                # unknown ones included, no matter the level. They must
+                # not be answered with another alert.
+                self._fail()
                 e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                raise type(alert)(e, level=AlertLevel.FATAL)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From 77a1d90e279b78a89e6b78e095ebe60f1c40e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 03/42] fix: padding must not push a full record over the
 maximum record size

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 3a5341a..928e71e 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -363,7 +363,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 46d1f54829a53a79ecb0238207666064a893b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 04/42] fix: send record_overflow and bad_record_mac where the
 records are at fault

The RecordOverFlow typo turned oversized records into AttributeError and
internal_error, and the size of the decrypted record was not checked.
---
 src/siotls/connection.py     | 6 +++++-
 src/siotls/crypto/ciphers.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 928e71e..b54c07f 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -228,7 +228,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
@@ -247,6 +247,10 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
+        if len(innertext) > self.max_fragment_length + 1:
+            e =(f"the decrypted record is longer ({len(innertext)} bytes) "
+                f"than the allowed maximum ({self.max_fragment_length + 1} bytes)")
+            raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
                 break
diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From 23b3d025eb57bb8e27102d3841caea9517f9b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 05/42] fix: accept handshake messages coalesced in one record
 or split at any byte

Several messages in one record failed with TooMuchDataError, and when the
first fragment was shorter than the handshake header the connection
stalled although the following records were available.
---
 src/siotls/connection.py | 59 +++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index b54c07f..991ccdb 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,8 +5,8 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -21,6 +21,15 @@ cipher_plaintext = types.SimpleNamespace(
     should_rekey=False,
 )
 
+# RFC-8446 section 5.1, those cannot share a record with the next message
+KEY_CHANGE_HANDSHAKES = frozenset({
+    HandshakeType.CLIENT_HELLO,
+    HandshakeType.SERVER_HELLO,
+    HandshakeType.END_OF_EARLY_DATA,
+    HandshakeType.FINISHED,
+    HandshakeType.KEY_UPDATE,
+})
+
 def startswith_change_cipher_spec(data):
     return data[0:1] == b'\x14' and data[3:6] == b'\x00\x01\x01'
 
@@ -263,44 +272,32 @@ class TLSConnection:
         # handshakes can be fragmented over multiple following records,
         # other content types are not subject to fragmentation
 
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        while True:
+            if len(self._input_handshake) >= 4:  # noqa: PLR2004
+                length = 4 + int.from_bytes(self._input_handshake[1:4], 'big')
+                if len(self._input_handshake) >= length:
+                    return ContentType.HANDSHAKE, self._pop_handshake(length)
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
             record = self._read_next_record()
             if not record:
                 return None
             content_type, fragment = record
-            if content_type != ContentType.HANDSHAKE:
+            if content_type == ContentType.HANDSHAKE:
+                self._input_handshake += fragment
+            elif self._input_handshake:
                 e =(f"expected {ContentType.HANDSHAKE} continuation record "
                     f"but {content_type} found")
                 raise alerts.UnexpectedMessage(e)
-            self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
+            else:
+                return content_type, fragment
 
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+    def _pop_handshake(self, length):
+        content_data = self._input_handshake[:length]
+        self._input_handshake = self._input_handshake[length:]
+        if self._input_handshake and content_data[0] in KEY_CHANGE_HANDSHAKES:
+            e = "a message preceding a key change must end its record"
+            raise alerts.UnexpectedMessage(e)
+        return content_data
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
-- 
2.43.0


From ad06f11d01ad402fdb6540f6f6896ca67d4aba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 06/42] fix: offer the configured max fragment length and only
 enforce it once negotiated

The client never sent the max_fragment_length extension yet rejected the
server records larger than its configured value.
---
 src/siotls/connection.py          | 21 +++++++++++++++++----
 src/siotls/states/client/start.py |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 991ccdb..0c2de50 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,7 +5,13 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.iana import (
+    AlertLevel,
+    ContentType,
+    HandshakeType,
+    MaxFragmentLengthOctets,
+    TLSVersion,
+)
 from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
@@ -221,6 +227,13 @@ class TLSConnection:
             return self.nconfig.max_fragment_length
         return self.config.max_fragment_length
 
+    @property
+    def _max_input_length(self):
+        # the peer must not honor our limit before it is negotiated
+        if self.nconfig and self.nconfig.max_fragment_length is not None:
+            return self.nconfig.max_fragment_length
+        return MaxFragmentLengthOctets.MAX_16384
+
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
             self._input_data = self._input_data[6:]
@@ -231,7 +244,7 @@ class TLSConnection:
         content_type, _legacy_version, content_length = \
             struct.unpack('!BHH', self._input_data[:5])
 
-        max_fragment_length = self.max_fragment_length
+        max_fragment_length = self._max_input_length
         if self._cipher.must_decrypt:
             max_fragment_length += 256
         if content_length > max_fragment_length:
@@ -256,9 +269,9 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
-        if len(innertext) > self.max_fragment_length + 1:
+        if len(innertext) > self._max_input_length + 1:
             e =(f"the decrypted record is longer ({len(innertext)} bytes) "
-                f"than the allowed maximum ({self.max_fragment_length + 1} bytes)")
+                f"than the allowed maximum ({self._max_input_length + 1} bytes)")
             raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..91bd999 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -54,6 +55,8 @@ class ClientStart(State):
             else:
                 # server_hostname is an ip address
                 pass  # the ServerName extension doesn't support ip addresses
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self.config.alpn:
             extensions.append(ALPN(self.config.alpn))
         if self.config.public_key:  # x509 assumed when extension missing
-- 
2.43.0


From d7275896a7f1898b9056fbe5b007d79702cfe830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 07/42] fix: client HelloRetryRequest support

The HelloRetryRequest was left out of the client transcript and the first
ClientHello hashed with an arbitrary algorithm, so every retried handshake
failed with decrypt_error. A second HelloRetryRequest, one for a group
already shared or without supported_versions, and a ServerHello whose
cipher suite differs from the retry were all accepted. The second
ClientHello also changed cipher suites and groups, which RFC-8446 4.1.2
forbids.
---
 src/siotls/states/client/start.py             | 11 +++----
 src/siotls/states/client/wait_server_hello.py | 29 +++++++++++--------
 src/siotls/states/server/wait_client_hello.py |  1 -
 src/siotls/transcript.py                      | 26 +++++++++++------
 4 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 91bd999..b4d155b 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -28,9 +28,10 @@ class ClientStart(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, cookie=None):
+    def __init__(self, connection, cookie=None, key_exchange=None):
         super().__init__(connection)
         self._cookie = cookie
+        self._key_exchange = key_exchange
         self._key_shares = {}
 
     def initiate_connection(self):
@@ -68,7 +69,7 @@ class ClientStart(State):
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-        key_exchange = self.config.key_exchanges[0]
+        key_exchange = self._key_exchange or self.config.key_exchanges[0]
         private_key, my_key_share = TLSKeyExchange[key_exchange].init()
         self._key_shares[key_exchange] = private_key
         extensions.append(KeyShareRequest({key_exchange: my_key_share}))
@@ -76,11 +77,7 @@ class ClientStart(State):
         self._send_content(ClientHello(
             self._client_unique, self.config.cipher_suites, extensions,
         ))
-        self._move_to_state(
-            ClientWaitServerHello,
-            key_shares=self._key_shares,
-            client_hello_transcript_hash=self._transcript.digest(),
-        )
+        self._move_to_state(ClientWaitServerHello, key_shares=self._key_shares)
 
     def process(self, message):
         super().process(message)
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..d80d68d 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -1,5 +1,3 @@
-import dataclasses
-
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
@@ -14,17 +12,18 @@ class ClientWaitServerHello(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, key_shares, client_hello_transcript_hash):
+    def __init__(self, connection, key_shares, client_hello_transcript_hash=None):
         super().__init__(connection)
         self._is_first_server_hello = self.nconfig is None
         self._key_shares = key_shares
+        # only meant for early data, the transcript takes care of retries
         self._client_hello_transcript_hash = client_hello_transcript_hash
 
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
                 and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                     or not self._is_first_server_hello))):
             super().process(content)
             return
 
@@ -40,6 +39,10 @@ class ClientWaitServerHello(State):
                 'client', self._client_unique, log_keys=self.config.log_keys)
             self._transcript.post_init(self._cipher.digestmod)
             self._send_content(ChangeCipherSpec())
+        elif content.cipher_suite != self.nconfig.cipher_suite:
+            e =(f"the server selected {content.cipher_suite} but retried with "
+                f"{self.nconfig.cipher_suite}")
+            raise alerts.IllegalParameter(e)
 
         if content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST:
             self._process_hello_retry_request(content)
@@ -49,6 +52,8 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
@@ -58,16 +63,16 @@ class ClientWaitServerHello(State):
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
 
-        # make sure we select the algorithms selected by the server
-        self.config = dataclasses.replace(self.config,
-            cipher_suites=[self.nconfig.cipher_suite],
-            key_exchanges=[key_share.selected_group],
-        )
-
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        if key_share.selected_group in self._key_shares:
+            e = "the server's selected group was already shared in ClientHello"
+            raise alerts.IllegalParameter(e)
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
-        self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
+        self._move_to_state(
+            ClientStart,
+            cookie=cookie_ext and cookie_ext.cookie,
+            key_exchange=key_share.selected_group,
+        )
         self.connection.initiate_connection()
 
     def _process_server_hello(self, server_hello):
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..f7f16ab 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -120,7 +120,6 @@ class ServerWaitClientHello(State):
         )
 
         clear_extensions, _ = server_extensions
-        self._transcript.do_hrr_dance(self.config.side, self._transcript.digest())
         self._send_content(HelloRetryRequest(
             HelloRetryRequest.random,
             session_id,
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..a2bc181 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -49,7 +49,7 @@ otherwise the transcript wouldn't be right.
 import hashlib
 
 from siotls.contents import alerts
-from siotls.iana import HandshakeType
+from siotls.iana import HandshakeType, HandshakeType_
 
 ORDER = [
     ('server', HandshakeType.SERVER_HELLO, False),
@@ -84,21 +84,27 @@ class Transcript:
         self._hashes.clear()
         self._hashes.append(hash_)
 
-    def do_hrr_dance(self, side, client_hello_transcript_hash):
+    def _do_hrr_dance(self):
         """
+        Replace the first ClientHello by its hash, right before the
+        HelloRetryRequest is added to the transcript.
+
         Transcript-Hash(ClientHello1, HelloRetryRequest, ... Mn) =
             Hash(message_hash ||        /* Handshake type */
                  00 00 Hash.length  ||   /* Handshake message length (bytes) */
                  Hash(ClientHello1) ||  /* Hash of ClientHello1 */
                  HelloRetryRequest  || ... || Mn)
         """
-        self._hashes[0] = hashlib.new(self._hashes[0].name, b''.join([
-            HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
-            b'\x00\x00',
-            self._hashes[0].digest_size.to_bytes(1, 'big'),
-            client_hello_transcript_hash,
-        ]))
-        self._order_i = (side == 'client')
+        self._hashes = [
+            hashlib.new(hash_.name, b''.join([
+                HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
+                b'\x00\x00',
+                hash_.digest_size.to_bytes(1, 'big'),
+                hash_.digest(),
+            ]))
+            for hash_ in self._hashes
+        ]
+        self._order_i = 0
 
     def update(self, handshake_data, side, handshake_type):
         if self._order_i == len(ORDER):
@@ -115,6 +121,8 @@ class Transcript:
                 f"but found {(side, handshake_type)} instead")
             raise alerts.UnexpectedMessage(e)
 
+        if handshake_type is HandshakeType_.HELLO_RETRY_REQUEST:
+            self._do_hrr_dance()
         for hash_ in self._hashes:
             hash_.update(handshake_data)
         self._order_i += 1
-- 
2.43.0


From 13e2b41a32def9a8e14606144097701f83a6be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 08/42] fix: check legacy_session_id_echo in ServerHello and
 HelloRetryRequest

---
 src/siotls/states/client/wait_server_hello.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index d80d68d..c76202f 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -27,6 +27,10 @@ class ClientWaitServerHello(State):
             super().process(content)
             return
 
+        if content.legacy_session_id_echo:
+            e = "the server's legacy session id doesn't echo our (empty) one"
+            raise alerts.IllegalParameter(e)
+
         if content.cipher_suite not in self.config.cipher_suites:
             e =(f"the server's selected {content.cipher_suite} wasn't offered "
                 f"in ClientHello: {self.config.cipher_suites}")
-- 
2.43.0


From e0d490514d35c45c7b871dc3d5054c510cfeadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 09/42] fix: record the negotiated key exchange (client) and
 signature algorithm (server)

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 src/siotls/states/server/wait_client_hello.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index c76202f..73bbe80 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -120,5 +120,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index f7f16ab..8c555a9 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -282,6 +282,7 @@ class ServerWaitClientHello(State):
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
+                self.nconfig.signature_algorithm = server_suite
                 return [], []
         e = "no common signature algorithm found"
         raise alerts.HandshakeFailure(e)
-- 
2.43.0


From 687eb574e887a8c6d20c1fbd53ab982cfbb9b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 10/42] fix: protect what the server sends after its Finished
 with application keys

Application data and alerts sent before the client Finished were protected
under the server handshake traffic keys, no client can process them.
---
 src/siotls/crypto/ciphers.py                  | 16 ++++++++++++----
 src/siotls/states/server/wait_client_hello.py |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..f182aa9 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -260,6 +260,16 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             key_logger.info("SERVER_HANDSHAKE_TRAFFIC_SECRET %s %s",
                 self._client_unique_hex, server_handshake_traffic.hex())
 
+    def derive_server_write_secret(self, server_finished_transcript_hash):
+        """ Server-side, K_send = application as soon as Finished is sent """
+        assert self._side == 'server'
+        _, server_application_traffic, _, _ = self._secrets.derive_master_secrets(
+            server_finished_transcript_hash, self.hashempty)
+        server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
+        self._write_cipher = self._ciphermod(server_key)
+        self._write_iv = int.from_bytes(server_iv, 'big')
+        self._write_seq = peekable(iter(range(self.usage_limit)))
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -274,18 +284,16 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         )
 
         client_key, client_iv = self._derive_key_and_iv(client_application_traffic)
-        server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
         if self._side == 'client':
             self._write_cipher = self._ciphermod(client_key)
             self._write_iv = int.from_bytes(client_iv, 'big')
             self._write_seq = peekable(iter(range(self.usage_limit)))
+            server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
             self._read_cipher = self._ciphermod(server_key)
             self._read_iv = int.from_bytes(server_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
         else:
-            self._write_cipher = self._ciphermod(server_key)
-            self._write_iv = int.from_bytes(server_iv, 'big')
-            self._write_seq = peekable(iter(range(self.usage_limit)))
+            # derive_server_write_secret already took care of K_send
             self._read_cipher = self._ciphermod(client_key)
             self._read_iv = int.from_bytes(client_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 8c555a9..cd05787 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -86,6 +86,7 @@ class ServerWaitClientHello(State):
         self._send_finished()
 
         server_finished_transcript_hash = self._transcript.digest()
+        self._cipher.derive_server_write_secret(server_finished_transcript_hash)
         if self.config.require_peer_authentication:
             self._move_to_state(ServerWaitFlight2, server_finished_transcript_hash)
         else:
-- 
2.43.0


From 14f989d5d4fc55a1719cc802bcb944515f80be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 11/42] fix: raw public keys extensions serialization and
 trusted keys lookup

---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 3 +--
 src/siotls/states/client/wait_certificate.py                  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..8632b21 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -124,7 +124,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
-- 
2.43.0


From 98694d2e2227090b92a6dbbfe24e9981dfe33358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 12/42] fix: only use the CertificateVerify schemes RFC-8446
 allows for the key

ECDSA schemes were not bound to the curve of the key, PKCS1 could be
negotiated, raw public keys (no certificate) crashed the server, and a
wrong signature was reported as internal_error instead of decrypt_error.
---
 src/siotls/crypto/signatures.py               | 45 ++++++++++++++++++-
 .../states/client/wait_certificate_verify.py  | 26 +++++++----
 src/siotls/states/server/wait_client_hello.py |  7 ++-
 3 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..2d8766c 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,12 +5,20 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
 
 
+_KEY_OIDS = {
+    rsa.RSAPublicKey: PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5,
+    ec.EllipticCurvePublicKey: PublicKeyAlgorithmOID.EC_PUBLIC_KEY,
+    ed25519.Ed25519PublicKey: PublicKeyAlgorithmOID.ED25519,
+    ed448.Ed448PublicKey: PublicKeyAlgorithmOID.ED448,
+}
+
+
 class TLSSignatureSuite(metaclass=RegistryMeta):
     _pubkey_registry: ClassVar = {}
     _registry: ClassVar = {}
@@ -38,6 +46,27 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_handshake(cls, public_key, public_key_oid=None):
+        """
+        Find the suites that can sign/verify a CertificateVerify using
+        that public key. The OID is necessary to tell RSASSA-PSS keys
+        apart, it is only found inside certificates.
+        """
+        if public_key_oid is None:
+            public_key_oid = next((
+                oid for key_type, oid in _KEY_OIDS.items() if isinstance(public_key, key_type)
+            ), None)
+        return {
+            iana_id: suite
+            for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
+            if suite.can_sign_handshake(public_key)
+        }
+
+    @classmethod
+    def can_sign_handshake(cls, public_key):  # noqa: ARG003
+        return True
+
     def __init__(self, key):
         self.key = key
 
@@ -54,6 +83,11 @@ class _RSAMixin:
     digestmod: hashes.Hash
     padding = padding.PKCS1v15()
 
+    @classmethod
+    def can_sign_handshake(cls, public_key):  # noqa: ARG003
+        # RFC-8446 4.2.3: PKCS1 is only for the signatures of certificates
+        return not isinstance(cls.padding, padding.PKCS1v15)
+
     def sign(self, message):
         return self.key.sign(message, self.padding, self.digestmod)
 
@@ -123,6 +157,12 @@ class TLS_RSA_PSS_PSS_SHA512(_RSAMixin, TLSSignatureSuite):
 
 class _ECDSAMixin:
     digestmod: hashes.Hash
+    curve: ec.EllipticCurve
+
+    @classmethod
+    def can_sign_handshake(cls, public_key):
+        # RFC-8446 4.2.3: in TLS 1.3 the scheme also constrains the curve
+        return isinstance(public_key.curve, cls.curve)
 
     def sign(self, message):
         return self.key.sign(message, ec.ECDSA(self.digestmod))
@@ -134,18 +174,21 @@ class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp256r1_sha256
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
+    curve = ec.SECP256R1
     digestmod = hashes.SHA256()
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
+    curve = ec.SECP384R1
     digestmod = hashes.SHA384()
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
+    curve = ec.SECP521R1
     digestmod = hashes.SHA512()
 
 
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..35b54b1 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -34,14 +36,22 @@ class ClientWaitCertificateVerify(State):
             raise alerts.IllegalParameter(e)
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        if self.nconfig.peer_public_key:
+            public_key, public_key_oid = self.nconfig.peer_public_key, None
+        else:
+            public_key = self.nconfig.peer_certificate.public_key()
+            public_key_oid = self.nconfig.peer_certificate.public_key_algorithm_oid
+        suites = TLSSignatureSuite.for_handshake(public_key, public_key_oid)
+        if content.algorithm not in suites:
+            e = f"the server's {content.algorithm} cannot be used with its certificate"
+            raise alerts.IllegalParameter(e)
+        try:
+            suites[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            raise alerts.DecryptError from exc
 
         self._move_to_state(
             ClientWaitFinished,
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index cd05787..063b7bc 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -278,8 +278,11 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        suites = TLSSignatureSuite.for_handshake(
+            self.config.private_key.public_key(),
+            self.config.certificate_chain[0].public_key_algorithm_oid
+            if self.config.certificate_chain else None,
+        )
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
-- 
2.43.0


From c9ed1dc33c30a7160ba5adbc3a5bc9a1ba06f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 13/42] fix: look certificates up by serial number in the
 revocation list

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 8632b21..bc2053a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -95,7 +95,7 @@ class ClientWaitCertificate(State):
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
         for entry in certificate_entries:
-            if is_revoked(entry.certificate):
+            if is_revoked(entry.certificate.serial_number):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-- 
2.43.0


From 212e5f6027f4ff7da13324bb4fb31b1eaa1f23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 14/42] fix: certificates without OCSP url and invalid OCSP
 responses

A certificate without AIA raised ExtensionNotFound, a bad response
signature IndexError, a missing nextUpdate TypeError, and a server whose
OCSP responder is down could not accept connections.
---
 src/siotls/crypto/ocsp.py                     | 14 ++++++++++++--
 src/siotls/states/server/wait_client_hello.py |  8 ++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..78a4e64 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,15 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        aia = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
             for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            in aia
             if access_description.access_method == OCSP
         ),
         None
@@ -65,6 +70,10 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
+    if not res.next_update:
+        e = "response has no expiration"
+        raise ValueError(e)
+
     if res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
@@ -86,6 +95,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+        e = "invalid response signature"
+        raise ValueError(e) from exc
 
     return res.next_update
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 063b7bc..fdc1b6e 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -169,19 +169,19 @@ class ServerWaitClientHello(State):
                 self.nconfig.peer_want_ocsp_stapling
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
+                and (ocsp_url := get_ocsp_url(self.config.certificate_chain[0]))
             ):
                 subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
                 ocsp_req = make_ocsp_request(subject, issuer)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
+                    ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                     valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
-                except ValueError as exc:
+                except (OSError, RuntimeError, ValueError) as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     w =("error while validating the online status of "
                         "this server certificate, client likely to "
                         "reject this connection: %s")
-                    logger.warning(w, exc.args[0])
+                    logger.warning(w, exc)
                 else:
                     self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
                     certificate_list[0].extensions[
-- 
2.43.0


From 38abfdc186492a0c1b9327b89141ac0f02b10625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 15/42] fix: wrapped sockets must not lose data on short writes

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 4260b3b2f448412d304c413835e1714c43453eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 16/42] fix: certificate statuses must be attested by the
 verified issuer

The OCSP issuer was whatever certificate follows in the Certificate
message, a peer could insert a certificate of its own and forge statuses,
or leave the issuer out and skip the online verification.
---
 src/siotls/states/client/wait_certificate.py | 30 +++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index bc2053a..e1a02fc 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -65,16 +65,18 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
-            self._verify_chain(content.certificate_list)
+            chain = self._verify_chain(content.certificate_list)
             self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            self._verify_statuses(content.certificate_list, chain)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # list of certificates: from the leaf up to the trust store
+        return getattr(verified, 'chain', verified)
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -99,21 +101,27 @@ class ClientWaitCertificate(State):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, certificate_entries, chain):
+        # only a verified issuer is trusted to attest a status, not
+        # whatever certificate the peer decided to send next
+        statuses = {
+            entry.certificate: entry.extensions.get(ExtensionType.STATUS_REQUEST)
+            for entry in certificate_entries
+        }
+        for certificate, issuer in pairwise(chain):
+            status = statuses.get(certificate)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
-- 
2.43.0


From 379bd463dca9e75076aac3636d6541cf7fcafe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 17/42] fix: serialization of heartbeats and of several
 extensions

CertificateAuthorities and UseSRTP could not be instantiated, UseSRTP,
PreSharedKey and internationalized HostName had wrong lengths, and
Heartbeat could not be serialized.
---
 .../extensions/certificate_authorities.py         |  2 +-
 .../handshakes/extensions/pre_shared_key.py       | 15 +++++++++++----
 .../contents/handshakes/extensions/server_name.py |  5 +++--
 .../contents/handshakes/extensions/use_srtp.py    |  4 ++--
 src/siotls/contents/heartbeat.py                  |  4 ++--
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..19ec2e5 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -54,17 +54,24 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
 
+        binders = b''.join(
+            b''.join([
+                len(binder).to_bytes(1, 'big'),
+                binder,
+            ]) for binder in self.binders
+        )
+
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..7016eb5 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(host_name).to_bytes(2, 'big'),
+            host_name,
         ])
 
 @dataclasses.dataclass(init=False)
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..d5293b8 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -42,9 +42,9 @@ class UseSRTP(Extension, SerializableBody):
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
-- 
2.43.0


From 789b426f96138d6e4a608f86f1201e78ee57d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 18/42] fix: session tickets must not fail the client
 connection

NewSessionTicket could not be parsed, hence every connection to a server
with session resumption enabled died right after the handshake.
---
 .../contents/handshakes/new_session_ticket.py | 57 ++++++++++++++++++-
 src/siotls/states/connected.py                |  6 +-
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..0356982 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,12 +1,63 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
-from siotls.serial import SerializableBody
+from siotls.iana import ExtensionType, HandshakeType
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .extensions import Extension
 
 
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+    _struct = textwrap.dedent("""
+        struct {
+            uint32 ticket_lifetime;
+            uint32 ticket_age_add;
+            opaque ticket_nonce<0..255>;
+            opaque ticket<1..2^16-1>;
+            Extension extensions<0..2^16-2>;
+        } NewSessionTicket;
+    """).strip('\n')
+    ticket_lifetime: int
+    ticket_age_add: int
+    ticket_nonce: bytes
+    ticket: bytes
+    extensions: dict[ExtensionType | int, Extension]
+
+    def __init__(self, ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions):
+        self.ticket_lifetime = ticket_lifetime
+        self.ticket_age_add = ticket_age_add
+        self.ticket_nonce = ticket_nonce
+        self.ticket = ticket
+        self.extensions = {ext.extension_type: ext for ext in extensions}
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):
+        ticket_lifetime = stream.read_int(4)
+        ticket_age_add = stream.read_int(4)
+        ticket_nonce = stream.read_var(1)
+        ticket = stream.read_var(2)
+
+        extensions = []
+        list_stream = SerialIO(stream.read_var(2))
+        while not list_stream.is_eof():
+            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
+            extensions.append(extension)
+
+        return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
+
+    def serialize_body(self):
+        extensions = b''.join(ext.serialize() for ext in self.extensions.values())
+
+        return b''.join([
+            self.ticket_lifetime.to_bytes(4, 'big'),
+            self.ticket_age_add.to_bytes(4, 'big'),
+            len(self.ticket_nonce).to_bytes(1, 'big'),
+            self.ticket_nonce,
+            len(self.ticket).to_bytes(2, 'big'),
+            self.ticket,
+            len(extensions).to_bytes(2, 'big'),
+            extensions,
+        ])
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..f2d3593 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,4 +1,4 @@
-from siotls.iana import ContentType
+from siotls.iana import ContentType, HandshakeType
 
 from . import State
 
@@ -9,6 +9,10 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
+        if (message.content_type == ContentType.HANDSHAKE
+            and message.msg_type is HandshakeType.NEW_SESSION_TICKET
+            and self.config.side == 'client'):
+            return  # session resumption is not supported, ignore it
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
-- 
2.43.0


From d5f19b813d9fe6476c72af238e5fb5283dc03fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 19/42] fix: OCSP cache races, stale evictions and negative
 Content-Length

Two threads finding the same expired entry raised KeyError, entries cached
again were evicted by their stale expiration, and a negative length made
the response size unbounded.
---
 src/siotls/ocsp_over_http.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..c20791a 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -23,7 +23,7 @@ def request(url, ocsp_req):
             logger.debug('cache hit')
             return cached_ocsp_res
         logger.debug('cache expired')
-        del _cache[ocsp_req]
+        uncache(ocsp_req)
     else:
         logger.debug('cache miss')
 
@@ -57,6 +57,9 @@ def request(url, ocsp_req):
         raise RuntimeError(e)
 
     content_length = int(http_res.getheader('Content-Length', OCSP_MAX_RESPONSE_SIZE))
+    if content_length < 0:
+        e = f"invalid Content-Length: {content_length}"
+        raise RuntimeError(e)
     if content_length > OCSP_MAX_RESPONSE_SIZE:
         e =(f"OCSP response body too large ({content_length} bytes vs "
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
@@ -69,7 +72,9 @@ def cache(until, ocsp_req, ocsp_res):
     if ocsp_req in _cache:
         return
     while len(_cache_limits) >= CACHE_ENTRIES:
-        uncache(heapq.heappop(_cache_limits)[1])
+        old_until, old_ocsp_req = heapq.heappop(_cache_limits)
+        if _cache.get(old_ocsp_req, (None, None))[1] == old_until:
+            uncache(old_ocsp_req)
     heapq.heappush(_cache_limits, (until, ocsp_req))
     _cache[ocsp_req] = (ocsp_res, until)
 
-- 
2.43.0


From ea2b6b08f33db78e9146aab3ca606ccb675f4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 20/42] fix: reject zero-length handshake fragments

---
 src/siotls/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0c2de50..75a12ad 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -296,6 +296,9 @@ class TLSConnection:
                 return None
             content_type, fragment = record
             if content_type == ContentType.HANDSHAKE:
+                if not fragment:
+                    e = "zero-length handshake fragment"
+                    raise alerts.UnexpectedMessage(e)
                 self._input_handshake += fragment
             elif self._input_handshake:
                 e =(f"expected {ContentType.HANDSHAKE} continuation record "
-- 
2.43.0


From 2992d2bc2ffc72962557b068662866ecdd5a6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 21/42] fix: a selected_version before TLS 1.3 is an illegal
 parameter

---
 .../contents/handshakes/extensions/supported_versions.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..278723e 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -64,10 +64,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
-            selected_version = TLSVersion(stream.read_int(2))
+            return cls(TLSVersion(stream.read_int(2)))
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
-- 
2.43.0


From f836f48d951e5ef1b778360d327a2f2eaebc31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 22/42] fix: reject ffdhe key shares that are not padded to the
 size of the prime

---
 src/siotls/crypto/key_exchanges.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 88e9df4..032f609 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -97,6 +97,10 @@ class _FFDHEMixin:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
 
+        if len(peer_key_share) != cls.p_length:
+            e = "the peer's key must be padded to the size of the prime"
+            raise ValueError(e)
+
         y = int.from_bytes(peer_key_share, 'big')
         if not (1 < y < cls.p - 1):
             e = "invalid peer ffdhe Y"
-- 
2.43.0


From e0ff35ea95bc78792f119028be30feffd8e9b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 23/42] fix: statuses are signed with the issuer's key, not
 with the algorithm of its certificate

---
 src/siotls/crypto/ocsp.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 78a4e64..76145b9 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -78,18 +78,18 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is expired"
         raise ValueError(e)
 
-    if res.signature_algorithm_oid != issuer.signature_algorithm_oid:
-        e = "request and response signature algorithm mismatch"
-        raise ValueError(e)
-
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
-        e = "request and response hash algorithm mismatch"
-        raise ValueError(e)
-
+    # the issuer's certificate is signed by its own issuer, maybe using
+    # another algorithm, the response is signed by the issuer's key
+    hash_name = getattr(res.signature_hash_algorithm, 'name', None)
     try:
-        Signature = TLSSignatureSuite.from_signature_oid(res.signature_algorithm_oid)  # noqa: N806
-    except KeyError as exc:
-        e = "unknown signature algorithm"
+        suites = TLSSignatureSuite.for_public_key_oid(issuer.public_key_algorithm_oid)
+        Signature = next(  # noqa: N806
+            suite for suite in suites.values()
+            if suite.sign_oid == res.signature_algorithm_oid
+            and getattr(getattr(suite, 'digestmod', None), 'name', None) == hash_name
+        )
+    except (KeyError, StopIteration) as exc:
+        e = "unknown signature algorithm or response and issuer key mismatch"
         raise ValueError(e) from exc
 
     try:
-- 
2.43.0


From 6fdd1ae20e05baaec5ca1df5c70ad94d283fd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 24/42] fix: look for duplicated extensions in linear time

---
 src/siotls/contents/handshakes/client_hello.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/siotls/contents/handshakes/client_hello.py b/src/siotls/contents/handshakes/client_hello.py
index e59e765..e33d993 100644
--- a/src/siotls/contents/handshakes/client_hello.py
+++ b/src/siotls/contents/handshakes/client_hello.py
@@ -14,15 +14,15 @@ logger = logging.getLogger(__name__)
 
 
 def _find_duplicated_extension(extensions):
-    for ext_no, ext1 in enumerate(extensions):
-        for ext2 in extensions[ext_no+1:]:
-            if ext1.extension_type != ext2.extension_type:
-                continue
-            if ext1 != ext2:
-                e = f"duplicated extension: {ext1} vs {ext2}"
-                raise ValueError(e)
-            else:
-                logger.warning("duplicated extension: %s", ext1)
+    seen = {}
+    for ext in extensions:
+        first = seen.setdefault(ext.extension_type, ext)
+        if first is ext:
+            continue
+        if first != ext:
+            e = f"duplicated extension: {first} vs {ext}"
+            raise ValueError(e)
+        logger.warning("duplicated extension: %s", ext)
 
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From 05da2fd1199175e0872c728c8aaac622968a6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 25/42] fix: content and handshake types without parser are
 decoding errors, not internal ones

---
 src/siotls/contents/__init__.py            | 2 +-
 src/siotls/contents/handshakes/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..046c305 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..bfca910 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
-- 
2.43.0


From 1eadf403182ee93bfaa26a2e0e213f5d200eceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 26/42] fix: malformed or too early certificate messages are
 not internal errors

---
 src/siotls/contents/handshakes/certificate.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..06a26a1 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,13 +1,14 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
     PublicFormat,
     load_der_public_key,
 )
-from cryptography.x509 import Certificate, load_der_x509_certificate
+from cryptography.x509 import Certificate, InvalidVersion, load_der_x509_certificate
 
 from siotls.contents import alerts
 from siotls.iana import CertificateType, ExtensionType, HandshakeType
@@ -49,7 +50,10 @@ class CertificateEntry(Serializable):
     @classmethod
     def parse(cls, stream, **kwargs):
         data = stream.read_var(3)
-        certificate = cls._parse_certificate(data)
+        try:
+            certificate = cls._parse_certificate(data)
+        except (ValueError, UnsupportedAlgorithm, InvalidVersion) as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
         extensions = []
         list_stream = SerialIO(stream.read_var(2))
@@ -137,16 +141,17 @@ class Certificate(Handshake, SerializableBody):
                 if config.other_side == 'client' else
                 nconfig.server_certificate_type
             ]
-        except IndexError as exc:
-            raise alerts.CertificateUnknown(*exc.args) from exc
+        except (AttributeError, KeyError) as exc:
+            e = "no certificate type was negotiated (yet)"
+            raise alerts.UnexpectedMessage(e) from exc
 
         certificate_request_context = stream.read_var(1)
 
         certificate_list = []
-        with stream.limit(stream.read_int(3)) as limit:
-            while stream.tell() < limit:
-                certificate = Entry.parse(stream, **kwargs)
-                certificate_list.append(certificate)
+        list_stream = SerialIO(stream.read_var(3))
+        while not list_stream.is_eof():
+            certificate = Entry.parse(list_stream, **kwargs)
+            certificate_list.append(certificate)
 
         try:
             return cls(certificate_request_context, certificate_list)
-- 
2.43.0


From 52ddcdc2a757b36687b373e643cc75fb6f2be394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 27/42] fix: an odd list of SRTP profiles is a decoding error,
 not an internal one

---
 src/siotls/contents/handshakes/extensions/use_srtp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index d5293b8..7cfb76b 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -2,6 +2,7 @@ import dataclasses
 import itertools
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
 
@@ -37,7 +38,10 @@ class UseSRTP(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
         it = iter(stream.read_var(2))
-        protection_profiles = list(zip(it, it, strict=True))
+        try:
+            protection_profiles = list(zip(it, it, strict=True))
+        except ValueError as exc:
+            raise alerts.DecodeError(*exc.args) from exc
         mki = stream.read_var(1)
 
         return cls(protection_profiles, mki)
-- 
2.43.0


From 6857a5c815bcd46cac067c76ba02f583a0ccd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 28/42] fix: refuse OCSP responses signed with unsupported
 algorithms

---
 src/siotls/crypto/ocsp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 76145b9..7301356 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
 from cryptography.x509 import ExtensionNotFound
@@ -80,15 +80,15 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
 
     # the issuer's certificate is signed by its own issuer, maybe using
     # another algorithm, the response is signed by the issuer's key
-    hash_name = getattr(res.signature_hash_algorithm, 'name', None)
     try:
+        hash_name = getattr(res.signature_hash_algorithm, 'name', None)
         suites = TLSSignatureSuite.for_public_key_oid(issuer.public_key_algorithm_oid)
         Signature = next(  # noqa: N806
             suite for suite in suites.values()
             if suite.sign_oid == res.signature_algorithm_oid
             and getattr(getattr(suite, 'digestmod', None), 'name', None) == hash_name
         )
-    except (KeyError, StopIteration) as exc:
+    except (KeyError, StopIteration, UnsupportedAlgorithm) as exc:
         e = "unknown signature algorithm or response and issuer key mismatch"
         raise ValueError(e) from exc
 
-- 
2.43.0


From 34d2f79f7905e040c835db98ba25af16f2e8353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 29/42] fix: a server certificate message without certificate
 is a decoding error

---
 src/siotls/states/client/wait_certificate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index e1a02fc..7518e6b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -32,10 +32,9 @@ class ClientWaitCertificate(State):
             super().process(content)
             return
 
-        if self.config.require_peer_authentication:
-            if not content.certificate_list:
-                e = "missing certificate"
-                raise alerts.BadCertificate(e)
+        if not content.certificate_list:
+            e = "missing certificate"
+            raise alerts.DecodeError(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
-- 
2.43.0


From 899bb94ad1082b56823c90d0cdac85eac6de0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 30/42] fix: unusable keys of unverified certificates are not
 internal errors

---
 src/siotls/states/client/wait_certificate_verify.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index 35b54b1..b5ed1db 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,4 +1,4 @@
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
@@ -39,7 +39,10 @@ class ClientWaitCertificateVerify(State):
         if self.nconfig.peer_public_key:
             public_key, public_key_oid = self.nconfig.peer_public_key, None
         else:
-            public_key = self.nconfig.peer_certificate.public_key()
+            try:
+                public_key = self.nconfig.peer_certificate.public_key()
+            except (ValueError, UnsupportedAlgorithm) as exc:
+                raise alerts.UnsupportedCertificate(*exc.args) from exc
             public_key_oid = self.nconfig.peer_certificate.public_key_algorithm_oid
         suites = TLSSignatureSuite.for_handshake(public_key, public_key_oid)
         if content.algorithm not in suites:
-- 
2.43.0


From 871edd11c6e2c8b5d14f9d65d0856bc7c9470628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 31/42] fix: a negative read honours the limit of the stream

---
 src/siotls/serial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..3f1d882 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -51,9 +51,9 @@ class SerialIO(io.BytesIO):
 
     def read(self, n=None):
         max_n = self._limits[-1] - self.tell()
-        if n is None:
+        if n is None or n < 0:
             if len(self._limits) > 1:
-                n = max_n
+                n = max(max_n, 0)
         elif n > max_n:
             e = f"expected {n} bytes but can only read {max_n}"
             raise TooMuchDataError(e)
-- 
2.43.0


From a086ada1d8d5fbbf1e459112c5bd84ec02702112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 32/42] fix: concurrent insertions overflow the status cache

---
 src/siotls/ocsp_over_http.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index c20791a..1c4592f 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -1,5 +1,6 @@
 import heapq
 import logging
+import threading
 from datetime import datetime
 from urllib.parse import urlsplit
 from urllib.request import Request, urlopen
@@ -15,6 +16,7 @@ TIMEOUT = 1
 
 _cache = {}
 _cache_limits = []
+_cache_lock = threading.Lock()
 
 def request(url, ocsp_req):
     cached_ocsp_res, cached_until = _cache.get(ocsp_req, (None, None))
@@ -69,14 +71,15 @@ def request(url, ocsp_req):
 
 
 def cache(until, ocsp_req, ocsp_res):
-    if ocsp_req in _cache:
-        return
-    while len(_cache_limits) >= CACHE_ENTRIES:
-        old_until, old_ocsp_req = heapq.heappop(_cache_limits)
-        if _cache.get(old_ocsp_req, (None, None))[1] == old_until:
-            uncache(old_ocsp_req)
-    heapq.heappush(_cache_limits, (until, ocsp_req))
-    _cache[ocsp_req] = (ocsp_res, until)
+    with _cache_lock:
+        if ocsp_req in _cache:
+            return
+        while len(_cache_limits) >= CACHE_ENTRIES:
+            old_until, old_ocsp_req = heapq.heappop(_cache_limits)
+            if _cache.get(old_ocsp_req, (None, None))[1] == old_until:
+                uncache(old_ocsp_req)
+        heapq.heappush(_cache_limits, (until, ocsp_req))
+        _cache[ocsp_req] = (ocsp_res, until)
 
 
 def uncache(ocsp_req):
-- 
2.43.0


From 7dee91c2e47592a0bc1e02d08d608605ab149538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 33/42] fix: a malformed HTTP answer of an OCSP responder
 failed the handshakes of the server

---
 src/siotls/ocsp_over_http.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1c4592f..bf28c27 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -2,6 +2,7 @@ import heapq
 import logging
 import threading
 from datetime import datetime
+from http.client import HTTPException
 from urllib.parse import urlsplit
 from urllib.request import Request, urlopen
 
@@ -50,6 +51,14 @@ def request(url, ocsp_req):
             'User-Agent': USER_AGENT,
         }
     )
+    try:
+        return _fetch(http_req)
+    except HTTPException as exc:
+        e = "invalid HTTP response"
+        raise RuntimeError(e) from exc
+
+
+def _fetch(http_req):
     http_res = urlopen(http_req, timeout=TIMEOUT)  # noqa: S310
     # timeout is per recv, not globally, it can be abused to DOS
 
-- 
2.43.0


From bf7be9f8cdfd9fc7cd08ab39d191f9e3e8866b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 34/42] fix: data received after a closure alert is ignored
 however it is cut

---
 src/siotls/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 75a12ad..865424f 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -105,11 +105,13 @@ class TLSConnection:
         if not data:
             e = f"empty data: {data}"
             raise ValueError(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore all incoming data
+        if isinstance(self._state, states.Closed) and not self._state.can_receive:
+            return  # RFC-8446 section 6.1, ignore data after a closure
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
-        if isinstance(self._state, states.Failed):
-            return  # ignore all incoming data
         self._input_data += data
 
         while self._state.can_receive and not isinstance(self._state, states.Failed):
-- 
2.43.0


From a1323542d2c04deec7692c453dbdd446579a3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 35/42] fix: a server without raw public keys is an unsupported
 certificate, not an internal error

---
 src/siotls/states/client/wait_encrypted_extensions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/states/client/wait_encrypted_extensions.py b/src/siotls/states/client/wait_encrypted_extensions.py
index 9d4ab8a..ce7856b 100644
--- a/src/siotls/states/client/wait_encrypted_extensions.py
+++ b/src/siotls/states/client/wait_encrypted_extensions.py
@@ -83,6 +83,10 @@ class ClientWaitEncryptedExtensions(State):
 
     def _negociate_server_certificate_type(self, ext):
         if not ext:
+            if (self.config.require_peer_authentication
+                and CertificateType.X509 not in self.config.peer_certificate_types):
+                e = "the server doesn't support raw public keys"
+                raise alerts.UnsupportedCertificate(e)
             self.nconfig.server_certificate_type = CertificateType.X509
         elif ext.certificate_type in self.config.peer_certificate_types:
             self.nconfig.server_certificate_type = ext.certificate_type
-- 
2.43.0


From 3660e6230928293a28b898f3a856f06d392cf638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 36/42] fix: refuse a ClientHello whose legacy session id is
 longer than 32 bytes

The server used to accept it and to echo it.
---
 src/siotls/contents/handshakes/client_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/contents/handshakes/client_hello.py b/src/siotls/contents/handshakes/client_hello.py
index e33d993..562068d 100644
--- a/src/siotls/contents/handshakes/client_hello.py
+++ b/src/siotls/contents/handshakes/client_hello.py
@@ -89,6 +89,9 @@ class ClientHello(Handshake, SerializableBody):
 
         random = stream.read_exactly(32)
         legacy_session_id = stream.read_var(1)
+        if len(legacy_session_id) > 32:  # noqa: PLR2004
+            e = "legacy session id longer than 32 bytes"
+            raise alerts.DecodeError(e)
 
         cipher_suites = [
             try_cast(CipherSuites, cipher_suite)
-- 
2.43.0


From 6e208946eda308d980b2802122db30f7003e609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 37/42] fix: the cookie extension does not belong in a
 ServerHello

RFC 8446 section 4.2 reserves it to HelloRetryRequest.
---
 src/siotls/contents/handshakes/extensions/cookie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index d58a9b6..b10be63 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -12,7 +12,6 @@ class Cookie(Extension, SerializableBody):
     extension_type = ExtensionType.COOKIE
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.SERVER_HELLO,
         HandshakeType_.HELLO_RETRY_REQUEST
     )
 
-- 
2.43.0


From 95fb1c65a07d3837c0c848eb955f6a2cb5022376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 38/42] fix: verify internationalised and absolute host names
 against their A-labels

---
 src/siotls/states/client/wait_certificate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 7518e6b..b5cb13b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,6 +1,7 @@
 from ipaddress import ip_address
 from itertools import pairwise
 
+import idna
 from cryptography import x509
 
 from siotls.contents import alerts
@@ -86,7 +87,9 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(self.server_hostname)
+            # certificates list A-labels, without a trailing dot
+            subject = x509.DNSName(
+                idna.encode(self.server_hostname, uts46=True).decode().removesuffix('.'))
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From 13f330a77c6b0b83d388ac6c34eae47a6b61740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 39/42] fix: no trailing dot in the server_name extension (RFC
 6066)

---
 src/siotls/states/client/start.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index b4d155b..5902f12 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -51,7 +51,8 @@ class ClientStart(State):
             except ValueError:
                 # server_hostname is not an ip address
                 extensions.append(ServerNameListRequest([
-                    HostName(self.server_hostname)
+                    # RFC-6066 section 3: without a trailing dot
+                    HostName(self.server_hostname.removesuffix('.'))
                 ]))
             else:
                 # server_hostname is an ip address
-- 
2.43.0


From d3c042a160bd7a3808ef6668018841cdc0183dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 40/42] fix: Content-Length counts bytes, not characters

---
 src/siotls/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/utils.py b/src/siotls/utils.py
index 2b31291..3f77273 100644
--- a/src/siotls/utils.py
+++ b/src/siotls/utils.py
@@ -74,7 +74,7 @@ def make_http11_request(host: str, method: str, path: str, body: str):
         host=host,
         method=method,
         path=path,
-        length=len(body),
+        length=len(body.encode()),
         body=body
     )
 
@@ -92,7 +92,7 @@ def make_http11_response(code: int, body: str, now: datetime | None = None):
     return HTTP11_RESPONSE.format(
         status=HTTPStatus(code),
         date=format_date_time(now.timestamp() if now else time.time()),
-        length=len(body),
+        length=len(body.encode()),
         body=body,
     )
 
-- 
2.43.0


From 2b47906fad39ce988aa4ff0f8584a052de26c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 41/42] fix: many small records in one call cost quadratic time

---
 src/siotls/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 865424f..57352ea 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -238,7 +238,7 @@ class TLSConnection:
 
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
-            self._input_data = self._input_data[6:]
+            del self._input_data[:6]
 
         if len(self._input_data) < 5:  # noqa: PLR2004
             return None
@@ -259,7 +259,7 @@ class TLSConnection:
 
         header = self._input_data[:5]
         fragment = self._input_data[5:content_length + 5]
-        self._input_data = self._input_data[content_length + 5:]
+        del self._input_data[:content_length + 5]
         if self._cipher.must_decrypt:
             content_type, fragment = self._decrypt(header, fragment)
 
@@ -311,7 +311,7 @@ class TLSConnection:
 
     def _pop_handshake(self, length):
         content_data = self._input_handshake[:length]
-        self._input_handshake = self._input_handshake[length:]
+        del self._input_handshake[:length]
         if self._input_handshake and content_data[0] in KEY_CHANGE_HANDSHAKES:
             e = "a message preceding a key change must end its record"
             raise alerts.UnexpectedMessage(e)
-- 
2.43.0


From 7bb2b48e9c2ed23fadc3e49d8ea0981ffb191b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:55 +0000
Subject: [PATCH 42/42] fix: different certificate types extensions are not
 equal

---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index c30b499..d262328 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -58,6 +58,7 @@ class _CertificateTypeResponse(SerializableBody):
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -66,6 +67,7 @@ class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -74,6 +76,7 @@ class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -82,6 +85,7 @@ class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ServerCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
-- 
2.43.0

