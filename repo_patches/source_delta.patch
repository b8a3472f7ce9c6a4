From 9f1a593856755b3b0c617091226ebc4a766e0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 01/56] fix: Don't allocate a packet vector from an untrusted
 element count

Extracting a vector resized it to the length prefix found in the packet before
checking that there is any data, so a corrupt or malicious 4 byte packet caused
an allocation of up to 4 billion elements (std::bad_alloc or worse) instead of
the documented std::out_of_range.
---
 include/frnetlib/Packet.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..9048677 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,15 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. The length can't be trusted, so
+            //grow as elements are extracted rather than allocating space for them all up front.
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&element = vec.back();
+                *this >> element;
             }
             return *this;
         }
-- 
2.43.0


From 1d1a44457a1a995fcfca1b14585a7f3ab9683f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 02/56] fix: Clear maps before extracting into them

Extracting a map or unordered_map into a non-empty one kept the old entries, and
for keys present in both kept the old values. Strings and vectors are replaced.
---
 include/frnetlib/Packet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 9048677..07e2887 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -176,6 +176,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
@@ -216,6 +217,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
-- 
2.43.0


From b8fd2add491cb785bc778df0bf2a9982bc4c9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 03/56] fix: Prevent packet cursor arithmetic from overflowing

set_cursor() and seek_cursor() with arguments near the limits of their types
wrapped around and left the cursor before the packet's data, and
assert_bytes_remaining() (and so extract_raw()) accepted huge sizes.
---
 include/frnetlib/Packet.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 07e2887..643e3d6 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -6,6 +6,7 @@
 #define FRNETLIB_PACKET_H
 #include <string>
 #include <cstring>
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -648,8 +649,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = PACKET_HEADER_LENGTH + std::min(pos, size());
         }
 
         /*!
@@ -671,12 +671,12 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            const auto cursor = static_cast<ssize_t>(get_cursor());
+            if(pos < -cursor)
+                pos = -cursor;
+            if(pos > static_cast<ssize_t>(size()) - cursor)
+                pos = static_cast<ssize_t>(size()) - cursor;
+            buffer_read_index = PACKET_HEADER_LENGTH + static_cast<size_t>(cursor + pos);
         }
 
         /*!
@@ -700,7 +700,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(buffer_read_index > buffer.size() || required_space > buffer.size() - buffer_read_index)
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 05aadc20cbbd98949b3a5b3da0d3abaecf3fd070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 04/56] fix: Never extract an invalid bool from a packet

A received byte other than 0 or 1 was copied straight into the bool, which is
undefined behaviour: such a value can be neither true nor false.
---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 643e3d6..009d088 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -270,7 +270,7 @@ namespace fr
         {
             assert_bytes_remaining(sizeof(var));
 
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
+            var = buffer[buffer_read_index] != 0;
             buffer_read_index += sizeof(var);
             return *this;
         }
-- 
2.43.0


From eddb0f8517b66f7aa72b0e1ab959f3d77cfa9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 05/56] fix: Replace a packet's old content when receiving into
 it

Receiving into a packet that was used before left trailing bytes of a longer
previous message in place and kept the old read cursor, so the received packet
did not hold what was sent.
---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 009d088..e5a92e1 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -777,8 +777,8 @@ namespace fr
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
             //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From a02b65ea508b1657d89be9dabc863e340e67790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 06/56] fix: Don't mask a WebSocket frame's own payload when
 sending it

---
 include/frnetlib/WebFrame.h | 2 +-
 src/WebFrame.cpp            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..4d9d276 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -68,14 +68,17 @@ namespace fr
             mask_union.mask_key = ++current_mask_key;
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
-            //Encode the payload using the mask key
+            //Append the payload, encoded using the mask key. The frame's own payload is left as it is.
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer.push_back(static_cast<char>(payload[a] ^ mask_union.str_mask_key[a % 4]));
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 3cc10883bba779a51d4dff696e00b7192db4fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 07/56] fix: Use the 16 bit length form for a 65535 byte
 WebSocket payload

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 4d9d276..18d7c51 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From 5af51883d215aca9812475bd2bd2e6161966f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 08/56] fix: INVALID_SOCKET is -1 on UNIX, 0 is a valid
 descriptor

---
 include/frnetlib/NetworkEncoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..bcdc300 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
-- 
2.43.0


From b6bd311d090a73eae14c00cae420106f4234d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 09/56] fix: Close the descriptor of every connection attempt
 which fails, and of a connection being replaced

---
 src/TcpSocket.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..0a6b2d5 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -123,6 +123,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //Drop any connection that's already open, it's being replaced
+        close_socket();
+
         //Query remote address information
         if((ret = getaddrinfo(address.c_str(), port.c_str(), &hints, &info)) != 0)
         {
@@ -134,6 +137,9 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Discard the socket of a previous entry which didn't work out
+            close_socket();
+
             //Get the socket for this entry
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
@@ -183,11 +189,17 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            close_socket();
             return Socket::Status::Error;
+        }
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 9c432a610613a706992c290e2dd941bbdf7ba275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 10/56] fix: Don't carry the blocking mode of one connection
 over to the next

---
 src/TcpSocket.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 0a6b2d5..67945d8 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -106,6 +106,12 @@ namespace fr
             return;
         }
         socket_descriptor = *static_cast<int32_t*>(descriptor);
+#ifndef _WIN32
+        int flags = fcntl(socket_descriptor, F_GETFL, 0);
+        is_blocking = flags < 0 || !(flags & O_NONBLOCK);
+#else
+        is_blocking = true;
+#endif
         reconfigure_socket();
     }
 
@@ -200,6 +206,7 @@ namespace fr
             close_socket();
             return Socket::Status::Error;
         }
+        is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From d19bab81ba524ab8e03bdfacc1028407261f8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 11/56] fix: Close a socket's connection when another one is
 accepted into it

---
 src/TcpSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 67945d8..e46fdf8 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -105,7 +105,10 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            close_socket(); //Drop any connection that's already open, it's being replaced
+        socket_descriptor = new_descriptor;
 #ifndef _WIN32
         int flags = fcntl(socket_descriptor, F_GETFL, 0);
         is_blocking = flags < 0 || !(flags & O_NONBLOCK);
-- 
2.43.0


From 6fcba3df1db0a9bd357d9946f27bb9c4cc48659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 12/56] fix: Wait for connections with poll, select can't
 handle large descriptors

---
 src/TcpSocket.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index e46fdf8..0898c5d 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,7 +2,12 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -175,13 +180,21 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
+            auto wait_for = timeout.count() == 0 ? std::chrono::seconds(DEFAULT_SOCKET_TIMEOUT) : timeout;
+#ifdef _WIN32
             timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+            tv.tv_sec = static_cast<long>(wait_for.count());
             tv.tv_usec = 0;
             fd_set set = {};
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#else
+            pollfd poll_fd = {};
+            poll_fd.fd = socket_descriptor;
+            poll_fd.events = POLLOUT;
+            ret = poll(&poll_fd, 1, static_cast<int>(std::min<int64_t>(wait_for.count(), std::numeric_limits<int>::max() / 1000) * 1000));
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From 89006e8721bec1eca63551f09d370e2082c2cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 13/56] fix: Close the listener's descriptor exactly once when
 listening fails or starts over

---
 src/TcpListener.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..2eabe78 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -34,6 +34,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //Stop listening if we already are, the old descriptor is being replaced
+        close_socket();
+
         if(getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
         {
             return Socket::Status::AddressLookupFailure;
@@ -43,6 +46,9 @@ namespace fr
         addrinfo *c = nullptr;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Discard the socket of a previous result which didn't work out
+            close_socket();
+
             //Attempt to connect
             if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) == INVALID_SOCKET)
             {
@@ -72,7 +78,6 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
                 continue;
             }
             break;
@@ -84,6 +89,7 @@ namespace fr
         //Check that we've actually bound
         if(c == nullptr)
         {
+            close_socket();
             return Socket::Status::BindFailed;
         }
 
@@ -91,6 +97,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 63074b88fb70b75af16cb57b4162d25cf394aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 14/56] fix: A moved from TcpListener no longer owns the
 descriptor

---
 include/frnetlib/TcpListener.h | 2 +-
 src/TcpListener.cpp            | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..fc71114 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,7 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept;
 
     /*!
      * Listens to the given port for connections
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index 2eabe78..4cc3fd3 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -18,6 +18,13 @@ namespace fr
 
     }
 
+    TcpListener::TcpListener(TcpListener &&o) noexcept
+            : Listener(o),
+              socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1; //It's ours now
+    }
+
     TcpListener::~TcpListener()
     {
         close_socket();
-- 
2.43.0


From aeb620cd1fa8a66efa3f5a7e490bcfa2100c425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 15/56] fix: Allow sockets which have disconnected or
 reconnected to be removed from a selector

---
 src/SocketSelector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..70f494e 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,11 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If the socket has since been disconnected then the kernel has already dropped it, and its
+        //old descriptor may belong to another socket by now. So only touch it if it's still the one we added.
+        if(socket->get_socket_descriptor() == iter->second.descriptor
+           && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0
+           && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 012adbe2a3232d5f90dc367047508fc0653f3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 16/56] fix: End a HTTP header at its first empty line,
 whatever its line endings

---
 include/frnetlib/Http.h | 10 ++++++++++
 src/Http.cpp            | 17 +++++++++++++++++
 src/HttpRequest.cpp     | 12 +++---------
 src/HttpResponse.cpp    | 12 +++---------
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..4890b30 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -383,6 +383,16 @@ namespace fr
          */
         static std::vector<std::string> split_string(const std::string &str, char token = '\n', bool strip_spacing = false);
 
+        /*!
+         * Finds the empty line which ends a HTTP header. Lines may end with either CRLF or LF.
+         *
+         * @param data The data to search
+         * @param header_end Set to the length of the header, excluding its last line ending
+         * @param body_begin Set to the position of the first byte after the empty line
+         * @return True if the end of the header was found, false otherwise.
+         */
+        static bool find_header_end(const std::string &data, size_t &header_end, size_t &body_begin);
+
         /*!
          * Converts a parameter list to a vector pair.
          * i.e: ?bob=10&fish=hey
diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..9086d11 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -231,6 +231,23 @@ namespace fr
         return list;
     }
 
+    bool Http::find_header_end(const std::string &data, size_t &header_end, size_t &body_begin)
+    {
+        for(size_t line_end = data.find('\n'); line_end != std::string::npos; line_end = data.find('\n', line_end + 1))
+        {
+            size_t next = line_end + 1;
+            if(next < data.size() && data[next] == '\r')
+                ++next;
+            if(next < data.size() && data[next] == '\n')
+            {
+                header_end = (line_end > 0 && data[line_end - 1] == '\r') ? line_end - 1 : line_end;
+                body_begin = next + 1;
+                return true;
+            }
+        }
+        return false;
+    }
+
     void Http::parse_header_line(const std::string &str)
     {
         size_t colon_pos = str.find(':');
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..201d253 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -26,14 +26,8 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Check to see if this request data contains the end of the header
-            uint16_t header_end_size = 4;
-            auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
-            {
-                header_end = body.find("\n\n");
-                header_end_size = 2;
-            }
-            header_ended = header_end != std::string::npos;
+            size_t header_end = 0, body_begin = 0;
+            header_ended = find_header_end(body, header_end, body_begin);
 
             //Ensure that the header doesn't exceed max length
             if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
@@ -50,7 +44,7 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Leave things after the header intact
-            body.erase(0, header_end + header_end_size);
+            body.erase(0, body_begin);
         }
 
         //Ensure that body doesn't exceed maximum length
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..969f85a 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -19,14 +19,8 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Check to see if this request data contains the end of the header
-            uint16_t header_end_size = 4;
-            auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
-            {
-                header_end = body.find("\n\n");
-                header_end_size = 2;
-            }
-            header_ended = header_end != std::string::npos;
+            size_t header_end = 0, body_begin = 0;
+            header_ended = find_header_end(body, header_end, body_begin);
 
             //Ensure that the header doesn't exceed max length
             if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
@@ -43,7 +37,7 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Leave things after the header intact
-            body.erase(0, header_end + header_end_size);
+            body.erase(0, body_begin);
         }
 
         //Ensure that body doesn't exceed maximum length
-- 
2.43.0


From 94e41adcf343031baba5be54acf502ba40f35f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 17/56] fix: Don't refuse a HTTP header of the maximum size
 when its end arrives in pieces

---
 src/HttpRequest.cpp  | 4 ++--
 src/HttpResponse.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 201d253..8157ccf 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -29,8 +29,8 @@ namespace fr
             size_t header_end = 0, body_begin = 0;
             header_ended = find_header_end(body, header_end, body_begin);
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes of the header's end might've arrived already.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 969f85a..f3b487e 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -22,8 +22,8 @@ namespace fr
             size_t header_end = 0, body_begin = 0;
             header_ended = find_header_end(body, header_end, body_begin);
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes of the header's end might've arrived already.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From 45be7ddd71ae7fde107e8d1286c5b371f50b7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 18/56] fix: A request URI may contain "HTTP", it ends at the
 version

---
 src/HttpRequest.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 8157ccf..5c80aff 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -194,16 +194,15 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind(" HTTP");
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin > uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
-        --uri_end;
 
         //Parse GET variables
         auto get_begin = str.find('?');
-        if(get_begin != std::string::npos)
+        if(get_begin < uri_end)
         {
             auto get_vars = parse_argument_list(str.substr(get_begin, uri_end - get_begin));
             for(auto &c : get_vars)
-- 
2.43.0


From 72ff7efa1d7d9897a19689516ba213c6214f88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 19/56] fix: Refuse request methods which merely begin with a
 known one

---
 src/HttpRequest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 5c80aff..a460d1c 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -186,7 +186,9 @@ namespace fr
         auto type_end = str.find(' ');
         if(type_end != std::string::npos)
         {
-            return string_to_request_type(str.substr(0, type_end));
+            auto type = string_to_request_type(str.substr(0, type_end));
+            if(request_type_to_string(type).size() == type_end) //It must be the whole word, not just begin with it
+                return type;
         }
         return Http::RequestType::Unknown;
     }
-- 
2.43.0


From 1fcd97a4f30bc8475e3e526abaac61dd96a3f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 20/56] fix: An empty header is not a valid HTTP request

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index a460d1c..1a04b72 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -72,7 +72,7 @@ namespace fr
             size_t line = 0;
             std::vector<std::string> header_lines = split_string(body.substr(0, (unsigned long)header_end_pos));
             if(header_lines.empty())
-                return true;
+                return false;
 
             //Parse request type & uri
             request_type = parse_header_type(header_lines[line]);
-- 
2.43.0


From 5a737ca73dc96aca9b2fa78dc874ecb04fd74c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 21/56] fix: A request's body ends at its content length

---
 src/HttpRequest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 1a04b72..6acf296 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -47,6 +47,10 @@ namespace fr
             body.erase(0, body_begin);
         }
 
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
         {
-- 
2.43.0


From 501ef21358255d2ef31cc1f526f9022faf2daad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 22/56] fix: An argument without a value doesn't swallow the
 following arguments

---
 src/Http.cpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 9086d11..0d1fe49 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -197,35 +197,23 @@ namespace fr
         if(str.empty())
             return list;
 
+        //Ignore any trailing line endings
+        size_t str_size = str.find_last_not_of("\r\n");
+        if(str_size == std::string::npos)
+            return list;
+        ++str_size;
+
         size_t read_index = 0;
         if(str.front() == '?')
             read_index++;
 
-        while(true)
+        while(read_index < str_size)
         {
-            unsigned long equal_pos;
-            equal_pos = str.find('=', read_index);
-            if(equal_pos != std::string::npos)
-            {
-                unsigned long and_pos;
-                and_pos = str.find('&', read_index);
-                if(and_pos >= str.size())
-                {
-                    size_t str_size = str.size();
-                    while(str[str_size - 1] == '\n' || str[str_size - 1] == '\r')
-                        --str_size;
-                    list.emplace_back(str.substr(read_index, equal_pos - read_index), str.substr(equal_pos + 1, str_size - equal_pos - 1));
-                    break;
-                }
-
+            size_t and_pos = std::min(str.find('&', read_index), str_size);
+            size_t equal_pos = str.find('=', read_index);
+            if(equal_pos < and_pos)
                 list.emplace_back(str.substr(read_index, equal_pos - read_index), str.substr(equal_pos + 1, and_pos - equal_pos - 1));
-                    read_index = and_pos + 1;
-
-            }
-            else
-            {
-                break;
-            }
+            read_index = and_pos + 1;
         }
 
         return list;
-- 
2.43.0


From 9a4ffb70f6e724d0b34a7588959395f2bc2a3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 23/56] fix: Keep headers with an empty value, skip tabs before
 a value

---
 src/Http.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 0d1fe49..8f6a866 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -243,9 +243,9 @@ namespace fr
             return;
 
         unsigned long data_begin;
-        data_begin = str.find_first_not_of(' ', colon_pos + 1);
+        data_begin = str.find_first_not_of(" \t", colon_pos + 1);
         if(data_begin == std::string::npos)
-            return;
+            data_begin = str.size();
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0


From 344517be2c69e6199938a6e80ae8f966691e607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 24/56] fix: Announce the content length of form arguments, and
 only once

---
 src/HttpRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 6acf296..5869556 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -132,7 +132,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
@@ -145,7 +145,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(header_data.find("content-length") == header_data.end() && (!body.empty() || !post_string.empty()))
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From d665bb332461955ee6ebf87b0bb299082c915e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 25/56] fix: A HTTP response must begin with a version and a
 three digit status

---
 src/HttpResponse.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index f3b487e..45b4857 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -126,8 +126,16 @@ namespace fr
             auto status_begin = header_lines[0].find(' ');
             if(status_begin == std::string::npos)
                 return false;
-            auto end_pos = header_lines[0].find(' ', status_begin + 1);
-            status = (RequestStatus)std::stoi(header_lines[0].substr(status_begin, end_pos - status_begin));
+            auto status_end = header_lines[0].find_first_of(" \r", status_begin + 1);
+            auto status_string = header_lines[0].substr(status_begin + 1, std::min(status_end, header_lines[0].size()) - status_begin - 1);
+            if(status_string.size() != 3 || status_string.find_first_not_of("0123456789") != std::string::npos)
+                return false;
+            status = (RequestStatus)std::stoi(status_string);
+
+            //The status must be preceded by a version
+            if(header_lines[0].compare(0, 5, "HTTP/") != 0 || status_begin == 5
+               || header_lines[0].find_first_not_of("0123456789.", 5) != status_begin)
+                return false;
 
             //Get HTTP version
             static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
-- 
2.43.0


From cc63543d43295a4b435593ce24cc5fdf5f7127d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:33 +0000
Subject: [PATCH 26/56] fix: Decode every chunked body within the limits, never
 throwing on malformed ones

---
 include/frnetlib/HttpResponse.h |  9 ++++
 src/HttpResponse.cpp            | 93 +++++++++++++++++++++++----------
 2 files changed, 73 insertions(+), 29 deletions(-)

diff --git a/include/frnetlib/HttpResponse.h b/include/frnetlib/HttpResponse.h
index f91c802..6869117 100644
--- a/include/frnetlib/HttpResponse.h
+++ b/include/frnetlib/HttpResponse.h
@@ -47,10 +47,19 @@ namespace fr
          */
         bool parse_header(size_t header_end_pos);
 
+        /*!
+         * Decodes as much of a chunked body as has been received so far
+         *
+         * @return 'Success' if the whole body has been decoded. 'NotEnoughData' if more
+         * is needed. Anything else on error.
+         */
+        fr::Socket::Status parse_chunks();
+
         //State
         bool header_ended{false};
         size_t content_length{0};
         size_t chunk_offset{0};
+        bool last_chunk{false};
     };
 }
 
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 45b4857..939add6 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -40,46 +40,81 @@ namespace fr
             body.erase(0, body_begin);
         }
 
+        //Check if chunked encoding
+        if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+            return parse_chunks();
+
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(body.size() > content_length && header_data.find("content-length") != header_data.end())
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
             return fr::Socket::Status::HttpBodyTooBig;
 
-        //Check if chunked encoding
-        if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+        return body.size() < content_length ? fr::Socket::Status::NotEnoughData : fr::Socket::Status::Success;
+    }
+
+    fr::Socket::Status HttpResponse::parse_chunks()
+    {
+        //The first 'chunk_offset' bytes of the body have been decoded, everything after it is yet to be
+        while(true)
         {
-            //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
-            while(chunk_len > 0 && chunk_offset < body.size())
+            //Find the line with the length of the chunk in hex, or if it was the last chunk, the next trailer
+            auto line_end = body.find("\r\n", chunk_offset);
+            if(line_end == std::string::npos)
+            {
+                if(body.size() - chunk_offset > MAX_HTTP_HEADER_SIZE)
+                    return fr::Socket::Status::ParseError;
+                return fr::Socket::Status::NotEnoughData;
+            }
+
+            if(last_chunk)
             {
-                auto length_end = body.find("\r\n", chunk_offset);
-                if(length_end == std::string::npos)
-                    return fr::Socket::Status::NotEnoughData;
-                std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
-
-                //If the current chunk hasn't fully been received yet then ask for more data
-                if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
-                    return fr::Socket::Status::NotEnoughData;
-
-                //Now we have the full chunk, erase the padding \r\n
-                body.erase(chunk_offset + hex_length.size() + chunk_len + 2, 2); //delete \r\n after chunk
-                body.erase(chunk_offset, hex_length.size() + 2); //delete both hex length and following \r\n
-                chunk_offset += chunk_len;
+                //Trailers are ignored, and end with an empty line. Nothing after that's part of the body.
+                if(line_end == chunk_offset)
+                {
+                    body.resize(chunk_offset);
+                    return fr::Socket::Status::Success;
+                }
+                body.erase(chunk_offset, line_end + 2 - chunk_offset);
+                continue;
+            }
+
+            //Any extension following the length is ignored
+            auto length_end = std::min(body.find_first_not_of("0123456789abcdefABCDEF", chunk_offset), line_end);
+            auto extension = std::min(body.find_first_not_of(" \t", length_end), line_end);
+            if(length_end == chunk_offset || (extension != line_end && body[extension] != ';'))
+                return fr::Socket::Status::ParseError;
+
+            //Ensure that the chunk doesn't take the body over its maximum length
+            size_t chunk_len = 0;
+            for(size_t a = chunk_offset; a < length_end; ++a)
+            {
+                char c = body[a];
+                chunk_len = chunk_len * 16 + (c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
+                if(chunk_len > MAX_HTTP_BODY_SIZE - chunk_offset)
+                    return fr::Socket::Status::HttpBodyTooBig;
             }
 
-            //If this chunk is 0, we have everything!
             if(chunk_len == 0)
-                return fr::Socket::Status::Success;
-            return fr::Socket::Status::NotEnoughData;
-        }
+            {
+                body.erase(chunk_offset, line_end + 2 - chunk_offset);
+                last_chunk = true;
+                continue;
+            }
 
-        //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
-            body.resize(content_length);
-        else if(body.size() < content_length)
-            return fr::Socket::Status::NotEnoughData;
-        return fr::Socket::Status::Success;
+            //If the current chunk hasn't fully been received yet then ask for more data
+            if(body.size() - line_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
+                return fr::Socket::Status::NotEnoughData;
+            if(body.compare(line_end + 2 + chunk_len, 2, "\r\n") != 0)
+                return fr::Socket::Status::ParseError;
 
+            //Now we have the full chunk, erase everything around it
+            body.erase(line_end + 2 + chunk_len, 2); //delete \r\n after chunk
+            body.erase(chunk_offset, line_end + 2 - chunk_offset); //delete the length line before it
+            chunk_offset += chunk_len;
+        }
     }
 
     std::string HttpResponse::construct(const std::string &host) const
-- 
2.43.0


From 56e033af0faac7db70d42f050d1a7f851ecedd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 27/56] fix: Decode lower case percent escapes, leave truncated
 and invalid ones alone

---
 src/Http.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 8f6a866..e8d40ad 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -168,16 +168,10 @@ namespace fr
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            if(str[a] == '%' && a + 2 < str.size() && isxdigit((uint8_t)str[a + 1]) && isxdigit((uint8_t)str[a + 2]))
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
-                if(ch1 > 9) ch1 -= 7;
-                if(ch2 > 9) ch2 -= 7;
-                uint8_t ret = 0;
-                ret |= ch1 << 4;
-                ret |= ch2;
-                result.push_back(ret);
+                result.push_back((char)std::stoi(str.substr(a + 1, 2), nullptr, 16));
+                a += 2;
             }
             else if(str[a] == '+')
             {
-- 
2.43.0


From 9c3c9cac273af247aab53c4a7c8f5915f6e6e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 28/56] fix: Recognise ftp URLs, and use port 22 for sftp ones

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..939a873 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -84,7 +84,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From 96523280b02ac8af42633554776e7a584e0f0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 29/56] fix: A new URL has an unknown scheme instead of an
 uninitialised one

---
 include/frnetlib/URL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
-- 
2.43.0


From 9d31ec194abf09d324f8117a68c1447174e62632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 30/56] fix: Split URLs at the delimiters of each part,
 whatever was parsed before

---
 src/URL.cpp | 90 ++++++++++++++++++++---------------------------------
 1 file changed, 34 insertions(+), 56 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 939a873..3bfabec 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,46 +29,40 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
-        size_t pos = 0;
 
-        //Check to see if a scheme exists
-        pos = url.find("://");
-        if(pos != std::string::npos)
+        //Check to see if a scheme exists, "://" may also occur in a path, query or fragment
+        size_t pos = url.find("://");
+        if(pos < url.find_first_of("/?#"))
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
-        //Check to see if there's a port
-        pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        //The host and port end where the path, query or fragment begins. Colons in an IPv6 host are inside of brackets.
+        size_t host_end = std::min(url.find_first_of("/?#", parse_offset), url.size());
+        size_t port_begin = url.find(':', url.compare(parse_offset, 1, "[") == 0 ? url.find(']', parse_offset) : parse_offset);
+        if(port_begin < host_end) //A port is provided
         {
-            //Store host
-            host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            host = url.substr(parse_offset, port_begin - parse_offset);
+            port = url.substr(port_begin + 1, host_end - port_begin - 1);
+            parse_offset = host_end;
         }
-        else //There's no port
+        else if(parse_offset != 0 || host_end != url.size()) //A lone word is a path
         {
-            //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
-            {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
-            }
+            host = url.substr(parse_offset, host_end - parse_offset);
+            parse_offset = host_end;
+        }
 
-            //Guess port based on scheme, if it's not explicitly provided.
+        //Guess port based on scheme, if it's not explicitly provided.
+        if(port.empty())
+        {
             switch(scheme)
             {
                 case URL::HTTP:
@@ -91,41 +85,25 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
-        //Extract the path
-        pos = url.find('?', parse_offset);
+        //Extract the fragment, then the query before it, and then the path before that
+        size_t path_end = url.size();
+        pos = url.find('#', parse_offset);
         if(pos != std::string::npos)
         {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
+            fragment = url.substr(pos + 1);
+            path_end = pos;
         }
 
-        //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
+        pos = url.find('?', parse_offset);
+        if(pos < path_end)
         {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
+            query = url.substr(pos + 1, path_end - pos - 1);
+            path_end = pos;
         }
 
+        path = url.substr(parse_offset, path_end - parse_offset);
+        if(!path.empty() && path.front() != '/')
+            path.insert(0, "/");
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From 3918f39f3e3da2a68add4e43d40507098cfc67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 31/56] fix: A URL with nothing but a host can be parsed back

---
 include/frnetlib/URL.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index eafdf46..8b08756 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -167,7 +167,8 @@ namespace fr
             std::string ret;
             if(!get_host().empty())
             {
-                if(scheme != Scheme::Unknown)
+                //A host on its own needs a scheme, else it'd be taken for a path
+                if(scheme != Scheme::Unknown || (get_port().empty() && get_uri().empty()))
                     ret.append(scheme_to_string(scheme)).append("://");
                 ret.append(get_host());
                 if(!get_port().empty())
-- 
2.43.0


From 766c95cc4f3b5cf11ad5b070b630b83395ad24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 32/56] fix: Encode empty and single byte strings as base64

---
 src/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..f66eb90 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
@@ -27,7 +27,7 @@ namespace fr
         if(a < input.size())
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store first 6 bits of the first byte
-            if(a == input.size() - 2) //There's 2 bytes left
+            if(a + 2 == input.size()) //There's 2 bytes left
             {
                 out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store last 2 bits of first byte, and first 4 bits of second byte
                 out += base64_table[(input[a + 1] & 0xF) << 2]; //Finally store the last 4 bits of the second byte
-- 
2.43.0


From b6b13f12c022a1d63387106c6b428381fe874df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 33/56] fix: Don't mask the close frame which a WebSocket
 server sends

---
 include/frnetlib/WebSocket.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..6fc107c 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -20,6 +20,7 @@ namespace fr
     {
     public:
         WebSocket()
+        : server_side(false)
         {}
 
         /*!
@@ -36,6 +37,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            server_side = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -105,10 +107,15 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
-            frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
+            {
+                //Only clients mask their frames
+                ClientWebFrame client_frame;
+                ServerWebFrame server_frame;
+                WebFrame &frame = server_side ? static_cast<WebFrame&>(server_frame) : client_frame;
+                frame.set_opcode(WebFrame::Opcode::Disconnect);
                 SocketType::send(frame);
+            }
             SocketType::close_socket();
         }
 
@@ -121,6 +128,7 @@ namespace fr
          */
         void set_descriptor(void *descriptor) override
         {
+            server_side = true;
             SocketType::set_descriptor(descriptor);
             if(!descriptor || SocketType::get_socket_descriptor() == -1)
                 return;
@@ -142,6 +150,9 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             SocketType::send(response);
         }
+
+    private:
+        bool server_side; //Are we the server's end of the connection, or the client's?
     };
 }
 
-- 
2.43.0


From d19ad57df29393dbf108fb2f3dacf8746f6bb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 34/56] fix: Don't swallow WebSocket frames which arrive right
 behind the handshake

---
 include/frnetlib/WebSocket.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 6fc107c..f4edfa2 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -65,7 +65,7 @@ namespace fr
 
             //Receive the response
             HttpResponse response;
-            status = SocketType::receive(response);
+            status = receive_handshake(response);
             if(status != Socket::Status::Success)
                 return status;
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
@@ -135,7 +135,7 @@ namespace fr
 
             //Initialise connection, receive the handshake
             HttpRequest request;
-            if(SocketType::receive(request) != Socket::Status::Success)
+            if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
@@ -152,6 +152,27 @@ namespace fr
         }
 
     private:
+        /*!
+         * Receives the other side's part of the handshake, and nothing
+         * beyond it: whatever follows is the first WebFrame.
+         *
+         * @param message Where to store the received HTTP message
+         * @return The status of the operation
+         */
+        Socket::Status receive_handshake(Http &message)
+        {
+            Socket::Status status;
+            do
+            {
+                char byte;
+                size_t received = 0;
+                status = SocketType::receive_raw(&byte, 1, received);
+                if(status == Socket::Status::Success)
+                    status = message.parse(&byte, received);
+            } while(status == Socket::Status::NotEnoughData || status == Socket::Status::WouldBlock);
+            return status;
+        }
+
         bool server_side; //Are we the server's end of the connection, or the client's?
     };
 }
-- 
2.43.0


From 42ce580c43c46184c1568a8820dce43bdd33a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 35/56] fix: Close the connection when a WebSocket handshake
 fails

---
 include/frnetlib/WebSocket.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index f4edfa2..95b61f2 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -61,16 +61,22 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = receive_handshake(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
-                disconnect();
+                SocketType::close_socket();
                 errno = EPROTO;
                 return Socket::Status::HandshakeFailed;
             }
@@ -79,7 +85,7 @@ namespace fr
             std::string derived_key = response.header("sec-websocket-accept");
             if(derived_key != Base64::encode(Sha1::sha1_digest(websocket_key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")))
             {
-                disconnect();
+                SocketType::close_socket();
                 errno = EPROTO;
                 return Socket::Status::HandshakeFailed;
             }
@@ -136,10 +142,16 @@ namespace fr
             //Initialise connection, receive the handshake
             HttpRequest request;
             if(receive_handshake(request) != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Failed to receive WebSock handshake");
+            }
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
+            }
 
             //Calculate the derived key, then send back our response
             std::string derived_key = Base64::encode(Sha1::sha1_digest(request.header("sec-websocket-key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
-- 
2.43.0


From a0df332a3b5e1ae3445b52e603adf0dde6e9e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 36/56] fix: Don't accept a WebSocket connection whose
 handshake couldn't be answered

---
 include/frnetlib/WebSocket.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 95b61f2..4b04642 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -160,7 +160,11 @@ namespace fr
             response.header("Upgrade") = "websocket";
             response.header("Connection") = "Upgrade";
             response.header("Sec-WebSocket-Accept") = derived_key;
-            SocketType::send(response);
+            if(SocketType::send(response) != Socket::Status::Success)
+            {
+                SocketType::close_socket();
+                throw std::runtime_error("Failed to send WebSock handshake");
+            }
         }
 
     private:
-- 
2.43.0


From 15e8f9ab3bb63711d7e486137049abf7d93d7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 37/56] fix: Compare the Upgrade header of a WebSocket
 handshake case insensitively

---
 include/frnetlib/WebSocket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 4b04642..f53d12c 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,6 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
+#include <algorithm>
 #include <ctime>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -147,7 +148,9 @@ namespace fr
                 throw std::runtime_error("Failed to receive WebSock handshake");
             }
 
-            if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            std::string upgrade = request.header("Upgrade");
+            std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
+            if(upgrade != "websocket" || request.get_type() != Http::RequestType::Get)
             {
                 SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
-- 
2.43.0


From f6f80eb58aaecabd482b2c7f62ea6f656237bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 38/56] fix: Use a random 16 byte key for each WebSocket
 handshake

---
 include/frnetlib/WebSocket.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index f53d12c..c952ec3 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -6,7 +6,7 @@
 #define FRNETLIB_WEBSOCKET_H
 
 #include <algorithm>
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -44,7 +44,7 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            std::string websocket_key = Base64::encode(generate_nonce());
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
@@ -171,6 +171,20 @@ namespace fr
         }
 
     private:
+        /*!
+         * Generates the random 16 bytes which the key of a handshake must consist of
+         *
+         * @return The bytes
+         */
+        static std::string generate_nonce()
+        {
+            std::random_device device;
+            std::string nonce(16, '\0');
+            for(auto &byte : nonce)
+                byte = static_cast<char>(device());
+            return nonce;
+        }
+
         /*!
          * Receives the other side's part of the handshake, and nothing
          * beyond it: whatever follows is the first WebFrame.
-- 
2.43.0


From 5b2a98633946a0dfdf494819cb0077f31c6e328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 39/56] fix: resume a TLS send from the sent counter

SSLSocket::send_raw zeroed the counter, so retrying after WouldBlock, as everything built on send_raw does, sent the
records which had already gone out a second time.
---
 include/frnetlib/SSLSocket.h | 1 +
 src/SSLSocket.cpp            | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 322d205..edc64e1 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -33,6 +33,7 @@ namespace fr
          * @note If this returns WouldBlock, you must call this function again with the *same* arguments.
          * @param data The data to send.
          * @param size The number of bytes, from data to send. Be careful not to overflow.
+         * @param sent How many bytes have been sent so far. You must zero this, prior to calling send_raw the first time.
          * @return The status of the operation:
          * 'WouldBlock' if no data has been received, and the socket is in non-blocking mode or the operation has timed out
          * 'SSLError' An SSL error has occurred.
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..164b075 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From 0e455f375045bc13b13aa890dc51a018df42489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 40/56] fix: report zero bytes when a TLS receive fails

The count was left as the caller had it, and receive_all() adds it up.
---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 164b075..848762e 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -94,6 +94,7 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
+        received = 0;
         ssize_t status = 0;
         if(receive_timeout == 0)
         {
-- 
2.43.0


From 3da20cb5cbd05ce7af80848390babe5d384b8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 41/56] fix: tell an interrupted TLS read or write from a
 timeout

mbedtls_net_send/recv report an interrupted call as WANT_READ/WANT_WRITE, which a blocking SSLSocket passes on as
Timeout, and the expiry of a socket timeout as a failure of the connection.
---
 include/frnetlib/SSLSocket.h |  8 ++++++++
 src/SSLListener.cpp          |  2 +-
 src/SSLSocket.cpp            | 30 +++++++++++++++++++++++++++++-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index edc64e1..604fa35 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -127,6 +127,14 @@ namespace fr
             return is_blocking;
         }
 
+        /*!
+         * Transport callbacks for mbedtls, to be passed to mbedtls_ssl_set_bio() with a mbedtls_net_context. Unlike
+         * mbedtls_net_send/recv, an interrupted call is retried, and the expiry of a socket timeout is reported as
+         * WANT_WRITE/WANT_READ on a blocking socket too.
+         */
+        static int transport_send(void *ctx, const unsigned char *data, size_t size);
+        static int transport_receive(void *ctx, unsigned char *data, size_t size);
+
         /*!
          * Checks to see if we're connected to a socket or not
          *
diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..bd1ae3e 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -114,7 +114,7 @@ namespace fr
 
 
         //SSL Handshake
-        mbedtls_ssl_set_bio(ssl.get(), client_fd.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), client_fd.get(), SSLSocket::transport_send, SSLSocket::transport_receive, nullptr);
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 848762e..0a2c2b7 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -37,6 +37,34 @@ void web_free(mbedtls_net_context *ctx)
 
 namespace fr
 {
+    int SSLSocket::transport_send(void *ctx, const unsigned char *data, size_t size)
+    {
+        auto *net = static_cast<mbedtls_net_context *>(ctx);
+        while(true)
+        {
+            auto status = ::send(net->fd, (const char*)data, size, 0);
+            if(status >= 0)
+                return static_cast<int>(status);
+            if(errno == EINTR)
+                continue; //try again, interrupted before anything could be sent
+            return errno == EWOULDBLOCK ? MBEDTLS_ERR_SSL_WANT_WRITE : MBEDTLS_ERR_NET_SEND_FAILED;
+        }
+    }
+
+    int SSLSocket::transport_receive(void *ctx, unsigned char *data, size_t size)
+    {
+        auto *net = static_cast<mbedtls_net_context *>(ctx);
+        while(true)
+        {
+            auto status = ::recv(net->fd, (char*)data, size, 0);
+            if(status >= 0)
+                return static_cast<int>(status);
+            if(errno == EINTR)
+                continue; //try again, interrupted before anything could be received
+            return errno == EWOULDBLOCK ? MBEDTLS_ERR_SSL_WANT_READ : MBEDTLS_ERR_NET_RECV_FAILED;
+        }
+    }
+
     SSLSocket::SSLSocket(std::shared_ptr<SSLContext> ssl_context_) noexcept
     :  ssl_context(std::move(ssl_context_)),
        ssl_socket_descriptor(nullptr, web_free),
@@ -199,7 +227,7 @@ namespace fr
             return Socket::Status::SSLError;
         }
 
-        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), transport_send, transport_receive, nullptr);
 
         //Do SSL handshake
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
-- 
2.43.0


From e69482d973d058d7cf50f253b76f3443d218207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 42/56] fix: report would-block and a closed connection from a
 TLS receive

A non-blocking receive span until data arrived, and the peer closing the connection properly was reported as an SSL
error. The unreachable receive_timeout path, which handed the SSL context to mbedtls_net_recv_timeout, goes too: the
timeout is a socket option.
---
 include/frnetlib/SSLSocket.h |  1 -
 src/SSLSocket.cpp            | 64 ++++++------------------------------
 2 files changed, 10 insertions(+), 55 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 604fa35..7dd288c 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -155,7 +155,6 @@ namespace fr
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
-        uint32_t receive_timeout;
         bool is_blocking;
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 0a2c2b7..88f14de 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -70,7 +70,6 @@ namespace fr
        ssl_socket_descriptor(nullptr, web_free),
        ssl(nullptr, ssl_free),
        should_verify(true),
-       receive_timeout(0),
        is_blocking(true)
     {
         //Initialise mbedtls structures
@@ -123,66 +122,23 @@ namespace fr
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
         received = 0;
-        ssize_t status = 0;
-        if(receive_timeout == 0)
+        int status = mbedtls_ssl_read(ssl.get(), (unsigned char *)data, data_size);
+        if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
         {
-            do
-            {
-                status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
-                    {
-                        if(is_blocking)
-                        {
-                            return Socket::Status::Timeout;
-                        }
-                        continue;
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            return Socket::Status::Disconnected;
         }
-        else
+        if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
         {
-            do
-            {
-                status = mbedtls_net_recv_timeout(ssl.get(), (unsigned char *)data, data_size, receive_timeout);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_TIMEOUT)
-                    {
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ)
-                    {
-                        continue; //try again, interrupted before anything could be received
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            return is_blocking ? Socket::Status::Timeout : Socket::Status::WouldBlock;
+        }
+        if(status < 0)
+        {
+            errno = status;
+            return Socket::Status::SSLError;
         }
-
 
         received = static_cast<size_t>(status);
         return Socket::Status::Success;
-
     }
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
-- 
2.43.0


From 6fca12161a0ac8e97d7bfc1cd3ccfefff53fc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 43/56] fix: apply receive and send timeouts to TLS sockets

set_receive_timeout() and set_send_timeout() had no effect on an SSLSocket.
---
 src/SSLSocket.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 88f14de..0f1e264 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -251,6 +251,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
@@ -259,6 +270,10 @@ namespace fr
         //Apply receive timeout
         DWORD timeout_dword = static_cast<DWORD>(get_receive_timeout());
         setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&timeout_dword, sizeof timeout_dword);
+
+        //Apply send timeout
+        timeout_dword = static_cast<DWORD>(get_send_timeout());
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&timeout_dword, sizeof timeout_dword);
 #endif
     }
 
-- 
2.43.0


From 1949b6062bd2dfb1cfa52b37e3a018a8eacd801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 44/56] fix: switch TLS sockets between blocking and
 non-blocking

set_blocking() made the descriptor blocking whatever it was asked for, crashed when not connected, and the mode was
remembered for the next connection, which is always blocking.
---
 src/SSLSocket.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 0f1e264..f5d760b 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -157,6 +157,7 @@ namespace fr
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
+            is_blocking = true;
         }
 
         //Initialise SSL data structures
@@ -218,6 +219,7 @@ namespace fr
     void SSLSocket::set_descriptor(void *descriptor)
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
+        is_blocking = true;
         if(descriptor)
             reconfigure_socket();
     }
@@ -229,7 +231,12 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        if(!connected())
+        {
+            return fr::Socket::Status::SSLError;
+        }
+
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From 307787edd7c236f299129406036c03990aef9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 45/56] fix: close a TLS socket whose handshake or verification
 failed

connect() left the descriptor open and connected() true, so data could be sent to the unverified peer.
---
 src/SSLSocket.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index f5d760b..9c96d5d 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -153,7 +153,10 @@ namespace fr
             fr::TcpSocket socket;
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
+            {
+                close_socket();
                 return ret;
+            }
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
@@ -162,10 +165,14 @@ namespace fr
 
         //Initialise SSL data structures
         int error = 0;
+        auto fail = [&](Socket::Status status) {
+            close_socket();
+            errno = error;
+            return status;
+        };
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
-            errno = error;
-            return Socket::Status::SSLError;
+            return fail(Socket::Status::SSLError);
         }
 
         mbedtls_ssl_conf_authmode(&conf, should_verify ? MBEDTLS_SSL_VERIFY_REQUIRED : MBEDTLS_SSL_VERIFY_NONE);
@@ -174,14 +181,12 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
-            errno = error;
-            return Socket::Status::SSLError;
+            return fail(Socket::Status::SSLError);
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
-            errno = error;
-            return Socket::Status::SSLError;
+            return fail(Socket::Status::SSLError);
         }
 
         mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), transport_send, transport_receive, nullptr);
@@ -191,8 +196,7 @@ namespace fr
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
             {
-                errno = error;
-                return Socket::Status::SSLError;
+                return fail(Socket::Status::SSLError);
             }
         }
 
@@ -201,7 +205,7 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
-                return Socket::Status::VerificationFailed;
+                return fail(Socket::Status::VerificationFailed);
             }
         }
 
-- 
2.43.0


From fd62968607984c6e0e5b9551c8599150e1ed8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 46/56] fix: keep a TLS listener's configuration alive for the
 connections it accepted

An accepted SSLSocket used the listener's configuration, certificate and key after the listener had been destroyed.
A constructor which throws no longer leaks them either.
---
 include/frnetlib/SSLListener.h | 20 +++++++++++++++-----
 include/frnetlib/SSLSocket.h   |  4 +++-
 src/SSLListener.cpp            | 30 +++++++++++++++++++++---------
 src/SSLSocket.cpp              |  3 ++-
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/include/frnetlib/SSLListener.h b/include/frnetlib/SSLListener.h
index 1a428b6..39e748e 100644
--- a/include/frnetlib/SSLListener.h
+++ b/include/frnetlib/SSLListener.h
@@ -82,12 +82,22 @@ namespace fr
         int32_t get_socket_descriptor() const override;
 
     private:
-        mbedtls_net_context listen_fd;
-        mbedtls_ssl_config conf;
-        mbedtls_x509_crt srvcert;
-        mbedtls_pk_context pkey;
+        //What the connections made by the listener depend on, kept alive by each of them.
+        struct Credentials
+        {
+            explicit Credentials(std::shared_ptr<SSLContext> ssl_context);
+            ~Credentials();
+            Credentials(const Credentials &) = delete;
+            void operator=(const Credentials &) = delete;
+
+            mbedtls_ssl_config conf;
+            mbedtls_x509_crt srvcert;
+            mbedtls_pk_context pkey;
+            std::shared_ptr<SSLContext> ssl_context;
+        };
 
-        std::shared_ptr<SSLContext> ssl_context;
+        mbedtls_net_context listen_fd;
+        std::shared_ptr<Credentials> credentials;
     };
 
 }
diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 7dd288c..7ac5a0f 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -80,8 +80,9 @@ namespace fr
          * Set the SSL context
          *
          * @param context The SSL context to use
+         * @param dependency Something the SSL context refers to, such as its configuration, to be kept alive along with it
          */
-        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context);
+        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> dependency = nullptr);
 
         /*!
          * Sets if the socket should verify the endpoints
@@ -152,6 +153,7 @@ namespace fr
 
         std::shared_ptr<SSLContext> ssl_context;
         std::unique_ptr<mbedtls_net_context, decltype(&mbedtls_net_free)> ssl_socket_descriptor;
+        std::shared_ptr<void> ssl_dependency;
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index bd1ae3e..69c97f8 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -15,14 +15,29 @@
 
 namespace fr
 {
-    SSLListener::SSLListener(std::shared_ptr<SSLContext> ssl_context_, const std::string &pem_path, const std::string &private_key_path)
+    SSLListener::Credentials::Credentials(std::shared_ptr<SSLContext> ssl_context_)
             : ssl_context(std::move(ssl_context_))
     {
-        //Initialise SSL objects required
-        listen_fd.fd = -1;
         mbedtls_ssl_config_init(&conf);
         mbedtls_x509_crt_init(&srvcert);
         mbedtls_pk_init(&pkey);
+    }
+
+    SSLListener::Credentials::~Credentials()
+    {
+        mbedtls_x509_crt_free(&srvcert);
+        mbedtls_pk_free(&pkey);
+        mbedtls_ssl_config_free(&conf);
+    }
+
+    SSLListener::SSLListener(std::shared_ptr<SSLContext> ssl_context_, const std::string &pem_path, const std::string &private_key_path)
+            : credentials(std::make_shared<Credentials>(std::move(ssl_context_)))
+    {
+        //Initialise SSL objects required
+        listen_fd.fd = -1;
+        auto &conf = credentials->conf;
+        auto &srvcert = credentials->srvcert;
+        auto &pkey = credentials->pkey;
 
         int error = 0;
 
@@ -46,7 +61,7 @@ namespace fr
         {
             throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
-        mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
+        mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &credentials->ssl_context->ctr_drbg);
         mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
 
         //Apply loaded certs
@@ -61,9 +76,6 @@ namespace fr
     SSLListener::~SSLListener()
     {
         close_socket();
-        mbedtls_x509_crt_free(&srvcert);
-        mbedtls_pk_free(&pkey);
-        mbedtls_ssl_config_free(&conf);
         mbedtls_net_free(&listen_fd);
     }
 
@@ -97,7 +109,7 @@ namespace fr
         mbedtls_ssl_init(ssl.get());
         mbedtls_net_init(client_fd.get());
         auto free_contexts = [&](){mbedtls_ssl_free(ssl.get()); mbedtls_net_free(client_fd.get());};
-        if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
+        if((error = mbedtls_ssl_setup(ssl.get(), &credentials->conf)) != 0)
         {
             free_contexts();
             return Socket::Status::Error;
@@ -141,7 +153,7 @@ namespace fr
             strcpy(client_printable_addr, "unknown");
         }
 
-        client.set_ssl_context(std::move(ssl));
+        client.set_ssl_context(std::move(ssl), credentials);
         client.set_descriptor(client_fd.release());
         client.set_remote_address(client_printable_addr);
         return Socket::Status::Success;
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 9c96d5d..eb2f84c 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -215,9 +215,10 @@ namespace fr
         return Socket::Status::Success;
     }
 
-    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context)
+    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> dependency)
     {
         ssl.reset(context.release());
+        ssl_dependency = std::move(dependency);
     }
 
     void SSLSocket::set_descriptor(void *descriptor)
-- 
2.43.0


From 88ea3e80d9075f836cdd2b37ce67ad89f5b4f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 47/56] fix: load PEM certificates from memory

load_ca_certs_from_memory() refused every PEM certificate, as mbedtls wants the terminator counted.
---
 include/frnetlib/SSLContext.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..f094e2b 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -57,7 +57,8 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            //The size has to include the terminator, or it isn't recognised as PEM
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size() + 1) == 0;
         }
 
         /*!
-- 
2.43.0


From 5a8e88c4f192528550b4a1233dd92b74f2c93c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 48/56] fix: honour the IP version chosen for a TLS socket

set_inet_version() had no effect on SSLSocket::connect().
---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index eb2f84c..c7b67de 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -151,6 +151,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? IP::v4 : ai_family == AF_INET6 ? IP::v6 : IP::any);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
             {
-- 
2.43.0


From 9b8df6ac306a7ea25269d4d47054b7b385e31dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 49/56] fix: list each file extension of the MIME table on its
 own

---
 src/Http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index e8d40ad..21a7bfa 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -315,7 +315,7 @@ namespace fr
                 {".s", "text/x-asm"},
                 {".atomcat", "application/atomcat+xml"},
                 {".atomsvc", "application/atomsvc+xml"},
-                {".atom, .xml", "application/atom+xml"},
+                {".atom", "application/atom+xml"},
                 {".ac", "application/pkix-attr-cert"},
                 {".aif", "audio/x-aiff"},
                 {".avi", "video/x-msvideo"},
@@ -536,8 +536,8 @@ namespace fr
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
                 {".jpm", "video/jpm"},
-                {".jpeg, .jpg", "image/jpeg"},
-                {".jpeg, .jpg", "image/x-citrix-jpeg"},
+                {".jpeg", "image/jpeg"},
+                {".jpg", "image/jpeg"},
                 {".pjpeg", "image/pjpeg"},
                 {".jpgv", "video/jpeg"},
                 {".ktz", "application/vnd.kahootz"},
@@ -814,7 +814,7 @@ namespace fr
                 {".rtf", "application/rtf"},
                 {".rtx", "text/richtext"},
                 {".link66", "application/vnd.route66.link66+xml"},
-                {".rss, .xml", "application/rss+xml"},
+                {".rss", "application/rss+xml"},
                 {".shf", "application/shf+xml"},
                 {".st", "application/vnd.sailingtracker.track"},
                 {".svg", "image/svg+xml"},
-- 
2.43.0


From f5d65810bf683373189a0f1d97fdf670e832679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 50/56] fix: well-formed media types for .ccxml and .java

---
 src/Http.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 21a7bfa..95f470e 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -531,7 +531,7 @@ namespace fr
                 {".class", "application/java-vm"},
                 {".jnlp", "application/x-java-jnlp-file"},
                 {".ser", "application/java-serialized-object"},
-                {".java", "text/x-java-source,java"},
+                {".java", "text/x-java-source"},
                 {".js", "application/javascript"},
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
@@ -915,7 +915,7 @@ namespace fr
                 {".vtu", "model/vnd.vtu"},
                 {".vis", "application/vnd.visionary"},
                 {".viv", "video/vnd.vivo"},
-                {".ccxml", "application/ccxml+xml,"},
+                {".ccxml", "application/ccxml+xml"},
                 {".vxml", "application/voicexml+xml"},
                 {".src", "application/x-wais-source"},
                 {".wbxml", "application/vnd.wap.wbxml"},
-- 
2.43.0


From 8811cf5958c31c122115b72c1168f42aaef453db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 51/56] fix: only the start of a method name is a partial
 request type

---
 include/frnetlib/Http.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 4890b30..9a4593f 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -338,13 +338,10 @@ namespace fr
             for(size_t a = 0; a < (uint32_t)Http::RequestType::RequestTypeCount; ++a)
             {
                 std::string type_string = request_type_to_string(static_cast<RequestType>(a));
-                int cmp_ret = str.compare(0, type_string.size(), type_string);
-                if(cmp_ret == 0)
+                if(str.compare(0, type_string.size(), type_string) == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
-                if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
-                    type = Http::RequestType::Unknown;
             }
 
             return type;
-- 
2.43.0


From 1cc7d94dde57dbabc36fd9ea28f02c5f9eb0e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 52/56] fix: Don't truncate the timeout of a selector's wait to
 an int

---
 src/SocketSelector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 70f494e..c7a2220 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -2,6 +2,8 @@
 // Created by fred on 09/12/16.
 //
 
+#include <algorithm>
+#include <limits>
 #include <thread>
 #include <mutex>
 #include "frnetlib/SocketSelector.h"
@@ -56,7 +58,10 @@ namespace fr
     SocketSelector::wait(std::chrono::milliseconds timeout)
     {
         static thread_local epoll_event events[100];
-        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count());
+        //The timeout may be longer than what the kernel can be asked for
+        typedef std::chrono::milliseconds::rep rep;
+        auto wait_for = std::max<rep>(-1, std::min<rep>(timeout.count(), std::numeric_limits<int>::max()));
+        int event_count = epoll_wait(epoll_fd, events, 100, static_cast<int>(wait_for));
         if(event_count < 0)
         {
             if(errno == EINTR)
-- 
2.43.0


From b31c1f67844d1249fa30bc1e533ca3f4fc66e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 53/56] fix: Draw the mask key of each WebSocket frame from a
 source of entropy

---
 include/frnetlib/WebFrame.h | 1 -
 src/WebFrame.cpp            | 5 ++---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..04fc43b 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -129,7 +129,6 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 18d7c51..38233f7 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -2,13 +2,12 @@
 // Created by fred on 01/03/18.
 //
 
+#include <random>
 #include "frnetlib/WebFrame.h"
 #include "frnetlib/WebSocket.h"
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
-
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
       final(true)
@@ -65,7 +64,7 @@ namespace fr
                 char str_mask_key[4];
             } mask_union{};
 
-            mask_union.mask_key = ++current_mask_key;
+            mask_union.mask_key = std::random_device{}();
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
             //Append the payload, encoded using the mask key. The frame's own payload is left as it is.
-- 
2.43.0


From 53f77c4bee2659b271a1b7f9cacb5f45a5c31d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 54/56] fix: Drop the TLS session together with the descriptor
 it uses

---
 src/SSLSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index c7b67de..a2d9e83 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -224,6 +224,8 @@ namespace fr
 
     void SSLSocket::set_descriptor(void *descriptor)
     {
+        if(!descriptor)
+            ssl = nullptr; //It reads from and writes to the descriptor which is about to go
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
         is_blocking = true;
         if(descriptor)
-- 
2.43.0


From 4ba31d8673bc6ac91ea60e86c291beefa98f093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 55/56] fix: Report why an SSLListener couldn't listen

---
 src/SSLListener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 69c97f8..625edb2 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -86,9 +86,10 @@ namespace fr
         mbedtls_net_init(&listen_fd);
         fr::TcpListener tcp_listen;
         tcp_listen.set_inet_version(ai_family);
-        if(tcp_listen.listen(port) != fr::Socket::Status::Success)
+        auto ret = tcp_listen.listen(port);
+        if(ret != fr::Socket::Status::Success)
         {
-            return Socket::Status::BindFailed;
+            return ret;
         }
 
         listen_fd.fd = tcp_listen.get_socket_descriptor();
-- 
2.43.0


From 53b6dce49a2c667f53f4527119c466a5907ec7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 56/56] fix: Keep waiting for a connection when a signal
 interrupts the wait

---
 src/TcpSocket.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 0898c5d..70f5b3e 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -193,7 +193,15 @@ namespace fr
             pollfd poll_fd = {};
             poll_fd.fd = socket_descriptor;
             poll_fd.events = POLLOUT;
-            ret = poll(&poll_fd, 1, static_cast<int>(std::min<int64_t>(wait_for.count(), std::numeric_limits<int>::max() / 1000) * 1000));
+            auto wait_ms = std::chrono::milliseconds(std::min<int64_t>(wait_for.count(), std::numeric_limits<int>::max() / 1000) * 1000);
+            auto wait_start = std::chrono::steady_clock::now();
+            auto remaining = wait_ms;
+            do
+            {
+                ret = poll(&poll_fd, 1, static_cast<int>(remaining.count()));
+                //If it was interrupted then keep waiting for whatever's left of the timeout
+                remaining = wait_ms - std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - wait_start);
+            } while(ret < 0 && errno == EINTR && remaining.count() > 0);
 #endif
             if(ret <= 0)
                 continue;
-- 
2.43.0

