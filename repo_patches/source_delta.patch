From 10fedda8e94a81584816feb996a30aa21bb0b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 01/30] fix: handle pipelined requests and send one reply at a
 time

One read could deliver several requests, but only the first one was handled
until more data arrived. A reply was also being sent while the next request
appended to the same send buffer, which duplicated and interleaved bytes
whenever the socket could not take the whole reply at once.
---
 src/server/socket_stream.h | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..fab1447 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,6 +62,9 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
+        /// handle all the complete requests in the receive buffer, one reply at a time
+        void process_received() noexcept;
+
         /// start asynchronous send of the send buffer
         void async_send_all() noexcept;
 
@@ -148,18 +151,7 @@ namespace cachelot { namespace net {
                 slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->process_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -170,6 +162,29 @@ namespace cachelot { namespace net {
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::process_received() noexcept {
+        ConversationReply reply; size_t unread;
+        do {
+            // one read may deliver several (pipelined) requests
+            unread = m_recv_buf.non_read();
+            reply = handle_data(m_recv_buf, m_send_buf);
+        } while (reply == READ_MORE && m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < unread);
+        m_recv_buf.compact();
+        switch (reply) {
+        case SEND_REPLY_AND_READ:
+            // continue with the rest of the data when reply is sent
+            async_send_all();
+            break;
+        case READ_MORE:
+            async_receive_some();
+            break;
+        case CLOSE_IMMEDIATELY:
+            break;
+        }
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
@@ -180,6 +195,11 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    if (self->m_recv_buf.non_read() > 0) {
+                        self->process_received();
+                    } else {
+                        self->async_receive_some();
+                    }
                 }
             });
     }
-- 
2.43.0


From dfb31d22047d9bd32764d5227e13d2d1273e4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 02/30] fix: keep the IO buffer intact when it cannot grow

A failing realloc leaves the old block allocated, but the pointer to it was
overwritten with null while the capacity and positions were kept.
---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From 36672a5368065df7550e1b16ffadc4c3d5e57942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 03/30] fix: close the connection instead of terminating when a
 buffer cannot grow

Functions declared noexcept allocate memory and may exceed the maximal size of
an IO buffer: a 32 Mb line without CRLF or a failed allocation terminated the
server.
---
 src/server/memcached/proto_ascii.cpp | 6 ++++--
 src/server/memcached/proto_ascii.h   | 2 +-
 src/server/socket_stream.h           | 9 +++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..553bccf 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -124,7 +124,7 @@ namespace cachelot {
         #undef __DO_SERIALIZE_INTEGER_ASCII
 
 
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept {
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
             auto r_savepoint = recv_buf.read_savepoint();
             auto w_savepoint = send_buf.write_savepoint();
             try {
@@ -288,7 +288,9 @@ namespace cachelot {
             // read <value>\r\n
             if (recv_buf.non_read() < datalen + CRLF.length()) {
                 // help buffer to grow up to the necessary size
-                recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                try {
+                    recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                } catch (const std::exception &) { /* the connection is closed when the buffer is full and cannot grow */ }
                 throw system_error(error::incomplete_request);
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
diff --git a/src/server/memcached/proto_ascii.h b/src/server/memcached/proto_ascii.h
index 2f8ad45..9956175 100644
--- a/src/server/memcached/proto_ascii.h
+++ b/src/server/memcached/proto_ascii.h
@@ -18,7 +18,7 @@ namespace cachelot { namespace memcached {
     namespace ascii {
 
         /// Main function that process ascii protocol packets
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept;
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api);
 
     } // namespace ascii
 
diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index fab1447..87e8759 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -146,6 +146,7 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
+        try {
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 slice receive_result;
@@ -159,6 +160,10 @@ namespace cachelot { namespace net {
                     }
                 }
             });
+        } catch (const std::exception &) {
+            // out of memory or the request is larger than the buffer may be
+            close();
+        }
     }
 
 
@@ -189,6 +194,7 @@ namespace cachelot { namespace net {
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
         auto self = this->shared_from_this();
+        try {
         asio::async_write(m_socket, asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), asio::transfer_all(),
             [=](error_code error, size_t bytes_sent) {
                 if (not error) {
@@ -202,6 +208,9 @@ namespace cachelot { namespace net {
                     }
                 }
             });
+        } catch (const std::exception &) {
+            close();
+        }
     }
 
 
-- 
2.43.0


From 9758d687cbf88068260ce7467f6acf584727c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:40 +0000
Subject: [PATCH 04/30] fix: stay in step with the client after a rejected
 request

The data block of a rejected storage command (key too long, value too large,
bad flags, ...) was executed as commands, and an error in one request threw
away the pipelined requests behind it.
---
 src/server/memcached/proto_ascii.cpp | 42 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 553bccf..13b45ff 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -196,8 +196,10 @@ namespace cachelot {
                 if (syserr.code().category() == get_protocol_error_category()) {
                     // protocol error
                     send_buf << CLIENT_ERROR << SPACE << errmsg << CRLF;
-                    // ill-formed packet, swallow recv_buf data
-                    recv_buf.reset();
+                    if (syserr.code() == error::value_crlf_expected) {
+                        // where the next request begins is unknown, swallow recv_buf data
+                        recv_buf.reset();
+                    }
                     return net::SEND_REPLY_AND_READ;
                 } else {
                     // server error
@@ -207,8 +209,6 @@ namespace cachelot {
                         recv_buf.rollback_read_transaction(r_savepoint);
                         return net::READ_MORE;
                     case error::broken_request:
-                        // ill-formed packet, swallow recv_buf data
-                        recv_buf.read_all();
                         send_buf << ERROR << CRLF;
                         return net::SEND_REPLY_AND_READ;
                     case error::numeric_convert:
@@ -268,24 +268,14 @@ namespace cachelot {
 
 
         inline net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
-            slice key; tie(key, args) = parse_key(args);
+            slice key, ascii_flags, ascii_keep_alive;
             slice parsed;
+            tie(key, args) = args.split(SPACE);
+            tie(ascii_flags, args) = args.split(SPACE);
+            tie(ascii_keep_alive, args) = args.split(SPACE);
             tie(parsed, args) = args.split(SPACE);
-            cache::opaque_flags_type flags = str_to_int<cache::opaque_flags_type>(parsed.begin(), parsed.end());
-            tie(parsed, args) = args.split(SPACE);
-            auto keep_alive_duration = cache::seconds(str_to_int<cache::seconds::rep>(parsed.begin(), parsed.end()));
-            tie(parsed, args) = args.split(SPACE);
-            uint32 datalen = str_to_int<uint32>(parsed.begin(), parsed.end());
-            if (datalen > settings.cache.page_size) {
-                throw system_error(error::value_length);
-            }
-            cache::timestamp_type cas_unique = 0;
-            if (cmd == Command::CAS) {
-                tie(parsed, args) = args.split(SPACE);
-                cas_unique = str_to_int<cache::timestamp_type>(parsed.begin(), parsed.end());
-            }
-            bool noreply = maybe_noreply(args);
-            // read <value>\r\n
+            const size_t datalen = str_to_int<uint32>(parsed.begin(), parsed.end());
+            // read <value>\r\n first: it must not be treated as a command, even if the request is rejected
             if (recv_buf.non_read() < datalen + CRLF.length()) {
                 // help buffer to grow up to the necessary size
                 try {
@@ -300,6 +290,18 @@ namespace cachelot {
             } else {
                 throw system_error(error::value_crlf_expected);
             }
+            validate_key(key);
+            cache::opaque_flags_type flags = str_to_int<cache::opaque_flags_type>(ascii_flags.begin(), ascii_flags.end());
+            auto keep_alive_duration = cache::seconds(str_to_int<cache::seconds::rep>(ascii_keep_alive.begin(), ascii_keep_alive.end()));
+            if (datalen > settings.cache.page_size) {
+                throw system_error(error::value_length);
+            }
+            cache::timestamp_type cas_unique = 0;
+            if (cmd == Command::CAS) {
+                tie(parsed, args) = args.split(SPACE);
+                cas_unique = str_to_int<cache::timestamp_type>(parsed.begin(), parsed.end());
+            }
+            bool noreply = maybe_noreply(args);
             // create new item and execute the cache API
             auto new_item = cache_api.create_item(key, calc_hash(key), value.length(), flags, keep_alive_duration);
             new_item->assign_value(value);
-- 
2.43.0


From 2213df9267285d0ad12b2098dbfdd000269d7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 05/30] fix: reply to every UDP datagram separately

The frame header of a datagram which is not answered (noreply, malformed,
incomplete) stayed in the send buffer and spoiled the next reply. The next
datagram was also handled while the previous reply was being sent, mixing both
replies and sending them to the wrong client.
---
 src/server/socket_datagram.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..616e903 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -84,15 +84,19 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
+        // every datagram starts from the scratch
+        m_recv_buf.reset();
+        m_send_buf.reset();
         m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
                     try {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
+                            // receive the next datagram when the reply is sent
                             async_send_all(m_remote_endpoint);
+                            return;
                         }
-                        m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
                     if (error == io_error::operation_aborted) {
@@ -101,7 +105,6 @@ namespace cachelot { namespace net {
                     }
                 }
                 // we expect only one packet per datagram
-                m_recv_buf.read_all();
                 this->async_receive();
             });
     }
@@ -113,8 +116,7 @@ namespace cachelot { namespace net {
         m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), need_to_send), to,
             [=](error_code /*error*/, size_t /*bytes_sent*/) {
                 // even data was not sent completely
-                m_send_buf.confirm_read(need_to_send);
-                m_send_buf.compact();
+                this->async_receive();
             });
     }
 
-- 
2.43.0


From 5d6a0f2f17003a1829d891f5a50e93493e962033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 06/30] fix: receive UDP datagrams larger than 500 bytes

They were truncated to the initial size of the receive buffer.
---
 src/server/socket_datagram.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 616e903..e307e39 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -25,6 +25,7 @@ namespace cachelot { namespace net {
      */
     template <class SocketType>
     class datagram_server {
+        static constexpr size_t max_datagram_size = 64 * 1024;
         typedef SocketType socket_type;
         typedef typename socket_type::protocol_type protocol_type;
     public:
@@ -32,7 +33,7 @@ namespace cachelot { namespace net {
         explicit datagram_server(io_service & ios)
             : m_ios(ios)
             , m_socket(ios)
-            , m_recv_buf(default_min_buffer_size, default_max_buffer_size)
+            , m_recv_buf(max_datagram_size, default_max_buffer_size)
             , m_send_buf(default_min_buffer_size, default_max_buffer_size) {
         }
 
-- 
2.43.0


From 1838199794e69f95665beb0c42b9a1b02c00651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 07/30] fix: keep handling signals after SIGUSR1

Only the first signal was ever handled: after SIGUSR1 neither statistics could
be printed again nor the server be terminated with SIGTERM.
---
 src/server/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..3ff73e4 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -187,18 +187,21 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void (const error_code &, int)> on_signal;
+        on_signal = [&](const error_code& error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
+                signals.async_wait(on_signal);
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0


From 85475c434f983c406fb4165166b17fff52b9eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:53 +0000
Subject: [PATCH 08/30] fix: do not let a long lifetime wrap around the
 expiration clock

set_ttl() added the lifetime to the 32 bit clock without an overflow check, so
an item with a lifetime close to 2^32 seconds was expired right away.
---
 src/cachelot/item.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..0cb521d 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,7 +183,10 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                // the clock is 32 bit, do not wrap around when lifetime is too long
+                const auto now = clock::now();
+                const auto longest_ttl = expiration_time_point::max() - now - seconds(1);
+                m_expiration_time = now + std::min(s, longest_ttl);
             }
         }
 
-- 
2.43.0


From 181171b1a663b6db43d4fa2c3be53737ec97ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:09 +0000
Subject: [PATCH 09/30] fix: accept every 20 digit number up to 2^64-1

The overflow check compared the digits one by one, so numbers such as
10000000000000000009 were rejected.
---
 src/cachelot/string_conv.h | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..38e9ca0 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -219,6 +219,7 @@ namespace cachelot {
         inline uint64 str_to_big_unsigned(ConstIterator str, ConstIterator end, error_code & out_error) noexcept {
             // returned on error
             static constexpr uint64 NO_RESULT = std::numeric_limits<uint64>::max();
+            static const char max_uint64[] = "18446744073709551615";
 
             const auto length = end - str;
 
@@ -238,26 +239,7 @@ namespace cachelot {
             switch (length) {
                 case 20: // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    if (std::lexicographical_compare(max_uint64, max_uint64 + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-- 
2.43.0


From 3a52225cdaba8b58cb79db3127a87e5247f5f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:09 +0000
Subject: [PATCH 10/30] fix: keep the exact lifetime on append, prepend, incr
 and decr

The new item got the remaining whole seconds as its lifetime, counted from a
second reading of the clock. When the clock ticked in between, the lifetime grew
by a second, and a remainder of zero made the item immortal.
---
 src/cachelot/cache.h | 7 +++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..779ca72 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -519,7 +519,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -631,7 +632,9 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto expiration_time = old_item->expiration_time();
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
+            new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             replace_item_at(at, _item_uniq_ptr);
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 0cb521d..86ef002 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -109,6 +109,9 @@ namespace cachelot {
             /// set new time to live
             void set_ttl(seconds secs) noexcept;
 
+            /// set the moment when this item expires
+            void set_expiration_time(expiration_time_point when) noexcept { m_expiration_time = when; }
+
             /// check whether Item is expired
             bool is_expired() const noexcept { return m_expiration_time <= clock::now(); }
 
-- 
2.43.0


From 7cfa5556bb356f74cb9feea4b2f50000daf41732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:09 +0000
Subject: [PATCH 11/30] fix: incr and decr survive evictions caused by
 themselves

create_item() may evict items, the counter itself included, and evictions move
the hash table entries around. The position obtained before that call was then
used to replace whatever was there.
---
 src/cachelot/cache.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 779ca72..1fa65fa 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -637,7 +637,13 @@ namespace cachelot {
             new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            // old item might have been moved or evicted by the create_item()
+            tie(found, at) = m_dict.entry_for(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From 5d3572c8a62be6f32083f6c42f697a2fd33e03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 12/30] fix: find the right page in an arena beyond 4 gigabytes

The offset was truncated to 32 bits before it was divided by the page size.
---
 src/cachelot/memalloc-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..77f7dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -145,7 +145,7 @@ namespace cachelot {
         unsigned page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<unsigned>(static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size);
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 25710e6daf3694e6a762ca3d3d00ac913d6931bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 13/30] fix: refuse items that do not fit into the page along
 with the block header

Requests between (page size - header) and page size, and appends growing an item
beyond the page, overran the page or got a block of a truncated size.
---
 src/cachelot/cache.h        |  2 +-
 src/cachelot/memalloc-inl.h | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 1fa65fa..2122106 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -654,7 +654,7 @@ namespace cachelot {
                 throw system_error(error::key_too_long);
             }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > m_allocator.page_size - memalloc::header_size()) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index 77f7dad..1fd0728 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -731,7 +731,15 @@ namespace cachelot {
 
     template <typename ForeachFreed>
     inline void * memalloc::alloc_or_evict(const size_t requested_size, bool evict_if_necessary, ForeachFreed on_free_block) {
-        debug_assert(requested_size > 0); debug_assert(requested_size <= page_size);
+        debug_assert(requested_size > 0);
+        if (requested_size > page_size - block::header_size) {
+            // it's impossible to allocate more than the single page can hold
+            STAT_INCR(mem.num_malloc, 1);
+            STAT_INCR(mem.total_requested, requested_size);
+            STAT_INCR(mem.num_alloc_errors, 1);
+            STAT_INCR(mem.total_unserved, requested_size);
+            return nullptr;
+        }
         const auto size = static_cast<uint32>(requested_size);
 
         #if defined(ADDRESS_SANITIZER)
-- 
2.43.0


From f517763596f76b55b12debeabc7931ec2f851bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 14/30] fix: hash_table::insert returns position of the
 inserted entry

When the new entry displaced others, position of the last displaced one was
returned. While the table grows, dict took it for the position of the key it was
asked for and handed out a wrong item.
---
 src/cachelot/hash_table.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..1f5847d 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -190,12 +190,17 @@ namespace cachelot {
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached()); debug_assert(hash != 0);
             entry_type entry(key, value);
+            // where the new entry was placed
+            bool placed = false; size_type placed_at = pos;
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
             while (not empty_at(pos)) {
                 debug_assert( not eq(entry_at(pos).key(), entry.key()) ); // entry must be unique
                 const size_type existing_entry_distance = get_distance(pos, hash_at(pos));
                 if (existing_entry_distance < lookup_distance) {
+                    if (not placed) {
+                        placed = true; placed_at = pos;
+                    }
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
@@ -207,7 +212,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return placed ? placed_at : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From ca5884627b1f1f5bccfcba958455b455b38693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 15/30] fix: store keys with the zero hash value

Zero marks empty slots of the hash table, such items were lost and leaked.
---
 src/cachelot/dict.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..23e6715 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -102,7 +102,7 @@ namespace cachelot {
             void unsafe_replace_kv(const key_type k, const hash_type h, mapped_type v) noexcept {
                 debug_assert(*this);
                 entry_type new_entry(k, v);
-                debug_assert(m_table->hash_at(m_pos) == h); (void)h;
+                debug_assert(m_table->hash_at(m_pos) == nonzero(h)); (void)h;
                 m_table->entry_at(m_pos).swap(new_entry);
             }
 
@@ -118,6 +118,9 @@ namespace cachelot {
         static constexpr size_type default_initial_size = 16;
         typedef typename hash_table_type::entry_type entry;
 
+        /// zero marks empty slots of the hash_table, store such keys along with the ones of the next hash value
+        static constexpr hash_type nonzero(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
     public:
         /// constructor
         dict(const size_type initial_size = default_initial_size)
@@ -141,7 +144,8 @@ namespace cachelot {
         dict(dict &&) = default;
 
         /// @copydoc hash_table::get
-        tuple<bool, mapped_type> get(const key_type key, const hash_type hash) const noexcept {
+        tuple<bool, mapped_type> get(const key_type key, hash_type hash) const noexcept {
+            hash = nonzero(hash);
             if (not is_expanding()) {
                 return m_primary_tbl->get(key, hash);
             } else {
@@ -157,6 +161,7 @@ namespace cachelot {
 
         /// return either iterator referencing existing entry or pointer to insertion position
         tuple<bool, iterator> entry_for(key_type key, hash_type hash, bool readonly = false) {
+            hash = nonzero(hash);
             if (not is_expanding()) {
                 return search_primary(key, hash, readonly);
             } else {
@@ -167,6 +172,7 @@ namespace cachelot {
 
         /// insert new item at position obtained from entry_for() call
         iterator insert(iterator where, key_type key, hash_type hash, mapped_type value) noexcept {
+            hash = nonzero(hash);
             hash_table_type * table = where.m_table;
             debug_assert(raw_pointer(m_primary_tbl) == table ||  raw_pointer(m_secondary_tbl) == table);
             debug_assert(not table->contains(key, hash));
@@ -175,6 +181,7 @@ namespace cachelot {
 
         /// @copydoc hash_table::del
         bool del(key_type key, hash_type hash) noexcept {
+            hash = nonzero(hash);
             if (not is_expanding()) {
                 return m_primary_tbl->del(key, hash);
             } else {
@@ -206,6 +213,7 @@ namespace cachelot {
 
         /// @copydoc hash_table::contains
         bool contains(key_type key, hash_type hash) const noexcept {
+            hash = nonzero(hash);
             if (not is_expanding()) {
                 return m_primary_tbl->contains(key, hash);
             } else {
-- 
2.43.0


From 259a43b990b2fb2316c9f41b1edd7172bdb2382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 16/30] fix: keep the dict usable when it cannot grow

A bad_alloc thrown by new left the dict without the primary table.
---
 src/cachelot/dict.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 23e6715..d2c4d7e 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -295,17 +295,15 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            std::unique_ptr<hash_table_type> bigger_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not bigger_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(bigger_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 14827b23e6817eb10f267385fb32ea1770bae130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:46 +0000
Subject: [PATCH 17/30] fix: refuse zero as the initial hash table size

The first request crashed the process.
---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 2122106..20f8761 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -372,6 +372,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
-- 
2.43.0


From 2a0f73c5256cc659386e2bdc6a36d14df3e1d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:15 +0000
Subject: [PATCH 18/30] fix: refuse negative ports and memory amounts that
 overflow

-p -1 listened on the port 65535, -m 17592186044417 was taken for one megabyte.
---
 src/server/main.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index 3ff73e4..c291c70 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -51,10 +51,15 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            memory_amount = boost::lexical_cast<size_t>(s);
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
+        // lexical_cast takes negative numbers for big positive ones
+        if (s[0] == '-' || memory_amount > std::numeric_limits<size_t>::max() / units) {
+            throw po::invalid_option_value(s);
+        }
+        memory_amount *= units;
         if (memory_amount == 0) {
             throw invalid_configuration("zero memory amount");
         }
@@ -64,6 +69,22 @@ namespace  {
         arg = boost::any(po_memory{memory_amount});
     }
 
+    // wrapper for the port number options with validator
+    struct po_port { uint16 n; };
+    void validate(boost::any& arg, const std::vector<std::string>& values, po_port *, int) {
+        po::validators::check_first_occurrence(arg);
+        const auto s = po::validators::get_single_string(values);
+        // lexical_cast takes negative numbers for big positive ones
+        if (s[0] == '-') {
+            throw po::invalid_option_value(s);
+        }
+        try {
+            arg = boost::any(po_port{boost::lexical_cast<uint16>(s)});
+        } catch (const boost::bad_lexical_cast &) {
+            throw po::invalid_option_value(s);
+        }
+    }
+
     /// Command line arguments parser
     int parse_cmdline(int argc, const char * const argv[]) {
         po::options_description desc("Cachelot is lightning fast in-memory caching system\n"
@@ -71,8 +92,8 @@ namespace  {
         desc.add_options()
             ("help,h",                              "Produce this help message")
             ("version,V",                           "Print version and exit")
-            ("tcp-port,p",  po::value<uint16>(),    "TCP port (0 to disable TCP)")
-            ("udp-port,U",  po::value<uint16>(),    "UDP port (0 to disable UDP)")
+            ("tcp-port,p",  po::value<po_port>(),   "TCP port (0 to disable TCP)")
+            ("udp-port,U",  po::value<po_port>(),   "UDP port (0 to disable UDP)")
             ("socket,s",    po::value<string>(),    "Unix domain socket path (disabled by default)")
             ("socket_access,a", po::value<unsigned>(), "Access mask for the unix socket, in octal (default: 0700)")
             ("listen,l",    po::value<std::vector<string>>(),
@@ -107,11 +128,11 @@ namespace  {
             return EXIT_FAILURE;
         }
         if (varmap.count("tcp-port")) {
-            settings.net.TCP_port = varmap["tcp-port"].as<uint16>();
+            settings.net.TCP_port = varmap["tcp-port"].as<po_port>().n;
         }
         settings.net.has_TCP = settings.net.TCP_port != 0;
         if (varmap.count("udp-port")) {
-            settings.net.UDP_port = varmap["udp-port"].as<uint16>();
+            settings.net.UDP_port = varmap["udp-port"].as<po_port>().n;
         }
         settings.net.has_UDP = settings.net.UDP_port != 0;
         if (varmap.count("socket")) {
-- 
2.43.0


From 6e26f81ed184bfbf8c4ca8b34ed84ce7dcd750bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:38 +0000
Subject: [PATCH 19/30] fix: survive failed allocations in the event loop

A failed allocation in an asio operation left the acceptor or the UDP
socket without an outstanding operation or terminated the process.
---
 src/server/main.cpp          | 32 +++++++++++++++++++++++++++++---
 src/server/socket_datagram.h | 23 ++++++++++++++++++-----
 src/server/socket_stream.h   | 36 +++++++++++++++++++++---------------
 3 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index c291c70..e8ce351 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -209,27 +209,53 @@ int main(int argc, char * argv[]) {
         signals.add(SIGUSR1);
 #endif
         std::function<void (const error_code &, int)> on_signal;
+        bool waiting_for_signal = false;
         on_signal = [&](const error_code& error, int signal_number) {
+            waiting_for_signal = false;
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
                 signals.async_wait(on_signal);
+                waiting_for_signal = true;
                 break;
 #endif
             default:
                 reactor.stop();
             }
         };
-        signals.async_wait(on_signal);
+
+        // restart what was interrupted by the lack of memory
+        const auto resume = [&]() -> bool {
+            try {
+                if (not waiting_for_signal) {
+                    signals.async_wait(on_signal);
+                    waiting_for_signal = true;
+                }
+                if (memcached_tcp) { memcached_tcp->resume(); }
+                if (memcached_unix_socket) { memcached_unix_socket->resume(); }
+                if (memcached_udp) { memcached_udp->resume(); }
+                return true;
+            } catch (const std::bad_alloc &) {
+                return false;
+            }
+        };
 
         // Run reactor loop
         do {
-            reactor.run();
+            try {
+                if (resume()) {
+                    reactor.run();
+                } else {
+                    // try again later
+                    reactor.run_for(std::chrono::milliseconds(100));
+                }
+            } catch (const std::bad_alloc &) {
+                // only the connection being served is lost
+            }
         } while (not reactor.stopped());
 
-
         return EXIT_SUCCESS;
     } catch (const std::exception & e) {
         cerr << "Error: " << e.what() << endl;
diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index e307e39..125d86b 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -52,6 +52,14 @@ namespace cachelot { namespace net {
             m_socket.close(ignore_error);
         }
 
+        /// receive datagrams again if it was interrupted by the lack of memory
+        /// @note may throw `std::bad_alloc`
+        void resume() {
+            if (not m_active) {
+                async_receive();
+            }
+        }
+
         io_service & get_io_service() noexcept { return m_ios; }
 
     protected:
@@ -61,8 +69,8 @@ namespace cachelot { namespace net {
         virtual net::ConversationReply handle_data(io_buffer & recv_buf, io_buffer & send_buf) noexcept = 0;
 
     private:
-        void async_receive() noexcept;
-        void async_send_all(const typename protocol_type::endpoint to) noexcept;
+        void async_receive();
+        void async_send_all(const typename protocol_type::endpoint to);
 
     private:
         io_service & m_ios;
@@ -70,6 +78,7 @@ namespace cachelot { namespace net {
         io_buffer m_recv_buf;
         io_buffer m_send_buf;
         typename protocol_type::endpoint m_remote_endpoint;
+        bool m_active = false; // there is an outstanding operation
     };
 
 
@@ -84,12 +93,13 @@ namespace cachelot { namespace net {
 
 
     template <class SocketType>
-    inline void datagram_server<SocketType>::async_receive() noexcept {
+    inline void datagram_server<SocketType>::async_receive() {
         // every datagram starts from the scratch
         m_recv_buf.reset();
         m_send_buf.reset();
         m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
-            [=] (const error_code error, size_t bytes_recvd) noexcept {
+            [=] (const error_code error, size_t bytes_recvd) {
+                m_active = false;
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
                     try {
@@ -108,17 +118,20 @@ namespace cachelot { namespace net {
                 // we expect only one packet per datagram
                 this->async_receive();
             });
+        m_active = true;
     }
 
 
     template <class SocketType>
-    inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) noexcept {
+    inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) {
         auto need_to_send = m_send_buf.non_read();
         m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), need_to_send), to,
             [=](error_code /*error*/, size_t /*bytes_sent*/) {
                 // even data was not sent completely
+                m_active = false;
                 this->async_receive();
             });
+        m_active = true;
     }
 
 }} // namespace cachelot::net
diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 87e8759..e6576e3 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -119,6 +119,14 @@ namespace cachelot { namespace net {
             m_acceptor.close(__);
         }
 
+        /// accept connections again if accept was interrupted by the lack of memory
+        /// @note may throw `std::bad_alloc`
+        void resume() {
+            if (m_accepting.expired()) {
+                async_accept();
+            }
+        }
+
         io_service & get_io_service() noexcept { return m_ios; }
 
     private:
@@ -127,6 +135,7 @@ namespace cachelot { namespace net {
     private:
         io_service & m_ios;
         typename protocol_type::acceptor m_acceptor;
+        std::weak_ptr<void> m_accepting; // conversation waiting for the connection
     };
 
 
@@ -241,21 +250,18 @@ namespace cachelot { namespace net {
 
     template <class SocketType, class ImplType>
     inline void stream_server<SocketType, ImplType>::async_accept() {
-        try {
-            auto new_conversation = static_cast<ImplType *>(this)->new_conversation();
-            m_acceptor.async_accept(new_conversation->socket(),
-                [=](const error_code error) {
-                    if (not error) {
-                        new_conversation->start();
-                    }
-                    if (not m_ios.stopped()) {
-                        this->async_accept();
-                    }
-                });
-        } catch (const std::bad_alloc &) {
-            // retry later TODO: will m_ios.post throw ???
-            m_ios.post([=](){ this->async_accept(); });
-        }
+        auto new_conversation = static_cast<ImplType *>(this)->new_conversation();
+        m_acceptor.async_accept(new_conversation->socket(),
+            [=](const error_code error) {
+                m_accepting.reset();
+                if (not error) {
+                    new_conversation->start();
+                }
+                if (not m_ios.stopped()) {
+                    this->async_accept();
+                }
+            });
+        m_accepting = new_conversation;
     }
 
 
-- 
2.43.0


From 0f8abab27b381551f943f2b169fc29c2a3b9644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:56 +0000
Subject: [PATCH 20/30] fix: do not answer a request before it has arrived
 completely

A failed allocation while the exception about an incomplete request was
constructed got an error reply and left the connection out of step.
---
 src/server/memcached/proto_ascii.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 13b45ff..e418654 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -27,7 +27,7 @@ namespace cachelot {
         net::ConversationReply handle_retrieval_command(Command cmd, slice args, io_buffer & send_buf, cache::Cache & cache_api);
 
         /// Handle on of the: `add`, `set`, `replace`, `cas`, `append`, `prepend` commands
-        net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api);
+        net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer::read_savepoint_type r_savepoint, io_buffer & send_buf, cache::Cache & cache_api);
 
         /// Handle the `delete` command
         net::ConversationReply handle_delete_command(Command cmd, slice args, io_buffer & send_buf, cache::Cache & cache_api);
@@ -131,7 +131,7 @@ namespace cachelot {
                 // read command header <cmd> <key> <args...>\r\n
                 slice header = recv_buf.try_read_until(CRLF);
                 if (header.empty()) {
-                    throw system_error(error::incomplete_request);
+                    return net::READ_MORE;
                 }
                 debug_assert(header.endswith(CRLF));
                 header = header.rtrim_n(CRLF.length());
@@ -155,7 +155,7 @@ namespace cachelot {
                 case Command::PREPEND:
                 case Command::REPLACE:
                 case Command::SET:
-                    reply = handle_storage_command(command, args, recv_buf, send_buf, cache_api);
+                    reply = handle_storage_command(command, args, recv_buf, r_savepoint, send_buf, cache_api);
                     break;
                 // delete
                 case Command::DEL:
@@ -204,10 +204,6 @@ namespace cachelot {
                 } else {
                     // server error
                     switch (syserr.code().value()) {
-                    case error::incomplete_request:
-                        // rollback read position, start over when more data will come
-                        recv_buf.rollback_read_transaction(r_savepoint);
-                        return net::READ_MORE;
                     case error::broken_request:
                         send_buf << ERROR << CRLF;
                         return net::SEND_REPLY_AND_READ;
@@ -267,7 +263,7 @@ namespace cachelot {
         }
 
 
-        inline net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
+        inline net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer::read_savepoint_type r_savepoint, io_buffer & send_buf, cache::Cache & cache_api) {
             slice key, ascii_flags, ascii_keep_alive;
             slice parsed;
             tie(key, args) = args.split(SPACE);
@@ -281,7 +277,9 @@ namespace cachelot {
                 try {
                     recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
                 } catch (const std::exception &) { /* the connection is closed when the buffer is full and cannot grow */ }
-                throw system_error(error::incomplete_request);
+                // rollback read position, start over when more data will come
+                recv_buf.rollback_read_transaction(r_savepoint);
+                return net::READ_MORE;
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
             if (value.endswith(CRLF)) {
-- 
2.43.0


From 78e48a9c84c10cf3fc1fa1803648e069a4acd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:32 +0000
Subject: [PATCH 21/30] fix: C API tells failures from regular outcomes

Errors without a code of their own (std::bad_alloc, std::invalid_argument)
were reported as the code 0 which means success, and init, create_item, incr,
decr and flush_all left the result of some previous call in the error struct.
---
 src/cachelot/c_api.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..291bc00 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -15,7 +15,7 @@ using namespace cachelot;
 extern "C" {
 
     const uint32_t cachelot_infinite_TTL = cachelot::cache::Item::infinite_TTL.count();
-    static const int unknown_error_code = static_cast<int>(error::unknown_error);
+    static const int unknown_error_code = -1; // zero is a success
     static const char * unknown_error_category = "Unknown";
 
 
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From eee9db5a3966589bf6215e204cdfd42e817ea758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:06 +0000
Subject: [PATCH 22/30] fix: C API survives failed allocation of the error
 description

---
 src/cachelot/c_api.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index 291bc00..934a8cf 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -47,8 +47,13 @@ extern "C" {
         const auto & category = code.category();
         out_err->code = code.value();
         out_err->category = category.name();
-        auto desc = category.message(code.value());
-        strncpy((char *)out_err->desription, desc.c_str(), sizeof(CachelotError::desription));
+        try {
+            auto desc = category.message(code.value());
+            strncpy((char *)out_err->desription, desc.c_str(), sizeof(CachelotError::desription));
+        } catch (const std::exception &) {
+            // no memory for the text, code and category will do
+            out_err->desription[0] = '\0';
+        }
     }
 
     inline void std_exception_to_err_struct(const std::exception & err, CachelotError * out_err) noexcept {
-- 
2.43.0


From 434fa91da932496d3bc5188ac710f143bd55c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:37 +0000
Subject: [PATCH 23/30] fix: destroy the Cache that was moved from

---
 src/cachelot/dict.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index d2c4d7e..6b98fd3 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -208,7 +208,9 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            if (m_primary_tbl) { // dict may have been moved away
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From 2fe84c05b72943c6595fc487fdd2af9fe4184259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:00 +0000
Subject: [PATCH 24/30] fix: apply the access mask to the unix socket

---
 src/server/main.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e8ce351..b21b157 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -13,6 +13,9 @@
 #include <iostream>
 #include <boost/program_options.hpp>
 #include <signal.h>
+#if !defined(_MSC_VER)
+#  include <sys/stat.h> // chmod
+#endif
 
 using std::cerr;
 using std::endl;
@@ -85,6 +88,17 @@ namespace  {
         }
     }
 
+    // wrapper for the access mask option with validator
+    struct po_access { uint32 mask; };
+    void validate(boost::any& arg, const std::vector<std::string>& values, po_access *, int) {
+        po::validators::check_first_occurrence(arg);
+        const auto s = po::validators::get_single_string(values);
+        if (s.empty() || s.size() > 5 || s.find_first_not_of("01234567") != string::npos || std::stoul(s, nullptr, 8) > 0777) {
+            throw po::invalid_option_value(s);
+        }
+        arg = boost::any(po_access{static_cast<uint32>(std::stoul(s, nullptr, 8))});
+    }
+
     /// Command line arguments parser
     int parse_cmdline(int argc, const char * const argv[]) {
         po::options_description desc("Cachelot is lightning fast in-memory caching system\n"
@@ -95,7 +109,7 @@ namespace  {
             ("tcp-port,p",  po::value<po_port>(),   "TCP port (0 to disable TCP)")
             ("udp-port,U",  po::value<po_port>(),   "UDP port (0 to disable UDP)")
             ("socket,s",    po::value<string>(),    "Unix domain socket path (disabled by default)")
-            ("socket_access,a", po::value<unsigned>(), "Access mask for the unix socket, in octal (default: 0700)")
+            ("socket_access,a", po::value<po_access>(), "Access mask for the unix socket, in octal (default: 0700)")
             ("listen,l",    po::value<std::vector<string>>(),
                                                     "Interface to listen on (default: INADDR_ANY - all addresses)\n"
                                                     "<arg> may be specified as hostname[:port]. If port number is not specified,"
@@ -139,6 +153,9 @@ namespace  {
             settings.net.unix_socket = varmap["socket"].as<string>();
         }
         settings.net.has_unix_socket = not settings.net.unix_socket.empty();
+        if (varmap.count("socket_access")) {
+            settings.net.unix_socket_access = varmap["socket_access"].as<po_access>().mask;
+        }
         settings.cache.has_evictions = not varmap["oum-error"].as<bool>();
         settings.cache.has_CAS = not varmap["no-cas"].as<bool>();
         if (varmap.count("memory")) {
@@ -190,6 +207,11 @@ int main(int argc, char * argv[]) {
         if (settings.net.has_unix_socket) {
             memcached_unix_socket.reset(new memcached::UnixSocketServer(the_cache, reactor));
             memcached_unix_socket->start(settings.net.unix_socket);
+#if !defined(_MSC_VER)
+            if (::chmod(settings.net.unix_socket.c_str(), settings.net.unix_socket_access) != 0) {
+                throw system_error(errno, boost::system::system_category(), "unix socket access");
+            }
+#endif
         }
 
         // UDP
-- 
2.43.0


From 7b6891e4ff7ec034e472bed3edb96ffbde4870d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:17 +0000
Subject: [PATCH 25/30] fix: publish the current values before SIGUSR1 prints
 the statistics

---
 src/server/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index b21b157..93c297a 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -238,6 +238,7 @@ int main(int argc, char * argv[]) {
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
+                the_cache.publish_stats();
                 PrintStats();
                 signals.async_wait(on_signal);
                 waiting_for_signal = true;
-- 
2.43.0


From 73d8197021cf3c00d012e2765c011bc2d6df1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:33 +0000
Subject: [PATCH 26/30] fix: start again although the previous server left its
 unix socket behind

---
 src/server/main.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index 93c297a..f70701c 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -14,7 +14,8 @@
 #include <boost/program_options.hpp>
 #include <signal.h>
 #if !defined(_MSC_VER)
-#  include <sys/stat.h> // chmod
+#  include <sys/stat.h> // chmod, lstat
+#  include <unistd.h>   // unlink
 #endif
 
 using std::cerr;
@@ -99,6 +100,23 @@ namespace  {
         arg = boost::any(po_access{static_cast<uint32>(std::stoul(s, nullptr, 8))});
     }
 
+#if !defined(_MSC_VER)
+    /// Remove the unix socket which the previous server left behind: bind() doesn't take an existing path
+    /// Neither other files nor sockets someone is listening on are touched
+    void remove_stale_socket(net::io_service & reactor, const string & path) {
+        struct stat st;
+        if (::lstat(path.c_str(), &st) != 0 || not S_ISSOCK(st.st_mode)) {
+            return;
+        }
+        error_code error;
+        net::local::stream_protocol::socket probe(reactor);
+        probe.connect(net::local::stream_protocol::endpoint(path), error);
+        if (error == boost::asio::error::connection_refused) {
+            ::unlink(path.c_str());
+        }
+    }
+#endif
+
     /// Command line arguments parser
     int parse_cmdline(int argc, const char * const argv[]) {
         po::options_description desc("Cachelot is lightning fast in-memory caching system\n"
@@ -206,6 +224,9 @@ int main(int argc, char * argv[]) {
         std::unique_ptr<memcached::UnixSocketServer> memcached_unix_socket = nullptr;
         if (settings.net.has_unix_socket) {
             memcached_unix_socket.reset(new memcached::UnixSocketServer(the_cache, reactor));
+#if !defined(_MSC_VER)
+            remove_stale_socket(reactor, settings.net.unix_socket);
+#endif
             memcached_unix_socket->start(settings.net.unix_socket);
 #if !defined(_MSC_VER)
             if (::chmod(settings.net.unix_socket.c_str(), settings.net.unix_socket_access) != 0) {
-- 
2.43.0


From f123c9c7ca1b349c912edfdb55282b498c4bf29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:56 +0000
Subject: [PATCH 27/30] fix: find the page to evict without a search through
 all pages

---
 src/cachelot/memalloc-inl.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index 1fd0728..2c07858 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -124,16 +124,11 @@ namespace cachelot {
             // make it first to prolong its life
             lru_pages.remove(least_used);
             lru_pages.push_front(least_used);
-            // get
-            for (size_t page_no = 0; page_no < num_pages; ++page_no) {
-                if (least_used == &all_pages[page_no]) {
-                    uint8 * page_begin = arena_begin + (page_no * page_size);
-                    uint8 * page_end = page_begin + page_size;
-                    return make_tuple(page_begin, page_end);
-                }
-            }
-            debug_assert(false);
-            return tuple<uint8 *, uint8 *>(nullptr, nullptr);
+            const size_t page_no = static_cast<size_t>(least_used - &all_pages[0]);
+            debug_assert(page_no < num_pages);
+            uint8 * page_begin = arena_begin + (page_no * page_size);
+            uint8 * page_end = page_begin + page_size;
+            return make_tuple(page_begin, page_end);
         }
 
         /// check that address is within arena range
-- 
2.43.0


From c945b9502324baacb06834b288434445b162dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 28/30] fix: examine and move the received data once, whatever
 the number of segments

io_buffer looked for the end of line in the whole unread data and moved it
to the buffer's beginning on each arrival (and after each reply), so the work
was quadratic in the size of a request (or of a pipeline) that comes in pieces.
---
 src/server/io_buffer.h     | 18 +++++++++++++-----
 src/server/socket_stream.h |  3 ++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 9cb549f..cd47029 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -97,6 +97,7 @@ namespace cachelot {
         void rollback_read_transaction(const read_savepoint_type savepoint) noexcept {
             debug_assert(static_cast<size_t>(savepoint) <= m_read_pos);
             m_read_pos = static_cast<size_t>(savepoint);
+            m_search_pos = 0u;
             debug_assert(m_read_pos <= m_write_pos);
         }
 
@@ -108,13 +109,17 @@ namespace cachelot {
         /// search for `terminator` and return slice ending on `terminator` on success or empty slice otherwise
         slice try_read_until(const slice terminator) noexcept {
             debug_assert(terminator); debug_assert(m_read_pos <= m_write_pos);
-            slice search_range(m_data + m_read_pos, non_read());
+            // skip the data that was examined already
+            const size_t search_from = std::max(m_read_pos, m_search_pos);
+            slice search_range(m_data + search_from, m_write_pos - search_from);
             const slice found = search_range.search(terminator);
             if (found) {
-                slice result(search_range.begin(), found.end());
+                slice result(m_data + m_read_pos, found.end());
                 confirm_read(result.length());
                 return result;
             }
+            // the beginning of the terminator may be there already
+            m_search_pos = m_write_pos - std::min(search_range.length(), terminator.length() - 1);
             return slice();
         }
 
@@ -140,6 +145,7 @@ namespace cachelot {
         void rollback_write_transaction(const write_savepoint_type savepoint) noexcept {
             debug_assert(static_cast<size_t>(savepoint) <= m_write_pos);
             m_write_pos = static_cast<size_t>(savepoint);
+            m_search_pos = std::min(m_search_pos, m_write_pos);
             debug_assert(m_write_pos >= m_read_pos);
         }
 
@@ -150,6 +156,7 @@ namespace cachelot {
         void reset() noexcept {
             m_read_pos = 0u;
             m_write_pos = 0u;
+            m_search_pos = 0u;
         }
 
         /// ensure that buffer is capable to store `at_least` slice; resize if neccessary
@@ -176,12 +183,12 @@ namespace cachelot {
         // discard all data that was read
         void compact() noexcept {
             if (m_read_pos == m_write_pos) {
-                m_read_pos = 0u;
-                m_write_pos = 0u;
-            } else {
+                reset();
+            } else if (m_read_pos > 0) {
                 debug_assert(m_read_pos < m_write_pos);
                 size_t left_unread = m_write_pos - m_read_pos;
                 std::memmove(m_data, m_data + m_read_pos, left_unread);
+                m_search_pos -= std::min(m_search_pos, m_read_pos);
                 m_read_pos = 0u;
                 m_write_pos = left_unread;
             }
@@ -198,6 +205,7 @@ namespace cachelot {
         char * m_data;
         size_t m_capacity = 0;
         size_t m_read_pos = 0;
+        size_t m_search_pos = 0;    // everything before was searched for the terminator already
         size_t m_write_pos = 0;
     };
 
diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index e6576e3..e18e4c5 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -156,6 +156,8 @@ namespace cachelot { namespace net {
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
         try {
+        // once per read and not per request: pipeline may be long
+        m_recv_buf.compact();
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 slice receive_result;
@@ -184,7 +186,6 @@ namespace cachelot { namespace net {
             unread = m_recv_buf.non_read();
             reply = handle_data(m_recv_buf, m_send_buf);
         } while (reply == READ_MORE && m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < unread);
-        m_recv_buf.compact();
         switch (reply) {
         case SEND_REPLY_AND_READ:
             // continue with the rest of the data when reply is sent
-- 
2.43.0


From 16105d0383533f4cdcba4ecb35e9ab9f41f3ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 29/30] fix: parse the header of a storage command once, not on
 each part of its value

Each arrival of a part of the value had the header searched, parsed and
rolled back again: quadratic work when the header is long.
---
 src/server/io_buffer.h               | 8 ++++++++
 src/server/memcached/proto_ascii.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index cd47029..0d80941 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -123,6 +123,12 @@ namespace cachelot {
             return slice();
         }
 
+        /// tell that it makes no sense to read before there are `num_bytes` of the non-read data
+        void expect(const size_t num_bytes) noexcept { m_expected = num_bytes; }
+
+        /// check whether the data told by the `expect()` is there
+        bool has_expected() const noexcept { return non_read() >= m_expected; }
+
         /// positinon in buffer to write to
         char * begin_write(const size_t at_least = default_min_buffer_size / 4) {
             // TODO: Better buffer growth heuristic
@@ -157,6 +163,7 @@ namespace cachelot {
             m_read_pos = 0u;
             m_write_pos = 0u;
             m_search_pos = 0u;
+            m_expected = 0u;
         }
 
         /// ensure that buffer is capable to store `at_least` slice; resize if neccessary
@@ -207,6 +214,7 @@ namespace cachelot {
         size_t m_read_pos = 0;
         size_t m_search_pos = 0;    // everything before was searched for the terminator already
         size_t m_write_pos = 0;
+        size_t m_expected = 0;      // number of bytes to wait for
     };
 
     /// @}
diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index e418654..0347cc9 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -125,6 +125,11 @@ namespace cachelot {
 
 
         net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
+            if (not recv_buf.has_expected()) {
+                // the value of the storage command is incomplete yet
+                return net::READ_MORE;
+            }
+            recv_buf.expect(0);
             auto r_savepoint = recv_buf.read_savepoint();
             auto w_savepoint = send_buf.write_savepoint();
             try {
@@ -278,7 +283,10 @@ namespace cachelot {
                     recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
                 } catch (const std::exception &) { /* the connection is closed when the buffer is full and cannot grow */ }
                 // rollback read position, start over when more data will come
+                const size_t value_unread = recv_buf.non_read();
                 recv_buf.rollback_read_transaction(r_savepoint);
+                // do not parse the header again on each part of the value
+                recv_buf.expect(recv_buf.non_read() - value_unread + datalen + CRLF.length());
                 return net::READ_MORE;
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
-- 
2.43.0


From d9de8282424411ad2a247c4203764a5dec1719a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:47 +0000
Subject: [PATCH 30/30] fix: reuse the space of handled requests before the
 receive buffer grows

A storage command with an incomplete value enlarged the buffer by the rest
of the value although the requests handled before it occupied enough space.
A client that pipelines ordinary requests made it grow up to its limit.
---
 src/server/memcached/proto_ascii.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 0347cc9..a3f6ddf 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -278,15 +278,18 @@ namespace cachelot {
             const size_t datalen = str_to_int<uint32>(parsed.begin(), parsed.end());
             // read <value>\r\n first: it must not be treated as a command, even if the request is rejected
             if (recv_buf.non_read() < datalen + CRLF.length()) {
-                // help buffer to grow up to the necessary size
-                try {
-                    recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
-                } catch (const std::exception &) { /* the connection is closed when the buffer is full and cannot grow */ }
                 // rollback read position, start over when more data will come
                 const size_t value_unread = recv_buf.non_read();
                 recv_buf.rollback_read_transaction(r_savepoint);
                 // do not parse the header again on each part of the value
-                recv_buf.expect(recv_buf.non_read() - value_unread + datalen + CRLF.length());
+                const size_t expected = recv_buf.non_read() - value_unread + datalen + CRLF.length();
+                recv_buf.expect(expected);
+                // requests handled before are of no use, there may be enough space without them
+                recv_buf.compact();
+                // help buffer to grow up to the necessary size
+                try {
+                    recv_buf.ensure_capacity(expected - recv_buf.non_read());
+                } catch (const std::exception &) { /* the connection is closed when the buffer is full and cannot grow */ }
                 return net::READ_MORE;
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
-- 
2.43.0

