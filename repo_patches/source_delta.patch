From 75b84c8b7024027df65ae93e685364422c083b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 01/14] fix: end the connection instead of panicking when a
 reply does not fit a send buffer

The length of a reply is often controlled by the client, e.g. a "want" for a
module name of about 1000 bytes was enough to take down the whole server
(the panic poisons the connection pool's lock).
---
 src/server/tokio/dispatch.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..b22c449 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -315,6 +315,11 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         conn: &mut server::Connection<A, Self>,
         msg: &M,
     ) {
+        //nothing can be sent anymore during teardown (and the caller may not even know about the
+        //teardown if it was caused by a previous enqueue_message() call, see below)
+        if matches!(conn.state(), server::ConnectionState::Teardown) {
+            return;
+        }
         if !conn.state().can_receive_messages() {
             panic!(
                 "enqueue_message() called on connection in state {}",
@@ -351,8 +356,13 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legitimately too long; the length is often under the client's control (e.g. when the
+            //message quotes an identifier chosen by the client), so we must not panic, but since
+            //we cannot fulfil our side of the conversation either, end it
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From db82091de67d7fc6d105daf44feed920ec2f1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 02/14] fix: handle all received messages in a loop instead of
 a recursion

A client could overflow the stack by sending many short messages at once.
---
 src/server/connection.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..efe8e78 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,12 +171,23 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //each iteration handles one message (or one parse error) while in handshake or msgio mode;
+        //this is a loop rather than a recursion since the client decides how many messages arrive
+        //in one go, and must not be able to overflow our stack
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
             match self.state {
-                Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
-                Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
+                Handshake => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()) {
+                        return;
+                    }
+                }
+                Msgio(_) => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()) {
+                        return;
+                    }
+                }
                 Stdin(_) => {
                     //receiving anything on stdin is an error, so close the connection (we might
                     //have to relax this in the future depending on how insistent legacy clients
@@ -191,12 +202,18 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
                 }
-                Teardown => {}
+                Teardown => return,
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Returns whether something was consumed from the buffer. If not, more data needs to be received
+    //before we can continue.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +251,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -262,7 +279,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
         }
         //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        //go back into handle_incoming() to disambiguate again
+        true
     }
 }
-- 
2.43.0


From 7e1fbcd82c917a8c44af3bbe9b4cbb46614d8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 03/14] fix: do not let broadcasts see a connection that cannot
 send yet

Whatever such a broadcast enqueued got lost.
---
 src/server/tokio/dispatch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index b22c449..b24c3d4 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,7 +84,6 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
@@ -93,6 +92,11 @@ impl<A: server::Application> InnerDispatch<A> {
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
 
+        //the pool lock must be held until here: if a broadcast could see the new connection before
+        //its TxConnector exists, everything that it enqueues for the connection would be lost, and
+        //if it tears down the connection, the TxConnector would stay behind forever
+        std::mem::drop(pool);
+
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
 
-- 
2.43.0


From 81eb08442bc8916a39922fe6dadd07d00b40492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 04/14] fix: do not forget broadcasts enqueued right before the
 pool lock is released

Such a broadcast would be executed only after the next unrelated activity.
---
 src/server/tokio/dispatch.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index b24c3d4..3256125 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -96,6 +96,7 @@ impl<A: server::Application> InnerDispatch<A> {
         //its TxConnector exists, everything that it enqueues for the connection would be lost, and
         //if it tears down the connection, the TxConnector would stay behind forever
         std::mem::drop(pool);
+        self.run_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -106,7 +107,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -196,6 +197,22 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn run_pending_broadcasts(self: &Arc<Self>) {
+        //This function is called whenever a broadcast was enqueued, and also after each time that a
+        //`self.pool.write()` lock was released: Someone may have enqueued a broadcast after the
+        //holder of the lock went through do_maintenance(), but before the lock was released. They
+        //could not execute the broadcast because of our lock, so it's up to us.
+        //
+        //If the lock is held by someone else, there is nothing to do here since they will be calling
+        //this function, too.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                Err(_) => return,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -208,13 +225,15 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    //only None during drop()
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>,
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -223,9 +242,12 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+            std::mem::drop(guard);
+        }
+        self.inner.run_pending_broadcasts();
     }
 }
 
@@ -309,9 +331,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.run_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From 04f9fe64b0819cccc63353a593e127ab8f317807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 05/14] fix: do not lose a shutdown() that happens before
 run_listener() is ready

---
 src/server/tokio/dispatch.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 3256125..a485a0b 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -23,6 +23,14 @@ struct ConnectionPool<A: server::Application> {
     next_connection_id: u64,
 }
 
+#[derive(Default)]
+struct ShutdownState {
+    //set by shutdown(), reset when run_listener() has obeyed
+    requested: bool,
+    //set while run_listener() is running
+    abort: Option<AbortHandle>,
+}
+
 struct TxConnector {
     //The boxes shall be allocated individually since we pass them around outside the Vec.
     #[allow(clippy::vec_box)]
@@ -38,7 +46,7 @@ pub(crate) struct InnerDispatch<A: server::Application> {
     //can only be obtained by holding the `self.pool` lock).
     path: std::path::PathBuf,
     pub(crate) app: A,
-    abort: Mutex<Option<AbortHandle>>,
+    shutdown: Mutex<ShutdownState>,
     pool: RwLock<ConnectionPool<A>>,
     tx: RwLock<HashMap<u64, TxConnector>>,
     //This #[allow] is here because factoring out `type Broadcast<A>` or something like that does
@@ -52,7 +60,7 @@ impl<A: server::Application> InnerDispatch<A> {
         Arc::new(InnerDispatch {
             path,
             app,
-            abort: Mutex::new(None),
+            shutdown: Mutex::new(ShutdownState::default()),
             pool: RwLock::new(ConnectionPool {
                 conns: HashMap::new(),
                 next_connection_id: 0,
@@ -272,7 +280,13 @@ impl<A: server::Application> Dispatch<A> {
 
         //set up an AbortHandle that shutdown() can use to intercept our loop
         let (ah, ar) = AbortHandle::new_pair();
-        *(self.0.abort.lock().unwrap()) = Some(ah);
+        let mut shutdown = self.0.shutdown.lock().unwrap();
+        if shutdown.requested {
+            //shutdown() was called before we got here
+            ah.abort();
+        }
+        shutdown.abort = Some(ah);
+        std::mem::drop(shutdown);
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
@@ -285,7 +299,9 @@ impl<A: server::Application> Dispatch<A> {
                 self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
-        match Abortable::new(accept_future, ar).await {
+        let result = Abortable::new(accept_future, ar).await;
+        *(self.0.shutdown.lock().unwrap()) = ShutdownState::default();
+        match result {
             Ok(Ok(())) => {}
             Ok(Err(e)) => return Err(e),
             Err(Aborted) => {}
@@ -305,8 +321,9 @@ impl<A: server::Application> Dispatch<A> {
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
     ///resolve to `Ok(())` once all client connections and the server socket have been dismantled.
     pub fn shutdown(&self) {
-        use std::ops::Deref;
-        if let Some(ref handle) = self.0.abort.lock().unwrap().deref() {
+        let mut shutdown = self.0.shutdown.lock().unwrap();
+        shutdown.requested = true;
+        if let Some(ref handle) = shutdown.abort {
             handle.abort();
         }
     }
-- 
2.43.0


From 15f481a7d32a0c761ed708e66a9db5be837787c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 06/14] fix: dismantle all connections on shutdown

Only their jobs were aborted: the connection objects stayed around forever,
with no ConnectionClosed notification.
---
 src/server/tokio/dispatch.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index a485a0b..923928f 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -307,11 +307,17 @@ impl<A: server::Application> Dispatch<A> {
             Err(Aborted) => {}
         };
 
-        //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
+        //tear down all connections (this tells all receiver/transmitter jobs to quit it)
+        let mut pool = self.0.pool.write().unwrap();
+        let all_conn_ids: Vec<_> = pool.conns.keys().copied().collect();
+        for conn_id in all_conn_ids {
+            if let Some(entry) = pool.conns.get_mut(&conn_id) {
+                entry.conn.set_state(server::ConnectionState::Teardown);
+            }
+            self.0.do_maintenance_on_conn(&mut pool, conn_id);
         }
+        std::mem::drop(pool);
+        self.0.run_pending_broadcasts();
 
         //clean up the server socket
         std::mem::drop(listener);
-- 
2.43.0


From ee9752b029ed8d65f00ca7af081ad44b3e7844dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 07/14] fix: clean up when run_listener() returns because of an
 IO error

---
 src/server/tokio/dispatch.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 923928f..870964d 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -301,10 +301,9 @@ impl<A: server::Application> Dispatch<A> {
         };
         let result = Abortable::new(accept_future, ar).await;
         *(self.0.shutdown.lock().unwrap()) = ShutdownState::default();
-        match result {
-            Ok(Ok(())) => {}
-            Ok(Err(e)) => return Err(e),
-            Err(Aborted) => {}
+        let result = match result {
+            Ok(r) => r,
+            Err(Aborted) => Ok(()),
         };
 
         //tear down all connections (this tells all receiver/transmitter jobs to quit it)
@@ -321,7 +320,8 @@ impl<A: server::Application> Dispatch<A> {
 
         //clean up the server socket
         std::mem::drop(listener);
-        std::fs::remove_file(&self.0.path)
+        let remove_result = std::fs::remove_file(&self.0.path);
+        result.and(remove_result)
     }
 
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
-- 
2.43.0


From 90f854810733311d8c67ab30ebe4a4b3dc538700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 08/14] fix: unregister clients on core1.client-end

---
 src/server/core/msg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..045af64 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,14 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //release everything that belongs to this client ID or those below it (esp. so that
+                //nobody can do a handshake as one of these clients anymore)
+                let d = conn.dispatch();
+                d.application()
+                    .unregister_clients(ClientSelector::AtOrBelow(msg.client_id));
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From c07d5d7ba5375c6dae7ac405f92a2be829707d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 09/14] fix: report ConnectionOpened before everything else
 about the connection

---
 src/server/tokio/dispatch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 870964d..6370551 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -100,6 +100,10 @@ impl<A: server::Application> InnerDispatch<A> {
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
 
+        //this must come before everything else that is reported about this connection, so do it
+        //while nobody else can see the connection
+        self.app.notify(&server::Notification::ConnectionOpened);
+
         //the pool lock must be held until here: if a broadcast could see the new connection before
         //its TxConnector exists, everything that it enqueues for the connection would be lost, and
         //if it tears down the connection, the TxConnector would stay behind forever
@@ -296,7 +300,6 @@ impl<A: server::Application> Dispatch<A> {
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
-                self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
         let result = Abortable::new(accept_future, ar).await;
-- 
2.43.0


From aec5b586c0152dcac333b9824b6297ba7c25e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 10/14] fix: do not create a File for FD 60 if that is not open

With debug assertions, std aborts the process when the File is dropped.
---
 src/client/env.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..c47e49f 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -56,6 +56,14 @@ impl Environment {
             has_vt6_terminal: true,
         };
 
+        //SAFETY: F_GETFD does not touch any memory
+        let fd_flags = unsafe { libc::fcntl(60, libc::F_GETFD) };
+        if fd_flags == -1 {
+            //FD 60 is not open, so it must not be put into a File (closing it again would fail)
+            env.has_vt6_terminal = false;
+            return Ok(env);
+        }
+
         //SAFETY: we need to call this unsafe trait method to obtain a File handle
         let mut f = unsafe { File::from_raw_fd(60) };
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
-- 
2.43.0


From 7fc8b2a414f9fb114c11fa704746d675b6ad1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 11/14] fix: do not give up on FD 60 when a signal interrupts
 the read

---
 src/client/env.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index c47e49f..b0058f1 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -69,7 +69,7 @@ impl Environment {
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
 
         //the first read on FD 60 decides if we are on a VT6 terminal or not
-        match f.read(&mut env.buf) {
+        match read_uninterrupted(&mut f, &mut env.buf) {
             Ok(filled) => env.filled = filled,
             Err(e) => {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
@@ -84,7 +84,7 @@ impl Environment {
 
         //continue reading until we have a full parent-hello message or EOF or parse error
         while matches!(msg::Message::parse(&env.buf[0..env.filled]), Err(e) if e.is_incomplete()) {
-            let filled = f.read(&mut env.buf[env.filled..])?;
+            let filled = read_uninterrupted(&mut f, &mut env.buf[env.filled..])?;
             env.filled += filled;
             if filled == 0 {
                 //we reached EOF on FD 60, so no more reads necessary
@@ -110,6 +110,16 @@ impl Environment {
     }
 }
 
+///Like `f.read(buf)`, but tries again if the syscall was interrupted by a signal.
+fn read_uninterrupted(f: &mut File, buf: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match f.read(buf) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 ///Provides access to the data contained in [struct Environment](struct.Environment.html).
 ///
 ///Unlike `Environment`, which is a singleton by design, instances of this type can be cloned and
-- 
2.43.0


From cd02aae2941808aa92fb7d6ce6a84e21e0c64c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 12/14] fix: make the future of run_listener() sendable between
 threads again

The guard of the shutdown state was held (as far as the compiler could tell) across the accept loop's await, so
the future could not be given to tokio::spawn() anymore as before 04f9fe6.
---
 src/server/tokio/dispatch.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6370551..c7619f5 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -31,6 +31,16 @@ struct ShutdownState {
     abort: Option<AbortHandle>,
 }
 
+impl ShutdownState {
+    fn start(&mut self, abort: AbortHandle) {
+        if self.requested {
+            //shutdown() was called before we got here
+            abort.abort();
+        }
+        self.abort = Some(abort);
+    }
+}
+
 struct TxConnector {
     //The boxes shall be allocated individually since we pass them around outside the Vec.
     #[allow(clippy::vec_box)]
@@ -284,13 +294,7 @@ impl<A: server::Application> Dispatch<A> {
 
         //set up an AbortHandle that shutdown() can use to intercept our loop
         let (ah, ar) = AbortHandle::new_pair();
-        let mut shutdown = self.0.shutdown.lock().unwrap();
-        if shutdown.requested {
-            //shutdown() was called before we got here
-            ah.abort();
-        }
-        shutdown.abort = Some(ah);
-        std::mem::drop(shutdown);
+        self.0.shutdown.lock().unwrap().start(ah);
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
-- 
2.43.0


From ca5cda65e058ed947e68bf00a0b0c313b7041575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 13/14] fix: encode client ID suffixes with the largest index

For the number 4294967295, adding 1 overflowed: with overflow checks this panicked, otherwise the client ID of this job
was the common prefix of all process-local lifetimes.
---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From ac4793b5798ef9cb00ce4c88a07735aff0130194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 14/14] fix: do not decode non-canonical integers

"+5", "-0" and "-05" were accepted as integers, and thus "core1.+5" as a module version.
---
 src/common/core/decode_argument.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..0b6184a 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -77,6 +77,11 @@ macro_rules! impl_DecodeArgument_for_integer {
                 if arg != b"0" && arg[0] == b'0' {
                     return None;
                 }
+                //str::parse() is more lenient than we are: also forbid leading zeroes behind a
+                //minus sign (this includes "-0") as well as plus signs
+                if arg.starts_with(b"-0") || arg[0] == b'+' {
+                    return None;
+                }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
             }
-- 
2.43.0

