From bbf0f510f85bca8d485206d0a6d220de061e0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 01/50] fix: never signal a reaped shell and answer kill
 requests per session

The child watcher reaped the shell before telling anyone, so kill and the
ttl reaper could signal a recycled pid. Naming a session twice in one kill
request published a second removal, and a failed kill left sessions that had
already been killed in the table.
---
 libshpool/src/daemon/exit_notify.rs | 20 ++++++--
 libshpool/src/daemon/server.rs      | 76 +++++++++++++++++++----------
 libshpool/src/daemon/shell.rs       | 27 +++++-----
 3 files changed, 82 insertions(+), 41 deletions(-)

diff --git a/libshpool/src/daemon/exit_notify.rs b/libshpool/src/daemon/exit_notify.rs
index 7e627e6..bcdf2fd 100644
--- a/libshpool/src/daemon/exit_notify.rs
+++ b/libshpool/src/daemon/exit_notify.rs
@@ -27,13 +27,27 @@ impl ExitNotifier {
         ExitNotifier { slot: Mutex::new(None), cond: Condvar::new() }
     }
 
-    /// Notify all waiters that the process has exited.
-    pub fn notify_exit(&self, status: i32) {
+    /// Notify all waiters that the process has exited, invoking `reap` to
+    /// collect the exit status while [`ExitNotifier::with_running`] callers
+    /// are held off.
+    pub fn notify_exit_with<F: FnOnce() -> i32>(&self, reap: F) {
         let mut slot = self.slot.lock();
-        *slot = Some(status);
+        *slot = Some(reap());
         self.cond.notify_all();
     }
 
+    /// Invoke `f` only if the process has not been reaped yet, guaranteeing
+    /// that it does not get reaped while `f` is running. Returns None
+    /// if the process is already gone. Needed to safely signal the process,
+    /// since a pid can be recycled once it has been reaped.
+    pub fn with_running<T, F: FnOnce() -> T>(&self, f: F) -> Option<T> {
+        let slot = self.slot.lock();
+        if slot.is_some() {
+            return None;
+        }
+        Some(f())
+    }
+
     /// Wait for the process to exit, with an optional timeout
     /// to allow the caller to wake up periodically.
     pub fn wait(&self, timeout: Option<Duration>) -> Option<i32> {
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 20814ea..996cb1a 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -737,14 +737,25 @@ impl Server {
     #[instrument(skip_all)]
     fn handle_kill(&self, mut stream: UnixStream, request: KillRequest) -> anyhow::Result<()> {
         let mut not_found_sessions = vec![];
+        let mut kill_err = None;
         {
             let _s = span!(Level::INFO, "lock(shells)").entered();
             let mut shells = self.shells.lock();
 
             let mut to_remove = Vec::with_capacity(request.sessions.len());
             for session in request.sessions.into_iter() {
+                if to_remove.contains(&session) || not_found_sessions.contains(&session) {
+                    // the same session was named more than once
+                    continue;
+                }
                 if let Some(s) = shells.get(&session) {
-                    s.kill().context("killing shell proc")?;
+                    if let Err(e) = s.kill().context("killing shell proc") {
+                        // keep going so the sessions we did manage to kill
+                        // still get removed from the table
+                        error!("killing '{}': {:?}", session, e);
+                        kill_err = Some(e);
+                        continue;
+                    }
 
                     // we don't need to wait since the dedicated reaping thread is active
                     // even when a tty is not attached
@@ -762,6 +773,9 @@ impl Server {
                 test_hooks::emit("daemon-handle-kill-removed-shells");
             }
         }
+        if let Some(e) = kill_err {
+            return Err(e);
+        }
 
         write_reply(&mut stream, KillReply { not_found_sessions }).context("writing kill reply")?;
 
@@ -1042,38 +1056,48 @@ impl Server {
         thread::spawn(move || {
             let _s = span!(Level::INFO, "child_watcher", s = session_name, cid = conn_id).entered();
 
-            let mut err = None;
-            let mut status = 0;
-            let mut unpacked_status = None;
-            loop {
-                // Safety: all basic ffi, the pid is valid before this returns.
-                unsafe {
-                    match libc::waitpid(waitable_child_pid, &mut status, 0) {
+            // Wait for the child to exit without reaping it yet, so that
+            // its pid stays reserved until nobody will signal it anymore.
+            //
+            // Safety: all basic ffi, the pid is valid until it gets reaped.
+            unsafe {
+                let mut info: libc::siginfo_t = std::mem::zeroed();
+                while libc::waitid(
+                    libc::P_PID,
+                    waitable_child_pid as libc::id_t,
+                    &mut info,
+                    libc::WEXITED | libc::WNOWAIT,
+                ) == -1
+                    && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted
+                {}
+            }
+
+            notifiable_child_exit_notifier.notify_exit_with(|| {
+                let mut status = 0;
+                loop {
+                    // Safety: all basic ffi, the pid is valid before this returns.
+                    match unsafe { libc::waitpid(waitable_child_pid, &mut status, 0) } {
                         0 => continue,
                         -1 => {
-                            err = Some("waitpid failed");
-                            break;
+                            let err = io::Error::last_os_error();
+                            if err.kind() == io::ErrorKind::Interrupted {
+                                continue;
+                            }
+                            info!("child exited without status, using 1: {:?}", err);
+                            return 1;
+                        }
+                        _ if libc::WIFEXITED(status) => {
+                            let status = libc::WEXITSTATUS(status);
+                            info!("child exited with status {}", status);
+                            return status;
                         }
                         _ => {
-                            if libc::WIFEXITED(status) {
-                                unpacked_status = Some(libc::WEXITSTATUS(status));
-                            }
-                            break;
+                            info!("child exited without status, using 1");
+                            return 1;
                         }
                     }
                 }
-            }
-            if let Some(status) = unpacked_status {
-                info!("child exited with status {}", status);
-                notifiable_child_exit_notifier.notify_exit(status);
-            } else {
-                if let Some(e) = err {
-                    info!("child exited without status, using 1: {:?}", e);
-                } else {
-                    info!("child exited without status, using 1");
-                }
-                notifiable_child_exit_notifier.notify_exit(1);
-            }
+            });
         });
 
         let prompt_prefix_is_blank =
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 9ab07b5..67272fc 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -130,25 +130,28 @@ impl Session {
         // from a process. We can't use the normal SIGTERM graceful-shutdown
         // signal since shells just forward those to their child process,
         // but for shells SIGHUP serves as the graceful shutdown signal.
-        match signal::kill(Pid::from_raw(self.child_pid), Some(signal::Signal::SIGHUP)) {
-            // ESRCH means "no such process", so the child is already gone and
-            // there is nothing left to kill.
-            Err(nix::errno::Errno::ESRCH) => return Ok(()),
-            res => res.context("sending SIGHUP to child proc")?,
-        }
+        self.signal_child(signal::Signal::SIGHUP).context("sending SIGHUP to child proc")?;
 
         if self.child_exit_notifier.wait(Some(SHELL_KILL_TIMEOUT)).is_none() {
             info!("child failed to exit within kill timeout, no longer being polite");
-            match signal::kill(Pid::from_raw(self.child_pid), Some(signal::Signal::SIGKILL)) {
-                // ESRCH means "no such process", so the child exited on its own
-                // between the SIGHUP and now.
-                Err(nix::errno::Errno::ESRCH) => return Ok(()),
-                res => res.context("sending SIGKILL to child proc")?,
-            }
+            self.signal_child(signal::Signal::SIGKILL).context("sending SIGKILL to child proc")?;
         }
 
         Ok(())
     }
+
+    /// Send a signal to the child shell, unless it has already been reaped,
+    /// in which case its pid might belong to someone else by now.
+    fn signal_child(&self, sig: signal::Signal) -> nix::Result<()> {
+        let res = self
+            .child_exit_notifier
+            .with_running(|| signal::kill(Pid::from_raw(self.child_pid), Some(sig)));
+        match res {
+            // The child is already gone and there is nothing left to kill.
+            None | Some(Err(nix::errno::Errno::ESRCH)) => Ok(()),
+            Some(res) => res,
+        }
+    }
 }
 
 /// ShellSessionInner contains values that the pipe thread needs to be
-- 
2.43.0


From 19a62d2ac64261c4ba80060e25e184914bf35be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/50] fix: one failing client must not end its session's
 output thread

A client connection reset, an early detach or a requester that stopped
waiting for an ack made the shell->client thread exit or block for good,
which left the session without output and unable to be attached again. A
reattach from a terminal with 65535 rows or columns overflowed.
---
 libshpool/src/daemon/shell.rs | 98 +++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 32 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 67272fc..b5f535e 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -236,6 +236,23 @@ fn shutdown_socket(
     }
 }
 
+/// Shut a client connection down, tolerating any sort of failure since the
+/// client might well be gone already.
+fn shutdown_client(stream: &std::os::unix::net::UnixStream) {
+    if let Err(e) = shutdown_socket(stream, net::Shutdown::Both) {
+        warn!("shutting down client stream: {:?}", e);
+    }
+}
+
+/// Send an ack for a control message. The other side might have given up on
+/// waiting for it, which must not keep the shell->client thread from serving
+/// the next control message.
+fn send_ack<T>(ctx: &str, ack: &crossbeam_channel::Sender<T>, msg: T) {
+    if let Err(e) = ack.send_timeout(msg, SHELL_TO_CLIENT_CTL_TIMEOUT) {
+        warn!("{}: {}", ctx, e);
+    }
+}
+
 /// Messages to the shell->client thread to add or remove a client connection.
 pub enum ClientConnectionMsg {
     /// Accept a newly connected client
@@ -301,12 +318,31 @@ impl SessionInner {
             // block until we get the first connection attached so that we don't drop
             // the initial prompt on the floor
             info!("waiting for initial client connection");
-            let mut client_conn: ClientConnectionMsg =
-                args.client_connection.recv().context("waiting for initial client connection")?;
-            args.client_connection_ack
-                .send(ClientConnectionStatus::New)
-                .context("sending initial client connection ack")?;
+            let mut client_conn: ClientConnectionMsg = loop {
+                let msg = args
+                    .client_connection
+                    .recv()
+                    .context("waiting for initial client connection")?;
+                if let ClientConnectionMsg::Disconnect = msg {
+                    info!("disconnect before the initial client connection");
+                    send_ack(
+                        "sending early disconnect ack",
+                        &args.client_connection_ack,
+                        ClientConnectionStatus::DetachNone,
+                    );
+                    continue;
+                }
+                break msg;
+            };
+            send_ack(
+                "sending initial client connection ack",
+                &args.client_connection_ack,
+                ClientConnectionStatus::New,
+            );
             info!("got initial client connection");
+            if let ClientConnectionMsg::DisconnectExit(_) = client_conn {
+                return Ok(());
+            }
 
             let mut resize_cmd = if let ClientConnectionMsg::New(conn) = &client_conn {
                 Some(ResizeCmd { size: conn.size.clone(), when: time::Instant::now() })
@@ -324,7 +360,7 @@ impl SessionInner {
                                 do_reattach = true;
                                 let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
                                     Self::write_exit_chunk(&mut old_conn.sink, 0);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
+                                    shutdown_client(&old_conn.stream);
                                     ClientConnectionStatus::Replaced
                                 } else {
                                     ClientConnectionStatus::New
@@ -339,12 +375,14 @@ impl SessionInner {
                                 // can "bake" for a little bit, which emacs seems
                                 // to require in order to pick up the jiggle.
                                 let oversize = TtySize {
-                                    rows: conn.size.rows + 1,
-                                    cols: conn.size.cols + 1,
+                                    rows: conn.size.rows.saturating_add(1),
+                                    cols: conn.size.cols.saturating_add(1),
                                     xpixel: conn.size.xpixel,
                                     ypixel: conn.size.ypixel,
                                 };
-                                oversize.set_fd(pty_master.raw_fd())?;
+                                if let Err(e) = oversize.set_fd(pty_master.raw_fd()) {
+                                    warn!("error oversizing pty: {}", e);
+                                }
 
                                 // Prepare a resize command for pty to execute later.
                                 resize_cmd = Some(ResizeCmd {
@@ -353,14 +391,14 @@ impl SessionInner {
                                 });
                                 client_conn = ClientConnectionMsg::New(conn);
 
-                                args.client_connection_ack.send(ack)
-                                    .context("sending client connection ack")?;
+                                send_ack("sending client connection ack",
+                                    &args.client_connection_ack, ack);
                             }
                             Ok(ClientConnectionMsg::Disconnect) => {
                                 let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
                                     info!("disconnect, shutting down client stream");
                                     Self::write_exit_chunk(&mut old_conn.sink, 0);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
+                                    shutdown_client(&old_conn.stream);
                                     ClientConnectionStatus::Detached
                                 } else {
                                     info!("disconnect, no client stream to shut down");
@@ -368,8 +406,8 @@ impl SessionInner {
                                 };
                                 client_conn = ClientConnectionMsg::Disconnect;
 
-                                args.client_connection_ack.send(ack)
-                                    .context("sending client disconnect ack")?;
+                                send_ack("sending client disconnect ack",
+                                    &args.client_connection_ack, ack);
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
                                 let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
@@ -379,7 +417,7 @@ impl SessionInner {
                                     // write an exit status frame so the attach process
                                     // can exit with the same exit code as the child shell
                                     Self::write_exit_chunk(&mut old_conn.sink, exit_status);
-                                    shutdown_socket(&old_conn.stream, net::Shutdown::Both)?;
+                                    shutdown_client(&old_conn.stream);
 
                                     ClientConnectionStatus::Detached
                                 } else {
@@ -388,8 +426,8 @@ impl SessionInner {
                                           exit_status);
                                     ClientConnectionStatus::DetachNone
                                 };
-                                args.client_connection_ack.send(ack)
-                                    .context("sending client disconnect exit ack")?;
+                                send_ack("sending client disconnect exit ack",
+                                    &args.client_connection_ack, ack);
 
                                 return Ok(());
                             }
@@ -412,8 +450,8 @@ impl SessionInner {
                                     // for reconnects.
                                     when: time::Instant::now(),
                                 });
-                                args.tty_size_change_ack.send(())
-                                    .context("sending size change ack")?;
+                                send_ack("sending size change ack",
+                                    &args.tty_size_change_ack, ());
                             }
                             Err(err) => {
                                 warn!("size change: bailing due to: {:?}", err);
@@ -429,21 +467,19 @@ impl SessionInner {
                                     trace!("wrote heartbeat");
                                     true
                                 }
-                                Err(e) if e.kind() == io::ErrorKind::BrokenPipe => {
-                                    trace!("client hangup: {:?}", e);
-                                    false
-                                }
+                                // The kernel can report a vanished client in a few
+                                // different ways (EPIPE, ECONNRESET...), all of them
+                                // only concern this client, not the session.
                                 Err(e) => {
-                                    error!("unexpected IO error while writing heartbeat: {}", e);
-                                    return Err(e).context("writing heartbeat")?;
+                                    info!("writing heartbeat, assuming hangup: {:?}", e);
+                                    false
                                 }
                             }
                         } else {
                             false
                         };
 
-                        args.heartbeat_ack.send(client_present)
-                            .context("sending heartbeat ack")?;
+                        send_ack("sending heartbeat ack", &args.heartbeat_ack, client_present);
                     }
                     recv(args.maybe_switch) -> maybe_switch => {
                         let maybe_switch = match maybe_switch {
@@ -472,12 +508,9 @@ impl SessionInner {
                             Ok(_) => {
                                 trace!("wrote MaybeSwitch");
                             }
-                            Err(e) if e.kind() == io::ErrorKind::BrokenPipe => {
-                                trace!("writing MaybeSwitch: client hangup: {:?}", e);
-                            }
+                            // the next heartbeat is going to notice too and clean up
                             Err(e) => {
-                                error!("unexpected IO error while writing heartbeat: {}", e);
-                                return Err(e).context("writing MaybeSwitch")?;
+                                info!("writing MaybeSwitch, assuming hangup: {:?}", e);
                             }
                         }
                     }
@@ -537,6 +570,7 @@ impl SessionInner {
                 // a client is trying to attach.
                 let nready = match poll::poll(&mut poll_fds, SHELL_TO_CLIENT_POLL_MS) {
                     Ok(n) => n,
+                    Err(nix::errno::Errno::EINTR) => continue,
                     Err(e) => {
                         error!("polling pty master: {:?}", e);
                         return Err(e)?;
-- 
2.43.0


From 414315aa5215e1adf46466bf84aaf7e7e61ff55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 03/50] fix: deliver the shell's final output before its exit
 status

Output still buffered in the pty when the shell exited was dropped, since a
hangup took precedence over pending output, and so was output a slow client
had not accepted within 300ms.
---
 libshpool/src/daemon/server.rs |   3 +-
 libshpool/src/daemon/shell.rs  | 179 ++++++++++++++++++++++-----------
 2 files changed, 121 insertions(+), 61 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 996cb1a..30899ca 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -26,7 +26,7 @@ use std::{
     },
     path::{Path, PathBuf},
     process,
-    sync::Arc,
+    sync::{atomic::AtomicUsize, Arc},
     thread, time,
     time::{Duration, Instant},
 };
@@ -1158,6 +1158,7 @@ impl Server {
             client_stream: Some(client_stream),
             config: self.config.clone(),
             shell_to_client_join_h: None,
+            shell_to_client_progress: Arc::new(AtomicUsize::new(0)),
             term_db,
             daily_messenger: Arc::clone(&self.daily_messenger),
             needs_initial_motd_dump: dump_motd_on_new_session,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index b5f535e..53bf0e3 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -19,7 +19,7 @@ use std::{
     ops::Add,
     os::unix::net::UnixStream,
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicBool, AtomicUsize, Ordering},
         Arc,
     },
     thread, time,
@@ -59,6 +59,15 @@ const REATTACH_RESIZE_DELAY: time::Duration = time::Duration::from_millis(50);
 // messages are noticed quickly without spinning the CPU.
 const SHELL_TO_CLIENT_POLL_MS: u16 = 50;
 
+// The most output we are going to forward after the shell has exited. A pty can
+// only buffer a fraction of this, so it only cuts off background processes
+// which keep on writing to the terminal of a dead shell.
+const EXIT_DRAIN_LIMIT: usize = 16 * consts::BUF_SIZE;
+
+// How long a client may fail to accept any of the shell's final output before we
+// stop waiting for it.
+const EXIT_DRAIN_STALL_TIMEOUT: time::Duration = time::Duration::from_secs(5);
+
 // How long to wait before giving up while trying to talk to the
 // shell->client thread.
 const SHELL_TO_CLIENT_CTL_TIMEOUT: time::Duration = time::Duration::from_millis(300);
@@ -172,6 +181,10 @@ pub struct SessionInner {
     /// Only wrapped in an option so we can spawn the thread after
     /// constructing the SessionInner.
     pub shell_to_client_join_h: Option<thread::JoinHandle<anyhow::Result<()>>>,
+
+    /// Bumped by the shell->client thread for every chunk of output that it managed
+    /// to write to a client.
+    pub shell_to_client_progress: Arc<AtomicUsize>,
 }
 
 /// A notification that a new client has connected, sent to the
@@ -304,6 +317,7 @@ impl SessionInner {
         let watchable_master = pty_master.clone();
         let name = self.name.clone();
         let config = self.config.clone();
+        let progress = Arc::clone(&self.shell_to_client_progress);
         let closure = move || {
             let _s = span!(Level::INFO, "shell->client", s = name, cid = args.conn_id).entered();
 
@@ -350,6 +364,10 @@ impl SessionInner {
                 None
             };
 
+            // Set to the exit status and the amount of output forwarded since once the
+            // shell has exited.
+            let mut exiting: Option<(i32, usize)> = None;
+
             loop {
                 let mut do_reattach = false;
                 crossbeam_channel::select! {
@@ -410,26 +428,11 @@ impl SessionInner {
                                     &args.client_connection_ack, ack);
                             }
                             Ok(ClientConnectionMsg::DisconnectExit(exit_status)) => {
-                                let ack = if let ClientConnectionMsg::New(mut old_conn) = client_conn {
-                                    info!("disconnectexit({}), shutting down client stream",
-                                           exit_status);
-
-                                    // write an exit status frame so the attach process
-                                    // can exit with the same exit code as the child shell
-                                    Self::write_exit_chunk(&mut old_conn.sink, exit_status);
-                                    shutdown_client(&old_conn.stream);
-
-                                    ClientConnectionStatus::Detached
-                                } else {
-                                    info!(
-                                        "disconnectexit({}), no client stream to shut down",
-                                          exit_status);
-                                    ClientConnectionStatus::DetachNone
-                                };
-                                send_ack("sending client disconnect exit ack",
-                                    &args.client_connection_ack, ack);
-
-                                return Ok(());
+                                // Whatever the shell wrote before exiting comes
+                                // before the exit status, so keep on forwarding
+                                // until the pty has run dry.
+                                info!("disconnectexit({})", exit_status);
+                                exiting.get_or_insert((exit_status, 0));
                             }
 
                             // SessionInner getting dropped, so this thread should go away.
@@ -568,7 +571,8 @@ impl SessionInner {
                 // Block until the shell has some data for us so we can be sure our reads
                 // always succeed. We don't want to end up blocked forever on a read while
                 // a client is trying to attach.
-                let nready = match poll::poll(&mut poll_fds, SHELL_TO_CLIENT_POLL_MS) {
+                let poll_ms = if exiting.is_some() { 0 } else { SHELL_TO_CLIENT_POLL_MS };
+                let nready = match poll::poll(&mut poll_fds, poll_ms) {
                     Ok(n) => n,
                     Err(nix::errno::Errno::EINTR) => continue,
                     Err(e) => {
@@ -576,38 +580,54 @@ impl SessionInner {
                         return Err(e)?;
                     }
                 };
-                if nready == 0 {
-                    // if timeout
-                    continue;
-                }
-                if nready != 1 {
+                if nready > 1 {
                     return Err(anyhow!("shell->client thread: expected exactly 1 ready fd"));
                 }
-                let hangup = poll_fds[0]
-                    .revents()
-                    .map(|r| r.intersects(PollFlags::POLLHUP | PollFlags::POLLERR))
-                    .unwrap_or(false);
-                if hangup {
-                    info!("pty master hung up, exiting shell->client thread");
-
-                    // If we have an attached client conn, make a best effort attempt
-                    // to forward the exit status.
+                let revents =
+                    poll_fds[0].revents().filter(|_| nready == 1).unwrap_or(PollFlags::empty());
+                let hangup = revents.intersects(PollFlags::POLLHUP | PollFlags::POLLERR);
+                // The pty can have output left even though it has already been hung up.
+                let len = if revents.contains(PollFlags::POLLIN) {
+                    match pty_master.read(&mut buf) {
+                        Ok(l) => l,
+                        Err(e) if hangup => {
+                            debug!("reading from hung up pty master: {:?}", e);
+                            0
+                        }
+                        Err(e) => {
+                            error!("reading chunk from pty master: {:?}", e);
+                            return Err(e).context("reading pty master chunk")?;
+                        }
+                    }
+                } else {
+                    0
+                };
+                let drained = match exiting.as_mut() {
+                    Some((_, forwarded)) => {
+                        *forwarded += len;
+                        len == 0 || *forwarded > EXIT_DRAIN_LIMIT
+                    }
+                    None => len == 0 && hangup,
+                };
+                if drained {
+                    info!("shell is gone, exiting shell->client thread (hangup={})", hangup);
+
+                    // If we have an attached client conn, write an exit status frame so the
+                    // attach process can exit with the same exit code as the child shell.
                     if let ClientConnectionMsg::New(mut conn) = client_conn {
-                        if let Some(exit_status) =
-                            args.child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR))
-                        {
+                        let exit_status = match exiting {
+                            Some((exit_status, _)) => Some(exit_status),
+                            None => args.child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR)),
+                        };
+                        if let Some(exit_status) = exit_status {
                             Self::write_exit_chunk(&mut conn.sink, exit_status);
                         }
+                        if exiting.is_some() {
+                            shutdown_client(&conn.stream);
+                        }
                     }
                     return Ok(());
                 }
-                let len = match pty_master.read(&mut buf) {
-                    Ok(l) => l,
-                    Err(e) => {
-                        error!("reading chunk from pty master: {:?}", e);
-                        return Err(e).context("reading pty master chunk")?;
-                    }
-                };
                 if len == 0 {
                     continue;
                 }
@@ -655,6 +675,7 @@ impl SessionInner {
                         info!("client_stream write err, assuming hangup: {:?}", err);
                         reset_client_conn = true;
                     } else {
+                        progress.fetch_add(1, Ordering::Relaxed);
                         test_hooks::emit("daemon-wrote-s2c-chunk");
                     }
                 }
@@ -778,20 +799,20 @@ impl SessionInner {
             // client stream, and the client->shell thread hangs out blocked on
             // that stream, so we need to close it in order to get all our
             // cows to come home.
-            let c_done = child_done.load(Ordering::Acquire);
-            {
+            if child_done.load(Ordering::Acquire) {
+                let exit_status = child_exit_notifier
+                    .wait(Some(Duration::from_secs(0)))
+                    .unwrap_or(1);
+                self.finish_output(exit_status, &client_stream);
+                // The shell->client thread might not have closed the client stream for us
+                // if it noticed the exit by itself.
+                shutdown_client(&client_stream);
+            } else {
                 let _s = span!(Level::INFO, "disconnect_lock(shell_to_client_ctl)").entered();
+                info!("telling shell->client to disconnect without reaping");
                 let shell_to_client_ctl = self.shell_to_client_ctl.lock();
-                let send_res = shell_to_client_ctl.client_connection.send_timeout(if c_done {
-                    let exit_status = child_exit_notifier
-                        .wait(Some(Duration::from_secs(0)))
-                        .unwrap_or(1);
-                    info!("telling shell->client to disconnect with exit status {}", exit_status);
-                    ClientConnectionMsg::DisconnectExit(exit_status)
-                } else {
-                    info!("telling shell->client to disconnect without reaping");
-                    ClientConnectionMsg::Disconnect
-                }, SHELL_TO_CLIENT_CTL_TIMEOUT);
+                let send_res = shell_to_client_ctl.client_connection.send_timeout(
+                    ClientConnectionMsg::Disconnect, SHELL_TO_CLIENT_CTL_TIMEOUT);
 
                 if let Err(send_timeout_err) = send_res {
                     info!("failed to tell shell->client to disconnect: {:?}", send_timeout_err);
@@ -831,14 +852,52 @@ impl SessionInner {
 
         let c_done = child_done.load(Ordering::Acquire);
         if c_done {
-            shutdown_socket(&client_stream, std::net::Shutdown::Both)
-                .context("shutting down client stream")?;
+            shutdown_client(&client_stream);
         }
 
         info!("done child_done={}", c_done);
         Ok(c_done)
     }
 
+    /// Have the shell->client thread forward what is left of the output of the exited
+    /// shell followed by the exit status, for as long as the client accepts it.
+    fn finish_output(&self, exit_status: i32, client_stream: &UnixStream) {
+        info!("telling shell->client to finish with exit status {}", exit_status);
+        let mut sent = false;
+        let mut gave_up = false;
+        let mut progress = self.shell_to_client_progress.load(Ordering::Relaxed);
+        let mut progress_at = time::Instant::now();
+        while let Some(false) = self.shell_to_client_join_h.as_ref().map(|h| h.is_finished()) {
+            if !sent {
+                sent = self
+                    .shell_to_client_ctl
+                    .lock()
+                    .client_connection
+                    .send_timeout(
+                        ClientConnectionMsg::DisconnectExit(exit_status),
+                        consts::JOIN_POLL_DURATION,
+                    )
+                    .is_ok();
+            } else {
+                thread::sleep(consts::JOIN_POLL_DURATION);
+            }
+
+            let cur_progress = self.shell_to_client_progress.load(Ordering::Relaxed);
+            if cur_progress != progress {
+                progress = cur_progress;
+                progress_at = time::Instant::now();
+            } else if progress_at.elapsed() > EXIT_DRAIN_STALL_TIMEOUT {
+                warn!("client does not accept the final output, giving up on it");
+                if gave_up {
+                    return;
+                }
+                gave_up = true;
+                progress_at = time::Instant::now();
+                shutdown_client(client_stream);
+            }
+        }
+    }
+
     #[instrument(skip_all)]
     fn spawn_client_to_shell<'scope>(
         &'scope self,
-- 
2.43.0


From 78fe6c3bc58319029f9668c3529bee608a54905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 04/50] fix: answer detach and resize requests without wedging
 the daemon

---
 libshpool/src/daemon/server.rs | 144 +++++++++++++++++++--------------
 libshpool/src/daemon/shell.rs  |  73 +++++++++++++----
 2 files changed, 140 insertions(+), 77 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 30899ca..03d5a07 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     env,
     ffi::OsString,
     fs, io, net,
@@ -39,7 +39,7 @@ use shpool_protocol::{
     DetachRequest, KillReply, KillRequest, ListReply, LogLevel, MaybeSwitch, ModifyVarReply,
     ModifyVarRequest, ResizeReply, Session, SessionMessageDetachReply, SessionMessageReply,
     SessionMessageRequest, SessionMessageRequestPayload, SessionStatus, SetLogLevelReply,
-    SetLogLevelRequest, VersionHeader,
+    SetLogLevelRequest, TtySize, VersionHeader,
 };
 use tracing::{debug, error, info, instrument, span, warn, Level};
 
@@ -287,7 +287,7 @@ impl Server {
 
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
-        if let Some((child_exit_notifier, mut inner, pager_ctl_slot)) = shell_results {
+        if let Some((child_exit_notifier, mut inner, pager_ctl_slot, attach_gen)) = shell_results {
             let mut child_done = false;
             let client_stream = match inner.client_stream.as_mut() {
                 Some(s) => s,
@@ -379,7 +379,7 @@ impl Server {
                     let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.name) {
-                        session.lifecycle.record_detached();
+                        session.lifecycle.record_detached(attach_gen);
                         self.events_bus.publish(&events::Event::SessionDetached);
                     }
                 }
@@ -410,6 +410,7 @@ impl Server {
             Arc<ExitNotifier>,
             ArcMutexGuard<RawMutex, shell::SessionInner>,
             Arc<Mutex<Option<pager::PagerCtl>>>,
+            u64,
         )>,
         AttachStatus,
     )> {
@@ -444,7 +445,7 @@ impl Server {
                             // the channel is still open so the subshell is still running
                             info!("taking over existing session inner");
                             inner.client_stream = Some(stream.try_clone()?);
-                            session.lifecycle.record_attached(Attachment {
+                            let attach_gen = session.lifecycle.record_attached(Attachment {
                                 session_name_template: header.name_template.clone(),
                                 pid: peer_pid,
                             });
@@ -474,6 +475,7 @@ impl Server {
                                         Arc::clone(&session.child_exit_notifier),
                                         inner,
                                         Arc::clone(&session.pager_ctl),
+                                        attach_gen,
                                     )),
                                     AttachStatus::Attached { warnings },
                                 ));
@@ -532,7 +534,7 @@ impl Server {
             matches!(motd, MotdDisplayMode::Dump),
         )?;
 
-        session.lifecycle.record_attached(Attachment {
+        let attach_gen = session.lifecycle.record_attached(Attachment {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
@@ -562,6 +564,7 @@ impl Server {
                     Arc::clone(&session.child_exit_notifier),
                     session.inner.lock_arc(),
                     Arc::clone(&session.pager_ctl),
+                    attach_gen,
                 )),
                 AttachStatus::Created { warnings },
             ))
@@ -625,33 +628,43 @@ impl Server {
     fn handle_detach(&self, mut stream: UnixStream, request: DetachRequest) -> anyhow::Result<()> {
         let mut not_found_sessions = vec![];
         let mut not_attached_sessions = vec![];
-        {
-            let _s = span!(Level::INFO, "lock(shells)").entered();
-            let shells = self.shells.lock();
-            for session in request.sessions.into_iter() {
-                if let Some(s) = shells.get(&session) {
-                    let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
-                    let shell_to_client_ctl = s.shell_to_client_ctl.lock();
-                    shell_to_client_ctl
-                        .client_connection
-                        .send(shell::ClientConnectionMsg::Disconnect)
-                        .context("sending client detach to shell->client")?;
-                    let status = shell_to_client_ctl
-                        .client_connection_ack
-                        .recv()
-                        .context("getting client conn ack")?;
-                    info!("detached session({}), status = {:?}", session, status);
-                    if let shell::ClientConnectionStatus::DetachNone = status {
-                        not_attached_sessions.push(session);
-                    } else {
-                        // The bidi-loop unwind in handle_attach owns the SessionDetached publish;
-                        // we just update the lifecycle state eagerly so a concurrent list()
-                        // reflects the detach immediately.
-                        s.lifecycle.record_detached();
-                    }
-                } else {
-                    not_found_sessions.push(session);
-                }
+        let mut done = HashSet::new();
+        for session in request.sessions.into_iter() {
+            if !done.insert(session.clone()) {
+                continue;
+            }
+
+            // We must not hold the global session table lock while talking to the
+            // shell->client thread, since that might be busy with a slow client.
+            let handles = {
+                let _s = span!(Level::INFO, "lock(shells)").entered();
+                let shells = self.shells.lock();
+                shells.get(&session).map(|s| {
+                    (
+                        Arc::clone(&s.shell_to_client_ctl),
+                        Arc::clone(&s.lifecycle),
+                        s.lifecycle.snapshot().attach_gen,
+                    )
+                })
+            };
+            let Some((shell_to_client_ctl, lifecycle, attach_gen)) = handles else {
+                not_found_sessions.push(session);
+                continue;
+            };
+
+            let status = {
+                let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
+                let shell_to_client_ctl = shell_to_client_ctl.lock();
+                shell_to_client_ctl.disconnect_client(SESSION_MSG_TIMEOUT)
+            };
+            info!("detached session({}), status = {:?}", session, status);
+            if let shell::ClientConnectionStatus::DetachNone = status {
+                not_attached_sessions.push(session);
+            } else {
+                // The bidi-loop unwind in handle_attach owns the SessionDetached publish;
+                // we just update the lifecycle state eagerly so a concurrent list()
+                // reflects the detach immediately.
+                lifecycle.record_detached(attach_gen);
             }
         }
 
@@ -851,16 +864,14 @@ impl Server {
                 let _s = span!(Level::INFO, "lock(pager_ctl)").entered();
                 let pager_ctl = pager_ctl.lock();
 
-                if let Some(pager_ctl) = pager_ctl.as_ref() {
+                let res = if let Some(pager_ctl) = pager_ctl.as_ref() {
                     info!("resizing pager");
-                    pager_ctl
-                        .tty_size_change
-                        .send_timeout(resize_request.tty_size.clone(), SESSION_MSG_TIMEOUT)
-                        .context("sending tty size change to pager")?;
-                    pager_ctl
-                        .tty_size_change_ack
-                        .recv_timeout(SESSION_MSG_TIMEOUT)
-                        .context("recving tty size change ack from pager")?;
+                    resize(
+                        &pager_ctl.tty_size_change,
+                        &pager_ctl.tty_size_change_ack,
+                        resize_request.tty_size,
+                    )
+                    .context("resizing pager")
                 } else {
                     let shell_to_client_ctl = {
                         let _s = span!(Level::INFO, "resize_lock_2(shells)").entered();
@@ -874,17 +885,21 @@ impl Server {
                     let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
                     let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                    shell_to_client_ctl
-                        .tty_size_change
-                        .send_timeout(resize_request.tty_size, SESSION_MSG_TIMEOUT)
-                        .context("sending tty size change to shell->client")?;
-                    shell_to_client_ctl
-                        .tty_size_change_ack
-                        .recv_timeout(SESSION_MSG_TIMEOUT)
-                        .context("recving tty size ack")?;
-                }
+                    resize(
+                        &shell_to_client_ctl.tty_size_change,
+                        &shell_to_client_ctl.tty_size_change_ack,
+                        resize_request.tty_size,
+                    )
+                    .context("resizing shell->client")
+                };
 
-                Ok(SessionMessageReply::Resize(ResizeReply::Ok))
+                match res {
+                    Ok(()) => Ok(SessionMessageReply::Resize(ResizeReply::Ok)),
+                    Err(e) => {
+                        warn!("nobody there to resize '{}': {:?}", header.session_name, e);
+                        Ok(SessionMessageReply::NotAttached)
+                    }
+                }
             }
             SessionMessageRequestPayload::Detach => {
                 let shell_to_client_ctl = {
@@ -899,14 +914,7 @@ impl Server {
                 let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
                 let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                shell_to_client_ctl
-                    .client_connection
-                    .send_timeout(shell::ClientConnectionMsg::Disconnect, SESSION_MSG_TIMEOUT)
-                    .context("sending client detach to shell->client")?;
-                let status = shell_to_client_ctl
-                    .client_connection_ack
-                    .recv_timeout(SESSION_MSG_TIMEOUT)
-                    .context("getting client conn ack")?;
+                let status = shell_to_client_ctl.disconnect_client(SESSION_MSG_TIMEOUT);
                 info!("detached session({}), status = {:?}", header.session_name, status);
                 Ok(SessionMessageReply::Detach(SessionMessageDetachReply::Ok))
             }
@@ -1149,6 +1157,7 @@ impl Server {
             heartbeat: heartbeat_tx,
             heartbeat_ack: heartbeat_ack_rx,
             maybe_switch: maybe_switch_tx,
+            client_stream: None,
         }));
 
         let mut session_inner = shell::SessionInner {
@@ -1200,7 +1209,7 @@ impl Server {
             child_pid,
             child_exit_notifier,
             started_at: time::SystemTime::now(),
-            lifecycle: shell::SessionLifecycle::default(),
+            lifecycle: Arc::new(shell::SessionLifecycle::default()),
             inner: Arc::new(Mutex::new(session_inner)),
         })
     }
@@ -1332,6 +1341,19 @@ fn does_not_support_sentinels(shell: &str) -> bool {
     shell.ends_with("nu")
 }
 
+/// Send a size change and wait until it has been picked up.
+fn resize(
+    tty_size_change: &crossbeam_channel::Sender<TtySize>,
+    tty_size_change_ack: &crossbeam_channel::Receiver<()>,
+    tty_size: TtySize,
+) -> anyhow::Result<()> {
+    tty_size_change
+        .send_timeout(tty_size, SESSION_MSG_TIMEOUT)
+        .context("sending tty size change")?;
+    tty_size_change_ack.recv_timeout(SESSION_MSG_TIMEOUT).context("recving tty size ack")?;
+    Ok(())
+}
+
 #[instrument(skip_all)]
 fn parse_connect_header(stream: &mut UnixStream) -> anyhow::Result<ConnectHeader> {
     let header: ConnectHeader = protocol::decode_from(stream).context("parsing header")?;
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 53bf0e3..01622c5 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -81,18 +81,24 @@ pub struct SessionLifecycle {
 }
 
 impl SessionLifecycle {
-    /// Record a client attaching to the session.
-    pub fn record_attached(&self, attachment: Attachment) {
+    /// Record a client attaching to the session. Returns the generation to
+    /// pass to [`SessionLifecycle::record_detached`] when it goes away.
+    pub fn record_attached(&self, attachment: Attachment) -> u64 {
         let mut state = self.state.lock();
         state.last_connected_at = Some(time::SystemTime::now());
         state.attachment = Some(attachment);
+        state.attach_gen += 1;
+        state.attach_gen
     }
 
-    /// Record the attached client going away.
-    pub fn record_detached(&self) {
+    /// Record the attached client going away, unless another one has
+    /// attached since.
+    pub fn record_detached(&self, attach_gen: u64) {
         let mut state = self.state.lock();
-        state.last_disconnected_at = Some(time::SystemTime::now());
-        state.attachment = None;
+        if state.attach_gen == attach_gen {
+            state.last_disconnected_at = Some(time::SystemTime::now());
+            state.attachment = None;
+        }
     }
 
     /// Return a copy of the current lifecycle state.
@@ -113,13 +119,15 @@ pub struct SessionLifecycleState {
     /// client holds `inner` while attached, which would otherwise prevent
     /// `handle_list` from reading it while a client is attached.
     pub attachment: Option<Attachment>,
+    /// Counts the attachments this session has seen.
+    pub attach_gen: u64,
 }
 
 /// Session represent a shell session
 #[derive(Debug)]
 pub struct Session {
     pub started_at: time::SystemTime,
-    pub lifecycle: SessionLifecycle,
+    pub lifecycle: Arc<SessionLifecycle>,
     pub child_pid: libc::pid_t,
     pub child_exit_notifier: Arc<ExitNotifier>,
     pub shell_to_client_ctl: Arc<Mutex<ShellToClientCtl>>,
@@ -736,7 +744,9 @@ impl SessionInner {
 
         {
             let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();
-            let shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
+            shell_to_client_ctl.client_stream =
+                Some(client_stream.try_clone().context("creating ctl client stream handle")?);
             shell_to_client_ctl
                 .client_connection
                 .send_timeout(
@@ -1166,14 +1176,7 @@ impl SessionInner {
     #[instrument(skip_all)]
     fn action_detach(&self) -> anyhow::Result<()> {
         let shell_to_client_ctl = self.shell_to_client_ctl.lock();
-        shell_to_client_ctl
-            .client_connection
-            .send_timeout(ClientConnectionMsg::Disconnect, SHELL_TO_CLIENT_CTL_TIMEOUT)
-            .context("signaling client detach to shell->client thread")?;
-        let status = shell_to_client_ctl
-            .client_connection_ack
-            .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
-            .context("waiting for client connection ack (3)")?;
+        let status = shell_to_client_ctl.disconnect_client(SHELL_TO_CLIENT_CTL_TIMEOUT);
 
         info!("action detach, status={:?}", status);
         Ok(())
@@ -1215,6 +1218,44 @@ pub struct ShellToClientCtl {
     /// because we just blast this out and the caller doesn't need
     /// to know about completion.
     pub maybe_switch: crossbeam_channel::Sender<MaybeSwitch>,
+
+    /// A handle for the stream of the attached client, if any. Only used to cut off
+    /// a client which keeps the shell->client thread busy by not reading its output.
+    pub client_stream: Option<UnixStream>,
+}
+
+impl ShellToClientCtl {
+    /// Have the shell->client thread disconnect the attached client, if any. Cuts
+    /// the client's connection if that thread does not respond in time.
+    pub fn disconnect_client(&self, timeout: time::Duration) -> ClientConnectionStatus {
+        let sent = match self
+            .client_connection
+            .send_timeout(ClientConnectionMsg::Disconnect, timeout)
+        {
+            Ok(()) => match self.client_connection_ack.recv_timeout(timeout) {
+                Ok(status) => return status,
+                Err(_) => true,
+            },
+            Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => false,
+            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
+                info!("shell->client thread is gone, so there is no client to disconnect");
+                return ClientConnectionStatus::DetachNone;
+            }
+        };
+
+        match self.client_stream.as_ref() {
+            Some(stream) => {
+                warn!("shell->client thread does not respond, cutting off the client");
+                shutdown_client(stream);
+                if sent {
+                    // collect the late ack
+                    let _ = self.client_connection_ack.recv_timeout(timeout);
+                }
+                ClientConnectionStatus::Detached
+            }
+            None => ClientConnectionStatus::DetachNone,
+        }
+    }
 }
 
 /// Given a buffer, a length after which the data is not valid, a list of
-- 
2.43.0


From 7f0dee6825884fd0ad0f2dbe072593579b6ffc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 05/50] fix: report the exit status when the shell exits during
 a reattach

---
 libshpool/src/daemon/shell.rs | 103 ++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 37 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 01622c5..91befb7 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -742,27 +742,35 @@ impl SessionInner {
         let output_sink =
             io::BufWriter::new(client_stream.try_clone().context("wrapping stream in bufwriter")?);
 
-        {
+        let shell_to_client_live = {
             let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();
             let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
             shell_to_client_ctl.client_stream =
                 Some(client_stream.try_clone().context("creating ctl client stream handle")?);
-            shell_to_client_ctl
-                .client_connection
-                .send_timeout(
-                    ClientConnectionMsg::New(ClientConnection {
-                        sink: output_sink,
-                        size: init_tty_size,
-                        stream: shell_to_client_client_stream,
-                    }),
-                    SHELL_TO_CLIENT_CTL_TIMEOUT,
-                )
-                .context("attaching new client stream to shell->client thread")?;
-            let status = shell_to_client_ctl
-                .client_connection_ack
-                .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
-                .context("waiting for client connection ack (1)")?;
-            info!("client connection status={:?}", status);
+            shell_to_client_ctl.connect_client(ClientConnection {
+                sink: output_sink,
+                size: init_tty_size,
+                stream: shell_to_client_client_stream,
+            })
+        };
+        match shell_to_client_live {
+            Ok(true) => {}
+            Ok(false) => {
+                // The shell exited just as we were attaching to it.
+                let exit_status = child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR));
+                if let Some(exit_status) = exit_status {
+                    Self::write_exit_chunk(&client_stream, exit_status);
+                }
+                self.release_client(&client_stream);
+                return match exit_status {
+                    Some(_) => Ok(true),
+                    None => Err(anyhow!("shell->client thread is gone")),
+                };
+            }
+            Err(e) => {
+                self.release_client(&client_stream);
+                return Err(e);
+            }
         }
 
         let pty_master =
@@ -821,25 +829,17 @@ impl SessionInner {
                 let _s = span!(Level::INFO, "disconnect_lock(shell_to_client_ctl)").entered();
                 info!("telling shell->client to disconnect without reaping");
                 let shell_to_client_ctl = self.shell_to_client_ctl.lock();
-                let send_res = shell_to_client_ctl.client_connection.send_timeout(
-                    ClientConnectionMsg::Disconnect, SHELL_TO_CLIENT_CTL_TIMEOUT);
-
-                if let Err(send_timeout_err) = send_res {
-                    info!("failed to tell shell->client to disconnect: {:?}", send_timeout_err);
-
-                    // the shell->client didn't close the client stream for us, so we'll need
-                    // to handle that ourselves
-                    shutdown_socket(&client_stream, net::Shutdown::Both)?;
-                } else {
-                    let status = shell_to_client_ctl.client_connection_ack.recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
-                        .context("waiting for client connection ack (2)")?;
-                    info!("detached from shell->client, status = {:?}", status);
-                }
+                let status = shell_to_client_ctl.disconnect_client(SHELL_TO_CLIENT_CTL_TIMEOUT);
+                info!("detached from shell->client, status = {:?}", status);
+                // the shell->client thread might have dropped the client before
+                shutdown_client(&client_stream);
             }
 
             debug!("joining client_to_shell_h");
             match client_to_shell_h.join() {
-                Ok(v) => v.context("joining client_to_shell_h")?,
+                Ok(v) => {
+                    let _ = log_if_error("in client_to_shell_h", v);
+                }
                 Err(panic_err) => {
                     debug!("client_to_shell panic_err = {:?}", panic_err);
                     std::panic::resume_unwind(panic_err)
@@ -847,12 +847,16 @@ impl SessionInner {
             }
             debug!("joining heartbeat_h");
             match heartbeat_h.join() {
-                Ok(v) => v.context("joining heartbeat_h")?,
+                Ok(v) => {
+                    let _ = log_if_error("in heartbeat_h", v);
+                }
                 Err(panic_err) => std::panic::resume_unwind(panic_err),
             }
             debug!("joining supervisor_h");
             match supervisor_h.join() {
-                Ok(v) => v.context("joining supervisor_h")?,
+                Ok(v) => {
+                    let _ = log_if_error("in supervisor_h", v);
+                }
                 Err(panic_err) => std::panic::resume_unwind(panic_err),
             }
             debug!("joined all threads");
@@ -861,14 +865,18 @@ impl SessionInner {
         }).context("outer thread scope")?;
 
         let c_done = child_done.load(Ordering::Acquire);
-        if c_done {
-            shutdown_client(&client_stream);
-        }
+        self.release_client(&client_stream);
 
         info!("done child_done={}", c_done);
         Ok(c_done)
     }
 
+    /// Close the client connection at the end of an attachment.
+    fn release_client(&self, client_stream: &UnixStream) {
+        shutdown_client(client_stream);
+        self.shell_to_client_ctl.lock().client_stream = None;
+    }
+
     /// Have the shell->client thread forward what is left of the output of the exited
     /// shell followed by the exit status, for as long as the client accepts it.
     fn finish_output(&self, exit_status: i32, client_stream: &UnixStream) {
@@ -1225,6 +1233,27 @@ pub struct ShellToClientCtl {
 }
 
 impl ShellToClientCtl {
+    /// Hand a newly attached client to the shell->client thread. Returns false if that
+    /// thread is gone because the shell is.
+    fn connect_client(&self, conn: ClientConnection) -> anyhow::Result<bool> {
+        match self
+            .client_connection
+            .send_timeout(ClientConnectionMsg::New(conn), SHELL_TO_CLIENT_CTL_TIMEOUT)
+        {
+            Ok(()) => {}
+            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => return Ok(false),
+            Err(e) => {
+                return Err(anyhow!("attaching new client stream to shell->client: {}", e));
+            }
+        }
+        let status = self
+            .client_connection_ack
+            .recv_timeout(SHELL_TO_CLIENT_CTL_TIMEOUT)
+            .context("waiting for client connection ack (1)")?;
+        info!("client connection status={:?}", status);
+        Ok(true)
+    }
+
     /// Have the shell->client thread disconnect the attached client, if any. Cuts
     /// the client's connection if that thread does not respond in time.
     pub fn disconnect_client(&self, timeout: time::Duration) -> ClientConnectionStatus {
-- 
2.43.0


From 2858103904c3cc5e5f30a5a0f6a3025324491807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 06/50] fix: do not hang up on a client for being slow to read
 a heartbeat

---
 libshpool/src/daemon/shell.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 91befb7..10fd5bd 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -1119,7 +1119,9 @@ impl SessionInner {
                             // the shell->client process exited cleanly. We should not raise a
                             // ruckus.
                             Err(crossbeam_channel::RecvTimeoutError::Disconnected) => return Ok(()),
-                            Err(e) => return Err(e).context("waiting for heartbeat ack"),
+                            // Likewise, a client which is slow to read its output holds
+                            // up the heartbeat without being gone.
+                            Err(crossbeam_channel::RecvTimeoutError::Timeout) => continue,
                             Ok(client_present) => client_present,
                         };
                         if !client_present {
-- 
2.43.0


From 7918044fe7719729cf8a748b83d47650b82ea465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 07/50] fix: never start two shells for a session name or
 unwind someone else's session

---
 libshpool/src/daemon/server.rs | 170 ++++++++++++++++++++++-----------
 1 file changed, 112 insertions(+), 58 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 03d5a07..ddc448a 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -83,6 +83,32 @@ pub struct Server {
         tracing_subscriber::registry::Registry,
     >,
     vars: Mutex<HashMap<String, String>>,
+    /// The names of the sessions that are currently being created, so that
+    /// we never start two shells for the same name. Only touched with the
+    /// shells lock held, or by [`CreationGuard`].
+    creating: Arc<Mutex<HashSet<String>>>,
+}
+
+/// Reserves a session name while its shell is getting started.
+struct CreationGuard {
+    creating: Arc<Mutex<HashSet<String>>>,
+    name: String,
+}
+
+impl CreationGuard {
+    /// Returns None if someone else has already reserved the name.
+    fn reserve(creating: &Arc<Mutex<HashSet<String>>>, name: &str) -> Option<Self> {
+        if !creating.lock().insert(String::from(name)) {
+            return None;
+        }
+        Some(CreationGuard { creating: Arc::clone(creating), name: String::from(name) })
+    }
+}
+
+impl std::ops::Drop for CreationGuard {
+    fn drop(&mut self) {
+        self.creating.lock().remove(&self.name);
+    }
 }
 
 impl Server {
@@ -133,6 +159,7 @@ impl Server {
             daily_messenger,
             log_level_handle,
             vars,
+            creating: Arc::new(Mutex::new(HashSet::new())),
         }))
     }
 
@@ -282,8 +309,14 @@ impl Server {
             Err(err) => return Err(err)?,
         };
 
-        self.link_ssh_auth_sock(&header).context("linking SSH_AUTH_SOCK")?;
-        self.populate_session_env_file(&header).context("populating session env file")?;
+        // The session exists at this point, so problems with its convenience files
+        // are not worth losing it over.
+        if let Err(err) = self.link_ssh_auth_sock(&header) {
+            warn!("linking SSH_AUTH_SOCK: {:?}", err);
+        }
+        if let Err(err) = self.populate_session_env_file(&header) {
+            warn!("populating session env file: {:?}", err);
+        }
 
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
@@ -321,22 +354,21 @@ impl Server {
                         info!("not time to show the motd in the pager yet");
                         header.local_tty_size.clone()
                     }
-                    Err(e) => match e.downcast::<PagerError>() {
-                        Ok(PagerError::ClientHangup) => {
-                            info!("client hung up while talking to pager, bailing");
-                            return Ok(());
-                        }
-                        Err(e) => {
-                            return Err(e).context("showing motd in pager")?;
+                    Err(e) => {
+                        if let Some(PagerError::ClientHangup) = e.downcast_ref::<PagerError>() {
+                            info!("client hung up while talking to pager");
+                        } else {
+                            warn!("showing motd in pager: {:?}", e);
                         }
-                    },
+                        header.local_tty_size.clone()
+                    }
                 }
             } else {
                 header.local_tty_size.clone()
             };
 
             info!("starting bidi stream loop");
-            match inner.bidi_stream(conn_id, init_tty_size, child_exit_notifier) {
+            match inner.bidi_stream(conn_id, init_tty_size, Arc::clone(&child_exit_notifier)) {
                 Ok(done) => {
                     child_done = done;
                 }
@@ -355,10 +387,14 @@ impl Server {
                 {
                     let _s = span!(Level::INFO, "2_lock(shells)").entered();
                     let mut shells = self.shells.lock();
-                    // The publish below is gated on `is_some()` because a
-                    // concurrent kill or reaper may have already removed the
-                    // entry (and published) while we were waiting for the lock.
-                    if shells.remove(&header.name).is_some() {
+                    // A concurrent kill or reaper may have already removed the
+                    // entry (and published) while we were waiting for the lock,
+                    // and the name might even be in use for a new session by now.
+                    if shells
+                        .get(&header.name)
+                        .is_some_and(|s| Arc::ptr_eq(&s.child_exit_notifier, &child_exit_notifier))
+                    {
+                        shells.remove(&header.name);
                         self.events_bus.publish(&events::Event::SessionRemoved);
                     }
                 }
@@ -369,16 +405,21 @@ impl Server {
                 // a separate if statement to avoid holding the shells lock
                 // while we join the old thread.
                 if let Some(h) = inner.shell_to_client_join_h.take() {
-                    h.join()
-                        .map_err(|e| anyhow!("joining shell->client after child exit: {:?}", e))?
-                        .context("within shell->client thread after child exit")?;
+                    match h.join() {
+                        Ok(Ok(())) => {}
+                        Ok(Err(e)) => warn!("within shell->client after child exit: {:?}", e),
+                        Err(e) => warn!("joining shell->client after child exit: {:?}", e),
+                    }
                 }
             } else {
                 // Client disconnected but shell is still running - set last_disconnected_at
                 {
                     let _s = span!(Level::INFO, "disconnect_lock(shells)").entered();
                     let shells = self.shells.lock();
-                    if let Some(session) = shells.get(&header.name) {
+                    if let Some(session) = shells
+                        .get(&header.name)
+                        .filter(|s| Arc::ptr_eq(&s.child_exit_notifier, &child_exit_notifier))
+                    {
                         session.lifecycle.record_detached(attach_gen);
                         self.events_bus.publish(&events::Event::SessionDetached);
                     }
@@ -399,7 +440,7 @@ impl Server {
     #[allow(clippy::type_complexity)]
     fn select_shell_desc(
         &self,
-        mut stream: UnixStream,
+        stream: UnixStream,
         conn_id: usize,
         header: &AttachHeader,
         user_info: &user::Info,
@@ -420,7 +461,7 @@ impl Server {
         // while grubbing about for an existing session, then release it
         // so that we do not hold it during shell startup, which might
         // fail.
-        {
+        let creation_guard = {
             // we unwrap to propagate the poison as an unwind
             let _s = span!(Level::INFO, "select_shell_lock_1(shells)").entered();
             let shells = self.shells.lock();
@@ -444,12 +485,6 @@ impl Server {
                         None => {
                             // the channel is still open so the subshell is still running
                             info!("taking over existing session inner");
-                            inner.client_stream = Some(stream.try_clone()?);
-                            let attach_gen = session.lifecycle.record_attached(Attachment {
-                                session_name_template: header.name_template.clone(),
-                                pid: peer_pid,
-                            });
-
                             if inner
                                 .shell_to_client_join_h
                                 .as_ref()
@@ -462,6 +497,11 @@ impl Server {
                             } else {
                                 // Reattach confirmed; the create path won't run
                                 // and clobber the entry, so it's safe to publish.
+                                inner.client_stream = Some(stream.try_clone()?);
+                                let attach_gen = session.lifecycle.record_attached(Attachment {
+                                    session_name_template: header.name_template.clone(),
+                                    pid: peer_pid,
+                                });
                                 self.events_bus.publish(&events::Event::SessionAttached);
                                 if let Err(err) = self.hooks.on_reattach(&header.name) {
                                     warn!("reattach hook: {:?}", err);
@@ -498,26 +538,26 @@ impl Server {
                     {
                         info!("shell->client thread finished, joining");
                         if let Some(h) = inner.shell_to_client_join_h.take() {
-                            h.join()
-                                .map_err(|e| anyhow!("joining shell->client on reattach: {:?}", e))?
-                                .context("within shell->client thread on reattach")?;
+                            match h.join() {
+                                Ok(Ok(())) => {}
+                                Ok(Err(e)) => warn!("within shell->client on reattach: {:?}", e),
+                                Err(e) => warn!("joining shell->client on reattach: {:?}", e),
+                            }
                         }
                     }
 
                     // fallthrough to bidi streaming
                 } else {
-                    info!("busy shell session, doing nothing");
-                    // The stream is busy, so we just inform the client and close the stream.
-                    write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })?;
-                    stream.shutdown(net::Shutdown::Both).context("closing stream")?;
-                    if let Err(err) = self.hooks.on_busy(&header.name) {
-                        warn!("busy hook: {:?}", err);
-                    }
-                    Err(ShellSelectionError::BusyShellSession)?;
+                    return Err(self.refuse_busy(stream, header));
                 }
             } else {
                 info!("no existing '{}' session, creating new one", &header.name);
             }
+
+            match CreationGuard::reserve(&self.creating, &header.name) {
+                Some(guard) => guard,
+                None => return Err(self.refuse_busy(stream, header)),
+            }
         };
 
         info!("creating new subshell");
@@ -538,39 +578,53 @@ impl Server {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
-        {
+        // Nobody else can know about the new session yet, so this does not block. We hold
+        // on to the inner lock from here on so that nobody can get in between.
+        let inner = session.inner.lock_arc();
+        let child_exit_notifier = Arc::clone(&session.child_exit_notifier);
+        let pager_ctl = Arc::clone(&session.pager_ctl);
+
+        let stale_session = {
             let _s = span!(Level::INFO, "select_shell_lock_2(shells)").entered();
             let mut shells = self.shells.lock();
             // If we're replacing a stale entry whose shell process is
             // gone, surface that to subscribers before announcing the
             // replacement.
-            if shells.insert(header.name.clone(), Box::new(session)).is_some() {
+            let stale_session = shells.insert(header.name.clone(), Box::new(session));
+            if stale_session.is_some() {
                 self.events_bus.publish(&events::Event::SessionRemoved);
             }
             self.events_bus.publish(&events::Event::SessionCreated);
             self.events_bus.publish(&events::Event::SessionAttached);
+            drop(creation_guard);
+            stale_session
+        };
+        if let Some(stale_session) = stale_session {
+            // Make sure that we don't leave a shell behind which nobody can reach anymore
+            // if it was just the shell->client thread that failed.
+            if let Err(err) = stale_session.kill() {
+                warn!("killing replaced session '{}': {:?}", header.name, err);
+            }
         }
 
-        // we unwrap to propagate the poison as an unwind
-        let _s = span!(Level::INFO, "select_shell_lock_3(shells)").entered();
-        let shells = self.shells.lock();
+        Ok((
+            Some((child_exit_notifier, inner, pager_ctl, attach_gen)),
+            AttachStatus::Created { warnings },
+        ))
+    }
 
-        // return a reference to the inner session so that
-        // we can work with it without the global session
-        // table lock held
-        if let Some(session) = shells.get(&header.name) {
-            Ok((
-                Some((
-                    Arc::clone(&session.child_exit_notifier),
-                    session.inner.lock_arc(),
-                    Arc::clone(&session.pager_ctl),
-                    attach_gen,
-                )),
-                AttachStatus::Created { warnings },
-            ))
-        } else {
-            Ok((None, AttachStatus::UnexpectedError(String::from("selecting session"))))
+    /// Tell the client that the session is taken and close the stream.
+    fn refuse_busy(&self, mut stream: UnixStream, header: &AttachHeader) -> anyhow::Error {
+        info!("busy shell session, doing nothing");
+        let reply = write_reply(&mut stream, AttachReplyHeader { status: AttachStatus::Busy })
+            .and_then(|_| stream.shutdown(net::Shutdown::Both).context("closing stream"));
+        if let Err(err) = reply {
+            warn!("refusing attach to busy session: {:?}", err);
+        }
+        if let Err(err) = self.hooks.on_busy(&header.name) {
+            warn!("busy hook: {:?}", err);
         }
+        ShellSelectionError::BusyShellSession.into()
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From 78e923b0dcbad850b2e4b66e6cd7dfc969401eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 08/50] fix: list the attachment status and details from one
 snapshot

---
 libshpool/src/daemon/server.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index ddc448a..780d168 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -856,12 +856,12 @@ impl Server {
         let sessions: anyhow::Result<Vec<Session>> = shells
             .iter()
             .map(|(k, v)| {
-                let status = match v.inner.try_lock() {
-                    Some(_) => SessionStatus::Disconnected,
-                    None => SessionStatus::Attached,
-                };
-
+                // Everything has to come from the same snapshot so that it is consistent.
                 let lifecycle_state = v.lifecycle.snapshot();
+                let status = match lifecycle_state.attachment {
+                    None => SessionStatus::Disconnected,
+                    Some(_) => SessionStatus::Attached,
+                };
                 let last_connected_at_unix_ms = lifecycle_state
                     .last_connected_at
                     .map(|t| t.duration_since(time::UNIX_EPOCH).map(|d| d.as_millis() as i64))
-- 
2.43.0


From 7143979ed9eaa673789f48d5f16d961e3f4693ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 09/50] fix: answer variable changes whatever the sessions are
 doing

---
 libshpool/src/daemon/server.rs | 26 +++++++++++---------------
 libshpool/src/daemon/shell.rs  | 31 +++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 780d168..d83aa42 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -769,7 +769,9 @@ impl Server {
         mut stream: UnixStream,
         request: ModifyVarRequest,
     ) -> anyhow::Result<()> {
-        let maybe_switch = {
+        {
+            // We hold the vars lock for the whole broadcast (which does not block), so that
+            // all the clients get to know about concurrent changes in the same order.
             let mut vars = self.vars.lock();
             if let Some(val) = request.val {
                 vars.insert(request.var, val);
@@ -777,25 +779,15 @@ impl Server {
                 vars.remove(&request.var);
             }
 
-            MaybeSwitch {
+            let maybe_switch = MaybeSwitch {
                 switch_to: None,
                 vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
-            }
-        };
-
-        let mut ctls = Vec::new();
-        {
+            };
             let shells = self.shells.lock();
             for session in shells.values() {
-                ctls.push(Arc::clone(&session.shell_to_client_ctl));
+                session.maybe_switch.broadcast(&maybe_switch);
             }
         }
-        for ctl in ctls.into_iter() {
-            let ctl = ctl.lock();
-            ctl.maybe_switch
-                .send_timeout(maybe_switch.clone(), SESSION_MSG_TIMEOUT)
-                .context("broadcasting maybe_switch")?;
-        }
 
         write_reply(&mut stream, ModifyVarReply {}).context("writing modify var reply")?;
         Ok(())
@@ -1202,6 +1194,10 @@ impl Server {
         // We make this buffered to avoid blocking during a broadcast. There is
         // no ack chan so we can afford to buffer a bit.
         let (maybe_switch_tx, maybe_switch_rx) = crossbeam_channel::bounded(10);
+        let maybe_switch = shell::MaybeSwitchQueue {
+            sender: maybe_switch_tx,
+            receiver: maybe_switch_rx.clone(),
+        };
 
         let shell_to_client_ctl = Arc::new(Mutex::new(shell::ShellToClientCtl {
             client_connection: client_connection_tx,
@@ -1210,7 +1206,6 @@ impl Server {
             tty_size_change_ack: tty_size_change_ack_rx,
             heartbeat: heartbeat_tx,
             heartbeat_ack: heartbeat_ack_rx,
-            maybe_switch: maybe_switch_tx,
             client_stream: None,
         }));
 
@@ -1259,6 +1254,7 @@ impl Server {
 
         Ok(shell::Session {
             shell_to_client_ctl,
+            maybe_switch,
             pager_ctl: Arc::new(Mutex::new(None)),
             child_pid,
             child_exit_notifier,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 10fd5bd..d8ddf15 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -131,6 +131,7 @@ pub struct Session {
     pub child_pid: libc::pid_t,
     pub child_exit_notifier: Arc<ExitNotifier>,
     pub shell_to_client_ctl: Arc<Mutex<ShellToClientCtl>>,
+    pub maybe_switch: MaybeSwitchQueue,
     pub pager_ctl: Arc<Mutex<Option<PagerCtl>>>,
     /// Mutable state with the lock held by the servicing handle_attach thread
     /// while a tty is attached to the session. Probing the mutex can be used
@@ -1223,12 +1224,6 @@ pub struct ShellToClientCtl {
     // on us.
     pub heartbeat_ack: crossbeam_channel::Receiver<bool>,
 
-    /// A control channel telling the shell->client thread to
-    /// broadcast the given MaybeSwitch. There is no ack channel
-    /// because we just blast this out and the caller doesn't need
-    /// to know about completion.
-    pub maybe_switch: crossbeam_channel::Sender<MaybeSwitch>,
-
     /// A handle for the stream of the attached client, if any. Only used to cut off
     /// a client which keeps the shell->client thread busy by not reading its output.
     pub client_stream: Option<UnixStream>,
@@ -1289,6 +1284,30 @@ impl ShellToClientCtl {
     }
 }
 
+/// A control channel telling the shell->client thread to
+/// broadcast the given MaybeSwitch. There is no ack channel
+/// because we just blast this out and the caller doesn't need
+/// to know about completion.
+#[derive(Debug)]
+pub struct MaybeSwitchQueue {
+    pub sender: crossbeam_channel::Sender<MaybeSwitch>,
+    /// Another handle for the end that the shell->client thread reads from.
+    pub receiver: crossbeam_channel::Receiver<MaybeSwitch>,
+}
+
+impl MaybeSwitchQueue {
+    /// Queue up a MaybeSwitch without ever blocking. Callers must not broadcast
+    /// concurrently. Every MaybeSwitch supersedes the ones before it, so if
+    /// the shell->client thread can't keep up we drop the oldest ones.
+    pub fn broadcast(&self, maybe_switch: &MaybeSwitch) {
+        while let Err(crossbeam_channel::TrySendError::Full(_)) =
+            self.sender.try_send(maybe_switch.clone())
+        {
+            let _ = self.receiver.try_recv();
+        }
+    }
+}
+
 /// Given a buffer, a length after which the data is not valid, a list of
 /// sections to remove, and some scratch space, compact the given buffer and
 /// return a new len.
-- 
2.43.0


From 1a550e30c72306e152f885548510a671732a2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 10/50] fix: only end a session once its own time to live has
 expired

---
 libshpool/src/daemon/server.rs     | 28 +++++++----
 libshpool/src/daemon/ttl_reaper.rs | 76 ++++++++++++++----------------
 2 files changed, 55 insertions(+), 49 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index d83aa42..38c3ee2 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -17,7 +17,6 @@ use std::{
     env,
     ffi::OsString,
     fs, io, net,
-    ops::Add,
     os,
     os::unix::{
         fs::PermissionsExt as _,
@@ -74,7 +73,7 @@ pub struct Server {
     /// the main thread to become available to accept new connections.
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     runtime_dir: PathBuf,
-    register_new_reapable_session: crossbeam_channel::Sender<(String, Instant)>,
+    register_new_reapable_session: crossbeam_channel::Sender<ttl_reaper::Registration>,
     hooks: Box<dyn hooks::Hooks + Send + Sync>,
     events_bus: Arc<events::EventBus>,
     daily_messenger: Arc<show_motd::DailyMessenger>,
@@ -574,6 +573,7 @@ impl Server {
             matches!(motd, MotdDisplayMode::Dump),
         )?;
 
+        let started_at = Instant::now();
         let attach_gen = session.lifecycle.record_attached(Attachment {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
@@ -607,6 +607,23 @@ impl Server {
             }
         }
 
+        // Only register the session now that the reaper can find it in the table.
+        if let Some(ttl_secs) = header.ttl_secs {
+            // A ttl which is too large to represent is never going to expire.
+            if let Some(reap_at) = started_at.checked_add(Duration::from_secs(ttl_secs)) {
+                info!("registering session with ttl with the reaper");
+                if let Err(err) =
+                    self.register_new_reapable_session.send(ttl_reaper::Registration {
+                        session_name: header.name.clone(),
+                        child_exit_notifier: Arc::clone(&child_exit_notifier),
+                        reap_at,
+                    })
+                {
+                    error!("sending reapable session registration msg: {:?}", err);
+                }
+            }
+        }
+
         Ok((
             Some((child_exit_notifier, inner, pager_ctl, attach_gen)),
             AttachStatus::Created { warnings },
@@ -1245,13 +1262,6 @@ impl Server {
                 child_exit_notifier: shell_to_client_child_exit_notifier,
             })?);
 
-        if let Some(ttl_secs) = header.ttl_secs {
-            info!("registering session with ttl with the reaper");
-            self.register_new_reapable_session
-                .send((header.name.clone(), Instant::now().add(Duration::from_secs(ttl_secs))))
-                .context("sending reapable session registration msg")?;
-        }
-
         Ok(shell::Session {
             shell_to_client_ctl,
             maybe_switch,
diff --git a/libshpool/src/daemon/ttl_reaper.rs b/libshpool/src/daemon/ttl_reaper.rs
index ad4da2e..4190346 100644
--- a/libshpool/src/daemon/ttl_reaper.rs
+++ b/libshpool/src/daemon/ttl_reaper.rs
@@ -14,8 +14,8 @@
 
 /*! The ttl reaper is responsible to reaping sessions which
   have a ttl set. It uses a channel for a mailbox to listen
-  for newly woken threads, adds a generation id to session
-  names to avoid clobbering fresh session with the same
+  for newly woken threads, checks the identity of sessions
+  to avoid clobbering fresh session with the same
   session name as a previous session, and uses a min heap
   to schedule wakeups in order to reap threads on time.
 */
@@ -31,32 +31,30 @@ use parking_lot::Mutex;
 use tracing::{info, span, warn, Level};
 
 use super::events;
+use super::exit_notify::ExitNotifier;
 use super::shell;
 
 /// Run the reaper thread loop. Should be invoked in a dedicated
 /// thread.
 pub fn run(
-    new_sess: crossbeam_channel::Receiver<(String, Instant)>,
+    new_sess: crossbeam_channel::Receiver<Registration>,
     shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>,
     events_bus: Arc<events::EventBus>,
 ) -> anyhow::Result<()> {
     let _s = span!(Level::INFO, "ttl_reaper").entered();
 
     let mut heap = BinaryHeap::new();
-    let mut gen_ids = HashMap::new();
 
     loop {
         // empty heap loop, just waiting for new sessions to watch
         while heap.is_empty() {
             match new_sess.recv() {
-                Ok((session_name, reap_at)) => {
-                    let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                    *gen_id += 1;
+                Ok(reg) => {
                     info!(
-                        "scheduling first sess {}:{} to be reaped at {:?}",
-                        &session_name, *gen_id, reap_at
+                        "scheduling first sess {} to be reaped at {:?}",
+                        &reg.session_name, reg.reap_at
                     );
-                    heap.push(Reapable { session_name, gen_id: *gen_id, reap_at });
+                    heap.push(reg);
                 }
                 Err(crossbeam_channel::RecvError) => {
                     info!("bailing due to RecvError in empty heap loop");
@@ -76,16 +74,10 @@ pub fn run(
             crossbeam_channel::select! {
                 recv(new_sess) -> new_sess_msg => {
                     match new_sess_msg {
-                        Ok((session_name, reap_at)) => {
-                            let gen_id = gen_ids.entry(session_name.clone()).or_insert(0);
-                            *gen_id += 1;
-                            info!("scheduling {}:{} to be reaped at {:?}",
-                                  &session_name, *gen_id, reap_at);
-                            heap.push(Reapable {
-                                session_name,
-                                gen_id: *gen_id,
-                                reap_at,
-                            });
+                        Ok(reg) => {
+                            info!("scheduling {} to be reaped at {:?}",
+                                  &reg.session_name, reg.reap_at);
+                            heap.push(reg);
                         }
                         Err(crossbeam_channel::RecvError) => {
                             info!("bailing due to RecvError");
@@ -97,17 +89,19 @@ pub fn run(
                     let reapable = heap.pop()
                         .expect("there to be an entry in a non-empty heap");
                     info!("waking up to reap {:?}", reapable);
-                    let current_gen = gen_ids.get(&reapable.session_name)
-                        .copied().unwrap_or(0);
-                    if current_gen != reapable.gen_id {
-                        info!("ignoring {}:{} because current gen is {:?}",
-                              &reapable.session_name, reapable.gen_id, current_gen);
-                        continue;
-                    }
 
                     let _s = span!(Level::INFO, "lock(shells)").entered();
                     let mut shells = shells.lock();
                     if let Some(sess) = shells.get(&reapable.session_name) {
+                        if !Arc::ptr_eq(
+                            &sess.child_exit_notifier,
+                            &reapable.child_exit_notifier,
+                        ) {
+                            info!("ignoring {} because it is a fresh session by now",
+                                  reapable.session_name);
+                            continue;
+                        }
+
                         if let Err(e) = sess.kill() {
                             warn!("error trying to kill '{}': {:?}",
                                   reapable.session_name, e);
@@ -125,30 +119,32 @@ pub fn run(
     }
 }
 
-/// A record in the min heap that we use to track the
-/// sessions that need to be cleaned up.
+/// A request to reap a session once its ttl is over, also serving as a
+/// record in the min heap that we use to track the sessions that need to
+/// be cleaned up.
 #[derive(Debug)]
-struct Reapable {
-    session_name: String,
-    gen_id: usize,
-    reap_at: Instant,
+pub struct Registration {
+    pub session_name: String,
+    /// Identifies the session.
+    pub child_exit_notifier: Arc<ExitNotifier>,
+    pub reap_at: Instant,
 }
 
-impl cmp::PartialEq for Reapable {
-    fn eq(&self, rhs: &Reapable) -> bool {
+impl cmp::PartialEq for Registration {
+    fn eq(&self, rhs: &Registration) -> bool {
         self.reap_at == rhs.reap_at
     }
 }
-impl cmp::Eq for Reapable {}
+impl cmp::Eq for Registration {}
 
-impl cmp::PartialOrd for Reapable {
-    fn partial_cmp(&self, other: &Reapable) -> Option<cmp::Ordering> {
+impl cmp::PartialOrd for Registration {
+    fn partial_cmp(&self, other: &Registration) -> Option<cmp::Ordering> {
         Some(self.cmp(other))
     }
 }
 
-impl cmp::Ord for Reapable {
-    fn cmp(&self, other: &Reapable) -> cmp::Ordering {
+impl cmp::Ord for Registration {
+    fn cmp(&self, other: &Registration) -> cmp::Ordering {
         // flip the ordering to make a min heap
         other.reap_at.cmp(&self.reap_at)
     }
-- 
2.43.0


From 0aba886a75c2515b7e2d88be57905bcc2c7918cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 11/50] fix: catch up clients that attach while a variable
 changes

---
 libshpool/src/daemon/server.rs | 34 ++++++++++++++++++++++++++++++++--
 libshpool/src/daemon/shell.rs  |  4 +++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 38c3ee2..5802dfd 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -50,7 +50,7 @@ use crate::{
         etc_environment, events, exit_notify::ExitNotifier, hooks, pager, pager::PagerError, shell,
         shell_inject, show_motd, ttl_reaper,
     },
-    protocol, test_hooks, tty, user,
+    protocol, template, test_hooks, tty, user,
 };
 
 const DEFAULT_INITIAL_SHELL_PATH: &str = "/usr/bin:/bin:/usr/sbin:/sbin";
@@ -367,7 +367,13 @@ impl Server {
             };
 
             info!("starting bidi stream loop");
-            match inner.bidi_stream(conn_id, init_tty_size, Arc::clone(&child_exit_notifier)) {
+            let on_connected = || self.catch_up_vars(&header, &child_exit_notifier);
+            match inner.bidi_stream(
+                conn_id,
+                init_tty_size,
+                Arc::clone(&child_exit_notifier),
+                &on_connected,
+            ) {
                 Ok(done) => {
                     child_done = done;
                 }
@@ -436,6 +442,30 @@ impl Server {
         Ok(())
     }
 
+    /// Notify a freshly connected client in case a variable has changed since it picked
+    /// its session name, since it was not there yet for the broadcast.
+    fn catch_up_vars(&self, header: &AttachHeader, child_exit_notifier: &Arc<ExitNotifier>) {
+        let Ok(template) = template::Template::new(&header.name_template) else {
+            return;
+        };
+        let vars = self.vars.lock();
+        if header.name_template.is_empty() || template.apply(&vars) == header.name {
+            return;
+        }
+
+        let maybe_switch = MaybeSwitch {
+            switch_to: None,
+            vars: vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
+        };
+        let shells = self.shells.lock();
+        if let Some(session) = shells
+            .get(&header.name)
+            .filter(|s| Arc::ptr_eq(&s.child_exit_notifier, child_exit_notifier))
+        {
+            session.maybe_switch.broadcast(&maybe_switch);
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     fn select_shell_desc(
         &self,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index d8ddf15..3fdd3cb 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -724,6 +724,8 @@ impl SessionInner {
         conn_id: usize,
         init_tty_size: TtySize,
         child_exit_notifier: Arc<ExitNotifier>,
+        // called once the shell->client thread has taken on the client
+        on_connected: &dyn Fn(),
     ) -> anyhow::Result<bool> {
         test_hooks::emit("daemon-bidi-stream-enter");
         #[allow(clippy::let_unit_value)]
@@ -755,7 +757,7 @@ impl SessionInner {
             })
         };
         match shell_to_client_live {
-            Ok(true) => {}
+            Ok(true) => on_connected(),
             Ok(false) => {
                 // The shell exited just as we were attaching to it.
                 let exit_status = child_exit_notifier.wait(Some(SHELL_EXIT_WAIT_DUR));
-- 
2.43.0


From 2b3d4c249dba6f96810da6045d7611d1d11d807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 12/50] fix: list a session as disconnected exactly when it can
 be attached again

---
 libshpool/src/daemon/server.rs | 35 +++++++++++++---------------------
 libshpool/src/daemon/shell.rs  | 22 +++++++--------------
 2 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 5802dfd..880751d 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -319,7 +319,7 @@ impl Server {
 
         test_hooks::emit("handle-attach-before-inner-session-lock");
 
-        if let Some((child_exit_notifier, mut inner, pager_ctl_slot, attach_gen)) = shell_results {
+        if let Some((child_exit_notifier, mut inner, pager_ctl_slot)) = shell_results {
             let mut child_done = false;
             let client_stream = match inner.client_stream.as_mut() {
                 Some(s) => s,
@@ -425,7 +425,9 @@ impl Server {
                         .get(&header.name)
                         .filter(|s| Arc::ptr_eq(&s.child_exit_notifier, &child_exit_notifier))
                     {
-                        session.lifecycle.record_detached(attach_gen);
+                        session.lifecycle.record_detached();
+                        // Whoever learns about the detach has to be able to attach again.
+                        drop(inner);
                         self.events_bus.publish(&events::Event::SessionDetached);
                     }
                 }
@@ -480,7 +482,6 @@ impl Server {
             Arc<ExitNotifier>,
             ArcMutexGuard<RawMutex, shell::SessionInner>,
             Arc<Mutex<Option<pager::PagerCtl>>>,
-            u64,
         )>,
         AttachStatus,
     )> {
@@ -527,7 +528,7 @@ impl Server {
                                 // Reattach confirmed; the create path won't run
                                 // and clobber the entry, so it's safe to publish.
                                 inner.client_stream = Some(stream.try_clone()?);
-                                let attach_gen = session.lifecycle.record_attached(Attachment {
+                                session.lifecycle.record_attached(Attachment {
                                     session_name_template: header.name_template.clone(),
                                     pid: peer_pid,
                                 });
@@ -544,7 +545,6 @@ impl Server {
                                         Arc::clone(&session.child_exit_notifier),
                                         inner,
                                         Arc::clone(&session.pager_ctl),
-                                        attach_gen,
                                     )),
                                     AttachStatus::Attached { warnings },
                                 ));
@@ -604,7 +604,7 @@ impl Server {
         )?;
 
         let started_at = Instant::now();
-        let attach_gen = session.lifecycle.record_attached(Attachment {
+        session.lifecycle.record_attached(Attachment {
             session_name_template: header.name_template.clone(),
             pid: peer_pid,
         });
@@ -655,7 +655,7 @@ impl Server {
         }
 
         Ok((
-            Some((child_exit_notifier, inner, pager_ctl, attach_gen)),
+            Some((child_exit_notifier, inner, pager_ctl)),
             AttachStatus::Created { warnings },
         ))
     }
@@ -737,18 +737,12 @@ impl Server {
 
             // We must not hold the global session table lock while talking to the
             // shell->client thread, since that might be busy with a slow client.
-            let handles = {
+            let shell_to_client_ctl = {
                 let _s = span!(Level::INFO, "lock(shells)").entered();
                 let shells = self.shells.lock();
-                shells.get(&session).map(|s| {
-                    (
-                        Arc::clone(&s.shell_to_client_ctl),
-                        Arc::clone(&s.lifecycle),
-                        s.lifecycle.snapshot().attach_gen,
-                    )
-                })
+                shells.get(&session).map(|s| Arc::clone(&s.shell_to_client_ctl))
             };
-            let Some((shell_to_client_ctl, lifecycle, attach_gen)) = handles else {
+            let Some(shell_to_client_ctl) = shell_to_client_ctl else {
                 not_found_sessions.push(session);
                 continue;
             };
@@ -761,12 +755,9 @@ impl Server {
             info!("detached session({}), status = {:?}", session, status);
             if let shell::ClientConnectionStatus::DetachNone = status {
                 not_attached_sessions.push(session);
-            } else {
-                // The bidi-loop unwind in handle_attach owns the SessionDetached publish;
-                // we just update the lifecycle state eagerly so a concurrent list()
-                // reflects the detach immediately.
-                lifecycle.record_detached(attach_gen);
             }
+            // The bidi-loop unwind in handle_attach owns the lifecycle update and the
+            // SessionDetached publish, since the session can't be attached again before.
         }
 
         write_reply(&mut stream, DetachReply { not_found_sessions, not_attached_sessions })
@@ -1299,7 +1290,7 @@ impl Server {
             child_pid,
             child_exit_notifier,
             started_at: time::SystemTime::now(),
-            lifecycle: Arc::new(shell::SessionLifecycle::default()),
+            lifecycle: shell::SessionLifecycle::default(),
             inner: Arc::new(Mutex::new(session_inner)),
         })
     }
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 3fdd3cb..8721bed 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -81,24 +81,18 @@ pub struct SessionLifecycle {
 }
 
 impl SessionLifecycle {
-    /// Record a client attaching to the session. Returns the generation to
-    /// pass to [`SessionLifecycle::record_detached`] when it goes away.
-    pub fn record_attached(&self, attachment: Attachment) -> u64 {
+    /// Record a client attaching to the session.
+    pub fn record_attached(&self, attachment: Attachment) {
         let mut state = self.state.lock();
         state.last_connected_at = Some(time::SystemTime::now());
         state.attachment = Some(attachment);
-        state.attach_gen += 1;
-        state.attach_gen
     }
 
-    /// Record the attached client going away, unless another one has
-    /// attached since.
-    pub fn record_detached(&self, attach_gen: u64) {
+    /// Record the attached client going away.
+    pub fn record_detached(&self) {
         let mut state = self.state.lock();
-        if state.attach_gen == attach_gen {
-            state.last_disconnected_at = Some(time::SystemTime::now());
-            state.attachment = None;
-        }
+        state.last_disconnected_at = Some(time::SystemTime::now());
+        state.attachment = None;
     }
 
     /// Return a copy of the current lifecycle state.
@@ -119,15 +113,13 @@ pub struct SessionLifecycleState {
     /// client holds `inner` while attached, which would otherwise prevent
     /// `handle_list` from reading it while a client is attached.
     pub attachment: Option<Attachment>,
-    /// Counts the attachments this session has seen.
-    pub attach_gen: u64,
 }
 
 /// Session represent a shell session
 #[derive(Debug)]
 pub struct Session {
     pub started_at: time::SystemTime,
-    pub lifecycle: Arc<SessionLifecycle>,
+    pub lifecycle: SessionLifecycle,
     pub child_pid: libc::pid_t,
     pub child_exit_notifier: Arc<ExitNotifier>,
     pub shell_to_client_ctl: Arc<Mutex<ShellToClientCtl>>,
-- 
2.43.0


From 33b0ff72efebc423fbf40d9a4c49fee74b08b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 13/50] fix: answer variable changes whatever the sessions are
 doing (2)

---
 libshpool/src/daemon/server.rs | 8 ++++----
 libshpool/src/daemon/shell.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 880751d..e7a7941 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1232,10 +1232,10 @@ impl Server {
         // We make this buffered to avoid blocking during a broadcast. There is
         // no ack chan so we can afford to buffer a bit.
         let (maybe_switch_tx, maybe_switch_rx) = crossbeam_channel::bounded(10);
-        let maybe_switch = shell::MaybeSwitchQueue {
+        let maybe_switch = Arc::new(shell::MaybeSwitchQueue {
             sender: maybe_switch_tx,
-            receiver: maybe_switch_rx.clone(),
-        };
+            receiver: maybe_switch_rx,
+        });
 
         let shell_to_client_ctl = Arc::new(Mutex::new(shell::ShellToClientCtl {
             client_connection: client_connection_tx,
@@ -1279,7 +1279,7 @@ impl Server {
                 tty_size_change_ack: tty_size_change_ack_tx,
                 heartbeat: heartbeat_rx,
                 heartbeat_ack: heartbeat_ack_tx,
-                maybe_switch: maybe_switch_rx,
+                maybe_switch: Arc::clone(&maybe_switch),
                 child_exit_notifier: shell_to_client_child_exit_notifier,
             })?);
 
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 8721bed..8c0f67e 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -123,7 +123,7 @@ pub struct Session {
     pub child_pid: libc::pid_t,
     pub child_exit_notifier: Arc<ExitNotifier>,
     pub shell_to_client_ctl: Arc<Mutex<ShellToClientCtl>>,
-    pub maybe_switch: MaybeSwitchQueue,
+    pub maybe_switch: Arc<MaybeSwitchQueue>,
     pub pager_ctl: Arc<Mutex<Option<PagerCtl>>>,
     /// Mutable state with the lock held by the servicing handle_attach thread
     /// while a tty is attached to the session. Probing the mutex can be used
@@ -288,7 +288,7 @@ pub struct ShellToClientArgs {
     pub tty_size_change: crossbeam_channel::Receiver<TtySize>,
     pub tty_size_change_ack: crossbeam_channel::Sender<()>,
     pub heartbeat: crossbeam_channel::Receiver<()>,
-    pub maybe_switch: crossbeam_channel::Receiver<MaybeSwitch>,
+    pub maybe_switch: Arc<MaybeSwitchQueue>,
     // true if the client is still live, false if it has hung up on us
     pub heartbeat_ack: crossbeam_channel::Sender<bool>,
     pub child_exit_notifier: Arc<ExitNotifier>,
@@ -485,7 +485,7 @@ impl SessionInner {
 
                         send_ack("sending heartbeat ack", &args.heartbeat_ack, client_present);
                     }
-                    recv(args.maybe_switch) -> maybe_switch => {
+                    recv(args.maybe_switch.receiver) -> maybe_switch => {
                         let maybe_switch = match maybe_switch {
                             Ok(ms) => ms,
                             Err(e) => {
@@ -1285,7 +1285,7 @@ impl ShellToClientCtl {
 #[derive(Debug)]
 pub struct MaybeSwitchQueue {
     pub sender: crossbeam_channel::Sender<MaybeSwitch>,
-    /// Another handle for the end that the shell->client thread reads from.
+    /// The end that the shell->client thread reads from.
     pub receiver: crossbeam_channel::Receiver<MaybeSwitch>,
 }
 
-- 
2.43.0


From b2793f9c92c7e7872ad291ccff2ced504a2fad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 14/50] fix: match key bindings and the prompt sentinel
 wherever they appear and lose no bytes around them

Bytes before a detaching binding, partial matches split over reads and the
output of a failed prompt setup are delivered. A shell which does not read its
input can't block the end of an attachment.
---
 libshpool/src/daemon/keybindings.rs  | 124 ++++++++++++++------
 libshpool/src/daemon/server.rs       |  24 +++-
 libshpool/src/daemon/shell.rs        | 164 ++++++++++++++++-----------
 libshpool/src/daemon/shell_inject.rs |  55 +++++----
 4 files changed, 240 insertions(+), 127 deletions(-)

diff --git a/libshpool/src/daemon/keybindings.rs b/libshpool/src/daemon/keybindings.rs
index ddb9ade..3357268 100644
--- a/libshpool/src/daemon/keybindings.rs
+++ b/libshpool/src/daemon/keybindings.rs
@@ -72,13 +72,16 @@ pub struct Bindings {
     /// stream without first parsing that stream into utf8 (since it
     /// might not be utf8).
     chords: Trie<u8, ChordAtom, Vec<Option<usize>>>,
-    /// The current match state in the chords trie.
-    chords_cursor: TrieCursor,
     /// A trie mapping all the sequence keybindings to actions which
     /// should be performed in response to the sequence.
     sequences: Trie<ChordAtom, Action, Vec<Option<usize>>>,
     /// The current match state in the sequences trie.
     sequences_cursor: TrieCursor,
+    /// The chords that lead to the current match state. Each of them stands for
+    /// a single byte of input.
+    typed: Vec<ChordAtom>,
+    /// The length of the sequence that was completed by the last byte, if any.
+    matched: usize,
 }
 
 /// The result of advancing the binding engine by a single byte.
@@ -125,15 +128,22 @@ impl Bindings {
         let mut chord_atom_tab = HashMap::new();
 
         let tokenizer = Lexer::new();
+        let mut compiled: Vec<(Vec<ChordAtom>, Action)> = vec![];
         for (binding_src, action) in bindings.into_iter() {
             let tokens =
                 tokenizer.tokenize(binding_src.chars()).context("tokenizing keybinding")?;
             let sequence = parse(tokens).context("parsing keybinding")?;
+            if sequence.0.is_empty() {
+                return Err(anyhow!("empty keybinding"));
+            }
+            let mut atoms = vec![];
             for chord in sequence.0.iter() {
                 // resolving the key code will also check the validity
                 let code = chord.key_code()?;
 
-                let chord_atom = chord_atom_tab.entry(chord.clone()).or_insert_with(|| {
+                // Different chords can generate the same code, in which case they
+                // can't be told apart.
+                let chord_atom = chord_atom_tab.entry(code).or_insert_with(|| {
                     let atom = ChordAtom(chord_atom_counter as u8);
                     chord_atom_counter += 1;
                     atom
@@ -146,16 +156,31 @@ impl Bindings {
                 }
 
                 chords.insert(vec![code].into_iter(), *chord_atom);
+                atoms.push(*chord_atom);
+            }
+
+            // If one sequence is part of another one, only one of them could ever fire.
+            for (other, other_action) in compiled.iter() {
+                let (long, short) =
+                    if atoms.len() > other.len() { (&atoms, other) } else { (other, &atoms) };
+                let same = long == short && *other_action == action;
+                if !same && long.windows(short.len()).any(|w| w == short) {
+                    return Err(anyhow!(
+                        "ambiguous keybinding: '{}' overlaps with another one",
+                        binding_src
+                    ));
+                }
             }
-            sequences
-                .insert(sequence.0.iter().map(|chord| *chord_atom_tab.get(chord).unwrap()), action);
+            sequences.insert(atoms.iter().copied(), action);
+            compiled.push((atoms, action));
         }
 
         Ok(Bindings {
             chords,
-            chords_cursor: TrieCursor::Start,
             sequences,
             sequences_cursor: TrieCursor::Start,
+            typed: vec![],
+            matched: 0,
         })
     }
 
@@ -163,39 +188,54 @@ impl Bindings {
     /// bindings engine while possibly emitting an action that the caller
     /// should perform in response to a keybinding that has just been completed.
     pub fn transition(&mut self, byte: u8) -> BindingResult {
-        self.chords_cursor = self.chords.advance(self.chords_cursor, byte);
-        if let Some(chord_atom) = self.chords.get(self.chords_cursor) {
-            self.chords_cursor = TrieCursor::Start;
-
-            self.sequences_cursor = self.sequences.advance(self.sequences_cursor, *chord_atom);
-            match self.sequences_cursor {
-                TrieCursor::Match { is_partial, .. } if is_partial => BindingResult::Partial,
-                TrieCursor::Match { .. } => {
-                    let cursor = self.sequences_cursor;
-                    self.sequences_cursor = TrieCursor::Start;
-                    if let Some(action) = self.sequences.get(cursor) {
-                        BindingResult::Match(*action)
-                    } else {
-                        BindingResult::NoMatch
-                    }
-                }
-                _ => {
-                    self.sequences_cursor = TrieCursor::Start;
-                    BindingResult::NoMatch
-                }
+        self.matched = 0;
+        let chord_atom = match self.chords.get(self.chords.advance(TrieCursor::Start, byte)) {
+            Some(chord_atom) => *chord_atom,
+            None => {
+                // not part of any binding, reset
+                self.reset();
+                return BindingResult::NoMatch;
             }
-        } else {
-            match self.chords_cursor {
-                TrieCursor::Match { is_partial, .. } if is_partial => BindingResult::Partial,
-                _ => {
-                    // no match, reset
-                    self.sequences_cursor = TrieCursor::Start;
-                    self.chords_cursor = TrieCursor::Start;
-                    BindingResult::NoMatch
-                }
+        };
+
+        self.typed.push(chord_atom);
+        self.sequences_cursor = self.sequences.advance(self.sequences_cursor, chord_atom);
+        while let TrieCursor::NoMatch = self.sequences_cursor {
+            // The chords seen so far don't start a sequence, but the last few
+            // of them might.
+            self.typed.remove(0);
+            self.sequences_cursor =
+                self.typed.iter().fold(TrieCursor::Start, |c, a| self.sequences.advance(c, *a));
+        }
+
+        match (self.sequences_cursor, self.sequences.get(self.sequences_cursor)) {
+            (_, Some(action)) => {
+                let action = *action;
+                let matched = self.typed.len();
+                self.reset();
+                self.matched = matched;
+                BindingResult::Match(action)
             }
+            (TrieCursor::Match { .. }, None) => BindingResult::Partial,
+            _ => BindingResult::NoMatch,
         }
     }
+
+    /// The number of bytes at the end of the input which are part of the sequence
+    /// that was just completed or that might still turn out to be one.
+    pub fn held(&self) -> usize {
+        self.typed.len() + self.matched
+    }
+
+    /// True if the last byte might be part of a sequence that is not complete yet.
+    pub fn is_partial(&self) -> bool {
+        !self.typed.is_empty()
+    }
+
+    fn reset(&mut self) {
+        self.sequences_cursor = TrieCursor::Start;
+        self.typed.clear();
+    }
 }
 
 #[derive(Eq, PartialEq, Debug, Deserialize, Copy, Clone)]
@@ -341,6 +381,9 @@ fn parse<T: IntoIterator<Item = Token>>(tokens: T) -> anyhow::Result<Sequence> {
     }
 
     if !keys.is_empty() {
+        if saw_dash {
+            return Err(anyhow!("unexpected DASH token at the end"));
+        }
         chords.push(Chord(keys));
     }
 
@@ -421,6 +464,13 @@ impl Lexer {
             }
         }
 
+        if !word_chars.is_empty() {
+            return Err(anyhow!(
+                "incomplete key name: '{}'",
+                word_chars.iter().collect::<String>()
+            ));
+        }
+
         Ok(tokens)
     }
 }
@@ -458,8 +508,8 @@ const CONTROL_CODES: [(&str, u8); 42] = [
     ("Ctrl-u", 21),
     ("Ctrl-v", 22),
     ("Ctrl-w", 23),
-    ("Ctrl-y", 24),
-    ("Ctrl-x", 25),
+    ("Ctrl-x", 24),
+    ("Ctrl-y", 25),
     ("Ctrl-z", 26),
     ("Ctrl-@", 0),
     ("Ctrl-2", 0),
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index e7a7941..a1bd069 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -31,7 +31,11 @@ use std::{
 };
 
 use anyhow::{anyhow, Context};
-use nix::unistd;
+use nix::{
+    fcntl,
+    fcntl::{FcntlArg, OFlag},
+    unistd,
+};
 use parking_lot::{ArcMutexGuard, Mutex, RawMutex};
 use shpool_protocol::{
     AttachHeader, AttachReplyHeader, AttachStatus, Attachment, ConnectHeader, DetachReply,
@@ -1194,7 +1198,7 @@ impl Server {
 
         let prompt_prefix_is_blank =
             self.config.get().prompt_prefix.as_ref().map(|p| p.is_empty()).unwrap_or(false);
-        let supports_sentinels = header.cmd.is_none()
+        let mut supports_sentinels = header.cmd.is_none()
             && (header.start_cmd.as_ref().map(|c| !c.is_empty()).unwrap_or(false)
                 || !prompt_prefix_is_blank)
             && !does_not_support_sentinels(&shell);
@@ -1203,6 +1207,7 @@ impl Server {
         // Inject the prompt prefix, if any. For custom commands, avoid doing this
         // since we have no idea what the command is so the shell code probably won't
         // work.
+        let mut setup_output = vec![];
         if supports_sentinels {
             info!("injecting prompt prefix");
             let prompt_prefix = self
@@ -1216,11 +1221,25 @@ impl Server {
                 &prompt_prefix,
                 header.start_cmd.as_ref().map(|c| c.as_ref()).unwrap_or(""),
                 &header.name,
+                &mut setup_output,
             ) {
                 warn!("issue injecting prefix: {:?}", err);
+                // there is no sentinel to wait for, so just show everything
+                supports_sentinels = false;
+            } else {
+                setup_output.clear();
             }
         }
 
+        // A shell which does not read its input must not block the client->shell thread.
+        let pty_master = fork.is_parent()?;
+        fcntl::fcntl(pty_master.borrow_fd(), FcntlArg::F_GETFL)
+            .and_then(|flags| {
+                let flags = OFlag::from_bits_retain(flags) | OFlag::O_NONBLOCK;
+                fcntl::fcntl(pty_master.borrow_fd(), FcntlArg::F_SETFL(flags))
+            })
+            .context("making the pty master non-blocking")?;
+
         let (client_connection_tx, client_connection_rx) = crossbeam_channel::bounded(0);
         let (client_connection_ack_tx, client_connection_ack_rx) = crossbeam_channel::bounded(0);
         let (tty_size_change_tx, tty_size_change_rx) = crossbeam_channel::bounded(0);
@@ -1259,6 +1278,7 @@ impl Server {
             daily_messenger: Arc::clone(&self.daily_messenger),
             needs_initial_motd_dump: dump_motd_on_new_session,
             supports_sentinels,
+            setup_output,
         };
         let child_pid = session_inner.pty_master.child_pid().ok_or(anyhow!("no child pid"))?;
         session_inner.shell_to_client_join_h =
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 8c0f67e..afcabb9 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -47,6 +47,9 @@ const SHELL_KILL_TIMEOUT: time::Duration = time::Duration::from_millis(500);
 
 const SHELL_EXIT_WAIT_DUR: time::Duration = time::Duration::from_millis(500);
 
+/// How long to wait for a shell to accept more input once the attachment is over.
+const INPUT_STALL_TIMEOUT: time::Duration = time::Duration::from_millis(300);
+
 const SUPERVISOR_POLL_DUR: time::Duration = time::Duration::from_millis(300);
 
 // Chosen experimentally. This value is small enough that no human will likely
@@ -177,6 +180,8 @@ pub struct SessionInner {
     pub daily_messenger: Arc<show_motd::DailyMessenger>,
     pub needs_initial_motd_dump: bool,
     pub supports_sentinels: bool,
+    /// Output of the shell which has been read before the shell->client thread started.
+    pub setup_output: Vec<u8>,
 
     /// The join handle for the always-on background shell->client thread.
     /// Only wrapped in an option so we can spawn the thread after
@@ -310,6 +315,7 @@ impl SessionInner {
         // We only scan for the prompt sentinel if the user has not set up a
         // custom command or blanked out the prompt_prefix config option.
         let mut has_seen_prompt_sentinel = !self.supports_sentinels;
+        let mut setup_output = self.setup_output.clone();
 
         let daily_messenger = Arc::clone(&self.daily_messenger);
         let mut needs_initial_motd_dump = self.needs_initial_motd_dump;
@@ -572,7 +578,11 @@ impl SessionInner {
                 // Block until the shell has some data for us so we can be sure our reads
                 // always succeed. We don't want to end up blocked forever on a read while
                 // a client is trying to attach.
-                let poll_ms = if exiting.is_some() { 0 } else { SHELL_TO_CLIENT_POLL_MS };
+                let poll_ms = if exiting.is_some() || !setup_output.is_empty() {
+                    0
+                } else {
+                    SHELL_TO_CLIENT_POLL_MS
+                };
                 let nready = match poll::poll(&mut poll_fds, poll_ms) {
                     Ok(n) => n,
                     Err(nix::errno::Errno::EINTR) => continue,
@@ -588,7 +598,12 @@ impl SessionInner {
                     poll_fds[0].revents().filter(|_| nready == 1).unwrap_or(PollFlags::empty());
                 let hangup = revents.intersects(PollFlags::POLLHUP | PollFlags::POLLERR);
                 // The pty can have output left even though it has already been hung up.
-                let len = if revents.contains(PollFlags::POLLIN) {
+                let len = if !setup_output.is_empty() {
+                    let len = std::cmp::min(setup_output.len(), buf.len());
+                    buf[..len].copy_from_slice(&setup_output[..len]);
+                    setup_output.drain(..len);
+                    len
+                } else if revents.contains(PollFlags::POLLIN) {
                     match pty_master.read(&mut buf) {
                         Ok(l) => l,
                         Err(e) if hangup => {
@@ -646,6 +661,7 @@ impl SessionInner {
 
                             // drop everything up to and including the sentinel
                             buf = &buf[i + 1..];
+                            break;
                         }
                     }
                 }
@@ -941,12 +957,11 @@ impl SessionInner {
                     span!(Level::INFO, "client->shell", s = self.name, cid = conn_id).entered();
                 let mut bindings = bindings.context("compiling keybindings engine")?;
 
-                let mut master_writer = pty_master.clone();
-
                 let mut snip_sections = vec![]; // (<len>, <end offset>)
                 let mut keep_sections = vec![]; // (<start offset>, <end offset>)
                 let mut buf: Vec<u8> = vec![0; consts::BUF_SIZE];
-                let mut partial_keybinding = vec![];
+                // input from previous chunks which might be the start of a keybinding
+                let mut partial_keybinding: Vec<u8> = vec![];
 
                 loop {
                     if stop.load(Ordering::Relaxed) {
@@ -966,6 +981,8 @@ impl SessionInner {
                         .context("reading client chunk")?;
                     if len == 0 {
                         info!("EOF");
+                        write_input(pty_master, &partial_keybinding, stop)
+                            .context("writing partial keybinding")?;
                         return Ok(());
                     }
                     test_hooks::emit("daemon-read-c2s-chunk");
@@ -976,84 +993,65 @@ impl SessionInner {
                     // the data), but just doing it inline doesn't seem have have
                     // a major perf impact, and this way is simpler.
                     snip_sections.clear();
+                    let mut detach = false;
                     for (i, byte) in buf[0..len].iter().enumerate() {
                         use keybindings::BindingResult::*;
-                        match bindings.transition(*byte) {
-                            NoMatch
-                                if !partial_keybinding.is_empty()
-                                    && i < partial_keybinding.len() =>
-                            {
-                                // it turned out the partial keybinding match was not
-                                // a real match, so flush it to the output stream
-                                debug!(
-                                    "flushing partial keybinding_len={} i={}",
-                                    partial_keybinding.len(),
-                                    i
-                                );
-                                master_writer
-                                    .write_all(&partial_keybinding)
-                                    .context("writing partial keybinding")?;
-                                if i > 0 {
-                                    // snip the leading part of the input chunk that
-                                    // was part of this keybinding
-                                    snip_sections.push((i, i - 1));
-                                }
-                                partial_keybinding.clear()
-                            }
-                            NoMatch => {
-                                partial_keybinding.clear();
-                            }
-                            Partial => {
-                                partial_keybinding.push(*byte);
-                            }
-                            Match(action) => {
-                                info!("{:?} keybinding action fired", action);
-                                let keybinding_len = partial_keybinding.len() + 1;
-                                if keybinding_len < i {
-                                    // this keybinding is wholly contained in buf
-                                    debug!("snipping keybinding_len={} i={}", keybinding_len, i);
-                                    snip_sections.push((keybinding_len, i));
-                                } else {
-                                    // this keybinding was split across multiple
-                                    // input buffers, just snip the last bit
-                                    debug!("snipping split keybinding i={}", i);
-                                    snip_sections.push((i + 1, i));
-                                }
-                                partial_keybinding.clear();
-
-                                use keybindings::Action::*;
-                                match action {
-                                    Detach => {
-                                        self.action_detach()?;
-                                        debug!("exiting client->shell thread after detach");
-                                        return Ok(());
-                                    }
-                                    NoOp => {}
+                        let result = bindings.transition(*byte);
+
+                        // The number of held back bytes from previous chunks which are
+                        // still part of a keybinding. If it turned out that some of them
+                        // are not, they belong in front of this chunk.
+                        let split_len = bindings.held().saturating_sub(i + 1);
+                        if partial_keybinding.len() > split_len {
+                            let flush_len = partial_keybinding.len() - split_len;
+                            debug!("flushing partial keybinding_len={} i={}", flush_len, i);
+                            write_input(pty_master, &partial_keybinding[..flush_len], stop)
+                                .context("writing partial keybinding")?;
+                            partial_keybinding.drain(..flush_len);
+                        }
+
+                        if let Match(action) = result {
+                            info!("{:?} keybinding action fired", action);
+                            // the keybinding might be split across multiple input
+                            // buffers, just snip the last bit then
+                            let snip_len = bindings.held() - split_len;
+                            debug!("snipping keybinding_len={} i={}", snip_len, i);
+                            snip_sections.push((snip_len, i));
+                            partial_keybinding.clear();
+
+                            use keybindings::Action::*;
+                            match action {
+                                Detach => {
+                                    detach = true;
+                                    len = i + 1;
+                                    break;
                                 }
+                                NoOp => {}
                             }
                         }
                     }
-                    if !partial_keybinding.is_empty() {
+                    if !detach && bindings.is_partial() {
                         // we have a partial keybinding pending, so don't write
                         // it to the output stream immediately
-                        let snip_chunk_len = if partial_keybinding.len() > len {
-                            len
-                        } else {
-                            partial_keybinding.len()
-                        };
+                        let snip_chunk_len = std::cmp::min(bindings.held(), len);
                         debug!(
                             "end of buf w/ partial keybinding_len={} snip_chunk_len={} buf_len={}",
-                            partial_keybinding.len(),
+                            bindings.held(),
                             snip_chunk_len,
                             len
                         );
+                        partial_keybinding.extend_from_slice(&buf[len - snip_chunk_len..len]);
                         snip_sections.push((snip_chunk_len, len - 1));
                     }
                     len = snip_buf(&mut buf[..], len, &snip_sections[..], &mut keep_sections);
 
-                    master_writer.write_all(&buf[0..len]).context("writing client chunk")?;
+                    write_input(pty_master, &buf[0..len], stop).context("writing client chunk")?;
 
-                    master_writer.flush().context("flushing input from client to shell")?;
+                    if detach {
+                        self.action_detach()?;
+                        debug!("exiting client->shell thread after detach");
+                        return Ok(());
+                    }
 
                     debug!("flushed chunk of len {}", len);
                 }
@@ -1302,6 +1300,42 @@ impl MaybeSwitchQueue {
     }
 }
 
+/// Write input for the shell to its (non-blocking) pty. Once the attachment is over,
+/// a shell which does not read its input can't hold it up for long.
+fn write_input(
+    pty_master: &shpool_pty::fork::Master,
+    mut input: &[u8],
+    stop: &AtomicBool,
+) -> io::Result<()> {
+    let mut stopped_at: Option<time::Instant> = None;
+    while !input.is_empty() {
+        match nix::unistd::write(pty_master.borrow_fd(), input) {
+            Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
+            Ok(len) => {
+                input = &input[len..];
+                stopped_at = None;
+                continue;
+            }
+            Err(nix::errno::Errno::EINTR) => continue,
+            Err(nix::errno::Errno::EAGAIN) => {}
+            Err(e) => return Err(e.into()),
+        }
+
+        if stop.load(Ordering::Relaxed)
+            && stopped_at.get_or_insert_with(time::Instant::now).elapsed() > INPUT_STALL_TIMEOUT
+        {
+            warn!("shell does not read its input, dropping {} bytes of it", input.len());
+            return Ok(());
+        }
+        let mut poll_fds = [poll::PollFd::new(pty_master.borrow_fd(), PollFlags::POLLOUT)];
+        match poll::poll(&mut poll_fds, SHELL_TO_CLIENT_POLL_MS) {
+            Ok(_) | Err(nix::errno::Errno::EINTR) => {}
+            Err(e) => return Err(e.into()),
+        }
+    }
+    Ok(())
+}
+
 /// Given a buffer, a length after which the data is not valid, a list of
 /// sections to remove, and some scratch space, compact the given buffer and
 /// return a new len.
diff --git a/libshpool/src/daemon/shell_inject.rs b/libshpool/src/daemon/shell_inject.rs
index 7cd90d0..1db5f8d 100644
--- a/libshpool/src/daemon/shell_inject.rs
+++ b/libshpool/src/daemon/shell_inject.rs
@@ -16,6 +16,7 @@
 // config option into a user's prompt for known shells.
 
 use std::{
+    collections::VecDeque,
     io::{Read, Write},
     time,
 };
@@ -26,7 +27,6 @@ use tracing::{debug, error, info, instrument, warn};
 
 use crate::{
     consts::{SENTINEL_FLAG_VAR, STARTUP_SENTINEL},
-    daemon::trie::{Trie, TrieCursor},
     exe, test_hooks,
 };
 
@@ -53,17 +53,21 @@ enum KnownShell {
 ///
 /// If either the prefix or startup cmd are blank, we do nothing for that
 /// option.
+///
+/// `output` collects the output of the shell which was consumed in the process,
+/// so that it does not get lost if the setup fails.
 #[instrument(skip_all)]
 pub fn maybe_setup(
     pty_master: &mut shpool_pty::fork::Fork,
     prompt_prefix: &str,
     start_cmd: &str,
     session_name: &str,
+    output: &mut Vec<u8>,
 ) -> anyhow::Result<()> {
     let shell_pid = pty_master.child_pid().ok_or(anyhow!("no child pid"))?;
     // scan for the startup sentinel so we know it is safe to sniff the shell
     let mut pty_master = pty_master.is_parent().context("expected parent")?;
-    wait_for_startup(&mut pty_master)?;
+    wait_for_startup(&mut pty_master, output)?;
 
     let shell_type = sniff_shell(shell_pid);
     debug!("sniffed shell type: {:?}", shell_type);
@@ -142,7 +146,10 @@ pub fn maybe_setup(
 }
 
 #[instrument(skip_all)]
-fn wait_for_startup(pty_master: &mut shpool_pty::fork::Master) -> anyhow::Result<()> {
+fn wait_for_startup(
+    pty_master: &mut shpool_pty::fork::Master,
+    output: &mut Vec<u8>,
+) -> anyhow::Result<()> {
     test_hooks::emit("wait-for-startup-enter");
     let mut startup_sentinel_scanner = SentinelScanner::new(STARTUP_SENTINEL);
     let exe_path =
@@ -186,6 +193,7 @@ fn wait_for_startup(pty_master: &mut shpool_pty::fork::Master) -> anyhow::Result
         }
         let buf = &buf[..len];
         debug!("buf='{}'", String::from_utf8_lossy(buf));
+        output.extend_from_slice(buf);
         for byte in buf.iter() {
             if startup_sentinel_scanner.transition(*byte) {
                 // This might drop trailing data from the chunk we just read, but
@@ -217,38 +225,39 @@ fn sniff_shell(pid: libc::pid_t) -> anyhow::Result<KnownShell> {
     }
 }
 
-/// A trie for scanning through shell output to look for the sentinel.
+/// Scans through shell output to look for the sentinel.
 pub struct SentinelScanner {
-    scanner: Trie<u8, (), Vec<Option<usize>>>,
-    cursor: TrieCursor,
+    sentinel: Vec<u8>,
+    /// The most recent output, at most as long as the sentinel. The output before
+    /// the sentinel might end with something that looks like the start of it.
+    recent: VecDeque<u8>,
     num_matches: usize,
 }
 
 impl SentinelScanner {
     /// Create a new sentinel scanner.
     pub fn new(sentinel: &str) -> Self {
-        let mut scanner = Trie::new();
-        scanner.insert(sentinel.bytes(), ());
-
-        SentinelScanner { scanner, cursor: TrieCursor::Start, num_matches: 0 }
+        SentinelScanner {
+            sentinel: sentinel.bytes().collect(),
+            recent: VecDeque::new(),
+            num_matches: 0,
+        }
     }
 
     // Pump the given byte through the scanner, returning true if the underlying
     // shell has finished printing the sentinel value.
     pub fn transition(&mut self, byte: u8) -> bool {
-        self.cursor = self.scanner.advance(self.cursor, byte);
-        match self.cursor {
-            TrieCursor::NoMatch => {
-                self.cursor = TrieCursor::Start;
-                false
-            }
-            TrieCursor::Match { is_partial, .. } if !is_partial => {
-                self.cursor = TrieCursor::Start;
-                self.num_matches += 1;
-                debug!("got prompt sentinel match #{}", self.num_matches);
-                self.num_matches == 1
-            }
-            _ => false,
+        self.recent.push_back(byte);
+        if self.recent.len() > self.sentinel.len() {
+            self.recent.pop_front();
         }
+        if !self.recent.iter().eq(self.sentinel.iter()) {
+            return false;
+        }
+
+        self.recent.clear();
+        self.num_matches += 1;
+        debug!("got prompt sentinel match #{}", self.num_matches);
+        self.num_matches == 1
     }
 }
-- 
2.43.0


From 607d0666e102bc5cd38c77f5a2ab539dc4d6a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 15/50] fix: refuse malformed and overflowing durations instead
 of guessing or panicking

---
 libshpool/src/duration.rs | 59 ++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/libshpool/src/duration.rs b/libshpool/src/duration.rs
index 076dfec..c2c5576 100644
--- a/libshpool/src/duration.rs
+++ b/libshpool/src/duration.rs
@@ -36,46 +36,49 @@ fn parse_colon_duration(src: &str) -> anyhow::Result<time::Duration> {
     if parts.is_empty() {
         bail!("'{}' must have at least one part", src);
     }
-    let mut secs = parts[0].parse::<u64>().context("parsing seconds part")?;
-    dbg!(secs);
-    if parts.len() == 1 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[1].parse::<u64>().context("parsing minutes part")? * 60;
-    dbg!(secs);
-    if parts.len() == 2 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[2].parse::<u64>().context("parsing hours part")? * 60 * 60;
-    dbg!(secs);
-    if parts.len() == 3 {
-        return Ok(time::Duration::from_secs(secs));
-    }
-    secs += parts[3].parse::<u64>().context("parsing days part")? * 60 * 60 * 24;
-    dbg!(secs);
-    if parts.len() != 4 {
+    let units =
+        [("seconds", 1), ("minutes", 60), ("hours", 60 * 60), ("days", 60 * 60 * 24)];
+    if parts.len() > units.len() {
         bail!("colon duration cannot have more than 4 parts");
     }
 
+    let mut secs: u64 = 0;
+    for (part, (unit, unit_secs)) in parts.iter().zip(units) {
+        let n = parse_num(part).with_context(|| format!("parsing {unit} part"))?;
+        secs = n
+            .checked_mul(unit_secs)
+            .and_then(|s| secs.checked_add(s))
+            .ok_or_else(|| anyhow!("'{}' is too long a duration", src))?;
+    }
+
     Ok(time::Duration::from_secs(secs))
 }
 
 /// Parses 20d, 3h, 14m ect
 fn parse_suffix_duration(src: &str) -> anyhow::Result<time::Duration> {
-    let num: String = src.chars().take_while(|c| c.is_numeric()).collect();
     let c = src.chars().last().ok_or(anyhow!("internal error: no suffix"))?;
-    make_suffix_duration(num.parse::<u64>().context("parsing num part of duration")?, c)
-        .ok_or(anyhow!("unknown time unit '{}'", c))
+    let num = &src[..src.len() - c.len_utf8()];
+    make_suffix_duration(parse_num(num).context("parsing num part of duration")?, c)
+}
+
+fn make_suffix_duration(n: u64, c: char) -> anyhow::Result<time::Duration> {
+    let unit_secs = match c {
+        's' => 1,
+        'm' => 60,
+        'h' => 60 * 60,
+        'd' => 60 * 60 * 24,
+        _ => bail!("unknown time unit '{}'", c),
+    };
+    let secs = n.checked_mul(unit_secs).ok_or(anyhow!("'{}{}' is too long a duration", n, c))?;
+    Ok(time::Duration::from_secs(secs))
 }
 
-fn make_suffix_duration(n: u64, c: char) -> Option<time::Duration> {
-    match c {
-        's' => Some(time::Duration::from_secs(n)),
-        'm' => Some(time::Duration::from_secs(n * 60)),
-        'h' => Some(time::Duration::from_secs(n * 60 * 60)),
-        'd' => Some(time::Duration::from_secs(n * 60 * 60 * 24)),
-        _ => None,
+/// Parses a plain number, with no sign or anything else around it.
+fn parse_num(src: &str) -> anyhow::Result<u64> {
+    if !src.chars().all(|c| c.is_ascii_digit()) {
+        bail!("'{}' is not a number", src);
     }
+    Ok(src.parse::<u64>()?)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 064fe9928b1705dc80b454f6dee1d0226f352b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 16/50] fix: warn about an unintelligible daemon version
 instead of refusing to work

---
 libshpool/src/protocol.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index e1ec02b..a4ffb35 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -166,9 +166,20 @@ impl Client {
         };
         info!("read daemon version header: {:?}", daemon_version);
 
-        match Self::version_ord(shpool_protocol::VERSION, &daemon_version.version)
-            .context("comparing versions")?
-        {
+        let ord = match Self::version_ord(shpool_protocol::VERSION, &daemon_version.version) {
+            Ok(ord) => ord,
+            Err(e) => {
+                warn!("error comparing versions: {:?}", e);
+                return Ok(ClientResult::VersionMismatch {
+                    warning: format!(
+                        "could not make sense of the daemon protocol version ({:?})",
+                        daemon_version.version,
+                    ),
+                    client: Client { stream },
+                });
+            }
+        };
+        match ord {
             cmp::Ordering::Equal => Ok(ClientResult::JustClient(Client { stream })),
             cmp::Ordering::Less => Ok(ClientResult::VersionMismatch {
                 warning: format!(
-- 
2.43.0


From ad7beea1c91661c8dc8f5321c2d1b58ef44e1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 17/50] fix: keep reading from the daemon when it can no longer
 take input

---
 libshpool/src/protocol.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index a4ffb35..24f0110 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -277,6 +277,7 @@ impl Client {
                 let _s = span!(Level::INFO, "stdin->sock").entered();
                 let mut stdin = std::io::stdin().lock();
                 let mut buf = vec![0; consts::BUF_SIZE];
+                let mut daemon_hung_up = false;
 
                 loop {
                     {
@@ -286,6 +287,15 @@ impl Client {
                         }
                     }
 
+                    if daemon_hung_up {
+                        // There is nobody to send input to any more, but what the
+                        // daemon sent before it hung up (the exit status being the
+                        // last of it) may still be on its way to our stdout, so
+                        // it is up to the socket side to say when we are done.
+                        thread::sleep(time::Duration::from_millis(STDIN_READ_POLL_MS as u64));
+                        continue;
+                    }
+
                     {
                         let mut poll_fds =
                             [poll::PollFd::new(stdin.as_fd(), poll::PollFlags::POLLIN)];
@@ -306,7 +316,17 @@ impl Client {
                     let to_write = &buf[..nread];
                     trace!("created to_write='{}'", String::from_utf8_lossy(to_write));
 
-                    write_client_stream.write_all(to_write)?;
+                    if let Err(e) = write_client_stream.write_all(to_write) {
+                        if matches!(
+                            e.kind(),
+                            io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset
+                        ) {
+                            info!("daemon hung up: {:?}", e);
+                            daemon_hung_up = true;
+                            continue;
+                        }
+                        return Err(e).context("writing stdin to daemon");
+                    }
                     write_client_stream.flush().context("flushing client")?;
                 }
             });
-- 
2.43.0


From 4e07af42839eb2c6d8297919f65e6079ad8fc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 18/50] fix: wait for a busy non-blocking terminal instead of
 losing output

---
 libshpool/src/protocol.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index 24f0110..5b399ff 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -148,6 +148,31 @@ pub enum ClientResult {
     },
 }
 
+/// Write and flush all of the given bytes, waiting for the output to be ready
+/// to take more if it was set to non-blocking mode by somebody else.
+fn write_all_waiting<W>(out: &mut W, mut bytes: &[u8]) -> anyhow::Result<()>
+where
+    W: Write + AsFd,
+{
+    loop {
+        let res = if bytes.is_empty() { out.flush().map(|_| 0) } else { out.write(bytes) };
+        match res {
+            Ok(0) if bytes.is_empty() => return Ok(()),
+            Ok(0) => return Err(anyhow!("output takes no more bytes")),
+            Ok(n) => bytes = &bytes[n..],
+            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
+                let mut poll_fds = [poll::PollFd::new(out.as_fd(), poll::PollFlags::POLLOUT)];
+                match poll::poll(&mut poll_fds, poll::PollTimeout::NONE) {
+                    Ok(_) | Err(nix::errno::Errno::EINTR) => {}
+                    Err(e) => return Err(e).context("waiting for output to be ready"),
+                }
+            }
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e).context("writing output"),
+        }
+    }
+}
+
 impl Client {
     /// Create a new client
     #[allow(clippy::new_ret_no_self)]
@@ -381,18 +406,8 @@ impl Client {
                             trace!("got heartbeat chunk");
                         }
                         ChunkKind::Data => {
-                            stdout.write_all(chunk.buf).context("writing chunk to stdout")?;
-
-                            if let Err(e) = stdout.flush() {
-                                if e.kind() == std::io::ErrorKind::WouldBlock {
-                                    // If the fd is busy, we are likely just getting
-                                    // flooded with output and don't need to worry about
-                                    // flushing every last byte. Flushing is really
-                                    // about interactive situations where we want to
-                                    // see echoed bytes immediately.
-                                    continue;
-                                }
-                            }
+                            write_all_waiting(&mut stdout, chunk.buf)
+                                .context("writing chunk to stdout")?;
                             debug!("flushed stdout");
                         }
                         ChunkKind::ExitStatus => {
-- 
2.43.0


From 633f385f33d43004b0129aad70c9a098ce341f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 19/50] fix: survive terminals without any rows or columns

---
 libshpool/src/session_restore.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/session_restore.rs b/libshpool/src/session_restore.rs
index 01a3c9d..4ec202b 100644
--- a/libshpool/src/session_restore.rs
+++ b/libshpool/src/session_restore.rs
@@ -34,10 +34,16 @@ trait ConfigExt {
 impl ConfigExt for config::Manager {
     fn vterm_width(&self) -> u16 {
         let config = self.get();
-        config.vt100_output_spool_width.unwrap_or(VTERM_WIDTH)
+        config.vt100_output_spool_width.unwrap_or(VTERM_WIDTH).max(1)
     }
 }
 
+/// The virtual terminals can't deal with an empty screen, which is what a terminal
+/// of unknown size reports.
+fn nonempty(size: &TtySize) -> TtySize {
+    TtySize { rows: size.rows.max(1), cols: size.cols.max(1), ..size.clone() }
+}
+
 pub trait SessionSpool {
     /// Resizes the internal representation to new tty size.
     fn resize(&mut self, size: TtySize);
@@ -80,7 +86,7 @@ pub struct Vt100Screen {
 
 impl SessionSpool for Vt100Screen {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(nonempty(&size).rows, self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -113,7 +119,7 @@ pub struct Vt100Lines {
 
 impl SessionSpool for Vt100Lines {
     fn resize(&mut self, size: TtySize) {
-        self.parser.screen_mut().set_size(size.rows, self.config.vterm_width());
+        self.parser.screen_mut().set_size(nonempty(&size).rows, self.config.vterm_width());
     }
 
     fn restore_buffer(&self) -> Vec<u8> {
@@ -140,6 +146,7 @@ pub struct Vterm {
 
 impl SessionSpool for Vterm {
     fn resize(&mut self, size: TtySize) {
+        let size = nonempty(&size);
         self.term
             .resize(shpool_vterm::Size { height: size.rows as usize, width: size.cols as usize });
     }
@@ -165,6 +172,7 @@ pub fn new(
     size: &TtySize,
     scrollback_lines: usize,
 ) -> Box<dyn SessionSpool + 'static> {
+    let size = nonempty(size);
     let restore_engine = config.get().session_restore_engine.clone().unwrap_or_default();
     let mode = config.get().session_restore_mode.clone().unwrap_or_default();
     let vterm_width = config.vterm_width();
-- 
2.43.0


From d0a826ffa314d99773d71eda4a4d60e568120319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 20/50] fix: do not lose a size which is reported while
 attaching

---
 libshpool/src/daemon/server.rs | 27 +++++++++++++--------------
 libshpool/src/daemon/shell.rs  | 22 +++++++++++++++++-----
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index a1bd069..0521991 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -532,6 +532,7 @@ impl Server {
                                 // Reattach confirmed; the create path won't run
                                 // and clobber the entry, so it's safe to publish.
                                 inner.client_stream = Some(stream.try_clone()?);
+                                *inner.reported_size.lock() = None;
                                 session.lifecycle.record_attached(Attachment {
                                     session_name_template: header.name_template.clone(),
                                     pid: peer_pid,
@@ -940,19 +941,27 @@ impl Server {
     ) -> anyhow::Result<SessionMessageReply> {
         match header.payload {
             SessionMessageRequestPayload::Resize(resize_request) => {
-                let pager_ctl = {
+                let (pager_ctl, shell_to_client_ctl, reported_size) = {
                     let _s = span!(Level::INFO, "resize_lock_1(shells)").entered();
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.session_name) {
-                        Arc::clone(&session.pager_ctl)
+                        (
+                            Arc::clone(&session.pager_ctl),
+                            Arc::clone(&session.shell_to_client_ctl),
+                            Arc::clone(&session.reported_size),
+                        )
                     } else {
                         return Ok(SessionMessageReply::NotFound);
                     }
                 };
                 let _s = span!(Level::INFO, "lock(pager_ctl)").entered();
                 let pager_ctl = pager_ctl.lock();
+                let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
+                let shell_to_client_ctl = shell_to_client_ctl.lock();
+                *reported_size.lock() = Some(resize_request.tty_size.clone());
 
                 let res = if let Some(pager_ctl) = pager_ctl.as_ref() {
+                    drop(shell_to_client_ctl);
                     info!("resizing pager");
                     resize(
                         &pager_ctl.tty_size_change,
@@ -961,18 +970,6 @@ impl Server {
                     )
                     .context("resizing pager")
                 } else {
-                    let shell_to_client_ctl = {
-                        let _s = span!(Level::INFO, "resize_lock_2(shells)").entered();
-                        let shells = self.shells.lock();
-                        if let Some(session) = shells.get(&header.session_name) {
-                            Arc::clone(&session.shell_to_client_ctl)
-                        } else {
-                            return Ok(SessionMessageReply::NotFound);
-                        }
-                    };
-                    let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
-                    let shell_to_client_ctl = shell_to_client_ctl.lock();
-
                     resize(
                         &shell_to_client_ctl.tty_size_change,
                         &shell_to_client_ctl.tty_size_change_ack,
@@ -1278,6 +1275,7 @@ impl Server {
             daily_messenger: Arc::clone(&self.daily_messenger),
             needs_initial_motd_dump: dump_motd_on_new_session,
             supports_sentinels,
+            reported_size: Arc::new(Mutex::new(None)),
             setup_output,
         };
         let child_pid = session_inner.pty_master.child_pid().ok_or(anyhow!("no child pid"))?;
@@ -1307,6 +1305,7 @@ impl Server {
             shell_to_client_ctl,
             maybe_switch,
             pager_ctl: Arc::new(Mutex::new(None)),
+            reported_size: Arc::clone(&session_inner.reported_size),
             child_pid,
             child_exit_notifier,
             started_at: time::SystemTime::now(),
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index afcabb9..8ffcb6d 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -128,6 +128,7 @@ pub struct Session {
     pub shell_to_client_ctl: Arc<Mutex<ShellToClientCtl>>,
     pub maybe_switch: Arc<MaybeSwitchQueue>,
     pub pager_ctl: Arc<Mutex<Option<PagerCtl>>>,
+    pub reported_size: Arc<Mutex<Option<TtySize>>>,
     /// Mutable state with the lock held by the servicing handle_attach thread
     /// while a tty is attached to the session. Probing the mutex can be used
     /// to determine if someone is currently attached to the session.
@@ -180,6 +181,9 @@ pub struct SessionInner {
     pub daily_messenger: Arc<show_motd::DailyMessenger>,
     pub needs_initial_motd_dump: bool,
     pub supports_sentinels: bool,
+    /// The size most recently reported since the latest attach, which overrides the
+    /// one from the attach request.
+    pub reported_size: Arc<Mutex<Option<TtySize>>>,
     /// Output of the shell which has been read before the shell->client thread started.
     pub setup_output: Vec<u8>,
 
@@ -340,10 +344,17 @@ impl SessionInner {
             // the initial prompt on the floor
             info!("waiting for initial client connection");
             let mut client_conn: ClientConnectionMsg = loop {
-                let msg = args
-                    .client_connection
-                    .recv()
-                    .context("waiting for initial client connection")?;
+                let msg = crossbeam_channel::select! {
+                    recv(args.client_connection) -> msg => {
+                        msg.context("waiting for initial client connection")?
+                    }
+                    recv(args.tty_size_change) -> size => {
+                        // the connection is going to bring the reported size along
+                        size.context("waiting for initial client connection")?;
+                        send_ack("sending early size change ack", &args.tty_size_change_ack, ());
+                        continue;
+                    }
+                };
                 if let ClientConnectionMsg::Disconnect = msg {
                     info!("disconnect before the initial client connection");
                     send_ack(
@@ -758,9 +769,10 @@ impl SessionInner {
             let mut shell_to_client_ctl = self.shell_to_client_ctl.lock();
             shell_to_client_ctl.client_stream =
                 Some(client_stream.try_clone().context("creating ctl client stream handle")?);
+            let size = self.reported_size.lock().take().unwrap_or(init_tty_size);
             shell_to_client_ctl.connect_client(ClientConnection {
                 sink: output_sink,
-                size: init_tty_size,
+                size,
                 stream: shell_to_client_client_stream,
             })
         };
-- 
2.43.0


From 8d5ce62201268b22f12d944e1a15a4bc0fd724fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 21/50] fix: answer attach requests that can't be served,
 refuse NUL in session names

---
 libshpool/src/daemon/server.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 0521991..0891020 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -276,7 +276,7 @@ impl Server {
         header: AttachHeader,
         peer_pid: libc::pid_t,
     ) -> anyhow::Result<()> {
-        if header.name.chars().any(|c| '/' == c || c.is_whitespace())
+        if header.name.chars().any(|c| c == '/' || c == '\0' || c.is_whitespace())
             || header.name == "."
             || header.name == ".."
             || header.name.is_empty()
@@ -293,13 +293,17 @@ impl Server {
             return Ok(());
         }
 
-        let user_info = user::info().context("resolving user info")?;
-        let shell_env = self.build_shell_env(&user_info, &header).context("building shell env")?;
+        let mut reply_stream = stream.try_clone().context("creating reply stream handle")?;
+        let selected = user::info().context("resolving user info").and_then(|user_info| {
+            let shell_env =
+                self.build_shell_env(&user_info, &header).context("building shell env")?;
 
-        test_hooks::emit("handle-attach-before-select-shell");
-        let (shell_results, status) = match self
-            .select_shell_desc(stream, conn_id, &header, &user_info, &shell_env, peer_pid)
-        {
+            test_hooks::emit("handle-attach-before-select-shell");
+            let (shell_results, status) = self
+                .select_shell_desc(stream, conn_id, &header, &user_info, &shell_env, peer_pid)?;
+            Ok((shell_env, shell_results, status))
+        });
+        let (shell_env, shell_results, status) = match selected {
             Ok(t) => t,
             Err(err)
                 if err
@@ -309,8 +313,15 @@ impl Server {
             {
                 return Ok(());
             }
-            Err(err) => return Err(err)?,
+            Err(err) => {
+                write_reply(
+                    &mut reply_stream,
+                    AttachReplyHeader { status: AttachStatus::UnexpectedError(format!("{err:#}")) },
+                )?;
+                return Err(err);
+            }
         };
+        drop(reply_stream);
 
         // The session exists at this point, so problems with its convenience files
         // are not worth losing it over.
-- 
2.43.0


From 35e22a4166844fb6d60b90a53150c1e314d1fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 22/50] fix: refuse event subscribers of other users

---
 libshpool/src/daemon/events.rs | 12 ++++---
 libshpool/src/daemon/server.rs | 60 ++++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index bf8e768..29bcb76 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -43,6 +43,8 @@ use nix::{
 use serde_derive::Serialize;
 use tracing::{error, info, warn};
 
+use super::server::check_peer_user;
+
 /// Per-subscriber outbound queue depth (events). Subscribers that fall this
 /// far behind are dropped and must reconnect.
 const SUBSCRIBER_QUEUE_DEPTH: usize = 64;
@@ -298,10 +300,12 @@ impl Sink {
             // immediately when the queue is empty).
             loop {
                 match listener.accept() {
-                    Ok((stream, _addr)) => match SubscriberWriter::new(stream) {
-                        Ok(sub) => subs.push(sub),
-                        Err(e) => warn!("registering events subscriber: {:?}", e),
-                    },
+                    Ok((stream, _addr)) => {
+                        match check_peer_user(&stream).and_then(|_| SubscriberWriter::new(stream)) {
+                            Ok(sub) => subs.push(sub),
+                            Err(e) => warn!("registering events subscriber: {:?}", e),
+                        }
+                    }
                     Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
                     Err(e) => {
                         error!("events listener accept: {:?}", e);
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 0891020..b6bed5d 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1488,35 +1488,23 @@ where
     Ok(())
 }
 
-/// check_peer makes sure that a process dialing in on the shpool control socket
-/// has the same UID as the current user and that both have the same executable
-/// path. Returns the peer's pid, which the kernel captures at connect time and
-/// keeps fixed for the life of the connection.
+/// Make sure that the process on the other end belongs to the same user as we do.
 #[cfg(target_os = "linux")]
-fn check_peer(sock: &UnixStream) -> anyhow::Result<libc::pid_t> {
+pub fn check_peer_user(sock: &UnixStream) -> anyhow::Result<()> {
     use nix::sys::socket;
 
     let peer_creds = socket::getsockopt(sock, socket::sockopt::PeerCredentials)
         .context("could not get peer creds from socket")?;
-    let peer_uid = unistd::Uid::from_raw(peer_creds.uid());
-    let self_uid = unistd::Uid::current();
-    if peer_uid != self_uid {
+    if unistd::Uid::from_raw(peer_creds.uid()) != unistd::Uid::current() {
         return Err(anyhow!("shpool prohibits connections across users"));
     }
 
-    let peer_pid = unistd::Pid::from_raw(peer_creds.pid());
-    let self_pid = unistd::Pid::this();
-    let peer_exe = exe_for_pid(peer_pid).context("could not resolve exe from the pid")?;
-    let self_exe = exe_for_pid(self_pid).context("could not resolve our own exe")?;
-    if peer_exe != self_exe {
-        warn!("attach binary differs from daemon binary");
-    }
-
-    Ok(peer_creds.pid())
+    Ok(())
 }
 
+/// Make sure that the process on the other end belongs to the same user as we do.
 #[cfg(target_os = "macos")]
-fn check_peer(sock: &UnixStream) -> anyhow::Result<libc::pid_t> {
+pub fn check_peer_user(sock: &UnixStream) -> anyhow::Result<()> {
     use std::os::unix::io::AsRawFd;
 
     let mut peer_uid: libc::uid_t = 0;
@@ -1530,12 +1518,42 @@ fn check_peer(sock: &UnixStream) -> anyhow::Result<libc::pid_t> {
             ));
         }
     }
-    let peer_uid = unistd::Uid::from_raw(peer_uid);
-    let self_uid = unistd::Uid::current();
-    if peer_uid != self_uid {
+    if unistd::Uid::from_raw(peer_uid) != unistd::Uid::current() {
         return Err(anyhow!("shpool prohibits connections across users"));
     }
 
+    Ok(())
+}
+
+/// check_peer makes sure that a process dialing in on the shpool control socket
+/// has the same UID as the current user and that both have the same executable
+/// path. Returns the peer's pid, which the kernel captures at connect time and
+/// keeps fixed for the life of the connection.
+#[cfg(target_os = "linux")]
+fn check_peer(sock: &UnixStream) -> anyhow::Result<libc::pid_t> {
+    use nix::sys::socket;
+
+    check_peer_user(sock)?;
+
+    let peer_creds = socket::getsockopt(sock, socket::sockopt::PeerCredentials)
+        .context("could not get peer creds from socket")?;
+    let peer_pid = unistd::Pid::from_raw(peer_creds.pid());
+    let self_pid = unistd::Pid::this();
+    let peer_exe = exe_for_pid(peer_pid).context("could not resolve exe from the pid")?;
+    let self_exe = exe_for_pid(self_pid).context("could not resolve our own exe")?;
+    if peer_exe != self_exe {
+        warn!("attach binary differs from daemon binary");
+    }
+
+    Ok(peer_creds.pid())
+}
+
+#[cfg(target_os = "macos")]
+fn check_peer(sock: &UnixStream) -> anyhow::Result<libc::pid_t> {
+    use std::os::unix::io::AsRawFd;
+
+    check_peer_user(sock)?;
+
     let mut peer_pid: libc::pid_t = 0;
     let mut len = std::mem::size_of::<libc::pid_t>() as libc::socklen_t;
     // Safety: getsockopt is standard POSIX FFI, all pointers and sizes are valid
-- 
2.43.0


From a432a1fad1dda52e50de546d78ebf9a4ef152747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 23/50] fix: wait for our own last connection when following a
 variable back

---
 libshpool/src/attach.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 6693e6a..0ca94af 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     env, fmt, io,
     os::fd::AsFd,
     path::PathBuf,
@@ -117,13 +117,16 @@ impl Attach {
         };
 
         info!("looping on attach_with_name");
+        let mut left_sessions = HashSet::new();
         loop {
             info!("attaching to '{}'", resolved.session_name);
-            match self.attach_resolved(resolved) {
+            let session_name = resolved.session_name.clone();
+            match self.attach_resolved(resolved, left_sessions.contains(&session_name)) {
                 Ok(AttachResult::Done) => return Ok(()),
                 Ok(AttachResult::Switch(s)) => maybe_switch = s,
                 Err(e) => return Err(e),
             }
+            left_sessions.insert(session_name);
 
             let var_map = maybe_switch.vars.iter().cloned().collect();
             resolved = self.tmpls.apply(&var_map);
@@ -137,7 +140,14 @@ impl Attach {
 
     /// Attach with the given resolved name. This will run until exit or until
     /// we need to reconnect due to
-    pub fn attach_resolved(&self, resolved: ResolvedTemplates) -> anyhow::Result<AttachResult> {
+    ///
+    /// If returning is true we already left a session with this name to follow
+    /// a variable, so it might be us who still seems to be attached to it.
+    pub fn attach_resolved(
+        &self,
+        resolved: ResolvedTemplates,
+        returning: bool,
+    ) -> anyhow::Result<AttachResult> {
         if resolved.session_name.is_empty() {
             eprintln!("blank session names are not allowed");
             return Ok(AttachResult::Done);
@@ -161,6 +171,11 @@ impl Attach {
             match self.dial_attach(&resolved) {
                 Ok(client) => break client,
                 Err(err) => match err.downcast() {
+                    Ok(BusyError) if !self.force && returning && tries <= MAX_FORCE_RETRIES => {
+                        // The daemon might not be done with our last connection.
+                        thread::sleep(time::Duration::from_millis(100));
+                        tries += 1;
+                    }
                     Ok(BusyError) if !self.force => {
                         eprintln!(
                             "session '{}' already has a terminal attached",
-- 
2.43.0


From 78696886e6d1056055cdc73899b374055cb5372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 24/50] fix: read chunks larger than 16k, large sets of
 variables need them

---
 libshpool/src/consts.rs   |  4 ++++
 libshpool/src/protocol.rs | 14 +++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/consts.rs b/libshpool/src/consts.rs
index d8fd925..378f8f9 100644
--- a/libshpool/src/consts.rs
+++ b/libshpool/src/consts.rs
@@ -19,6 +19,10 @@ pub const JOIN_POLL_DURATION: time::Duration = time::Duration::from_millis(50);
 
 pub const BUF_SIZE: usize = 1024 * 16;
 
+// The largest chunk we are willing to read. The daemon never sends more than
+// BUF_SIZE bytes of output in a chunk, but all the vars go in just one chunk.
+pub const MAX_CHUNK_SIZE: usize = 1024 * 1024 * 16;
+
 pub const HEARTBEAT_DURATION: time::Duration = time::Duration::from_millis(500);
 
 pub const STDIN_FD: i32 = 0;
diff --git a/libshpool/src/protocol.rs b/libshpool/src/protocol.rs
index 5b399ff..483b196 100644
--- a/libshpool/src/protocol.rs
+++ b/libshpool/src/protocol.rs
@@ -75,7 +75,8 @@ pub trait ChunkExt<'data>: Sized {
     where
         W: std::io::Write;
 
-    fn read_into<R>(r: &mut R, buf: &'data mut [u8]) -> anyhow::Result<Self>
+    /// Read a chunk, growing the given buffer if the chunk needs more room.
+    fn read_into<R>(r: &mut R, buf: &'data mut Vec<u8>) -> anyhow::Result<Self>
     where
         R: std::io::Read;
 }
@@ -98,7 +99,7 @@ impl<'data> ChunkExt<'data> for Chunk<'data> {
         Ok(())
     }
 
-    fn read_into<R>(r: &mut R, buf: &'data mut [u8]) -> anyhow::Result<Self>
+    fn read_into<R>(r: &mut R, buf: &'data mut Vec<u8>) -> anyhow::Result<Self>
     where
         R: std::io::Read,
     {
@@ -106,20 +107,23 @@ impl<'data> ChunkExt<'data> for Chunk<'data> {
         let kind = ChunkKind::try_from(kind).context("parsing chunk kind")?;
         if let ChunkKind::ExitStatus = kind {
             if 4 > buf.len() {
-                return Err(anyhow!("chunk of size 4 exceeds size limit of {} bytes", buf.len()));
+                buf.resize(4, 0);
             }
 
             r.read_exact(&mut buf[..4]).context("reading exit status payload")?;
             Ok(Chunk { kind, buf: &buf[..4] })
         } else {
             let len = r.read_u32::<LittleEndian>()? as usize;
-            if len > buf.len() {
+            if len > consts::MAX_CHUNK_SIZE {
                 return Err(anyhow!(
                     "chunk of size {} exceeds size limit of {} bytes",
                     len,
-                    buf.len()
+                    consts::MAX_CHUNK_SIZE
                 ));
             }
+            if len > buf.len() {
+                buf.resize(len, 0);
+            }
             r.read_exact(&mut buf[..len]).context("reading chunk payload")?;
             Ok(Chunk { kind, buf: &buf[..len] })
         }
-- 
2.43.0


From bc01e0fb6076a94dd099ef8bb41a14f36c73b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 25/50] fix: do not leak the daemon's file descriptors into
 shells and pagers

---
 libshpool/src/common.rs        | 23 ++++++++++++++++++++++-
 libshpool/src/daemon/pager.rs  |  6 ++----
 libshpool/src/daemon/server.rs |  6 ++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/libshpool/src/common.rs b/libshpool/src/common.rs
index 5ef027d..b800cd3 100644
--- a/libshpool/src/common.rs
+++ b/libshpool/src/common.rs
@@ -14,10 +14,31 @@
 
 //! The common module is a grab bag of shared utility functions.
 
-use std::{env, thread, time};
+use std::{env, os::fd::RawFd, thread, time};
 
 use anyhow::anyhow;
 
+/// Close all the file descriptors starting with the given one. Only useful
+/// between a fork and an exec, since it closes them out from under their owners.
+pub fn close_fds_from(first: RawFd) {
+    // There could be a lot of potential file descriptors, so closing all of them
+    // at once is preferable to closing them one by one.
+    #[cfg(target_os = "linux")]
+    unsafe {
+        if libc::syscall(libc::SYS_close_range, first as libc::c_uint, libc::c_uint::MAX, 0) == 0 {
+            return;
+        }
+    }
+
+    let max = match unsafe { libc::sysconf(libc::_SC_OPEN_MAX) } {
+        max if max < 0 => 1024,
+        max => max.min(RawFd::MAX as libc::c_long) as RawFd,
+    };
+    for fd in first..max {
+        let _ = nix::unistd::close(fd);
+    }
+}
+
 /// Controls how often `sleep_unless` re-checks its stop predicate.
 #[derive(Clone, Copy, Debug)]
 pub enum PollStrategy {
diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 49723a9..c173345 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -51,7 +51,7 @@ use parking_lot::Mutex;
 use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
-use crate::{consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
+use crate::{common, consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
 
 // poll relatively quickly to pick up pager exits reasonably fast,
 // but still slow enough to spend most of the time parked.
@@ -140,9 +140,7 @@ impl Pager {
         info!("forking pager pty proc");
         let fork = shpool_pty::fork::Fork::from_ptmx().context("forking pty")?;
         if fork.is_child().is_ok() {
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            common::close_fds_from(consts::STDERR_FD + 1);
             let err = cmd.exec();
             eprintln!("pager exec err: {err:?}");
             std::process::exit(1);
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index b6bed5d..64f204e 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -47,7 +47,7 @@ use shpool_protocol::{
 use tracing::{debug, error, info, instrument, span, warn, Level};
 
 use crate::{
-    config,
+    common, config,
     config::MotdDisplayMode,
     consts,
     daemon::{
@@ -1131,9 +1131,7 @@ impl Server {
             if noecho {
                 tty::disable_echo(slave.borrow_fd()).context("disabling echo on pty")?;
             }
-            for fd in consts::STDERR_FD + 1..(nix::unistd::SysconfVar::OPEN_MAX as i32) {
-                let _ = nix::unistd::close(fd);
-            }
+            common::close_fds_from(consts::STDERR_FD + 1);
             let err = cmd.exec();
             eprintln!("shell exec err: {err:?}");
             std::process::exit(1);
-- 
2.43.0


From 920d6646f0dd5164d3c7946ae5541b91aaaeafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 26/50] fix: tolerate /etc/environment not being valid UTF-8

---
 libshpool/src/daemon/etc_environment.rs |  6 +++++-
 libshpool/src/daemon/server.rs          | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/daemon/etc_environment.rs b/libshpool/src/daemon/etc_environment.rs
index 8f010ae..dbb5cb5 100644
--- a/libshpool/src/daemon/etc_environment.rs
+++ b/libshpool/src/daemon/etc_environment.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 use tracing::{debug, warn};
 
@@ -65,6 +65,10 @@ pub fn parse_compat<R: Read>(file: R) -> anyhow::Result<Vec<(String, String)>> {
                 }
                 pairs.push((String::from(key), String::from(val)));
             }
+            // Other encodings are legal, so they should not cost us the whole file.
+            Err(e) if e.kind() == ErrorKind::InvalidData => {
+                warn!("parsing /etc/environment: skipping line: {:?}", e);
+            }
             Err(e) => return Err(e)?,
         }
     }
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 64f204e..1662b00 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1413,9 +1413,15 @@ impl Server {
         if !self.config.get().noread_etc_environment.unwrap_or(false) {
             match fs::File::open("/etc/environment") {
                 Ok(f) => {
-                    let pairs = etc_environment::parse_compat(io::BufReader::new(f))?;
-                    for (var, val) in pairs.into_iter() {
-                        env.push((var.into(), val.into()));
+                    match etc_environment::parse_compat(io::BufReader::new(f)) {
+                        Ok(pairs) => {
+                            for (var, val) in pairs.into_iter() {
+                                env.push((var.into(), val.into()));
+                            }
+                        }
+                        Err(e) => {
+                            warn!("could not read /etc/environment to load env vars: {:?}", e);
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From dd40f37fe2b6743e421f37a5e2ccb27c56e95551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 27/50] fix: never signal a pager which has been reaped already

---
 libshpool/src/daemon/pager.rs | 70 +++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index c173345..85172a4 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -39,7 +39,6 @@ use std::{
         unix::{net::UnixStream, process::CommandExt as _},
     },
     process,
-    sync::atomic::{AtomicBool, Ordering},
     sync::Arc,
     thread,
     time::{Duration, Instant},
@@ -51,7 +50,10 @@ use parking_lot::Mutex;
 use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
-use crate::{common, consts, protocol::ChunkExt as _, tty::TtySizeExt as _};
+use crate::{
+    common, consts, daemon::exit_notify::ExitNotifier, protocol::ChunkExt as _,
+    tty::TtySizeExt as _,
+};
 
 // poll relatively quickly to pick up pager exits reasonably fast,
 // but still slow enough to spend most of the time parked.
@@ -145,28 +147,46 @@ impl Pager {
             eprintln!("pager exec err: {err:?}");
             std::process::exit(1);
         }
-        let pager_exited = Arc::new(AtomicBool::new(false));
+        let exit_notifier = Arc::new(ExitNotifier::new());
         let _proc_guard =
-            PagerProcGuard { pager_proc: &fork, pager_exited: Arc::clone(&pager_exited) };
+            PagerProcGuard { pager_proc: &fork, exit_notifier: Arc::clone(&exit_notifier) };
 
-        let pager_exited_ref = Arc::clone(&pager_exited);
+        let exit_notifier_ref = Arc::clone(&exit_notifier);
         let waitable_child = fork.clone();
+        let pager_pid = fork.child_pid().ok_or(anyhow!("missing pager pid"))?;
         thread::spawn(move || {
             let _s = span!(Level::INFO, "pager_exit_monitor").entered();
-            match waitable_child.wait_for_exit() {
+
+            // Wait for the pager to exit without reaping it yet, so that
+            // its pid stays reserved until nobody will signal it anymore.
+            //
+            // Safety: all basic ffi, the pid is valid until it gets reaped.
+            unsafe {
+                let mut info: libc::siginfo_t = std::mem::zeroed();
+                while libc::waitid(
+                    libc::P_PID,
+                    pager_pid as libc::id_t,
+                    &mut info,
+                    libc::WEXITED | libc::WNOWAIT,
+                ) == -1
+                    && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted
+                {}
+            }
+
+            exit_notifier_ref.notify_exit_with(|| match waitable_child.wait_for_exit() {
                 Ok((_, Some(exit_status))) => {
                     info!("child pager exited with status {}", exit_status);
-                    pager_exited_ref.store(true, Ordering::Relaxed);
+                    exit_status
                 }
                 Ok((_, None)) => {
                     info!("child pager exited without status");
-                    pager_exited_ref.store(true, Ordering::Relaxed);
+                    0
                 }
                 Err(e) => {
                     info!("error waiting on pager child: {:?}", e);
-                    pager_exited_ref.store(true, Ordering::Relaxed);
+                    1
                 }
-            }
+            });
             info!("reaped child pager: {:?}", waitable_child);
         });
 
@@ -220,7 +240,7 @@ impl Pager {
                 poll::PollFd::new(watchable_client_stream.as_fd(), poll::PollFlags::POLLIN),
             ];
             let nready = poll::poll(&mut poll_fds, POLL_MS).context("polling both streams")?;
-            if pager_exited.load(Ordering::Relaxed) {
+            if exit_notifier.wait(Some(Duration::ZERO)).is_some() {
                 let tty_size = tty_size.lock();
                 return Ok(tty_size.clone());
             }
@@ -334,16 +354,11 @@ struct PagerProcGuard<'pager> {
     pager_proc: &'pager shpool_pty::fork::Fork,
     /// Used to make sure we don't try to kill the child proc
     /// if it has already exited on its own.
-    pager_exited: Arc<AtomicBool>,
+    exit_notifier: Arc<ExitNotifier>,
 }
 
 impl std::ops::Drop for PagerProcGuard<'_> {
     fn drop(&mut self) {
-        if self.pager_exited.load(Ordering::Relaxed) {
-            // our work here is done
-            return;
-        }
-
         if let Err(e) = self.kill() {
             error!("Error cleaning up pager proc: {:?}", e);
         }
@@ -358,25 +373,34 @@ impl PagerProcGuard<'_> {
             return Err(anyhow!("somehow have a child pty handle in the main proc"));
         };
 
+        // A pager that has been reaped is gone, and its pid might belong to someone
+        // else by now.
+        let signal_pager = |sig: signal::Signal| {
+            self.exit_notifier
+                .with_running(|| signal::kill(unistd::Pid::from_raw(pid), Some(sig)))
+                .transpose()
+        };
+
         // first we'll be polite and give a SIGTERM
-        signal::kill(unistd::Pid::from_raw(pid), Some(signal::Signal::SIGTERM))
-            .context("sending SIGTERM to pager proc")?;
+        if signal_pager(signal::Signal::SIGTERM).context("sending SIGTERM to pager proc")?.is_none()
+        {
+            // our work here is done
+            return Ok(());
+        }
 
         // now do an exponential backoff for
         // `sum(10*(2**x) for x in range(7))` = 1270 ms = ~1.2 s
         // to see if that worked
         let mut sleep_ms = 10;
         for _ in 0..7 {
-            if self.pager_exited.load(Ordering::Relaxed) {
+            if self.exit_notifier.wait(Some(Duration::from_millis(sleep_ms))).is_some() {
                 return Ok(());
             }
-            thread::sleep(Duration::from_millis(sleep_ms));
             sleep_ms *= 2;
         }
 
         // now we are done asking
-        signal::kill(unistd::Pid::from_raw(pid), Some(signal::Signal::SIGKILL))
-            .context("sending SIGKILL to pager proc")?;
+        signal_pager(signal::Signal::SIGKILL).context("sending SIGKILL to pager proc")?;
 
         // and we won't stick around to see if that worked because we
         // have no further way to escalate
-- 
2.43.0


From 178c85e78c61835bb34a9741ff1fba966462b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 28/50] fix: forward everything the pager writes before it
 exits

---
 libshpool/src/daemon/pager.rs | 39 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 85172a4..01cd883 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -59,6 +59,10 @@ use crate::{
 // but still slow enough to spend most of the time parked.
 const POLL_MS: u16 = 100;
 
+// How much of the output which is left when the pager exits to forward, so
+// that processes which share its tty can't make us go on forever.
+const MAX_LAST_OUTPUT_LEN: usize = 1024 * 1024;
+
 // Handles for poking at the pager from separate connection handlers.
 // This is basically the same idea as for ReaderCtl.
 #[derive(Debug)]
@@ -233,14 +237,22 @@ impl Pager {
         let watchable_master = pty_master.clone();
         let watchable_client_stream =
             client_stream.try_clone().context("could not clone client stream")?;
+        let mut last_output_len = 0;
         loop {
+            // Pagers typically restore the screen right before they exit, so forward
+            // whatever the pager managed to write.
+            let exited = exit_notifier.wait(Some(Duration::ZERO)).is_some();
+
             // wake up when there is data for us going in either direction
             let mut poll_fds = [
                 poll::PollFd::new(watchable_master.borrow_fd(), poll::PollFlags::POLLIN),
                 poll::PollFd::new(watchable_client_stream.as_fd(), poll::PollFlags::POLLIN),
             ];
-            let nready = poll::poll(&mut poll_fds, POLL_MS).context("polling both streams")?;
-            if exit_notifier.wait(Some(Duration::ZERO)).is_some() {
+            let poll_ms = if exited { 0 } else { POLL_MS };
+            let nready = poll::poll(&mut poll_fds, poll_ms).context("polling both streams")?;
+            if exited
+                && (!poll_fds[0].any().unwrap_or(false) || last_output_len > MAX_LAST_OUTPUT_LEN)
+            {
                 let tty_size = tty_size.lock();
                 return Ok(tty_size.clone());
             }
@@ -287,6 +299,9 @@ impl Pager {
                         let tty_size = tty_size.lock();
                         return Ok(tty_size.clone());
                     }
+                    if exited {
+                        last_output_len += len;
+                    }
                     let chunk = Chunk { kind: ChunkKind::Data, buf: &buf[..len] };
                     match chunk.write_to(client_stream).and_then(|_| client_stream.flush()) {
                         Ok(_) => {}
@@ -300,7 +315,8 @@ impl Pager {
                     }
                 }
 
-                if client_stream_poll_fd.any().unwrap_or(false) {
+                // input that arrives after the pager is gone is for the shell
+                if !exited && client_stream_poll_fd.any().unwrap_or(false) {
                     let len = client_stream.read(&mut buf).context("reading client chunk")?;
                     if len == 0 {
                         info!("client EOF");
@@ -310,19 +326,12 @@ impl Pager {
 
                     trace!("user input: {}", String::from_utf8_lossy(&buf[..len]));
 
-                    if let Err(e) = pty_master.write_all(&buf[0..len]) {
+                    // If the pager is gone already, its EOF or our exit watcher thread
+                    // will tell us so once all of its output has been forwarded.
+                    if let Err(e) =
+                        pty_master.write_all(&buf[0..len]).and_then(|_| pty_master.flush())
+                    {
                         info!("Error writing to pager pty, nbd though: {:?}", e);
-                        // assume the pager proc just quit normally and the
-                        // timing was such that we didn't pick it up with our
-                        // exit watcher thread.
-                        let tty_size = tty_size.lock();
-                        return Ok(tty_size.clone());
-                    }
-                    if let Err(e) = pty_master.flush() {
-                        info!("Error flushing pager pty, nbd though: {:?}", e);
-                        // same logic as above
-                        let tty_size = tty_size.lock();
-                        return Ok(tty_size.clone());
                     }
                 }
             }
-- 
2.43.0


From 55499a7aec21a87e4939c53ef2d4b45b5f6c5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 29/50] fix: detach clients which are looking at the pager

---
 libshpool/src/daemon/pager.rs  | 108 ++++++++++++++++++++++++++++++---
 libshpool/src/daemon/server.rs |  36 +++++++----
 libshpool/src/daemon/shell.rs  |   4 +-
 3 files changed, 126 insertions(+), 22 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 01cd883..99b5557 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -39,7 +39,10 @@ use std::{
         unix::{net::UnixStream, process::CommandExt as _},
     },
     process,
-    sync::Arc,
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc,
+    },
     thread,
     time::{Duration, Instant},
 };
@@ -51,7 +54,9 @@ use shpool_protocol::{Chunk, ChunkKind, TtySize};
 use tracing::{error, info, instrument, span, trace, warn, Level};
 
 use crate::{
-    common, consts, daemon::exit_notify::ExitNotifier, protocol::ChunkExt as _,
+    common, consts,
+    daemon::{exit_notify::ExitNotifier, shell},
+    protocol::ChunkExt as _,
     tty::TtySizeExt as _,
 };
 
@@ -59,6 +64,10 @@ use crate::{
 // but still slow enough to spend most of the time parked.
 const POLL_MS: u16 = 100;
 
+// How long to wait for the pager to let go of a client which is to be detached,
+// enough for the pager to get killed.
+const DETACH_TIMEOUT: Duration = Duration::from_secs(2);
+
 // How much of the output which is left when the pager exits to forward, so
 // that processes which share its tty can't make us go on forever.
 const MAX_LAST_OUTPUT_LEN: usize = 1024 * 1024;
@@ -72,6 +81,42 @@ pub struct PagerCtl {
     pub tty_size_change: crossbeam_channel::Sender<TtySize>,
     /// Acks the completion of a resize/SIGWINCH.
     pub tty_size_change_ack: crossbeam_channel::Receiver<()>,
+    /// Used to make the pager and its client go away.
+    pub detach: PagerDetach,
+}
+
+/// A handle for disconnecting the client from the pager, which
+/// ends the pager as well.
+#[derive(Debug, Clone)]
+pub struct PagerDetach {
+    requested: Arc<AtomicBool>,
+    /// Gets closed once the pager is done.
+    done: crossbeam_channel::Receiver<()>,
+    client_stream: Arc<UnixStream>,
+}
+
+impl PagerDetach {
+    /// Disconnect the client from the pager installed in the given slot.
+    /// Cuts the client's connection if the pager does not let go of it
+    /// in time. Returns false if there is no pager.
+    pub fn detach(ctl_slot: &Mutex<Option<PagerCtl>>) -> bool {
+        let handle = {
+            let ctl_slot = ctl_slot.lock();
+            let Some(ctl) = ctl_slot.as_ref() else {
+                return false;
+            };
+            ctl.detach.requested.store(true, Ordering::Relaxed);
+            ctl.detach.clone()
+        };
+
+        if let Err(crossbeam_channel::RecvTimeoutError::Timeout) =
+            handle.done.recv_timeout(DETACH_TIMEOUT)
+        {
+            warn!("pager does not respond, cutting off the client");
+            shell::shutdown_client(&handle.client_stream);
+        }
+        true
+    }
 }
 
 /// Pager is capable of displaying a message to the user via
@@ -117,6 +162,8 @@ impl Pager {
     ) -> anyhow::Result<TtySize> {
         let (tty_size_change_tx, tty_size_change_rx) = crossbeam_channel::bounded(0);
         let (tty_size_change_ack_tx, tty_size_change_ack_rx) = crossbeam_channel::bounded(0);
+        let detach_requested = Arc::new(AtomicBool::new(false));
+        let (_done_tx, done_rx) = crossbeam_channel::bounded(0);
         {
             let mut ctl_handle = ctl_slot.lock();
             if ctl_handle.is_some() {
@@ -127,11 +174,57 @@ impl Pager {
             *ctl_handle = Some(PagerCtl {
                 tty_size_change: tty_size_change_tx,
                 tty_size_change_ack: tty_size_change_ack_rx,
+                detach: PagerDetach {
+                    requested: Arc::clone(&detach_requested),
+                    done: done_rx,
+                    client_stream: Arc::new(
+                        client_stream.try_clone().context("creating detach stream handle")?,
+                    ),
+                },
             });
         }
-        // make sure we reset the control handles
-        let _ctl_guard = PagerCltGuard { ctl_slot };
+        let res = {
+            // make sure we reset the control handles
+            let _ctl_guard = PagerCltGuard { ctl_slot };
+            self.run(
+                client_stream,
+                tty_size_change_rx,
+                tty_size_change_ack_tx,
+                &detach_requested,
+                init_tty_size,
+                msg,
+                shell_env,
+            )
+        };
+
+        // Nobody can ask us to detach anymore, so we know for sure.
+        if detach_requested.load(Ordering::Relaxed) {
+            return Self::detach_client(client_stream);
+        }
+
+        res
+    }
 
+    fn detach_client(client_stream: &UnixStream) -> anyhow::Result<TtySize> {
+        info!("detaching the client from the pager");
+        shell::SessionInner::write_exit_chunk(client_stream, 0);
+        shell::shutdown_client(client_stream);
+        Err(PagerError::ClientHangup)?
+    }
+
+    /// Run the pager process until it exits, the client hangs up or
+    /// someone wants the client to detach.
+    #[allow(clippy::too_many_arguments)]
+    fn run(
+        &self,
+        client_stream: &mut UnixStream,
+        tty_size_change_rx: crossbeam_channel::Receiver<TtySize>,
+        tty_size_change_ack_tx: crossbeam_channel::Sender<()>,
+        detach_requested: &AtomicBool,
+        init_tty_size: TtySize,
+        msg: &str,
+        shell_env: &[(OsString, OsString)],
+    ) -> anyhow::Result<TtySize> {
         let mut msg_file = tempfile::NamedTempFile::with_prefix("shpool_pager")
             .context("creating tmp file to display msg via pager")?;
         let cleaned_msg = strip_ansi_escapes::strip(msg);
@@ -209,9 +302,6 @@ impl Pager {
         thread::spawn(move || {
             let _s = span!(Level::INFO, "pager_size_change").entered();
 
-            // We could also set things up to handle detach commands, but
-            // since pagers don't stick around when the client hangs up
-            // it is not really that importaint. Let's KISS.
             while let Ok(size) = tty_size_change_rx.recv() {
                 info!("recvd new size: {:?}", size);
                 if let Err(e) = size.set_fd(pty_master_fd) {
@@ -248,6 +338,10 @@ impl Pager {
                 poll::PollFd::new(watchable_master.borrow_fd(), poll::PollFlags::POLLIN),
                 poll::PollFd::new(watchable_client_stream.as_fd(), poll::PollFlags::POLLIN),
             ];
+            if detach_requested.load(Ordering::Relaxed) {
+                // no need for the client to wait until the pager is gone
+                return Self::detach_client(client_stream);
+            }
             let poll_ms = if exited { 0 } else { POLL_MS };
             let nready = poll::poll(&mut poll_fds, poll_ms).context("polling both streams")?;
             if exited
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 1662b00..cf6b80a 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -753,21 +753,19 @@ impl Server {
 
             // We must not hold the global session table lock while talking to the
             // shell->client thread, since that might be busy with a slow client.
-            let shell_to_client_ctl = {
+            let ctls = {
                 let _s = span!(Level::INFO, "lock(shells)").entered();
                 let shells = self.shells.lock();
-                shells.get(&session).map(|s| Arc::clone(&s.shell_to_client_ctl))
+                shells
+                    .get(&session)
+                    .map(|s| (Arc::clone(&s.pager_ctl), Arc::clone(&s.shell_to_client_ctl)))
             };
-            let Some(shell_to_client_ctl) = shell_to_client_ctl else {
+            let Some((pager_ctl, shell_to_client_ctl)) = ctls else {
                 not_found_sessions.push(session);
                 continue;
             };
 
-            let status = {
-                let _s = span!(Level::INFO, "lock(shell_to_client_ctl)", s = session).entered();
-                let shell_to_client_ctl = shell_to_client_ctl.lock();
-                shell_to_client_ctl.disconnect_client(SESSION_MSG_TIMEOUT)
-            };
+            let status = disconnect_client(&pager_ctl, &shell_to_client_ctl);
             info!("detached session({}), status = {:?}", session, status);
             if let shell::ClientConnectionStatus::DetachNone = status {
                 not_attached_sessions.push(session);
@@ -998,19 +996,17 @@ impl Server {
                 }
             }
             SessionMessageRequestPayload::Detach => {
-                let shell_to_client_ctl = {
+                let (pager_ctl, shell_to_client_ctl) = {
                     let _s = span!(Level::INFO, "detach_lock(shells)").entered();
                     let shells = self.shells.lock();
                     if let Some(session) = shells.get(&header.session_name) {
-                        Arc::clone(&session.shell_to_client_ctl)
+                        (Arc::clone(&session.pager_ctl), Arc::clone(&session.shell_to_client_ctl))
                     } else {
                         return Ok(SessionMessageReply::NotFound);
                     }
                 };
-                let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
-                let shell_to_client_ctl = shell_to_client_ctl.lock();
 
-                let status = shell_to_client_ctl.disconnect_client(SESSION_MSG_TIMEOUT);
+                let status = disconnect_client(&pager_ctl, &shell_to_client_ctl);
                 info!("detached session({}), status = {:?}", header.session_name, status);
                 Ok(SessionMessageReply::Detach(SessionMessageDetachReply::Ok))
             }
@@ -1456,6 +1452,20 @@ fn does_not_support_sentinels(shell: &str) -> bool {
     shell.ends_with("nu")
 }
 
+/// Disconnect the client attached to a session, wherever it is at.
+fn disconnect_client(
+    pager_ctl: &Mutex<Option<pager::PagerCtl>>,
+    shell_to_client_ctl: &Mutex<shell::ShellToClientCtl>,
+) -> shell::ClientConnectionStatus {
+    if pager::PagerDetach::detach(pager_ctl) {
+        return shell::ClientConnectionStatus::Detached;
+    }
+
+    let _s = span!(Level::INFO, "lock(shell_to_client_ctl)").entered();
+    let shell_to_client_ctl = shell_to_client_ctl.lock();
+    shell_to_client_ctl.disconnect_client(SESSION_MSG_TIMEOUT)
+}
+
 /// Send a size change and wait until it has been picked up.
 fn resize(
     tty_size_change: &crossbeam_channel::Sender<TtySize>,
diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 8ffcb6d..fcc377a 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -261,7 +261,7 @@ fn shutdown_socket(
 
 /// Shut a client connection down, tolerating any sort of failure since the
 /// client might well be gone already.
-fn shutdown_client(stream: &std::os::unix::net::UnixStream) {
+pub fn shutdown_client(stream: &std::os::unix::net::UnixStream) {
     if let Err(e) = shutdown_socket(stream, net::Shutdown::Both) {
         warn!("shutting down client stream: {:?}", e);
     }
@@ -718,7 +718,7 @@ impl SessionInner {
             .spawn(move || log_if_error("error in shell->client", closure()))?)
     }
 
-    fn write_exit_chunk<W: io::Write>(mut sink: W, status: i32) {
+    pub fn write_exit_chunk<W: io::Write>(mut sink: W, status: i32) {
         let status_buf: [u8; 4] = status.to_le_bytes();
         let chunk = Chunk { kind: ChunkKind::ExitStatus, buf: status_buf.as_slice() };
         match chunk.write_to(&mut sink).and_then(|_| sink.flush()) {
-- 
2.43.0


From a91130099a9f4504dca93b8445ee0fb0bce10b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 30/50] fix: survive leaving the motd dump mode while a session
 starts

---
 libshpool/src/daemon/show_motd.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index 750f111..f2d9f7d 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -60,11 +60,6 @@ impl DailyMessenger {
         mut stream: W,
         term_db: &termini::TermInfo,
     ) -> anyhow::Result<()> {
-        assert!(matches!(
-            self.config.get().motd.clone().unwrap_or_default(),
-            config::MotdDisplayMode::Dump
-        ));
-
         let raw_motd_value = self.raw_motd_value(term_db)?;
 
         let chunk = Chunk { kind: ChunkKind::Data, buf: raw_motd_value.as_slice() };
-- 
2.43.0


From 764e00aca4d671f4abc0900a3bf044886eae2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 31/50] fix: start with any motd show_every duration

---
 libshpool/src/daemon/show_motd.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index f2d9f7d..bf328cb 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -165,21 +165,25 @@ impl DailyMessenger {
 
 #[derive(Debug, Clone)]
 struct Debouncer {
-    last_fired: Arc<Mutex<time::SystemTime>>,
+    last_fired: Arc<Mutex<Option<time::SystemTime>>>,
     dur: time::Duration,
 }
 
 impl Debouncer {
     fn new(dur: time::Duration) -> Self {
-        Debouncer { last_fired: Arc::new(Mutex::new(time::SystemTime::now() - (dur * 2))), dur }
+        Debouncer { last_fired: Arc::new(Mutex::new(None)), dur }
     }
 
     #[instrument(skip_all)]
     fn should_fire(&self) -> anyhow::Result<bool> {
         let mut last_fired = self.last_fired.lock();
-        if last_fired.elapsed()? >= self.dur {
-            let old: time::SystemTime = *last_fired;
-            *last_fired = time::SystemTime::now();
+        let due = match *last_fired {
+            Some(at) => at.elapsed()? >= self.dur,
+            None => true,
+        };
+        if due {
+            let old = *last_fired;
+            *last_fired = Some(time::SystemTime::now());
             info!("last_fired: old = {:?}, new = {:?}", old, *last_fired);
             Ok(true)
         } else {
-- 
2.43.0


From 58a04946271081729117c48a66e695131376003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 32/50] fix: keep tabs in the motd shown by the pager

---
 libshpool/src/daemon/pager.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 99b5557..3212202 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -227,7 +227,9 @@ impl Pager {
     ) -> anyhow::Result<TtySize> {
         let mut msg_file = tempfile::NamedTempFile::with_prefix("shpool_pager")
             .context("creating tmp file to display msg via pager")?;
-        let cleaned_msg = strip_ansi_escapes::strip(msg);
+        // stripping drops tabs along with the escape codes
+        let cleaned_msg =
+            msg.split('\t').map(strip_ansi_escapes::strip).collect::<Vec<_>>().join(&b'\t');
         msg_file.write_all(cleaned_msg.as_slice()).context("writing msg to tmp pager file")?;
 
         let mut cmd = process::Command::new(&self.pager_bin);
-- 
2.43.0


From e4cc804f109b12690cc6a5c15b21cd8e2900761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 33/50] fix: keep the pager's terminal open while it can be
 resized

---
 libshpool/src/daemon/pager.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 3212202..7e3da96 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -294,8 +294,8 @@ impl Pager {
         // spawn a background thread to handle tty size change events,
         // setting it up to go away when _ctl_guard removes the ctl
         // handle.
-        let pty_master_fd = pty_master.raw_fd();
-        if let Err(e) = init_tty_size.set_fd(pty_master_fd) {
+        let resizable_master = pty_master.clone();
+        if let Err(e) = init_tty_size.set_fd(resizable_master.raw_fd()) {
             warn!("setting init tty size for pager: {:?}", e);
         }
         let tty_size = Arc::new(Mutex::new(init_tty_size.clone()));
@@ -306,7 +306,7 @@ impl Pager {
 
             while let Ok(size) = tty_size_change_rx.recv() {
                 info!("recvd new size: {:?}", size);
-                if let Err(e) = size.set_fd(pty_master_fd) {
+                if let Err(e) = size.set_fd(resizable_master.raw_fd()) {
                     warn!("setting pager size: {:?}", e);
                 }
 
-- 
2.43.0


From 44236c60d1cc21f4acb71551c4a3d0f304679f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 34/50] fix: notice configuration changes through symlinks and
 renamed directories

---
 libshpool/src/config_watcher.rs | 158 ++++++++++++++++++++++----------
 1 file changed, 111 insertions(+), 47 deletions(-)

diff --git a/libshpool/src/config_watcher.rs b/libshpool/src/config_watcher.rs
index 41b5acc..4ad820a 100644
--- a/libshpool/src/config_watcher.rs
+++ b/libshpool/src/config_watcher.rs
@@ -19,8 +19,9 @@ use notify::{
     Watcher as _,
 };
 use std::{
-    collections::{hash_map::Entry, HashMap},
-    path::{Path, PathBuf},
+    collections::{hash_map::Entry, HashMap, HashSet},
+    fs,
+    path::{Component, Path, PathBuf},
     thread::{self, JoinHandle},
     time::{Duration, Instant},
 };
@@ -28,30 +29,61 @@ use tracing::{debug, error, instrument, warn};
 
 use crate::test_hooks;
 
-/// Canonicalize a path, resolving symlinks in the existing portion.
+/// How many symlinks to follow when looking up a config file, as on Linux.
+const MAX_SYMLINKS: usize = 40;
+
+/// Resolve `path` to the file it refers to, following symlinks. It does not
+/// need to exist (yet).
 ///
-/// This is needed because file system watchers (inotify, FSEvents, etc.) report
-/// canonical paths, so we need to store canonical paths for comparison.
-/// Unlike `std::fs::canonicalize`, this handles paths where the final
-/// components don't exist yet by canonicalizing the longest existing prefix.
-fn canonicalize_path(path: &Path) -> PathBuf {
-    // Try to canonicalize the whole path first
-    if let Ok(canonical) = path.canonicalize() {
-        return canonical;
-    }
+/// Resolving is needed because file system watchers (inotify, FSEvents, etc.)
+/// report canonical paths, so we need to store canonical paths for comparison.
+///
+/// All directories the lookup goes through are watched and added to `dirs`, and
+/// the entries it finds there are added to `entries`: `path` may refer to
+/// something else once one of them is created, removed or renamed. Each
+/// directory is watched before looking into it, so no change gets lost.
+fn watch_lookup(
+    watcher: &mut RecommendedWatcher,
+    path: &Path,
+    dirs: &mut HashSet<PathBuf>,
+    entries: &mut HashSet<PathBuf>,
+) -> PathBuf {
+    let to_components = |path: &Path| -> Vec<PathBuf> {
+        path.components().rev().map(|c| PathBuf::from(c.as_os_str())).collect()
+    };
 
-    // Find the longest existing ancestor and canonicalize that
-    for ancestor in path.ancestors().skip(1) {
-        if let Ok(canonical_ancestor) = ancestor.canonicalize() {
-            // Append the remaining (non-existent) components
-            if let Ok(remaining) = path.strip_prefix(ancestor) {
-                return canonical_ancestor.join(remaining);
+    let mut resolved = PathBuf::new();
+    let mut links_followed = 0;
+    let mut remaining =
+        to_components(&std::path::absolute(path).unwrap_or_else(|_| path.to_path_buf()));
+    while let Some(component) = remaining.pop() {
+        match component.components().next() {
+            Some(Component::Normal(name)) => {
+                if dirs.insert(resolved.clone()) {
+                    if let Err(err) = watcher.watch(&resolved, RecursiveMode::NonRecursive) {
+                        // Expected if it does not exist.
+                        debug!("not watching {}: {:?}", resolved.display(), err);
+                    }
+                }
+                let entry = resolved.join(name);
+                entries.insert(entry.clone());
+                match fs::read_link(&entry) {
+                    Ok(target) if links_followed < MAX_SYMLINKS => {
+                        links_followed += 1;
+                        remaining.extend(to_components(&target));
+                    }
+                    _ => resolved = entry,
+                }
+            }
+            Some(Component::ParentDir) => {
+                resolved.pop();
             }
+            Some(Component::CurDir) | None => {}
+            // the root directory
+            Some(_) => resolved.push(component),
         }
     }
-
-    // Fallback to original path if nothing could be canonicalized
-    path.to_path_buf()
+    resolved
 }
 
 /// Watches on `path`, returnes the watched path, which is the closest existing
@@ -166,7 +198,10 @@ impl ConfigWatcher {
             req_rx,
             #[cfg(test)]
             debug_tx,
+            targets: Default::default(),
             paths: Default::default(),
+            lookup_dirs: Default::default(),
+            lookup_entries: Default::default(),
         };
         let worker = thread::Builder::new()
             .name("config-reload".to_string())
@@ -238,9 +273,15 @@ struct ConfigWatcherInner<Handler> {
 
     /// receiving watch requests from the outer `ConfigWatcher`
     req_rx: Receiver<Command>,
+    /// The paths we have been asked to watch.
+    targets: Vec<PathBuf>,
     /// Current watching status, it is a map from target_path to (watched_path,
     /// immediate_child_path)
     paths: HashMap<PathBuf, (PathBuf, PathBuf)>,
+    /// The directories which the lookups of `targets` go through.
+    lookup_dirs: HashSet<PathBuf>,
+    /// The entries of `lookup_dirs` which the lookups of `targets` go through.
+    lookup_entries: HashSet<PathBuf>,
 
     /// for sending out debug info
     #[cfg(test)]
@@ -328,41 +369,61 @@ impl<Handler> ConfigWatcherInner<Handler> {
 
     /// Handle add watch command from `ConfigWatcher`.
     fn add_watch_by_command(&mut self, path: PathBuf) -> Result<()> {
-        let canonical_path = canonicalize_path(&path);
-        match self.paths.entry(canonical_path) {
-            Entry::Occupied(e) => Err(anyhow!("{} is already being watched", e.key().display())),
-            e @ Entry::Vacant(_) => {
-                let reload = watch_and_add(&mut self.watcher, e)?;
-                if reload {
-                    self.trigger_reload();
-                }
-                Ok(())
-            }
+        if self.targets.contains(&path) {
+            return Ok(());
         }
+        let reload = self.add_watch(&path)?;
+        self.targets.push(path);
+        if reload {
+            self.trigger_reload();
+        }
+        Ok(())
     }
 
-    /// Do rewatch according to the enum, return whether reload is necessary
-    fn rewatch(&mut self, rewatch: ReWatch) -> bool {
-        let rewatch_paths = match rewatch {
-            ReWatch::Some(rewatch_paths) => rewatch_paths,
-            ReWatch::All => {
-                // drain paths and collect into vec first, to avoid keeping a mutable borrow on
-                // self.paths
-                self.paths.drain().map(|(path, (watched_path, _))| (path, watched_path)).collect()
-            }
-        };
-        rewatch_paths.into_iter().any(|(path, watched_path)| {
+    /// Watch whatever `path` refers to right now, return whether reload is
+    /// necessary
+    fn add_watch(&mut self, path: &Path) -> Result<bool> {
+        let target_path = watch_lookup(
+            &mut self.watcher,
+            path,
+            &mut self.lookup_dirs,
+            &mut self.lookup_entries,
+        );
+        watch_and_add(&mut self.watcher, self.paths.entry(target_path))
+    }
+
+    /// Whether the event might change what the targets refer to.
+    fn affects_lookup(&self, event: &Event) -> bool {
+        matches!(
+            event.kind,
+            EventKind::Remove(_) | EventKind::Create(_) | EventKind::Modify(ModifyKind::Name(_))
+        ) && event.paths.iter().any(|p| self.lookup_entries.contains(p))
+    }
+
+    /// Look up all targets again and watch what they refer to now, return
+    /// whether reload is necessary
+    fn rewatch(&mut self) -> bool {
+        let existed = self.paths.iter().any(|(path, (watched_path, _))| path == watched_path);
+        let watched_paths = self.paths.drain().map(|(_, (watched_path, _))| watched_path);
+        for watched_path in watched_paths.chain(self.lookup_dirs.drain()).collect::<HashSet<_>>() {
             if let Err(err) = self.watcher.unwatch(&watched_path) {
                 // error sometimes is expected if the watched_path was simply removed, in that
                 // case notify will automatically remove the watch.
-                error!("error unwatch {:?}", err);
+                debug!("error unwatch {:?}", err);
             } else {
                 debug!("unwatched {}", watched_path.display());
             }
-            watch_and_add(&mut self.watcher, self.paths.entry(path))
+        }
+        self.lookup_entries.clear();
+
+        let mut reload = existed;
+        for target in self.targets.clone() {
+            reload |= self
+                .add_watch(&target)
                 .map_err(|err| error!("Failed to add watch: {:?}", err))
-                .unwrap_or(true)
-        })
+                .unwrap_or(true);
+        }
+        reload
     }
 }
 
@@ -378,6 +439,7 @@ where
             match self.select() {
                 Outcome::Event(res) => {
                     debug!("event: {:?}", res);
+                    let affects_lookup = res.as_ref().is_ok_and(|event| self.affects_lookup(event));
                     let (rewatch, mut reload) = match res {
                         Err(error) => {
                             error!("Error: {error:?}");
@@ -386,7 +448,9 @@ where
                         Ok(event) => handle_event(event, &self.paths),
                     };
                     debug!("rewatch = {rewatch:?}, reload = {reload}");
-                    reload |= self.rewatch(rewatch);
+                    if affects_lookup || rewatch != ReWatch::Some(vec![]) {
+                        reload |= self.rewatch();
+                    }
                     if reload {
                         test_hooks::emit("daemon-config-watcher-file-change");
                         self.trigger_reload();
-- 
2.43.0


From 7e58edea348d96d9b7200fe5fe82e977dbda3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 35/50] fix: do not miss configuration changes made while
 starting

---
 libshpool/src/config.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 404a7b8..25e6b10 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -69,9 +69,7 @@ impl Manager {
             }
         };
 
-        let config = Self::load(&config_files).context("loading initial config")?;
-        info!("starting with config: {:?}", config);
-        let config = Arc::new(RwLock::new(config));
+        let config = Arc::new(RwLock::new(Config::default()));
 
         let watcher = {
             let config = config.clone();
@@ -91,9 +89,16 @@ impl Manager {
             })
             .context("building watcher")?
         };
-        for path in config_files {
+        for path in &config_files {
             watcher.watch(path).context("registering config file for watching")?;
         }
+        // Only load the config once the files are being watched, so no change to
+        // them can go unnoticed in between.
+        {
+            let mut config = config.write().unwrap();
+            *config = Self::load(&config_files).context("loading initial config")?;
+            info!("starting with config: {:?}", config);
+        }
         let manager = Manager { config, _watcher: Arc::new(watcher) };
 
         Ok(manager)
-- 
2.43.0


From f56a1097809aa649d77a0dc1b0cf64b43dad5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 36/50] fix: find the user's configuration in XDG_CONFIG_HOME

---
 libshpool/src/config.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index 25e6b10..a270681 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -160,9 +160,16 @@ impl Manager {
 
     #[cfg(not(any(target_os = "macos", target_os = "ios", target_os = "windows")))]
     fn config_base_dir() -> anyhow::Result<PathBuf> {
-        match std::env::var("XDG_CONFIG_DIR") {
-            Ok(v) => Ok(PathBuf::from(v)),
-            Err(_) => {
+        // Values which are not absolute paths are invalid and to be ignored
+        // according to the XDG base directory specification. XDG_CONFIG_DIR is
+        // not part of it, we keep honoring it for compatibility.
+        let xdg_dir = std::env::var_os("XDG_CONFIG_HOME")
+            .map(PathBuf::from)
+            .filter(|dir| dir.is_absolute())
+            .or_else(|| std::env::var_os("XDG_CONFIG_DIR").map(PathBuf::from));
+        match xdg_dir {
+            Some(dir) => Ok(dir),
+            None => {
                 let user_info = user::info().context("getting user info")?;
                 let mut path = PathBuf::from(user_info.home_dir);
                 path.push(".config");
-- 
2.43.0


From a31ce81882a80699dad5fa28c562c851aa56198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 37/50] fix: let exactly one daemon serve a socket

A daemon which lost the race for the socket, or was started while another
one was running, had already removed the events socket of the winner. Stale
sockets were removed by whoever noticed them first, which could hit the
socket another daemon had just bound. Serialize all of this with a lock.
---
 libshpool/src/daemon/mod.rs | 103 +++++++++++++++++++++++++++++-------
 libshpool/src/daemonize.rs  |  15 ++----
 2 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index fa26992..8d5a87a 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -12,9 +12,19 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::{env, os::unix::net::UnixListener, path::PathBuf};
+use std::{
+    env, fs, io,
+    os::unix::net::{UnixListener, UnixStream},
+    path::{Path, PathBuf},
+    thread,
+    time::Duration,
+};
 
-use anyhow::Context;
+use anyhow::{anyhow, Context};
+use nix::{
+    errno::Errno,
+    fcntl::{Flock, FlockArg},
+};
 use tracing::{info, instrument};
 
 use crate::{config, consts, daemonize, hooks};
@@ -33,6 +43,12 @@ mod systemd;
 mod trie;
 mod ttl_reaper;
 
+// How often, and how many times, a starting daemon checks if the socket it
+// wants to serve has become available while another daemon is starting up or
+// shutting down.
+const SOCKET_LOCK_POLL: Duration = Duration::from_millis(50);
+const SOCKET_LOCK_TRIES: usize = 100;
+
 #[instrument(skip_all)]
 pub fn run(
     config_manager: config::Manager,
@@ -68,31 +84,29 @@ pub fn run(
 
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
-    let events_socket = events::socket_path(&socket);
-    let (events_bus, _events_handle) =
-        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
-    let server =
-        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
-
-    let (cleanup_socket, listener) = match systemd::activation_socket() {
+    // The lock is held until this process exits.
+    let (activated_listener, _socket_lock) = match systemd::activation_socket() {
         Ok(l) => {
             info!("using systemd activation socket");
-            (None, l)
+            (Some(l), None)
         }
         Err(e) => {
             info!("no systemd activation socket: {:?}", e);
-            // If a stale socket file exists (file on disk, nothing listening),
-            // remove it before binding so we don't get EADDRINUSE.
-            if let Err(connect_err) = std::os::unix::net::UnixStream::connect(&socket) {
-                if connect_err.kind() == std::io::ErrorKind::ConnectionRefused {
-                    info!("removing stale socket file at {:?}", socket);
-                    std::fs::remove_file(&socket).context("removing stale socket before bind")?;
-                }
-            }
-            (Some(socket.clone()), UnixListener::bind(&socket).context("binding to socket")?)
+            (None, Some(claim_socket(&socket)?))
         }
     };
 
+    let events_socket = events::socket_path(&socket);
+    let (events_bus, _events_handle) =
+        events::EventBus::start(events_socket.clone()).context("starting events bus")?;
+    let server =
+        server::Server::new(config_manager, hooks, runtime_dir, log_level_handle, events_bus)?;
+
+    let (cleanup_socket, listener) = match activated_listener {
+        Some(l) => (None, l),
+        None => (Some(socket.clone()), UnixListener::bind(&socket).context("binding to socket")?),
+    };
+
     // spawn the signal handler thread in the background. Both sockets need
     // explicit cleanup on signal exit because the process exits before any
     // RAII guard can run -- the signal path bypasses the sink's RAII socket
@@ -114,3 +128,54 @@ pub fn run(
 
     Ok(())
 }
+
+/// Become the one daemon allowed to serve the given socket, clearing away
+/// what a daemon that crashed may have left behind. Fails if some other
+/// daemon already serves the socket.
+///
+/// The returned lock must be held for as long as the daemon runs. Nobody but
+/// the holder may create or remove any of the sockets.
+fn claim_socket(socket: &Path) -> anyhow::Result<Flock<fs::File>> {
+    let mut lock_path = socket.as_os_str().to_os_string();
+    lock_path.push(".lock");
+    // The lock file is never removed, since otherwise there could be two
+    // daemons holding locks on different files of the same name.
+    let mut lock_file = fs::OpenOptions::new()
+        .read(true)
+        .write(true)
+        .create(true)
+        .truncate(false)
+        .open(&lock_path)
+        .with_context(|| format!("opening socket lock file {:?}", lock_path))?;
+
+    let mut tries = 0;
+    let lock = loop {
+        match Flock::lock(lock_file, FlockArg::LockExclusiveNonblock) {
+            Ok(l) => break l,
+            Err((f, Errno::EWOULDBLOCK)) => lock_file = f,
+            Err((_, e)) => return Err(anyhow!("locking {:?}: {}", lock_path, e)),
+        }
+
+        // The holder might also be just starting up or shutting down, in which
+        // case we find out if it is going to serve the socket by waiting.
+        tries += 1;
+        if tries >= SOCKET_LOCK_TRIES || UnixStream::connect(socket).is_ok() {
+            return Err(anyhow!("another daemon is already running on {:?}", socket));
+        }
+        thread::sleep(SOCKET_LOCK_POLL);
+    };
+
+    match UnixStream::connect(socket) {
+        // This one does not know about the lock, it might use socket activation.
+        Ok(_) => return Err(anyhow!("another daemon is already running on {:?}", socket)),
+        Err(e) if e.kind() == io::ErrorKind::ConnectionRefused => {
+            // If a stale socket file exists (file on disk, nothing listening),
+            // remove it before binding so we don't get EADDRINUSE.
+            info!("removing stale socket file at {:?}", socket);
+            fs::remove_file(socket).context("removing stale socket before bind")?;
+        }
+        Err(_) => {}
+    }
+
+    Ok(lock)
+}
diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index d359a9b..4e5de9b 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -56,16 +56,11 @@ where
             // don't need to do anything.
             return Ok(());
         }
-        Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
-            // The socket file exists but nothing is listening (stale socket).
-            // Remove it so the new daemon can bind successfully.
-            info!("stale socket at {:?}, removing before autodaemonizing", control_sock);
-            std::fs::remove_file(control_sock)
-                .with_context(|| format!("removing stale socket at {:?}", control_sock))?;
-        }
-        Err(_) => {
-            // Socket file does not exist or other error; fall through to spawn
-            // daemon.
+        Err(e) => {
+            // The socket file does not exist, or nothing is listening on it. In the
+            // latter case the file is for the new daemon to replace, since there might
+            // be a daemon that takes over the socket before we get to do anything.
+            info!("could not connect to {:?}: {:?}", control_sock, e);
         }
     }
     info!("no daemon running on {:?}, autodaemonizing", control_sock);
-- 
2.43.0


From fe42a5d03bb8d3cd5d54f2678afdaf2b1c93ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 38/50] fix: keep the pid file of a running daemon

The lock on the pid file was dropped as soon as the daemon was set up, so a
second daemon could take it over, and removed the file when it found that the
socket is taken. Hold the lock for as long as the daemon runs, and give one
that is shutting down some time to release it.
---
 libshpool/src/daemonize.rs | 63 +++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 4e5de9b..9e676f9 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -16,7 +16,10 @@ use std::{
     ffi::OsStr,
     fs,
     io::{Seek, SeekFrom, Write},
-    os::{fd::AsRawFd, unix::net::UnixStream},
+    os::{
+        fd::AsRawFd,
+        unix::{fs::MetadataExt, net::UnixStream},
+    },
     path::{Path, PathBuf},
     process, thread,
     time::Duration,
@@ -118,8 +121,16 @@ where
     Err(anyhow!("daemonizing: launched daemon, but control socket never came up"))
 }
 
+// How often, and how many times, to check if a daemon that holds the pid
+// file has shut down.
+const PID_FILE_POLL: Duration = Duration::from_millis(50);
+const PID_FILE_TRIES: usize = 40;
+
 pub struct PidFileGuard {
     p: PathBuf,
+    // Held for as long as the daemon runs, released only after the file
+    // has been removed.
+    _lock: fcntl::Flock<fs::File>,
 }
 
 impl PidFileGuard {
@@ -162,22 +173,7 @@ pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
     let sid = unistd::setsid().context("creating new session")?;
     info!("while daemonizing setsid() = {}", sid);
 
-    let pid_file = fs::OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .truncate(false)
-        .open(&pid_path)
-        .context("opening pid file")?;
-    let mut pid_file = match fcntl::Flock::lock(pid_file, FlockArg::LockExclusiveNonblock) {
-        Ok(l) => l,
-        Err((_, errno)) if errno == nix::errno::Errno::EWOULDBLOCK => {
-            return Err(anyhow!("another daemon is already running"));
-        }
-        Err((_, errno)) => {
-            return Err(anyhow!("locking pid file: {:?}", errno));
-        }
-    };
+    let mut pid_file = lock_pid_file(&pid_path)?;
 
     // Safety: the caller has ensured fork preconditions are met, which
     // meet the become_child preconditions.
@@ -194,7 +190,38 @@ pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
     // now.
     unsafe { redirect_std_fds_to_null()? };
 
-    Ok(PidFileGuard { p: pid_path })
+    Ok(PidFileGuard { p: pid_path, _lock: pid_file })
+}
+
+/// Open and lock the pid file, giving a daemon that is about to shut down a
+/// bit of time to let go of it.
+fn lock_pid_file(pid_path: &Path) -> anyhow::Result<fcntl::Flock<fs::File>> {
+    for _ in 0..PID_FILE_TRIES {
+        let pid_file = fs::OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(false)
+            .open(pid_path)
+            .context("opening pid file")?;
+        match fcntl::Flock::lock(pid_file, FlockArg::LockExclusiveNonblock) {
+            Ok(l) => {
+                // A daemon that just shut down might have removed the file after
+                // we opened it, in which case it is not the pid file anymore.
+                let locked = l.metadata().context("stating locked pid file")?;
+                match fs::metadata(pid_path) {
+                    Ok(m) if (m.dev(), m.ino()) == (locked.dev(), locked.ino()) => return Ok(l),
+                    _ => continue,
+                }
+            }
+            Err((_, errno)) if errno == nix::errno::Errno::EWOULDBLOCK => {
+                thread::sleep(PID_FILE_POLL);
+            }
+            Err((_, errno)) => return Err(anyhow!("locking pid file: {:?}", errno)),
+        }
+    }
+
+    Err(anyhow!("another daemon is already running"))
 }
 
 // Safety: callers MUST NOT call this when the std file descriptors are
-- 
2.43.0


From c059518c6e07961fdd7181ed1169a148e86d3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 39/50] fix: let clients start a daemon on a relative socket
 path

The daemon changes to the root directory before it binds the socket, so the
client waited for a socket that never came up.
---
 libshpool/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index ee9e2ac..51f5231 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -17,7 +17,7 @@ use std::{
     env, fs,
     hash::{Hash, Hasher},
     io,
-    path::PathBuf,
+    path::{self, PathBuf},
 };
 
 use anyhow::{anyhow, Context};
@@ -434,7 +434,8 @@ pub unsafe fn run(
             let hash = hasher.finish();
             runtime_dir = runtime_dir.join(format!("{hash:x}"));
 
-            PathBuf::from(s)
+            // An autodaemonized daemon does not stay in the current directory.
+            path::absolute(s).context("resolving socket path")?
         }
         None => runtime_dir.join("shpool.socket"),
     };
-- 
2.43.0


From b34469d61059db62bda0bdd2ee64573b28ba88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 40/50] fix: notice configuration changes in a daemonized
 daemon

Daemonizing forks, which left the threads watching the config files behind
in the parent.
---
 libshpool/src/config.rs     |  6 +++---
 libshpool/src/daemon/mod.rs | 41 +++++++++++++++++++++----------------
 libshpool/src/lib.rs        | 19 ++++++++++++++++-
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index a270681..edb50ea 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -53,7 +53,7 @@ impl Manager {
     /// For each top level field, values read later will overrides those read
     /// eariler. The exact merging strategy is as defined in
     /// `Config::merge`.
-    pub fn new(config_file: Option<&str>) -> Result<Self> {
+    pub fn new(config_file: Option<&Path>) -> Result<Self> {
         let config_dir = Self::config_dir()?;
 
         let config_files = match config_file {
@@ -64,8 +64,8 @@ impl Manager {
                 ]
             }
             Some(config_file) => {
-                info!("parsing explicitly passed in config ({})", config_file);
-                vec![Cow::from(Path::new(config_file))]
+                info!("parsing explicitly passed in config ({})", config_file.display());
+                vec![Cow::from(config_file)]
             }
         };
 
diff --git a/libshpool/src/daemon/mod.rs b/libshpool/src/daemon/mod.rs
index 8d5a87a..70037a5 100644
--- a/libshpool/src/daemon/mod.rs
+++ b/libshpool/src/daemon/mod.rs
@@ -49,18 +49,12 @@ mod ttl_reaper;
 const SOCKET_LOCK_POLL: Duration = Duration::from_millis(50);
 const SOCKET_LOCK_TRIES: usize = 100;
 
-#[instrument(skip_all)]
-pub fn run(
-    config_manager: config::Manager,
-    runtime_dir: PathBuf,
-    hooks: Box<dyn hooks::Hooks + Send + Sync>,
-    log_level_handle: tracing_subscriber::reload::Handle<
-        tracing_subscriber::filter::LevelFilter,
-        tracing_subscriber::registry::Registry,
-    >,
-    socket: PathBuf,
-) -> anyhow::Result<()> {
-    let pid_guard = if let Ok(daemonize) = env::var(consts::AUTODAEMONIZE_VAR) {
+/// Turn into a background process if we have been asked to by whoever
+/// launched us.
+///
+/// This must be called before any threads are forked.
+pub fn maybe_daemonize(socket: &Path) -> anyhow::Result<Option<daemonize::PidFileGuard>> {
+    if let Ok(daemonize) = env::var(consts::AUTODAEMONIZE_VAR) {
         if daemonize == "true" {
             // Safety: this is executing before we have forked any threads,
             // so we are still in single-threaded mode, therefore it is safe
@@ -74,14 +68,25 @@ pub fn run(
             info!("daemonizing with pid_file={:?}", pid_file);
             // Safety: we are calling this before having forked any threads,
             // which is sufficient to meet the safety requirements for fork().
-            Some(unsafe { daemonize::daemonize(pid_file) }.context("daemonizing")?)
-        } else {
-            None
+            return Ok(Some(unsafe { daemonize::daemonize(pid_file) }.context("daemonizing")?));
         }
-    } else {
-        None
-    };
+    }
+
+    Ok(None)
+}
 
+#[instrument(skip_all)]
+pub fn run(
+    config_manager: config::Manager,
+    runtime_dir: PathBuf,
+    hooks: Box<dyn hooks::Hooks + Send + Sync>,
+    log_level_handle: tracing_subscriber::reload::Handle<
+        tracing_subscriber::filter::LevelFilter,
+        tracing_subscriber::registry::Registry,
+    >,
+    socket: PathBuf,
+    pid_guard: Option<daemonize::PidFileGuard>,
+) -> anyhow::Result<()> {
     info!("\n\n======================== STARTING DAEMON ============================\n\n");
 
     // The lock is held until this process exits.
diff --git a/libshpool/src/lib.rs b/libshpool/src/lib.rs
index 51f5231..83984aa 100644
--- a/libshpool/src/lib.rs
+++ b/libshpool/src/lib.rs
@@ -440,7 +440,23 @@ pub unsafe fn run(
         None => runtime_dir.join("shpool.socket"),
     };
 
-    let config_manager = config::Manager::new(args.config_file.as_deref())?;
+    // An autodaemonized daemon does not stay in the current directory.
+    let config_file = args
+        .config_file
+        .as_ref()
+        .map(path::absolute)
+        .transpose()
+        .context("resolving config file path")?;
+
+    // Daemonizing forks, and only the calling thread lives on in the daemon, so
+    // this has to happen before anything starts a thread (such as the one that
+    // watches the config files).
+    let pid_guard = match args.command {
+        Commands::Daemon => daemon::maybe_daemonize(&socket)?,
+        _ => None,
+    };
+
+    let config_manager = config::Manager::new(config_file.as_deref())?;
 
     if !config_manager.get().nodaemonize.unwrap_or(false) || args.daemonize {
         let arg0 = env::args().next().ok_or(anyhow!("arg0 missing"))?;
@@ -468,6 +484,7 @@ pub unsafe fn run(
             hooks.unwrap_or(Box::new(NoopHooks {})),
             log_level_handle,
             socket,
+            pid_guard,
         ),
         Commands::Attach { force, background, ttl, cmd, dir, start_cmd, name } => {
             attach::run(socket, config_manager, name, force, background, ttl, cmd, dir, start_cmd)
-- 
2.43.0


From 0e7026d26b311e64cf680c7beaccec02f979b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 41/50] fix: let shells of a daemonized daemon keep the user's
 umask

---
 libshpool/src/daemonize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libshpool/src/daemonize.rs b/libshpool/src/daemonize.rs
index 9e676f9..b841ff0 100644
--- a/libshpool/src/daemonize.rs
+++ b/libshpool/src/daemonize.rs
@@ -153,8 +153,9 @@ impl std::ops::Drop for PidFileGuard {
 ///
 /// Safety: see nix::unistd::fork for preconditions.
 pub unsafe fn daemonize(pid_path: PathBuf) -> anyhow::Result<PidFileGuard> {
-    let old_mask = nix::sys::stat::umask(nix::sys::stat::Mode::empty());
-    info!("set empty umask (old mask: {:?})", old_mask);
+    // A daemon would normally reset its umask here, but all the shells we
+    // launch inherit it, and they must not make the files of the user writable
+    // to everybody.
 
     // `cd /` in order to avoid holding open the directory the user
     // happened to launch `shpool attach` in so that we don't block
-- 
2.43.0


From 87723056d32134f0f27159f956eabcc67020150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 42/50] fix: keep the configuration when a file is not valid
 UTF-8

---
 libshpool/src/config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/config.rs b/libshpool/src/config.rs
index edb50ea..8711985 100644
--- a/libshpool/src/config.rs
+++ b/libshpool/src/config.rs
@@ -15,7 +15,7 @@
 use std::{
     borrow::Cow,
     collections::HashMap,
-    fs,
+    fs, io,
     path::{Path, PathBuf},
     sync::{Arc, RwLock, RwLockReadGuard},
 };
@@ -123,6 +123,13 @@ impl Manager {
             let path = path.as_ref();
             info!("loading config from {:?}", path);
             let config_str = match fs::read_to_string(path) {
+                // just as malformed as a file which is not toml
+                Err(e) if e.kind() == io::ErrorKind::InvalidData => {
+                    warn!("error decoding config file: {:?}", e);
+                    return Err(e).with_context(|| {
+                        format!("decoding config file {}", path.to_string_lossy())
+                    });
+                }
                 Err(e) => {
                     warn!("skip reading config file {}: {:?}", path.display(), e);
                     continue;
-- 
2.43.0


From 51608c298863f270324d8a6b2880546a7e845ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 43/50] fix: apply changes of the motd show_every option
 without a restart

---
 libshpool/src/daemon/show_motd.rs | 51 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/libshpool/src/daemon/show_motd.rs b/libshpool/src/daemon/show_motd.rs
index bf328cb..b98f24f 100644
--- a/libshpool/src/daemon/show_motd.rs
+++ b/libshpool/src/daemon/show_motd.rs
@@ -31,26 +31,23 @@ use crate::{
 pub struct DailyMessenger {
     motd_resolver: motd::Resolver,
     config: config::Manager,
-    debouncer: Option<Debouncer>,
+    debouncer: Debouncer,
 }
 
 impl DailyMessenger {
     /// Make a new DailyMessenger.
     pub fn new(config: config::Manager) -> anyhow::Result<Self> {
-        let debouncer = {
-            let config_ref = config.get();
-            match config_ref.motd.clone().unwrap_or_default() {
-                config::MotdDisplayMode::Pager { show_every: Some(dur), .. } => {
-                    Some(Debouncer::new(duration::parse(&dur).context("parsing debounce dur")?))
-                }
-                _ => None,
-            }
-        };
+        // refuse to start with a bad duration rather than failing to show the motd later
+        if let config::MotdDisplayMode::Pager { show_every: Some(dur), .. } =
+            config.get().motd.clone().unwrap_or_default()
+        {
+            duration::parse(&dur).context("parsing debounce dur")?;
+        }
 
         Ok(DailyMessenger {
             motd_resolver: motd::Resolver::new().context("creating motd resolver")?,
             config,
-            debouncer,
+            debouncer: Debouncer::new(),
         })
     }
 
@@ -90,20 +87,23 @@ impl DailyMessenger {
         // to pass TERM along correctly).
         shell_env: &[(OsString, OsString)],
     ) -> anyhow::Result<Option<TtySize>> {
-        if let Some(debouncer) = &self.debouncer {
-            if !debouncer.should_fire()? {
-                return Ok(None);
-            }
-        }
-
-        let pager_bin = if let config::MotdDisplayMode::Pager { bin, .. } =
+        let (pager_bin, show_every) = if let config::MotdDisplayMode::Pager { bin, show_every } =
             self.config.get().motd.clone().unwrap_or_default()
         {
-            bin
+            (bin, show_every)
         } else {
             return Err(anyhow!("internal error: wrong mode to display in pager"));
         };
 
+        // The config might have changed since the last time.
+        let show_every = match show_every {
+            Some(dur) => Some(duration::parse(&dur).context("parsing debounce dur")?),
+            None => None,
+        };
+        if !self.debouncer.should_fire(show_every)? {
+            return Ok(None);
+        }
+
         info!("displaying motd in pager '{}'", pager_bin);
 
         let motd_value = self.motd_value()?;
@@ -166,20 +166,19 @@ impl DailyMessenger {
 #[derive(Debug, Clone)]
 struct Debouncer {
     last_fired: Arc<Mutex<Option<time::SystemTime>>>,
-    dur: time::Duration,
 }
 
 impl Debouncer {
-    fn new(dur: time::Duration) -> Self {
-        Debouncer { last_fired: Arc::new(Mutex::new(None)), dur }
+    fn new() -> Self {
+        Debouncer { last_fired: Arc::new(Mutex::new(None)) }
     }
 
     #[instrument(skip_all)]
-    fn should_fire(&self) -> anyhow::Result<bool> {
+    fn should_fire(&self, show_every: Option<time::Duration>) -> anyhow::Result<bool> {
         let mut last_fired = self.last_fired.lock();
-        let due = match *last_fired {
-            Some(at) => at.elapsed()? >= self.dur,
-            None => true,
+        let due = match (*last_fired, show_every) {
+            (Some(at), Some(dur)) => at.elapsed()? >= dur,
+            _ => true,
         };
         if due {
             let old = *last_fired;
-- 
2.43.0


From d2d6142700cb166a455a2fe21ea7649df76a08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 44/50] fix: do not lose a window size change that happens
 while attaching

---
 libshpool/src/attach.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/libshpool/src/attach.rs b/libshpool/src/attach.rs
index 0ca94af..02e2c6a 100644
--- a/libshpool/src/attach.rs
+++ b/libshpool/src/attach.rs
@@ -167,9 +167,9 @@ impl Attach {
 
         let mut detached = false;
         let mut tries = 0;
-        let attach_client = loop {
+        let (attach_client, sent_tty_size) = loop {
             match self.dial_attach(&resolved) {
-                Ok(client) => break client,
+                Ok(res) => break res,
                 Err(err) => match err.downcast() {
                     Ok(BusyError) if !self.force && returning && tries <= MAX_FORCE_RETRIES => {
                         // The daemon might not be done with our last connection.
@@ -241,6 +241,15 @@ impl Attach {
             return Ok(AttachResult::Done);
         }
 
+        // The daemon had no use for a resize request while the session was
+        // not there yet, so if the terminal has changed since we read its
+        // size, have the signal handler report the new one.
+        let dims = |size: &TtySize| (size.rows, size.cols, size.xpixel, size.ypixel);
+        if matches!(TtySize::from_fd(0), Ok(size) if dims(&size) != dims(&sent_tty_size)) {
+            info!("tty size changed while attaching");
+            signal_hook::low_level::raise(signal_hook::consts::SIGWINCH).context("raising SIGWINCH")?;
+        }
+
         info!("entering bidi streaming mode");
         let session_name_tmpl = self.tmpls.session_name.clone();
         match attach_client.pipe_bytes(move |maybe_switch: &MaybeSwitch| {
@@ -254,8 +263,11 @@ impl Attach {
     }
 
     /// Attach to a session and return the connected client without piping
-    /// stdio.
-    fn dial_attach(&self, resolved: &ResolvedTemplates) -> anyhow::Result<protocol::Client> {
+    /// stdio, along with the tty size we told the daemon about.
+    fn dial_attach(
+        &self,
+        resolved: &ResolvedTemplates,
+    ) -> anyhow::Result<(protocol::Client, TtySize)> {
         let mut client = self.dial_client(true)?;
 
         let tty_size = match TtySize::from_fd(0) {
@@ -289,7 +301,7 @@ impl Attach {
         client
             .write_connect_header(ConnectHeader::Attach(AttachHeader {
                 name: resolved.session_name.clone(),
-                local_tty_size: tty_size,
+                local_tty_size: tty_size.clone(),
                 local_env: local_env_keys
                     .into_iter()
                     .filter_map(|var| {
@@ -340,7 +352,7 @@ impl Attach {
             }
         }
 
-        Ok(client)
+        Ok((client, tty_size))
     }
 
     // Dial the daemon. If silent is true, don't attempt to warn the user.
-- 
2.43.0


From a157ef42aee0068496cb8ac55957a480adcfaaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 45/50] fix: keep the daemon alive when there is no thread for
 a connection

---
 libshpool/src/daemon/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index cf6b80a..701d76c 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -177,11 +177,15 @@ impl Server {
                     conn_counter += 1;
                     let conn_id = conn_counter;
                     let server = Arc::clone(&server);
-                    thread::spawn(move || {
+                    let spawned = thread::Builder::new().spawn(move || {
                         if let Err(err) = server.handle_conn(stream, conn_id) {
                             error!("handling new connection: {:?}", err)
                         }
                     });
+                    if let Err(err) = spawned {
+                        // Not worth losing all the sessions over.
+                        error!("spawning thread for new connection: {:?}", err);
+                    }
                 }
                 Err(err) => {
                     error!("accepting stream: {:?}", err);
-- 
2.43.0


From be5770a350f6758365f674cadb0ece816c1bee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 46/50] fix: do not spin while connections can't be accepted

---
 libshpool/src/consts.rs        | 3 +++
 libshpool/src/daemon/events.rs | 4 ++++
 libshpool/src/daemon/server.rs | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/libshpool/src/consts.rs b/libshpool/src/consts.rs
index 378f8f9..d6dafe9 100644
--- a/libshpool/src/consts.rs
+++ b/libshpool/src/consts.rs
@@ -17,6 +17,9 @@ use std::time;
 pub const SOCK_STREAM_TIMEOUT: time::Duration = time::Duration::from_millis(200);
 pub const JOIN_POLL_DURATION: time::Duration = time::Duration::from_millis(50);
 
+// How long to wait before accepting connections again after failing to do so.
+pub const ACCEPT_BACKOFF_DURATION: time::Duration = time::Duration::from_millis(50);
+
 pub const BUF_SIZE: usize = 1024 * 16;
 
 // The largest chunk we are willing to read. The daemon never sends more than
diff --git a/libshpool/src/daemon/events.rs b/libshpool/src/daemon/events.rs
index 29bcb76..555d4f9 100644
--- a/libshpool/src/daemon/events.rs
+++ b/libshpool/src/daemon/events.rs
@@ -44,6 +44,7 @@ use serde_derive::Serialize;
 use tracing::{error, info, warn};
 
 use super::server::check_peer_user;
+use crate::consts;
 
 /// Per-subscriber outbound queue depth (events). Subscribers that fall this
 /// far behind are dropped and must reconnect.
@@ -309,6 +310,9 @@ impl Sink {
                     Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,
                     Err(e) => {
                         error!("events listener accept: {:?}", e);
+                        // If we are out of descriptors this is going to fail over and
+                        // over until some of them get closed.
+                        thread::sleep(consts::ACCEPT_BACKOFF_DURATION);
                         break;
                     }
                 }
diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 701d76c..526a3f5 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -189,6 +189,9 @@ impl Server {
                 }
                 Err(err) => {
                     error!("accepting stream: {:?}", err);
+                    // If we are out of descriptors this is going to fail over and over
+                    // until some of them get closed.
+                    thread::sleep(consts::ACCEPT_BACKOFF_DURATION);
                 }
             }
         }
-- 
2.43.0


From 08679c2a477d3a0b58627a14f1b60682e1b3ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:17 +0000
Subject: [PATCH 47/50] fix: let go of the client when its threads can't be
 started

---
 libshpool/src/daemon/shell.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index fcc377a..4a82772 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -805,20 +805,30 @@ impl SessionInner {
         let child_done = AtomicBool::new(false);
 
         thread::scope(|s| -> anyhow::Result<()> {
+            // Without all of the threads we have to let go of the client, or else
+            // it would stay half attached and keep the other ones busy.
+            let give_up = |err: anyhow::Error| {
+                stop.store(true, Ordering::Relaxed);
+                self.shell_to_client_ctl.lock().disconnect_client(SHELL_TO_CLIENT_CTL_TIMEOUT);
+                self.release_client(&client_stream);
+                err
+            };
+
             // Spawn the main data transport threads
             let client_to_shell_h = self.spawn_client_to_shell(
-                s, conn_id, &stop, &pty_master, &mut client_to_shell_client_stream)?;
+                s, conn_id, &stop, &pty_master, &mut client_to_shell_client_stream)
+                .map_err(give_up)?;
 
             // Send a steady stream of heartbeats to the client
             // so that if the connection unexpectedly goes
             // down, we detect it immediately.
-            let heartbeat_h = self.spawn_heartbeat(s, conn_id, &stop)?;
+            let heartbeat_h = self.spawn_heartbeat(s, conn_id, &stop).map_err(give_up)?;
 
             // poll the pty master fd to see if the child
             // shell has exited.
             let supervisor_h = self.spawn_supervisor(
                 s, conn_id, &stop, &child_done, &pty_master,
-                Arc::clone(&child_exit_notifier))?;
+                Arc::clone(&child_exit_notifier)).map_err(give_up)?;
 
             loop {
                 let c_done = child_done.load(Ordering::Acquire);
-- 
2.43.0


From 034a330520882d9cdffdcbd8e5f0d41702f7500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 48/50] fix: don't leave a shell behind when it can't be
 watched

---
 libshpool/src/daemon/server.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/server.rs b/libshpool/src/daemon/server.rs
index 526a3f5..93d01da 100644
--- a/libshpool/src/daemon/server.rs
+++ b/libshpool/src/daemon/server.rs
@@ -1158,7 +1158,7 @@ impl Server {
         let session_name = header.name.clone();
         let notifiable_child_exit_notifier = Arc::clone(&child_exit_notifier);
         let shell_to_client_child_exit_notifier = Arc::clone(&child_exit_notifier);
-        thread::spawn(move || {
+        let child_watcher = thread::Builder::new().spawn(move || {
             let _s = span!(Level::INFO, "child_watcher", s = session_name, cid = conn_id).entered();
 
             // Wait for the child to exit without reaping it yet, so that
@@ -1205,6 +1205,17 @@ impl Server {
             });
         });
 
+        if let Err(err) = child_watcher {
+            // There is nobody else to reap the shell.
+            //
+            // Safety: all basic ffi, the pid is valid until it gets reaped.
+            unsafe {
+                libc::kill(waitable_child_pid, libc::SIGKILL);
+                libc::waitpid(waitable_child_pid, std::ptr::null_mut(), 0);
+            }
+            return Err(err).context("spawning child watcher thread");
+        }
+
         let prompt_prefix_is_blank =
             self.config.get().prompt_prefix.as_ref().map(|p| p.is_empty()).unwrap_or(false);
         let mut supports_sentinels = header.cmd.is_none()
-- 
2.43.0


From a7d47532739d4b970b7520be08a4ba24fd2e6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:42 +0000
Subject: [PATCH 49/50] fix: let go of the client when the pager can't be
 watched

---
 libshpool/src/daemon/pager.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libshpool/src/daemon/pager.rs b/libshpool/src/daemon/pager.rs
index 7e3da96..6bf93c1 100644
--- a/libshpool/src/daemon/pager.rs
+++ b/libshpool/src/daemon/pager.rs
@@ -247,13 +247,10 @@ impl Pager {
             std::process::exit(1);
         }
         let exit_notifier = Arc::new(ExitNotifier::new());
-        let _proc_guard =
-            PagerProcGuard { pager_proc: &fork, exit_notifier: Arc::clone(&exit_notifier) };
-
         let exit_notifier_ref = Arc::clone(&exit_notifier);
         let waitable_child = fork.clone();
         let pager_pid = fork.child_pid().ok_or(anyhow!("missing pager pid"))?;
-        thread::spawn(move || {
+        let exit_monitor = thread::Builder::new().spawn(move || {
             let _s = span!(Level::INFO, "pager_exit_monitor").entered();
 
             // Wait for the pager to exit without reaping it yet, so that
@@ -289,6 +286,19 @@ impl Pager {
             info!("reaped child pager: {:?}", waitable_child);
         });
 
+        if let Err(err) = exit_monitor {
+            // There is nobody else to reap the pager.
+            //
+            // Safety: all basic ffi, the pid is valid until it gets reaped.
+            unsafe {
+                libc::kill(pager_pid, libc::SIGKILL);
+                libc::waitpid(pager_pid, std::ptr::null_mut(), 0);
+            }
+            return Err(err).context("spawning pager exit monitor thread");
+        }
+        let _proc_guard =
+            PagerProcGuard { pager_proc: &fork, exit_notifier: Arc::clone(&exit_notifier) };
+
         let mut pty_master = fork.is_parent().context("getting pty_master handle")?;
 
         // spawn a background thread to handle tty size change events,
@@ -301,7 +311,7 @@ impl Pager {
         let tty_size = Arc::new(Mutex::new(init_tty_size.clone()));
         let tty_size_ref = Arc::clone(&tty_size);
         info!("spawning pager size change listener");
-        thread::spawn(move || {
+        let size_change_listener = thread::Builder::new().spawn(move || {
             let _s = span!(Level::INFO, "pager_size_change").entered();
 
             while let Ok(size) = tty_size_change_rx.recv() {
@@ -323,6 +333,7 @@ impl Pager {
             }
             info!("pager size change loop done");
         });
+        size_change_listener.context("spawning pager size change listener thread")?;
 
         let mut last_heartbeat_at = Instant::now();
         let mut buf = vec![0; consts::BUF_SIZE];
-- 
2.43.0


From 209f17d35475ff64a62cc1120c8cb7f0acf08990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 50/50] fix: keep a session whose shell has given up its
 terminal

When nobody has the tty of a session open, which does not have to mean that
the shell has exited, the thread which serves the client went away for good.
The client got neither heartbeats nor, in the end, the exit status, and the
next attach replaced the session along with its still running shell.
---
 libshpool/src/daemon/shell.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libshpool/src/daemon/shell.rs b/libshpool/src/daemon/shell.rs
index 4a82772..4e3d62f 100644
--- a/libshpool/src/daemon/shell.rs
+++ b/libshpool/src/daemon/shell.rs
@@ -634,7 +634,13 @@ impl SessionInner {
                         *forwarded += len;
                         len == 0 || *forwarded > EXIT_DRAIN_LIMIT
                     }
-                    None => len == 0 && hangup,
+                    // Nobody has the tty open at the moment, but that could change for as
+                    // long as the shell is running.
+                    None if len == 0 && hangup => args
+                        .child_exit_notifier
+                        .wait(Some(time::Duration::from_millis(SHELL_TO_CLIENT_POLL_MS as u64)))
+                        .is_some(),
+                    None => false,
                 };
                 if drained {
                     info!("shell is gone, exiting shell->client thread (hangup={})", hangup);
-- 
2.43.0

