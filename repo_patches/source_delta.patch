From 8f1a79afba87d434bef6461f9472f08b7ba63e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 1/4] fix: poll: do not change a registration when modify is
 refused

modify_with_mode() with an edge-triggered mode returned an error after it had
already replaced the key and the interest of the source.
---
 src/poll.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..5436f1d 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,8 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            // Check the mode first, so that a failed call leaves the registration alone.
+            let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +167,7 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
+            data.remove = remove;
 
             Ok(())
         })
-- 
2.43.0


From b66f70d9d7640df26e1e1a06d9767b85680f245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 2/4] fix: poll: a wait racing with notify must not fail with
 WouldBlock

The notification is flagged before its byte is written to the pipe, and
modify_fds may take the byte of another notification. wait() then failed with
WouldBlock and left the outer flag set, so that later notifications were lost.
---
 src/poll.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 5436f1d..7f60f41 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -223,8 +223,11 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not have been sent yet, or may have been removed by
+                    // `modify_fds`; neither is an error of this wait, and a notification that
+                    // arrives late is removed by the next one.
+                    let _ = self.notify.pop_notification();
+                    return Ok(());
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From 13e366d649b5cfb85b14be983cb6574c8b3c5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 3/4] fix: poll: honour interest in priority events

Event::set_priority() is documented to work with poll, but POLLPRI was only
requested together with readability.
---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index 7f60f41..f41d5f0 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -354,6 +354,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From 89a7dc40aa82ff159175bda9741d3874b364fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 4/4] fix: epoll: take only interrupt and priority interest
 from an event's extra

An event returned by wait() carries every reported epoll flag. Registering it
again, say after clearing `readable`, requested EPOLLIN or EPOLLOUT although
the interest did not.
---
 src/epoll.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..5d32685 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -114,7 +114,7 @@ impl Poller {
             &self.epoll_fd,
             unsafe { rustix::fd::BorrowedFd::borrow_raw(fd) },
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -134,7 +134,7 @@ impl Poller {
             &self.epoll_fd,
             fd,
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -289,7 +289,8 @@ fn epoll_flags(interest: &Event, mode: PollMode) -> epoll::EventFlags {
     if interest.writable {
         flags |= write_flags();
     }
-    flags
+    // Only what can be asked for: an event that was delivered carries all reported flags here.
+    flags | (interest.extra.flags & (epoll::EventFlags::HUP | epoll::EventFlags::PRI))
 }
 
 /// Epoll flags for all possible readability events.
-- 
2.43.0

