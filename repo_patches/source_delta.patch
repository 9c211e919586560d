From 4276b7aec3d0f9a994d17e1e9160655363d890d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 01/25] fix: keep a stop or an error when another event arrives
 in the same wake

---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..5ac05b3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -29,7 +29,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..fde8a1f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1666,7 +1666,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From 1c548ec6224443d8531cfa5c21d9502fb0e16742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 02/25] fix: keep watching when a signal interrupts the wait
 for events

---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 5 ++++-
 include/wtr/watcher.hpp                                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 5ac05b3..f2199e0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -26,7 +27,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fde8a1f..4e0f758 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1647,6 +1647,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1663,7 +1664,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
-- 
2.43.0


From 20e79d178c165bbc25571d868b8c596bc59d9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 03/25] fix: accept (and close) the file descriptor zero in the
 fanotify adapter

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 +++---
 include/wtr/watcher.hpp                                     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..6cf0376 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -94,10 +94,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -148,7 +148,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4e0f758..bde2833 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1080,10 +1080,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -1134,7 +1134,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
-- 
2.43.0


From bb9c27d9a0e28e144dd8c677515aca3390794395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 04/25] fix: fail on fanotify read errors, not on an empty
 queue

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp       | 4 +---
 include/wtr/watcher.hpp                                       | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6cf0376..0e54fb6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -261,9 +261,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN)
     return result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bde2833..3eb3d67 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1247,9 +1247,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN)
     return result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
-- 
2.43.0


From dd7c6d3cbfc58ae40d0af217d2c31dac7565b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 05/25] fix: find the record after a pair of fanotify rename
 records

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 +++---
 include/wtr/watcher.hpp                                     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 0e54fb6..ab28393 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -206,11 +206,11 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* from, auto* to) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
+    auto e = ev(ev(pathof(from, ec), et, pt), ev(pathof(to, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3eb3d67..02b806b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1192,11 +1192,11 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* from, auto* to) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
+    auto e = ev(ev(pathof(from, ec), et, pt), ev(pathof(to, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
-- 
2.43.0


From 492c02c3c2e03de58abdf2853b8492c317f4aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 06/25] fix: do not write before the path buffer when readlink
 fails

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 +++++
 include/wtr/watcher.hpp                                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ab28393..a35411c 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -155,6 +155,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 02b806b..e271d58 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1141,6 +1141,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
-- 
2.43.0


From 99f130ffeabbcfc198cb9ef86680e58c866716d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 07/25] fix: tell the user about bad fanotify records and keep
 the rest of the batch

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 22 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 22 ++++++++++++++-----
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index a35411c..e99399e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -266,6 +266,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
+  auto skip = [&](result warning)
+  {
+    auto next = peek(mtd, read_len);
+    send_msg(warning, "", cb);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
   if (read_len < 0 && errno != EAGAIN)
     return result::e_sys_api_read;
   else
@@ -275,17 +282,20 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        skip(result::w_sys_bad_fd);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        skip(result::w_sys_q_overflow);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        skip(result::w_sys_bad_meta);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index e271d58..a98e753 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1252,6 +1252,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
+  auto skip = [&](result warning)
+  {
+    auto next = peek(mtd, read_len);
+    send_msg(warning, "", cb);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
   if (read_len < 0 && errno != EAGAIN)
     return result::e_sys_api_read;
   else
@@ -1261,17 +1268,20 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        skip(result::w_sys_bad_fd);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        skip(result::w_sys_q_overflow);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        skip(result::w_sys_bad_meta);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From 727192529694dc16bab80efe094a55a78ceda26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 08/25] fix: name each side of an inotify rename after its own
 directory

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp  | 16 ++++++++++++----
 include/wtr/watcher.hpp                          | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..2aeab59 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -178,6 +178,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
+                         ke_in_ev::paths const& dm,
                          std::filesystem::path const& dirname,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
@@ -185,8 +186,13 @@ inline auto parse_ev = [](
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  auto next = peek(in, tail);
+  auto next_dir = next ? dm.find(next->wd) : dm.end();
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  {
+    auto const& dir = m == in ? dirname : next_dir->second;
+    return dir / std::filesystem::path{m->name};
+  };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -194,14 +200,16 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && next_dir != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
   { return {ev(pathof(a), et, pt), next}; };
   auto assoc = [&](auto* a, auto* b) -> parsed
   { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
-  auto next = peek(in, tail);
   return ! isassoc(in, next) ? one(in, next)
        : isfromto(in, next)  ? assoc(in, next)
        : isfromto(next, in)  ? assoc(next, in)
@@ -342,7 +350,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a98e753..8ebbf4b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1470,6 +1470,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
+                         ke_in_ev::paths const& dm,
                          std::filesystem::path const& dirname,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
@@ -1477,8 +1478,13 @@ inline auto parse_ev = [](
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  auto next = peek(in, tail);
+  auto next_dir = next ? dm.find(next->wd) : dm.end();
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  {
+    auto const& dir = m == in ? dirname : next_dir->second;
+    return dir / std::filesystem::path{m->name};
+  };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1486,14 +1492,16 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && next_dir != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
   { return {ev(pathof(a), et, pt), next}; };
   auto assoc = [&](auto* a, auto* b) -> parsed
   { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
-  auto next = peek(in, tail);
   return ! isassoc(in, next) ? one(in, next)
        : isfromto(in, next)  ? assoc(in, next)
        : isfromto(next, in)  ? assoc(next, in)
@@ -1634,7 +1642,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
-- 
2.43.0


From 05ef154351019afd3f5b5a518982ba7f8ba3d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 09/25] fix: report an inotify queue overflow as such, not as a
 phantom event

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2aeab59..376d9e6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -345,10 +345,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8ebbf4b..52b6904 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1637,10 +1637,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From 06bd5442db572ece4dbac688446ea66b2a11a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 10/25] fix: walk directories whose type readdir does not tell

---
 .../detail/wtr/watcher/adapter/linux/sysres.hpp     | 13 +++++++++++--
 include/wtr/watcher.hpp                             | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..9776847 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -128,6 +128,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  Unlike `is_dir`, does not follow a symbolic link. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -156,10 +163,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 52b6904..cfa8c45 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -944,6 +944,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  Unlike `is_dir`, does not follow a symbolic link. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -972,10 +979,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
-- 
2.43.0


From 30e4dd061cb47ec346962ebda3f4746ac1e359a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 11/25] fix: tell a fanotify rename's resolvable half when the
 other is gone

---
 .../include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp | 2 ++
 include/wtr/watcher.hpp                                         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e99399e..2ab10b6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -216,6 +216,8 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(from, ec), et, pt), ev(pathof(to, ec), et, pt));
+    /*  Half of a rename may still be told, on its own. */
+    if (*ec) return *ec = 0, one(m);
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index cfa8c45..3eefd44 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1211,6 +1211,8 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(ev(pathof(from, ec), et, pt), ev(pathof(to, ec), et, pt));
+    /*  Half of a rename may still be told, on its own. */
+    if (*ec) return *ec = 0, one(m);
     return {e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
-- 
2.43.0


From 855d543b0515bb23dd595b5e23d57ffb1f7014ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 12/25] fix: form no batch end from a failed inotify read

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 376d9e6..e70f400 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -330,8 +330,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN ? result::pending : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3eefd44..b6bc196 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1633,8 +1633,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN ? result::pending : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
-- 
2.43.0


From 4b80098af18467afdfc4e627eb26e57fbd664f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:46 +0000
Subject: [PATCH 13/25] fix: print every number with exactly its own digits

---
 devel/include/wtr/watcher-/event.hpp | 12 +++++++-----
 include/wtr/watcher.hpp              | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..1ea466d 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  All the digits and a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  std::size_t const len = end - buf.data();
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b6bc196..8855a71 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  All the digits and a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  std::size_t const len = end - buf.data();
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From cea7af472a8e0c34aa91ef633684ca9a9d20d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 14/25] fix: print path names as well-formed JSON strings

---
 devel/include/wtr/watcher-/event.hpp | 29 ++++++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 29 ++++++++++++++++++++++++++--
 src/wtr/watcher/main.cpp             |  2 +-
 3 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 1ea466d..6396402 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape(to<Cls>(from.path_name)) + Lit"\"";    \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -244,6 +244,31 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  Path names may contain anything. Quotes, backslashes and control
+    characters can't stand in a JSON string as they are. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto const hex = [](int n) { return static_cast<Char>(n < 10 ? '0' + n : 'a' + n - 10); };
+  auto into = std::basic_string<Char>{};
+  for (std::size_t i = 0; i < from.size(); ++i) {
+    Char const c = from[i];
+    if (c == '"' || c == '\\') {
+      into.push_back('\\');
+      into.push_back(c);
+    }
+    else if (c >= 0 && c < 0x20) {
+      into.push_back('\\');
+      into.push_back('u');
+      into.push_back('0');
+      into.push_back('0');
+      into.push_back(hex(static_cast<int>(c) / 16));
+      into.push_back(hex(static_cast<int>(c) % 16));
+    }
+    else into.push_back(c);
+  }
+  return into;
+}
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8855a71..b1f6292 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape(to<Cls>(from.path_name)) + Lit"\"";    \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -245,6 +245,31 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  Path names may contain anything. Quotes, backslashes and control
+    characters can't stand in a JSON string as they are. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto const hex = [](int n) { return static_cast<Char>(n < 10 ? '0' + n : 'a' + n - 10); };
+  auto into = std::basic_string<Char>{};
+  for (std::size_t i = 0; i < from.size(); ++i) {
+    Char const c = from[i];
+    if (c == '"' || c == '\\') {
+      into.push_back('\\');
+      into.push_back(c);
+    }
+    else if (c >= 0 && c < 0x20) {
+      into.push_back('\\');
+      into.push_back('u');
+      into.push_back('0');
+      into.push_back('0');
+      into.push_back(hex(static_cast<int>(c) / 16));
+      into.push_back(hex(static_cast<int>(c) % 16));
+    }
+    else into.push_back(c);
+  }
+  return into;
+}
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..991ba11 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -95,7 +95,7 @@ auto json(event const& e) -> string
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
+  auto q = [&](auto a) { return '"' + json_escape(s(a)) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
        + ",\"path_name\":"   + q(e.path_name)
        + ",\"effect_type\":" + q(e.effect_type)
-- 
2.43.0


From c80dd362ca711db86e0e2a1c62f4f6fae669d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 15/25] fix: saturate long times on the command line

---
 src/wtr/watcher/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 991ba11..a6c5fe5 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -77,8 +77,10 @@ struct Args {
         : targis("-years")        || targis("-y")   ? 365 * 24 * 60 * 60 * 1e9
                                                     :                      1e6;
       auto td = strtod(st, (char**)&stend);
-      if (is_help || td == HUGE_VAL || td <= 0)
+      if (is_help || td == HUGE_VAL || ! (td > 0))
         return nullopt;
+      else if (td >= nanoseconds::max().count() / ttons)
+        return nanoseconds::max();
       else
         return nanoseconds(llroundl(td) * ttons);
     }();
-- 
2.43.0


From cc328367887ef1f4a7766fcdde3b8664f8d167b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 16/25] fix: node: free events the runtime does not take

---
 watcher-nodejs/lib/watcher-napi.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..464da1a 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -48,6 +48,15 @@ static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
   return event_obj;
 }
 
+#if WITH_TSFN_NONBLOCKING
+static void event_owned_free(wtr_watcher_event* event)
+{
+  free((void*)event->path_name);
+  free((void*)event->associated_path_name);
+  free(event);
+}
+#endif
+
 /*  Called by the callback bridge when an event is ready.
     Forwards event to js-land for the user.
     Expects an "owned" event, which will be freed in this scope. */
@@ -60,9 +69,7 @@ static void callback_js_receiver(napi_env env, napi_value js_callback, void* _un
   napi_value result = NULL;
   napi_call_function(env, global, js_callback, 1, &event_obj, &result);
 #if WITH_TSFN_NONBLOCKING
-  free((void*)event->path_name);
-  free((void*)event->associated_path_name);
-  free(event);
+  event_owned_free(event);
 #endif
 }
 
@@ -79,8 +86,8 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
-  if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  if (! w->tsfn || napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking) != napi_ok) {
+    event_owned_free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
-- 
2.43.0


From 0cdc710c09c9dd6bc34e5300e88b7e559c7dfa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 17/25] fix: node: release everything when opening a watcher
 fails

---
 watcher-nodejs/lib/watcher-napi.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 464da1a..d88286f 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -144,7 +144,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   memset(path, 0, sizeof(path));
   size_t path_len = 0;
   napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
-  watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
+  watcher_lifetime* wrapper = (watcher_lifetime*)calloc(1, sizeof(watcher_lifetime));
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
@@ -164,6 +164,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     &wrapper->tsfn);
   wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
   if (wrapper->watcher == NULL) {
+    if (wrapper->tsfn) napi_release_threadsafe_function(wrapper->tsfn, napi_tsfn_release);
+    if (wrapper->js_callback_ref) napi_delete_reference(env, wrapper->js_callback_ref);
+    free(wrapper);
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
-- 
2.43.0


From ae332d920286c232d7fd6c90bed9025bc24426f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 18/25] fix: node: make closing a watcher twice harmless

---
 watcher-nodejs/lib/watcher-napi.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index d88286f..0085039 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -102,11 +102,12 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
   napi_get_cb_info(env, func_arg_info, NULL, NULL, NULL, &ctx);
   napi_value result = NULL;
   napi_get_boolean(env, false, &result);
-  if (! ctx) {
+  watcher_lifetime* w = (watcher_lifetime*)ctx;
+  if (! w || ! w->watcher) {
     return result;
   }
-  watcher_lifetime* w = (watcher_lifetime*)ctx;
   bool closed_ok = wtr_watcher_close(w->watcher);
+  w->watcher = NULL;
   napi_get_boolean(env, closed_ok, &result);
   if (w->tsfn) {
     napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
@@ -120,11 +121,17 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
   } else {
     napi_get_boolean(env, false, &result);
   }
-  free(w);
-  w = NULL;
   return result;
 }
 
+/*  Called when `close` can't be called anymore.
+    An open watcher still uses what we would free. */
+static void lifetime_finalizer(napi_env env, void* ctx, void* _unused)
+{
+  watcher_lifetime* w = (watcher_lifetime*)ctx;
+  if (! w->watcher) free(w);
+}
+
 /*  Opens a watcher on a path (and any children).
     Calls the provided callback when events happen.
     Accepts two arguments, a path and a callback.
@@ -174,6 +181,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_object(env, &watcher_obj);
   napi_value close_func = NULL;
   napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func);
+  napi_add_finalizer(env, close_func, wrapper, lifetime_finalizer, NULL, NULL);
   napi_set_named_property(env, watcher_obj, "close", close_func);
   napi_wrap(env, watcher_obj, wrapper, NULL, NULL, NULL);
   return watcher_obj;
-- 
2.43.0


From 6d93f18033aec06a34b7c9129ee5bb792cfc03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 19/25] fix: node: refuse paths which are not strings or too
 long

---
 watcher-nodejs/lib/watcher-napi.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 0085039..b7feb8e 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -150,7 +150,12 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   char path[4096];
   memset(path, 0, sizeof(path));
   size_t path_len = 0;
-  napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
+  if (napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len) != napi_ok
+      || path_len >= sizeof(path)
+      || napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len) != napi_ok) {
+    napi_throw_error(env, NULL, "The path is not a string or too long");
+    return NULL;
+  }
   watcher_lifetime* wrapper = (watcher_lifetime*)calloc(1, sizeof(watcher_lifetime));
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
-- 
2.43.0


From e6bf9ab240d1b64028416cf34785e1342345f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 20/25] fix: rust: close a watch at most once

---
 watcher-rs/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..7479732 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -2,11 +2,13 @@
 #![allow(non_camel_case_types)]
 #![allow(non_snake_case)]
 include!(concat!(env!("OUT_DIR"), "/watcher_c.rs"));
+use core::cell::Cell;
 use core::ffi::c_char;
 use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
+use core::ptr::null_mut;
 use core::str;
 use core::task::Context;
 use core::task::Poll;
@@ -108,7 +110,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>,
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -122,12 +124,12 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch { w: Cell::new(w), tx, rx }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
+        match unsafe { wtr_watcher_close(self.w.replace(null_mut())) } {
             false => Err("wtr_watcher_close"),
             true => Ok(()),
         }
-- 
2.43.0


From f3552f1b5121c16299ec3623d7261ea08f7e9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 21/25] fix: python: tell events of names which are not UTF-8

---
 watcher-py/watcher/watcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..2574d7a 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -65,9 +65,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
@@ -174,7 +174,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From c1c4d34a4fdafb159f0ed04189e8a1f13b8acd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 22/25] fix: python: refuse paths with a null character

---
 watcher-py/watcher/watcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 2574d7a..ba55a40 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -173,6 +173,8 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        if "\0" in path:
+            raise ValueError("embedded null character in path")
         self._lib = _lazy_static_solib_handle()
         self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
-- 
2.43.0


From 61269f758caae90c1ddc0465b81f49cebed8bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 23/25] fix: python: escape names in to_json

---
 watcher-py/watcher/watcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index ba55a40..fcfee46 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,10 +142,10 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        apn = json.dumps(self.associated_path_name or None)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{json.dumps(self.path_name)},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From c24b1e69c171d4ba460c74bfa6bc934d8e9d9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 24/25] fix: python: dropping a watch which did not start

---
 watcher-py/watcher/watcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index fcfee46..962c008 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -164,6 +164,8 @@ class Watch:
     ```
     """
 
+    _watcher = None
+
     def __init__(self, path: str, callback: Callable[[Event], None]):
         """
         - `path`: The path to watch.
-- 
2.43.0


From 986a794bd77fa2ed2358ab6d6e6cd8ef24048cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:06 +0000
Subject: [PATCH 25/25] fix: node: a path which holds a NUL is refused, not cut
 at it

---
 watcher-nodejs/lib/watcher-napi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index b7feb8e..b9fcbbc 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -152,8 +152,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   size_t path_len = 0;
   if (napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len) != napi_ok
       || path_len >= sizeof(path)
-      || napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len) != napi_ok) {
-    napi_throw_error(env, NULL, "The path is not a string or too long");
+      || napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len) != napi_ok
+      || strlen(path) != path_len) {
+    napi_throw_error(env, NULL, "The path is not a string, too long or contains a null byte");
     return NULL;
   }
   watcher_lifetime* wrapper = (watcher_lifetime*)calloc(1, sizeof(watcher_lifetime));
-- 
2.43.0

