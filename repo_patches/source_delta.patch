From 57a38b953b88fea8170772bf5a86bc0da8e490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:40 +0000
Subject: [PATCH 01/72] fix: keep route position when moving to an unknown
 route

RouterFleXML::Pos::move stored map::end() in the position when the named
route did not exist; the next move() dereferenced it.
---
 src/router_flexml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..807a4a7 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -454,12 +454,14 @@ const mp::filter::Base *mp::RouterFleXML::Pos::move(const char *route)
 {
     if (route && *route)
     {
-        m_route_it = m_p->m_routes.find(route);
-        if (m_route_it == m_p->m_routes.end())
+        std::map<std::string,
+                 RouterFleXML::Route>::iterator it = m_p->m_routes.find(route);
+        if (it == m_p->m_routes.end())
         {
             yaz_log(YLOG_FATAL, "no such route %s", route);
             return 0;
         }
+        m_route_it = it;
         m_filter_it = m_route_it->second.m_list.begin();
     }
     if (m_filter_it == m_route_it->second.m_list.end())
-- 
2.43.0


From 321fb2dd9ef5e2a43fa0dc00067f671b4f0dd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 02/72] fix: take the lock in session_map::exist

The map was searched while other threads could insert or erase.
---
 include/metaproxy/session.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..cba8a9b 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,8 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
+
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From 54cc83e6eefabe596c098dbb591ed0ef7930e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 03/72] fix: HTML parser state does not leak from one document
 to the next

A document ending inside <script> left the parser in script mode, so that
the tags of the next document were reported as text.
---
 src/html_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..4866ed2 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -221,6 +221,7 @@ void mp::HTMLParser::Rep::tagText(HTMLParserEvent &event,
 void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
 {
     const char *text_start = cp;
+    nest = true;
     while (*cp)
     {
         if (*cp++ != '<')
-- 
2.43.0


From 64f2de5a05ab4ade4a70a730c82be2816ac50d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 04/72] fix: do not drop an unterminated HTML comment

---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 4866ed2..b4df669 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -237,9 +237,9 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
+                event.openTagStart(cp, i);
             }
             else
             {
-- 
2.43.0


From 887e7a97ded16d0886b86ba5858d85fb8f67e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 05/72] fix: do not drop a slash inside a tag

In <a /b> and <a href="x"/ > the slash vanished from the reported events.
---
 src/html_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index b4df669..f731153 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -192,7 +192,10 @@ int mp::HTMLParser::Rep::tagEnd(HTMLParserEvent &event,
     }
     if (cp[i] == '/')
     {
-        close_it = 1;
+        if (cp[i + 1] == '>')
+            close_it = 1;
+        else
+            tagText(event, cp + i, cp + i + 1);
         i++;
     }
     if (cp[i] == '>')
-- 
2.43.0


From 2add42ab7280a4c1819f34db7be5e9029f3374aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 06/72] fix: no uninitialised separator for HTML attributes
 without value

---
 src/html_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index f731153..399c13c 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -155,8 +155,8 @@ int mp::HTMLParser::Rep::tagAttrs(HTMLParserEvent &event,
         const char *attr_name = cp + i;
         int attr_len;
         const char *value;
-        int val_len;
-        int tr;
+        int val_len = 0;
+        int tr = 0;
         char x[2];
         int nor = skipAttribute(event, cp+i, &attr_len, &value, &val_len, &tr);
         if (!nor)
-- 
2.43.0


From 652622d9885909709109d1ca9d674e1efe7b7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 07/72] fix: URL recipe strips only the prefix md- from a
 variable

find_first_of matches any of the characters, so that variables starting with
m, d or - lost their first three characters (${date}) or were read beyond
their end.
---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From a19296650ea370be2042b969c4691c57da34096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:26 +0000
Subject: [PATCH 08/72] fix: virt_db does not overwrite another result set when
 replacing one

---
 src/filter_virt_db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..aaa5ccc 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -293,7 +293,7 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         override_set = true;
     }
     // pick up any existing database with named result sets ..
-    // or one if we are overriding it
+    // or the one that holds the set if we are overriding it
     BackendPtr b; // null for now
     std::list<BackendPtr>::const_iterator map_it;
     map_it = m_backend_list.begin();
@@ -301,7 +301,8 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         BackendPtr tmp = *map_it;
         if (mp::util::match(tmp->m_frontend_databases, databases) &&
-            (tmp->m_named_result_sets || override_set))
+            (tmp->m_named_result_sets ||
+             (override_set && sets_it->second.m_backend == tmp)))
         {
             b = *map_it;
             break;
-- 
2.43.0


From a36e1d24ac2eea9b9d88acd0d7d6153fdbbdbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:26 +0000
Subject: [PATCH 09/72] fix: virt_db closes the session on Close also when it
 has backends

---
 src/filter_virt_db.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index aaa5ccc..a4dcc82 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -824,9 +824,8 @@ void yf::VirtualDB::process(mp::Package &package) const
 
                 package.response() = odr.create_close(
                     apdu, Z_Close_finished, "virt_db");
-
-                package.session().close();
             }
+            package.session().close();
         }
         else
         {
-- 
2.43.0


From 96c1ed669b3f7374632b29d0c11c4392f406e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:13 +0000
Subject: [PATCH 10/72] fix: multi accepts scan without preferred position

---
 src/filter_multi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..4b8f027 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1184,7 +1184,9 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
         int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        int position_returned = 1;
+        if (req->preferredPositionInResponse)
+            position_returned = *req->preferredPositionInResponse;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
-- 
2.43.0


From 12e72be9a7e8f2ac15d1eb0048c5e919b3c862ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:44 +0000
Subject: [PATCH 11/72] fix: multi does not overflow the scan entries when the
 position exceeds the number of terms

---
 src/filter_multi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 4b8f027..a0860bd 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1184,6 +1184,8 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
         int number_returned = *req->numberOfTermsRequested;
+        if (number_returned < 0)
+            number_returned = 0;
         int position_returned = 1;
         if (req->preferredPositionInResponse)
             position_returned = *req->preferredPositionInResponse;
@@ -1196,6 +1198,8 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         int lbefore = entries_before.size();
         if (lbefore < position_returned-1)
             position_returned = lbefore+1;
+        if (position_returned - 1 > number_returned)
+            position_returned = number_returned + 1; // no more than requested
 
         ScanTermInfoList::iterator it = entries_before.begin();
         for (i = 0; i<position_returned-1 && it != entries_before.end(); i++, it++)
-- 
2.43.0


From 14326c309b9a87c74d8b95a31883f552ab048d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 12/72] fix: multi skips the right records when merging sets of
 different sizes

---
 src/filter_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index a0860bd..3c5ac37 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -325,7 +325,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
         }
         if (no_left == 0) // if nothing greater than omin, bail out.
             break;
-        int skip = no_left * min;
+        int skip = no_left * (min - omin);
         if (p + skip > start)  // step gets us "into" present range?
         {
             // Yes. skip until start.. Rounding off is deliberate!
@@ -343,7 +343,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
 
         std::list<int>::iterator psit = pos.begin();
         for (psit = pos.begin(); psit != pos.end(); psit++)
-            *psit += min;
+            *psit += min - omin;
 
         omin = min; // update so we consider next class (with higher count)
     }
-- 
2.43.0


From 95207104c82136c2eb7be54c1ea10589ea741967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 13/72] fix: multi answers a present from before the first
 record with a diagnostic

---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 3c5ac37..ef0a525 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -781,7 +781,9 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     int start = *req->resultSetStartPoint;
     int number = *req->numberOfRecordsRequested;
 
-    if (m_p->m_merge_type == round_robin)
+    if (start < 1)
+        ; // out of range
+    else if (m_p->m_merge_type == round_robin)
         it->second.round_robin(start, number, jobs);
     else if (m_p->m_merge_type == serve_order)
         it->second.serve_order(start, number, jobs);
@@ -892,7 +894,7 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
                 z_diag->diagRecs[0]->u.defaultFormat;
         }
     }
-    else if (number < 0 || (size_t) number > jobs.size())
+    else if (start < 1 || number < 0 || (size_t) number > jobs.size())
     {
         f_apdu =
             odr.create_presentResponse(
-- 
2.43.0


From e371808a32e63580040afa56e0b9745d8ef3af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 14/72] fix: multi copes with targets that do not return a
 present response

---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index ef0a525..5a178e0 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -921,9 +921,11 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             PackagePtr p = jit->m_backend->m_package;
 
             Z_GDU *gdu = p->response().get();
-            Z_APDU *b_apdu = gdu->u.z3950;
             int inside_pos = jit->m_pos - jit->m_start;
-            Z_Records *records = b_apdu->u.presentResponse->records;
+            Z_Records *records = 0;
+            if (gdu && gdu->which == Z_GDU_Z3950 &&
+                gdu->u.z3950->which == Z_APDU_presentResponse)
+                records = gdu->u.z3950->u.presentResponse->records;
 
             if (records && records->which == Z_Records_DBOSD
                 && inside_pos < 
-- 
2.43.0


From 33b84d6c9cd9883b86c02f7b09c2c7621af73708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 15/72] fix: multi uses the element set names of the search for
 piggybacked records

---
 src/filter_multi.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5a178e0..5537825 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -717,12 +717,7 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     m_sets[resultSet.m_setname] = resultSet;
 
     Odr_int number;
-    mp::util::piggyback(*req->smallSetUpperBound,
-                        *req->largeSetLowerBound,
-                        *req->mediumSetPresentNumber,
-                        0, 0,
-                        result_set_size,
-                        number, 0);
+    mp::util::piggyback_sr(req, result_set_size, number, 0);
     Package pp(package.session(), package.origin());
     if (z_diag == 0 && number > 0)
     {
@@ -730,6 +725,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentRequest);
         Z_PresentRequest *p_req = p_apdu->u.presentRequest;
         p_req->preferredRecordSyntax = req->preferredRecordSyntax;
+        p_req->recordComposition =
+            mp::util::piggyback_to_RecordComposition(odr, result_set_size, req);
         p_req->resultSetId = req->resultSetName;
         *p_req->resultSetStartPoint = 1;
         *p_req->numberOfRecordsRequested = number;
-- 
2.43.0


From 1ec1256072794d069bb6e341dee3f119651711fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:09 +0000
Subject: [PATCH 16/72] fix: multi does not use the previous response of a
 target that returns none

---
 src/filter_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5537825..3ed9ed7 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -267,6 +267,8 @@ void yf::Multi::Frontend::multi_move(std::list<BackendPtr> &blist)
     boost::thread_group g;
     for (bit = blist.begin(); bit != blist.end(); bit++)
     {
+        // do not take an earlier response for the response of this request
+        (*bit)->m_package->response() = (Z_GDU *) 0;
         g.add_thread(new boost::thread(**bit));
     }
     g.join_all();
-- 
2.43.0


From 219cd84ef16c7986cc3ec868238c8733bfc4e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:09 +0000
Subject: [PATCH 17/72] fix: multi does not use targets that refused init when
 unavailable ones are hidden

---
 src/filter_multi.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 3ed9ed7..b566c71 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -486,11 +486,13 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
 
     int no_failed = 0;
     int no_succeeded = 0;
+    std::list<BackendPtr> refused;
 
     Odr_int preferredMessageSize = *req->preferredMessageSize;
     Odr_int maximumRecordSize = *req->maximumRecordSize;
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); )
     {
+        bool succeeded = false;
         PackagePtr p = (*bit)->m_package;
 
         if (p->session().is_closed())
@@ -520,6 +522,7 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
                     ODR_MASK_CLEAR(f_resp->protocolVersion, i);
             if (*b_resp->result)
             {
+                succeeded = true;
                 no_succeeded++;
                 if (preferredMessageSize > *b_resp->preferredMessageSize)
                     preferredMessageSize = *b_resp->preferredMessageSize;
@@ -536,6 +539,13 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
         }
         else
             no_failed++;
+        if (!succeeded && m_p->m_hide_unavailable)
+        {
+            // unavailable: do not use it
+            refused.push_back(*bit);
+            bit = m_backend_list.erase(bit);
+            continue;
+        }
         bit++;
     }
     *f_resp->preferredMessageSize = preferredMessageSize;
@@ -558,6 +568,16 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
         }
     }
     package.response() = f_apdu;
+
+    for (bit = refused.begin(); bit != refused.end(); bit++)
+    {
+        PackagePtr p = (*bit)->m_package;
+
+        p->copy_filter(package);
+        p->request() = (Z_GDU *) 0;
+        p->session().close();
+        p->move((*bit)->m_route);
+    }
 }
 
 void yf::Multi::Frontend::record_diagnostics(Z_Records *records, 
-- 
2.43.0


From 23bbb6bda6c302af2eade1cad17a50972828e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 18/72] fix: auth_simple checks the target register also when
 there is a user register

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..6d3fca8 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -289,6 +289,8 @@ void yf::AuthSimple::process_init(mp::Package &package) const
                 boost::mutex::scoped_lock lock(m_p->mutex);
                 m_p->userBySession[package.session()] = user;
             }
+            if (m_p->got_targetRegister)
+                return check_targets(package);
             return package.move();
         }
     }
-- 
2.43.0


From 66ebaa159ede4889a7b3993c98f41756678c4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 19/72] fix: auth_simple reads registers with lines of any
 length

---
 src/filter_auth_simple.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 6d3fca8..8a24268 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -160,10 +160,10 @@ void mp::filter::AuthSimple::config_userRegister(std::string filename,
     if (!fp.is_open())
         die("Could not open " + filename);
 
-    while (!fp.eof())
+    std::string line;
+    while (std::getline(fp, line))
     {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+        char *buf = &line[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *passwdp = strchr(buf, ':');
@@ -204,9 +204,9 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
     if (!fp.is_open())
         die("Could not open " + filename);
 
-    while (!fp.eof()) {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+    std::string line;
+    while (std::getline(fp, line)) {
+        char *buf = &line[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *targetsp = strchr(buf, ':');
-- 
2.43.0


From 6beb05bcfe8455f0a8190210b7dd9e91bf3f022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 20/72] fix: load_balance keeps the statistics of a target
 while it has sessions

---
 src/filter_load_balance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..82c2e50 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -398,7 +398,7 @@ void yf::LoadBalance::Impl::remove_session(mp::Package &package)
     if (itarg->second.sessions > 0)
         itarg->second.sessions -= 1;
 
-    if (itarg->second.sessions == 0 || itarg->second.deads == 0)
+    if (itarg->second.sessions == 0)
         m_target_stat.erase(itarg);
 }
 
-- 
2.43.0


From 0066927715464c3759e846e88e6bbbdc554260d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 21/72] fix: load_balance counts a session once when it is
 initialised again

---
 src/filter_load_balance.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 82c2e50..e6cb8d2 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -203,6 +203,7 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
                 {
                     {
                         boost::mutex::scoped_lock scoped_lock(m_mutex);
+                        remove_session(package);
                         add_session(package, target);
                     }
 
-- 
2.43.0


From 8ff839a3a32dd25bbe5fe2146ef637ae0e982c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 22/72] fix: load_balance does not count packages without
 response forever

---
 src/filter_load_balance.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index e6cb8d2..306426f 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -123,6 +123,7 @@ void yf::LoadBalance::Impl::configure(const xmlNode *xmlnode)
 void yf::LoadBalance::Impl::process(mp::Package &package)
 {
     bool is_closed_front = false;
+    bool package_added = false;
 
     // checking for closed front end packages
     if (package.session().is_closed())
@@ -228,12 +229,14 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
         else if (gdu_req->u.z3950->which == Z_APDU_close)
         {
             is_closed_front = true;
+            package_added = true;
             boost::mutex::scoped_lock scoped_lock(m_mutex);
             add_package(package.session().id());
         }
         // any other Z39.50 package is added to statistics
         else
         {
+            package_added = true;
             boost::mutex::scoped_lock scoped_lock(m_mutex);
             add_package(package.session().id());
         }
@@ -250,22 +253,16 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
 
     Z_GDU *gdu_res = package.response().get();
 
-    // passing anything but z3950 packages
-    if (gdu_res && gdu_res->which == Z_GDU_Z3950)
+    // session closing only on Z39.50 close response
+    if (gdu_res && gdu_res->which == Z_GDU_Z3950
+        && gdu_res->u.z3950->which == Z_APDU_close)
+        is_closed_back = true;
+
+    // the package added above is removed from statistics, answered or not
+    if (package_added)
     {
-        // session closing only on Z39.50 close response
-        if (gdu_res->u.z3950->which == Z_APDU_close)
-        {
-            is_closed_back = true;
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
-        // any other Z39.50 package is removed from statistics
-        else
-        {
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
+        boost::mutex::scoped_lock scoped_lock(m_mutex);
+        remove_package(package.session().id());
     }
 
     // finally removing sessions and marking deads
-- 
2.43.0


From 393bf9a7fc78fe2d8ae6fcc51284af6cb42696a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 23/72] fix: present_chunk copes with any number of records
 asked for and returned

---
 src/filter_present_chunk.cpp | 38 ++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..ccceac5 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -20,6 +20,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "filter_present_chunk.hpp"
 
 #include <time.h>
+#include <algorithm>
+#include <vector>
 #include <yaz/log.h>
 #include <yaz/copy_types.h>
 #include <metaproxy/package.hpp>
@@ -98,11 +100,9 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int total = *pr->numberOfRecordsRequested;
     Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
-    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
-        odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    Odr_int next = 0;
+    Odr_int status = Z_PresentStatus_success;
+    std::vector<Z_NamePlusRecord *> records;
     while (offset < total)
     {
         Odr_int left = total - offset;
@@ -122,6 +122,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
         if (pp.session().is_closed())
         {
             package.session().close();
+            package.response() = pp.response();
             return;
         }
         Z_GDU *gdu_res = pp.response().get();
@@ -136,13 +137,17 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
-                for (i = 0; i < nprl->num_records; i++)
+                for (i = 0; i < nprl->num_records && i < left; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
+                    records.push_back(yaz_clone_z_NamePlusRecord(
+                                          nprl->records[i], o->mem));
                 }
-                offset += nprl->num_records;
+                offset += i;
+                next = *pres->nextResultSetPosition;
+                status = *pres->presentStatus;
+                if (i == 0)
+                    break;
             }
             else
             {
@@ -159,14 +164,22 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
+        odr_malloc(odr, sizeof(*npl));
+    npl->num_records = records.size();
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * (records.size() + 1));
+    std::copy(records.begin(), records.end(), npl->records);
+
+    Z_APDU *a = odr.create_presentResponse(apdu, 0, 0);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
-    npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
+    *pres->nextResultSetPosition = next;
+    *pres->presentStatus = status;
 
     package.response() = a;
 }
@@ -177,7 +190,8 @@ void yf::PresentChunk::Impl::process(mp::Package &package)
     if (gdu && gdu->which == Z_GDU_Z3950)
     {
         Z_APDU *apdu = gdu->u.z3950;
-        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0)
+        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0
+            && *apdu->u.presentRequest->numberOfRecordsRequested > 0)
             chunk_it(package, apdu);
         else
             package.move();
-- 
2.43.0


From a7c6660222dcea59f10920b3132f480086049ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 24/72] fix: sort closes the session when the back end closes

---
 src/filter_sort.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..4e0e8d1 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -546,6 +546,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
             present_package.request() = p_apdu;
             present_package.move();
 
+            if (present_package.session().is_closed())
+                package.session().close();
             Z_GDU *gdu_res = present_package.response().get();
             if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
                 gdu_res->u.z3950->which == Z_APDU_presentResponse)
@@ -621,7 +623,7 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -700,7 +702,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_package(mp::Package &package)
-- 
2.43.0


From d1a4b15e22e562724cea08c9b072a859ec6c08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 25/72] fix: sort checks the range of a present and keeps its
 reference id

---
 src/filter_sort.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 4e0e8d1..2ed56d4 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -653,11 +653,13 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     for (; it != rset->record_lists.end(); it++)
         if ((*it)->cmp(req->preferredRecordSyntax))
         {
-            if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
-                <= (*it)->size())
+            if (*req->resultSetStartPoint >= 1
+                && *req->numberOfRecordsRequested >= 0
+                && *req->resultSetStartPoint - 1
+                + *req->numberOfRecordsRequested <= (*it)->size())
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
-- 
2.43.0


From 5a2f4bfa649e4faf892a611aa829af2ab974d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 26/72] fix: sort does not use an uninitialised hit count

---
 src/filter_sort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 2ed56d4..047a556 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -92,6 +92,7 @@ namespace metaproxy_1 {
         class Sort::ResultSet : boost::noncopyable {
             friend class Frontend;
             Odr_int hit_count;
+            ResultSet() : hit_count(0) { }
             std::list<RecordListPtr> record_lists;
         };
         class Sort::Frontend : boost::noncopyable {
-- 
2.43.0


From 6e2e6ea2c056015cfed790af1a3cc77b693ae2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 27/72] fix: sort does not prefetch from a closed session

---
 src/filter_sort.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 047a556..3252b3e 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -527,7 +527,7 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
         int end_pos = m_p->m_prefetch;
         if (end_pos > s->hit_count)
             end_pos = s->hit_count;
-        while (i && pos <= end_pos)
+        while (i && pos <= end_pos && !package.session().is_closed())
         {
             mp::odr odr;
             i = 0;
@@ -607,6 +607,8 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     b_package.copy_filter(package);
     b_package.request() = apdu_req;
     b_package.move();
+    if (b_package.session().is_closed())
+        package.session().close();
 
     Z_GDU *gdu_res = b_package.response().get();
     if (gdu_res && gdu_res->which == Z_GDU_Z3950 && gdu_res->u.z3950->which ==
@@ -623,8 +625,6 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     }
     else
         package.response() = b_package.response();
-    if (b_package.session().is_closed())
-        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -692,6 +692,8 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     b_package.copy_filter(package);
     b_package.request() = apdu_req;
     b_package.move();
+    if (b_package.session().is_closed())
+        package.session().close();
     Z_GDU *gdu_res = b_package.response().get();
     if (gdu_res && gdu_res->which == Z_GDU_Z3950 && gdu_res->u.z3950->which ==
         Z_APDU_presentResponse)
@@ -704,8 +706,6 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     }
     else
         package.response() = b_package.response();
-    if (b_package.session().is_closed())
-        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_package(mp::Package &package)
-- 
2.43.0


From c9d6a045051ce9003658842bca45521a06acbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 28/72] fix: piggyback bounds are inclusive as in the standard

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..0b32904 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -252,7 +252,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
 {
     // deal with piggyback
 
-    if (result_set_size < smallSetUpperBound)
+    if (result_set_size <= smallSetUpperBound)
     {
         // small set . Return all records in set
         number_to_present = result_set_size;
@@ -260,7 +260,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
             *element_set_name = smallSetElementSetNames;
 
     }
-    else if (result_set_size > largeSetLowerBound)
+    else if (result_set_size >= largeSetLowerBound)
     {
         // large set . Return no records
         number_to_present = 0;
-- 
2.43.0


From e46332809c0c1deb3a7e1505dcc32586c46805a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 29/72] fix: http_file serves nothing beside the document root

---
 src/filter_http_file.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_file.cpp b/src/filter_http_file.cpp
index 500cdc1..747490e 100644
--- a/src/filter_http_file.cpp
+++ b/src/filter_http_file.cpp
@@ -260,7 +260,13 @@ void yf::HttpFile::Rep::fetch_uri(mp::Session &session,
 
             if (path.compare(0, l, it->m_url_path_prefix) == 0)
             {
-                std::string fname = it->m_file_root + path.substr(l);
+                std::string rest = path.substr(l);
+                // stay below the root, also if rest is not a path in itself
+                std::string fname = it->m_file_root;
+                if (rest.length() && rest[0] != '/'
+                    && fname[fname.length() - 1] != '/')
+                    fname += "/";
+                fname += rest;
                 package.log("http_file", YLOG_LOG, "%s", fname.c_str());
                 fetch_file(session, req, fname, package, it->m_raw,
                     it->m_passthru);
-- 
2.43.0


From f7452d39839fbdacab74489305e43267bcdae818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 30/72] fix: sru_z3950 takes no more records than it asked for

---
 src/filter_sru_to_z3950.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..c3e57df 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -843,6 +843,9 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // inserting all records
             int returned_recs =
                 pr->records->u.databaseOrSurDiagnostics->num_records;
+            // no more than asked for: there is no room for them
+            if (returned_recs > max_recs - num)
+                returned_recs = max_recs - num;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 42776d2a1fedef0245cb4d9dbf39d7f802810dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 31/72] fix: sru_z3950 stops when a present returns no records

---
 src/filter_sru_to_z3950.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c3e57df..a7f2f51 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -846,6 +846,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // no more than asked for: there is no room for them
             if (returned_recs > max_recs - num)
                 returned_recs = max_recs - num;
+            if (returned_recs <= 0)
+                break;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 7e81cd00d490d3422ddd88405fea3d5425281fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 32/72] fix: sru_z3950 first record position is 1

---
 src/filter_sru_to_z3950.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index a7f2f51..ef8e3c5 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -737,8 +737,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                                YAZ_SRW_SORT_UNSUPP, 0);
     }
 
-    // start record requested negative, or larger than number of records
-    if (start < 0 || start > *sru_pdu_res->u.response->numberOfRecords)
+    // start record less than 1, or larger than number of records
+    if (start < 1 || start > *sru_pdu_res->u.response->numberOfRecords)
     {
         send_z3950_present = false;
         yaz_add_srw_diagnostic(odr_en,
-- 
2.43.0


From c5582d1fb9a9e7150bc863c74f5a63fc8956e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 33/72] fix: sru_z3950 reports multiple diagnostics of a back
 end

---
 src/filter_sru_to_z3950.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index ef8e3c5..96a546b 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -976,6 +976,23 @@ bool yf::SRUtoZ3950::Impl::z3950_to_srw_diagnostics_ok(
                           records->u.nonSurrogateDiagnostic);
         return false;
     }
+    if (records
+        && records->which == Z_Records_multipleNSD
+        && records->u.multipleNonSurDiagnostics)
+    {
+        Z_DiagRecs *recs = records->u.multipleNonSurDiagnostics;
+        for (int i = 0; i < recs->num_diagRecs; i++)
+            if (recs->diagRecs[i]->which == Z_DiagRec_defaultFormat)
+            {
+                z3950_to_srw_diag(odr_en, sru_res,
+                                  recs->diagRecs[i]->u.defaultFormat);
+                return false;
+            }
+        yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                               &sru_res->num_diagnostics,
+                               YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 66ca1b9f5b34eda1a28f87345c3c3cb143b4e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 34/72] fix: database and host in SRU explain are escaped

---
 src/sru_util.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 860453a..d3dde25 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -91,6 +91,13 @@ mp_util::SRUServerInfo mp_util::get_sru_server_info(mp::Package &package)
 }
 
 
+static std::string xml_escape(const std::string &s)
+{
+    mp::wrbuf w;
+    wrbuf_xmlputs(w, s.c_str());
+    return std::string(w.buf(), w.len());
+}
+
 bool mp_util::build_sru_explain(metaproxy_1::Package &package,
                                 metaproxy_1::odr &odr_en,
                                 Z_SRW_PDU *sru_pdu_res,
@@ -109,13 +116,13 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
                 "<explain  xmlns=\"" + xmlns_explain + "\">\n"
                 "  <serverInfo protocol='SRU'>\n"
                 "    <host>")
-            + sruinfo.host
+            + xml_escape(sruinfo.host)
             + mp_util::to_string("</host>\n"
                                  "    <port>")
-            + sruinfo.port
+            + xml_escape(sruinfo.port)
             + mp_util::to_string("</port>\n"
                                  "    <database>")
-            + sruinfo.database
+            + xml_escape(sruinfo.database)
             + mp_util::to_string("</database>\n"
                                  "  </serverInfo>\n"
                                  "</explain>\n");
-- 
2.43.0


From 819b8df1bcde18c7e42912cbdb20662246652626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 35/72] fix: thread pool starts a thread when waiting ones have
 work to do

---
 src/thread_pool_observer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 7fdc43a..03b0882 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -264,7 +264,8 @@ void ThreadPoolSocketObserver::cleanup(IThreadPoolMsg *m, void *info)
 void ThreadPoolSocketObserver::put(IThreadPoolMsg *m)
 {
     boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
-    if (m_p->m_waiting_threads == 0 &&
+    // threads that wait, but have a message to take already, do not count
+    if (m_p->m_waiting_threads <= m_p->m_input.size() &&
         m_p->m_no_threads < m_p->m_max_threads)
     {
         add_worker();
-- 
2.43.0


From aab2523e83c045208d3a28d8094833002cbf38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 36/72] fix: session_shared keeps copies of what sessions are
 shared by

---
 src/filter_session_shared.cpp | 67 ++++++++++-------------------------
 1 file changed, 18 insertions(+), 49 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..54afd34 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -54,14 +54,9 @@ namespace metaproxy_1 {
         public:
             bool operator < (const SessionShared::InitKey &k) const;
             InitKey(Z_InitRequest *req);
-            InitKey(const InitKey &);
-            ~InitKey();
         private:
-            char *m_idAuthentication_buf;
-            int m_idAuthentication_size;
-            char *m_otherInfo_buf;
-            int m_otherInfo_size;
-            ODR m_odr;
+            std::string m_idAuthentication;
+            std::string m_otherInfo;
         };
         // worker thread .. for expiry of sessions
         class SessionShared::Worker {
@@ -248,59 +243,33 @@ const yazpp_1::Yaz_Z_Query& yf::SessionShared::FrontendSet::get_query()
     return m_query;
 }
 
-yf::SessionShared::InitKey::InitKey(const InitKey &k)
-{
-    m_odr = odr_createmem(ODR_ENCODE);
-
-    m_idAuthentication_size =  k.m_idAuthentication_size;
-    m_idAuthentication_buf = (char*)odr_malloc(m_odr, m_idAuthentication_size);
-    memcpy(m_idAuthentication_buf, k.m_idAuthentication_buf,
-           m_idAuthentication_size);
-
-    m_otherInfo_size =  k.m_otherInfo_size;
-    m_otherInfo_buf = (char*)odr_malloc(m_odr, m_otherInfo_size);
-    memcpy(m_otherInfo_buf, k.m_otherInfo_buf,
-           m_otherInfo_size);
-}
-
 yf::SessionShared::InitKey::InitKey(Z_InitRequest *req)
 {
-    m_odr = odr_createmem(ODR_ENCODE);
+    mp::odr odr(ODR_ENCODE);
+    int size;
+    char *buf;
 
     Z_IdAuthentication *t = req->idAuthentication;
-    z_IdAuthentication(m_odr, &t, 1, 0);
-    m_idAuthentication_buf =
-        odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    z_IdAuthentication(odr, &t, 1, 0);
+    buf = odr_getbuf(odr, &size, 0);
+    if (buf)
+        m_idAuthentication.assign(buf, size);
 
-    Z_OtherInformation *o = req->otherInfo;
-    z_OtherInformation(m_odr, &o, 1, 0);
-    m_otherInfo_buf = odr_getbuf(m_odr, &m_otherInfo_size, 0);
-}
+    odr_reset(odr);
 
-yf::SessionShared::InitKey::~InitKey()
-{
-    odr_destroy(m_odr);
+    Z_OtherInformation *o = req->otherInfo;
+    z_OtherInformation(odr, &o, 1, 0);
+    buf = odr_getbuf(odr, &size, 0);
+    if (buf)
+        m_otherInfo.assign(buf, size);
 }
 
 bool yf::SessionShared::InitKey::operator < (const SessionShared::InitKey &k)
     const
 {
-    int c;
-    c = mp::util::memcmp2(
-        (void*) m_idAuthentication_buf, m_idAuthentication_size,
-        (void*) k.m_idAuthentication_buf, k.m_idAuthentication_size);
-    if (c < 0)
-        return true;
-    else if (c > 0)
-        return false;
-
-    c = mp::util::memcmp2((void*) m_otherInfo_buf, m_otherInfo_size,
-                          (void*) k.m_otherInfo_buf, k.m_otherInfo_size);
-    if (c < 0)
-        return true;
-    else if (c > 0)
-        return false;
-    return false;
+    if (m_idAuthentication != k.m_idAuthentication)
+        return m_idAuthentication < k.m_idAuthentication;
+    return m_otherInfo < k.m_otherInfo;
 }
 
 void yf::SessionShared::BackendClass::release_backend(BackendInstancePtr b)
-- 
2.43.0


From 7eaf969d00287a46eda0c4cd0a8fff2d01736fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 37/72] fix: session_shared lets those waiting for a session
 that ends go on

---
 src/filter_session_shared.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 54afd34..616e7f3 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -292,6 +292,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             if (*it == b)
             {
                 it = m_backend_list.erase(it);
+                m_cond_set_ready.notify_all();
                 break;
             }
             it++;
-- 
2.43.0


From 714f3c24b78eef9774a32dbc5b9780da6c3b4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 38/72] fix: session_shared forgets the failed set when it
 restarts a search

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 616e7f3..5ad48fc 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -946,6 +946,7 @@ restart:
             bc->remove_backend(found_backend);
             session_restarted = true;
             found_backend.reset();
+            found_set.reset();
             goto restart;
 
         }
@@ -981,6 +982,7 @@ restart:
         bc->remove_backend(found_backend);
         session_restarted = true;
         found_backend.reset();
+        found_set.reset();
         goto restart;
     }
     found_backend->m_sets.push_back(found_set);
-- 
2.43.0


From 73ca19e370bd03bae18a96ea3d3f4307f9f1ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 39/72] fix: session_shared adds result sets under the lock

---
 src/filter_session_shared.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 5ad48fc..0cd2349 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -985,6 +985,7 @@ restart:
         found_set.reset();
         goto restart;
     }
+    boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
     found_backend->m_sets.push_back(found_set);
 }
 
-- 
2.43.0


From 001c72ba3d0fd3ae926651472d477bbbf44a5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 40/72] fix: session_shared expires sessions of clients that
 stay

---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 0cd2349..8d56b4e 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1330,7 +1330,8 @@ void yf::SessionShared::Rep::expire_classes()
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        // clients that are still connected may make new sessions of the class
+        if (b_it->second->expire_instances() && b_it->second.use_count() == 1)
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From 6c33f94fd6d46d1cda033995db51385baf293780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 41/72] fix: session_shared reports a search that fails as such

---
 src/filter_session_shared.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8d56b4e..753122e 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -959,7 +959,9 @@ restart:
                 Z_APDU *f_apdu = odr.create_searchResponse(apdu_req,
                                                            0, 0);
                 Z_SearchResponse *f_resp = f_apdu->u.searchResponse;
-                *f_resp->searchStatus = Z_SearchResponse_none;
+                *f_resp->searchStatus = 0;
+                f_resp->resultSetStatus =
+                    odr_intdup(odr, Z_SearchResponse_none);
                 f_resp->records = z_records;
                 package.response() = f_apdu;
             }
@@ -968,6 +970,7 @@ restart:
                 Z_APDU *f_apdu = odr.create_presentResponse(apdu_req,
                                                             0, 0);
                 Z_PresentResponse *f_resp = f_apdu->u.presentResponse;
+                *f_resp->presentStatus = Z_PresentStatus_failure;
                 f_resp->records = z_records;
                 package.response() = f_apdu;
             }
-- 
2.43.0


From dd3b1f639f3885a51fd3d6756a52767b856306a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 42/72] fix: session_shared passes on why no session could be
 made

---
 src/filter_session_shared.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 753122e..4d479c9 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -871,12 +871,12 @@ restart:
             if (apdu_req->which == Z_APDU_searchRequest)
             {
                 f_apdu = odr.create_searchResponse(
-                    apdu_req, YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, addinfo.c_str());
+                    apdu_req, code, addinfo.c_str());
             }
             else if (apdu_req->which == Z_APDU_presentRequest)
             {
                 f_apdu = odr.create_presentResponse(
-                    apdu_req, YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, addinfo.c_str());
+                    apdu_req, code, addinfo.c_str());
             }
             else
             {
-- 
2.43.0


From 77cc981ba840e84ff43051d428b2ecec7ad8fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 43/72] fix: session_shared counts sessions being made against
 the maximum

---
 src/filter_session_shared.cpp | 44 +++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 4d479c9..fbcabe1 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -136,11 +136,15 @@ namespace metaproxy_1 {
             int m_no_failed;
             int m_no_succeeded;
             int m_no_init;
+            int m_no_pending; // sessions being made
+            int m_session_max;
+            bool out_of_sessions() const;
         public:
             BackendClass(const yazpp_1::GDU &init_request,
                          int resultset_ttl,
                          int resultset_max,
                          int session_ttl,
+                         int session_max,
                          Odr_int preferredRecordSize,
                          Odr_int maximumRecordSize);
             ~BackendClass();
@@ -332,10 +336,23 @@ yf::SessionShared::BackendClass::get_backend(
             use_backend(backend1);
             return backend1;
         }
+        if (out_of_sessions())
+        {
+            code = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
+            addinfo = "session_shared: all sessions in use";
+            return backend1;
+        }
+        m_no_pending++;
     }
     return create_backend(frontend_package, code, addinfo);
 }
 
+// m_mutex_backend_class must be locked
+bool yf::SessionShared::BackendClass::out_of_sessions() const
+{
+    return (int) m_backend_list.size() + m_no_pending >= m_session_max;
+}
+
 void yf::SessionShared::BackendClass::use_backend(BackendInstancePtr backend)
 {
     backend->m_in_use = true;
@@ -361,6 +378,7 @@ yf::SessionShared::BackendInstance::~BackendInstance()
     delete m_close_package;
 }
 
+// caller has incremented m_no_pending
 yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_backend(
     const mp::Package &frontend_package,
     int &code, std::string &addinfo)
@@ -409,6 +427,8 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
 
     boost::mutex::scoped_lock lock(m_mutex_backend_class);
 
+    m_no_pending--;
+    m_cond_set_ready.notify_all();
     addinfo.clear();
     code = 0;
     m_named_result_sets = false;
@@ -488,7 +508,6 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
         init_package.move();
     }
     m_no_failed++;
-    m_cond_set_ready.notify_all();
     return null;
 }
 
@@ -497,6 +516,7 @@ yf::SessionShared::BackendClass::BackendClass(const yazpp_1::GDU &init_request,
                                               int resultset_ttl,
                                               int resultset_max,
                                               int session_ttl,
+                                              int session_max,
                                               Odr_int preferredMessageSize,
                                               Odr_int maximumRecordSize)
     : m_named_result_sets(false), m_init_request(init_request),
@@ -504,7 +524,8 @@ yf::SessionShared::BackendClass::BackendClass(const yazpp_1::GDU &init_request,
       m_backend_expiry_ttl(session_ttl), m_backend_set_max(resultset_max),
       m_preferredMessageSize(preferredMessageSize),
       m_maximumRecordSize(maximumRecordSize),
-      m_no_failed(0), m_no_succeeded(0), m_no_init(0)
+      m_no_failed(0), m_no_succeeded(0), m_no_init(0), m_no_pending(0),
+      m_session_max(session_max)
 {}
 
 yf::SessionShared::BackendClass::~BackendClass()
@@ -548,6 +569,7 @@ void yf::SessionShared::Rep::init(mp::Package &package, const Z_GDU *gdu,
                                                m_resultset_ttl,
                                                m_resultset_max,
                                                m_session_ttl,
+                                               m_session_max,
                                                m_preferredMessageSize,
                                                m_maximumRecordSize));
             m_backend_map[k] = b;
@@ -567,15 +589,13 @@ void yf::SessionShared::Rep::init(mp::Package &package, const Z_GDU *gdu,
     bool create_first_one = false;
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
+        // wait for first one to finish
+        while (!bc->m_no_succeeded && bc->m_no_pending)
+            bc->m_cond_set_ready.wait(lock);
         if (!bc->m_no_succeeded)
-            create_first_one = true;
-        else
         {
-            // wait for first one to finish
-            while (!bc->m_no_failed && !bc->m_no_succeeded && bc->m_no_init)
-            {
-                bc->m_cond_set_ready.wait(lock);
-            }
+            create_first_one = true;
+            bc->m_no_pending++;
         }
     }
     if (create_first_one)
@@ -796,9 +816,6 @@ restart:
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
 
-        if ((int) bc->m_backend_list.size() >= m_p->m_session_max)
-            out_of_sessions = true;
-
         if (m_p->m_optimize_search)
         {
             // look at each backend and see if we have a similar search
@@ -840,9 +857,12 @@ restart:
                     it++;
             }
         }
+        out_of_sessions = bc->out_of_sessions();
         override_set(found_backend, result_set_id, databases, out_of_sessions);
         if (found_backend)
             bc->use_backend(found_backend);
+        else if (!out_of_sessions)
+            bc->m_no_pending++;
     }
     if (!found_backend)
     {
-- 
2.43.0


From c3256120798d9e31b8a8c42020a9b64f2c640589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:05 +0000
Subject: [PATCH 44/72] fix: reference id of duplicate detection requests and
 responses is known

---
 src/util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index 0b32904..ed678dd 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -698,6 +698,10 @@ Z_ReferenceId **mp_util::get_referenceId(const Z_APDU *apdu)
         return &apdu->u.extendedServicesResponse->referenceId;
     case  Z_APDU_close:
         return &apdu->u.close->referenceId;
+    case  Z_APDU_duplicateDetectionRequest:
+        return &apdu->u.duplicateDetectionRequest->referenceId;
+    case  Z_APDU_duplicateDetectionResponse:
+        return &apdu->u.duplicateDetectionResponse->referenceId;
     }
     return 0;
 }
-- 
2.43.0


From 371645775a0cdcaa7607ebc24d5b7ad84558f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 45/72] fix: HTTP response content may have NUL characters

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index ed678dd..f866c4e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -122,8 +122,8 @@ void mp_util::http_response(metaproxy_1::Package &package,
     zgdu_res->u.HTTP_Response->content_buf
         = (char*) odr_malloc(odr, zgdu_res->u.HTTP_Response->content_len);
 
-    strncpy(zgdu_res->u.HTTP_Response->content_buf,
-            content.c_str(),  zgdu_res->u.HTTP_Response->content_len);
+    memcpy(zgdu_res->u.HTTP_Response->content_buf,
+           content.data(), zgdu_res->u.HTTP_Response->content_len);
 
     //z_HTTP_header_add(odr, &hres->headers,
     //                  "Content-Type", content_type.c_str());
-- 
2.43.0


From 6bbb3ae2647c12e3a3bf13786742830325881c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 46/72] fix: value of Connection header is case-insensitive

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index f866c4e..1057c97 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -615,7 +615,7 @@ Z_GDU *mp::odr::create_HTTP_Response_details(mp::Session &session,
     if (!strcmp(hreq->version, "1.0"))
     {
         const char *v = z_HTTP_header_lookup(hreq->headers, "Connection");
-        if (v && !strcmp(v, "Keep-Alive"))
+        if (v && boost::algorithm::iequals(v, "Keep-Alive"))
             keepalive = true;
         else
             session.close();
@@ -624,7 +624,7 @@ Z_GDU *mp::odr::create_HTTP_Response_details(mp::Session &session,
     else
     {
         const char *v = z_HTTP_header_lookup(hreq->headers, "Connection");
-        if (v && !strcmp(v, "close"))
+        if (v && boost::algorithm::iequals(v, "close"))
             session.close();
         else
             keepalive = true;
-- 
2.43.0


From 6ddc7b9aab86e0dafeaf7ed4b83d592ae872bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 47/72] fix: HTTP header names are case-insensitive

---
 src/util.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 1057c97..e36c049 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -60,11 +60,10 @@ std::string mp_util::http_header_value(const Z_HTTP_Header* header,
                                        const std::string name)
 {
     while (header && header->name
-           && std::string(header->name) !=  name)
+           && !boost::algorithm::iequals(header->name, name))
         header = header->next;
 
-    if (header && header->name && std::string(header->name) == name
-        && header->value)
+    if (header && header->name && header->value)
         return std::string(header->value);
 
     return std::string();
-- 
2.43.0


From 739bd6c6a8873d0d397cf907eda0fb98195e78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 48/72] fix: long lines in plain files

---
 src/plainfile.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/plainfile.cpp b/src/plainfile.cpp
index 5b560c8..56a9067 100644
--- a/src/plainfile.cpp
+++ b/src/plainfile.cpp
@@ -25,8 +25,6 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include <metaproxy/util.hpp>
 
-#define PLAINFILE_MAX_LINE 256
-
 namespace mp = metaproxy_1;
 
 namespace metaproxy_1 {
@@ -81,23 +79,22 @@ bool mp::PlainFile::getline(std::vector<std::string> &args)
     if (!m_p->fh)
         return false;  // no file at all.
 
-    char line_cstr[PLAINFILE_MAX_LINE];
+    std::string line;
     while (true)
     {
-        if (m_p->fh->eof())
+        if (!std::getline(*m_p->fh, line))
         {
             m_p->close();   // might as well close it now
             return false;
         }
 
         m_p->lineno++;
-        m_p->fh->getline(line_cstr, PLAINFILE_MAX_LINE-1);
-        char first = line_cstr[0];
+        char first = line.c_str()[0];
         if (first && !strchr("# \t", first))
             break;
         // comment or blank line.. read next.
     }
-    const char *cp = line_cstr;
+    const char *cp = line.c_str();
     while (true)
     {
         // skip whitespace
-- 
2.43.0


From 143b1d58fa42feb954cca45142aeb92cf463ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 49/72] fix: auth_simple left the request pointing to memory it
 had freed

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 8a24268..e89e14f 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -422,6 +422,8 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
                            "all databases");
     mp::odr odr;
     mp::util::set_vhost_otherinfo(otherInfo, odr, targets);
+    // the request outlives odr, so make it own the new other information
+    package.request() = package.request().get();
     package.move();
 }
 
-- 
2.43.0


From e332bcd82ae5e7a297cc454476b388751d595385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 50/72] fix: query_rewrite left requests it refused pointing to
 memory it had freed

---
 src/filter_query_rewrite.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/filter_query_rewrite.cpp b/src/filter_query_rewrite.cpp
index 4828781..3afb6b5 100644
--- a/src/filter_query_rewrite.cpp
+++ b/src/filter_query_rewrite.cpp
@@ -94,7 +94,14 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
             int error_code = 0;
             const char *addinfo = 0;
             mp::odr odr;
-            Z_SearchRequest *req = apdu_req->u.searchRequest;
+            // work on a copy: the request stays as it is if this fails
+            yazpp_1::GDU copy(gdu);
+            if (!copy.get())
+            {
+                package.move();
+                return;
+            }
+            Z_SearchRequest *req = copy.get()->u.z3950->u.searchRequest;
 
             if (m_stylesheet)
             {
@@ -145,7 +152,7 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
                 package.response() = f_apdu;
                 return;
             }
-            package.request() = gdu;
+            package.request() = copy.get();
         }
     }
     package.move();
-- 
2.43.0


From 6d79850843a13e83be7ec021cebaf4d565578daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 51/72] fix: http_rewrite content without mime is for all types

mime is optional, but without it the first message with content made the
regular expression library fail an assertion or throw.
---
 src/filter_http_rewrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..d9a5a8f 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -331,7 +331,8 @@ void yf::HttpRewrite::Phase::rewrite_body(
         yaz_log(YLOG_LOG, "rewrite_body: content_type=%s type=%s",
                 content_type, cit->type.c_str());
         if (cit->type != "headers"
-            && regex_match(content_type, cit->content_re))
+            && (cit->content_re.empty()
+                || regex_match(content_type, cit->content_re)))
             break;
     }
     if (cit == content_list.end()) {
-- 
2.43.0


From 3285147b98dccb849e0ec4895a8e17e44ac0888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 52/72] fix: http_rewrite ignores X-Metaproxy-SkipLink that is
 no regular expression

The exception was not caught, so any client could end metaproxy.
---
 src/filter_http_rewrite.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index d9a5a8f..c1f0394 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -208,18 +208,26 @@ void yf::HttpRewrite::Phase::read_skip_headers(Z_HTTP_Request *hreq,
             continue; // should not happen
         std::string page(hv,p);
         std::string link(p+1);
-        boost::regex pagere(page);
-        if ( boost::regex_search(url, pagere) )
+        try
         {
-            yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
-                    page.c_str(), url.c_str() );
-            boost::regex linkre(link);
-            skip_list.push_back(linkre);
+            boost::regex pagere(page);
+            if ( boost::regex_search(url, pagere) )
+            {
+                yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
+                        page.c_str(), url.c_str() );
+                boost::regex linkre(link);
+                skip_list.push_back(linkre);
+            }
+            else
+            {
+                yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
+                        url.c_str(), page.c_str() );
+            }
         }
-        else
+        catch (boost::regex_error &e)
         {
-            yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
-                    url.c_str(), page.c_str() );
+            yaz_log(YLOG_WARN, "SkipLink ignored, bad regular expression: %s",
+                    e.what());
         }
     }
 }
-- 
2.43.0


From c78e378e94750092106a35de89ac80b27e8a537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 53/72] fix: http_rewrite looped for ever on patterns that
 match nothing

A pattern such as (.*) matches the empty text at the end again and again.
---
 src/filter_http_rewrite.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index c1f0394..e68cec0 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -593,7 +593,11 @@ bool yf::HttpRewrite::Rule::test_patterns(
                 if (it->start_anchor && !first)
                     continue;
                 boost::smatch what;
-                if (regex_search(start, end, what, it->re))
+                // after a match, nothing at all is no match
+                if (regex_search(start, end, what, it->re,
+                                 replaces
+                                 ? boost::regex_constants::match_not_initial_null
+                                 : boost::regex_constants::match_default))
                 {
                     if (!match_one || what[0].first < bwhat[0].first)
                     {
-- 
2.43.0


From fa1cc5dc5844ce1d39da63a917bd9886b9b8b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 54/72] fix: z3950_client left the init request pointing to
 memory it had freed

With client_ip or charset configured the init request was changed in
place through a pointer into the previous request; the package kept, and
later used, the storage that was freed.
---
 src/filter_z3950_client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 627ed34..e7bb90b 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -603,6 +603,13 @@ void yf::Z3950Client::Rep::send_and_receive(Package &package,
     if (apdu->which == Z_APDU_initRequest && m_charset.length() > 0)
         set_charset_proposal(odr, apdu->u.initRequest, m_charset.c_str());
 
+    if (apdu->which == Z_APDU_initRequest)
+    {
+        // the request outlives odr, so make it own what was added above
+        package.request() = gdu;
+        gdu = package.request().get();
+    }
+
     // prepare response
     c->m_time_elapsed = 0;
     c->m_waiting = true;
-- 
2.43.0


From d491625dff4f817894fa3ee21ded17f1ac2172cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 55/72] fix: log took a sort response for its request

---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..7de6b2b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -395,7 +395,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 9e50fa5488957f696c5421046694aa6ebd68ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 56/72] fix: log of responses with an empty list of diagnostics

---
 src/filter_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 7de6b2b..61e3351 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -162,7 +162,9 @@ static void log_DefaultDiagFormat(WRBUF w, Z_DefaultDiagFormat *e)
 
 static void log_DiagRecs(WRBUF w, int num_diagRecs, Z_DiagRec **diags)
 {
-    if (diags[0]->which != Z_DiagRec_defaultFormat)
+    if (num_diagRecs < 1)
+        wrbuf_puts(w, "-");
+    else if (diags[0]->which != Z_DiagRec_defaultFormat)
         wrbuf_puts(w ,"(diag not in default format?)");
     else
     {
-- 
2.43.0


From 80748353e53267293e4be2cf3a16687425e132db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 57/72] fix: log of unknown requests that are not answered

---
 src/filter_log.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 61e3351..91a752e 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -481,7 +481,10 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        if (z_res)
+            wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        else
+            wrbuf_printf(w, "REQ=%d ?", z_req->which);
     }
 }
 
-- 
2.43.0


From 2046a0968dece9b709c9d7e7cb28f1dbcdb9ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 58/72] fix: log entries are one line each

Texts of packages with newlines in them could make a log entry look like
several. The documentation says that entries are strictly one line each.
---
 src/filter_log.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 91a752e..3f430ef 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -846,6 +846,11 @@ yf::Log::Impl::LFile::~LFile()
 void yf::Log::Impl::LFile::log(const std::string &date_format,
                                std::ostringstream &os)
 {
+    // one line per entry, whatever is in the packages
+    std::string line = os.str();
+    for (size_t i = 0; i < line.length(); i++)
+        if (line[i] == '\n' || line[i] == '\r')
+            line[i] = ' ';
     if (fhandle)
     {
         char datestr[80];
@@ -861,11 +866,11 @@ void yf::Log::Impl::LFile::log(const std::string &date_format,
             fputs(datestr, fhandle);
             fputs(" ", fhandle);
         }
-        fputs(os.str().c_str(), fhandle);
+        fputs(line.c_str(), fhandle);
         fputc('\n', fhandle);
     }
     else
-        yaz_log(YLOG_LOG, "%s", os.str().c_str());
+        yaz_log(YLOG_LOG, "%s", line.c_str());
 }
 
 void yf::Log::Impl::LFile::flush()
-- 
2.43.0


From 07adfd8816d8a287e6c9f0f4bb166af59288946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 59/72] fix: zeerex_explain refuses HTTP requests that are
 neither SRU nor SOAP

---
 src/filter_zeerex_explain.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index f82039d..41b2f91 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -159,10 +159,21 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
                &diagnostic, &num_diagnostic, &soap,
                charset)))
     {
-        mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
-                                   sruinfo, explainnode);
-        mp_util::build_sru_response(package, odr_en, soap,
-                           sru_pdu_res, charset, stylesheet);
+        if (soap)
+        {
+            mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
+                                       sruinfo, explainnode);
+            mp_util::build_sru_response(package, odr_en, soap,
+                                        sru_pdu_res, charset, stylesheet);
+        }
+        else
+        {
+            // neither SRU nor SOAP: nothing to put an explain record in
+            mp::odr odr;
+            package.response() =
+                odr.create_HTTP_Response(package.session(),
+                                         zgdu_req->u.HTTP_Request, 400);
+        }
         package.session().close();
         return;
     }
-- 
2.43.0


From 5bbe13e70c87b56c414b6570c326707902b4d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 60/72] fix: cql_rpn gives back the buffer of a query it cannot
 convert

---
 src/filter_cql_rpn.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..ced0cf4 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -156,7 +156,7 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
         {
             char *addinfo = 0;
             mp::odr odr;
-            WRBUF cql = wrbuf_alloc();
+            mp::wrbuf cql;
 
             int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
@@ -183,7 +183,6 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
 
                 package.request() = gdu;
             }
-            wrbuf_destroy(cql);
         }
         if (!reverse && sr->query && sr->query->which == Z_Query_type_104 &&
             sr->query->u.type_104->which == Z_External_CQL)
-- 
2.43.0


From 4a443f9150bf0684465e659c2b67eb5876e66b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 61/72] fix: cql_rpn conversions do not share their error
 between threads

---
 src/filter_cql_rpn.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index ced0cf4..e4874b8 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -24,6 +24,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "filter_cql_rpn.hpp"
 
+#include <boost/thread/mutex.hpp>
 #include <yazpp/z-query.h>
 #include <yaz/cql.h>
 #include <yazpp/cql2rpn.h>
@@ -46,6 +47,7 @@ namespace metaproxy_1 {
             void configure(const xmlNode *ptr, const char *path);
         private:
             yazpp_1::Yaz_cql2rpn m_cql2rpn;
+            boost::mutex m_mutex; // m_cql2rpn keeps the error of a conversion
             bool reverse;
         };
     }
@@ -158,8 +160,12 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             mp::odr odr;
             mp::wrbuf cql;
 
-            int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
+            }
             if (r)
             {
                 Z_APDU *f_apdu =
@@ -191,9 +197,13 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             Z_RPNQuery *rpnquery = 0;
             mp::odr odr;
 
-            int r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
-                                                 &rpnquery, odr,
-                                                 &addinfo);
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
+                                              &rpnquery, odr,
+                                              &addinfo);
+            }
             if (r == -3)
             {
                 Z_APDU *f_apdu =
-- 
2.43.0


From 83a56c8ef3376903f1e62a19884c2d775121c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 62/72] fix: record_transform conversions do not share their
 error between threads

---
 src/filter_record_transform.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..acd4989 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -50,6 +50,8 @@ namespace metaproxy_1 {
             void configure(const xmlNode * xml_node, const char *path);
         private:
             yaz_retrieval_t m_retrieval;
+            // conversions leave their error in an object shared by all threads
+            mutable boost::mutex m_conv_mutex;
         };
     }
 }
@@ -535,6 +537,7 @@ void yf::RecordTransform::Impl::process(mp::Package &package) const
 
     if (records)
     {
+        boost::mutex::scoped_lock lock(m_conv_mutex);
         int i;
         for (i = 0; i < records->num_records; i++)
             convert_npr(rc, match_syntax, odr_en, records, i);
-- 
2.43.0


From 888f38950a546011258f578fb5755c5a6de91555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 63/72] fix: frontend_net ends connections it refuses further
 requests on like any other

---
 src/filter_frontend_net.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..15839bd 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -450,7 +450,8 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         {
             report(hreq);
             delete p;
-            delete this;
+            m_no_requests--;
+            close(); // other requests may be pending and filters be told
             return;
         }
     }
@@ -492,7 +493,8 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
                 int len;
                 send_GDU(gdu_res, &len);
                 delete p;
-                delete this;
+                m_no_requests--;
+                close(); // other requests may be pending and filters be told
                 return;
             }
         }
-- 
2.43.0


From 8d7c49cb13174f35f5617754b925dcb8eba869db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 64/72] fix: frontend_net closes connections whose session was
 closed while other requests were on

---
 src/filter_frontend_net.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 15839bd..b966471 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -126,6 +126,7 @@ namespace metaproxy_1 {
                         yazpp_1::LimitConnect &limit,
                         const char *peername);
             int m_no_requests;
+            bool m_delete_flag;
             Port *m_port;
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
@@ -140,7 +141,6 @@ namespace metaproxy_1 {
             mp::ThreadPoolSocketObserver *m_thread_pool_observer;
             mp::Session m_session;
             mp::Origin m_origin;
-            bool m_delete_flag;
             const mp::Package *m_package;
             Rep *m_p;
             yazpp_1::LimitConnect &m_limit_http_req;
@@ -288,7 +288,10 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 && m_package->session().is_closed())
+    // other packages of the session have a copy of it that is still open
+    if (m_package->session().is_closed())
+        m_assoc_child->m_delete_flag = true;
+    if (m_assoc_child->m_no_requests == 0 && m_assoc_child->m_delete_flag)
     {
         m_assoc_child->close();
     }
-- 
2.43.0


From 8cab8bedd72559e95b3d640e43852db9a98b5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 65/72] fix: frontend_net has as many threads as configured
 unless max-threads is given

---
 src/filter_frontend_net.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index b966471..d1c0851 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -639,7 +639,8 @@ yf::FrontendNet::FrontendNet() : m_p(new Rep)
 
 yf::FrontendNet::Rep::Rep()
 {
-    m_max_threads = m_no_threads = 5;
+    m_no_threads = 5;
+    m_max_threads = 0; // fixed number of threads
     m_stack_size = 0;
     m_listen_duration = 0;
     az = 0;
-- 
2.43.0


From 9064281e8aeadc05bbec431b4bc77e84f3e40a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 66/72] fix: http_rewrite1 leaves responses that are none, or
 no HTTP, alone

---
 src/filter_http_rewrite1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index b1132cd..63e80e6 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -105,9 +105,9 @@ void yf::HttpRewrite1::process(mp::Package &package) const
         package.move();
 
         Z_GDU *gdu_res = package.response().get();
-        Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
-        if (hres)
+        if (gdu_res && gdu_res->which == Z_GDU_HTTP_Response)
         {
+            Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
             mp::odr o;
             m_p->rewrite_response(o, hres);
             package.response() = gdu_res;
-- 
2.43.0


From 1a7324fb7c0da746d3a6504cbbbf8d4b688a081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 67/72] fix: http_client has no target URI with bind_host
 either if there is none

---
 src/filter_http_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index e3d6116..7a3f18b 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -117,7 +117,7 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         else
             uri = hreq->path;
 
-        if (bind_host)
+        if (bind_host && uri.length())
         {
             std::string host = package.origin().get_bind_address();
             uri.append(" ");
-- 
2.43.0


From 0f7dcc2d630ac30d312dd6c68b34c0ac65f737b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 68/72] fix: http_client leaves no freed X-Forwarded-For header
 in requests

---
 src/filter_http_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index 7a3f18b..6e4a5ca 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -107,6 +107,9 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
             pcomb.append(peer_name2);
             z_HTTP_header_set(o, &hreq->headers, "X-Forwarded-For",
                               pcomb.c_str());
+            // filters before may look at the request when o is gone
+            package.request() = req_gdu;
+            hreq = package.request().get()->u.HTTP_Request;
         }
         std::string uri;
         if (hreq->path[0] == '/')
-- 
2.43.0


From 832809f311a6406a1c6416f902cb595efe73a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 69/72] fix: http_rewrite1 refuses bad patterns in its
 configuration

---
 src/filter_http_rewrite1.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index 63e80e6..eb134c4 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -46,6 +46,7 @@ namespace metaproxy_1 {
             std::string pattern;
             std::string replacement;
             std::string mode;
+            boost::regex re;
         };
         class HttpRewrite1::Rep {
             friend class HttpRewrite1;
@@ -75,14 +76,10 @@ void yf::HttpRewrite1::Rep::rewrite_response(mp::odr &o, Z_HTTP_Response *hres)
         {
             if (strcmp(ctype, it->content_type.c_str()) == 0)
             {
-                boost::regex::flag_type b_mode = boost::regex::perl;
-                if (it->mode.find_first_of('i') != std::string::npos)
-                    b_mode |= boost::regex::icase;
-                boost::regex e(it->pattern, b_mode);
                 boost::match_flag_type match_mode = boost::format_first_only;
                 if (it->mode.find_first_of('g') != std::string::npos)
                     match_mode = boost::format_all;
-                text = regex_replace(text, e, it->replacement, match_mode);
+                text = regex_replace(text, it->re, it->replacement, match_mode);
                 number_of_replaces++;
             }
         }
@@ -146,7 +143,22 @@ void mp::filter::HttpRewrite1::configure(const xmlNode * ptr, bool test_only,
                          + " in replace section of http_rewrite1");
             }
             if (rule.pattern.length() > 0)
+            {
+                boost::regex::flag_type b_mode = boost::regex::perl;
+                if (rule.mode.find_first_of('i') != std::string::npos)
+                    b_mode |= boost::regex::icase;
+                try
+                {
+                    rule.re.assign(rule.pattern, b_mode);
+                }
+                catch (boost::regex_error &e)
+                {
+                    throw mp::filter::FilterException
+                        ("Bad pattern " + rule.pattern + ": " + e.what()
+                         + " in http_rewrite1 filter");
+                }
                 m_p->rules.push_back(rule);
+            }
         }
         else
         {
-- 
2.43.0


From 2eba48bec900e2ee8d9ab1522afb09860bbf1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 70/72] fix: http_rewrite1 does not cut responses at a NUL

---
 src/filter_http_rewrite1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index eb134c4..e7180f5 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -85,8 +85,8 @@ void yf::HttpRewrite1::Rep::rewrite_response(mp::odr &o, Z_HTTP_Response *hres)
         }
         if (number_of_replaces > 0)
         {
-            hres->content_buf = odr_strdup(o, text.c_str());
-            hres->content_len = strlen(hres->content_buf);
+            hres->content_buf = odr_strdupn(o, text.data(), text.length());
+            hres->content_len = text.length();
         }
     }
 }
-- 
2.43.0


From 9c3c8a422c74320917f1b5b5a2a6a4b4bb9a1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:35 +0000
Subject: [PATCH 71/72] fix: cgi does not pass on requests, or run another
 program, if it cannot run the one for it

---
 src/filter_cgi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 70b16f0..e087a5e 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -169,7 +169,7 @@ void yf::CGI::process(mp::Package &package) const
                 zgdu_res = odr.create_HTTP_Response(
                     package.session(), hreq, 400);
                 package.response() = zgdu_res;
-                continue;
+                return;
             }
             int fds_request[2];
             r = pipe(fds_request);
@@ -180,7 +180,7 @@ void yf::CGI::process(mp::Package &package) const
                 package.response() = zgdu_res;
                 close(fds_response[0]);
                 close(fds_response[1]);
-                continue;
+                return;
             }
 
             int status;
-- 
2.43.0


From d329868e4ffa18636173b18f67b5dc2767dbdb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 72/72] fix: cgi gives all of the output of a program that does
 not read its input

---
 src/filter_cgi.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index e087a5e..6f6536b 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -248,9 +248,10 @@ void yf::CGI::process(mp::Package &package) const
                         ssize_t wd = write(fds_request[1],
                                            hreq->content_buf + no_write,
                                            hreq->content_len - no_write);
-                        if (wd <= 0)
-                            break;
-                        no_write += wd;
+                        if (wd <= 0) // program reads no more
+                            no_write = hreq->content_len;
+                        else
+                            no_write += wd;
                     }
                 }
                 close(fds_request[1]);
-- 
2.43.0

