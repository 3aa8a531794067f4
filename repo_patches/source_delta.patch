From e21457788fbdaed8b223e52864369ea209488649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 01/73] fix: look for SEGY trailer stanzas before the end of
 file, not after it

---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..313eea9 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>
+						  (common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From ee0d1886537c28c94a540aa0af3d6ba4e5ebf226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 02/73] fix: count trace headers when skipping to terminated
 SEGY trailer stanzas

---
 src/ISEGY.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 313eea9..5113696 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -352,8 +352,17 @@ void ISEGY::Impl::read_trailer_stanzas()
             throw(Exception(__FILE__, __LINE__,
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
-            // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
+            // skip all traces: headers and samples
+            uint64_t trc_size = (static_cast<uint64_t>(
+					common.binary_header.max_num_add_tr_headers) + 1) *
+			   	CommonSEGY::TR_HEADER_SIZE +
+			   	static_cast<uint64_t>(common.bytes_per_sample) *
+			   	common.samp_per_tr;
+            if (common.binary_header.num_of_tr_in_file >
+			   	static_cast<uint64_t>(INT64_MAX) / trc_size)
+                throw(Exception(__FILE__, __LINE__,
+							   	"impossible number of traces in file"));
+            common.file.seekg(trc_size *
 							  common.binary_header.num_of_tr_in_file,
 							  ios_base::cur);
             end_of_data = common.file.tellg();
-- 
2.43.0


From 91b42ed625a9195606024c1c134c081acbdbac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 03/73] fix: no integer overflow or negative sizes from SEGY
 binary header values

---
 src/ISEGY.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 5113696..875a8d0 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -111,11 +111,17 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 		/* static cast for the case you will get SEGY prior rev2 with samples
 		 * more then int16_t can hold without wrap. i got one */
 	   	static_cast<uint16_t>(common.binary_header.samp_per_tr);
+    if (common.samp_per_tr < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of samples per trace");
+    if (common.binary_header.max_num_add_tr_headers < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of additional trace headers");
     read_trailer_stanzas();
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -390,7 +396,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                     ptr = trc_hdr_buf + 136;
                     trc_samp_num = read_u32(&ptr);
                     ptr = trc_hdr_buf + 156;
-                    uint16_t add_tr_hdr_num = read_u16(&ptr);
+                    int64_t add_tr_hdr_num = read_u16(&ptr);
                     add_tr_hdr_num = add_tr_hdr_num ? add_tr_hdr_num :
 					   	common.binary_header.max_num_add_tr_headers;
                     // skip addional headers
@@ -399,8 +405,8 @@ void ISEGY::Impl::read_trailer_stanzas()
 									  ios_base::cur);
                 }
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                common.file.seekg(static_cast<streamoff>(trc_samp_num) *
+								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
@@ -521,8 +527,9 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
-							   pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(static_cast<streamoff>(
+				pimpl->common.samp_per_tr) *
+			   	pimpl->common.bytes_per_sample);
     } else {
         Trace::Header::Value v = hdr["SAMP_NUM"];
         uint64_t samp_num = get<int64_t>(v);
-- 
2.43.0


From 1d52e3e95260a09e9d64ccb1313ba473e64387ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 04/73] fix: skip unmapped SEGY trace headers at once, without
 overflow of their number

---
 src/ISEGY.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 875a8d0..b3f90e3 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -466,10 +466,11 @@ void ISEGY::Impl::assign_bytes_per_sample()
 unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
-	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
-		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
-		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
-		   	common.tr_hdr_map.size()) {
+	decltype(common.tr_hdr_map.size()) hdrs_num =
+	   	common.binary_header.max_num_add_tr_headers;
+	++hdrs_num;
+	for (decltype(hdrs_num) i = 0; i < hdrs_num; ++i) {
+		if (i < common.tr_hdr_map.size()) {
 			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
 			for (auto& p : common.tr_hdr_map[i].second) {
 				char const* pos = common.hdr_buf + p.first;
@@ -516,7 +517,10 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 				}
 			}
 		} else {
-			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
+			// no more maps, skip the rest of the headers
+			file_skip_bytes(static_cast<streamoff>(hdrs_num - i) *
+							CommonSEGY::TR_HEADER_SIZE);
+			break;
 		}
 	}
     return hdr;
-- 
2.43.0


From 119f003b274fffbd0a64536a89801121391449d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 05/73] fix: reject impossible per-trace sample counts instead
 of seeking backwards

---
 src/ISEGY.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index b3f90e3..63f9c5d 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -57,6 +57,7 @@ public:
     vector<double> read_trc_smpls_fix();
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
+    int64_t trc_samp_num(unordered_map<string, Trace::Header::Value>& hdr);
     void file_skip_bytes(streamoff off);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
@@ -535,13 +536,23 @@ Trace::Header ISEGY::read_header()
 				pimpl->common.samp_per_tr) *
 			   	pimpl->common.bytes_per_sample);
     } else {
-        Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
-        pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(pimpl->trc_samp_num(hdr) *
+							   pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
 }
 
+int64_t ISEGY::Impl::trc_samp_num(unordered_map<string,
+								  Trace::Header::Value>& hdr)
+{
+    Trace::Header::Value v = hdr["SAMP_NUM"];
+    int64_t samp_num = get<int64_t>(v);
+    if (samp_num < 0 || samp_num > UINT32_MAX)
+        throw Exception(__FILE__, __LINE__,
+					   	"impossible number of samples in trace header");
+    return samp_num;
+}
+
 vector<double> ISEGY::Impl::read_trc_smpls_fix()
 {
     fill_buf_from_file(common.samp_buf.data(), common.samp_buf.size());
@@ -555,8 +566,7 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    Trace::Header::Value v = hdr["SAMP_NUM"];
-    size_t samp_num = get<int64_t>(v);
+    size_t samp_num = trc_samp_num(hdr);
     if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
         common.samp_buf.resize(samp_num * common.bytes_per_sample);
     return read_trc_smpls_fix();
-- 
2.43.0


From 304edce47755ed87779e789627c7f4ac77b04913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 06/73] fix: check the first and far away fields of SEGY trace
 header maps too

---
 src/CommonSEGY.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..21e4d72 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,10 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first > static_cast<uint32_t>(
+						CommonSEGY::TR_HEADER_SIZE - size))
+				throw Exception(__FILE__, __LINE__,
+								string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +95,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From af9ac8d0c6c3bf8a2b93b4c414d3cede0ceba39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 07/73] fix: refuse to write SEGY without any trace header map

---
 src/OSEGY.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..313be06 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -464,6 +464,9 @@ OSEGY::OSEGY(string name, CommonSEGY::BinaryHeader bh,
     : pimpl { make_unique<Impl>(CommonSEGY { move(name),
 	   	fstream::out | fstream::binary, move(bh), move(add_hdr_map) }) }
 {
+    if (pimpl->common.tr_hdr_map.empty())
+        throw Exception(__FILE__, __LINE__,
+						"at least one trace header map is needed to write");
 }
 
 CommonSEGY& OSEGY::common() { return pimpl->common; }
-- 
2.43.0


From cb63929cbf52987866f87c254ffec3e7874653a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 08/73] fix: write floating point SEGY trace headers and
 convert between types

---
 src/OSEGY.cpp | 71 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 313be06..45c78e4 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -12,6 +12,7 @@ using std::abs;
 using std::fstream;
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -286,6 +287,24 @@ void OSEGY::Impl::write_bin_header()
     common.file.write(buf, CommonSEGY::BIN_HEADER_SIZE);
 }
 
+static double to_double(Trace::Header::Value const& v)
+{
+    if (holds_alternative<int64_t>(v))
+        return get<int64_t>(v);
+    return get<double>(v);
+}
+
+static int64_t to_int(Trace::Header::Value const& v)
+{
+    if (holds_alternative<int64_t>(v))
+        return get<int64_t>(v);
+    double d = get<double>(v);
+    // values which do not fit have undefined result of conversion
+    if (!(d > -0x1p63))
+        return d == d ? INT64_MIN : 0;
+    return d < 0x1p63 ? static_cast<int64_t>(d) : INT64_MAX;
+}
+
 void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
@@ -295,55 +314,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, tmp ? to_int(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, tmp ? to_double(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, tmp ? to_double(*tmp) : 0);
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, tmp ? to_double(*tmp) : 0);
 				break;
 		}
 	}
@@ -364,55 +383,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, tmp ? to_int(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, tmp ? to_double(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, tmp ? to_double(*tmp) : 0);
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, tmp ? to_double(*tmp) : 0);
 						break;
 				}
 			}
-- 
2.43.0


From 079c59990fbd5481e2d612295ba0b424a4f79a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 09/73] fix: write all additional SEGY trace headers, not all
 but one

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 45c78e4..2fc321c 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -373,7 +373,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 0e68994a535ada783c8b392839e57178aaf20074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 10/73] fix: do not convert negative SEGY samples to unsigned
 types

---
 src/OSEGY.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 2fc321c..8c5acc3 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -44,15 +44,15 @@ public:
 
 private:
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_sample;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
-- 
2.43.0


From e0c1728ec368bb303296acebe057c5252c9154bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:16 +0000
Subject: [PATCH 11/73] fix: write zero, powers of 16 and out of range values
 as IBM floats

---
 src/OSEGY.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 8c5acc3..b8382c3 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -9,11 +9,13 @@
 #include <variant>
 
 using std::abs;
+using std::frexp;
 using std::fstream;
 using std::function;
 using std::get;
 using std::holds_alternative;
 using std::ios_base;
+using std::ldexp;
 using std::make_unique;
 using std::map;
 using std::move;
@@ -148,11 +150,19 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        uint32_t exp = 0x7f, fraction = 0x00ffffff;
+        // everything else does not fit, write the biggest number
+        if (abs_val < 0x1p252) {
+            int bin_exp;
+            frexp(abs_val, &bin_exp);
+            // the smallest power of 16 which is bigger than value
+            int hex_exp = -64;
+            if (abs_val > 0 && bin_exp > -256)
+                hex_exp = (bin_exp + 256 + 3) / 4 - 64;
+            exp = hex_exp + 64;
+            fraction = ldexp(abs_val, 24 - hex_exp * 4);
+        }
+        uint32_t result = sign << 31 | exp << 24 | fraction;
         write_u32(buf, result);
     };
 }
-- 
2.43.0


From 1beca8dc3072865d4fb9b09fd2a3b6fa13f92908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 12/73] fix: store SEGY byte order constant in the byte order
 of the file

---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index b8382c3..cec3a4c 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -282,7 +282,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // byte order of the constant shows byte order of the file
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 47fc4c93386edc6165744b496d3516ce924bc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 13/73] fix: set number of extended text headers before writing
 SEGY binary header

---
 src/OSEGYRev1.cpp | 2 ++
 src/OSEGYRev2.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..782a32c 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num =
+		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..41232d8 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num =
+		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-- 
2.43.0


From 04be67aee5b5b9d970805a7a519ef774b3469ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 14/73] fix: set number of trailer stanzas and first trace
 offset of written SEGY

---
 src/OSEGYRev2.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 41232d8..fc34b29 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -58,6 +58,12 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         sgy.common().binary_header.format_code = 5;
     sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
+    sgy.common().binary_header.num_of_trailer_stanza =
+		sgy.common().trailer_stanzas.size();
+    if (sgy.common().binary_header.byte_off_of_first_tr)
+        sgy.common().binary_header.byte_off_of_first_tr =
+			sgy.common().text_headers.size() * CommonSEGY::TEXT_HEADER_SIZE +
+			CommonSEGY::BIN_HEADER_SIZE;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-- 
2.43.0


From 3744d57f46fa85725324567e601fab39d8b1ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 15/73] fix: blank revision in default text header of SEGY
 revision 0

---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 2e4d9f1485def99249dded7151cfa4fb74d01c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 16/73] fix: set revision number in files written by SEGY
 writers of revision 1 and 2

---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 782a32c..61c0cc4 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver == 0)
+        sgy.common().binary_header.SEGY_rev_major_ver = 1;
     sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
@@ -59,6 +61,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index fc34b29..7cf13b3 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver < 2)
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.common().binary_header.ext_text_headers_num =
 		sgy.common().text_headers.size() - 1;
     sgy.common().binary_header.num_of_trailer_stanza =
@@ -72,6 +74,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 2;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-- 
2.43.0


From 6932afb7dc2a6fff950d03c8c30986cf898ea758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 17/73] fix: do not terminate if trailer stanzas could not be
 written

---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 7cf13b3..5560742 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -179,8 +179,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
-        write_trailer_stanzas();
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (common().binary_header.num_of_trailer_stanza)
+            write_trailer_stanzas();
+    } catch (...) {
+        // nothing to do here, destructor should not throw
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From fdd3082b0bbb1c54a3cf08c33f12d81fb9c2c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 18/73] fix: check presence and range of values derived from
 the first SEGY trace

---
 src/OSEGYRev0.cpp |  8 ++++----
 src/OSEGYRev1.cpp |  9 ++++-----
 src/OSEGYRev2.cpp | 15 ++++++++++-----
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..03f1115 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,21 +68,21 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
-                if (samp_num > INT16_MAX)
+                if (samp_num < 0 || samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much for "
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
                 else
                     samp_int = get<double>(v);
-                if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+                if (!(samp_int >= 1 && samp_int <= INT16_MAX))
                     throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
 									"written to rev0");
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 61c0cc4..0b60c27 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -85,22 +85,21 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
-				if (samp_num > INT16_MAX)
+				if (samp_num < 0 || samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much "
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
 				else
 					samp_int = get<double>(v);
-				if (samp_int > INT16_MAX ||
-					!static_cast<int16_t>(samp_int))
+				if (!(samp_int >= 1 && samp_int <= INT16_MAX))
 					throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
 									"written to rev1");
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 5560742..8e3a665 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -142,17 +143,21 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
-        if (samp_num > INT16_MAX)
+        if (samp_num < 0 || samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
 							"the number of samples is too much for "
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
-        double samp_int = get<int64_t>(v);
-        if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+        v = tr.header().get("SAMP_INT").value();
+        double samp_int;
+        if (holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
+        if (!(samp_int >= 1 && samp_int <= INT16_MAX))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
         else
-- 
2.43.0


From b013874afd8b09e0f39412ac002551366a70657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:09 +0000
Subject: [PATCH 19/73] fix: use extended number of samples when writing SEGY

---
 include/OSEGY.hpp |  1 +
 src/OSEGY.cpp     | 14 ++++++++++++++
 src/OSEGYRev0.cpp |  4 +---
 src/OSEGYRev1.cpp |  4 +---
 src/OSEGYRev2.cpp |  4 +---
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..b5ac22b 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -56,6 +56,7 @@ protected:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    void assign_samples_number();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index cec3a4c..1e92e9b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -36,6 +36,7 @@ public:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    void assign_samples_number();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
@@ -197,6 +198,18 @@ void OSEGY::Impl::assign_bytes_per_sample()
     }
 }
 
+void OSEGY::Impl::assign_samples_number()
+{
+    common.samp_per_tr = common.binary_header.ext_samp_per_tr ?
+	   	common.binary_header.ext_samp_per_tr :
+	   	static_cast<uint16_t>(common.binary_header.samp_per_tr);
+    if (common.samp_per_tr < 0)
+        throw Exception(__FILE__, __LINE__,
+						"negative number of samples per trace");
+    common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
+				common.samp_per_tr) * common.bytes_per_sample);
+}
+
 void OSEGY::Impl::assign_sample_writer()
 {
     switch (common.binary_header.format_code) {
@@ -503,6 +516,7 @@ CommonSEGY& OSEGY::common() { return pimpl->common; }
 void OSEGY::assign_raw_writers() { pimpl->assign_raw_writers(); }
 void OSEGY::assign_sample_writer() { pimpl->assign_sample_writer(); }
 void OSEGY::assign_bytes_per_sample() { pimpl->assign_bytes_per_sample(); }
+void OSEGY::assign_samples_number() { pimpl->assign_samples_number(); }
 void OSEGY::write_bin_header() { pimpl->write_bin_header(); }
 void OSEGY::write_ext_text_headers() { pimpl->write_ext_text_headers(); }
 void OSEGY::write_trailer_stanzas() { pimpl->write_trailer_stanzas(); }
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 03f1115..a2ba4e2 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -57,9 +57,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 	zero.format_code = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
-        sgy.common().samp_buf.resize(static_cast<uint16_t>(
-				sgy.common().binary_header.samp_per_tr) *
-			sgy.common().bytes_per_sample);
+        sgy.assign_samples_number();
         write_trace = [this](Trace& tr) {
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 0b60c27..bbf50ff 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -65,9 +65,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            sgy.assign_samples_number();
             write_trace = [this](Trace& tr) {
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 8e3a665..55dc6b0 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -79,9 +79,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            sgy.assign_samples_number();
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     sgy.write_trace_header(tr.header());
-- 
2.43.0


From 6713568cc652b34fc3720a8fbd8166f7ff88fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 20/73] fix: refuse SEGY traces with unexpected number of
 samples

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 30 ++++++++++++++++++++++++++++++
 src/OSEGYRev0.cpp |  3 +++
 src/OSEGYRev1.cpp |  3 +++
 src/OSEGYRev2.cpp |  5 +++++
 5 files changed, 43 insertions(+)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b5ac22b..4cfcda6 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -62,6 +62,8 @@ protected:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_samples_num_fix(Trace const& t);
+    void check_samples_num_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 1e92e9b..a75b295 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -42,6 +42,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_samples_num_fix(Trace const& t);
+    void check_samples_num_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
@@ -482,6 +484,26 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
+void OSEGY::Impl::check_samples_num_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample !=
+	   	common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"number of samples in trace differs from "
+						"number of samples per trace in file");
+}
+
+void OSEGY::Impl::check_samples_num_var(Trace const& t)
+{
+    //throw exception if trace header does not has a samples number
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
+    if (get<int64_t>(v) < 0 ||
+	   	static_cast<uint64_t>(get<int64_t>(v)) != t.samples().size())
+        throw Exception(__FILE__, __LINE__,
+						"number of samples in trace differs from "
+						"number of samples in trace header");
+}
+
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
     Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
@@ -528,6 +550,14 @@ void OSEGY::write_additional_trace_headers(Trace::Header const& hdr)
 {
     pimpl->write_additional_trace_headers(hdr);
 }
+void OSEGY::check_samples_num_fix(Trace const& t)
+{
+    pimpl->check_samples_num_fix(t);
+}
+void OSEGY::check_samples_num_var(Trace const& t)
+{
+    pimpl->check_samples_num_var(t);
+}
 void OSEGY::write_trace_samples_fix(Trace const& t)
 {
     pimpl->write_trace_samples_fix(t);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index a2ba4e2..b3ca1e4 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -59,6 +59,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 			   sizeof(CommonSEGY::BinaryHeader))) {
         sgy.assign_samples_number();
         write_trace = [this](Trace& tr) {
+            sgy.check_samples_num_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
@@ -66,6 +67,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
+                sgy.check_samples_num_var(tr);
                 Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num < 0 || samp_num > INT16_MAX)
@@ -90,6 +92,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 											 sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
             }
+            sgy.check_samples_num_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index bbf50ff..da8753f 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -67,11 +67,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.assign_samples_number();
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_num_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_num_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -80,6 +82,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 		//if we have empty bin header we can not assume that traces has
 		//fixed length
 		write_trace = [this](Trace& tr) {
+			sgy.check_samples_num_var(tr);
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 55dc6b0..99aabf6 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -82,24 +82,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             sgy.assign_samples_number();
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_num_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_num_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_num_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_num_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -139,6 +143,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 
 void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
+    sgy.check_samples_num_var(tr);
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
         Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
-- 
2.43.0


From 98c1608e770f2fc720fb8af60b557b5991aceac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 21/73] fix: sorted reading of SEGY without traces

---
 src/ISEGYSorted1D.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..93571dd 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,9 +34,10 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
-    vec_cur = map_cur->second.begin();
-    vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
+    if (map_cur != map_end) {
+        vec_cur = map_cur->second.begin();
+        vec_end = map_cur->second.end();
+    }
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
-- 
2.43.0


From 3f3aaf26a99211c082f45173e34b5fbafdbf35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 22/73] fix: copy and move of Exception

---
 src/Exception.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..67ac877 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,12 +42,14 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : exception(e)
+    , pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
+    : exception(e)
+    , pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl = move(e.pimpl);
 }
 Exception::Exception(string const& file_name, unsigned long long line_num,
     string const& message)
-- 
2.43.0


From 0c6479173809c3818a82a3eef7744bb980371d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:56 +0000
Subject: [PATCH 23/73] fix: do not compare padding of SEGY binary headers

---
 include/CommonSEGY.hpp | 1 +
 src/OSEGYRev0.cpp      | 4 +---
 src/OSEGYRev1.cpp      | 4 +---
 src/OSEGYRev2.cpp      | 4 +---
 4 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/CommonSEGY.hpp b/include/CommonSEGY.hpp
index 587220f..a9001b9 100644
--- a/include/CommonSEGY.hpp
+++ b/include/CommonSEGY.hpp
@@ -138,6 +138,7 @@ public:
             NUM_OF_TRAILER_STANZA
         };
         static char const* name_as_string(Name n);
+        bool operator==(BinaryHeader const&) const = default;
     } binary_header;
     ///
     /// \brief Transform text header from ebcdic to ascii.
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index b3ca1e4..bcf980d 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -55,8 +54,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!(sgy.common().binary_header == zero)) {
         sgy.assign_samples_number();
         write_trace = [this](Trace& tr) {
             sgy.check_samples_num_fix(tr);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index da8753f..c553ceb 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -62,8 +61,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	zero.SEGY_rev_major_ver = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!(sgy.common().binary_header == zero)) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.assign_samples_number();
             write_trace = [this](Trace& tr) {
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 99aabf6..e61611c 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -11,7 +11,6 @@ using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::optional;
 using std::pair;
@@ -76,8 +75,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	zero.SEGY_rev_major_ver = 2;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!(sgy.common().binary_header == zero)) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.assign_samples_number();
             if (sgy.common().binary_header.max_num_add_tr_headers)
-- 
2.43.0


From dfe0e63d4c2d63dd3aedaa27c1518ea261b150d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:09 +0000
Subject: [PATCH 24/73] fix: report the end of SEGY data when skipping bytes

---
 src/ISEGY.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 63f9c5d..ed073c5 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -146,6 +146,9 @@ void ISEGY::Impl::file_skip_bytes(streamoff off)
 {
     common.file.seekg(off, ios_base::cur);
     curr_pos = common.file.tellg();
+    // seek does not stop at the end of file, only reading does
+    if (curr_pos > end_of_data)
+        throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
 }
 
 void ISEGY::Impl::fill_bin_header(char const* buf, bool override_bin_hdr)
-- 
2.43.0


From 5c4123fe0f04882d02a65da93f47fd446f6b0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:12 +0000
Subject: [PATCH 25/73] fix: do not mix BCD digits with old contents of the
 buffer

---
 include/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util.hpp b/include/util.hpp
index 65db1be..fd7b94e 100644
--- a/include/util.hpp
+++ b/include/util.hpp
@@ -166,7 +166,7 @@ void to_bcd(char** buf, T val, bool skip_first, int num)
     bcd_dig = ((storage & bcd_dig_mask[num - 1]) >>
 			   shifts[num - 1]).to_ullong();
     if (skip_first) {
-        **buf |= bcd_dig;
+        **buf = (**buf & 0xf0) | bcd_dig;
         ++(*buf);
         --num;
     }
-- 
2.43.0


From 1706413d6a5534c9faf540162652f257d3f563d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 26/73] fix: initialize number of channels in written SEGD
 record

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..d4f76ee 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -25,7 +25,7 @@ using std::vector;
 namespace sedaman {
 class OSEGD::Impl {
 public:
-    uint64_t chans_in_record;
+    uint64_t chans_in_record { 0 };
     void assign_raw_writers();
     void assign_sample_writers();
     void write_general_header1();
-- 
2.43.0


From 264c4ffe7c84b92ce8db780e372cc7fc617480bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 27/73] fix: more than 99 channel sets in SEGD

---
 src/ISEGD.cpp       | 2 +-
 src/OSEGD.cpp       | 9 +++++++--
 src/OSEGDRev2_1.cpp | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..512a7b3 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -169,7 +169,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type ==	165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index d4f76ee..d3b545b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -217,7 +217,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type,
+			   false, 2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
@@ -822,7 +825,9 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        hdr.channel_set_number > 99 ?
+		   	(void)(*buf++ = static_cast<uint8_t>(0xff)) :
+		   	to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..d73f4dc 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type == 165 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
-- 
2.43.0


From ddc474a10873fbaaaaa4006a4ab1df0bf6f1f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 28/73] fix: reading of second general header of SEGD revision
 3

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 512a7b3..b03adcf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -386,9 +386,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From caf2eb10d22dd872fca9381a964be7b728962636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 29/73] fix: source offsets and size of SEGD revision 3 take
 two bytes

---
 src/ISEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index b03adcf..4e74c5c 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -582,10 +582,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -608,10 +608,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -633,10 +633,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -658,10 +658,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -683,10 +683,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -707,10 +707,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From 14fba123dd79521cb79b9557dfa2d737e96df6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 30/73] fix: size of serial number in SEGD sensor information
 block

---
 include/CommonSEGD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..439618c 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
-- 
2.43.0


From 3c74a24341a790a119ae4e34d5f6b5acb043f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 31/73] fix: extended trace number of SEGD revision 3

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 4e74c5c..c55ff3e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1341,8 +1341,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From cebde7ec83e20f2f674a2023a11767fc3d3a6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 32/73] fix: offset of uint64_t values in SEGD trace header
 extension

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c55ff3e..d867b6d 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1302,7 +1302,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From c53899f7579d4940cbfffc0acf62936f66aabd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 33/73] fix: size of serial number of SEGD sensor in python
 bindings

---
 src/pybind/pybind.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 87a3708..e897da5 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -935,10 +935,10 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSen_py.def_property(
       "serial_number",
       [](CommonSEGD::GeneralHeaderSen &h) {
-        return string(h.serial_number, 28);
+        return string(h.serial_number, sizeof(h.serial_number));
       },
       [](CommonSEGD::GeneralHeaderSen &h, string &s) {
-        strncpy(h.serial_number, s.c_str(), 28);
+        strncpy(h.serial_number, s.c_str(), sizeof(h.serial_number));
       });
   GeneralHeaderSen_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderSen::gen_hdr_block_type);
-- 
2.43.0


From 0bb845db99e29f333a89a14264a8a60e8c8a7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 34/73] fix: check SEGD trace header extension maps

---
 src/CommonSEGD.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..348568a 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -18,6 +18,32 @@ using std::unique_ptr;
 using std::vector;
 
 namespace sedaman {
+static uint32_t value_size(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+    case Trace::Header::ValueType::uint8_t:
+        return 1;
+    case Trace::Header::ValueType::int16_t:
+    case Trace::Header::ValueType::uint16_t:
+        return 2;
+    case Trace::Header::ValueType::int24_t:
+    case Trace::Header::ValueType::uint24_t:
+        return 3;
+    case Trace::Header::ValueType::int32_t:
+    case Trace::Header::ValueType::uint32_t:
+    case Trace::Header::ValueType::ibm:
+    case Trace::Header::ValueType::ieee_single:
+        return 4;
+    case Trace::Header::ValueType::int64_t:
+    case Trace::Header::ValueType::uint64_t:
+    case Trace::Header::ValueType::ieee_double:
+        return 8;
+    }
+    throw Exception(__FILE__, __LINE__,
+        "impossible, unexpected type in TrHdrValueType");
+}
+
 CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     GeneralHeader gh, GeneralHeader2 gh2, GeneralHeader3 gh3,
     vector<shared_ptr<AdditionalGeneralHeader>> add_ghs,
@@ -37,6 +63,19 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    for (auto& hdr_map : trace_header_extension) {
+        uint64_t end = 0;
+        for (auto& item : hdr_map) {
+            if (item.first < end)
+                throw Exception(__FILE__, __LINE__,
+                    "overlapping type/offset in trace header extension map");
+            end = static_cast<uint64_t>(item.first) +
+                value_size(item.second.second);
+            if (end > TRACE_HEADER_EXT_SIZE)
+                throw Exception(__FILE__, __LINE__,
+                    "field of trace header extension map is out of bounds");
+        }
+    }
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
-- 
2.43.0


From 6db5dbdc17cced13f996df988aea642fa20fba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 35/73] fix: more SEGD trace header extensions than maps

---
 src/ISEGD.cpp | 3 +++
 src/OSEGD.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d867b6d..b6f6e9d 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1271,6 +1271,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // there could be more extensions in file than provided maps
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index d3b545b..f4c1d56 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -929,7 +929,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     for (int i = 0; i < ext_hdr_blks; ++i) {
         std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
-        if (common.trace_header_extension.size()) {
+        if (static_cast<size_t>(i) < common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
@@ -978,7 +978,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     break;
                 }
             }
-        } else if (i == 0) {
+        } else if (common.trace_header_extension.empty() && i == 0) {
             char* buf = common.trc_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
-- 
2.43.0


From ddf94a728c082491095cfdbe33837fcb411a3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 36/73] fix: SEGD traces with channel set which is not in the
 record

---
 src/ISEGD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index b6f6e9d..efcd7d4 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1359,9 +1359,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    size_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]);
+    size_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]);
+    if (scan_type - 1 >= common.channel_sets.size() ||
+        ch_set - 1 >= common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to channel set which is not in the record");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+	   	common.channel_sets[scan_type - 1][ch_set - 1];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
-- 
2.43.0


From 5296fb3c2fea5f981534442b62f2dcd0fd7e109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 37/73] fix: overflow of SEGD trace size and traces bigger than
 file

---
 src/ISEGD.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index efcd7d4..d5cf452 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1373,8 +1373,16 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t bits_num = static_cast<uint64_t>(samp_num) *
+        common.bits_per_sample;
+    // samples of 8015 are stored in groups of four
+    if (common.general_header.format_code == 8015 && samp_num % 4)
+        throw Exception(__FILE__, __LINE__,
+            "number of samples in format 8015 is not divisible by 4");
+    if (bits_num / 8 > static_cast<uint64_t>(end_of_data - curr_pos))
+        throw Exception(__FILE__, __LINE__,
+            "unexpected end of file in trace samples");
+    common.trc_samp_buf.resize(bits_num / 8);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From 12a2fb50bb73457f4ca1776dbbbac522e7df87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 38/73] fix: decoding of SEGD samples

---
 src/ISEGD.cpp | 73 +++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d5cf452..422847e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -920,39 +920,45 @@ void ISEGD::Impl::assign_sample_reading()
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
-        read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
+        read_sample = [this, result = array<double, 4> {}, counter = 0]
+            (char const** buf) mutable {
             if (counter == 4)
                 counter = 0;
             if (!counter) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t byte = read_u8(buf);
+                    exp[i] = byte >> 4;
+                    exp[i + 1] = byte & 0xf;
+                }
+                for (int i = 0; i < 4; ++i) {
+                    // one's complement, the last bit is not used
+                    int frac = read_i16(buf);
+                    frac = frac < 0 ? -(~frac & ~1) : frac & ~1;
+                    result[i] = frac * pow(2, exp[i] - 15);
                 }
-                for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
             }
             return result[counter++];
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            // quaternary exponent and one's complement fraction
+            uint8_t byte = read_u8(buf);
+            int exp = byte >> 4 & 0b111;
+            int frac = byte & 0b10000000 ? -(~byte & 0xf) : byte & 0xf;
+            return frac / pow(2, 4) * pow(4, exp);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            // quaternary exponent and one's complement fraction
+            uint16_t val = read_u16(buf);
+            int exp = val >> 12 & 0b111;
+            int frac = val & 0x8000 ? -(~val & 0xfff) : val & 0xfff;
+            return frac / pow(2, 12) * pow(4, exp);
         };
         break;
     case 8036:
@@ -965,29 +971,25 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint8_t byte = read_u8(buf);
+            int sign = byte & 0b10000000 ? -1 : 1;
+            int exp = byte >> 5 & 0b11;
+            return sign * (byte & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = val >> 13 & 0b11;
+            return sign * (val & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
@@ -1014,9 +1016,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= static_cast<uint32_t>(read<uint8_t>(buf)) << 16;
+                return static_cast<int32_t>(result & 0x800000 ?
+                    result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0


From c61d0768d1f7c2b221c02d091d70db8307f65af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 39/73] fix: skip general trailer after the last trace of SEGD
 record

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 422847e..d3a731a 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -142,6 +142,7 @@ Trace ISEGD::read_trace()
     vector<double> samples = pimpl->read_trace_samples(hdr);
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
+        pimpl->read_trailer();
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         if (has_record())
@@ -1411,7 +1412,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From 68e01e97a03c1d88d1d363e4254d262433d3c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 40/73] fix: report the end of SEGD data when skipping bytes

---
 src/ISEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d3a731a..2709dc6 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1404,6 +1404,8 @@ void ISEGD::Impl::fill_buf_from_file(char* buf, streamsize n)
 
 void ISEGD::Impl::file_skip_bytes(streamoff off)
 {
+    if (off > end_of_data - curr_pos)
+        throw Exception(__FILE__, __LINE__, "unexpected end of file");
     common.file.seekg(off, ios_base::cur);
     curr_pos = common.file.tellg();
 }
-- 
2.43.0


From 54db31671462f24d9e4ceafd4677a75fa9385ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 41/73] fix: do not mix general headers of SEGD records

---
 src/ISEGD.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 2709dc6..384cd7c 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -286,6 +286,10 @@ void ISEGD::Impl::read_general_headers()
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
+    // every record has its own headers
+    common.general_header2 = {};
+    common.general_header3 = {};
+    common.add_gen_hdr_blks_map.clear();
     if (common.general_header.add_gen_hdr_blocks) {
         fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
         char const* buf = common.gen_hdr_buf;
-- 
2.43.0


From 4a5da9646dd3eeaf9a899c53a99ec91b792e7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 42/73] fix: do not confuse SEGD general headers N with blocks
 of revision 3

---
 include/CommonSEGD.hpp |  3 ++
 src/CommonSEGD.cpp     | 63 +++++++++++++++++++++++-------------------
 src/ISEGD.cpp          |  4 +--
 src/OSEGD.cpp          |  3 ++
 4 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 439618c..d25fcdc 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1529,6 +1529,9 @@ public:
     };
     static constexpr int GEN_HDR_SIZE = 32;
     static constexpr int GEN_TRLR_SIZE = 32;
+    // block numbers of general headers N (rev 2) are stored in the map of
+    // additional headers after all block types (rev 3)
+    static constexpr int GENERAL_HEADER_N = 0x100;
     static constexpr int CH_SET_HDR_SIZE = 32;
     static constexpr int CH_SET_HDR_R3_SIZE = 96;
     static constexpr int SKEW_BLOCK_SIZE = 32;
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 348568a..02b1287 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -81,140 +81,147 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        if (!item)
+            throw Exception(__FILE__, __LINE__,
+                "there is no additional general header");
+        // block numbers of rev 2 could be equal to block types of rev 3
+        if (auto ghn = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[GENERAL_HEADER_N + ghn->gen_hdr_block_num] =
+                make_unique<GeneralHeaderN>(*ghn);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
 			   	make_unique<GeneralHeaderVes>(
-					*dynamic_cast<GeneralHeaderVes*>(item.get()));
+					dynamic_cast<GeneralHeaderVes&>(*item));
             break;
         case AdditionalGeneralHeader::SURVEY_AREA_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SURVEY_AREA_NAME] =
 			   	make_unique<GeneralHeaderSur>(
-					*dynamic_cast<GeneralHeaderSur*>(item.get()));
+					dynamic_cast<GeneralHeaderSur&>(*item));
             break;
         case AdditionalGeneralHeader::CLIENT_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::CLIENT_NAME] =
 			   	make_unique<GeneralHeaderCli>(
-					*dynamic_cast<GeneralHeaderCli*>(item.get()));
+					dynamic_cast<GeneralHeaderCli&>(*item));
             break;
         case AdditionalGeneralHeader::JOB_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::JOB_ID] =
 			   	make_unique<GeneralHeaderJob>(
-					*dynamic_cast<GeneralHeaderJob*>(item.get()));
+					dynamic_cast<GeneralHeaderJob&>(*item));
             break;
         case AdditionalGeneralHeader::LINE_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::LINE_ID] =
 			   	make_unique<GeneralHeaderLin>(
-					*dynamic_cast<GeneralHeaderLin*>(item.get()));
+					dynamic_cast<GeneralHeaderLin&>(*item));
             break;
         case AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderVib>(
-					*dynamic_cast<GeneralHeaderVib*>(item.get()));
+					dynamic_cast<GeneralHeaderVib&>(*item));
             break;
         case AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderExp>(
-					*dynamic_cast<GeneralHeaderExp*>(item.get()));
+					dynamic_cast<GeneralHeaderExp&>(*item));
             break;
         case AdditionalGeneralHeader::AIRGUN_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::AIRGUN_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAir>(
-					*dynamic_cast<GeneralHeaderAir*>(item.get()));
+					dynamic_cast<GeneralHeaderAir&>(*item));
             break;
         case AdditionalGeneralHeader::WATERGUN_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::WATERGUN_SOURCE_INFO]	=
 			   	make_unique<GeneralHeaderWat>(
-					*dynamic_cast<GeneralHeaderWat*>(item.get()));
+					dynamic_cast<GeneralHeaderWat&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE] =
 			   	make_unique<GeneralHeaderEle>(
-					*dynamic_cast<GeneralHeaderEle*>(item.get()));
+					dynamic_cast<GeneralHeaderEle&>(*item));
             break;
         case AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO] =
 			   	make_unique<GeneralHeaderOth>(
-					*dynamic_cast<GeneralHeaderOth*>(item.get()));
+					dynamic_cast<GeneralHeaderOth&>(*item));
             break;
         case AdditionalGeneralHeader::ADD_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ADD_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAdd>(
-					*dynamic_cast<GeneralHeaderAdd*>(item.get()));
+					dynamic_cast<GeneralHeaderAdd&>(*item));
             break;
         case AdditionalGeneralHeader::SOU_AUX_CHAN_REF:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SOU_AUX_CHAN_REF] =
 			   	make_unique<GeneralHeaderSaux>(
-					*dynamic_cast<GeneralHeaderSaux*>(item.get()));
+					dynamic_cast<GeneralHeaderSaux&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK] =
 			   	make_unique<GeneralHeaderSen>(
-					*dynamic_cast<GeneralHeaderSen*>(item.get()));
+					dynamic_cast<GeneralHeaderSen&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK]
 			   	= make_unique<GeneralHeaderSCa>(
-					*dynamic_cast<GeneralHeaderSCa*>(item.get()));
+					dynamic_cast<GeneralHeaderSCa&>(*item));
             break;
         case AdditionalGeneralHeader::TIME_DRIFT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::TIME_DRIFT_BLK] =
 			   	make_unique<GeneralHeaderTim>(
-					*dynamic_cast<GeneralHeaderTim*>(item.get()));
+					dynamic_cast<GeneralHeaderTim&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK] =
 			   	make_unique<GeneralHeaderElSR>(
-					*dynamic_cast<GeneralHeaderElSR*>(item.get()));
+					dynamic_cast<GeneralHeaderElSR&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK1:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK1] =
 			   	make_unique<GeneralHeaderPos1>(
-					*dynamic_cast<GeneralHeaderPos1*>(item.get()));
+					dynamic_cast<GeneralHeaderPos1&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK2:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK2] =
 			   	make_unique<GeneralHeaderPos2>(
-					*dynamic_cast<GeneralHeaderPos2*>(item.get()));
+					dynamic_cast<GeneralHeaderPos2&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK3:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK3] =
 			   	make_unique<GeneralHeaderPos3>(
-					*dynamic_cast<GeneralHeaderPos3*>(item.get()));
+					dynamic_cast<GeneralHeaderPos3&>(*item));
             break;
         case AdditionalGeneralHeader::COORD_REF_SYSTEM:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::COORD_REF_SYSTEM] =
 			   	make_unique<GeneralHeaderCoord>(
-					*dynamic_cast<GeneralHeaderCoord*>(item.get()));
+					dynamic_cast<GeneralHeaderCoord&>(*item));
             break;
         case AdditionalGeneralHeader::RELATIVE_POS_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::RELATIVE_POS_BLK] =
 			   	make_unique<GeneralHeaderRel>(
-					*dynamic_cast<GeneralHeaderRel*>(item.get()));
+					dynamic_cast<GeneralHeaderRel&>(*item));
             break;
         case AdditionalGeneralHeader::ORIENT_HDR_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ORIENT_HDR_BLK] =
 			   	make_unique<GeneralHeaderOri>(
-					*dynamic_cast<GeneralHeaderOri*>(item.get()));
+					dynamic_cast<GeneralHeaderOri&>(*item));
             break;
         case AdditionalGeneralHeader::MEASUREMENT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::MEASUREMENT_BLK] =
 			   	make_unique<GeneralHeaderMeas>(
-					*dynamic_cast<GeneralHeaderMeas*>(item.get()));
+					dynamic_cast<GeneralHeaderMeas&>(*item));
             break;
-        // for GeneralHeaderN from rev 2
         default:
-            add_gen_hdr_blks_map[item->type()] = make_unique<GeneralHeaderN>(
-                *dynamic_cast<GeneralHeaderN*>(item.get()));
-            break;
+            throw Exception(__FILE__, __LINE__,
+                "unexpected type of additional general header");
         }
     }
 }
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 384cd7c..9bcbacf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -377,8 +377,8 @@ void ISEGD::Impl::read_rev2_add_gen_hdr_blks(char const* buf)
     ghN.phase_angle = read_i16(&buf);
     ghN.gen_hdr_block_num = read_u8(&buf);
     ghN.sou_set_num = read_u8(&buf);
-    common.add_gen_hdr_blks_map[static_cast<CommonSEGD::
-		AdditionalGeneralHeader::ADD_GEN_HDR_BLKS>(ghN.gen_hdr_block_num)] =
+    common.add_gen_hdr_blks_map[CommonSEGD::GENERAL_HEADER_N +
+        ghN.gen_hdr_block_num] =
 	   	make_unique<CommonSEGD::GeneralHeaderN>(ghN);
 }
 
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index f4c1d56..5176e25 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -261,6 +261,9 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         memset(buf, 0, CommonSEGD::GEN_HDR_SIZE);
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
+        if (!hdr)
+            throw Exception(__FILE__, __LINE__,
+                "only general headers N could be written to SEGD rev 2");
         write_u24(&buf, hdr->expanded_file_number);
         uint32_t integer = hdr->sou_line_num;
         double frac = hdr->sou_line_num - integer;
-- 
2.43.0


From 07c63dde01933b6f083c3c852e5e83f5e97091be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 43/73] fix: truncation of SEGD filter delay

---
 src/CommonSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 02b1287..9cc14d3 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -317,7 +317,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From 626cc8bae7d662b8b1d5901f4132f37260d1585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 44/73] fix: SEGD channel sets before revision 3 have no fields
 of revision 3

---
 src/ISEGD.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 9bcbacf..40a54c2 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1120,6 +1120,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
-- 
2.43.0


From d5fbecdef57debd52efe551dd48e6e279af7ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 45/73] fix: names of SEGD orientation header fields

---
 include/CommonSEGD.hpp | 3 +--
 src/CommonSEGD.cpp     | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d25fcdc..b2e7e53 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1362,8 +1362,7 @@ public:
             ORIENT_TYPE,
             REF_ORIENT_VALID,
             ROTATION_APPLIED,
-            ROT_NORTH,
-            APPLIED,
+            ROT_NORTH_APPLIED,
             GEN_HEADER_TYPE
         };
         ///
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 9cc14d3..7e96371 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -782,6 +782,7 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From 687229888c749e2ac5455c116f0f70491e4f9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:48 +0000
Subject: [PATCH 46/73] fix: write SEGD trace header extension through buffer
 of its size

---
 src/OSEGD.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 5176e25..61c1ce3 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -930,7 +930,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
         if (static_cast<size_t>(i) < common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
@@ -938,7 +938,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -982,7 +982,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 }
             }
         } else if (common.trace_header_extension.empty() && i == 0) {
-            char* buf = common.trc_hdr_buf;
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1059,7 +1059,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From 1eb6f7e8998c5e1d09e33c82a3f7472b9337a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:48 +0000
Subject: [PATCH 47/73] fix: do not convert negative SEGD values to unsigned
 types

---
 src/OSEGD.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 61c1ce3..faed331 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -46,15 +46,15 @@ public:
 private:
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
     function<void(char**, double)> write_IEEE_double;
@@ -108,7 +108,7 @@ void OSEGD::Impl::assign_raw_writers()
         };
         write_u32 = [](char** buf, uint32_t val)
 	   	{ write<uint32_t>(buf, val); };
-        write_u32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
+        write_i32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
         write_u64 = [](char** buf, uint64_t val)
 	   	{ write<uint64_t>(buf, val); };
         write_i64 = [](char** buf, int64_t val)
@@ -265,11 +265,12 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
             throw Exception(__FILE__, __LINE__,
                 "only general headers N could be written to SEGD rev 2");
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        // fraction is always positive
+        double integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From 4729b2c9c5c52975782b77b323002f72205d818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:48 +0000
Subject: [PATCH 48/73] fix: encoding of SEGD samples

---
 src/OSEGD.cpp | 136 ++++++++++++++++++++++++++------------------------
 1 file changed, 72 insertions(+), 64 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index faed331..c30ba3b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1,12 +1,14 @@
 #include "OSEGD.hpp"
 #include "Exception.hpp"
 #include "util.hpp"
+#include <array>
 #include <cfloat>
 #include <cmath>
 #include <functional>
 #include <type_traits>
 
 using std::abs;
+using std::array;
 using std::endian;
 using std::fstream;
 using std::function;
@@ -23,6 +25,32 @@ using std::shared_ptr;
 using std::vector;
 
 namespace sedaman {
+// finds the smallest exponent with which rounded fraction fits
+static uint32_t to_exp_and_frac(double val, int radix_bits, int max_exp,
+                                int frac_bits, uint32_t& exp)
+{
+    double max_frac = (1 << frac_bits) - 1;
+    double abs_val = val == val ? abs(val) : 0;
+    exp = 0;
+    double frac = round(ldexp(abs_val, frac_bits));
+    while (frac > max_frac && exp < static_cast<uint32_t>(max_exp)) {
+        ++exp;
+        frac = round(ldexp(abs_val, frac_bits - static_cast<int>(exp) *
+                           radix_bits));
+    }
+    // too big values become the biggest one
+    return frac < max_frac ? frac : max_frac;
+}
+
+// nearest integer with specified number of bits
+static int32_t to_integer(double val, int bits)
+{
+    double max = pow(2, bits - 1) - 1;
+    if (val != val)
+        return 0;
+    return round(val < -max - 1 ? -max - 1 : val > max ? max : val);
+}
+
 class OSEGD::Impl {
 public:
     uint64_t chans_in_record { 0 };
@@ -173,13 +201,9 @@ void OSEGD::Impl::assign_raw_writers()
     }
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
-        double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
-        write_u32(buf, result);
+        uint32_t exp;
+        uint32_t fraction = to_exp_and_frac(ldexp(val, 256), 4, 127, 24, exp);
+        write_u32(buf, sign << 31 | exp << 24 | fraction);
     };
 }
 
@@ -1098,96 +1122,79 @@ void OSEGD::Impl::assign_sample_writers()
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
-        write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
+        write_sample = [this, result = array<double, 4> {}, counter = 0]
+            (char** buf, double val) mutable {
             result[counter++] = val;
             if (counter == 4) {
                 counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
+                uint32_t exp[4], frac[4];
                 for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
+                    // one's complement, the last bit is not used
+                    frac[i] = to_exp_and_frac(result[i], 1, 15, 14, exp[i])
+                        << 1;
+                    if (frac[i] && result[i] < 0)
+                        frac[i] = ~frac[i] & 0xfffe;
                 }
+                for (int i = 0; i < 4; i += 2)
+                    write_u8(buf, exp[i] << 4 | exp[i + 1]);
                 for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                    write_u16(buf, frac[i]);
             }
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            // quaternary exponent and one's complement fraction
+            uint32_t exp;
+            uint32_t frac = to_exp_and_frac(val, 2, 7, 4, exp);
+            if (frac && val < 0)
+                frac = (~frac & 0xf) | 0x80;
+            write_u8(buf, exp << 4 | frac);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            // quaternary exponent and one's complement fraction
+            uint32_t exp;
+            uint32_t frac = to_exp_and_frac(val, 2, 7, 12, exp);
+            if (frac && val < 0)
+                frac = (~frac & 0xfff) | 0x8000;
+            write_u16(buf, exp << 12 | frac);
         };
         break;
     case 8036:
         common.bits_per_sample = 24;
-        write_sample = [this](char** buf, double val) { write_i24(buf, val); };
+        write_sample = [this](char** buf, double val)
+            { write_i24(buf, to_integer(val, 24)); };
         break;
     case 8038:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) { write_i32(buf, val); };
+        write_sample = [this](char** buf, double val)
+            { write_i32(buf, to_integer(val, 32)); };
         break;
     case 8042:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
+        write_sample = [this](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+            uint32_t exp;
+            uint32_t frac = to_exp_and_frac(val, 4, 3, 5, exp);
+            write_u8(buf, sign << 7 | exp << 5 | frac);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
+            uint32_t exp;
+            uint32_t frac = to_exp_and_frac(val, 4, 3, 13, exp);
             write_u16(buf, sign << 15 | exp << 13 | frac);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
-        };
+        write_sample = write_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
@@ -1210,21 +1217,22 @@ void OSEGD::Impl::assign_sample_writers()
         common.bits_per_sample = 24;
         if (endian::native == endian::big)
             write_sample = [this](char** buf, double val)
-		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
+		   	{ return write_i24(buf, swap(to_integer(val, 24))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t integer = to_integer(val, 24);
+                write<int16_t>(buf, integer);
+                write<int8_t>(buf, integer >> 16);
             };
         break;
     case 9038:
         common.bits_per_sample = 32;
         if (endian::native == endian::big)
             write_sample = [this](char** buf, double val)
-		   	{ return write_i32(buf, swap(static_cast<int32_t>(val))); };
+		   	{ return write_i32(buf, swap(to_integer(val, 32))); };
         else
             write_sample = [](char** buf, double val)
-		   	{ return write<int32_t>(buf, val); };
+		   	{ return write<int32_t>(buf, to_integer(val, 32)); };
         break;
     case 9058:
         common.bits_per_sample = 32;
-- 
2.43.0


From ee3d0241dc929b0c5cd57daae027da2f5096d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 49/73] fix: writing of SEGD base scan interval, polarity,
 scans in block and record type

---
 src/OSEGD.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c30ba3b..5731e0e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -224,18 +224,20 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
-    to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
-    *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
+                                  pow(2, 4));
+    // the smallest exponent with which number of scans fits one byte
+    int exp = 0;
+    while (exp < 0x0f && common.general_header.scans_per_block >> exp > 0xff)
+        ++exp;
+    *ptr++ = common.general_header.polarity << 4 | exp;
+    *ptr++ = common.general_header.scans_per_block >> exp;
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
         (static_cast<unsigned>(common.general_header.record_type) << 12));
     } else {
-        to_bcd(&ptr, common.general_header.record_type, false, 1);
+        *ptr = common.general_header.record_type << 4;
         to_bcd(&ptr, common.general_header.record_length, true, 3);
     }
     common.general_header.scan_types_per_record > 99 ?
-- 
2.43.0


From 2e3dec0eaf352c1344de5f2ea7f19cf6aa538ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 50/73] fix: writing of SEGD descale multiplier, channel type,
 subscans and gain

---
 src/OSEGD.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 5731e0e..65d891c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -861,14 +861,13 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-        to_bcd(&buf, hdr.channel_type, false, 1);
-        ++buf;
-        to_bcd(&buf, log2(hdr.subscans_per_ch_set), false, 1);
-        to_bcd(&buf, hdr.channel_gain, true, 1);
+        *buf++ = hdr.channel_type << 4;
+        *buf++ = static_cast<int>(log2(hdr.subscans_per_ch_set)) << 4 |
+            (hdr.channel_gain & 0x0f);
         to_bcd(&buf, hdr.alias_filter_freq, false, 4);
         to_bcd(&buf, hdr.alias_filter_slope, false, 4);
         to_bcd(&buf, hdr.low_cut_filter_freq, false, 4);
-- 
2.43.0


From ed34af9f46332c30008cfa242e40de58ddd898a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 51/73] fix: conversion of SEGD trace header values

---
 src/OSEGD.cpp | 128 ++++++++++++++++++++++++++++----------------------
 1 file changed, 73 insertions(+), 55 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 65d891c..24ee5eb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -51,6 +51,24 @@ static int32_t to_integer(double val, int bits)
     return round(val < -max - 1 ? -max - 1 : val > max ? max : val);
 }
 
+static double to_double(Trace::Header::Value const& v)
+{
+    if (holds_alternative<int64_t>(v))
+        return get<int64_t>(v);
+    return get<double>(v);
+}
+
+static int64_t to_int(Trace::Header::Value const& v)
+{
+    if (holds_alternative<int64_t>(v))
+        return get<int64_t>(v);
+    double d = get<double>(v);
+    // values which do not fit have undefined result of conversion
+    if (!(d > -0x1p63))
+        return d == d ? INT64_MIN : 0;
+    return d < 0x1p63 ? static_cast<int64_t>(d) : INT64_MAX;
+}
+
 class OSEGD::Impl {
 public:
     uint64_t chans_in_record { 0 };
@@ -920,40 +938,40 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     char* buf = common.trc_hdr_buf;
     memset(buf, 0, CommonSEGD::TRACE_HEADER_SIZE);
     optional<Trace::Header::Value> ffid = hdr.get("FFID");
-    if (ffid && get<int64_t>(*ffid) > 9999)
+    if (ffid && to_int(*ffid) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
+        to_bcd(&buf, ffid ? to_int(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
+    to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 2);
     optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    if (ch_set && to_int(*ch_set) > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, to_int(*ch_set), false, 2);
     tmp = hdr.get("CHAN");
-    if (tmp && get<int64_t>(*tmp) > 9999)
+    if (tmp && to_int(*tmp) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 4);
+        to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 4);
     tmp = hdr.get("FIRST_TIMING_WORD");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, tmp ? to_int(to_double(*tmp) * pow(2, 8)) : 0);
     tmp = hdr.get("TR_HDR_EXT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = tmp ? to_int(to_double(*tmp) * pow(2, 8)) : 0;
     tmp = hdr.get("TRACE_EDIT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
-    write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
+    write_u24(&buf, tmp ? to_int(to_double(*tmp) * pow(2, 8)) : 0);
+    write_u16(&buf, ch_set && to_int(*ch_set) < 100 ? 0 : to_int(*ch_set));
+    write_u24(&buf, ffid ? to_int(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
 
 void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 {
-    uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
+    uint8_t ext_hdr_blks = to_int(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
         std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
@@ -967,43 +985,43 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
-                    write_i8(&pos, get<int64_t>(*tmp));
+                    write_i8(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint8_t:
-                    write_u8(&pos, get<int64_t>(*tmp));
+                    write_u8(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int16_t:
-                    write_i16(&pos, get<int64_t>(*tmp));
+                    write_i16(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint16_t:
-                    write_u16(&pos, get<int64_t>(*tmp));
+                    write_u16(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int24_t:
-                    write_i24(&pos, get<int64_t>(*tmp));
+                    write_i24(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint24_t:
-                    write_u24(&pos, get<int64_t>(*tmp));
+                    write_u24(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int32_t:
-                    write_i32(&pos, get<int64_t>(*tmp));
+                    write_i32(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint32_t:
-                    write_u32(&pos, get<int64_t>(*tmp));
+                    write_u32(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int64_t:
-                    write_i64(&pos, get<int64_t>(*tmp));
+                    write_i64(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    write_u64(&pos, get<int64_t>(*tmp));
+                    write_u64(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::ibm:
-                    write_ibm_float(&pos, get<double>(*tmp));
+                    write_ibm_float(&pos, to_double(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_single:
-                    write_IEEE_float(&pos, get<double>(*tmp));
+                    write_IEEE_float(&pos, to_double(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_double:
-                    write_IEEE_double(&pos, get<double>(*tmp));
+                    write_IEEE_double(&pos, to_double(*tmp));
                     break;
                 }
             }
@@ -1013,46 +1031,46 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             double r_line;
             int64_t r_line_int;
             if (tmp && holds_alternative<double>(*tmp)) {
-                r_line = tmp ? get<double>(*tmp) : 0;
-                r_line_int = r_line;
+                r_line = get<double>(*tmp);
+                r_line_int = to_int(floor(r_line));
             } else {
-                r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_line_int = tmp ? to_int(*tmp) : 0;
                 r_line = r_line_int;
             }
-            write_u24(&buf, r_line);
+            write_u24(&buf, r_line_int);
             tmp = hdr.get("R_POINT");
             double r_point;
             int64_t r_point_int;
             if (tmp && holds_alternative<double>(*tmp)) {
-                r_point = tmp ? get<double>(*tmp) : 0;
-                r_point_int = r_point;
+                r_point = get<double>(*tmp);
+                r_point_int = to_int(floor(r_point));
             } else {
-                r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_point_int = tmp ? to_int(*tmp) : 0;
                 r_point = r_point_int;
             }
-            write_u24(&buf, r_point);
+            write_u24(&buf, r_point_int);
             tmp = hdr.get("R_POINT_IDX");
-            *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+            *buf++ = tmp ? to_int(*tmp) : 0;
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("SAMP_NUM");
-                write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u24(&buf, tmp ? to_int(*tmp) : 0);
             } else {
                 tmp = hdr.get("RESHOOT_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 tmp = hdr.get("GROUP_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 tmp = hdr.get("DEPTH_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("R_LINE");
                 double r_line;
                 int64_t r_line_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
-                    r_line = tmp ? get<double>(*tmp) : 0;
-                    r_line_int = r_line;
+                    r_line = get<double>(*tmp);
+                    r_line_int = to_int(floor(r_line));
                 } else {
-                    r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_line_int = tmp ? to_int(*tmp) : 0;
                     r_line = r_line_int;
                 }
                 write_u24(&buf, r_line_int);
@@ -1061,28 +1079,28 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 double r_point;
                 int64_t r_point_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
-                    r_point = tmp ? get<double>(*tmp) : 0;
-                    r_point_int = r_point;
+                    r_point = get<double>(*tmp);
+                    r_point_int = to_int(floor(r_point));
                 } else {
-                    r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_point_int = tmp ? to_int(*tmp) : 0;
                     r_point = r_point_int;
                 }
                 write_u24(&buf, r_point_int);
                 write_u16(&buf, (r_point - r_point_int) * pow(2, 16));
                 tmp = hdr.get("SENSOR_TYPE");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 2) {
                 tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && get<int64_t>(*tmp) > 9999)
-                    write_u24(&buf, get<int64_t>(*tmp));
+                if (tmp && to_int(*tmp) > 9999)
+                    write_u24(&buf, to_int(*tmp));
                 tmp = hdr.get("SAMP_NUM");
-                write_u32(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u32(&buf, tmp ? to_int(*tmp) : 0);
                 tmp = hdr.get("SENSOR_MOVING");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 ++buf;
                 tmp = hdr.get("PHYSICAL_UNIT");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
         }
         common.file.write(common.trc_ext_hdr_buf,
@@ -1103,13 +1121,13 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     if (tmp == std::nullopt)
         scan_type = 1;
     else
-        scan_type = get<int64_t>(*tmp);
+        scan_type = to_int(*tmp);
     uint16_t ch_set;
     tmp = trc.header_const().get("CH_SET_NUM");
     if (tmp == std::nullopt)
         ch_set = 1;
     else
-        ch_set = get<int64_t>(*tmp);
+        ch_set = to_int(*tmp);
     double descale = common.channel_sets[scan_type - 1][ch_set - 1]
     .descale_multiplier;
     descale = pow(2, descale);
-- 
2.43.0


From fd2d72a8d4c8ea6aa179a291f0c1adf8808dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:02 +0000
Subject: [PATCH 52/73] fix: writing of SEGD traces without number of channel
 set

---
 src/OSEGD.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 24ee5eb..12c82c2 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -943,12 +943,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, ffid ? to_int(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && to_int(*ch_set) > 99)
+    to_bcd(&buf, tmp ? to_int(*tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? to_int(*tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, to_int(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && to_int(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -964,7 +965,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? to_int(to_double(*tmp) * pow(2, 8)) : 0);
-    write_u16(&buf, ch_set && to_int(*ch_set) < 100 ? 0 : to_int(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? to_int(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
-- 
2.43.0


From 8e62402362e0b3147769d9cc501d5171cbd21f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:02 +0000
Subject: [PATCH 53/73] fix: check SEGD trace before writing any part of it

---
 include/OSEGD.hpp   |  1 +
 src/OSEGD.cpp       | 37 +++++++++++++++++++++++++++++++++++++
 src/OSEGDRev2_1.cpp |  1 +
 3 files changed, 39 insertions(+)

diff --git a/include/OSEGD.hpp b/include/OSEGD.hpp
index 4bd7b49..b0c210d 100644
--- a/include/OSEGD.hpp
+++ b/include/OSEGD.hpp
@@ -74,6 +74,7 @@ protected:
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
+    void check_trace(Trace const& trc);
     uint64_t chans_in_record();
 
 private:
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 12c82c2..149b76f 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -83,6 +83,7 @@ public:
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
+    void check_trace(Trace const& trc);
     Impl(CommonSEGD com)
         : common { move(com) }
     {
@@ -1109,6 +1110,41 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     }
 }
 
+void OSEGD::Impl::check_trace(Trace const& trc)
+{
+    Trace::Header const& hdr = trc.header_const();
+    size_t scan_type = to_int(hdr.get("SCAN_TYPE_NUM").value_or(1));
+    size_t ch_set = to_int(hdr.get("CH_SET_NUM").value_or(1));
+    if (scan_type - 1 >= common.channel_sets.size() ||
+        ch_set - 1 >= common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to channel set which is not in the record");
+    // samples of 8015 are stored in groups of four
+    if (common.general_header.format_code == 8015 && trc.samples().size() % 4)
+        throw Exception(__FILE__, __LINE__,
+            "number of samples in format 8015 is not divisible by 4");
+    bool samp_num_is_stored = common.trace_header_extension.empty();
+    size_t ext_hdr_blks = static_cast<uint8_t>
+        (to_int(hdr.get("TR_HDR_EXT").value_or(0)));
+    for (size_t i = 0; i < ext_hdr_blks; ++i) {
+        if (i == common.trace_header_extension.size())
+            break;
+        for (auto& item : common.trace_header_extension[i]) {
+            if (!hdr.get(item.second.first))
+                throw Exception(__FILE__, __LINE__,
+                    "no such header in trace");
+            if (item.second.first == "SAMP_NUM")
+                samp_num_is_stored = true;
+        }
+    }
+    optional<Trace::Header::Value> samp_num = hdr.get("SAMP_NUM");
+    if (ext_hdr_blks && samp_num_is_stored && samp_num &&
+        static_cast<uint64_t>(to_int(*samp_num)) != trc.samples().size())
+        throw Exception(__FILE__, __LINE__,
+            "number of samples in trace header is not equal to number of "
+            "samples in trace");
+}
+
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
     if (common.trc_samp_buf.size() != trc.samples().size() *
@@ -1308,6 +1344,7 @@ void OSEGD::write_trace_header(Trace::Header const& hdr)
 { pimpl->write_trace_header(hdr); }
 void OSEGD::write_ext_trace_headers(Trace::Header const& hdr)
 { pimpl->write_ext_trace_headers(hdr); }
+void OSEGD::check_trace(Trace const& trc) { pimpl->check_trace(trc); }
 void OSEGD::write_trace_samples(Trace const& trc)
 { pimpl->write_trace_samples(trc); }
 
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index d73f4dc..88689ec 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -74,6 +74,7 @@ void OSEGDRev2_1::write_trace(Trace& t)
 		throw Exception(__FILE__, __LINE__,
 						"you tring write more traces than specified "
 						"in channel set headers");
+    check_trace(t);
     write_trace_header(t.header());
     write_ext_trace_headers(t.header());
     write_trace_samples(t);
-- 
2.43.0


From f657901863d5779e68f9a8b30c23361062bebd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:02 +0000
Subject: [PATCH 54/73] fix: check number and size of SEGD extended and
 external headers

---
 src/OSEGDRev2_1.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 88689ec..fae58dd 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -59,6 +59,21 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
 	   	sgd.common().general_header.external_hdr_blocks == 165 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
+    if (sgd.common().extended_headers.size() < extended_blocks ||
+        sgd.common().external_headers.size() < external_blocks)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of extended or external headers is less than "
+                        "specified in general header.");
+    for (uint32_t i = 0; i < extended_blocks; ++i)
+        if (sgd.common().extended_headers[i].size() !=
+            CommonSEGD::EXTENDED_HEADER_SIZE)
+            throw Exception(__FILE__, __LINE__,
+                            "Wrong size of extended header.");
+    for (uint32_t i = 0; i < external_blocks; ++i)
+        if (sgd.common().external_headers[i].size() !=
+            CommonSEGD::EXTERNAL_HEADER_SIZE)
+            throw Exception(__FILE__, __LINE__,
+                            "Wrong size of external header.");
     for (uint32_t i = 0; i < extended_blocks; ++i)
         sgd.common().file.write(sgd.common().extended_headers[i].data(),
         CommonSEGD::EXTENDED_HEADER_SIZE);
-- 
2.43.0


From 6620812bb8b09710433161c71f09fadca4dd6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:33 +0000
Subject: [PATCH 55/73] fix: extended header flag of SEGD channel sets is a
 nibble

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 40a54c2..4134b5a 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1114,7 +1114,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = *buf >> 4 & 0x0f;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1140,7 +1140,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = *buf >> 4 & 0x0f;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 9cc12749cc3e4cef72550506efadbfcc5cc79698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:54 +0000
Subject: [PATCH 56/73] fix: SEGD records without traces could not be passed
 when reading

---
 src/ISEGD.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 4134b5a..2dc7e28 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -40,6 +40,7 @@ public:
     vector<double> read_trace_samples(unordered_map<string,
 									  Trace::Header::Value>& hdr);
     void read_headers_before_traces();
+    void skip_records_without_traces();
     void read_trailer();
     CommonSEGD common;
     streampos curr_pos;
@@ -145,8 +146,10 @@ Trace ISEGD::read_trace()
         pimpl->read_trailer();
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
-        if (has_record())
+        if (has_record()) {
             pimpl->read_headers_before_traces();
+            pimpl->skip_records_without_traces();
+        }
     }
     return Trace(move(hdr), move(samples));
 }
@@ -162,6 +165,18 @@ ISEGD::Impl::Impl(CommonSEGD com)
     curr_pos = common.file.tellg();
     assign_raw_readers();
     read_headers_before_traces();
+    skip_records_without_traces();
+}
+
+void ISEGD::Impl::skip_records_without_traces()
+{
+    while (!chans_in_record && curr_pos != end_of_data) {
+        read_trailer();
+        if (curr_pos == end_of_data)
+            break;
+        common.channel_sets.clear();
+        read_headers_before_traces();
+    }
 }
 
 void ISEGD::Impl::read_headers_before_traces()
-- 
2.43.0


From abf9a6694f4b590f92abcdebddc84960e9910c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 57/73] fix: description of hour in SEGY trace header

---
 src/CommonSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 21e4d72..e15dc36 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -399,7 +399,7 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
     { "YEAR", "Year data recorded." },
     { "DAY", "Day of year." },
-    { "HOUR", "Year data recorded." },
+    { "HOUR", "Hour of day (24 hour clock)." },
     { "MINUTE", "Minute of hour." },
     { "SECOND", "Second of minute." },
 	{ "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, "
-- 
2.43.0


From 23f99452308f67b1e756421c1dae387c359e366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 58/73] fix: descriptions of all SEGY trace headers in default
 map

---
 src/CommonSEGY.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index e15dc36..9e9ae40 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -424,6 +424,9 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
 		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Mantissa of the Transduction Constant." },
+	{ "TRANS_CONST_EXP", "Power of ten exponent of the "
+		"Transduction Constant." },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -440,11 +443,14 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. In-line." },
 	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
 		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_MANT", "Mantissa of the Source Measurement." },
+	{ "SOURCE_MEASUREMENT_EXP", "Power of ten exponent of the "
+		"Source Measurement." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
-    { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
 	{ "ADD_TRC_HDR_NUM", "Number of additional trace header extension "
-- 
2.43.0


From b7179d57837e241fc5306e136e652cebe2f1fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:02 +0000
Subject: [PATCH 59/73] fix: do not read SEGY trailer stanzas as traces of
 truncated files

---
 src/ISEGY.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index ed073c5..8951046 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -140,6 +140,9 @@ void ISEGY::Impl::fill_buf_from_file(char* buf, streamsize n)
 {
     common.file.read(buf, n);
     curr_pos = common.file.tellg();
+    // trailer stanzas are not a part of any trace
+    if (curr_pos > end_of_data)
+        throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
 }
 
 void ISEGY::Impl::file_skip_bytes(streamoff off)
@@ -429,6 +432,9 @@ void ISEGY::Impl::read_trailer_stanzas()
 						  (common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
+        if (end_of_data < first_trace_pos)
+            throw Exception(__FILE__, __LINE__,
+							"no room for trailer stanzas in file");
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
             common.file.read(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
             common.trailer_stanzas.emplace_back(text_buf,
-- 
2.43.0


From 0f1adea5095a7027f42ded91770ee27813ed5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:46 +0000
Subject: [PATCH 60/73] fix: report failures to get position in file

---
 include/util.hpp      | 13 +++++++++++++
 src/ISEGD.cpp         |  8 ++++----
 src/ISEGY.cpp         | 12 ++++++------
 src/ISEGYSorted1D.cpp |  3 ++-
 src/OSEGYRev0.cpp     |  5 +++--
 src/OSEGYRev1.cpp     |  5 +++--
 src/OSEGYRev2.cpp     |  5 +++--
 7 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/util.hpp b/include/util.hpp
index fd7b94e..a2a27d0 100644
--- a/include/util.hpp
+++ b/include/util.hpp
@@ -16,11 +16,24 @@
 #include <cstring>
 #include <vector>
 #include <cstdint>
+#include <istream>
 ///
 /// \brief General namespace for sedaman library.
 /// 
 ///
 namespace sedaman {
+///
+/// \brief position in stream, failure to get it is reported through stream
+/// state as for any other operation
+///
+inline std::streampos tell(std::istream& s)
+{
+    std::streampos pos = s.tellg();
+    if (pos == std::streampos(-1))
+        s.setstate(std::ios_base::failbit);
+    return pos;
+}
+
 constexpr int32_t ceil(float num)
 {
     return (static_cast<float>(static_cast<int32_t>(num)) == num)
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 2dc7e28..de5f3de 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -160,9 +160,9 @@ ISEGD::Impl::Impl(CommonSEGD com)
 	, chans_read {0}
 {
     common.file.seekg(0, ios_base::end);
-    end_of_data = common.file.tellg();
+    end_of_data = tell(common.file);
     common.file.seekg(0, ios_base::beg);
-    curr_pos = common.file.tellg();
+    curr_pos = tell(common.file);
     assign_raw_readers();
     read_headers_before_traces();
     skip_records_without_traces();
@@ -1426,7 +1426,7 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 void ISEGD::Impl::fill_buf_from_file(char* buf, streamsize n)
 {
     common.file.read(buf, n);
-    curr_pos = common.file.tellg();
+    curr_pos = tell(common.file);
 }
 
 void ISEGD::Impl::file_skip_bytes(streamoff off)
@@ -1434,7 +1434,7 @@ void ISEGD::Impl::file_skip_bytes(streamoff off)
     if (off > end_of_data - curr_pos)
         throw Exception(__FILE__, __LINE__, "unexpected end of file");
     common.file.seekg(off, ios_base::cur);
-    curr_pos = common.file.tellg();
+    curr_pos = tell(common.file);
 }
 
 void ISEGD::Impl::read_trailer()
diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 8951046..78437e7 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -105,7 +105,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 		   	static_cast<long>(common.binary_header.byte_off_of_first_tr);
         common.file.seekg(first_trace_pos);
     } else {
-        first_trace_pos = common.file.tellg();
+        first_trace_pos = tell(common.file);
     }
     common.samp_per_tr = common.binary_header.ext_samp_per_tr ?
 	   	common.binary_header.ext_samp_per_tr :
@@ -139,7 +139,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 void ISEGY::Impl::fill_buf_from_file(char* buf, streamsize n)
 {
     common.file.read(buf, n);
-    curr_pos = common.file.tellg();
+    curr_pos = tell(common.file);
     // trailer stanzas are not a part of any trace
     if (curr_pos > end_of_data)
         throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
@@ -148,7 +148,7 @@ void ISEGY::Impl::fill_buf_from_file(char* buf, streamsize n)
 void ISEGY::Impl::file_skip_bytes(streamoff off)
 {
     common.file.seekg(off, ios_base::cur);
-    curr_pos = common.file.tellg();
+    curr_pos = tell(common.file);
     // seek does not stop at the end of file, only reading does
     if (curr_pos > end_of_data)
         throw Exception(__FILE__, __LINE__, "unexpected end of trace data");
@@ -378,7 +378,7 @@ void ISEGY::Impl::read_trailer_stanzas()
             common.file.seekg(trc_size *
 							  common.binary_header.num_of_tr_in_file,
 							  ios_base::cur);
-            end_of_data = common.file.tellg();
+            end_of_data = tell(common.file);
             string end_stanza = "((SEG: EndText))";
             while (1) {
                 common.file.read(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
@@ -415,7 +415,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 common.file.seekg(static_cast<streamoff>(trc_samp_num) *
 								  common.bytes_per_sample, ios_base::cur);
             }
-            end_of_data = common.file.tellg();
+            end_of_data = tell(common.file);
             string end_stanza = "((SEG: EndText))";
             while (1) {
                 common.file.read(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
@@ -431,7 +431,7 @@ void ISEGY::Impl::read_trailer_stanzas()
         common.file.seekg(-static_cast<streamoff>
 						  (common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
-        end_of_data = common.file.tellg();
+        end_of_data = tell(common.file);
         if (end_of_data < first_trace_pos)
             throw Exception(__FILE__, __LINE__,
 							"no room for trailer stanzas in file");
diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index 93571dd..0a0afb3 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -1,5 +1,6 @@
 #include "ISEGYSorted1D.hpp"
 #include "Exception.hpp"
+#include "util.hpp"
 
 using std::make_unique;
 using std::map;
@@ -25,7 +26,7 @@ private:
 
 ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     while (s.ISEGY::has_trace()) {
-        streampos pos = s.common().file.tellg();
+        streampos pos = tell(s.common().file);
         Trace::Header hdr = s.ISEGY::read_header();
         optional<Trace::Header::Value> opt_val = hdr.get(hdr_name);
         if (std::nullopt == opt_val)
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index bcf980d..2baceda 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -1,5 +1,6 @@
 #include "OSEGYRev0.hpp"
 #include "Exception.hpp"
+#include "util.hpp"
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -49,7 +50,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         sgy.common().binary_header.format_code = 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
-	first_trace_pos = sgy.common().file.tellg();
+	first_trace_pos = tell(sgy.common().file);
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
@@ -63,7 +64,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         };
     } else {
         write_trace = [this](Trace& tr) {
-            if (sgy.common().file.tellg() == first_trace_pos) {
+            if (tell(sgy.common().file) == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
                 sgy.check_samples_num_var(tr);
                 Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index c553ceb..166c918 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -1,5 +1,6 @@
 #include "OSEGYRev1.hpp"
 #include "Exception.hpp"
+#include "util.hpp"
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -55,7 +56,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-	first_trace_pos = sgy.common().file.tellg();
+	first_trace_pos = tell(sgy.common().file);
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
@@ -81,7 +82,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 		//fixed length
 		write_trace = [this](Trace& tr) {
 			sgy.check_samples_num_var(tr);
-			if (sgy.common().file.tellg() == first_trace_pos) {
+			if (tell(sgy.common().file) == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
 				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index e61611c..4065b85 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -1,5 +1,6 @@
 #include "OSEGYRev2.hpp"
 #include "Exception.hpp"
+#include "util.hpp"
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -69,7 +70,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-	first_trace_pos = sgy.common().file.tellg();
+	first_trace_pos = tell(sgy.common().file);
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
@@ -142,7 +143,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     sgy.check_samples_num_var(tr);
-    if (sgy.common().file.tellg() == first_trace_pos) {
+    if (tell(sgy.common().file) == first_trace_pos) {
         // throw exception if trace header does not has a samples number
         Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
-- 
2.43.0


From 29f7c2dddbfed0bd9bf8110df2e06bd235451f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:45 +0000
Subject: [PATCH 61/73] fix: refuse SEGY traces whose number of samples does
 not fit header

---
 include/util.hpp | 26 ++++++++++++++++++++++++++
 src/OSEGY.cpp    | 16 ++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/include/util.hpp b/include/util.hpp
index a2a27d0..8a58dc5 100644
--- a/include/util.hpp
+++ b/include/util.hpp
@@ -11,6 +11,7 @@
 #ifndef SEDAMAN_UTIL_HPP
 #define SEDAMAN_UTIL_HPP
 
+#include "Trace.hpp"
 #include <bitset>
 #include <cassert>
 #include <cstring>
@@ -22,6 +23,31 @@
 /// 
 ///
 namespace sedaman {
+// greatest number which can be stored in trace header field of given type
+inline int64_t max_stored(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+        return INT8_MAX;
+    case Trace::Header::ValueType::uint8_t:
+        return UINT8_MAX;
+    case Trace::Header::ValueType::int16_t:
+        return INT16_MAX;
+    case Trace::Header::ValueType::uint16_t:
+        return UINT16_MAX;
+    case Trace::Header::ValueType::int24_t:
+        return 0x7fffff;
+    case Trace::Header::ValueType::uint24_t:
+        return 0xffffff;
+    case Trace::Header::ValueType::int32_t:
+        return INT32_MAX;
+    case Trace::Header::ValueType::uint32_t:
+        return UINT32_MAX;
+    default:
+        return INT64_MAX;
+    }
+}
+
 ///
 /// \brief position in stream, failure to get it is reported through stream
 /// state as for any other operation
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index a75b295..2738b71 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -502,6 +502,22 @@ void OSEGY::Impl::check_samples_num_var(Trace const& t)
         throw Exception(__FILE__, __LINE__,
 						"number of samples in trace differs from "
 						"number of samples in trace header");
+    // the last of mapped fields is the one reader relies on
+    int64_t max_samp_num = INT64_MAX;
+    int64_t last_hdr = common.binary_header.SEGY_rev_major_ver > 1 ?
+        common.binary_header.max_num_add_tr_headers : 0;
+    for (size_t i = 0; i < common.tr_hdr_map.size(); ++i) {
+        if (static_cast<int64_t>(i) > last_hdr)
+            break;
+        for (auto& p : common.tr_hdr_map[i].second)
+            if (p.second.first == "SAMP_NUM")
+                max_samp_num = max_stored(p.second.second);
+    }
+    if (common.binary_header.SEGY_rev_major_ver &&
+        get<int64_t>(v) > max_samp_num)
+        throw Exception(__FILE__, __LINE__,
+						"number of samples can not be written to trace "
+						"header");
 }
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
-- 
2.43.0


From e09059e7fb5dd4a26d50d826769d34c6920322c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:40 +0000
Subject: [PATCH 62/73] fix: refuse SEGD traces whose number of samples is not
 stored right

---
 src/OSEGD.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 149b76f..5e3603a 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1124,6 +1124,7 @@ void OSEGD::Impl::check_trace(Trace const& trc)
         throw Exception(__FILE__, __LINE__,
             "number of samples in format 8015 is not divisible by 4");
     bool samp_num_is_stored = common.trace_header_extension.empty();
+    int64_t max_samp_num = max_stored(Trace::Header::ValueType::uint24_t);
     size_t ext_hdr_blks = static_cast<uint8_t>
         (to_int(hdr.get("TR_HDR_EXT").value_or(0)));
     for (size_t i = 0; i < ext_hdr_blks; ++i) {
@@ -1133,13 +1134,18 @@ void OSEGD::Impl::check_trace(Trace const& trc)
             if (!hdr.get(item.second.first))
                 throw Exception(__FILE__, __LINE__,
                     "no such header in trace");
-            if (item.second.first == "SAMP_NUM")
+            if (item.second.first == "SAMP_NUM") {
                 samp_num_is_stored = true;
+                max_samp_num = max_stored(item.second.second);
+            }
         }
     }
-    optional<Trace::Header::Value> samp_num = hdr.get("SAMP_NUM");
-    if (ext_hdr_blks && samp_num_is_stored && samp_num &&
-        static_cast<uint64_t>(to_int(*samp_num)) != trc.samples().size())
+    int64_t samp_num = to_int(hdr.get("SAMP_NUM").value_or(0));
+    if (ext_hdr_blks && samp_num_is_stored && samp_num > max_samp_num)
+        throw Exception(__FILE__, __LINE__,
+            "number of samples can not be written to trace header");
+    if (ext_hdr_blks && samp_num_is_stored &&
+        static_cast<uint64_t>(samp_num) != trc.samples().size())
         throw Exception(__FILE__, __LINE__,
             "number of samples in trace header is not equal to number of "
             "samples in trace");
-- 
2.43.0


From 33753b8ad105769a94717b90c0bff7400515dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:44 +0000
Subject: [PATCH 63/73] fix: refuse more extended text headers than SEGY can
 count

---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 166c918..6bb13a6 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -44,6 +44,9 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
             if (s.size() != CommonSEGY::TEXT_HEADER_SIZE)
                 throw Exception(__FILE__, __LINE__,
 							   	"size of text header should be 3200 bytes");
+        if (txt_hdrs.size() - 1 > INT16_MAX)
+            throw Exception(__FILE__, __LINE__,
+							"too many extended text headers");
     }
 	sgy.common().text_headers = txt_hdrs;
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 4065b85..e91bf72 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -44,6 +44,9 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (s.size() != CommonSEGY::TEXT_HEADER_SIZE)
                 throw Exception(__FILE__, __LINE__,
 							   	"size of text header should be 3200 bytes");
+        if (txt_hdrs.size() - 1 > INT16_MAX)
+            throw Exception(__FILE__, __LINE__,
+							"too many extended text headers");
     }
     if (!trlr_stnzs.empty()) {
         for (string& s : trlr_stnzs)
-- 
2.43.0


From 0f19ebb70e138fdcdd4dd0c0a4730188d60486a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 64/73] fix: write SEGD general header 3 to file

---
 src/OSEGD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 5e3603a..4cab1cb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -356,6 +356,7 @@ void OSEGD::Impl::write_general_header2_and_3()
     *buf++ = common.general_header3.extd_rec_mode;
     *buf++ = common.general_header3.rel_time_mode;
     *++buf = common.general_header3.gen_hdr_block_num;
+    common.file.write(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
 }
 
 void OSEGD::Impl::write_rev3_add_gen_hdrs()
-- 
2.43.0


From be2155d9f3eba3f2aa00a00423ee626f201b1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 65/73] fix: write types of SEGD text general header blocks

---
 src/OSEGD.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4cab1cb..c74f78e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -483,7 +483,7 @@ void OSEGD::Impl::write_vessel_crew_id(char* buf,
     size = sizeof(hdr->vessel_crew_name);
     memcpy(buf, hdr->vessel_crew_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_survey_area_name(char* buf,
@@ -492,7 +492,7 @@ void OSEGD::Impl::write_survey_area_name(char* buf,
     size_t size = sizeof(hdr->survey_area_name);
     memcpy(buf, hdr->survey_area_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_client_name(char* buf,
@@ -501,7 +501,7 @@ void OSEGD::Impl::write_client_name(char* buf,
     size_t size = sizeof(hdr->client_name);
     memcpy(buf, hdr->client_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_job_id(char* buf,
@@ -513,7 +513,7 @@ void OSEGD::Impl::write_job_id(char* buf,
     size = sizeof(hdr->job_id);
     memcpy(buf, hdr->job_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
@@ -524,7 +524,7 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
     size = sizeof(hdr->line_id);
     memcpy(buf, hdr->line_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
-- 
2.43.0


From a151a96b9a0e23e83b8711992efdbb8cfab2ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 66/73] fix: widths of fields in SEGD source general headers

---
 src/OSEGD.cpp | 60 +++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c74f78e..1bdbfa4 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -530,7 +530,7 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderVib* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -548,17 +548,17 @@ void OSEGD::Impl::write_vibrator_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_explosive_hdr(char* buf,
 									  CommonSEGD::GeneralHeaderExp* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -576,17 +576,17 @@ void OSEGD::Impl::write_explosive_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_airgun_hdr(char* buf,
 								   CommonSEGD::GeneralHeaderAir* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -603,17 +603,17 @@ void OSEGD::Impl::write_airgun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_watergun_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderWat* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -630,17 +630,17 @@ void OSEGD::Impl::write_watergun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
 										   	CommonSEGD::GeneralHeaderEle* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -657,17 +657,17 @@ void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_other_source_hdr(char* buf,
 										 CommonSEGD::GeneralHeaderOth* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -683,10 +683,10 @@ void OSEGD::Impl::write_other_source_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
-- 
2.43.0


From 9b167c3268fe18f9391a82d6de1a327c9c0a4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 67/73] fix: layout of written SEGD rev 3 channel set headers

---
 src/OSEGD.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1bdbfa4..cb459bd 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -903,7 +903,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ = hdr.array_forming;
     } else {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        write_u16(&buf, hdr.channel_set_start_time);
+        write_u16(&buf, hdr.channel_set_number);
         *buf++ = hdr.channel_type;
         write_u32(&buf, hdr.channel_set_start_time);
         write_u32(&buf, hdr.channel_set_end_time);
@@ -917,19 +917,23 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ |= hdr.channel_gain;
         *buf++ = hdr.vert_stack;
         *buf++ = hdr.streamer_no;
-        ++buf;
+        // types of header blocks are 0x30, 0x31 and 0x32
+        *buf++ = 0x30;
         write_u32(&buf, hdr.alias_filter_freq);
-        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_freq);
+        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_slope);
         write_u32(&buf, hdr.first_notch_filter);
         write_u32(&buf, hdr.second_notch_filter);
         write_u32(&buf, hdr.third_notch_filter);
         *buf++ = *hdr.filter_phase();
         *buf++ = *hdr.physical_unit();
-        buf += 2;
+        ++buf;
+        *buf++ = 0x31;
         write_u32(&buf, *hdr.filter_delay());
         memcpy(buf, (*hdr.description()).data(), (*hdr.description()).size());
+        buf += (*hdr.description()).size();
+        *buf++ = 0x32;
     }
     common.file.write(common.ch_set_hdr_buf.data(),
 					  common.ch_set_hdr_buf.size());
-- 
2.43.0


From e3e92f255c4bae0bfebfa70ede17e1c8dddbe170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 68/73] fix: layout of written SEGD rev 3 trace header
 extensions

---
 src/OSEGD.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index cb459bd..1b6eaac 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1058,7 +1058,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point_int);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? to_int(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? to_int(*tmp) : 0);
             } else {
@@ -1098,9 +1098,9 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? to_int(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 2) {
-                tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && to_int(*tmp) > 9999)
-                    write_u24(&buf, to_int(*tmp));
+                tmp = hdr.get("CHAN");
+                write_u24(&buf, tmp && to_int(*tmp) > 9999 ?
+                    to_int(*tmp) : 0);
                 tmp = hdr.get("SAMP_NUM");
                 write_u32(&buf, tmp ? to_int(*tmp) : 0);
                 tmp = hdr.get("SENSOR_MOVING");
@@ -1108,6 +1108,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 ++buf;
                 tmp = hdr.get("PHYSICAL_UNIT");
                 *buf++ = tmp ? to_int(*tmp) : 0;
+                // type of header block
+                *buf++ = 0x40;
             }
         }
         common.file.write(common.trc_ext_hdr_buf,
@@ -1129,7 +1131,10 @@ void OSEGD::Impl::check_trace(Trace const& trc)
         throw Exception(__FILE__, __LINE__,
             "number of samples in format 8015 is not divisible by 4");
     bool samp_num_is_stored = common.trace_header_extension.empty();
-    int64_t max_samp_num = max_stored(Trace::Header::ValueType::uint24_t);
+    int64_t max_samp_num = max_stored(
+        common.general_header2.segd_rev_major < 3 ?
+        Trace::Header::ValueType::uint24_t :
+        Trace::Header::ValueType::uint32_t);
     size_t ext_hdr_blks = static_cast<uint8_t>
         (to_int(hdr.get("TR_HDR_EXT").value_or(0)));
     for (size_t i = 0; i < ext_hdr_blks; ++i) {
-- 
2.43.0


From 8b8d7cb2da613a61a50bb70a2e1c714ef1561ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 69/73] fix: write number of SEGD skew blocks given in general
 header 2

---
 src/OSEGD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1b6eaac..1a829f8 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -266,7 +266,9 @@ void OSEGD::Impl::write_general_header1()
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type,
 			   false, 2);
-    to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
+    common.general_header.skew_blocks > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.extended_hdr_blocks, false, 2);
-- 
2.43.0


From ab1cc436887f7e24e6e0c200fbfe46a8ceb8ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:20 +0000
Subject: [PATCH 70/73] fix: refuse SEGD rev 2.1 headers which do not describe
 the record

---
 src/OSEGDRev2_1.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index fae58dd..03c02d8 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,26 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    CommonSEGD::GeneralHeader& gh = sgd.common().general_header;
+    // 165 means that number is in general header 2, there is no number of
+    // skew blocks, and there are no trailer blocks to write
+    if (gh.scan_types_per_record > 99 || gh.skew_blocks > 99 ||
+        (gh.channel_sets_per_scan_type > 99 &&
+         gh.channel_sets_per_scan_type != 165) ||
+        (gh.extended_hdr_blocks > 99 && gh.extended_hdr_blocks != 165) ||
+        (gh.external_hdr_blocks > 99 && gh.external_hdr_blocks != 165) ||
+        static_cast<size_t>(gh.add_gen_hdr_blocks) !=
+        sgd.common().add_gen_hdr_blks_map.size() + 1 ||
+        sgd.common().general_header2.gen_trailer_num_of_blocks)
+        throw Exception(__FILE__, __LINE__,
+                        "General headers do not describe record which could "
+                        "be written.");
+    for (vector<CommonSEGD::ChannelSetHeader>& sets :
+		 sgd.common().channel_sets)
+        for (CommonSEGD::ChannelSetHeader& hdr : sets)
+            if (hdr.number_of_channels > 9999)
+                throw Exception(__FILE__, __LINE__,
+                                "Too many channels in channel set.");
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
-- 
2.43.0


From 59f531cc9ef3b3d1462444dbce434e573e708927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:17 +0000
Subject: [PATCH 71/73] fix: sort traces with NaN in the header to sort by
 after all others

---
 src/ISEGYSorted1D.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index 0a0afb3..0bf9a24 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -12,12 +12,22 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+// NaN is not less than and not equal to anything, keep such traces together
+// after all the others
+struct KeyLess {
+    bool operator()(Trace::Header::Value const &a,
+                    Trace::Header::Value const &b) const {
+        return a < b || (a == a && b != b);
+    }
+};
+
 class ISEGYSorted1D::Impl {
 public:
     Impl(ISEGYSorted1D &s, string hdr_name);
-    map<Trace::Header::Value, vector<streampos>>::iterator map_cur, map_end;
+    map<Trace::Header::Value, vector<streampos>, KeyLess>::iterator map_cur,
+        map_end;
     vector<streampos>::iterator vec_cur, vec_end;
-    map<Trace::Header::Value, vector<streampos>> trc_map;
+    map<Trace::Header::Value, vector<streampos>, KeyLess> trc_map;
     Trace::Header::ValueType hdr_type;
 
 private:
@@ -73,7 +83,7 @@ Trace ISEGYSorted1D::read_trace() {
 
 vector<Trace::Header::Value> ISEGYSorted1D::get_keys() {
     vector<Trace::Header::Value> result;
-    for (map<Trace::Header::Value, vector<streampos>>::iterator
+    for (map<Trace::Header::Value, vector<streampos>, KeyLess>::iterator
              cur = pimpl->trc_map.begin(),
              end = pimpl->trc_map.end();
          cur != end; ++cur) {
@@ -85,7 +95,7 @@ vector<Trace::Header::Value> ISEGYSorted1D::get_keys() {
 vector<Trace::Header> ISEGYSorted1D::get_headers(Trace::Header::Value v,
                                                  uint64_t max_num) {
     vector<Trace::Header> result;
-    map<Trace::Header::Value, vector<streampos>>::iterator mit =
+    map<Trace::Header::Value, vector<streampos>, KeyLess>::iterator mit =
         pimpl->trc_map.find(v);
     if (mit != pimpl->trc_map.end()) {
         for (vector<streampos>::iterator vit = mit->second.begin(),
@@ -102,7 +112,7 @@ vector<Trace::Header> ISEGYSorted1D::get_headers(Trace::Header::Value v,
 vector<Trace> ISEGYSorted1D::get_traces(Trace::Header::Value v,
                                         uint64_t max_num) {
     vector<Trace> result;
-    map<Trace::Header::Value, vector<streampos>>::iterator mit =
+    map<Trace::Header::Value, vector<streampos>, KeyLess>::iterator mit =
         pimpl->trc_map.find(v);
     if (mit != pimpl->trc_map.end()) {
         for (vector<streampos>::iterator vit = mit->second.begin(),
-- 
2.43.0


From 31b9dcdf3668047b9425a9af1dd1da4398606051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:39 +0000
Subject: [PATCH 72/73] fix: sorted reading of SEGY behind the last trace

---
 src/ISEGYSorted1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index 0bf9a24..29918af 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -54,6 +54,8 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
 
 Trace::Header ISEGYSorted1D::read_header() {
+    if (!ISEGYSorted1D::has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces in file");
     common().file.seekg(*pimpl->vec_cur);
     Trace::Header hdr = ISEGY::read_header();
     ++pimpl->vec_cur;
@@ -68,6 +70,8 @@ Trace::Header ISEGYSorted1D::read_header() {
 }
 
 Trace ISEGYSorted1D::read_trace() {
+    if (!ISEGYSorted1D::has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces in file");
     common().file.seekg(*pimpl->vec_cur);
     Trace trc = ISEGY::read_trace();
     ++pimpl->vec_cur;
-- 
2.43.0


From ea81c70eab07344286ad778bbc118aed9d61183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:52 +0000
Subject: [PATCH 73/73] fix: no SEGY traces are left after an attempt to read
 behind the last one

---
 src/ISEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 78437e7..8be9e57 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -590,10 +590,10 @@ Trace ISEGY::read_trace()
 
 bool ISEGY::has_trace()
 {
-    if (pimpl->curr_pos == pimpl->end_of_data)
-        return false;
-    else
+    if (pimpl->curr_pos < pimpl->end_of_data)
         return true;
+    else
+        return false;
 }
 
 vector<string> const& ISEGY::text_headers()
-- 
2.43.0

