From 525984f4ce1350574cac073c654c88d6e73b7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 01/70] fix: exception::makeString reads past the terminating
 NUL of a string shorter than 16 characters

---
 include/cybozu/exception.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/exception.hpp b/include/cybozu/exception.hpp
index a9668ba..8137ede 100644
--- a/include/cybozu/exception.hpp
+++ b/include/cybozu/exception.hpp
@@ -63,7 +63,10 @@ namespace exception {
 /* get max 16 characters to avoid buffer overrun */
 inline std::string makeString(const char *str, size_t size)
 {
-	return std::string(str, std::min<size_t>(size, 16));
+	const size_t maxSize = std::min<size_t>(size, 16);
+	size_t n = 0;
+	while (n < maxSize && str[n]) n++;
+	return std::string(str, n);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From ef3ed8a7b6b5946a840e1f97370c56d92066074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 02/70] fix: atoi accepts any text which begins with the
 minimum value of a signed type and reads past the end of a short string

---
 include/cybozu/atoi.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..d18ec82 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -7,6 +7,7 @@
 */
 
 #include <memory.h>
+#include <string.h>
 #include <limits>
 #include <cybozu/exception.hpp>
 
@@ -28,7 +29,7 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
 			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
+			if (isMinus && size - i >= n - 1 && strncmp(max, &p[i], n - 1) == 0 && (size - i == n - 1 || p[i + n - 1] == '\0')) {
 				if (b) *b = true;
 				return min;
 			}
-- 
2.43.0


From 9e23cfc78d909341ec0622c04bb9f83090252c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 03/70] fix: CsvReader loses a last record which ends with an
 empty field and has no line end, and applies the limit of a line to the whole
 input

---
 include/cybozu/csv.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index f397105..31623c4 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -60,6 +60,7 @@ public:
 	{
 		if (eof_) return false;
 		line_++;
+		lineSize_ = 0;
 		out.clear();
 		enum {
 			Top,
@@ -73,10 +74,12 @@ public:
 		const char quote = '"';
 
 		std::string str;
+		bool isEmptyLine = true;
 		for (;;) {
 			int c = my_getchar();
-			if (c == EOF && str.empty()) return false;
+			if (c == EOF && isEmptyLine) return false;
 			if (c == CR) continue;
+			isEmptyLine = false;
 			switch (state) {
 			case Top:
 				if (c == EOF || c == LF) {
-- 
2.43.0


From 516b9a4dbaff03ac56cd2550106b3ae2ac5c81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 04/70] fix: load of set, map and unordered_map keeps the old
 elements of the target

---
 include/cybozu/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8deb19a..aa223c6 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -294,6 +294,7 @@ void load(Container<K, Pred, Alloc>& x, InputStream& is, typename stream_local::
 {
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		K t;
 		load(t, is);
@@ -318,6 +319,7 @@ void load(Container<K, V, Pred, Alloc>& x, InputStream& is, typename stream_loca
 	typedef Container<K, V, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		std::pair<typename Map::key_type, typename Map::mapped_type> vt;
 		load(vt.first, is);
@@ -344,6 +346,7 @@ void load(Container<K, V, Hash, Pred, Alloc>& x, InputStream& is, typename strea
 	typedef Container<K, V, Hash, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 //	x.reserve(size); // tr1::unordered_map may not have reserve
 	cybozu::serializer_local::reserve_if_exists(x, size);
 	for (size_t i = 0; i < size; i++) {
-- 
2.43.0


From c4b102c68c21a2c4c9eef01afb5b37f6cea07424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 05/70] fix: LineStreamT cannot hold a line of maxLineSize
 bytes with CRLF if maxLineSize is 0 or 1

---
 include/cybozu/line_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/line_stream.hpp b/include/cybozu/line_stream.hpp
index ac45ab1..aa482e2 100644
--- a/include/cybozu/line_stream.hpp
+++ b/include/cybozu/line_stream.hpp
@@ -4,6 +4,7 @@
 	@brief line stream class
 */
 #include <string>
+#include <algorithm>
 #include <memory.h>
 #include <iosfwd>
 #include <cybozu/file.hpp>
@@ -58,7 +59,7 @@ public:
 	explicit LineStreamT(Reader& reader, size_t maxLineSize = 1024 * 2)
 		: reader_(reader)
 		, maxLineSize_(maxLineSize)
-		, buf_(maxLineSize * 2, 0)
+		, buf_((std::max)(maxLineSize * 2, maxLineSize + 2), 0) // room for a line and CRLF
 		, bufSize_(0)
 		, next_(buf_.data())
 		, eof_(false)
-- 
2.43.0


From ec789455ebfb2899d5895f1931f71f4c4f6b686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 06/70] fix: a write of no data through a null pointer resets
 the CRC of the gzip compressor

---
 include/cybozu/zlib.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..1adfc0a 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -97,6 +97,7 @@ public:
 	void write(const void *buf, size_t _size)
 	{
 		if (_size >= (1u << 31)) throw cybozu::Exception("zlib:ZlibCompressor:write:too large size") << _size;
+		if (_size == 0) return; // crc32() with a null pointer would reset crc_
 		uint32_t size = (uint32_t)_size;
 		if (useGzip_) {
 			crc_ = crc32(crc_, (const Bytef *)buf, size);
-- 
2.43.0


From 1ee559432988163bdbb5feaec38f02be6c501c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:09 +0000
Subject: [PATCH 07/70] fix: BitVectorT::init keeps bits after bitLen, which
 show up after a later append or resize

---
 include/cybozu/bitvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..af086d2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -200,7 +200,8 @@ public:
 	void init(const T *buf, size_t bitLen)
 	{
 		resize(bitLen);
-		std::copy(buf, buf + v_.size(), &v_[0]);
+		if (bitLen == 0) return;
+		CopyBit<T>(&v_[0], buf, bitLen);
 	}
 	void resize(size_t bitLen)
 	{
-- 
2.43.0


From 9499dc7c00eb5782e271907dddcffb63c2d2c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 08/70] fix: BitVectorT::append of a whole unit does not cut
 the upper bits of the 64-bit value

---
 include/cybozu/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index af086d2..417042d 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -277,6 +277,8 @@ public:
 		}
 		if (bitLen < unitBitSize) {
 			src &= GetMaskBit<T>(bitLen);
+		} else {
+			src = T(src);
 		}
 		const size_t q = bitLen_ / unitBitSize;
 		const size_t r = bitLen_ % unitBitSize;
-- 
2.43.0


From 4b606a074266946f834f755b9a0ed63aa17e97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 09/70] fix: appending a BitVectorT to itself reads freed
 memory

---
 include/cybozu/bitvector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 417042d..23146e5 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -297,6 +297,11 @@ public:
 	*/
 	void append(const BitVectorT<T>& v)
 	{
+		if (&v == this) {
+			const BitVectorT<T> copied(v);
+			append(copied.getBlock(), copied.size());
+			return;
+		}
 		append(v.getBlock(), v.size());
 	}
 	/*
-- 
2.43.0


From acb6703ca70eb1c74fbfb3ec307e3193b6e895b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 10/70] fix: the range check of BitVectorT::extract overflows

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 23146e5..bf7c0ee 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -310,7 +310,7 @@ public:
 	void extract(T* dst, size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return;
-		if (pos + bitLen > bitLen_) {
+		if (bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
@@ -335,7 +335,7 @@ public:
 	T extract(size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return 0;
-		if (bitLen > unitBitSize || pos + bitLen > bitLen_) {
+		if (bitLen > unitBitSize || bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
-- 
2.43.0


From 463d002d16f13e2424df86164e0f61102519a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 11/70] fix: BitVectorT::operator== ignores the bit length

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index bf7c0ee..2f0b387 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -353,8 +353,8 @@ public:
 		}
 		return v;
 	}
-	bool operator==(const BitVectorT<T>& rhs) const { return v_ == rhs.v_; }
-	bool operator!=(const BitVectorT<T>& rhs) const { return v_ != rhs.v_; }
+	bool operator==(const BitVectorT<T>& rhs) const { return bitLen_ == rhs.bitLen_ && v_ == rhs.v_; }
+	bool operator!=(const BitVectorT<T>& rhs) const { return !(*this == rhs); }
 };
 
 #if (CYBOZU_OS_BIT == 32)
-- 
2.43.0


From 4b845df7add6d8f94e8c92112ee9592dccc64f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:16 +0000
Subject: [PATCH 12/70] fix: SucVectorT counts the unused bits of the last
 block as zeros (select0 beyond the size) or as ones (dirty bits)

---
 include/cybozu/sucvector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 54c3039..677f767 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -151,6 +151,7 @@ class SucVectorT {
 	{
 		uint64_t num1 = 0;
 		size_t pos = 0;
+		const size_t lastBitNum = size_t(bitSize_ % 64);
 		for (size_t i = 0, n = blk_.size(); i < n; i++) {
 			Block& blk = blk_[i];
 			if (support1TiB) {
@@ -164,6 +165,10 @@ class SucVectorT {
 				uint64_t v;
 				if (buf) {
 					v = pos < blkNum ? buf[pos++] : 0;
+					// ignore bits after bitSize_
+					if (lastBitNum > 0 && i * 4 + j + 1 == blkNum) {
+						v &= makeBitMask64(lastBitNum);
+					}
 					blk.org[j] = v;
 				} else {
 					v = blk.org[j];
@@ -176,7 +181,7 @@ class SucVectorT {
 				subNum1 += c;
 			}
 		}
-		numTbl_[0] = blkNum * 64 - num1;
+		numTbl_[0] = bitSize_ - num1;
 		numTbl_[1] = num1;
 		initSelTbl();
 		freezed_ = true;
-- 
2.43.0


From e346f137b796b3c7f595f86bb72c8acf6d7b0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:16 +0000
Subject: [PATCH 13/70] fix: FMindexT::init of a used object mixes in the
 previous text

---
 include/cybozu/fmindex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 161c5c4..c321b1b 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -88,6 +88,7 @@ public:
 				sum += charNumTbl[i];
 			}
 		} else {
+			freq.clear();
 			freq.init(begin, end);
 			charNum_ = freq.size() + 1; // +1 means last zero
 			if (charNum_ > maxCharNum) throw cybozu::Exception("FMindexT:initCf:too many alphabet");
@@ -158,6 +159,7 @@ public:
 		wm.init(bwt, getBitLen(charNum_));
 
 #if 1
+		alignedSa.clear();
 		cybozu::BitVector bv;
 		bv.resize(dataSize);
 		for (size_t i = 0; i < dataSize; i++) {
-- 
2.43.0


From e40aaf9639265db70337d7d987d3b0ec365c41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:16 +0000
Subject: [PATCH 14/70] fix: CSucVector::init of a used object keeps the
 previous blocks

---
 include/cybozu/csucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index f28d287..6c60d39 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -490,6 +490,7 @@ struct CSucVector {
 	}
 	void initBlockVec()
 	{
+		blkVec.clear();
 		blkVec.reserve(bitSize_ / skip + 16);
 		uint32_t orgPos = 0;
 		uint32_t rk = 0;
-- 
2.43.0


From 60f4c88ede079cb7ddb979228a6d702e8ca06350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:39 +0000
Subject: [PATCH 15/70] fix: assigning a String (or a part of it) to itself
 clears it

---
 include/cybozu/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..f6b5ac3 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -615,7 +615,7 @@ public:
 	*/
 	StringT& assign(const StringT& str)
 	{
-		clear(); return append(str);
+		str_.assign(str.str_); return *this;
 	}
 
 	/**
@@ -626,7 +626,7 @@ public:
 	*/
 	StringT& assign(const StringT& str, size_type off, size_type count)
 	{
-		clear(); return append(str, off, count);
+		str_.assign(str.str_, off, count); return *this;
 	}
 
 	/**
-- 
2.43.0


From dc3ab81db1240884b8ee90ea5430c810c768a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:39 +0000
Subject: [PATCH 16/70] fix: UTF-16 conversions accept an unpaired trail
 surrogate and write surrogate code points

---
 include/cybozu/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index f6b5ac3..3162d43 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -200,6 +200,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 	};
 	Char16 c0 = *begin++;
 	if (!string_local::isLead(c0)) {
+		if (string_local::isTrail(c0)) return false;
 		c = c0;
 		return true;
 	}
@@ -243,7 +244,11 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0xffff) {
+		if (0xd7ff < c && c <= 0xdfff) {
+			return 0;
+		}
 		out[0] = static_cast<Char16>(c);
 		return 1;
 	} else if (c <= 0x0010ffff) {
-- 
2.43.0


From 92183e4f3541c1bf35ca3721662235ecaa994e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:39 +0000
Subject: [PATCH 17/70] fix: a negative Char is regarded as a valid character
 and written as a broken UTF-8 byte

---
 include/cybozu/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 3162d43..48fce30 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -217,6 +218,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
-- 
2.43.0


From 5c8d50d152f25f559592eb9f0dcf530cd47cf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:39 +0000
Subject: [PATCH 18/70] fix: ToLower and ToUpper write past the end when a
 string is appended to itself

---
 include/cybozu/string_operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index 92a0ddf..a053356 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -126,9 +126,10 @@ inline Iterator GetTrimPosition(Iterator begin, Iterator &end, bool (*isSpace)(t
 template<class StringT1, class StringT2, class Func>
 void ChangeCase(StringT1& out, const StringT2& in, Func f, bool doAppend)
 {
-	size_t offset = doAppend ? out.size() : 0;
-	out.resize(offset + in.size());
-	std::transform(in.begin(), in.end(), out.begin() + offset, f);
+	const size_t offset = doAppend ? out.size() : 0;
+	const size_t n = in.size(); // in may be out
+	out.resize(offset + n);
+	std::transform(in.begin(), in.begin() + n, out.begin() + offset, f);
 }
 
 template<class CharT>struct SelectString;
-- 
2.43.0


From 8d9004813d494d17b28cda4db74d0fa7c0546792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:44 +0000
Subject: [PATCH 19/70] fix: Config accepts an empty key and an empty section
 name, which the grammar does not have

---
 include/cybozu/config.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/config.hpp b/include/cybozu/config.hpp
index 1959342..cd04cf6 100644
--- a/include/cybozu/config.hpp
+++ b/include/cybozu/config.hpp
@@ -57,6 +57,9 @@ inline void split(std::string& key, std::string& value, const std::string& line)
 	key = line.substr(0, q - p);
 	trimEndSpace(key);
 	char badChar;
+	if (key.empty()) {
+		throw cybozu::Exception("config:split:empty key") << line;
+	}
 	if (!cybozu::config_local::isName(key, &badChar)) {
 		throw cybozu::Exception("config:split:bad key") << key << badChar;
 	}
@@ -152,6 +155,9 @@ public:
 		void append(const std::string& key, const std::string& value)
 		{
 			char badChar;
+			if (key.empty()) {
+				throw cybozu::Exception("config:append:empty key");
+			}
 			if (!config_local::isName(key, &badChar)) {
 				throw cybozu::Exception("config:append:bad key") << key << badChar;
 			}
@@ -356,7 +362,7 @@ public:
 			if (c == ';' || c == '#') continue;
 			// section
 			if (c == '[') {
-				if (line[n - 1] != ']') {
+				if (n <= 2 || line[n - 1] != ']') {
 					throw cybozu::Exception("config:load:bad section") << line;
 				}
 				section = appendSection(line.substr(1, n - 2));
-- 
2.43.0


From 166d989985b9e0b84b25512d2dbd364bf3fb0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 20/70] fix: copying an Option without appendParamVec
 dereferences a null pointer

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 5dac705..589c929 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -252,7 +252,7 @@ class Var {
 	bool isSet_;
 public:
 	Var() : p_(0), isSet_(false) { }
-	Var(const Var& rhs) : p_(rhs.p_->clone()), isSet_(false) { }
+	Var(const Var& rhs) : p_(rhs.p_ ? rhs.p_->clone() : 0), isSet_(false) { }
 	template<class T>
 	explicit Var(T *x) : p_(new Holder<T>(x)), isSet_(false) { }
 
-- 
2.43.0


From 6116128bbd41063d68739b5d6598d7c8839c1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 21/70] fix: the Option argument "-" shows the usage and exits
 if no help option is registered

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 589c929..90e738c 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -553,7 +553,7 @@ public:
 			}
 			if (isOpt(argv[pos])) {
 				const std::string str = argv[pos] + 1;
-				if (helpOpt_ == str) {
+				if (!helpOpt_.empty() && helpOpt_ == str) {
 					usage();
 					exit(0);
 				}
-- 
2.43.0


From b0c654e1f4534b813e0180e80907bb687c71cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 22/70] fix: a vector option of Option swallows the delimiter
 and everything after it

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 90e738c..fc31af7 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -587,7 +587,7 @@ public:
 					{
 						pos++;
 						int j = 0;
-						while (pos < argc && !isOpt(argv[pos])) {
+						while (pos < argc && !isOpt(argv[pos]) && !inDelimiters(argv[pos])) {
 							if (!info.var.set(argv[pos])) {
 								err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for -" + info.opt) << j;
 								goto ERR;
-- 
2.43.0


From c78034b645dcff56d9f6448bd1ab3664b4ede7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 23/70] fix: Option ignores a bad value for the remaining
 parameters

---
 include/cybozu/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index fc31af7..7ea2a1e 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -619,7 +619,10 @@ public:
 				}
 				if (!used) {
 					if (paramMode_ == P_variable) {
-						remains_.var.set(argv[pos]);
+						if (!remains_.var.set(argv[pos])) {
+							err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for " + remains_.opt);
+							goto ERR;
+						}
 					} else {
 						err.set(OptionError::REDUNDANT_VAL, pos) << argv[pos];
 						goto ERR;
-- 
2.43.0


From d1872931451b41a9d8997c55f782a73a6d9b7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:26 +0000
Subject: [PATCH 24/70] fix: MiniXml prints an attribute value which contains a
 double quote inside double quotes

---
 include/cybozu/minixml.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e22c891..4407e7e 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -113,7 +113,8 @@ public:
 	friend inline std::ostream& operator<<(std::ostream& os, const Attributes& attr)
 	{
 		for (Attributes::Map::const_iterator i = attr.m_.begin(), ie = attr.m_.end(); i != ie; ++i) {
-			os << " " << i->first << "=\"" << i->second << "\"";
+			const char q = i->second.find('"') == std::string::npos ? '"' : '\'';
+			os << " " << i->first << "=" << q << i->second << q;
 		}
 		return os;
 	}
-- 
2.43.0


From 70e9abe96e459061050b6f2d57378b07bcbf4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:26 +0000
Subject: [PATCH 25/70] fix: MiniXml loses the text of the elements when it
 prints a document

---
 include/cybozu/minixml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 4407e7e..b788906 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -179,7 +179,7 @@ struct Node {
 	}
 	friend inline std::ostream& operator<<(std::ostream& os, const Node& node)
 	{
-		os << "<" << node.name << node.attr << ">";
+		os << "<" << node.name << node.attr << ">" << node.content;
 		for (NodeList::const_iterator i = node.child.begin(), ie = node.child.end(); i != ie; ++i) {
 			os << **i;
 		}
-- 
2.43.0


From 151f3fe6b1aa8acb70d4afed4ad7a7fa63f612d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:26 +0000
Subject: [PATCH 26/70] fix: MiniXml regards the slash of <name/> as a part of
 the name

---
 include/cybozu/minixml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index b788906..39b0870 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -210,7 +210,7 @@ inline bool isName(char c)
 
 inline bool isName2(char c)
 {
-	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>';
+	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>' && c != '/';
 }
 
 struct isAttrValue {
-- 
2.43.0


From af1d32bd148feab629330e8a70e6c3792b4c2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:26 +0000
Subject: [PATCH 27/70] fix: MiniXml leaks the tree if it is used twice or if
 the parse in its constructor fails

---
 include/cybozu/minixml.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 39b0870..3b28f97 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -407,6 +407,9 @@ class MiniXml {
 		is.skipSpace();
 		std::string w = is.getWord(minixml::isName);
 		if (w != "<?xml") throw cybozu::Exception("xml:readHeader:") << w;
+		delete root_;
+		root_ = 0;
+		minixml::Attributes().swap(xmlAttr_);
 		root_ = new minixml::Node();
 		is.parseAttributes(xmlAttr_, false);
 	}
@@ -420,7 +423,12 @@ public:
 	MiniXml(const char *begin, const char *end)
 		: root_(0)
 	{
-		parse(begin, end);
+		try {
+			parse(begin, end);
+		} catch (...) {
+			delete root_;
+			throw;
+		}
 	}
 	template<class InputStream>
 	void parse(InputStream& is)
-- 
2.43.0


From a84f609137d338c1172416d647cadc97f5155cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:26 +0000
Subject: [PATCH 28/70] fix: Time::fromString reads past the end of a short
 text

---
 include/cybozu/time.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index fbf7355..f832bb6 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -110,6 +110,7 @@ public:
 			p = getMonth(&num, p);
 			if (p == 0) goto ERR;
 			tm.tm_mon = num;
+			if (end - p < 12) goto ERR; // -dd hh:mm:ss
 			if (*p++ != sep) goto ERR;
 
 			tm.tm_mday = getNum(&b, p, 2, 1, 31);
@@ -160,7 +161,7 @@ public:
 			*pb = false;
 			return;
 		}
-		throw cybozu::Exception("time::fromString") << std::string(begin, 24);
+		throw cybozu::Exception("time::fromString") << std::string(begin, len < 24 ? len : 24);
 	}
 	void fromString(const char *begin, const char *end) { fromString(0, begin, end); }
 
-- 
2.43.0


From dbc7cead28d1a6732b5097a0506e073a6ea8192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:37 +0000
Subject: [PATCH 29/70] fix: Time::fromString accepts a sign or a NUL in place
 of a digit

---
 include/cybozu/time.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index f832bb6..6abd64e 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -232,6 +232,12 @@ private:
 
 	int getNum(bool *b, const char *in, size_t len, int min, int max) const
 	{
+		for (size_t i = 0; i < len; i++) {
+			if (in[i] < '0' || in[i] > '9') {
+				*b = false;
+				return 0;
+			}
+		}
 		int ret = cybozu::atoi(b, in, len);
 		if (min <= ret && ret <= max) {
 			return ret;
-- 
2.43.0


From 1a4a5bae263b78fa7e7cd9001979c2c2f031fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:37 +0000
Subject: [PATCH 30/70] fix: Time::fromString accepts a day which the month
 does not have

---
 include/cybozu/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 6abd64e..b6f8cfd 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -145,12 +145,14 @@ public:
 			} else {
 				goto ERR;
 			}
+			const int mday = tm.tm_mday;
 #ifdef _WIN32
 			time_ = _mkgmtime64(&tm);
 			if (time_ == -1) goto ERR;
 #else
 			time_ = timegm(&tm);
 #endif
+			if (tm.tm_mday != mday) goto ERR; // no such day in the month
 			if (pb) {
 				*pb = true;
 			}
-- 
2.43.0


From a179aae62810de432760b432f7cd0ce725969835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 31/70] fix: File which fails to seek when it is opened for
 append keeps the descriptor

---
 include/cybozu/file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..0592039 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -127,7 +127,12 @@ class File {
 		setHandle(name, mode);
 		if (isOpen()) {
 			if (mode & std::ios::app) {
-				seek(getSize(), std::ios::beg);
+				try {
+					seek(getSize(), std::ios::beg);
+				} catch (...) {
+					close();
+					throw;
+				}
 			}
 			return;
 		}
-- 
2.43.0


From f3c8c57ac50b2d3d93d7e1db64a4ced16162908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 32/70] fix: the destructor of File does not close the
 descriptor if sync fails

---
 include/cybozu/file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 0592039..63c1fd6 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -168,6 +168,12 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From 7c871665513f634f1475b995604d0ed7d96f9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 33/70] fix: File::read loops forever at the end of the file

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 63c1fd6..e264e5f 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -304,6 +304,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:too short") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From ec246619b41c72273f4f74f09ffdb717dbedac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 34/70] fix: DoesFileExist says that / does not exist

---
 include/cybozu/file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e264e5f..fff5210 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -478,7 +478,7 @@ inline bool DoesFileExist(const std::string& path)
 	if (path.empty()) return false;
 	std::string p = path;
 	char c = p[p.size() - 1];
-	if (c == '/' || c == '\\') {
+	if (p.size() > 1 && (c == '/' || c == '\\')) {
 		p.resize(p.size() - 1);
 	}
 #ifdef _WIN32
-- 
2.43.0


From e8e20dd9e1cf50ff9d362382ba9d4a5f6e3521fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 35/70] fix: AlignedArray accepts a size whose bytes do not fit
 in size_t

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..a7e9688 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -77,6 +77,7 @@ class AlignedArray {
 	size_t allocSize_;
 	T *alloc(size_t size) const
 	{
+		if (size > ~size_t(0) / sizeof(T)) throw std::bad_alloc();
 		T *p = static_cast<T*>(AlignedMalloc(size * sizeof(T), N));
 		if (p == 0) throw std::bad_alloc();
 		return p;
-- 
2.43.0


From 3d7760233946929448e05a2083a674b206c9da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 36/70] fix: NormalRandomGenerator uses the seed as the lower
 bound of the uniform values

---
 include/cybozu/nlp/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/random.hpp b/include/cybozu/nlp/random.hpp
index 93f397d..c2bd542 100644
--- a/include/cybozu/nlp/random.hpp
+++ b/include/cybozu/nlp/random.hpp
@@ -52,7 +52,7 @@ class NormalRandomGenerator {
 	double s_;
 public:
 	explicit NormalRandomGenerator(double u = 0, double s = 1, int seed = 0)
-		: gen_(seed)
+		: gen_(0, 1, seed)
 		, u_(u)
 		, s_(s)
 	{
-- 
2.43.0


From 588167a41a370e974697a7ab90c7d134e439a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 37/70] fix: sparse Union::getMode returns nothing

---
 include/cybozu/nlp/sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..c2ce252 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -449,7 +449,7 @@ class Union {
 			if (isEnd) return;
 			detectMode();
 		}
-		Mode getMode() const { mode_; }
+		Mode getMode() const { return mode_; }
 		size_t pos() const { return pos_; }
 		bool hasVal1() const { return mode_ == Only1 || mode_ == Small || mode_ == Equal; }
 		bool hasVal2() const { return mode_ == Only2 || mode_ == Equal || mode_ == Large; }
-- 
2.43.0


From 2e953155b4683cf743cc697d6180fceabb7121c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 38/70] fix: TopScore::add writes out of the table after
 setSize, getTable or with size 0 or 1

---
 include/cybozu/nlp/top_score.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..45f189a 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -40,6 +40,9 @@ public:
 	}
 	void add(Double score, T idx)
 	{
+		if (maxSize_ == 0) return;
+		// getTable() may have made tbl_ smaller
+		if (tbl_.size() < maxSize_) tbl_.resize(maxSize_);
 		// short cut
 		if (size_ == maxSize_ && score <= tbl_[size_ - 1].score) {
 			return;
@@ -48,7 +51,7 @@ public:
 		if (size_ > 0) {
 			for (size_t i = 0; i < size_; i++) {
 				if (score > tbl_[i].score) {
-					int end = (int)std::min(maxSize_ - 2, size_ - 1);
+					int end = (int)std::min(maxSize_ - 1, size_) - 1;
 					for (int j = end; j >= (int)i; j--) {
 						tbl_[j + 1] = tbl_[j];
 					}
-- 
2.43.0


From 131126d20efe49188797b762b45810ecf1d1afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 39/70] fix: RandomGenerator::read fails for buffers over 2 GiB

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From 2f27957ac889937a8e38849421e58ee2acea79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:49 +0000
Subject: [PATCH 40/70] fix: SocketAddr::set with forceIpV6 does not free the
 first address list

---
 include/cybozu/socket.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..461d583 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -255,6 +255,8 @@ public:
 		const int s = getaddrinfo(address.c_str(), portStr, &hints, &result);
 		// s == EAI_AGAIN
 		if (s || forceIpV6) {
+			if (s == 0) freeaddrinfo(result);
+			result = 0;
 			hints.ai_family = AF_INET6;
 			hints.ai_flags |= AI_V4MAPPED;
 			if (getaddrinfo(address.c_str(), portStr, &hints, &result)) {
-- 
2.43.0


From 3a66ea756aea7fc06cb880dbacc43ff132b54adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:49 +0000
Subject: [PATCH 41/70] fix: a socket stays valid (and open) after a failed
 connect

---
 include/cybozu/socket.hpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 461d583..b54c258 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -552,24 +552,29 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:connect:socket") << cybozu::NetErrorNo();
 		}
-		if (msec == 0) {
-			if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
-				throw cybozu::Exception("Socket:connect") << cybozu::NetErrorNo() << addr.toStr();
-			}
-		} else {
-			setBlocking(false);
-			if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
+		try {
+			if (msec == 0) {
+				if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
+					throw cybozu::Exception("Socket:connect") << cybozu::NetErrorNo() << addr.toStr();
+				}
+			} else {
+				setBlocking(false);
+				if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
 #ifdef _WIN32
-				bool inProgress = WSAGetLastError() == WSAEWOULDBLOCK;
+					bool inProgress = WSAGetLastError() == WSAEWOULDBLOCK;
 #else
-				bool inProgress = errno == EINPROGRESS;
+					bool inProgress = errno == EINPROGRESS;
 #endif
-				if (!inProgress) throw cybozu::Exception("Socket:connect:not in progress") << cybozu::NetErrorNo() << addr.toStr();
-				if (!queryAccept(msec, false)) throw cybozu::Exception("Socket:connect:timeout") << addr.toStr();
-				int err = getSocketOption(SO_ERROR);
-				if (err != 0) throw cybozu::Exception("Socket::connect:bad socket") << cybozu::NetErrorNo(err);
+					if (!inProgress) throw cybozu::Exception("Socket:connect:not in progress") << cybozu::NetErrorNo() << addr.toStr();
+					if (!queryAccept(msec, false)) throw cybozu::Exception("Socket:connect:timeout") << addr.toStr();
+					int err = getSocketOption(SO_ERROR);
+					if (err != 0) throw cybozu::Exception("Socket::connect:bad socket") << cybozu::NetErrorNo(err);
+				}
+				setBlocking(true);
 			}
-			setBlocking(true);
+		} catch (...) {
+			close(cybozu::DontThrow);
+			throw;
 		}
 	}
 
-- 
2.43.0


From 4b5d6b9e6562e8d5a3ed7689851bdf14fcd1fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:49 +0000
Subject: [PATCH 42/70] fix: Socket::setLinger passes a pointer as the option
 value

---
 include/cybozu/socket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index b54c258..ad32999 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -717,7 +717,7 @@ public:
 		struct linger linger;
 		linger.l_onoff = l_onoff;
 		linger.l_linger = l_linger;
-		setSocketOption(SO_LINGER, &linger);
+		setSocketOption(SO_LINGER, linger);
 	}
 	/**
 		get receive buffer size
-- 
2.43.0


From c3a5f3607b1c810b2004b0a91a8f889541e73fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:31 +0000
Subject: [PATCH 43/70] fix: a thread which could not be started is joined in
 the destructor of ThreadBase

---
 include/cybozu/thread.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/thread.hpp b/include/cybozu/thread.hpp
index ad92897..a48b766 100644
--- a/include/cybozu/thread.hpp
+++ b/include/cybozu/thread.hpp
@@ -128,6 +128,7 @@ EXIT:
 		perror("pthread_attr_destroy");
 		return false;
 	}
+	if (ret) hdl = 0; // hdl is undefined if pthread_create fails
 	return ret == 0;
 #endif
 }
-- 
2.43.0


From bd1922d6e3ae6bcbb4977cd826eefa764c048051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:31 +0000
Subject: [PATCH 44/70] fix: parallel_for destroys running threads if a thread
 can not be started

---
 include/cybozu/parallel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..3531ce7 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -28,6 +28,10 @@ struct Thread : public cybozu::ThreadBase {
 		, threadIdx_(0)
 	{
 	}
+	~Thread()
+	{
+		joinThread(); // before the members are destroyed
+	}
 	void init(T& t, N begin, N end, N threadIdx)
 	{
 		t_ = &t;
-- 
2.43.0


From 386f0f6964e2ed91b37c72204eb25dfed757d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:01 +0000
Subject: [PATCH 45/70] fix: parallel_for loses an exception whose message is
 empty

---
 include/cybozu/parallel.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 3531ce7..e33c698 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -20,12 +20,14 @@ struct Thread : public cybozu::ThreadBase {
 	N begin_;
 	N end_;
 	N threadIdx_;
+	bool hasErr_;
 	std::string err_;
 	Thread()
 		: t_(0)
 		, begin_(0)
 		, end_(0)
 		, threadIdx_(0)
+		, hasErr_(false)
 	{
 	}
 	~Thread()
@@ -38,6 +40,7 @@ struct Thread : public cybozu::ThreadBase {
 		begin_ = begin;
 		end_ = end;
 		threadIdx_ = threadIdx;
+		hasErr_ = false;
 		err_.clear();
 	}
 	void threadEntry()
@@ -46,11 +49,13 @@ struct Thread : public cybozu::ThreadBase {
 			try {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
+				hasErr_ = true;
 				err_ = e.what();
 				break;
 			}
 		}
 	}
+	bool hasErr() const { return hasErr_; }
 	const std::string& getErr() const { return err_; }
 };
 
@@ -84,7 +89,7 @@ void parallel_for(T& target, N n, N threadNum)
 		}
 		for (N i = 0; i < threadNum; i++) {
 			const std::string& err = thread[i].getErr();
-			if (!err.empty()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
+			if (thread[i].hasErr()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
 		}
 	}
 }
-- 
2.43.0


From f9849e5c24f355ade277075bdc13e3ff4a1d2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:24 +0000
Subject: [PATCH 46/70] fix: V128::shrBit and shlBit can not be compiled

---
 include/cybozu/v128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/v128.hpp b/include/cybozu/v128.hpp
index d3d129e..67d1bf6 100644
--- a/include/cybozu/v128.hpp
+++ b/include/cybozu/v128.hpp
@@ -318,7 +318,7 @@ template<int n>
 inline void V128::shrBit()
 {
 	assert(n < 64);
-	*this = psrlq<n>(*this) | psllq<64 - n>(psrldq<8>(*this));
+	*this = por(psrlq<n>(*this), psllq<64 - n>(psrldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = psrldq<8>(*this);
@@ -332,7 +332,7 @@ template<int n>
 inline void V128::shlBit()
 {
 	assert(n < 64);
-	*this = psllq<n>(*this) | psrlq<64 - n>(pslldq<8>(*this));
+	*this = por(psllq<n>(*this), psrlq<64 - n>(pslldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = pslldq<8>(*this);
-- 
2.43.0


From 6153a3d359383fc467c1a6386c66d93ff0625582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:16 +0000
Subject: [PATCH 47/70] fix: Logger::openFile leaks the new file if the old one
 can not be closed

---
 include/cybozu/log.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/log.hpp b/include/cybozu/log.hpp
index 21a16fe..593e090 100644
--- a/include/cybozu/log.hpp
+++ b/include/cybozu/log.hpp
@@ -94,7 +94,10 @@ public:
 		fp = fopen(path.c_str(), "a+b");
 #endif
 		if (fp == 0) throw cybozu::Exception("cybozu:Logger:openFile") << path;
-		if (!closeFile()) throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		if (!closeFile()) {
+			fclose(fp);
+			throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		}
 		fp_ = fp;
 		doClose_ = true;
 		useSyslog_ = false;
-- 
2.43.0


From 28cdecf44a2bd6000bf9d4fb0638898ae66451c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:36 +0000
Subject: [PATCH 48/70] fix: process::Start uses an uninitialized variable to
 close the descriptors in the child

---
 include/cybozu/process.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..0ba6036 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -59,6 +59,7 @@ public:
 		}
 		return true;
 	}
+	int getFd(Mode mode) const { return fd_[mode]; }
 	void close(Mode mode)
 	{
 		if (fd_[mode] != -1) {
@@ -169,9 +170,10 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
 			for (int i = 3; i < maxFd; i++) {
-				close(i);
+				// the pipe is used if execv fails
+				if (i != pipe.getFd(Pipe::Write)) close(i);
 			}
 		}
 
-- 
2.43.0


From 475614d4f1f28fc7a8ec96acd7adee1ba001dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:36 +0000
Subject: [PATCH 49/70] fix: the child of process::Start flushes the buffers of
 the parent if execv fails

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 0ba6036..2802903 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -184,7 +184,7 @@ ERR_EXIT:
 		*/
 		pipe.write("x", 1);
 		pipe.close(Pipe::Write);
-		::exit(1);
+		::_exit(1); // don't flush the buffers of the parent
 	}
 
 	pipe.close(Pipe::Write);
-- 
2.43.0


From a33fd8568e9dd6ece544b3ce85da97f04c9711f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:36 +0000
Subject: [PATCH 50/70] fix: process::Start leaves a zombie if execv fails

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 2802903..aecfecb 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -195,7 +195,7 @@ ERR_EXIT:
 		otherwise gets 'x' from child
 	*/
 	if (pipe.read(buf, 1) == 1) {
-		waitpid(pid, 0, WNOHANG);
+		while (waitpid(pid, 0, 0) < 0 && errno == EINTR) {}
 		return false;
 	}
 
-- 
2.43.0


From d58594c852a8a3ff8ab698f4ca8a20abd0cb07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:36 +0000
Subject: [PATCH 51/70] fix: process::Start takes an interrupted read for a
 success

---
 include/cybozu/process.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index aecfecb..c73e974 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -73,7 +73,11 @@ public:
 	}
 	int read(char* buf, size_t size)
 	{
-		return ::read(fd_[Read], buf, size);
+		int ret;
+		do {
+			ret = ::read(fd_[Read], buf, size);
+		} while (ret < 0 && errno == EINTR);
+		return ret;
 	}
 	~Pipe()
 	{
-- 
2.43.0


From 829714fa428c4fb53177691ab9fdfed48b5fac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 52/70] fix: nlp/tfidf.hpp can not be compiled alone

---
 include/cybozu/nlp/tfidf.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index be31cfc..20e4375 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -8,7 +8,11 @@
 #include <set>
 #include <map>
 #include <string>
+#include <vector>
+#include <algorithm>
+#include <fstream>
 #include <stdio.h>
+#include <math.h>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/nlp/sparse.hpp>
 
-- 
2.43.0


From 12e733e2fe6761b3c7176661dacca6939d7cfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 53/70] fix: Df counts a document twice if a word appears in
 upper and lower case

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 20e4375..7e95985 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -78,7 +78,7 @@ struct Df {
 			id2word_.push_back(lower);
 			df_.resize(id2word_.size());
 		}
-		if (set_.insert(word).second) {
+		if (set_.insert(lower).second) {
 			df_[ret.first->second]++;
 		}
 	}
-- 
2.43.0


From 56358dd5d930832f8cd055a5f68111d03894fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 54/70] fix: TfIdf::term takes the number of words for the
 number of documents

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 7e95985..824bf2e 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -191,7 +191,7 @@ struct TfIdf {
 		for (size_t i = 0, n = df_.size(); i < n; i++) {
 			idf_[i] = logN - log(double(df_[i]));
 		}
-		for (size_t i = 0, n = df_.size(); i < n; i++) {
+		for (size_t i = 0, n = tf_.size(); i < n; i++) {
 			const Int2Int& iv = tf_[i];
 			DoubleSvec v;
 			for (Int2Int::const_iterator j = iv.begin(), je = iv.end(); j != je; ++j) {
-- 
2.43.0


From 3d1f7f07f7383b1a41108ac79fc3e2875360c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 55/70] fix: Plsi::startLearning can not be called twice

---
 include/cybozu/nlp/plsi.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index a03b0be..defd9ba 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -220,8 +220,9 @@ public:
 	{
 		size_t M = users_.size();
 		size_t N = items_.size();
-		user_z_.resize(K);
-		item_z_.resize(K);
+		z_.clear();
+		user_z_.assign(K, DoubleVec());
+		item_z_.assign(K, DoubleVec());
 		cybozu::nlp::UniformRandomGenerator rand(0.25, 0.75);
 		for (int k = 0; k < K; k++) {
 			// initialize p(z=k)
-- 
2.43.0


From f3573abd0eb0d3a7ab9367aeeb4dddc68be06d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 56/70] fix: Plsi::search_items and similar_items read out of
 range for an unknown key

---
 include/cybozu/nlp/plsi.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index defd9ba..945052b 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -103,6 +103,7 @@ public:
 		@brief retrieve relevant items for query user
 	*/
 	cybozu::nlp::TopScore<size_t>::Table search_items(USER_TYPE user, int top = 10) {
+		if (!hasKey(users_, user)) return cybozu::nlp::TopScore<size_t>::Table();
 		int K = (int)z_.size();
 		size_t user_id = get_user_id(user);
 
@@ -129,6 +130,7 @@ public:
 		@brief retrieve similar items for query item
 	*/
 	cybozu::nlp::TopScore<size_t>::Table similar_items(ITEM_TYPE item, SEARCH_TYPE search_type, int top=10) {
+		if (!hasKey(items_, item)) return cybozu::nlp::TopScore<size_t>::Table();
 		int K = (int)z_.size();
 		size_t target_item_id = get_item_id(item);
 
-- 
2.43.0


From f3485cf9abd2a2417624ba41bca05554e8642ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:13 +0000
Subject: [PATCH 57/70] fix: LoadSparseMatrix breaks the matrix if the indices
 of a row are not sorted

---
 include/cybozu/nlp/svd.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 6a2f3a0..99de414 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -7,6 +7,7 @@
 	@author MITSUNARI Shigeo
 */
 #include <assert.h>
+#include <map>
 #include <vector>
 #include <string>
 #include <fstream>
@@ -338,7 +339,7 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 			return false;
 		}
 		std::istringstream is(line);
-		M.startVec(i);
+		std::map<int, double> vals; // the index may not be sorted
 		for (;;) {
 			int idx;
 			char sep;
@@ -349,7 +350,11 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
-			M.insertBack(i, idx) = typename Matrix::Scalar(v);
+			vals[idx] = v;
+		}
+		M.startVec(i);
+		for (std::map<int, double>::const_iterator j = vals.begin(), je = vals.end(); j != je; ++j) {
+			M.insertBack(i, j->first) = typename Matrix::Scalar(j->second);
 		}
 	}
 	M.finalize();
-- 
2.43.0


From d6c4bd820892b01791ff6848e01bd95d513617e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 58/70] fix: a malformed element of a sparse matrix file drops
 the rest of its line silently

---
 include/cybozu/nlp/svd.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 99de414..da22ecc 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -292,9 +292,9 @@ bool LoadMatrix(Matrix& M, const std::string& input)
 				int idx;
 				char sep;
 				double v;
-				is >> idx >> sep >> v;
-				if (!is) break;
-				if (sep != ':' || idx < 0 || idx >= col) {
+				if (!(is >> idx) && is.eof()) break;
+				is >> sep >> v;
+				if (!is || sep != ':' || idx < 0 || idx >= col) {
 					fprintf(stderr, "can't read %s\n", line.c_str());
 					return false;
 				}
@@ -344,9 +344,9 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 			int idx;
 			char sep;
 			double v;
-			is >> idx >> sep >> v;
-			if (!is) break;
-			if (sep != ':' || idx < 0 || idx >= col) {
+			if (!(is >> idx) && is.eof()) break;
+			is >> sep >> v;
+			if (!is || sep != ':' || idx < 0 || idx >= col) {
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
-- 
2.43.0


From 7af09829dfaa51cf8d63f0da60963d3a4184752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 59/70] fix: ssl::Engine frees memory of OpenSSL twice at exit

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..428209d 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -40,8 +40,10 @@ struct Engine {
 		ENGINE_cleanup();
 		ERR_free_strings();
 //		CONF_modules_unload(1); // openssl/conf.h
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
 		/* this decreases one leak, but is this correct? */
 		OPENSSL_free(SSL_COMP_get_compression_methods());
+#endif
 	}
 	static Engine& getInstance()
 	{
-- 
2.43.0


From f9d1f2e76a57f1d0dadef40e7072af27f1f18d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 60/70] fix: ssl::ClientSocket::read does not end if the peer
 closes the connection

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 428209d..4f0757b 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -158,6 +158,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:can't read") << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From 65adf77df99025a2f35745743e31c9d23dc0678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 61/70] fix: ssl::ClientSocket::close throws unless the peer
 has already closed the connection

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 4f0757b..60d2999 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -183,7 +183,7 @@ public:
 	{
 		bool isOK = true;
 		if (soc_.isValid()) {
-			isOK = SSL_shutdown(ssl_) == 1;
+			isOK = SSL_shutdown(ssl_) >= 0; // 0 means that close_notify is sent
 			if (!isOK) {
 				Engine::getInstance().putError();
 			}
-- 
2.43.0


From 4ca47ee98093fc6a7d75e17339725e877779b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 62/70] fix: ssl::ClientSocket can not be connected again after
 close

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 60d2999..6e16d5d 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -132,6 +132,8 @@ public:
 			throw cybozu::Exception("ssl:ClientSocket:connect:large socket handle") << soc_.sd_;
 		}
 #endif
+		isOK = SSL_clear(ssl_) == 1; // forget the previous connection
+		if (!isOK) goto ERR_EXIT;
 		isOK = SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
 		if (!isOK) goto ERR_EXIT;
 		isOK = SSL_connect(ssl_) == 1;
-- 
2.43.0


From c02c3b464a7008b97e632dd7aedace7e820ab698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 63/70] fix: quit_signal_handler.hpp can not be compiled alone

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From ca6a2d55030139c69b2d507a83029a7345e24084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:40 +0000
Subject: [PATCH 64/70] fix: Socket::bind closes the socket when an option
 cannot be set

---
 include/cybozu/socket.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index ad32999..d906945 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -591,13 +591,20 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
 		}
-		setSocketOption(SO_REUSEADDR, 1);
+		try {
+			setSocketOption(SO_REUSEADDR, 1);
+			if (mode & allowIPv6) {
+				setSocketOption(IPV6_V6ONLY, (mode & allowIPv4) ? 0 : 1, IPPROTO_IPV6);
+			}
+		} catch (...) {
+			close(cybozu::DontThrow);
+			throw;
+		}
 		struct sockaddr_in6 addr6;
 		struct sockaddr_in addr4;
 		struct sockaddr *addr;
 		socklen_t addrLen;
 		if (mode & allowIPv6) {
-			setSocketOption(IPV6_V6ONLY, (mode & allowIPv4) ? 0 : 1, IPPROTO_IPV6);
 			memset(&addr6, 0, sizeof(addr6));
 			addr6.sin6_family = AF_INET6;
 			addr6.sin6_port = htons(port);
-- 
2.43.0


From 399baffa50923ab53ff667453d87fb1194c2b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 65/70] fix: a copy of Frequency refers to the elements of its
 original

---
 include/cybozu/frequency.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/cybozu/frequency.hpp b/include/cybozu/frequency.hpp
index 851ce45..7970954 100644
--- a/include/cybozu/frequency.hpp
+++ b/include/cybozu/frequency.hpp
@@ -169,8 +169,25 @@ class Frequency {
 		}
 		std::sort(idx2ref_.begin(), idx2ref_.end(), greater);
 	}
+	void copyFrom(const Frequency& rhs)
+	{
+		// idx2ref_ must refer to elements of the own map
+		Map m(rhs.m_);
+		Idx2Ref idx2ref(rhs.idx2ref_.size());
+		for (size_t i = 0, ie = idx2ref.size(); i < ie; i++) {
+			idx2ref[i] = m.find(rhs.idx2ref_[i]->first);
+		}
+		m_.swap(m);
+		idx2ref_.swap(idx2ref);
+	}
 public:
 	Frequency(){ clear(); }
+	Frequency(const Frequency& rhs) { copyFrom(rhs); }
+	Frequency& operator=(const Frequency& rhs)
+	{
+		if (this != &rhs) copyFrom(rhs);
+		return *this;
+	}
 	template<class Iter>
 	Frequency(Iter begin, Iter end)
 	{
-- 
2.43.0


From 10bf4612f4f80e809f8e8655424f2c08db6a0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 66/70] fix: a copy of crypto::Hash frees the context of its
 original

---
 include/cybozu/crypto.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 78c95e0..4149dcd 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -123,6 +123,22 @@ public:
 		reset();
 	}
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
+	Hash(const Hash& rhs)
+		: name_(rhs.name_)
+		, hashSize_(rhs.hashSize_)
+		, ctx_(EVP_MD_CTX_new())
+	{
+		EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+	}
+	Hash& operator=(const Hash& rhs)
+	{
+		if (this != &rhs) {
+			name_ = rhs.name_;
+			hashSize_ = rhs.hashSize_;
+			EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+		}
+		return *this;
+	}
 	~Hash()
 	{
 		EVP_MD_CTX_free(ctx_);
-- 
2.43.0


From da1bb478d005503bb223ec02f2b7e6f9ea1e4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 67/70] fix: a copy of crypto::Cipher frees the context of its
 original, and a bad name leaks a context

---
 include/cybozu/crypto.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 4149dcd..e1770f8 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -285,6 +285,14 @@ public:
 class Cipher {
 	const EVP_CIPHER *cipher_;
 	EVP_CIPHER_CTX *ctx_;
+	void copyCtx(const Cipher& rhs)
+	{
+		if (EVP_CIPHER_CTX_cipher(rhs.ctx_) == 0) { // setup() is not called
+			EVP_CIPHER_CTX_reset(ctx_);
+		} else if (EVP_CIPHER_CTX_copy(ctx_, rhs.ctx_) != 1) {
+			throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_copy");
+		}
+	}
 public:
 	enum Name {
 		N_AES128_CBC,
@@ -315,8 +323,6 @@ public:
 		: cipher_(0)
 		, ctx_(0)
 	{
-		ctx_ = EVP_CIPHER_CTX_new();
-		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
 		switch (name) {
 		case N_AES128_CBC: cipher_ = EVP_aes_128_cbc(); break;
 		case N_AES192_CBC: cipher_ = EVP_aes_192_cbc(); break;
@@ -327,6 +333,23 @@ public:
 		default:
 			throw cybozu::Exception("crypto:Cipher:Cipher:name") << (int)name;
 		}
+		ctx_ = EVP_CIPHER_CTX_new();
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
+	}
+	Cipher(const Cipher& rhs)
+		: cipher_(rhs.cipher_)
+		, ctx_(EVP_CIPHER_CTX_new())
+	{
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
+		copyCtx(rhs);
+	}
+	Cipher& operator=(const Cipher& rhs)
+	{
+		if (this != &rhs) {
+			copyCtx(rhs);
+			cipher_ = rhs.cipher_;
+		}
+		return *this;
 	}
 	~Cipher()
 	{
-- 
2.43.0


From 07d843e71c69d58c7dee76b030da62ce6cb183ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 68/70] fix: a copy of Sha256 or Sha512 with OpenSSL frees the
 context of its original

---
 include/cybozu/sha2.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index b977a4c..70b71c4 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -60,6 +60,20 @@ struct NewHash {
 		}
 		assert(md_);
 	}
+	NewHash(const NewHash& rhs)
+		: mdctx_(EVP_MD_CTX_new())
+		, md_(rhs.md_)
+	{
+		EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+	}
+	NewHash& operator=(const NewHash& rhs)
+	{
+		if (this != &rhs) {
+			md_ = rhs.md_;
+			EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+		}
+		return *this;
+	}
 	~NewHash()
 	{
 		EVP_MD_CTX_free(mdctx_);
-- 
2.43.0


From f816c3c389a4a749814a522214e01e51107a423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 69/70] fix: intToDec overflows for the minimum of int

---
 include/cybozu/itoa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/itoa.hpp b/include/cybozu/itoa.hpp
index 9686938..e66416a 100644
--- a/include/cybozu/itoa.hpp
+++ b/include/cybozu/itoa.hpp
@@ -132,7 +132,7 @@ size_t intToDec(char *buf, size_t bufSize, T x)
 		}
 	}
 	bool negative = x < 0;
-	uint64_t absX = negative ? -x : x;
+	uint64_t absX = negative ? 0 - uint64_t(x) : uint64_t(x); // -x overflows if x is the minimum of T
 	size_t n = uintToDec(buf, bufSize, absX);
 	if (n == 0) return 0;
 	if (negative) {
-- 
2.43.0


From 35c32ab842de9f7bec2ccd622e8a09ac4128e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:22 +0000
Subject: [PATCH 70/70] fix: Option prints the values of a vector of int8_t or
 uint8_t as characters

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 7ea2a1e..fb78491 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -240,7 +240,7 @@ struct Holder<Container<T, Alloc> > : public HolderBase {
 			} else {
 				os << ' ';
 			}
-			os << *i;
+			convertToStr(os, &*i);
 		}
 		return os.str();
 	}
-- 
2.43.0

