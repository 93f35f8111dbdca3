From 3084a60898120ef95abbd39187ded094797d4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 01/65] fix: SPSC FIFO consumer must acquire head before
 reading the element

---
 util/lockfree_fifo_spsc.hh     | 4 ++--
 util/lockfree_fifo_spsc_dyn.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..3c822d2 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -66,7 +66,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -80,7 +80,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..9f7763d 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
-- 
2.43.0


From 95bd17c54952cd96079089856eaf2456c82408fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 02/65] fix: SPSC FIFO reset must release the slots it discards

---
 util/lockfree_fifo_spsc.hh     | 2 +-
 util/lockfree_fifo_spsc_dyn.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 3c822d2..a74f685 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -128,7 +128,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index 9f7763d..c65acb0 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From b1f1210004d001cb5a8306749908cae3aa2d7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 03/65] fix: FilteredInterpArray must acquire when clearing the
 new-data flag

---
 util/filtered_interp_array.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index 31198ef..ec855fe 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -26,7 +26,7 @@ struct FilteredInterpArray {
 	// read_fn: (unsigned i) -> T
 	void add_new_readings(auto read_fn) {
 		if (_new_data_ready) {
-			_new_data_ready = false;
+			_new_data_ready.exchange(false);
 
 			if (_update_count > 0)
 				_num_updates = _update_count;
-- 
2.43.0


From 508fda03d9a00986ed181d6a2c60bcabbfbc8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 04/65] fix: LockFreeFifoSpsc must copy every element of its
 initial contents

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index a74f685..809b1b3 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -17,7 +17,8 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		for (size_t i = 0; i < max_size_; i++)
+			buf_[i] = src[i];
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 42fc3bde2e03baf1723818b8beae0e0e75935be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 05/65] fix: CircularBufferOpt::fill_buffer must fill every
 element

---
 util/circular_buffer_opt.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..0033c0b 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,11 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		buf_.fill(val);
 	}
 
 	// Alias for count()
-- 
2.43.0


From 0b81952873125b02fa9f50cfdc080e435fd7af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 06/65] fix: CircularBufferBlock::write must copy elements, not
 bytes

---
 util/circular_buffer_block.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..3ea0d5e 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::copy(block.begin(), block.end(), begin);
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::copy(block.begin(), block.begin() + space_avail, begin);
+			std::copy(block.begin() + space_avail, block.end(), data.begin());
 		}
 	}
 
-- 
2.43.0


From 3c88f838aafc3092b853d208bda54c7381f57f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 07/65] fix: SequentialMap::insert must store the value

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..7c133e1 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -49,7 +49,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From fb5299781f1388c13f827ac1138cdf25a133a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 08/65] fix: SequentialMap const lookup must not return a
 dangling reference

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 7c133e1..b978ef5 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT none{};
+		return none;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From b01d5cb0e17990c6b94855870f5cd880f5184bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 09/65] fix: SeqMap::remove must not leave an entry that
 matches the default key

---
 util/seq_map.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index c031b43..4ade7e1 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -62,14 +62,19 @@ struct SeqMap {
 
 	// returns true if found and removed
 	bool remove(KeyT key) {
-		auto active_keys = std::span<KeyT>{keys}.subspan(0, sz);
-		for (size_t i = 0; auto &k : active_keys) {
-			if (k == key) {
-				k = KeyT{};
-				vals[i] = ValT{};
+		for (size_t i = 0; i < sz; i++) {
+			if (keys[i] == key) {
+				for (size_t j = i + 1; j < sz; j++) {
+					keys[j - 1] = keys[j];
+					vals[j - 1] = vals[j];
+				}
+				sz--;
+				keys[sz] = KeyT{};
+				vals[sz] = ValT{};
+				if (oldest > i)
+					oldest--;
 				return true;
 			}
-			i++;
 		}
 		return false;
 	}
-- 
2.43.0


From 55430e4f8a64a45d7b6dd4413c53a1dda04ff2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 10/65] fix: MonotonicAllocator must be able to allocate its
 last byte

---
 util/monotonic_allocator.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index ac81066..2027708 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -10,7 +10,7 @@ public:
 
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
-		if (bytesRemaining > size) {
+		if (bytesRemaining >= size) {
 			auto result = &arena[offset];
 			offset += size;
 
-- 
2.43.0


From 27edc48e7862cbc0e2a6da2f76ac648e80dc7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 11/65] fix: AlignedAllocator must fail rather than wrap the
 requested size

---
 util/aligned_allocator.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..ea7858b 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -13,7 +13,7 @@ public:
 	}
 
 	T *allocate(std::size_t n) {
-		if (n == 0)
+		if (n == 0 || n > (std::size_t(-1) - Alignment) / sizeof(T))
 			return nullptr;
 
 		std::size_t size = n * sizeof(T);
-- 
2.43.0


From 313fb99804c10a1bcfc89b0083616ce3097b4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 12/65] fix: StaticString of capacity 0 must not write past its
 storage

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From 154d6218dfaa773002a9a813a14140e6b1bb69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 13/65] fix: CircularBuffer::first() const must be usable

---
 util/circular_buffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..0500c81 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -45,7 +45,7 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	const T &first() const {
 		return buf_[tail_];
 	}
 
-- 
2.43.0


From 11afebd6f93b2af3056bcbc80236daacdfffe923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 14/65] fix: CircularStack must contain the elements it is
 constructed with

---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..2e8a7c5 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(t) % MaxElements}
+		, full{sizeof...(t) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 9d63b88aa2cd47436a96ceb2118e826c58b8ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 15/65] fix: CompactBinaryParser must reject stored sizes that
 wrap around

offset + size overflowed for 64-bit size types, and a negative size of a
signed size type passed the check, yielding a span outside the blob.
---
 util/compact_binary_parser.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..102600c 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (size_t(sz) <= blob.size() - offset) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,8 +67,8 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
-			return blob.subspan(offset, sz);
+		if (size_t(sz) <= blob.size() - offset)
+			return blob.subspan(offset, size_t(sz));
 		else
 			return {};
 	}
-- 
2.43.0


From 998f5a56fdf21ac4e1cc1c81d585b33f42c0de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 16/65] fix: WearLevel must not query or write cells past the
 end of the block

With the block full, is_writeable() was asked about the cell after the last
one; if the memory there happened to be blank it was written.
---
 util/wear_level.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..2f4fad2 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -59,7 +59,7 @@ public:
 	// Otherwise it writes the data and returns the result of the low-level write.
 	bool write(const data_t &data) {
 		bool erased_once = false;
-		while (!storage.is_writeable(cell_)) {
+		while (cell_ >= Storage::NumCells || !storage.is_writeable(cell_)) {
 			cell_++;
 			if (cell_ >= Storage::NumCells) {
 				if (erased_once)
@@ -108,7 +108,7 @@ public:
 
 	bool write(const data_t &data) {
 		bool erased_once = false;
-		while (!Storage::is_writeable(cell_)) {
+		while (cell_ >= Storage::cell_nr_ || !Storage::is_writeable(cell_)) {
 			cell_++;
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
-- 
2.43.0


From 0c6580c262506e42528d5e1113f46ac39b667c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 17/65] fix: WearLevel must keep the stored data readable when
 erasing fails

WearLeveler went back to cell 0, so read() found nothing although the data
was intact, and a partial erase let a later write land below older data.
WearLevel moved past the end and read a cell outside the block.
---
 util/wear_level.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 2f4fad2..e26b84a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -65,7 +65,8 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					// Stay at the top: the block may still contain valid data
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
@@ -113,8 +114,11 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					// Stay at the top: the block may still contain valid data
+					cell_ = Storage::cell_nr_;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 3d9ed5447d6b910b300b5685bba6b690afe9accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 18/65] fix: WearLevel::read must not report a cell it could
 not read

The result of the storage read was ignored, so whatever the caller's object
held before was returned as stored data if it happened to be valid.
---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index e26b84a..2642372 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -99,8 +98,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From cf462e221d669e2c185d93a228ff126ca585a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 19/65] fix: DoubleBufferStream must recover when a
 transmission cannot be started

A refused start left the stream marked as busy forever: later data was queued
but never sent, and data refused by transmit() stayed in the buffer.
---
 util/doublebuf_stream.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/doublebuf_stream.hh b/util/doublebuf_stream.hh
index 0fbd8aa..63887f5 100644
--- a/util/doublebuf_stream.hh
+++ b/util/doublebuf_stream.hh
@@ -44,7 +44,8 @@ struct DoubleBufferStream {
 
 	// Pushes to the inactive buffer and starts transmission if it's not already started
 	bool transmit(std::span<T> word) {
-		auto inactive_idx = 1 - in_progress_idx.value_or(1);
+		// If idle, then use the buffer that still holds data from a failed start, if any
+		unsigned inactive_idx = in_progress_idx.has_value() ? 1 - in_progress_idx.value() : tx_buffer[1].size() ? 1 : 0;
 		auto &inactive_buf = tx_buffer[inactive_idx];
 
 		if (inactive_buf.available() >= word.size()) {
@@ -56,7 +57,12 @@ struct DoubleBufferStream {
 			// Start a new transmission if one isn't in progress
 			if (!in_progress_idx.has_value()) {
 				// pr_dbg("DBS::transmit(): no tx in progress, so starting now\n");
-				return start_tx(inactive_idx);
+				if (start_tx(inactive_idx))
+					return true;
+				// Not accepted: remove it again
+				for (size_t i = 0; i < word.size(); i++)
+					inactive_buf.pop_back();
+				return false;
 			}
 
 			// tx_done_callback() will transmit our data when it's called
@@ -94,6 +100,8 @@ private:
 		// pr_dbg("DBS::start_tx(): starting tx of buffer[%u]\n", idx);
 		auto &active_buf = tx_buffer[idx];
 		auto res = transmit_func({active_buf.begin(), active_buf.size()});
+		if (!res)
+			in_progress_idx = std::nullopt;
 		return res;
 	}
 };
-- 
2.43.0


From ad44f01de2af90fa97da23a36741388c2de8a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 20/65] fix: int_to_str must not drop zero digits

Both conversions skipped every zero inside or at the end of the number
(101 became "11"), and int_to_str_chop converted 1, 10, 100... wrongly.
---
 util/int_to_str.cc | 52 +++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..53d4673 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,8 +19,9 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, unsigned avail, bool &started) {
+	if (started || value >= Place) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return avail > Log10<Place>() ? '0' + dig : 0;
@@ -45,26 +46,27 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	unsigned val = value;
+	bool started = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,8 +77,9 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &started) {
+	if (started || value >= Place) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return '0' + dig;
@@ -118,26 +121,27 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		return false;
 
 	unsigned val = value;
+	bool started = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 51833ad06ac5392640b7df5c83977c1672c4a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 21/65] fix: int_to_str must respect buffers of 0 or 1
 characters

Zero was written past the end of the buffer, and int_to_str_chop left a
one-character buffer unterminated.
---
 util/int_to_str.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 53d4673..3d288f4 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -31,8 +31,12 @@ char digit(unsigned &value, unsigned avail, bool &started) {
 } // namespace
 
 void int_to_str_chop(int32_t value, const std::span<char> buf) {
-	if (buf.size() <= 1)
+	if (buf.size() == 0)
 		return;
+	if (buf.size() == 1) {
+		buf[0] = '\0';
+		return;
+	}
 
 	if (value == 0) {
 		buf[0] = '0';
@@ -111,6 +115,8 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		value = -value;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
-- 
2.43.0


From 9a8aa239808f1f5588827ab36c5cde85e40c12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 22/65] fix: int_to_str must not overflow when negating
 INT32_MIN

---
 util/int_to_str.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 3d288f4..77a682a 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -47,7 +47,7 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	unsigned len = 0;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
+		value = int32_t(0u - uint32_t(value)); // also defined for INT32_MIN
 	}
 	unsigned val = value;
 	bool started = false;
@@ -112,7 +112,7 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
+		value = int32_t(0u - uint32_t(value)); // also defined for INT32_MIN
 	}
 	if (value == 0) {
 		if (buf.size() < 2)
-- 
2.43.0


From e87bf020b8792fc4432e393d12c4bbc9524c785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 23/65] fix: printone must not overflow when negating INT32_MIN

---
 util/print.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..23269fa 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -50,7 +50,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = 0u - unsigned(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From 6c73c61cee6ab64520ba726e75536c9859ecb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 24/65] fix: printone(string_view) must print exactly the view

It printed up to the next terminator, reading past views that are not
null-terminated.
---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index 23269fa..27b6973 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From f68c714929d2b93331c1467ce3c04b5852bbb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 25/65] fix: Version must not read past the end of the text it
 parses

A string_view is not null-terminated: parsing the first five characters of
"1.2.34" gave revision 34.
---
 util/version_tools.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..93f565f 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include <cstdint>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 namespace VersionUtil
@@ -46,7 +47,7 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
+			auto num = strtol(std::string(token).c_str(), nullptr, 10);
 			set_field(i++, num);
 
 			if (pos == std::string_view::npos) {
-- 
2.43.0


From 6b9cb61015febb10c3d834d9600d7b7ea07fc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 26/65] fix: Version must ignore numbers that wrap around to a
 small value

4294967297 is larger than 255 but was accepted as 1 where long has 64 bits.
---
 util/version_tools.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index 93f565f..ecffe10 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -13,7 +13,7 @@ struct Version {
 	uint8_t revision{};
 	bool is_normal{true}; // i.e. not a pre-release
 
-	void set_field(unsigned index, unsigned val) {
+	void set_field(unsigned index, unsigned long val) {
 		//sanity check:
 		if (val > 255)
 			return;
-- 
2.43.0


From a7d86f2f25c6939cdf2a881a256212125e1ae524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 27/65] fix: ReplaceString::replace_all must continue after the
 replacement

It advanced by the length of the text it had searched for: a shorter
replacement skipped matches, a longer one was searched again.
---
 util/string_util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..aee19fa 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -17,7 +17,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From 27c495690477cc2699822966d8ab2d5b168f069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 28/65] fix: ReplaceString::replace_all must terminate for an
 empty search text

---
 util/string_util.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string_util.hh b/util/string_util.hh
index aee19fa..d0d249c 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -10,6 +10,8 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
-- 
2.43.0


From efcc112ecd890aa8bca2d0d9ac031be33aa679f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 29/65] fix: next_power_of_2 of 64-bit values

is_power_of_2 takes an unsigned int: a 64-bit value whose low half is a power
of two was returned unchanged.
---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..0ac0c71 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -103,7 +103,7 @@ constexpr T next_power_of_2(T value) noexcept {
 	if (value == 0 || value == 1)
 		return 1;
 
-	if (is_power_of_2(value))
+	if ((value & (value - 1)) == 0)
 		return value;
 
 	value |= value >> 1;
-- 
2.43.0


From a803492fd67956ca1d724c869c4ddd03732a25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 30/65] fix: hysteresis_gate turns on only above turn_on_thresh

It turned on halfway between the two thresholds.
---
 util/math.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 0ac0c71..c5fe81c 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -336,11 +336,8 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
-	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
-	return test_signal > threshold ? 1.f : 0.f;
+	bool gate = last_output > 0.5f ? new_input >= turn_off_thresh : new_input > turn_on_thresh;
+	return gate ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0


From d4d37be4fcf714586591acde3056dc739b18200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 31/65] fix: InterpArray wraps negative phases

A negative index was converted to unsigned int, which is undefined, so
interp_wrap() and with it MathTools::sin(), cos() and tan() returned garbage
for negative arguments.
---
 util/interp_array.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..7da3b29 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -22,7 +22,8 @@ struct InterpArray {
 	}
 
 	// Return an interpolated value where index = 0 and index = Size are the first element
-	constexpr T interp_by_index_wrap(const PhaseT index) const {
+	constexpr T interp_by_index_wrap(PhaseT index) const {
+		index = wrap_negative(index);
 		unsigned int idx0 = static_cast<unsigned int>(index);
 		const auto phase = index - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
@@ -64,7 +65,7 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		auto idx = static_cast<unsigned int>(wrap_negative(phase * Size));
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
@@ -77,4 +78,14 @@ struct InterpArray {
 		const auto idx = static_cast<unsigned int>(phase * (Size - 1));
 		return data[idx];
 	}
+
+private:
+	// Shift a negative index up by a multiple of Size, since it can't be converted to unsigned
+	static constexpr PhaseT wrap_negative(const PhaseT index) {
+		if (index < 0) {
+			const auto size = static_cast<PhaseT>(Size);
+			return index + size * static_cast<PhaseT>(static_cast<unsigned int>(-index / size) + 1);
+		}
+		return index;
+	}
 };
-- 
2.43.0


From 4e806ea9c93588586c14ebf56620516114c4751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 32/65] fix: pow2 of negative numbers

The table was read with a negative index.
---
 util/math.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index c5fe81c..6c412d3 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -274,6 +274,10 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 static inline constexpr float pow2(float x) {
 	x = x / 5.0f;
 	float res = 1.f;
+	while (x < 0.f) {
+		res /= 32.f;
+		x += 1.f;
+	}
 	for (;;) {
 		if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
-- 
2.43.0


From 5651abb1c6ccf90a21b1ff8da032e5d368d4bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 33/65] fix: TriangleOscillator::set_period_ms resolves
 milliseconds

The period was truncated to seconds: below 1000 ms it divided by zero.
---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..31a984a 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint64_t>(freq_units) * 1000 / period_ms;
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From 2ae2f5e764bd2fca81bbc8033d4aaa9f82811e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 34/65] fix: AudioFrame::scaleOutput saturates to UsedBits

Signed samples narrower than their type were always saturated to 24 bits.
---
 util/audio_frame.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..05dad2c 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -36,7 +36,7 @@ public:
 
 			if constexpr (kSampleTypeBits > UsedBits) {
 				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
+				return MathTools::signed_saturate(v, UsedBits);
 			} else {
 				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
 				return static_cast<SampleType>(v * kOutScaling);
-- 
2.43.0


From d9b4a63386aa6fa0dcc732eddde7066c8becc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 35/65] fix: AudioFrame::scaleOutput saturates 32-bit and
 overloaded samples

Full scale of a 32-bit sample and large values of narrower ones were converted
from a float outside the range of the sample type, giving negative full scale.
---
 util/audio_frame.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 05dad2c..64513bc 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -35,16 +35,17 @@ public:
 		if constexpr (std::is_signed_v<SampleType>) {
 
 			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
+				auto v = static_cast<SampleType>(MathTools::constrain(val, -1.f, 1.f) * kOutScaling);
 				return MathTools::signed_saturate(v, UsedBits);
 			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
+				const float v = MathTools::constrain(val, -1.f, 1.f);
+				return v < 1.f ? static_cast<SampleType>(v * kOutScaling) : static_cast<SampleType>(kMaxValue - 1);
 			}
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
-			return v * (MathTools::ipow(2, UsedBits) - 1);
+			constexpr auto max = static_cast<SampleType>(MathTools::ipow(2, UsedBits) - 1);
+			return v < 1.f ? static_cast<SampleType>(v * max) : max;
 		}
 	}
 
-- 
2.43.0


From e9a3be035a251f3ee0bb17fc1398c9e8286f84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 36/65] fix: AudioFrame sign extension of 8- and 16-bit types

Samples were accessed as a 4-byte struct, which reads beyond 8- and 16-bit
samples and breaks type-based alias analysis: at -O2 stale values were read.
---
 util/audio_frame.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 64513bc..1e1ed3a 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -54,10 +54,11 @@ public:
 		if constexpr ((sizeof(SampleType) * 8u) == UsedBits)
 			return v;
 		else {
-			using S = struct {
+			struct {
 				signed Val : UsedBits;
-			};
-			return reinterpret_cast<const S *>(&v)->Val;
+			} s;
+			s.Val = v;
+			return s.Val;
 		}
 	}
 };
-- 
2.43.0


From e391f985b13d7768c04d24d6c05a9731dc909643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 37/65] fix: RGB565 clamps float levels outside 0..1

They were converted to uint16_t before clamping: negative levels became full
brightness.
---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 70433c7e2e90df308de54a9416e685572b89c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 38/65] fix: AnalyzedSig maximum of negative signals

numeric_limits<float>::min() is positive.
---
 util/analyzed_signal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..8867434 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
-- 
2.43.0


From bf41a101a8173c1239a46f749cf105d3b39fd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 39/65] fix: PeakMeter maximum of negative floats

numeric_limits<float>::min() is positive.
---
 util/analyzed_signal.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 8867434..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From a6cdacd3ddb1a1b559a99310cc6866fae1245efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 40/65] fix: TogglerCounter takes any non-zero reading as high

A steady reading other than 0 and 1 was counted as a rising edge every time.
---
 util/debouncer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 2bb28b9..73c7278 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -128,7 +128,7 @@ public:
 
 struct TogglerCounter : Toggler {
 	void register_state(unsigned newstate) {
-		if (newstate == is_high_) {
+		if ((newstate != 0) == is_high_) {
 			steady_state_ctr++;
 			return;
 		}
-- 
2.43.0


From 3cb912099952265eac10abe893037560f21122b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 41/65] fix: Debouncer takes any non-zero reading as high

A reading other than 0 and 1 overwrote the history of readings.
---
 util/debouncer.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 73c7278..c6ba98b 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -170,7 +170,7 @@ struct Debouncer : Toggler {
 	}
 
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1u : 0u)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 		} else if (debounce_state_ == (FallingEdgePattern & StateMask)) {
@@ -191,7 +191,7 @@ template<unsigned RisingEdgePattern = 0x00000001,
 		 bool DebounceRawState = false>
 struct DebouncerCounter : Toggler {
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1u : 0u)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 			steady_state_ctr = 0;
-- 
2.43.0


From 5fe4ca6de00bd0e4242b745fc75e8ee12c6a7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 42/65] fix: PollEvent when several ticks pass across the
 overflow of the time

If the time overflowed after the moment the event was due, the event was not
noticed for almost a whole range of the time type.
---
 util/poll_event.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..1dd97ba 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -9,13 +10,12 @@ struct PollEvent {
 	void poll(TimeT now, auto action) {
 		bool expired = false;
 
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
+		if constexpr (std::is_integral_v<TimeT>) {
+			// Handle overflow
+			using U = std::make_unsigned_t<TimeT>;
+			expired = static_cast<U>(static_cast<U>(now) - static_cast<U>(last_poll)) >= static_cast<U>(period);
+		} else {
+			expired = (now - last_poll) >= period;
 		}
 
 		if (expired) {
-- 
2.43.0


From aa5764e9c1b9cbf3afab59880162fd10f6ca9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 43/65] fix: PollChange::force_next_poll at any time

It had no effect while the time was less than update_ticks.
---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..d3b93b0 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_poll = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_poll = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From ed4985edae0836259f0887ed182cb7b031d3d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 44/65] fix: function objects copy and own their captures
 properly

---
 util/callable.hh | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..b19c97a 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -26,13 +26,32 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(FunctionSized const &that)
+		: m_callback{that.m_callback}
+		, m_manage{that.m_manage} {
+		if (m_manage)
+			m_manage(&m_data[0], &that.m_data[0]);
+	}
+
+	FunctionSized &operator=(FunctionSized const &that) {
+		if (this != &that) {
+			if (m_manage)
+				m_manage(&m_data[0], nullptr);
+			m_callback = that.m_callback;
+			m_manage = that.m_manage;
+			if (m_manage)
+				m_manage(&m_data[0], &that.m_data[0]);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +76,23 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Copies the callable from src, or destroys it if there is no src
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, void const *src) {
+		if (src) {
+			new (object) Callable(*reinterpret_cast<Callable const *>(src));
+		} else {
+			Callable &callable = *reinterpret_cast<Callable *>(object);
+			callable.~Callable();
+		}
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, void const *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From bd22076b5c98c7e85f65c471696596d24a399712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 45/65] fix: bitfield OR starts from zero

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..14115aa 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val = 0;
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From bfe0bf25fddbd9bc5d0e25f4606304a284de3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 46/65] fix: RectC::x_intersects when the other rectangle lies
 within this one

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 3e9f430270146c8cd24ca6fe5d0673903779a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 47/65] fix: is_poly_concave of fractional, unsigned and large
 coordinates

---
 util/geometry.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..e5a291f 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include <cstdint>
 #include <span>
+#include <type_traits>
 
 struct Rect;
 
@@ -75,7 +76,13 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 	if (n < 3)
 		return false;
 
-	auto X_prod = [](T O, T A, T B) { return (A.x - O.x) * (B.y - O.y) - (A.y - O.y) * (B.x - O.x); };
+	// Differences of unsigned coordinates can be negative, and their products large
+	using Coord = std::remove_cvref_t<decltype(T::x)>;
+	using Wide = std::conditional_t<std::is_integral_v<Coord>, int64_t, Coord>;
+
+	auto X_prod = [](T O, T A, T B) {
+		return (Wide(A.x) - Wide(O.x)) * (Wide(B.y) - Wide(O.y)) - (Wide(A.y) - Wide(O.y)) * (Wide(B.x) - Wide(O.x));
+	};
 
 	int sign = 0;
 	for (auto i = 0u; i < points.size(); i++) {
@@ -87,7 +94,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From 4b3b71970cc0229b3bfb12a18dec9f602f259975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 48/65] fix: vmlaq_f32 stand-in leaves its operands alone

---
 util/soft_neon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/soft_neon.hh b/util/soft_neon.hh
index beb47c3..e1286ed 100644
--- a/util/soft_neon.hh
+++ b/util/soft_neon.hh
@@ -39,7 +39,7 @@ inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) {
 	};
 }
 
-inline float32x4_t vmlaq_f32(float32x4_t &dst, float32x4_t a, float32x4_t b) {
+inline float32x4_t vmlaq_f32(float32x4_t dst, float32x4_t a, float32x4_t b) {
 	dst.v[0] += a.v[0] * b.v[0];
 	dst.v[1] += a.v[1] * b.v[1];
 	dst.v[2] += a.v[2] * b.v[2];
-- 
2.43.0


From a15bfaf3c125ee1d566dc6b0ca4d8f13f0a507f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 49/65] fix: RgbLed flashes and fades last the time asked for

---
 util/rgbled.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..8dca4cb 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(ms);
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From 6d1dde7f69549ca26a25d849a8034cf7c5f5037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 50/65] fix: DownCounter periods shorter than an update

---
 util/oscs.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 31a984a..2772fb1 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -197,7 +197,9 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		// A period shorter than an update is over after one update
+		float increment = (float)freq_units / (ms / 1000.f);
+		increment_ = increment < (float)max_ ? (uint32_t)increment : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From 32cf1d88189c9545189808a0d7828999116eeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 51/65] fix: integer interpolate with a negative result

PhaseMax is unsigned, so the sum was converted to unsigned before the
division and interpolate<100>(-5, -5, 0) was 42949667.
---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 6c412d3..bc95725 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,8 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	constexpr auto phase_max = static_cast<int32_t>(PhaseMax);
+	return ((in2 * phase) + in1 * (phase_max - phase)) / phase_max;
 }
 
 template<class T>
-- 
2.43.0


From ef8aa63a3b5fbf28e6ca6f0e14028d6a45a09c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 52/65] fix: DownCounter periods are not cut to whole
 milliseconds

RgbLed passes its float times on; a flash of 0.5 ms at an update rate of
20 kHz was not shown at all and one of 2.9 ms lasted 2 ms.
---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 2772fb1..d315b03 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -196,7 +196,7 @@ struct DownCounter {
 	void set_frequency(uint32_t freq) {
 		increment_ = freq * freq_units;
 	}
-	void set_period_ms(uint32_t ms) {
+	void set_period_ms(float ms) {
 		// A period shorter than an update is over after one update
 		float increment = (float)freq_units / (ms / 1000.f);
 		increment_ = increment < (float)max_ ? (uint32_t)increment : max_;
-- 
2.43.0


From 8e03dff9cf32b6059fe4380550d2221ec73d232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 53/65] fix: pow2 of arguments far out of range does not hang

Beyond 2^24 table turns adding or subtracting one no longer changes a
float, so the scaling loops never ended.
---
 util/math.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index bc95725..86f3291 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -5,6 +5,7 @@
 #include <climits>
 #include <cstdint>
 #include <cstdlib>
+#include <limits>
 #include <numeric>
 #include <optional>
 
@@ -273,6 +274,11 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 
 // Returns 2^x
 static inline constexpr float pow2(float x) {
+	if (x < -150.f)
+		return 0.f; // smaller than any float
+	if (x >= 128.f)
+		return std::numeric_limits<float>::infinity(); // larger than any float
+
 	x = x / 5.0f;
 	float res = 1.f;
 	while (x < 0.f) {
-- 
2.43.0


From 3b23662a7e2156f529d135c15c664b3d1d4c611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 54/65] fix: LockFreeFifoSpscDyn<bool> elements must not share
 memory

std::vector<bool> packs elements into words, so put() and get() of
neighbouring elements overwrote each other, and get() read its element
only after releasing the slot.
---
 util/lockfree_fifo_spsc_dyn.hh | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index c65acb0..b8ca2e5 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -1,10 +1,11 @@
 #pragma once
 #include <atomic>
+#include <cstddef>
+#include <memory>
 #include <optional>
-#include <vector>
 
 // Thread-safe Lock-free Single-Producer Single-Consumer
-// Allocates a vector on construction. Re-allocates (resizes) on resize()
+// Allocates a buffer on construction. Re-allocates on resize()
 // For cheaply copied types
 // Will not overwrite -- put() returns false if buffer is full, and get() returns nullopt if buffer is empty.
 // Provide the buffer size in the constructor.
@@ -17,7 +18,7 @@ public:
 		: max_size_{max_size}
 		, head_{0}
 		, tail_{0}
-		, buf_(max_size_) {
+		, buf_{std::make_unique<T[]>(max_size)} {
 	}
 
 	// Initialize with an offset between get and put
@@ -27,21 +28,18 @@ public:
 		: max_size_{max_size}
 		, head_{head}
 		, tail_{0}
-		, buf_(max_size_) {
+		, buf_{std::make_unique<T[]>(max_size)} {
 	}
 
-	// Resets and resizes the vector. All contents are lost.
+	// Resets and resizes the buffer. All contents are lost.
 	// If max_size does not change, do nothing.
 	void resize(size_t new_max_size) {
 		if (new_max_size != max_size_) {
 			reset();
 
-			if (new_max_size < max_size_) {
-				// Deallocate the buffer to force shrink to fit
-				std::vector<T>().swap(buf_);
-			}
-
-			buf_.resize(new_max_size);
+			// Deallocate the old buffer first
+			buf_.reset();
+			buf_ = std::make_unique<T[]>(new_max_size);
 
 			max_size_ = new_max_size;
 		}
@@ -160,5 +158,5 @@ private:
 	size_t max_size_;
 	std::atomic<size_t> head_ = 0;
 	std::atomic<size_t> tail_ = 0;
-	std::vector<T> buf_;
+	std::unique_ptr<T[]> buf_; // not a std::vector: elements of a vector<bool> share words
 };
-- 
2.43.0


From 6022a94a71ae5ce43841d0173eacb7aea6aab40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 55/65] fix: LockFreeFifoSpscDyn of any size across the
 overflow of its positions

Unless the size was a power of two, the element after the one at position
SIZE_MAX was not the next one in the buffer: after 2^32 (or 2^64) puts an
element that had not been read yet was overwritten and the order was lost.
---
 util/lockfree_fifo_spsc_dyn.hh | 39 ++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index b8ca2e5..2c86cdb 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <memory>
 #include <optional>
 
@@ -42,6 +43,8 @@ public:
 			buf_ = std::make_unique<T[]>(new_max_size);
 
 			max_size_ = new_max_size;
+			set_write_pos(head_.load(std::memory_order_relaxed));
+			reset();
 		}
 	}
 
@@ -51,11 +54,11 @@ public:
 	bool put(T item) {
 		auto tmp_head = head_.load(std::memory_order_relaxed);
 
-		if ((tmp_head - tail_.load(std::memory_order_acquire)) == max_size_)
+		if (distance(tmp_head, tail_.load(std::memory_order_acquire)) == max_size_)
 			return false;
 
 		buf_[tmp_head % max_size_] = item;
-		tmp_head++;
+		tmp_head = next(tmp_head);
 		std::atomic_signal_fence(std::memory_order_release);
 		head_.store(tmp_head, std::memory_order_release);
 		return true;
@@ -63,7 +66,7 @@ public:
 
 	// Number of elements available to write
 	size_t num_free() const {
-		return max_size_ - (head_.load(std::memory_order_relaxed) - tail_.load(std::memory_order_acquire));
+		return max_size_ - distance(head_.load(std::memory_order_relaxed), tail_.load(std::memory_order_acquire));
 	}
 
 	// Not safe, but useful for debugging:
@@ -89,7 +92,7 @@ public:
 		}
 
 		auto item = buf_[tmp_tail % max_size_];
-		tmp_tail++;
+		tmp_tail = next(tmp_tail);
 		std::atomic_signal_fence(std::memory_order_release);
 		tail_.store(tmp_tail, std::memory_order_release);
 		return item;
@@ -103,7 +106,7 @@ public:
 		}
 
 		t = std::move(buf_[tmp_tail % max_size_]);
-		tmp_tail++;
+		tmp_tail = next(tmp_tail);
 		std::atomic_signal_fence(std::memory_order_release);
 		tail_.store(tmp_tail, std::memory_order_release);
 		return true;
@@ -117,12 +120,12 @@ public:
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
 		if (tmp_tail != head_.load(std::memory_order_relaxed))
-			tail_.store(++tmp_tail, std::memory_order_release);
+			tail_.store(next(tmp_tail), std::memory_order_release);
 	}
 
 	// Number of elements available to read
 	size_t num_filled() const {
-		return head_.load(std::memory_order_acquire) - tail_.load(std::memory_order_relaxed);
+		return distance(head_.load(std::memory_order_acquire), tail_.load(std::memory_order_relaxed));
 	}
 
 	bool empty() const {
@@ -130,7 +133,7 @@ public:
 	}
 
 	void set_read_pos(size_t pos) {
-		tail_.store(pos, std::memory_order_release);
+		tail_.store(wrap(pos), std::memory_order_release);
 	}
 
 	// Sets read head `offset` samples before write head, if possible
@@ -141,7 +144,7 @@ public:
 	}
 
 	void set_write_pos(size_t pos) {
-		head_.store(pos, std::memory_order_release);
+		head_.store(wrap(pos), std::memory_order_release);
 	}
 
 	// Reset can be done by consumer or producer
@@ -155,6 +158,24 @@ public:
 	}
 
 private:
+	// Positions run from 0 up to the largest multiple of max_size_, so that
+	// consecutive positions are in consecutive elements also when they wrap
+	size_t num_positions() const {
+		return max_size_ ? SIZE_MAX / max_size_ * max_size_ : 1;
+	}
+
+	size_t wrap(size_t pos) const {
+		return pos % num_positions();
+	}
+
+	size_t next(size_t pos) const {
+		return pos + 1 == num_positions() ? 0 : pos + 1;
+	}
+
+	size_t distance(size_t head, size_t tail) const {
+		return head >= tail ? head - tail : num_positions() - tail + head;
+	}
+
 	size_t max_size_;
 	std::atomic<size_t> head_ = 0;
 	std::atomic<size_t> tail_ = 0;
-- 
2.43.0


From 33e290ec719b590095c3cab75ff8e0e7b971b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 56/65] fix: FilteredInterpArray stays at its target however
 long there is no new data

When the update counter overflowed, the outputs left their targets and
ramped away, far beyond them.
---
 util/filtered_interp_array.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index ec855fe..a487afb 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <concepts>
 #include <cstddef>
+#include <limits>
 #include <span>
 
 template<typename FilterT, typename T>
@@ -41,7 +42,8 @@ struct FilteredInterpArray {
 	// Advance interpolation and write output values.
 	// output_fn: (unsigned i, T val) -> void
 	void get_interp_values(auto output_fn) {
-		_update_count++;
+		if (_update_count < std::numeric_limits<unsigned>::max())
+			_update_count++;
 
 		bool did_overshoot = (_update_count >= _num_updates);
 
-- 
2.43.0


From 72ae3f3264fa96852fda338eaadf3fade7fc70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 57/65] fix: CircularBuffer::fill_buffer must copy elements,
 not bytes

---
 util/circular_buffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 0500c81..7609900 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -88,7 +88,7 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-- 
2.43.0


From 347c6cb707d5d5259db0475bc1891ea29d795f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 58/65] fix: SequentialMap::operator[] must not give a new key
 the value of an erased one

---
 util/sequential_map.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index b978ef5..7d83239 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -32,6 +32,9 @@ public:
 		if (newsize == data.max_size()) {
 			// Overflow: silently return last element
 			newsize--;
+		} else {
+			// The slot may still hold the value of an erased entry
+			data[newsize].second = ValT{};
 		}
 		data[newsize].first = key;
 		return data[newsize].second;
-- 
2.43.0


From a3c609dbfb3af1adfc50a35867e265bbfed66dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 59/65] fix: OneShot keeps time for long pulses

Subtracting the update interval from the remaining seconds loses most of
it once the remaining time is large: at 48kHz a pulse of 100s was off by
a fifth and one of 10 minutes never ended.
---
 util/oscs.hh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index d315b03..e12ae81 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -221,12 +221,13 @@ struct OneShot {
 
 	void start(float pulse_width_sec) {
 		pulse_width_ = pulse_width_sec;
+		updates_ = 0;
 	}
 
 	// starts true, goes false after pulse_width seconds has passed
 	bool update() {
-		if (pulse_width_ > 0) {
-			pulse_width_ -= increment_;
+		if (is_running()) {
+			updates_++;
 			return true;
 		}
 		return false;
@@ -237,11 +238,22 @@ struct OneShot {
 	}
 
 	void set_update_rate_hz(float hz) {
-		if (hz > 0)
+		if (hz > 0) {
+			// Keep the time that is left
+			pulse_width_ = is_running() ? pulse_width_ - updates_ * increment_ : 0;
+			updates_ = 0;
 			increment_ = 1.f / hz;
+		}
 	}
 
 private:
+	// Updates are counted, since subtracting a tiny step from a long time would be inexact (or never end).
+	// A pulse that is a whole number of updates long up to rounding is not prolonged by one.
+	bool is_running() const {
+		return updates_ * increment_ < pulse_width_ * 0.999999f;
+	}
+
 	float increment_;
 	float pulse_width_;
+	uint32_t updates_ = 0; // since pulse_width_ was set
 };
-- 
2.43.0


From 8f2e1d1b4fdf7790ea40d5d877fab4c535ed193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 60/65] fix: SeqMap evicts in the order entries were stored
 also after a removal

---
 util/seq_map.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index 4ade7e1..befbff8 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <span>
@@ -56,6 +57,7 @@ struct SeqMap {
 	}
 
 	void remove_last() {
+		order_by_age();
 		if (sz > 0)
 			sz--;
 	}
@@ -64,6 +66,8 @@ struct SeqMap {
 	bool remove(KeyT key) {
 		for (size_t i = 0; i < sz; i++) {
 			if (keys[i] == key) {
+				i = (i + MaxSize - oldest) % MaxSize;
+				order_by_age();
 				for (size_t j = i + 1; j < sz; j++) {
 					keys[j - 1] = keys[j];
 					vals[j - 1] = vals[j];
@@ -71,8 +75,6 @@ struct SeqMap {
 				sz--;
 				keys[sz] = KeyT{};
 				vals[sz] = ValT{};
-				if (oldest > i)
-					oldest--;
 				return true;
 			}
 		}
@@ -91,4 +93,12 @@ struct SeqMap {
 	size_t size() const {
 		return sz;
 	}
+
+private:
+	// Entries are in order of age, except that those in a full map start at `oldest`
+	void order_by_age() {
+		std::rotate(keys.begin(), keys.begin() + oldest, keys.end());
+		std::rotate(vals.begin(), vals.begin() + oldest, vals.end());
+		oldest = 0;
+	}
 };
-- 
2.43.0


From bcb51268beb1f76c9d5500e16c9c8bb5f004c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 61/65] fix: contains_word must not pass negative characters to
 tolower

---
 util/contains_word.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/contains_word.hh b/util/contains_word.hh
index 0dc9983..a295802 100644
--- a/util/contains_word.hh
+++ b/util/contains_word.hh
@@ -4,9 +4,9 @@
 inline bool contains_word(std::string const &name, std::string const &word) {
 	// Case-insensitive:
 	std::string lname = name;
-	std::transform(lname.begin(), lname.end(), lname.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lname.begin(), lname.end(), lname.begin(), [](unsigned char c) { return std::tolower(c); });
 	std::string lword = word;
-	std::transform(lword.begin(), lword.end(), lword.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lword.begin(), lword.end(), lword.begin(), [](unsigned char c) { return std::tolower(c); });
 
 	std::string space_lword = " " + lword;
 	std::string lword_space = lword + " ";
-- 
2.43.0


From 766091829b707f1bcb744aaeaacde5f17eed0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 62/65] fix: CircularBufferAccess::write without a cross-fade
 must store the data unchanged

---
 util/circular_buffer_ext.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index 40b51e9..3ebe52b 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,9 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +75,9 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
-- 
2.43.0


From 76582650eb0703fb877e3bf7e7cb2d242ab6805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:57 +0000
Subject: [PATCH 63/65] fix: FixedVector insert and erase must not index past
 the end of the array

---
 util/fixed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fixed_vector.hh b/util/fixed_vector.hh
index 0379247..46ce821 100644
--- a/util/fixed_vector.hh
+++ b/util/fixed_vector.hh
@@ -105,7 +105,7 @@ public:
 			return;
 		}
 
-		std::move_backward(&data[index], &data[back_idx], &data[back_idx + 1]);
+		std::move_backward(begin() + index, end(), end() + 1);
 
 		data[index] = d;
 		back_idx++;
@@ -120,7 +120,7 @@ public:
 			return;
 		}
 
-		std::move(&data[index + 1], &data[back_idx], &data[index]);
+		std::move(begin() + index + 1, end(), begin() + index);
 		back_idx -= 1;
 	}
 
-- 
2.43.0


From 7d5d227032c655596abfccf0cb622588a6b74e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 64/65] fix: MonotonicAllocator::allocate(0) must not index
 past the end of a full arena

---
 util/monotonic_allocator.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index 2027708..354e137 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -11,7 +11,7 @@ public:
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
 		if (bytesRemaining >= size) {
-			auto result = &arena[offset];
+			auto result = arena.data() + offset;
 			offset += size;
 
 			return result;
-- 
2.43.0


From 9f2aa8a3dd2a500fc384956bf2ab33bde3a43398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 65/65] fix: FunctionSized must align what it holds

---
 util/callable.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index b19c97a..55a903d 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <cstdint>
 #include <new> //for placement new
 #include <type_traits>
@@ -23,7 +24,8 @@ public:
 	FunctionSized() = default;
 
 	template<typename Callable>
-	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
+	requires(sizeof(Callable) <= buffer_size && alignof(Callable) <= alignof(std::max_align_t) &&
+			 std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
 		, m_manage{manage<Callable>} {
@@ -94,7 +96,7 @@ private:
 	using Manager = void (*)(void *, void const *);
 	Manager m_manage{};
 
-	alignas(uint64_t) uint8_t m_data[buffer_size];
+	alignas(std::max_align_t) uint8_t m_data[buffer_size];
 };
 
 template<typename Signature>
-- 
2.43.0

