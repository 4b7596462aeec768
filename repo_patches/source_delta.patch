From 6e4216500e387f301276134b870e21f7b37f51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 01/25] fix: an unused signature cache slot must not vouch for
 the all-zero signature

---
 src/signature_t.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signature_t.cpp b/src/signature_t.cpp
index cc78a65..4803443 100644
--- a/src/signature_t.cpp
+++ b/src/signature_t.cpp
@@ -8,6 +8,7 @@
 #include <mmx/signature_t.hpp>
 
 #include <tuple>
+#include <optional>
 
 
 namespace mmx {
@@ -17,7 +18,7 @@ std::mutex g_mutex;
 // prevent attacker from generating cache collisions on every node
 const auto hash_salt = vnx::Hash64::rand();
 
-std::array<std::tuple<hash_t, pubkey_t, signature_t>, 16384> g_sig_cache;
+std::array<std::optional<std::tuple<hash_t, pubkey_t, signature_t>>, 16384> g_sig_cache;
 
 
 signature_t::signature_t(const secp256k1_ecdsa_signature& sig)
@@ -60,7 +61,7 @@ bool signature_t::verify(const pubkey_t& pubkey, const hash_t& hash) const
 	auto& cache = g_sig_cache[sig_hash % g_sig_cache.size()];
 	{
 		std::lock_guard lock(g_mutex);
-		if(entry == cache) {
+		if(cache && *cache == entry) {
 			return true;
 		}
 	}
-- 
2.43.0


From e5315c0c6d8ced5aba033604426f6c02e9e43c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 02/25] fix: a symbol spanning two words of the bit stream was
 rejected when less than its length was left in the buffer

---
 src/pos/encoding.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pos/encoding.cpp b/src/pos/encoding.cpp
index 68f67f0..c690f8e 100644
--- a/src/pos/encoding.cpp
+++ b/src/pos/encoding.cpp
@@ -92,7 +92,7 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 
 	while(out.size() < num_symbols)
 	{
-		if(bits < 32) {
+		while(bits < 32) {
 			const auto index = offset / 64;
 			if(index < bit_stream.size()) {
 				const uint32_t count = std::min<uint32_t>(64 - (offset % 64), 64 - bits);
@@ -101,6 +101,8 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 				bits += count;
 			} else if(bits == 0) {
 				throw std::logic_error("bit stream underflow");
+			} else {
+				break;
 			}
 		}
 		const auto sym = decode_symbol(buffer);
-- 
2.43.0


From fd93ec9b9a2dc6984bf5ab4bdb5fa2bc06725e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 03/25] fix: plot lookup missed entries in earlier parks when
 the first park read started inside the challenge window

---
 src/pos/Prover.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pos/Prover.cpp b/src/pos/Prover.cpp
index 65cc688..5d6c9a4 100644
--- a/src/pos/Prover.cpp
+++ b/src/pos/Prover.cpp
@@ -73,10 +73,12 @@ std::vector<proof_data_t> Prover::get_qualities(const hash_t& challenge, const i
 			if(debug) {
 				std::cout << "park_index = " << park_index << ", Y = " << Y_i << std::endl;
 			}
-			if(Y_i >= Y_end) {
-				if(have_begin || park_index == 0) {
+			if(have_begin || park_index == 0) {
+				if(Y_i >= Y_end) {
 					break;
 				}
+			} else if(Y_i >= Y_begin) {
+				// earlier parks could still contain matching entries
 				if(debug) {
 					std::cout << "<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<" << std::endl;
 				}
-- 
2.43.0


From f3c53bfcdb9dedffe8dc16d60df64c0bc08865b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 04/25] fix: flushing a table must not lose its committed
 version

---
 include/mmx/DataBase.h |  2 ++
 src/DataBase.cpp       | 30 ++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/mmx/DataBase.h b/include/mmx/DataBase.h
index 4991cf5..894fd2f 100644
--- a/include/mmx/DataBase.h
+++ b/include/mmx/DataBase.h
@@ -203,6 +203,8 @@ private:
 
 	std::shared_ptr<block_t> rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const;
 
+	void reset_log();
+
 	void check_rewrite();
 
 	void write_block_header(vnx::TypeOutput& out, std::shared_ptr<const block_t> block) const;
diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 70573df..d64f6c5 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -525,14 +525,7 @@ void Table::flush()
 
 	if(mem_block.empty())
 	{
-		write_log.open("wb");
-		write_log.lock_exclusive();
-		{
-			const std::string cmd = "reset";
-			write_entry_sum(write_log.out, -1,
-					std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
-					std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
-		}
+		reset_log();
 		debug_log << "Force flushed at version " << curr_version << std::endl;
 		return;
 	}
@@ -569,8 +562,7 @@ void Table::flush()
 	mem_block_size = 0;
 
 	// clear log after writing block
-	write_log.open("wb");
-	write_log.lock_exclusive();
+	reset_log();
 
 	debug_log << "Flushed " << block->name << " with " << block->index.size() << " / " << block->total_count
 			<< " entries, min_version = " << block->min_version << ", max_version = " << block->max_version
@@ -579,6 +571,24 @@ void Table::flush()
 	check_rewrite();
 }
 
+void Table::reset_log()
+{
+	// replace log atomically, to never lose the current version
+	const std::string path = root_path + "/write_log.dat";
+	write_log.open(path + ".tmp", "wb");
+	{
+		const std::string cmd = "reset";
+		write_entry_sum(write_log.out, -1,
+				std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
+				std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
+	}
+	write_log.close();
+	write_log.rename(path);
+	write_log.open("rb+");
+	write_log.lock_exclusive();
+	write_log.seek_end();
+}
+
 std::shared_ptr<Table::block_t>
 Table::rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const
 {
-- 
2.43.0


From 8c053f660f869e9c773d488f77a9ed3f9b5e3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 05/25] fix: blocks left over from an interrupted rewrite were
 kept next to the block which replaced them

---
 src/DataBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index d64f6c5..852bacb 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -165,6 +165,7 @@ Table::Table(const std::string& root_path, const options_t& options)
 			} else {
 				block->file.remove();
 				debug_log << "Deleted " << block->name << std::endl;
+				continue;
 			}
 			prev = block;
 		}
-- 
2.43.0


From a8ff2bf75e4b46330181032df6323e5ab95d31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 06/25] fix: seek_next() skipped an entry in every block which
 does not contain the given key

---
 src/DataBase.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 852bacb..83b0e83 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -932,7 +932,7 @@ void Table::Iterator::seek(std::shared_ptr<db_val_t> key, const int mode)
 				iter = mem_index.end();
 			}
 		} else if(mode > 0) {
-			if(iter != mem_index.end()) {
+			if(iter != mem_index.end() && key && *iter->first == *key) {
 				iter++;
 			}
 		}
@@ -978,10 +978,13 @@ void Table::Iterator::seek(const std::list<std::shared_ptr<block_t>>& blocks, st
 			read_key_at(block->file, block->index[--pos], version, res);
 		}
 		else if(mode > 0) {
-			if(pos + 1 >= end) {
+			if(is_match) {
+				pos++;
+			}
+			if(pos >= end) {
 				continue;
 			}
-			read_key_at(block->file, block->index[++pos], version, res);
+			read_key_at(block->file, block->index[pos], version, res);
 		}
 		if(!res) {
 			continue;
-- 
2.43.0


From 7f599309692ee980bcfb57be8ca98fbfb6c7a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 07/25] fix: seek_for_prev() past the last key found nothing

---
 src/DataBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 83b0e83..9b86104 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -1010,7 +1010,9 @@ void Table::Iterator::seek_prev(std::shared_ptr<db_val_t> key)
 void Table::Iterator::seek_for_prev(std::shared_ptr<db_val_t> key_)
 {
 	seek(key_);
-	if(is_valid() && *key() != *key_) {
+	if(!is_valid()) {
+		seek_last();
+	} else if(*key() != *key_) {
 		prev();
 	}
 }
-- 
2.43.0


From 2c5570891c767764873989d814dc29c2d4a9bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 08/25] fix: find_greater_equal() for key/value pairs did not
 read the value

---
 include/mmx/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mmx/table.h b/include/mmx/table.h
index 54295ab..160441d 100644
--- a/include/mmx/table.h
+++ b/include/mmx/table.h
@@ -145,7 +145,7 @@ public:
 			try {
 				std::pair<K, V> tmp;
 				read(iter.key(), tmp.first);
-				read(iter.value(), tmp, value_type, value_code);
+				read(iter.value(), tmp.second, value_type, value_code);
 				result.push_back(std::move(tmp));
 			} catch(...) {
 				// ignore
-- 
2.43.0


From d520b85190a3e0dc1112248b65f2fbdeef44b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 09/25] fix: to_amount() accepted NaN and values beyond 128
 bits

---
 include/mmx/utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mmx/utils.h b/include/mmx/utils.h
index 6c521a1..dc32faa 100644
--- a/include/mmx/utils.h
+++ b/include/mmx/utils.h
@@ -71,12 +71,15 @@ uint128 to_amount(const double value, const int decimals)
 	if(decimals < 0 || decimals > 18) {
 		throw std::runtime_error("invalid decimals: " + std::to_string(decimals));
 	}
-	if(value == std::numeric_limits<double>::quiet_NaN()) {
+	if(std::isnan(value)) {
 		throw std::runtime_error("invalid value: NaN");
 	}
 	if(value < 0) {
 		throw std::runtime_error("negative value: " + std::to_string(value));
 	}
+	if(value >= pow(2, 128)) {
+		throw std::runtime_error("amount overflow: " + std::to_string(value));
+	}
 	auto shift = uint128_1;
 	for(int i = 0; i < decimals; ++i) {
 		shift *= 10;
-- 
2.43.0


From c25aeb7d8d3fca30981da09af58a95e736fbe247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 10/25] fix: fixed128 conversions beyond 128 bits wrapped
 around silently

---
 include/mmx/fixed128.hpp |  4 +---
 src/fixed128.cpp         | 11 +++++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/mmx/fixed128.hpp b/include/mmx/fixed128.hpp
index 03b88fa..e630968 100644
--- a/include/mmx/fixed128.hpp
+++ b/include/mmx/fixed128.hpp
@@ -24,9 +24,7 @@ public:
 
 	fixed128() = default;
 
-	fixed128(const uint128& value) {
-		fixed = value * divider;
-	}
+	fixed128(const uint128& value) : fixed128(value, 0) {}
 
 	fixed128(const uint128_t& value, const int decimals);
 
diff --git a/src/fixed128.cpp b/src/fixed128.cpp
index 9ccaf5d..0e4e0ce 100644
--- a/src/fixed128.cpp
+++ b/src/fixed128.cpp
@@ -57,8 +57,7 @@ fixed128::fixed128(const std::string& str)
 		if(integer.empty() || integer.find_first_not_of("0123456789") != std::string::npos) {
 			throw std::logic_error("invalid integer part: '" + integer + "'");
 		}
-		fixed = uint128_t(integer, 10);
-		fixed *= divider;
+		fixed = fixed128(uint128(integer)).fixed;
 
 		std::string fract;
 		if(dec_pos != std::string::npos) {
@@ -73,7 +72,7 @@ fixed128::fixed128(const std::string& str)
 				for(int i = fract.size(); i < decimals; ++i) {
 					lower *= 10;
 				}
-				fixed += lower;
+				fixed = uint256_t(fixed) + lower;
 			}
 		}
 		if(exp_pos != std::string::npos) {
@@ -83,7 +82,7 @@ fixed128::fixed128(const std::string& str)
 			}
 			if(exp_10 >= 0) {
 				for(int i = 0; i < exp_10; ++i) {
-					fixed *= 10;
+					fixed = uint256_t(fixed) * 10;
 				}
 			} else {
 				for(int i = exp_10; i < 0; ++i) {
@@ -92,7 +91,7 @@ fixed128::fixed128(const std::string& str)
 			}
 		}
 	} else {
-		fixed = uint128_t(str, 10) * divider;
+		fixed = fixed128(uint128(str)).fixed;
 	}
 }
 
@@ -127,7 +126,7 @@ uint128 fixed128::to_amount(const int decimals) const
 		}
 	} else {
 		for(int i = fixed128::decimals; i < decimals; ++i) {
-			amount *= 10;
+			amount = uint256_t(amount) * 10;
 		}
 	}
 	return amount;
-- 
2.43.0


From e7b00e54eff2aa169f114df889466d3e7c078646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 11/25] fix: vm: use after free when the destination held the
 last reference to the source container (copy, pop_back)

---
 src/vm/Engine.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vm/Engine.cpp b/src/vm/Engine.cpp
index 874a4f2..41a256d 100644
--- a/src/vm/Engine.cpp
+++ b/src/vm/Engine.cpp
@@ -253,14 +253,16 @@ var_t* Engine::write(std::unique_ptr<var_t>& var, const uint64_t* dst, const var
 			if(!dst) {
 				throw std::logic_error("cannot assign array here");
 			}
-			const auto& asrc = (const array_t&)src;
+			// Note: assign() can erase the source in case dst held the last reference to it
+			const auto src_size = ((const array_t&)src).size;
+			const auto src_address = ((const array_t&)src).address;
 			{
-				auto tmp = std::make_unique<array_t>(asrc.size);
+				auto tmp = std::make_unique<array_t>(src_size);
 				tmp->address = *dst;
 				assign(var, std::move(tmp));
 			}
-			for(uint64_t i = 0; i < asrc.size; ++i) {
-				write_entry(*dst, i, read_entry_fail(asrc.address, i));
+			for(uint64_t i = 0; i < src_size; ++i) {
+				write_entry(*dst, i, read_entry_fail(src_address, i));
 				check_gas();
 			}
 			break;
@@ -272,14 +274,15 @@ var_t* Engine::write(std::unique_ptr<var_t>& var, const uint64_t* dst, const var
 			if(src.flags & FLAG_STORED) {
 				throw std::logic_error("cannot clone map from storage");
 			}
-			const auto& msrc = (const map_t&)src;
+			// Note: assign() can erase the source in case dst held the last reference to it
+			const auto src_address = ((const map_t&)src).address;
 			{
 				auto tmp = std::make_unique<map_t>();
 				tmp->address = *dst;
 				assign(var, std::move(tmp));
 			}
-			const auto begin = entries.lower_bound(std::make_pair(msrc.address, 0));
-			for(auto iter = begin; iter != entries.end() && iter->first.first == msrc.address; ++iter) {
+			const auto begin = entries.lower_bound(std::make_pair(src_address, 0));
+			for(auto iter = begin; iter != entries.end() && iter->first.first == src_address; ++iter) {
 				if(auto value = iter->second.get()) {
 					if((value->flags & FLAG_DELETED) == 0) {
 						write_entry(*dst, iter->first.second, *value);
@@ -327,13 +330,16 @@ void Engine::pop_back(const uint64_t dst, const uint64_t& src)
 	if(dst == src) {
 		throw std::logic_error("pop_back(): dst == src");
 	}
-	auto& array = read_fail<array_t>(src, TYPE_ARRAY);
-	if(array.size == 0) {
+	const auto size = read_fail<array_t>(src, TYPE_ARRAY).size;
+	if(size == 0) {
 		throw std::logic_error("pop_back() underflow at " + to_hex(dst));
 	}
-	const auto index = array.size - 1;
+	const auto index = size - 1;
 	write(dst, read_entry_fail(src, index));
 	erase_entry(src, index);
+
+	// Note: write() can erase the array in case dst held the last reference to it
+	auto& array = read_fail<array_t>(src, TYPE_ARRAY);
 	array.size--;
 	array.flags |= FLAG_DIRTY;
 }
-- 
2.43.0


From 3300adba7568797e25a7a75b261dd54aafad0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 12/25] fix: vm: contract could rewind the heap allocator onto
 live or stack memory (use after free)

---
 src/vm/Engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/Engine.cpp b/src/vm/Engine.cpp
index 41a256d..10e69bb 100644
--- a/src/vm/Engine.cpp
+++ b/src/vm/Engine.cpp
@@ -584,6 +584,10 @@ uint64_t Engine::alloc()
 	if(offset->value >= uint64_t(-1)) {
 		throw std::runtime_error("out of memory");
 	}
+	// Note: a contract can overwrite MEM_HEAP_NEXT_ALLOC via a constant reference
+	if(offset->value < MEM_HEAP + GLOBAL_DYNAMIC_START || read(offset->value, true)) {
+		throw std::runtime_error("invalid heap allocation at " + to_hex(offset->value));
+	}
 	offset->flags |= FLAG_DIRTY;
 
 	if(first_alloc) {
-- 
2.43.0


From 97dd99af6647a2521fc8656c590f44f76afc488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 13/25] fix: vm: copy() of a sparse constant array looped over
 its declared size without consuming gas

---
 src/vm_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm_interface.cpp b/src/vm_interface.cpp
index 1bc37e4..80d4679 100644
--- a/src/vm_interface.cpp
+++ b/src/vm_interface.cpp
@@ -94,7 +94,7 @@ void copy(	std::shared_ptr<vm::Engine> dst, std::shared_ptr<vm::Engine> src,
 				dst->assign(dst_addr, std::make_unique<vm::array_t>(array->size));
 
 				for(uint64_t i = 0; i < array->size; ++i) {
-					copy(dst, src, dst_addr, &i, src->read_entry(array->address, i), call_depth);
+					copy(dst, src, dst_addr, &i, &src->read_entry_fail(array->address, i), call_depth);
 				}
 				break;
 			}
-- 
2.43.0


From 9bb64ac49432c6b4642537556d77b0e3cefbe315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 14/25] fix: vm: unbounded recursion and output when converting
 a contract call result

---
 src/vm_interface.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vm_interface.cpp b/src/vm_interface.cpp
index 80d4679..76f3c75 100644
--- a/src/vm_interface.cpp
+++ b/src/vm_interface.cpp
@@ -295,9 +295,16 @@ void assign(std::shared_ptr<vm::Engine> engine, const uint64_t dst, const vnx::V
 	vnx::accept(visitor, value);
 }
 
-vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
+vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var, size_t call_depth)
 {
+	if(++call_depth > vm::MAX_COPY_RECURSION) {
+		throw std::runtime_error("convert recursion overflow");
+	}
 	if(var) {
+		// output can be a lot larger than engine memory, because of multiple references to same object
+		engine->gas_used += vm::WRITE_COST + (vm::num_bytes(var) * vm::WRITE_32_BYTE_COST) / 32;
+		engine->check_gas();
+
 		switch(var->type) {
 			case vm::TYPE_NIL:
 				return vnx::Variant(nullptr);
@@ -306,7 +313,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 			case vm::TYPE_FALSE:
 				return vnx::Variant(false);
 			case vm::TYPE_REF:
-				return convert(engine, engine->read(((const vm::ref_t*)var)->address));
+				return convert(engine, engine->read(((const vm::ref_t*)var)->address), call_depth);
 			case vm::TYPE_UINT: {
 				const auto& value = ((const vm::uint_t*)var)->value;
 				if(value >> 64 == 0) {
@@ -322,7 +329,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				const auto array = (const vm::array_t*)var;
 				std::vector<vnx::Variant> tmp;
 				for(uint32_t i = 0; i < array->size; ++i) {
-					tmp.push_back(convert(engine, engine->read_entry(array->address, i)));
+					tmp.push_back(convert(engine, &engine->read_entry_fail(array->address, i), call_depth));
 				}
 				return vnx::Variant(tmp);
 			}
@@ -333,7 +340,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				}
 				std::map<vnx::Variant, vnx::Variant> tmp;
 				for(const auto& entry : engine->find_entries(map->address)) {
-					tmp[convert(engine, engine->read(entry.first))] = convert(engine, entry.second);
+					tmp[convert(engine, engine->read(entry.first), call_depth)] = convert(engine, entry.second, call_depth);
 				}
 				bool is_object = true;
 				for(const auto& entry : tmp) {
@@ -358,6 +365,11 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 	return vnx::Variant();
 }
 
+vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
+{
+	return convert(engine, var, 0);
+}
+
 vnx::Variant read(std::shared_ptr<vm::Engine> engine, const uint64_t address)
 {
 	return convert(engine, engine->read(address));
-- 
2.43.0


From 694aab91fda92960f189d3b8ed7c1f77f5cd2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 15/25] fix: erased storage values were listed as null elements
 by find_range() and find_entries()

---
 src/vm/StorageDB.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vm/StorageDB.cpp b/src/vm/StorageDB.cpp
index b057e4f..340d829 100644
--- a/src/vm/StorageDB.cpp
+++ b/src/vm/StorageDB.cpp
@@ -171,7 +171,9 @@ std::vector<std::pair<uint64_t, varptr_t>> StorageDB::find_range(
 		if(auto value = table->find(entry.first, height)) {
 			std::unique_ptr<var_t> var;
 			deserialize(var, value->data, value->size, false);
-			out.emplace_back(entry.second, std::move(var));
+			if(!(var->flags & FLAG_DELETED)) {
+				out.emplace_back(entry.second, std::move(var));
+			}
 		}
 	}
 	return out;
@@ -197,7 +199,9 @@ std::vector<std::pair<uint64_t, varptr_t>> StorageDB::find_entries(
 		if(auto value = table_entries->find(entry.first, height)) {
 			std::unique_ptr<var_t> var;
 			deserialize(var, value->data, value->size, false);
-			out.emplace_back(entry.second, std::move(var));
+			if(!(var->flags & FLAG_DELETED)) {
+				out.emplace_back(entry.second, std::move(var));
+			}
 		}
 	}
 	return out;
-- 
2.43.0


From 391f04948ab955a8eba25b3904b3c3815cc8fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 16/25] fix: total supply ignored a net decrease within a block

---
 src/Node.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index 89f5071..3c5b9c6 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1050,7 +1050,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			prefetch_balances(keys);
 		}
-		std::unordered_map<addr_t, uint128_t> supply_delta;
+		std::unordered_map<addr_t, std::pair<uint128_t, uint128_t>> supply_delta;		// [currency => (added, removed)]
 
 		for(const auto& out : block_outputs)
 		{
@@ -1060,7 +1060,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			txio_log.insert(std::make_tuple(out.address, block->height, counter), out);
 			balance_cache.get(out.address, out.contract) += out.amount;
-			supply_delta[out.contract] += out.amount;
+			supply_delta[out.contract].first += out.amount;
 			counter++;
 		}
 		for(const auto& in : block_inputs)
@@ -1073,7 +1073,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 				memo_log.insert(std::make_tuple(key, block->height, counter), in.address);
 			}
 			txio_log.insert(std::make_tuple(in.address, block->height, counter), in);
-			clamped_sub_assign(supply_delta[in.contract], in.amount);
+			supply_delta[in.contract].second += in.amount;
 			counter++;
 		}
 		for(const auto& tx : block->get_transactions()) {
@@ -1104,10 +1104,12 @@ void Node::apply(	std::shared_ptr<const Block> block,
 		for(const auto& entry : supply_delta) {
 			const auto& currency = entry.first;
 			const auto& delta = entry.second;
-			if(delta) {
-				uint128 prev = 0;
-				total_supply_map.find(currency, prev);
-				total_supply_map.insert(currency, prev + delta);
+			if(delta.first != delta.second) {
+				uint128 total = 0;
+				total_supply_map.find(currency, total);
+				total += delta.first;
+				clamped_sub_assign(total, delta.second);
+				total_supply_map.insert(currency, total);
 			}
 		}
 
-- 
2.43.0


From b4cd8e22b8322d6848a81f9feb9a564a9d9f38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 17/25] fix: blocks with a transaction that failed because its
 fee exceeded the maximum were invalid

---
 src/Node_validate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Node_validate.cpp b/src/Node_validate.cpp
index 6ba04bd..458d0bf 100644
--- a/src/Node_validate.cpp
+++ b/src/Node_validate.cpp
@@ -804,7 +804,8 @@ Node::validate(	std::shared_ptr<const Transaction> tx,
 		handle_implicit_deposit(
 				exec_outputs, amounts, tx->id, bool(tx->deploy), context->height >= params->hardfork2_height);
 
-		if(!tx->exec_result) {
+		// static_cost already includes these if execution was successful before
+		if(!tx->exec_result || tx->exec_result->did_fail) {
 			for(const auto& in: exec_inputs) {
 				tx_cost += in.calc_cost(params);
 			}
-- 
2.43.0


From 04f088c1a8fe9e60617d4851fbfcc437d0e36e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 18/25] fix: blocks were invalid when a transaction was left
 out after others had been executed on top of it

---
 include/mmx/Node.h  |  2 ++
 src/Node_update.cpp | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/mmx/Node.h b/include/mmx/Node.h
index 8ad22ad..62676dc 100644
--- a/include/mmx/Node.h
+++ b/include/mmx/Node.h
@@ -324,6 +324,8 @@ private:
 
 	std::vector<tx_pool_t> validate_for_block(const int64_t deadline_ms);
 
+	std::vector<tx_pool_t> validate_for_block(std::vector<tx_pool_t> tx_list, const int64_t deadline_ms, bool& is_final);
+
 	std::shared_ptr<const Block> make_block(
 			std::shared_ptr<const BlockHeader> prev,
 			std::vector<std::shared_ptr<const VDF_Point>> vdf_points, const hash_t& challenge);
diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index ebb4365..7f82ab9 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -756,9 +756,6 @@ void Node::validate_new()
 
 std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 {
-	const auto peak = get_peak();
-	const auto context = new_exec_context(peak->height + 1);
-
 	std::vector<tx_pool_t> all_tx;
 	all_tx.reserve(tx_pool.size());
 	for(const auto& entry : tx_pool) {
@@ -782,6 +779,20 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 		}
 	}
 
+	// transactions are executed on top of each other, hence when an executed one is dropped the others need to be executed again
+	bool is_final = false;
+	while(!is_final) {
+		is_final = true;
+		tx_list = validate_for_block(tx_list, deadline_ms, is_final);
+	}
+	return tx_list;
+}
+
+std::vector<Node::tx_pool_t> Node::validate_for_block(std::vector<tx_pool_t> tx_list, const int64_t deadline_ms, bool& is_final)
+{
+	const auto peak = get_peak();
+	const auto context = new_exec_context(peak->height + 1);
+
 	// prepare synchronization
 	for(auto& entry : tx_list) {
 		try {
@@ -854,6 +865,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 		const auto tx = entry.tx;
 
 		if(static_cost + tx->static_cost > params->max_block_size || total_cost + entry.cost > params->max_block_cost) {
+			is_final = false;
 			continue;
 		}
 		bool passed = true;
@@ -877,6 +889,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 			}
 		}
 		if(!passed) {
+			is_final = false;
 			continue;
 		}
 		balance_cache.apply(tmp_cache);
@@ -910,6 +923,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 				band_avail[i - 1] -= tx->static_cost - band_avail[i];
 				band_avail[i] = 0;
 			} else {
+				is_final = false;
 				continue;	// no room left for this tx
 			}
 		} else {
-- 
2.43.0


From d9fe8cbeddef174971746c3bebe9276ed5b6427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 19/25] fix: transaction info of an included transaction was
 taken from the pending copy

---
 src/Node_api.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index 40f2e55..71ed513 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -345,6 +345,16 @@ vnx::optional<tx_info_t> Node::get_tx_info_for(std::shared_ptr<const Transaction
 
 std::shared_ptr<const Transaction> Node::get_transaction(const hash_t& id, const bool& pending) const
 {
+	tx_index_t entry;
+	if(tx_index.find(id, entry)) {
+		vnx::File file(blocks->get_path());
+		file.open("rb");
+		file.seek_to(entry.file_offset);
+		const auto value = vnx::read(file.in);
+		if(auto tx = std::dynamic_pointer_cast<const Transaction>(value)) {
+			return tx;
+		}
+	}
 	if(pending) {
 		auto iter = tx_pool.find(id);
 		if(iter != tx_pool.end()) {
@@ -358,16 +368,6 @@ std::shared_ptr<const Transaction> Node::get_transaction(const hash_t& id, const
 			}
 		}
 	}
-	tx_index_t entry;
-	if(tx_index.find(id, entry)) {
-		vnx::File file(blocks->get_path());
-		file.open("rb");
-		file.seek_to(entry.file_offset);
-		const auto value = vnx::read(file.in);
-		if(auto tx = std::dynamic_pointer_cast<const Transaction>(value)) {
-			return tx;
-		}
-	}
 	return nullptr;
 }
 
-- 
2.43.0


From ffab16fb9bd275c2c6c891b864330ead2bbb9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 20/25] fix: farmers without blocks stayed in the ranking after
 a fork

---
 src/Node.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index 3c5b9c6..f994650 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1299,10 +1299,12 @@ void Node::revert(const uint32_t height)
 		// revert farmer_ranking
 		if(block->height) {
 			const auto& farmer_key = block->get_farmer_key();
-			for(auto& entry : farmer_ranking) {
-				if(entry.first == farmer_key) {
-					if(entry.second) {
-						entry.second--;
+			for(auto iter = farmer_ranking.begin(); iter != farmer_ranking.end(); ++iter) {
+				if(iter->first == farmer_key) {
+					if(iter->second > 1) {
+						iter->second--;
+					} else {
+						farmer_ranking.erase(iter);
 					}
 					break;
 				}
-- 
2.43.0


From fb0d35d51128c2484bfc572a33ec0521039f2df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 21/25] fix: update() failed forever after a peer sent a chain
 connected to a dropped block

---
 src/Node_update.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index 7f82ab9..db178d2 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -202,9 +202,8 @@ void Node::verify_block_proofs()
 		const auto& fork = entry.second;
 		const auto& block = fork->block;
 		if(block->height == root->height + 1) {
-			if(!fork->is_connected) {
-				fork->is_connected = (find_prev(block, params->commit_delay + params->infuse_delay, true) != nullptr);
-			}
+			// Note: need to check again every time, since an alternate previous block is dropped once root has reached its height
+			fork->is_connected = (find_prev(block, params->commit_delay + params->infuse_delay, true) != nullptr);
 		} else {
 			if(!fork->prev.lock()) {
 				fork->prev = find_fork(block->prev);
-- 
2.43.0


From b4ed6e8f9f03450b57f57b1d9d8f0532e18ac876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 22/25] fix: reward addresses of the VDF in a block were not
 verified

---
 src/Node.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index f994650..f2f7de0 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1631,6 +1631,9 @@ Node::find_vdf_points(std::shared_ptr<const BlockHeader> block) const
 
 	auto output = block->vdf_output;
 	auto vdf_iters = prev->vdf_iters;
+	if(block->vdf_reward_addr.size() != block->vdf_count) {
+		return {};
+	}
 	while(out.size() < block->vdf_count) {
 		hash_t infuse;
 		uint64_t num_iters = 0;
@@ -1645,7 +1648,8 @@ Node::find_vdf_points(std::shared_ptr<const BlockHeader> block) const
 			const auto& point = iter->second;
 			if(point->output == output
 				&& point->prev == infuse
-				&& point->num_iters == num_iters)
+				&& point->num_iters == num_iters
+				&& point->reward_addr == block->vdf_reward_addr[offset])
 			{
 				output = point->input;
 				vdf_iters += num_iters;
-- 
2.43.0


From 0da2b97eadf125f75bf1676dc69d554c2f6d825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 23/25] fix: height of a block was not verified before
 switching to it

---
 src/Node_verify.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Node_verify.cpp b/src/Node_verify.cpp
index 83dd2ea..9d01c86 100644
--- a/src/Node_verify.cpp
+++ b/src/Node_verify.cpp
@@ -78,6 +78,9 @@ void Node::verify_proof(std::shared_ptr<const BlockHeader> block) const
 	if(!prev) {
 		throw std::logic_error("cannot verify");
 	}
+	if(block->height != prev->height + 1) {
+		throw std::logic_error("invalid height");
+	}
 	if(block->vdf_count > params->max_vdf_count) {
 		throw std::logic_error("invalid vdf_count");
 	}
-- 
2.43.0


From c862f3d839c770da1642638645f563754468c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 24/25] fix: position of a received VDF was not verified, it
 could hide the genuine one

---
 src/Node_update.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index db178d2..6db91d2 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -40,19 +40,19 @@ void Node::verify_vdfs()
 	std::vector<std::shared_ptr<vdf_fork_t>> try_now;
 	std::vector<std::pair<std::shared_ptr<const ProofOfTime>, int64_t>> try_again;
 
-	std::unordered_map<hash_t, uint32_t> height_map;	// [output => vdf_height] based on verified proofs and VDFs only
+	std::unordered_map<hash_t, std::pair<uint32_t, uint64_t>> height_map;	// [output => [vdf_height, vdf_iters]] based on verified proofs and VDFs only
 	for(const auto& entry : fork_index) {
 		const auto& fork = entry.second;
 		if(fork->is_all_proof_verified) {
-			height_map[fork->block->vdf_output] = fork->block->vdf_height;
+			height_map[fork->block->vdf_output] = std::make_pair(fork->block->vdf_height, fork->block->vdf_iters);
 		}
 	}
-	height_map[root->vdf_output] = root->vdf_height;
+	height_map[root->vdf_output] = std::make_pair(root->vdf_height, root->vdf_iters);
 
 	for(const auto& entry : vdf_index) {
 		const auto& point = entry.second;
-		if(auto height = find_value(height_map, point->input)) {
-			height_map[point->output] = (*height) + 1;
+		if(auto pos = find_value(height_map, point->input)) {
+			height_map[point->output] = std::make_pair(pos->first + 1, pos->second + point->num_iters);
 		}
 	}
 
@@ -72,8 +72,13 @@ void Node::verify_vdfs()
 			try_again.push_back(entry);	// wait for previous block / VDF
 			continue;
 		}
+		const auto& pos = height_map[proof->input];
+		if(proof->vdf_height != pos.first + 1 || proof->start != pos.second) {
+			log(WARN) << "Got VDF with invalid position for height " << pos.first + 1;
+			continue;
+		}
 		auto out = std::make_shared<vdf_fork_t>();
-		out->height = find_value(height_map, proof->input, 0);
+		out->height = pos.first;
 		out->trust = find_value(timelord_trust, proof->timelord_key, 0);
 		out->recv_time = entry.second;
 		out->proof = proof;
-- 
2.43.0


From c8cf7512ce50cdb92c70a0c4bb50be5f60239ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 25/25] fix: block made to replace the peak could have a proof
 for another VDF height

---
 src/Node_update.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index 6db91d2..89940d6 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -482,8 +482,10 @@ void Node::update()
 				{
 					if(auto prev = find_prev(peak))
 					{
-						const auto vdf_points = find_next_vdf_points(prev);
-						if(vdf_points.size()) {
+						auto vdf_points = find_next_vdf_points(prev);
+						const auto vdf_count = peak->vdf_height - prev->vdf_height;
+						if(vdf_points.size() >= vdf_count) {
+							vdf_points.resize(vdf_count);		// same VDF height as peak, otherwise challenge is wrong
 							try {
 								if(auto block = make_block(prev, vdf_points, challenge)) {
 									add_block(block);
-- 
2.43.0

