// C04 plot codecs, C05 proof of space: compute / verify / plot reading against an independent plotter
#include <sha512.h>
#include "pbt.h"
#include "ref_crypto.h"

#include <mmx/pos/encoding.h>
#include <mmx/pos/mem_hash.h>
#include <mmx/pos/util.h>
#include <mmx/pos/verify.h>
#include <mmx/pos/Prover.h>
#include <mmx/pos/config.h>
#include <mmx/PlotHeader.hxx>
#include <mmx/utils.h>
#include <mmx/secp256k1.hpp>

#include <mmx/ProofServerClient.hxx>
#include <memory>

using namespace mmx;
using namespace mmx::pos;
using pbt::Src; using pbt::Ctx; using pbt::show;
typedef std::vector<uint8_t> bytes;

// the remote recompute service is a separate process: never used by these checks
namespace mmx {
ProofServerClient::ProofServerClient(const std::string& name) : vnx::Client::Client(vnx::Hash64(1)) { throw std::logic_error("remote recompute is not available"); }
std::vector<::mmx::table_entry_t> ProofServerClient::compute(const std::vector<uint32_t>&, const ::mmx::hash_t&, const int32_t&, const int32_t&) { throw std::logic_error("remote recompute is not available"); }
}

SETUP {
	mmx::secp256k1_init();
}

// ------------------------------------------------------------------------------------------- bit level reference

typedef std::vector<bool> bits_t;

static void put(bits_t& b, uint64_t v, int n) { for(int i = 0; i < n; ++i) b.push_back((v >> i) & 1); }
static std::vector<uint64_t> words(const bits_t& b) {
	std::vector<uint64_t> w((b.size() + 63) / 64);
	for(size_t i = 0; i < b.size(); ++i) if(b[i]) w[i / 64] |= uint64_t(1) << (i % 64);
	return w;
}
// symbol v: v/3 pairs of ones, then v%3 in two bits
static void put_symbol(bits_t& b, int v) {
	for(int i = 0; i < v / 3; ++i) put(b, 3, 2);
	put(b, v % 3, 2);
}

static std::vector<uint8_t> gen_symbols(Src& s, size_t n) {
	std::vector<uint8_t> out;
	const auto mode = s.draw(4);
	for(size_t i = 0; i < n; ++i) {
		uint8_t v = 0;
		switch(mode) {
			case 0: v = s.draw(3); break;
			case 1: v = s.chance(10) ? s.draw(48) : s.draw(6); break;
			case 2: v = s.draw(48); break;
			case 3: v = s.chance(20) ? s.range(40, 47) : s.draw(10); break;
		}
		out.push_back(v);
	}
	return out;
}

PROPERTY(symbol_codec) {
	const auto symbols = gen_symbols(s, s.size(300));
	uint64_t total = 0;
	const auto stream = encode(symbols, total);
	bits_t want;
	for(auto v : symbols) put_symbol(want, v);
	NOTE(symbols.size() << " symbols, " << total << " bits: " << show(symbols));
	pbt::check_eq(total, uint64_t(want.size()), "bit count");
	CHECK_MSG(stream == words(want), "encoded bits of " << show(symbols));
	const auto back = decode(stream, symbols.size());
	CHECK_MSG(back == symbols, "decode(encode()): got " << show(back) << " for " << show(symbols));
	// partial decode, at any bit offset, followed by unrelated data
	const auto offset = s.range(0, 200);
	bits_t b;
	for(uint64_t i = 0; i < offset; ++i) b.push_back(s.flip());
	b.insert(b.end(), want.begin(), want.end());
	if(s.flip()) for(int i = s.range(0, 100); i > 0; --i) b.push_back(s.flip());
	const auto n = s.range(0, symbols.size());
	const auto part = decode(words(b), n, offset);
	CHECK_MSG(part == std::vector<uint8_t>(symbols.begin(), symbols.begin() + n), "decode of " << n << " symbols at bit offset " << offset << ": got " << show(part) << " for " << show(symbols));
	bool threw = false;
	try { auto bad = symbols; bad.push_back(s.range(48, 255)); uint64_t t; encode(bad, t); } catch(const std::logic_error&) { threw = true; }
	CHECK_MSG(threw, "symbol above 47 encoded");
	c.nontrivial(symbols.size() > 1);
	c.label(total > 64 ? "several words" : "one word");
	c.label(std::any_of(symbols.begin(), symbols.end(), [](int v) { return v >= 24; }) ? "long symbols" : "short symbols");
}

// whatever the bits: decoding either fails cleanly, or returns the symbols those bits mean
PROPERTY(decode_any) {
	std::vector<uint64_t> stream(s.size(12));
	const auto mode = s.draw(3);
	for(auto& w : stream) w = mode == 0 ? s.draw(0) : mode == 1 ? ~0ull : (s.draw(0) | s.draw(0) | s.draw(0));
	const auto n = s.size(400);
	const auto offset = s.range(0, 100);
	NOTE(stream.size() << " words, " << n << " symbols at " << offset);
	std::vector<uint8_t> out;
	bool ok = false;
	try { out = decode(stream, n, offset); ok = true; } catch(const std::logic_error&) {}
	if(ok) {
		CHECK_MSG(out.size() == n, "symbol count");
		bits_t b;
		for(auto v : out) {
			if(v > 48) FAIL("symbol " << int(v));
			if(v == 48) { put(b, 0xFFFFFFFF, 32); } else put_symbol(b, v);
		}
		for(size_t i = 0; i < b.size(); ++i) {
			const auto p = offset + i;
			const bool bit = p / 64 < stream.size() ? (stream[p / 64] >> (p % 64)) & 1 : false;
			if(p / 64 < stream.size()) CHECK_MSG(bit == b[i], "bit " << i << " of the decoded symbols is not the stream's");
		}
	}
	c.nontrivial(ok && n > 0);
	c.label(ok ? "decoded" : "rejected");
}

PROPERTY(bit_packing) {
	const auto n = s.size(40);
	std::vector<std::pair<uint64_t, uint32_t>> v;
	uint64_t total = 0;
	const auto start = s.range(0, 130);
	total = start;
	for(size_t i = 0; i < n; ++i) {
		const uint32_t bits = s.range(1, 64);
		v.emplace_back(s.u64(), bits);
		total += bits;
	}
	std::unique_ptr<uint64_t[]> buf(new uint64_t[(total + 63) / 64]());
	bits_t want(start, false);
	uint64_t pos = start;
	for(auto& x : v) {
		const auto next = write_bits(buf.get(), x.first, pos, x.second);
		CHECK_MSG(next == pos + x.second, "write_bits() offset");
		put(want, x.first, x.second);
		pos = next;
	}
	const auto w = words(want);
	for(size_t i = 0; i < w.size(); ++i) CHECK_MSG(buf[i] == w[i], "word " << i << " after write_bits");
	pos = start;
	for(auto& x : v) {
		const uint64_t m = x.second < 64 ? x.first & ((uint64_t(1) << x.second) - 1) : x.first;
		const auto got = read_bits(buf.get(), pos, x.second);
		CHECK_MSG(got == m, "read_bits at " << pos << " of " << x.second << " bits: got " << got << ", expected " << m);
		pos += x.second;
	}
	NOTE(n << " fields, " << total << " bits");
	c.nontrivial(n > 1);
}

static unsigned __int128 tri(uint64_t x) { return (unsigned __int128)x * (x - 1) / 2; }

PROPERTY(line_point) {
	auto gen = [&]() -> uint64_t { const auto k = s.range(1, 32); return s.flip() ? s.u64() & ((1ull << k) - 1) : ((1ull << k) - 1 - s.range(0, std::min<uint64_t>(3, (1ull << k) - 1))); };
	uint64_t a = gen(), b = gen();
	if(s.chance(20)) b = a;
	if(a < b) std::swap(a, b);
	if(a > 0xFFFFFFFFull - 1) a = 0xFFFFFFFFull - 1;
	if(b > a) b = a;
	NOTE("pair " << a << " " << b);
	if(a > 0) {
		const uint64_t x = a, y = std::min(b, a - 1);		// strict pair
		const uint64_t idx = uint64_t(tri(x)) + y;
		CHECK_MSG(GetXEnc(x) == uint64_t(tri(x)), "GetXEnc(" << x << ")");
		const auto r = LinePointToSquare(idx);
		CHECK_MSG(r.first == x && r.second == y, "LinePointToSquare(" << idx << ") = " << r.first << "," << r.second << " expected " << x << "," << y);
	}
	if(b >= 1) {
		const uint64_t idx = uint64_t(tri(a)) + b;			// a >= b >= 1
		const auto r = LinePointToSquare3(idx);
		CHECK_MSG(r.first == a && r.second == b, "LinePointToSquare3(" << idx << ") = " << r.first << "," << r.second << " expected " << a << "," << b);
	}
	{
		const uint64_t idx = uint64_t(tri(a + 1)) + b + 1;	// a >= b >= 0
		const auto r = LinePointToSquare2(idx);
		CHECK_MSG(r.first == a && r.second == b, "LinePointToSquare2(" << idx << ") = " << r.first << "," << r.second << " expected " << a << "," << b);
	}
	c.nontrivial(a > 1);
	c.label(a == b ? "equal" : "different");
}

// ------------------------------------------------------------------------------------------- reference plotter

static uint32_t rl(uint32_t v, unsigned n) { n %= 32; return n ? (v << n) | (v >> (32 - n)) : v; }

static std::vector<uint32_t> ref_mem(const bytes& key, size_t size) {
	uint32_t st[32], b = 0, cc = 0;
	for(int i = 0; i < 16; ++i) st[i] = uint32_t(key[4 * i]) | key[4 * i + 1] << 8 | key[4 * i + 2] << 16 | uint32_t(key[4 * i + 3]) << 24;
	for(int i = 0; i < 16; ++i) st[16 + i] = ref::K().k256[i];
	std::vector<uint32_t> mem;
	while(mem.size() < size) {
		for(int r = 0; r < 4; ++r) {
			for(int i = 0; i < 16; ++i) {
				uint32_t& a = st[i]; uint32_t& d = st[16 + i];
				a += b; d = rl(d ^ a, 16); cc += d; b = rl(b ^ cc, 12);
				a += b; d = rl(d ^ a, 8); cc += d; b = rl(b ^ cc, 7);
			}
		}
		mem.insert(mem.end(), st, st + 32);
	}
	return mem;
}
static std::array<uint32_t, 32> ref_mem_hash(std::vector<uint32_t>& mem, int iters) {
	std::array<uint32_t, 32> st;
	for(int i = 0; i < 32; ++i) st[i] = mem[31 * 32 + i];
	for(int it = 0; it < iters; ++it) {
		uint32_t sum = 0;
		for(int i = 0; i < 32; ++i) sum += rl(st[i], i);
		const uint32_t dir = sum * (1u + (1u << 11) + (1u << 22));
		const uint32_t bits = (dir >> 22) & 31, row = dir >> 27;
		for(int i = 0; i < 32; ++i) st[i] += rl(mem[row * 32 + (it + i) % 32], bits) ^ sum;
		for(int i = 0; i < 32; ++i) mem[row * 32 + i] ^= st[i];
	}
	return st;
}

PROPERTY(mem_hash) {
	const auto key = s.bytes(64);
	auto want = ref_mem(key, 1024);
	std::unique_ptr<uint32_t[]> mem(new uint32_t[1024]());
	gen_mem_array(mem.get(), key.data(), 1024);
	for(int i = 0; i < 1024; ++i) CHECK_MSG(mem[i] == want[i], "memory word " << i << " for key " << show(key));
	const int iters = s.size(256);
	const auto h = ref_mem_hash(want, iters);
	std::unique_ptr<uint8_t[]> out(new uint8_t[128]());
	calc_mem_hash(mem.get(), out.get(), iters);
	CHECK_MSG(memcmp(out.get(), h.data(), 128) == 0, "hash after " << iters << " iterations, key " << show(key));
	for(int i = 0; i < 1024; ++i) CHECK_MSG(mem[i] == want[i], "memory word " << i << " after hashing");
	bool threw = false;
	try { uint32_t t[64]; gen_mem_array(t, key.data(), s.range(1, 31)); } catch(const std::logic_error&) { threw = true; }
	CHECK_MSG(threw, "size not a multiple of 32 accepted");
	NOTE("iterations " << iters);
	c.nontrivial(iters > 0);
}

struct ent_t {
	uint32_t y = 0;
	std::array<uint32_t, N_META> m = {};
	std::vector<uint32_t> x;		// proof in canonical order
	uint32_t l = 0, r = 0;			// positions in the previous table
};

static ent_t ref_hash_out(const bytes& h, int k) {
	ent_t e;
	const uint32_t mask = k == 32 ? ~0u : (1u << k) - 1;
	for(int i = 0; i < N_META; ++i) {
		const uint32_t w = uint32_t(h[4 * i]) | h[4 * i + 1] << 8 | h[4 * i + 2] << 16 | uint32_t(h[4 * i + 3]) << 24;
		e.y ^= w;
		e.m[i] = w & mask;
	}
	e.y &= mask;
	return e;
}
static void put32(bytes& b, uint32_t v) { for(int i = 0; i < 4; ++i) b.push_back(uint8_t(v >> (8 * i))); }

static ent_t ref_f1(uint32_t x, const hash_t& id, int k) {
	bytes msg;
	put32(msg, x);
	msg.insert(msg.end(), id.data(), id.data() + 32);
	bytes key(64);
	{ SHA512 h; h.Write(msg.data(), msg.size()); h.Finalize(key.data()); }		// SHA-512 itself is C01's subject
	auto mem = ref_mem(key, 1024);
	const auto mh = ref_mem_hash(mem, 256);
	bytes m2 = key;
	for(auto v : mh) put32(m2, v);
	bytes out(64);
	{ SHA512 h; h.Write(m2.data(), m2.size()); h.Finalize(out.data()); }
	auto e = ref_hash_out(out, k);
	e.x = {x};
	return e;
}
static bool ent_less(const ent_t& a, const ent_t& b) { return a.y != b.y ? a.y < b.y : a.m < b.m; }

static ent_t ref_fx(const ent_t& a, const ent_t& b, int k) {
	bytes msg;
	for(auto v : a.m) put32(msg, v);
	for(auto v : b.m) put32(msg, v);
	bytes h(64);
	SHA512 sh; sh.Write(msg.data(), msg.size()); sh.Finalize(h.data());
	auto e = ref_hash_out(h, k);
	e.x = a.x;
	e.x.insert(e.x.end(), b.x.begin(), b.x.end());
	return e;
}

// all tables, each sorted; throws std::logic_error when a table is empty
static std::vector<std::vector<ent_t>> ref_tables(const std::vector<uint32_t>& xs, const hash_t& id, int k, std::map<uint32_t, ent_t>* f1_cache = nullptr, size_t max_dist = -1) {
	std::vector<std::vector<ent_t>> t(N_TABLE + 1);
	for(auto x : xs) {
		if(f1_cache && f1_cache->count(x)) t[1].push_back((*f1_cache)[x]);
		else {
			t[1].push_back(ref_f1(x, id, k));
			if(f1_cache) (*f1_cache)[x] = t[1].back();
		}
	}
	for(int i = 2; i <= N_TABLE; ++i) {
		auto& in = t[i - 1];
		std::stable_sort(in.begin(), in.end(), ent_less);
		std::map<uint32_t, std::pair<size_t, size_t>> range;
		for(size_t n = 0; n < in.size(); ++n) {
			auto& r = range.emplace(in[n].y, std::make_pair(n, n)).first->second;
			r.second = n + 1;
		}
		for(size_t n = 0; n < in.size(); ++n) {
			const auto it = range.find(in[n].y + 1);
			if(in[n].y == 0xFFFFFFFF || it == range.end()) continue;
			for(size_t m = it->second.first; m < it->second.second; ++m) {
				if(m - n > max_dist) continue;
				auto e = ref_fx(in[n], in[m], k);
				e.l = n; e.r = m;
				t[i].push_back(e);
			}
		}
		if(t[i].empty()) throw std::logic_error("no match");
		if(t[i].size() > (4u << k)) throw pbt::discard();		// table sizes can explode at such a small k
	}
	std::stable_sort(t[N_TABLE].begin(), t[N_TABLE].end(), ent_less);
	return t;
}
static std::vector<ent_t> ref_proofs(const std::vector<uint32_t>& xs, const hash_t& id, int k, std::map<uint32_t, ent_t>* cache = nullptr) {
	std::vector<uint32_t> set(xs);
	std::sort(set.begin(), set.end());
	set.erase(std::unique(set.begin(), set.end()), set.end());
	auto t = ref_tables(set, id, k, cache);
	std::vector<ent_t> out;
	std::set<std::array<uint32_t, N_META>> seen;
	for(auto& e : t[N_TABLE]) if(seen.insert(e.m).second) out.push_back(e);
	return out;
}
static bytes_t<META_BYTES_OUT> meta_of(const ent_t& e) { return bytes_t<META_BYTES_OUT>(e.m.data(), META_BYTES_OUT); }
static hash_t sha(const bytes& b) { return hash_t::from_bytes(ref::sha256(b)); }

// challenge with a given Y start
static hash_t make_challenge(Src& s, uint32_t y0, int k) {
	bytes b = s.bytes(32);
	uint32_t v = y0;
	if(k < 32) v |= uint32_t(s.draw(1ull << (32 - k))) << k;
	for(int i = 0; i < 4; ++i) b[i] = uint8_t(v >> (8 * i));
	return hash_t::from_bytes(b);
}

struct ref_verdict_t { bool ok = false; hash_t out; std::string why; };

static ref_verdict_t ref_verify(const std::vector<uint32_t>& X, const hash_t& ch, const hash_t& id, int pf, int post, int k, bool fork, std::map<uint32_t, ent_t>& cache) {
	ref_verdict_t r;
	if(X.size() != 256) { r.why = "size"; return r; }
	std::vector<ent_t> p;
	try { p = ref_proofs(X, id, k, &cache); } catch(const std::logic_error&) { r.why = "no proof"; return r; }
	if(p.size() != 1) { r.why = "several"; return r; }
	if(p[0].x != X) { r.why = "order"; return r; }
	uint32_t y0 = uint32_t(ch[0]) | ch[1] << 8 | ch[2] << 16 | uint32_t(ch[3]) << 24;
	if(k < 32) y0 &= (1u << k) - 1;
	if(p[0].y < y0 || uint64_t(p[0].y) >= uint64_t(y0) + (1ull << pf)) { r.why = "window"; return r; }
	bytes meta;
	for(int i = 0; i < N_META_OUT; ++i) put32(meta, p[0].m[i]);
	if(fork) {
		const auto h = ref::sha256(ref::cat(ref::cat(ref::str("post_filter"), ch.to_vector()), meta));
		for(int i = 0; i < post; ++i) if((h[31 - i / 8] >> (7 - i % 8)) & 1) { r.why = "post filter"; return r; }
		bytes xs;
		for(auto x : X) put32(xs, x);
		r.out = sha(ref::cat(ch.to_vector(), ref::sha256(xs)));
	} else {
		r.out = sha(ref::cat(ref::cat(ref::str("proof_quality"), ch.to_vector()), meta));
	}
	r.ok = true;
	return r;
}

PROPERTY(pos_verify) {
	const int k = s.range(8, 10);
	const hash_t id(s.bytes(8));
	std::vector<uint32_t> all;
	// the full X range through the table-1 expansion: any split into prefix and low bits gives the same set
	const int xbits = s.range(0, std::min(k, 4));
	for(uint32_t i = 0; i < (1u << (k - xbits)); ++i) all.push_back(i);
	s.shuffle(all);
	std::vector<uint32_t> xs;
	for(uint32_t i = 0; i < (1u << k); ++i) xs.push_back(i);
	std::map<uint32_t, ent_t> cache;
	std::vector<ent_t> want;
	bool empty = false;
	try { want = ref_proofs(xs, id, k, &cache); } catch(const std::logic_error&) { empty = true; }
	std::vector<uint32_t> X_out;
	std::vector<std::pair<uint32_t, bytes_t<META_BYTES_OUT>>> got;
	try {
		got = compute(all, &X_out, id, k, xbits);
	} catch(const std::logic_error&) {
		CHECK_MSG(empty, "compute() finds no proof, the reference finds " << want.size());
		return;
	}
	NOTE("k=" << k << " xbits=" << xbits << " proofs=" << want.size());
	CHECK_MSG(got.size() == want.size(), "k=" << k << " xbits=" << xbits << ": compute() finds " << got.size() << " proofs, the reference " << want.size());
	CHECK_MSG(X_out.size() == want.size() * 256, "proof length");
	for(size_t i = 0; i < want.size(); ++i) {
		CHECK_MSG(got[i].first == want[i].y && got[i].second == meta_of(want[i]), "proof " << i << " Y/meta");
		CHECK_MSG(std::equal(want[i].x.begin(), want[i].x.end(), X_out.begin() + 256 * i), "proof " << i << " X values");
	}
	{
		const auto again = compute(all, nullptr, id, k, xbits);
		CHECK_MSG(again == got, "compute() without X_out differs");
	}
	if(want.empty()) return;
	// verification of genuine and damaged proofs
	int good = 0, bad = 0;
	for(int n = s.range(1, 6); n > 0; --n) {
		const auto& p = want[s.index(want.size())];
		auto X = p.x;
		auto use_id = id;
		const int pf = s.range(0, 6);
		const int post = s.range(1, 4);		// protocol: post_filter >= 1 (10 on mainnet)
		const bool fork = s.flip();
		int64_t y0 = int64_t(p.y) - int64_t(s.draw(1ull << pf));
		const auto kind = s.weighted({4, 2, 1, 1, 1, 1, 1, 1});
		switch(kind) {
			case 1: y0 = s.flip() ? int64_t(p.y) + 1 : int64_t(p.y) - (1ll << pf); break;		// just outside
			case 2: std::swap(X[s.index(256)], X[s.index(256)]); break;
			case 3: X[s.index(256)] = s.draw(1u << k); break;
			case 4: X[s.index(256)] ^= 1u << s.index(k); break;
			case 5: if(s.flip()) X.pop_back(); else X.push_back(X[0]); break;
			case 6: { const auto h = 1 << s.range(0, 7); for(int i = 0; i < h; ++i) std::swap(X[i], X[i + h]); break; }	// swap two subtrees
			case 7: use_id[s.index(32)] ^= 1; break;
		}
		y0 = std::max<int64_t>(std::min<int64_t>(y0, (1ll << k) - 1), 0);
		const auto ch = make_challenge(s, y0, k);
		std::map<uint32_t, ent_t> other;
		const auto r = ref_verify(X, ch, use_id, pf, post, k, fork, use_id == id ? cache : other);
		bool ok = false;
		hash_t out;
		std::string err;
		try { out = pos::verify(X, ch, use_id, pf, post, k, fork); ok = true; } catch(const std::logic_error& ex) { err = ex.what(); }
		NOTE("verify kind=" << kind << " y0=" << y0 << " Y=" << p.y << " filter=" << pf << " fork=" << fork << " -> " << (ok ? "accepted" : err) << " / expected " << (r.ok ? "accepted" : r.why));
		CHECK_MSG(ok == r.ok, "verify() " << (ok ? "accepts" : "rejects (" + err + ")") << " a proof that is " << (r.ok ? "right" : "wrong: " + r.why) << ", k=" << k << " kind=" << kind << " fork=" << fork);
		if(ok) CHECK_MSG(out == r.out, "proof hash, fork=" << fork);
		(ok ? good : bad)++;
		c.label(r.ok ? "accepted" : "rejected: " + r.why);
	}
	c.nontrivial(good + bad > 0);
}

// ------------------------------------------------------------------------------------------- plot files

static bytes to_bytes(const bits_t& b, size_t size) {
	bytes o(size, 0);
	for(size_t i = 0; i < b.size(); ++i) if(b[i]) o.at(i / 8) |= 1 << (i % 8);
	return o;
}

static size_t plot_space(size_t bits) { return (bits + 7) / 8; }

struct plot_t {
	std::string path;
	std::shared_ptr<PlotHeader> header = PlotHeader::create();
	std::vector<ent_t> final;
};

static void write_plot(plot_t& p, const std::vector<std::vector<ent_t>>* tables, Src& s) {
	auto& h = *p.header;
	const int k = h.ksize;
	const auto& fin = p.final;
	h.num_entries_y = fin.size();
	std::vector<bytes> blobs;		// in file order
	// Y table
	std::vector<bits_t> y_parks;
	size_t max_y = 0;
	for(size_t i = 0; i < fin.size(); i += h.park_size_y) {
		bits_t b;
		put(b, fin[i].y, 32);
		for(size_t n = 1; n < (size_t)h.park_size_y; ++n) {
			put_symbol(b, i + n < fin.size() ? fin[i + n].y - fin[i + n - 1].y : 0);
		}
		max_y = std::max(max_y, b.size());
		y_parks.push_back(b);
	}
	h.park_bytes_y = plot_space(max_y) + s.range(0, 9);
	bytes y;
	for(auto& b : y_parks) { const auto t = to_bytes(b, h.park_bytes_y); y.insert(y.end(), t.begin(), t.end()); }
	// meta
	bytes meta;
	if(h.has_meta) {
		h.park_bytes_meta = plot_space(size_t(h.park_size_meta) * N_META_OUT * k) + s.range(0, 3);
		for(size_t i = 0; i < fin.size(); i += h.park_size_meta) {
			bits_t b;
			for(size_t n = i; n < std::min(fin.size(), i + h.park_size_meta); ++n) for(int j = 0; j < N_META_OUT; ++j) put(b, fin[n].m[j], k);
			const auto t = to_bytes(b, h.park_bytes_meta);
			meta.insert(meta.end(), t.begin(), t.end());
		}
	}
	std::vector<bytes> pd;
	bytes x;
	if(tables) {
		std::vector<std::pair<int, std::vector<bits_t>>> all;
		size_t max_pd = 0;
		for(int t = N_TABLE; t >= 3; --t) {
			const auto& e = (*tables)[t];
			std::vector<bits_t> parks;
			for(size_t i = 0; i < e.size(); i += h.park_size_pd) {
				bits_t b;
				for(size_t n = i; n < i + h.park_size_pd; ++n) put(b, n < e.size() ? e[n].l : 0, k);
				for(size_t n = i; n < i + h.park_size_pd; ++n) put_symbol(b, n < e.size() ? e[n].r - e[n].l : 0);
				max_pd = std::max(max_pd, b.size());
				parks.push_back(b);
			}
			all.emplace_back(t, parks);
		}
		h.park_bytes_pd = plot_space(max_pd) + s.range(0, 9);
		for(auto& a : all) {
			bytes o;
			for(auto& b : a.second) { const auto t = to_bytes(b, h.park_bytes_pd); o.insert(o.end(), t.begin(), t.end()); }
			pd.push_back(o);
		}
		// table 2: pairs of X (or their upper bits) as line points
		const int shift = k - h.xbits;
		h.entry_bits_x = 2 * h.xbits + (shift ? 1 : 0);
		h.park_bytes_x = plot_space(size_t(h.park_size_x) * h.entry_bits_x) + s.range(0, 9);
		const auto& e = (*tables)[2];
		for(size_t i = 0; i < e.size(); i += h.park_size_x) {
			bits_t b;
			for(size_t n = i; n < std::min(e.size(), i + h.park_size_x); ++n) {
				uint64_t u = e[n].x[0] >> shift, v = e[n].x[1] >> shift;
				if(u < v) std::swap(u, v);
				put(b, shift ? uint64_t(tri(u + 1)) + v + 1 : uint64_t(tri(u)) + v, h.entry_bits_x);
			}
			const auto t = to_bytes(b, h.park_bytes_x);
			x.insert(x.end(), t.begin(), t.end());
		}
	}
	// header size depends on nothing but the number of tables: reserve a fixed area
	const uint64_t base = 4096;
	uint64_t pos = base;
	h.table_offset_pd.clear();
	auto place = [&](const bytes& b) { const auto at = pos; pos += b.size() + 64; return at; };
	h.table_offset_x = tables ? place(x) : -1;
	for(auto& b : pd) h.table_offset_pd.push_back(place(b));
	h.table_offset_y = place(y);
	h.table_offset_meta = h.has_meta ? place(meta) : -1;
	vnx::write_to_file(p.path, p.header);
	FILE* f = fopen(p.path.c_str(), "r+b");
	auto dump = [&](uint64_t at, const bytes& b) { if(b.size()) { fseek(f, at, SEEK_SET); fwrite(b.data(), 1, b.size(), f); } };
	if(tables) {
		dump(h.table_offset_x, x);
		for(size_t i = 0; i < pd.size(); ++i) dump(h.table_offset_pd[i], pd[i]);
	}
	dump(h.table_offset_y, y);
	if(h.has_meta) dump(h.table_offset_meta, meta);
	bytes tail(64, 0xFF);
	dump(pos, tail);
	fclose(f);
}

static std::string plot_path() { return pbt::scratch_dir() + "/plot." + std::to_string(getpid()); }

static void gen_header(plot_t& p, Src& s, int k) {
	auto& h = *p.header;
	h.ksize = k;
	h.xbits = k;
	h.park_size_x = s.range(1, 64);
	h.park_size_y = s.range(2, 80);
	h.park_size_pd = s.range(1, 64);
	h.park_size_meta = s.range(1, 40);
	h.plot_id = hash_t(s.bytes(8));
	p.path = plot_path();
}

// plots with a made-up final table: every entry in the challenge's window is found, with its index and data
PROPERTY(plot_lookup) {
	const int k = s.chance(20) ? s.range(15, 17) : s.range(8, 13);
	plot_t p;
	gen_header(p, s, k);
	p.header->has_meta = true;
	const uint64_t range = 1ull << k;
	// a lookup walks at most 100 parks: keep the whole table within that
	p.header->park_size_y = std::max<uint64_t>(s.range(2, k >= 15 ? 3000 : 200), range / 80 + 2);
	// a random table as dense as a real one: 2^k entries, each with a uniform Y, gaps below 48
	std::vector<uint32_t> ys;
	uint64_t seed = s.draw(0);
	for(uint64_t i = 0; i < range; ++i) ys.push_back(pbt::splitmix(seed) % range);
	if(s.chance(30)) for(auto& y : ys) y = uint32_t((uint64_t(y) * 7 / 8)) & ~uint32_t(s.draw(2));	// clustering, missing upper end
	else if(s.chance(30)) for(auto& y : ys) y = range / 8 + uint32_t((uint64_t(y) * 7 / 8));				// missing lower end: the estimate overshoots
	std::sort(ys.begin(), ys.end());
	if(std::all_of(ys.begin(), ys.end(), [&](uint32_t y) { return y < range; }) == false) throw pbt::discard();
	for(size_t i = 0; i < ys.size(); ++i) {
		if(i && ys[i] - ys[i - 1] > 47) break;
		ent_t e;
		e.y = ys[i];
		for(int j = 0; j < N_META; ++j) e.m[j] = pbt::splitmix(seed) & (range - 1);
		p.final.push_back(e);
	}
	if(p.final.empty()) throw pbt::discard();
	write_plot(p, nullptr, s);
	pos::Prover prover(p.path);
	CHECK_MSG(prover.get_ksize() == k && prover.has_meta() && prover.get_plot_id() == p.header->plot_id && prover.get_clevel() == 0, "plot header");
	// where the walk starts is a tuning parameter: any start has to lead to the same result
	prover.initial_y_shift = s.flip() ? -1024 * 24 : s.flip() ? -int(s.draw(range / 4)) : int(s.draw(range / 4));
	int hits = 0;
	for(int n = s.range(1, 6); n > 0; --n) {
		const int pf = s.range(0, std::min(k, 8));
		uint64_t y0 = s.draw(range);
		switch(s.draw(4)) {
			case 0: y0 = p.final[s.index(p.final.size())].y; break;
			case 1: { const auto v = p.final[s.index(p.final.size())].y; y0 = v >= (1u << pf) ? v - (1u << pf) + 1 : 0; break; }
			case 2: y0 = s.flip() ? range - 1 - s.draw(8) : s.draw(8); break;
		}
		const auto ch = make_challenge(s, y0, k);
		const auto res = prover.get_qualities(ch, pf);
		std::vector<uint64_t> want;
		for(size_t i = 0; i < p.final.size(); ++i) if(p.final[i].y >= y0 && p.final[i].y < y0 + (1ull << pf)) want.push_back(i);
		std::vector<uint64_t> got;
		for(auto& r : res) got.push_back(r.index);
		NOTE("k=" << k << " park_size_y=" << p.header->park_size_y << " initial shift " << prover.initial_y_shift << " window [" << y0 << ", +" << (1 << pf) << ") -> " << want.size());
		CHECK_MSG(got == want, "lookup finds " << got.size() << " entries, the table has " << want.size() << " in [" << y0 << ", " << y0 + (1ull << pf) << "), k=" << k << " park_size_y=" << p.header->park_size_y);
		for(auto& r : res) {
			CHECK_MSG(r.valid && r.meta == meta_of(p.final[r.index]), "stored data of entry " << r.index);
		}
		hits += want.size();
	}
	unlink(p.path.c_str());
	c.nontrivial(hits > 0);
	c.label(k >= 15 ? "large plot" : "small plot");
}

// plots made by the reference plotter: every final entry yields a proof that verifies
PROPERTY(plot_proofs) {
	const int k = s.range(8, 10);
	plot_t p;
	gen_header(p, s, k);
	auto& h = *p.header;
	h.has_meta = s.flip();
	h.xbits = k - s.range(0, 2);
	std::vector<uint32_t> xs;
	for(uint32_t i = 0; i < (1u << k); ++i) xs.push_back(i);
	std::vector<std::vector<ent_t>> t;
	std::map<uint32_t, ent_t> cache;
	try { t = ref_tables(xs, h.plot_id, k, &cache, 47); } catch(const std::logic_error&) { throw pbt::discard(); }
	// pointers have k bits
	for(auto& x : t) if(x.size() > (1u << k)) throw pbt::discard();
	// a plot stores table entries sorted by Y, with pointers into the table below: ref_tables() keeps them so
	// the final table: start where the gaps allow the encoding
	size_t n = 1;
	while(n < t[N_TABLE].size() && t[N_TABLE][n].y - t[N_TABLE][n - 1].y < 48) n++;
	t[N_TABLE].resize(n);
	p.final = t[N_TABLE];
	h.park_size_y = std::max<int>(h.park_size_y, (1 << k) / 80 + 2);
	write_plot(p, &t, s);
	pos::Prover prover(p.path);
	CHECK_MSG(prover.get_clevel() == k - h.xbits, "compression level");
	int verified = 0;
	for(int q = s.range(1, 3); q > 0; --q) {
		const auto& e = p.final[s.index(p.final.size())];
		const int pf = s.range(0, 3);
		const auto y0 = e.y - std::min<uint32_t>(e.y, s.draw(1u << pf));
		const auto ch = make_challenge(s, y0, k);
		const auto res = prover.get_qualities(ch, pf);
		std::vector<uint64_t> want;
		for(size_t i = 0; i < p.final.size(); ++i) if(p.final[i].y >= y0 && p.final[i].y < y0 + (1ull << pf)) want.push_back(i);
		CHECK_MSG(res.size() == want.size(), "lookup finds " << res.size() << " of " << want.size());
		for(size_t i = 0; i < res.size(); ++i) {
			const auto& f = p.final[want[i]];
			CHECK_MSG(!res[i].valid || res[i].index == want[i], "entry " << i << " of the result has index " << res[i].index << " instead of " << want[i] << " valid=" << res[i].valid << " " << res[i].error_msg << " meta=" << h.has_meta << " final " << p.final.size());
			proof_data_t full;
			std::string err;
			try { full = prover.get_full_proof(want[i]); } catch(const std::exception& ex) { err = ex.what(); }
			// what the stored data determines: the proofs over the (expanded) X values of this entry
			const int shift = k - h.xbits;
			std::set<uint32_t> cand;
			for(auto x : f.x) for(uint32_t l = 0; l < (1u << shift); ++l) cand.insert((x >> shift << shift) | l);
			const auto ps = ref_proofs(std::vector<uint32_t>(cand.begin(), cand.end()), h.plot_id, k, &cache);
			NOTE("k=" << k << " clevel=" << shift << " entry " << want[i] << " candidates " << cand.size() << " proofs " << ps.size() << (err.empty() ? "" : " error: " + err));
			if(ps.size() == 1) {
				CHECK_MSG(err.empty(), "get_full_proof(" << want[i] << ") fails: " << err << ", k=" << k << " clevel=" << shift);
				CHECK_MSG(full.valid && full.index == want[i] && full.proof == ps[0].x && full.meta == meta_of(ps[0]), "full proof of entry " << want[i] << ", k=" << k << " clevel=" << shift);
				CHECK_MSG(ps[0].y == f.y && meta_of(ps[0]) == meta_of(f), "reference self-check");
				if(h.has_meta) CHECK_MSG(res[i].valid && res[i].meta == full.meta, "stored meta data of entry " << want[i]);
				else CHECK_MSG(res[i].valid && res[i].proof == full.proof && res[i].meta == full.meta, "lookup of a plot without meta data returns the proof");
				const auto r = ref_verify(full.proof, ch, h.plot_id, pf, 0, k, false, cache);
				if(r.ok) {
					CHECK_MSG(pos::verify(full.proof, ch, h.plot_id, pf, 1, k, false) == r.out, "proof from the plot");
					verified++;
				}
			} else {
				CHECK_MSG(!err.empty() || ps.empty(), "ambiguous entry " << want[i] << " yields a proof");
				if(!h.has_meta) CHECK_MSG(!res[i].valid && !res[i].error_msg.empty(), "ambiguous entry reported valid");
				c.label("ambiguous");
			}
		}
	}
	unlink(p.path.c_str());
	c.nontrivial(verified > 0);
	c.label("clevel " + std::to_string(k - h.xbits));
}
