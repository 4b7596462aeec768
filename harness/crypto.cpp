// C01 hashing, C02 keys and signatures, C03 text encodings of hashes/addresses/seeds
#include "pbt.h"
#include "ref_crypto.h"

#include <sha256_ni.h>
#include <sha256_avx2.h>
#include <sha512.h>
#include <hmac_sha512.h>
#include <mmx/hash_t.hpp>
#include <mmx/hash_512_t.hpp>
#include <mmx/hmac_sha512.hpp>
#include <mmx/tree_hash.h>
#include <mmx/addr_t.hpp>
#include <mmx/skey_t.hpp>
#include <mmx/pubkey_t.hpp>
#include <mmx/signature_t.hpp>
#include <mmx/mnemonic.h>
#include <mmx/secp256k1.hpp>

#include <memory>

using namespace mmx;
using pbt::Src; using pbt::Ctx; using pbt::show;
typedef std::vector<uint8_t> bytes;

static secp256k1_context* g_ref = nullptr;

SETUP {
	mmx::secp256k1_init();
	g_ref = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
	if(show(ref::sha256(ref::str("abc"))).find("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad") == std::string::npos
		|| show(ref::sha512(ref::str("abc"))).find("ddaf35a193617abacc417349ae204131") == std::string::npos) abort();
}

static bytes vec(const hash_t& h) { return h.to_vector(); }
static hash_t to_hash(const bytes& b) { return hash_t::from_bytes(b); }

static size_t gen_len(Src& s, size_t block) {
	switch(s.weighted({3, 5, 3, 1})) {
		case 0: return s.range(0, block + 10);
		case 1: {		// around block boundaries and padding boundaries
			const size_t n = s.range(0, 6) * block;
			return n + block - std::min<size_t>(s.range(0, block / 4), block);
		}
		case 2: return s.range(0, 8 * block);
		default: return s.range(0, 6000);
	}
}

PROPERTY(sha256_oneshot) {
	const auto len = gen_len(s, 64);
	const auto msg = s.bytes(len);
	const auto off = s.range(0, 15);		// alignment of the input
	std::unique_ptr<uint8_t[]> buf(new uint8_t[off + len]);
	std::copy(msg.begin(), msg.end(), buf.get() + off);
	const auto want = ref::sha256(msg);
	NOTE("len=" << len << " offset=" << off << " sha256=" << show(want));
	pbt::check_eq(vec(hash_t(buf.get() + off, len)), want, "hash_t");
	pbt::check_eq(vec(hash_t(msg)), want, "hash_t(vector)");
	pbt::check_eq(vec(hash_t(std::string(msg.begin(), msg.end()))), want, "hash_t(string)");
	if(sha256_ni_available()) {
		std::unique_ptr<uint8_t[]> out(new uint8_t[32 + off]);
		sha256_ni(out.get() + off, buf.get() + off, len);
		pbt::check_eq(bytes(out.get() + off, out.get() + off + 32), want, "sha256_ni");
		// in-place output is used by callers that re-hash a buffer
		if(len >= 32) {
			sha256_ni(buf.get() + off, buf.get() + off, len);
			pbt::check_eq(bytes(buf.get() + off, buf.get() + off + 32), want, "sha256_ni in place");
		}
		c.label("sha_ni");
	}
	c.nontrivial(len > 0);
	c.label(len % 64 >= 56 ? "length field in extra block" : "length field fits");
	c.label(len > 64 ? "multi block" : "single block");
}

PROPERTY(sha256_lanes) {
	const auto len = s.range(0, 55);
	std::vector<bytes> lane(8);
	bytes in(8 * 64, 0xAA);
	const bool zero_pad = s.flip();
	if(zero_pad) std::fill(in.begin(), in.end(), 0);
	for(int i = 0; i < 8; ++i) {
		lane[i] = s.bytes(len);
		std::copy(lane[i].begin(), lane[i].end(), in.begin() + i * 64);
	}
	NOTE("len=" << len);
	auto check = [&](const char* what, void (*fn)(uint8_t*, uint8_t*, const uint64_t)) {
		// 32-byte aligned buffers, as callers of the AVX2 version supply
		uint8_t* a = (uint8_t*)aligned_alloc(64, 512);
		uint8_t* o = (uint8_t*)aligned_alloc(64, 256);
		memcpy(a, in.data(), 512);
		memset(o, 0, 256);
		fn(o, a, len);
		for(int i = 0; i < 8; ++i) {
			const bytes got(o + i * 32, o + i * 32 + 32);
			if(got != ref::sha256(lane[i])) FAIL(what << " lane " << i << " len " << len << ": got " << show(got) << " for " << show(lane[i]));
		}
		free(a); free(o);
	};
	check("sha256_64_x8", sha256_64_x8);
	if(avx2_available()) { check("sha256_avx2_64_x8", sha256_avx2_64_x8); c.label("avx2"); }
	for(size_t bad : {56, 57, 64, 100}) {
		bool threw = false;
		try { uint8_t o[256], a[512] = {}; sha256_64_x8(o, a, bad); } catch(const std::logic_error&) { threw = true; }
		CHECK_MSG(threw, "sha256_64_x8 accepts length " << bad);
	}
	c.nontrivial();
}

PROPERTY(sha256_recursive) {
	if(!sha256_ni_available()) { c.label("no sha_ni"); c.nontrivial(); return; }
	const auto n = s.size(300);
	auto a = s.bytes(32), b = s.bytes(32);
	auto ra = a, rb = b;
	for(size_t i = 0; i < n; ++i) { ra = ref::sha256(ra); rb = ref::sha256(rb); }
	NOTE("iterations=" << n << " start=" << show(a));
	auto x = a;
	recursive_sha256_ni(x.data(), n);
	pbt::check_eq(x, ra, "recursive_sha256_ni x" + std::to_string(n));
	auto y = ref::cat(a, b);
	recursive_sha256_ni_x2(y.data(), n);
	pbt::check_eq(y, ref::cat(ra, rb), "recursive_sha256_ni_x2 x" + std::to_string(n));
	// composition: n = k + (n - k)
	const auto k = s.range(0, n);
	x = a;
	recursive_sha256_ni(x.data(), k);
	recursive_sha256_ni(x.data(), n - k);
	pbt::check_eq(x, ra, "split recursion");
	c.nontrivial(n > 0);
	c.label(n > 1 ? "n>1" : "n<=1");
}

PROPERTY(sha512_stream) {
	const auto len = gen_len(s, 128);
	const auto msg = s.bytes(len);
	const auto want = ref::sha512(msg);
	NOTE("len=" << len);
	SHA512 h;
	if(s.flip()) {		// a used object after Reset() behaves as a fresh one
		const auto junk = s.bytes(s.size(300));
		h.Write(junk.data(), junk.size());
		if(s.flip()) { uint8_t t[64]; h.Finalize(t); }
		h.Reset();
		c.label("reset");
	}
	size_t pos = 0, parts = 0;
	while(pos < len) {
		const auto n = s.flip() ? len - pos : std::min<size_t>(s.range(0, 140), len - pos);
		std::unique_ptr<uint8_t[]> part(new uint8_t[n]);
		std::copy(msg.begin() + pos, msg.begin() + pos + n, part.get());
		h.Write(part.get(), n);
		pos += n;
		parts++;
		CHECK_MSG(h.Size() == pos, "Size()");
		if(parts > 200) { h.Write(msg.data() + pos, len - pos); pos = len; }
	}
	bytes got(64);
	h.Finalize(got.data());
	pbt::check_eq(got, want, "SHA512 of " + std::to_string(len) + " bytes in " + std::to_string(parts) + " writes");
	if(len) pbt::check_eq(hash_512_t(msg).to_vector(), want, "hash_512_t");
	c.nontrivial(len > 0);
	c.label(parts > 1 ? "several writes" : "one write");
}

PROPERTY(hmac) {
	const auto key = s.bytes(s.weighted({1, 1}) ? s.range(120, 136) : s.size(400));
	const auto msg = s.bytes(gen_len(s, 128));
	NOTE("key=" << key.size() << " msg=" << msg.size());
	HMAC_SHA512 h(key.data(), key.size());
	const auto cut = s.range(0, msg.size());
	h.Write(msg.data(), cut);
	h.Write(msg.data() + cut, msg.size() - cut);
	bytes got(64);
	h.Finalize(got.data());
	pbt::check_eq(got, ref::hmac512(key, msg), "HMAC_SHA512");

	const auto a = s.bytes(32), k = s.bytes(32);
	const uint32_t idx = s.u32();
	auto join = [](const std::pair<hash_t, hash_t>& p) { return ref::cat(vec(p.first), vec(p.second)); };
	pbt::check_eq(join(hmac_sha512(to_hash(a), to_hash(k))), ref::hmac512(k, a), "hmac_sha512");
	const bytes be = {uint8_t(idx >> 24), uint8_t(idx >> 16), uint8_t(idx >> 8), uint8_t(idx)};
	pbt::check_eq(join(hmac_sha512_n(to_hash(a), to_hash(k), idx)), ref::hmac512(k, ref::cat(a, be)), "hmac_sha512_n");
	const auto n = s.range(1, 6);
	auto t = ref::hmac512(k, a);
	for(size_t i = 1; i < n; ++i) t = ref::hmac512(t, a);
	pbt::check_eq(join(kdf_hmac_sha512(to_hash(a), to_hash(k), n)), t, "kdf_hmac_sha512");
	c.nontrivial();
	c.label(key.size() > 128 ? "long key" : "short key");
}

PROPERTY(btree_hash) {
	const auto n = s.range(0, 40);
	std::vector<hash_t> in;
	std::vector<bytes> level;
	for(size_t i = 0; i < n; ++i) { in.push_back(to_hash(s.bytes(32))); level.push_back(vec(in.back())); }
	while(level.size() > 1) {
		std::vector<bytes> next;
		for(size_t i = 0; i < level.size(); i += 2) next.push_back(i + 1 < level.size() ? ref::sha256(ref::cat(level[i], level[i + 1])) : level[i]);
		level = next;
	}
	const auto want = n ? level[0] : bytes(32, 0);
	pbt::check_eq(vec(calc_btree_hash(in)), want, "tree hash of " + std::to_string(n));
	NOTE("leaves=" << n);
	c.nontrivial(n > 1);
}

// ---------------------------------------------------------------------------------------------- keys

static skey_t gen_skey(Src& s) {
	bytes k(32, 0);
	if(s.weighted({3, 1})) {
		const auto v = s.range(1, 1000);
		k[31] = v & 0xFF; k[30] = v >> 8;
		if(s.flip()) {		// order - v
			static const uint8_t order[32] = {0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFE,
				0xBA,0xAE,0xDC,0xE6,0xAF,0x48,0xA0,0x3B,0xBF,0xD2,0x5E,0x8C,0xD0,0x36,0x41,0x41};
			int borrow = 0;
			for(int i = 31; i >= 0; --i) { int d = int(order[i]) - k[i] - borrow; borrow = d < 0; k[i] = uint8_t(d); }
		}
	} else {
		k = ref::sha256(s.bytes(8));
	}
	return skey_t(to_hash(k));
}

static int ref_verify(const signature_t& sig, const pubkey_t& key, const hash_t& h) {
	secp256k1_ecdsa_signature rs;
	secp256k1_pubkey rk;
	if(!secp256k1_ecdsa_signature_parse_compact(g_ref, &rs, sig.data())) return -1;
	if(!secp256k1_ec_pubkey_parse(g_ref, &rk, key.data(), 33)) return -1;
	return secp256k1_ecdsa_verify(g_ref, &rs, h.data(), &rk);
}
static int my_verify(const signature_t& sig, const pubkey_t& key, const hash_t& h) {
	try { return sig.verify(key, h) ? 1 : 0; } catch(const std::exception&) { return -1; }
}

// every history of verify() calls: the answer is the one of an uncached independent verification
PROPERTY(signature_history) {
	const int nkeys = s.range(1, 4), nmsgs = s.range(1, 4);
	std::vector<skey_t> sk;
	std::vector<pubkey_t> pk;
	for(int i = 0; i < nkeys; ++i) {
		sk.push_back(gen_skey(s));
		pk.push_back(pubkey_t(sk.back()));
		secp256k1_pubkey rk;
		CHECK_MSG(secp256k1_ec_pubkey_create(g_ref, &rk, sk.back().data()), "bad key");
		bytes ser(33);
		size_t n = 33;
		secp256k1_ec_pubkey_serialize(g_ref, ser.data(), &n, &rk, SECP256K1_EC_COMPRESSED);
		pbt::check_eq(pk.back().to_vector(), ser, "public key");
		pbt::check_eq(vec(pk.back().get_addr()), ref::sha256(ser), "address is the hash of the public key");
		pbt::check_eq(pubkey_t(pk.back().to_secp256k1()).to_vector(), ser, "public key round trip");
	}
	std::vector<hash_t> msg;
	for(int i = 0; i < nmsgs; ++i) msg.push_back(s.chance(10) ? hash_t::from_bytes(bytes(32, 0)) : hash_t(s.bytes(8)));
	struct item { signature_t sig; pubkey_t key; hash_t h; };
	std::vector<item> pool;
	int accepted = 0, rejected = 0;
	const int steps = s.range(1, 25);
	for(int i = 0; i < steps; ++i) {
		item it;
		switch(pool.empty() ? 0 : s.weighted({3, 2, 2, 2, 2, 2, 1, 1})) {
			case 0: {
				const auto k = s.index(nkeys), m = s.index(nmsgs);
				it.sig = signature_t::sign(sk[k], msg[m]);
				it.key = pk[k];
				it.h = msg[m];
				CHECK_MSG(it.sig == signature_t::sign(sk[k], msg[m]), "signing is deterministic");
				CHECK_MSG(it.sig.normalized() == it.sig, "signatures are normalized");
				CHECK_MSG(signature_t(it.sig.to_secp256k1()) == it.sig, "signature round trip");
				CHECK_MSG(ref_verify(it.sig, it.key, it.h) == 1, "own signature does not verify");
				pool.push_back(it);
				break;
			}
			case 1: it = s.pick(pool); break;		// repeat
			case 2: it = s.pick(pool); it.h = s.pick(msg); break;
			case 3: it = s.pick(pool); it.key = s.pick(pk); break;
			case 4: it = s.pick(pool); it.sig[s.index(64)] ^= 1 << s.index(8); break;
			case 5: it = s.pick(pool); it.h[s.index(32)] ^= 1 << s.index(8); break;
			case 6: it = s.pick(pool); it.key[s.index(33)] ^= 1 << s.index(8); break;
			case 7:
				it.sig = s.flip() ? signature_t() : signature_t(s.bytes(64));
				it.key = s.flip() ? pubkey_t() : s.pick(pk);
				it.h = s.flip() ? hash_t::from_bytes(bytes(32, 0)) : s.pick(msg);
				break;
		}
		const int want = ref_verify(it.sig, it.key, it.h);
		const int got = my_verify(it.sig, it.key, it.h);
		NOTE("verify #" << i << " expected " << want << " got " << got);
		CHECK_MSG((got == 1) == (want == 1), "verify() says " << got << " but an independent verification says " << want
				<< " sig=" << it.sig << " key=" << it.key << " hash=" << it.h);
		(want == 1 ? accepted : rejected)++;
	}
	c.nontrivial(accepted && rejected);
	c.label(accepted && rejected ? "accept+reject" : accepted ? "only accept" : "only reject");
}

// ---------------------------------------------------------------------------------------------- text

static hash_t gen_hash(Src& s) {
	bytes b = s.bytes(32);
	if(s.chance(30)) for(int i = s.range(0, 32); i < 32; ++i) b[i] = 0;
	return to_hash(b);
}

static const std::string B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

static uint32_t bech_polymod(const std::vector<uint8_t>& v) {
	uint32_t chk = 1;
	for(auto x : v) {
		const uint8_t top = chk >> 25;
		chk = (chk & 0x1ffffff) << 5 ^ x;
		const uint32_t g[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
		for(int i = 0; i < 5; ++i) if((top >> i) & 1) chk ^= g[i];
	}
	return chk;
}
// BIP-350 text of 256 bits taken most significant byte = bytes[31] first
static std::string ref_addr(const bytes& b) {
	std::vector<uint8_t> dp;
	int acc = 0, bits = 0;
	for(int i = 31; i >= 0; --i) {
		acc = (acc << 8) | b[i];
		bits += 8;
		while(bits >= 5) { bits -= 5; dp.push_back((acc >> bits) & 31); }
		acc &= (1 << bits) - 1;
	}
	if(bits) dp.push_back((acc << (5 - bits)) & 31);
	std::vector<uint8_t> v;
	for(char ch : std::string("mmx")) v.push_back(ch >> 5);
	v.push_back(0);
	for(char ch : std::string("mmx")) v.push_back(ch & 31);
	v.insert(v.end(), dp.begin(), dp.end());
	auto t = v;
	t.resize(t.size() + 6, 0);
	const auto mod = bech_polymod(t) ^ 0x2bc830a3;
	std::string out = "mmx1";
	for(auto x : dp) out += B32[x];
	for(int i = 0; i < 6; ++i) out += B32[(mod >> (5 * (5 - i))) & 31];
	return out;
}

PROPERTY(address_text) {
	const auto h = gen_hash(s);
	const addr_t a(h);
	const auto str = a.to_string();
	NOTE("address " << str);
	pbt::check_eq(str, ref_addr(vec(h)), "address text (BIP-350)");
	CHECK_MSG(addr_t(str) == a, "address does not round trip: " << str);
	addr_t b;
	b.from_string(str);
	CHECK_MSG(b == a, "from_string");
	CHECK_MSG(hash_t(a) == h && a.to_vector() == vec(h), "bytes");
	CHECK_MSG(addr_t("MMX") == addr_t() && addr_t() == addr_t(std::string("MMX")), "native currency");
	// any one to four wrong characters, a lost or an extra character must be noticed
	auto bad = str;
	const auto n = s.range(1, 4);
	std::set<size_t> at;
	while(at.size() < n) at.insert(4 + s.index(str.size() - 4));
	for(auto i : at) {
		const auto old = B32.find(bad[i]);
		bad[i] = B32[(old + 1 + s.draw(31)) % 32];
	}
	auto rejects = [&](const std::string& t, const std::string& why) {
		try {
			addr_t x(t);
			FAIL("address with " << why << " is accepted: " << t << " (from " << str << ")");
		} catch(const std::exception& ex) {
			if(dynamic_cast<const pbt::failure*>(&ex)) throw;
		}
	};
	rejects(bad, std::to_string(n) + " wrong characters");
	rejects(str.substr(0, str.size() - 1), "a missing character");
	rejects(str + B32[s.index(32)], "an extra character");
	rejects(str.substr(4), "no prefix");
	rejects("", "no text");
	{ auto t = str; t[4 + s.index(t.size() - 4)] = s.of<char>({'b', 'i', 'o', '1', ' ', '_'}); rejects(t, "a character outside of the alphabet"); }
	c.nontrivial();
	c.label(std::to_string(n) + " substitutions");
}

PROPERTY(hex_and_integers) {
	const auto h = gen_hash(s);
	const auto str = h.to_string();
	NOTE("hash " << str);
	std::string want;
	for(auto x : vec(h)) { want += "0123456789ABCDEF"[x >> 4]; want += "0123456789ABCDEF"[x & 15]; }
	pbt::check_eq(str, want, "hex text");
	hash_t g;
	g.from_string(str);
	CHECK_MSG(g == h, "hex round trip");
	CHECK_MSG(bytes_t<32>(str) == h, "bytes_t(hex)");
	{ std::string low = str; for(auto& ch : low) ch = tolower(ch); g.from_string(low); CHECK_MSG(g == h, "lower case hex"); }
	for(const auto& t : {str.substr(2), str + "00", std::string()}) {
		bool threw = false;
		try { g.from_string(t); } catch(const std::exception&) { threw = true; }
		CHECK_MSG(threw, "hash of wrong length accepted: " << t);
	}
	// integers: little endian by default, big endian on request
	for(bool be : {false, true}) {
		const auto v = h.to_uint<uint256_t>(be);
		bytes_t<32> r;
		r.from_uint(v, be);
		CHECK_MSG(r == h, "from_uint(to_uint()) big_endian=" << be);
		for(int i = 0; i < 32; ++i) {
			const uint8_t byte = uint8_t(uint64_t((v >> (8 * i)) & 0xFF));
			CHECK_MSG(byte == h[be ? 31 - i : i], "byte " << i << " of the integer value");
		}
	}
	CHECK_MSG(h.to_uint256() == h.to_uint<uint256_t>(false), "to_uint256");
	const auto o = s.chance(20) ? h : gen_hash(s);
	const auto va = vec(h), vb = vec(o);
	CHECK_MSG((h < o) == (va < vb) && (h > o) == (va > vb) && (h == o) == (va == vb) && (h != o) == (va != vb), "ordering of " << h << " and " << o);
	CHECK_MSG(h.is_zero() == (va == bytes(32, 0)), "is_zero");
	CHECK_MSG((h + o).to_vector() == ref::cat(va, vb), "concatenation");
	CHECK_MSG(std::string("xyz") + h == ref::cat(ref::str("xyz"), va) && h + std::string("xyz") == ref::cat(va, ref::str("xyz")), "concatenation with text");
	CHECK_MSG(va + o == ref::cat(va, vb) && h + vb == ref::cat(va, vb), "concatenation with bytes");
	c.nontrivial(!h.is_zero());
}

PROPERTY(mnemonic_words) {
	const auto& list = mnemonic::wordlist_en;
	CHECK_MSG(list.size() == 2048 && std::set<std::string>(list.begin(), list.end()).size() == 2048, "word list");
	const auto seed = gen_hash(s);
	const auto words = mnemonic::seed_to_words(seed);
	// BIP-39: 256 bits, most significant first, followed by the first byte of their hash
	bytes be = vec(seed);
	std::reverse(be.begin(), be.end());
	const uint8_t sum = ref::sha256(be)[0];
	std::vector<int> bits;
	for(auto x : be) for(int i = 7; i >= 0; --i) bits.push_back((x >> i) & 1);
	for(int i = 7; i >= 0; --i) bits.push_back((sum >> i) & 1);
	std::vector<std::string> want;
	for(int i = 0; i < 24; ++i) { int v = 0; for(int k = 0; k < 11; ++k) v = 2 * v + bits[11 * i + k]; want.push_back(list[v]); }
	CHECK_MSG(words == want, "words of seed " << seed << " are not the BIP-39 words");
	CHECK_MSG(mnemonic::words_to_seed(words) == seed, "seed does not round trip");
	const auto text = mnemonic::words_to_string(words);
	NOTE("seed " << seed << " words " << text);
	CHECK_MSG(mnemonic::string_to_words(text) == words, "string_to_words(words_to_string())");
	{
		std::string t;
		for(const auto& w : words) t += std::string(s.range(1, 3), ' ') + w;
		CHECK_MSG(mnemonic::string_to_words(t + " ") == words, "extra blanks");
	}
	// a changed phrase is accepted only if its checksum matches (either byte order), and then means exactly its own bits
	auto bad = words;
	switch(s.draw(4)) {
		case 0: bad[s.index(24)] = list[s.index(2048)]; break;
		case 1: std::swap(bad[s.index(24)], bad[s.index(24)]); break;
		case 2: bad[23] = list[s.index(2048)]; break;
		case 3: for(auto& w : bad) w = list[s.index(2048)]; break;
	}
	std::vector<int> b2;
	for(const auto& w : bad) { const int v = std::find(list.begin(), list.end(), w) - list.begin(); for(int k = 10; k >= 0; --k) b2.push_back((v >> k) & 1); }
	bytes e2(32, 0);
	for(int i = 0; i < 256; ++i) e2[i / 8] |= b2[i] << (7 - i % 8);
	int sum2 = 0;
	for(int i = 256; i < 264; ++i) sum2 = 2 * sum2 + b2[i];
	bytes le2 = e2;
	std::reverse(le2.begin(), le2.end());
	const bool valid = sum2 == ref::sha256(e2)[0] || sum2 == ref::sha256(le2)[0];
	bool ok = false;
	hash_t got;
	try { got = mnemonic::words_to_seed(bad); ok = true; } catch(const std::exception&) {}
	CHECK_MSG(ok == valid, "phrase with checksum " << (valid ? "right" : "wrong") << " is " << (ok ? "accepted" : "rejected") << ": " << mnemonic::words_to_string(bad));
	if(ok) CHECK_MSG(vec(got) == le2, "accepted phrase means another seed");
	auto rejects = [&](std::vector<std::string> w, const char* why) {
		try { mnemonic::words_to_seed(w); } catch(const std::exception&) { return; }
		FAIL("phrase with " << why << " accepted");
	};
	{ auto w = words; w.pop_back(); rejects(w, "23 words"); w.push_back("notaword"); rejects(w, "an unknown word"); w.pop_back(); w.push_back(words[23]); w.push_back(words[0]); rejects(w, "25 words"); }
	c.nontrivial();
	c.label(valid ? "variant valid" : "variant invalid");
}
