// Textbook SHA-256 / SHA-512 / HMAC (FIPS 180-4, RFC 2104); constants derived from primes with integer roots.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <array>

namespace ref {
typedef unsigned __int128 u128;
typedef std::vector<uint8_t> bytes;

inline std::vector<int> primes(int n) {
	std::vector<int> p;
	for(int c = 2; (int)p.size() < n; ++c) {
		bool ok = true;
		for(int q : p) if(c % q == 0) ok = false;
		if(ok) p.push_back(c);
	}
	return p;
}
// arbitrary precision helpers on little-endian 32-bit limbs, enough for roots of p * 2^192
typedef std::vector<uint32_t> big;
inline big mul(const big& a, const big& b) {
	big r(a.size() + b.size(), 0);
	for(size_t i = 0; i < a.size(); ++i) {
		uint64_t c = 0;
		for(size_t j = 0; j < b.size() || c; ++j) {
			uint64_t t = r[i + j] + c + (j < b.size() ? uint64_t(a[i]) * b[j] : 0);
			r[i + j] = uint32_t(t);
			c = t >> 32;
		}
	}
	return r;
}
inline int cmp(const big& a, const big& b) {
	for(size_t i = std::max(a.size(), b.size()); i-- > 0;) {
		uint32_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
		if(x != y) return x < y ? -1 : 1;
	}
	return 0;
}
// floor(2^64 * p^(1/k)) mod 2^64
inline uint64_t frac_root(int p, int k) {
	u128 x = 0;		// root * 2^64, up to 70 bits
	for(int bit = 70; bit >= 0; --bit) {
		const u128 c = x | (u128(1) << bit);
		big b = {uint32_t(c), uint32_t(c >> 32), uint32_t(c >> 64), uint32_t(c >> 96)};
		big pw = b;
		for(int i = 1; i < k; ++i) pw = mul(pw, b);
		big t(2 * k + 1, 0);
		t[2 * k] = p;		// p * 2^(64 k)
		if(cmp(pw, t) <= 0) x = c;
	}
	return uint64_t(x);
}
struct consts {
	uint32_t k256[64], h256[8];
	uint64_t k512[80], h512[8];
	consts() {
		const auto p = primes(80);
		for(int i = 0; i < 80; ++i) k512[i] = frac_root(p[i], 3);
		for(int i = 0; i < 8; ++i) h512[i] = frac_root(p[i], 2);
		for(int i = 0; i < 64; ++i) k256[i] = k512[i] >> 32;
		for(int i = 0; i < 8; ++i) h256[i] = h512[i] >> 32;
	}
};
inline const consts& K() { static consts c; return c; }

template<typename W, int R> inline W ror(W x) { return (x >> R) | (x << (sizeof(W) * 8 - R)); }

inline bytes pad(const bytes& m, size_t block) {
	bytes b = m;
	b.push_back(0x80);
	while(b.size() % block != block - block / 8) b.push_back(0);
	const u128 bits = u128(m.size()) * 8;
	for(int i = int(block / 8) - 1; i >= 0; --i) b.push_back(uint8_t(bits >> (8 * i)));
	return b;
}
inline bytes sha256(const bytes& m) {
	uint32_t h[8];
	for(int i = 0; i < 8; ++i) h[i] = K().h256[i];
	const auto b = pad(m, 64);
	for(size_t o = 0; o < b.size(); o += 64) {
		uint32_t w[64];
		for(int i = 0; i < 16; ++i) w[i] = uint32_t(b[o + 4 * i]) << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3];
		for(int i = 16; i < 64; ++i) {
			const auto s0 = ror<uint32_t, 7>(w[i - 15]) ^ ror<uint32_t, 18>(w[i - 15]) ^ (w[i - 15] >> 3);
			const auto s1 = ror<uint32_t, 17>(w[i - 2]) ^ ror<uint32_t, 19>(w[i - 2]) ^ (w[i - 2] >> 10);
			w[i] = w[i - 16] + s0 + w[i - 7] + s1;
		}
		uint32_t v[8];
		for(int i = 0; i < 8; ++i) v[i] = h[i];
		for(int i = 0; i < 64; ++i) {
			const auto S1 = ror<uint32_t, 6>(v[4]) ^ ror<uint32_t, 11>(v[4]) ^ ror<uint32_t, 25>(v[4]);
			const auto t1 = v[7] + S1 + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K().k256[i] + w[i];
			const auto S0 = ror<uint32_t, 2>(v[0]) ^ ror<uint32_t, 13>(v[0]) ^ ror<uint32_t, 22>(v[0]);
			const auto t2 = S0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for(int k = 7; k > 0; --k) v[k] = v[k - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for(int i = 0; i < 8; ++i) h[i] += v[i];
	}
	bytes out;
	for(int i = 0; i < 8; ++i) for(int k = 3; k >= 0; --k) out.push_back(uint8_t(h[i] >> (8 * k)));
	return out;
}
inline bytes sha512(const bytes& m) {
	uint64_t h[8];
	for(int i = 0; i < 8; ++i) h[i] = K().h512[i];
	const auto b = pad(m, 128);
	for(size_t o = 0; o < b.size(); o += 128) {
		uint64_t w[80];
		for(int i = 0; i < 16; ++i) { w[i] = 0; for(int k = 0; k < 8; ++k) w[i] = (w[i] << 8) | b[o + 8 * i + k]; }
		for(int i = 16; i < 80; ++i) {
			const auto s0 = ror<uint64_t, 1>(w[i - 15]) ^ ror<uint64_t, 8>(w[i - 15]) ^ (w[i - 15] >> 7);
			const auto s1 = ror<uint64_t, 19>(w[i - 2]) ^ ror<uint64_t, 61>(w[i - 2]) ^ (w[i - 2] >> 6);
			w[i] = w[i - 16] + s0 + w[i - 7] + s1;
		}
		uint64_t v[8];
		for(int i = 0; i < 8; ++i) v[i] = h[i];
		for(int i = 0; i < 80; ++i) {
			const auto S1 = ror<uint64_t, 14>(v[4]) ^ ror<uint64_t, 18>(v[4]) ^ ror<uint64_t, 41>(v[4]);
			const auto t1 = v[7] + S1 + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K().k512[i] + w[i];
			const auto S0 = ror<uint64_t, 28>(v[0]) ^ ror<uint64_t, 34>(v[0]) ^ ror<uint64_t, 39>(v[0]);
			const auto t2 = S0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for(int k = 7; k > 0; --k) v[k] = v[k - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for(int i = 0; i < 8; ++i) h[i] += v[i];
	}
	bytes out;
	for(int i = 0; i < 8; ++i) for(int k = 7; k >= 0; --k) out.push_back(uint8_t(h[i] >> (8 * k)));
	return out;
}
inline bytes cat(const bytes& a, const bytes& b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline bytes str(const std::string& s) { return bytes(s.begin(), s.end()); }
inline bytes hmac512(bytes key, const bytes& msg) {
	if(key.size() > 128) key = sha512(key);
	key.resize(128, 0);
	bytes i = key, o = key;
	for(auto& x : i) x ^= 0x36;
	for(auto& x : o) x ^= 0x5c;
	return sha512(cat(o, sha512(cat(i, msg))));
}
} // ref
