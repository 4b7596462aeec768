// Stand-in for the calccrypto-style uint256_t.
#ifndef SHIM_UINT256_T_H
#define SHIM_UINT256_T_H
#include <uint128_t.h>

class uint256_t {
public:
	typedef unsigned __int128 u128;
	uint128_t LOWER, UPPER;

	uint256_t() = default;
	uint256_t(const uint256_t&) = default;
	uint256_t& operator=(const uint256_t&) = default;
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint256_t(const T& v) : LOWER(v), UPPER((std::is_signed<T>::value && v < T(0)) ? ~uint128_t(0) : uint128_t(0)) {}
	uint256_t(const uint128_t& v) : LOWER(v) {}
	uint256_t(const uint128_t& hi, const uint128_t& lo) : LOWER(lo), UPPER(hi) {}
	template<typename A, typename B, typename C, typename D>
	uint256_t(const A& a, const B& b, const C& c, const D& d) : LOWER(c, d), UPPER(a, b) {}
	uint256_t(const std::string& s, uint8_t base) { init(s, base); }
	uint256_t(const char* s, uint8_t base) { init(s, base); }

	const uint128_t& upper() const { return UPPER; }
	const uint128_t& lower() const { return LOWER; }
	uint16_t bits() const { return UPPER ? 128 + UPPER.bits() : LOWER.bits(); }

	operator bool() const { return bool(UPPER) || bool(LOWER); }
	operator uint8_t() const { return (uint8_t)LOWER.LOWER; }
	operator uint16_t() const { return (uint16_t)LOWER.LOWER; }
	operator uint32_t() const { return (uint32_t)LOWER.LOWER; }
	operator uint64_t() const { return LOWER.LOWER; }
	operator uint128_t() const { return LOWER; }

	std::string str(uint8_t base = 10, const unsigned& len = 0) const {
		if(base < 2 || base > 16) { throw std::invalid_argument("Base must be in the range [2, 16]"); }
		std::string out;
		uint256_t v = *this;
		if(!v) { out = "0"; }
		while(v) { const auto qr = divmod(v, uint256_t(base)); out += "0123456789abcdef"[qr.second.LOWER.LOWER]; v = qr.first; }
		while(out.size() < len) { out += '0'; }
		std::reverse(out.begin(), out.end());
		return out;
	}

	static std::pair<uint256_t, uint256_t> divmod(const uint256_t& a, const uint256_t& b) {
		if(!b) { throw std::domain_error("Error: division or modulus by 0"); }
		if(a < b) { return {uint256_t(), a}; }
		if(!a.UPPER) {
			return {uint256_t(uint128_t::from_raw(a.LOWER.raw() / b.LOWER.raw())), uint256_t(uint128_t::from_raw(a.LOWER.raw() % b.LOWER.raw()))};
		}
		if(!b.UPPER && !b.LOWER.UPPER) {		// 64-bit divisor: schoolbook on 64-bit limbs
			const uint64_t d = b.LOWER.LOWER;
			u128 rem = 0; uint64_t limb[4] = {a.UPPER.UPPER, a.UPPER.LOWER, a.LOWER.UPPER, a.LOWER.LOWER};
			for(int i = 0; i < 4; ++i) { const u128 cur = (rem << 64) | limb[i]; limb[i] = (uint64_t)(cur / d); rem = cur % d; }
			return {uint256_t(uint128_t(limb[0], limb[1]), uint128_t(limb[2], limb[3])), uint256_t(uint128_t::from_raw(rem))};
		}
		uint256_t q, r;
		for(int i = int(a.bits()) - 1; i >= 0; --i) {
			const bool carry = r.UPPER.UPPER >> 63;
			r = r << 1;
			if((a >> i).LOWER.LOWER & 1) { r.LOWER.LOWER |= 1; }
			if(carry || r >= b) { r = r - b; q = q | (uint256_t(1) << i); }
		}
		return {q, r};
	}
	static uint256_t add(const uint256_t& a, const uint256_t& b) {
		const u128 lo = a.LOWER.raw() + b.LOWER.raw();
		return uint256_t(uint128_t::from_raw(a.UPPER.raw() + b.UPPER.raw() + (lo < a.LOWER.raw() ? 1 : 0)), uint128_t::from_raw(lo));
	}
	static uint256_t sub(const uint256_t& a, const uint256_t& b) {
		const u128 lo = a.LOWER.raw() - b.LOWER.raw();
		return uint256_t(uint128_t::from_raw(a.UPPER.raw() - b.UPPER.raw() - (a.LOWER.raw() < b.LOWER.raw() ? 1 : 0)), uint128_t::from_raw(lo));
	}
	static uint256_t mul(const uint256_t& a, const uint256_t& b) {
		const uint64_t x[4] = {a.LOWER.LOWER, a.LOWER.UPPER, a.UPPER.LOWER, a.UPPER.UPPER};
		const uint64_t y[4] = {b.LOWER.LOWER, b.LOWER.UPPER, b.UPPER.LOWER, b.UPPER.UPPER};
		uint64_t z[4] = {};
		for(int i = 0; i < 4; ++i) {
			u128 carry = 0;
			for(int j = 0; i + j < 4; ++j) {
				carry += u128(x[i]) * y[j] + z[i + j];
				z[i + j] = (uint64_t)carry; carry >>= 64;
			}
		}
		return uint256_t(uint128_t(z[3], z[2]), uint128_t(z[1], z[0]));
	}
	static uint256_t shl(const uint256_t& a, const uint256_t& n) {
		if(n.UPPER || n.LOWER.UPPER || n.LOWER.LOWER >= 256) { return uint256_t(); }
		const unsigned s = n.LOWER.LOWER;
		if(s == 0) { return a; }
		if(s >= 128) { return uint256_t(uint128_t::from_raw(a.LOWER.raw() << (s - 128)), uint128_t()); }
		return uint256_t(uint128_t::from_raw((a.UPPER.raw() << s) | (a.LOWER.raw() >> (128 - s))), uint128_t::from_raw(a.LOWER.raw() << s));
	}
	static uint256_t shr(const uint256_t& a, const uint256_t& n) {
		if(n.UPPER || n.LOWER.UPPER || n.LOWER.LOWER >= 256) { return uint256_t(); }
		const unsigned s = n.LOWER.LOWER;
		if(s == 0) { return a; }
		if(s >= 128) { return uint256_t(uint128_t(), uint128_t::from_raw(a.UPPER.raw() >> (s - 128))); }
		return uint256_t(uint128_t::from_raw(a.UPPER.raw() >> s), uint128_t::from_raw((a.LOWER.raw() >> s) | (a.UPPER.raw() << (128 - s))));
	}

	uint256_t operator~() const { return uint256_t(~UPPER, ~LOWER); }
	uint256_t operator-() const { return sub(uint256_t(), *this); }
	uint256_t operator+() const { return *this; }
	bool operator!() const { return !bool(*this); }
	uint256_t& operator++() { *this = add(*this, uint256_t(1)); return *this; }
	uint256_t operator++(int) { auto t = *this; ++*this; return t; }
	uint256_t& operator--() { *this = sub(*this, uint256_t(1)); return *this; }
	uint256_t operator--(int) { auto t = *this; --*this; return t; }

#define SHIM_OP(op, expr) \
	uint256_t operator op(const uint256_t& b) const { const auto& a = *this; return expr; } \
	uint256_t operator op(const uint128_t& b) const { return *this op uint256_t(b); } \
	uint256_t& operator op##=(const uint256_t& rhs) { return *this = (*this op rhs); } \
	uint256_t& operator op##=(const uint128_t& rhs) { return *this = (*this op uint256_t(rhs)); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint256_t operator op(const T& rhs) const { return *this op uint256_t(rhs); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint256_t& operator op##=(const T& rhs) { return *this = (*this op uint256_t(rhs)); }
	SHIM_OP(+, add(a, b)) SHIM_OP(-, sub(a, b)) SHIM_OP(*, mul(a, b)) SHIM_OP(/, divmod(a, b).first) SHIM_OP(%, divmod(a, b).second)
	SHIM_OP(&, uint256_t(a.UPPER & b.UPPER, a.LOWER & b.LOWER)) SHIM_OP(|, uint256_t(a.UPPER | b.UPPER, a.LOWER | b.LOWER))
	SHIM_OP(^, uint256_t(a.UPPER ^ b.UPPER, a.LOWER ^ b.LOWER)) SHIM_OP(<<, shl(a, b)) SHIM_OP(>>, shr(a, b))
#undef SHIM_OP
	static int cmp(const uint256_t& a, const uint256_t& b) {
		if(a.UPPER.raw() != b.UPPER.raw()) { return a.UPPER.raw() < b.UPPER.raw() ? -1 : 1; }
		if(a.LOWER.raw() != b.LOWER.raw()) { return a.LOWER.raw() < b.LOWER.raw() ? -1 : 1; }
		return 0;
	}
#define SHIM_CMP(op) \
	bool operator op(const uint256_t& rhs) const { return cmp(*this, rhs) op 0; } \
	bool operator op(const uint128_t& rhs) const { return cmp(*this, uint256_t(rhs)) op 0; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> bool operator op(const T& rhs) const { return cmp(*this, uint256_t(rhs)) op 0; }
	SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(>) SHIM_CMP(<=) SHIM_CMP(>=)
#undef SHIM_CMP
private:
	void init(const std::string& s, uint8_t base) {
		uint256_t v;
		for(const char c : s) {
			int d = -1;
			if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'f') d = c - 'a' + 10; else if(c >= 'A' && c <= 'F') d = c - 'A' + 10;
			if(d < 0 || d >= base) { throw std::invalid_argument("uint256_t: invalid digit"); }
			v = v * uint256_t(base) + uint256_t(d);
		}
		*this = v;
	}
};

#define SHIM_OP(op) \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> inline uint256_t operator op(const T& a, const uint256_t& b) { return uint256_t(a) op b; } \
	inline uint256_t operator op(const uint128_t& a, const uint256_t& b) { return uint256_t(a) op b; }
SHIM_OP(+) SHIM_OP(-) SHIM_OP(*) SHIM_OP(/) SHIM_OP(%) SHIM_OP(&) SHIM_OP(|) SHIM_OP(^)
#undef SHIM_OP
#define SHIM_CMP(op) \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> inline bool operator op(const T& a, const uint256_t& b) { return uint256_t(a) op b; } \
	inline bool operator op(const uint128_t& a, const uint256_t& b) { return uint256_t(a) op b; }
SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(>) SHIM_CMP(<=) SHIM_CMP(>=)
#undef SHIM_CMP

inline std::ostream& operator<<(std::ostream& out, const uint256_t& v) {
	if(out.flags() & std::ios::hex) return out << v.str(16);
	if(out.flags() & std::ios::oct) return out << v.str(8);
	return out << v.str(10);
}
static const uint256_t uint256_0(0), uint256_1(1), uint256_max(~uint128_t(0), ~uint128_t(0));
#endif
