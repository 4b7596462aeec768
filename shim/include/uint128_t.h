// Stand-in for the calccrypto-style uint128_t (submodule uint256_t is not available offline).
#ifndef SHIM_UINT128_T_H
#define SHIM_UINT128_T_H
#include <cstdint>
#include <string>
#include <vector>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <algorithm>

class uint256_t;

class uint128_t {
public:
	typedef unsigned __int128 u128;
	uint64_t LOWER = 0, UPPER = 0;
	u128 raw() const { return (u128(UPPER) << 64) | LOWER; }
	static uint128_t from_raw(u128 v) { uint128_t r; r.LOWER = (uint64_t)v; r.UPPER = (uint64_t)(v >> 64); return r; }

	uint128_t() = default;
	uint128_t(const uint128_t&) = default;
	uint128_t& operator=(const uint128_t&) = default;
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t(const T& v) : LOWER((uint64_t)v), UPPER((std::is_signed<T>::value && v < T(0)) ? ~uint64_t(0) : 0) {}
	template<typename A, typename B, typename = typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value>::type>
	uint128_t(const A& hi, const B& lo) : LOWER((uint64_t)lo), UPPER((uint64_t)hi) {}
	uint128_t(const std::string& s, uint8_t base) { init(s.c_str(), s.size(), base); }
	uint128_t(const char* s, uint8_t base) : uint128_t(std::string(s), base) {}

	const uint64_t& upper() const { return UPPER; }
	const uint64_t& lower() const { return LOWER; }
	uint8_t bits() const { uint8_t n = 0; for(u128 v = raw(); v; v >>= 1) { n++; } return n; }

	operator bool() const { return UPPER || LOWER; }
	operator uint8_t() const { return (uint8_t)LOWER; }
	operator uint16_t() const { return (uint16_t)LOWER; }
	operator uint32_t() const { return (uint32_t)LOWER; }
	operator uint64_t() const { return LOWER; }

	std::string str(uint8_t base = 10, const unsigned& len = 0) const {
		if(base < 2 || base > 16) { throw std::invalid_argument("Base must be in the range [2, 16]"); }
		std::string out;
		u128 v = raw();
		if(!v) { out = "0"; }
		while(v) { out += "0123456789abcdef"[(unsigned)(v % base)]; v /= base; }
		while(out.size() < len) { out += '0'; }
		std::reverse(out.begin(), out.end());
		return out;
	}

	uint128_t operator~() const { return from_raw(~raw()); }
	uint128_t operator-() const { return from_raw(-raw()); }
	uint128_t operator+() const { return *this; }
	bool operator!() const { return !raw(); }
	uint128_t& operator++() { *this = from_raw(raw() + 1); return *this; }
	uint128_t operator++(int) { auto t = *this; ++*this; return t; }
	uint128_t& operator--() { *this = from_raw(raw() - 1); return *this; }
	uint128_t operator--(int) { auto t = *this; --*this; return t; }

	static u128 shl(u128 v, const uint128_t& n) { return (n.UPPER || n.LOWER >= 128) ? 0 : v << n.LOWER; }
	static u128 shr(u128 v, const uint128_t& n) { return (n.UPPER || n.LOWER >= 128) ? 0 : v >> n.LOWER; }
	static u128 div(u128 a, u128 b) { if(!b) { throw std::domain_error("Error: division or modulus by 0"); } return a / b; }
	static u128 mod(u128 a, u128 b) { if(!b) { throw std::domain_error("Error: division or modulus by 0"); } return a % b; }

#define SHIM_OP(op, expr) \
	uint128_t operator op(const uint128_t& rhs) const { const u128 a = raw(); const u128 b = rhs.raw(); (void)a; (void)b; return from_raw(expr); } \
	uint128_t& operator op##=(const uint128_t& rhs) { return *this = (*this op rhs); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint128_t operator op(const T& rhs) const { return *this op uint128_t(rhs); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint128_t& operator op##=(const T& rhs) { return *this = (*this op uint128_t(rhs)); }
	SHIM_OP(+, a + b) SHIM_OP(-, a - b) SHIM_OP(*, a * b) SHIM_OP(/, div(a, b)) SHIM_OP(%, mod(a, b))
	SHIM_OP(&, a & b) SHIM_OP(|, a | b) SHIM_OP(^, a ^ b) SHIM_OP(<<, shl(a, rhs)) SHIM_OP(>>, shr(a, rhs))
#undef SHIM_OP
#define SHIM_CMP(op) \
	bool operator op(const uint128_t& rhs) const { return raw() op rhs.raw(); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> bool operator op(const T& rhs) const { return raw() op uint128_t(rhs).raw(); }
	SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(>) SHIM_CMP(<=) SHIM_CMP(>=)
#undef SHIM_CMP
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> bool operator&&(const T& r) const { return bool(*this) && bool(r); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> bool operator||(const T& r) const { return bool(*this) || bool(r); }
	bool operator&&(const bool& r) const { return bool(*this) && r; }
	bool operator||(const bool& r) const { return bool(*this) || r; }
private:
	void init(const char* s, size_t n, uint8_t base) {
		u128 v = 0;
		for(size_t i = 0; i < n; ++i) {
			int d = -1; const char c = s[i];
			if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'f') d = c - 'a' + 10; else if(c >= 'A' && c <= 'F') d = c - 'A' + 10;
			if(d < 0 || d >= base) { throw std::invalid_argument("uint128_t: invalid digit"); }
			v = v * base + d;
		}
		*this = from_raw(v);
	}
};

#define SHIM_OP(op) template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> inline uint128_t operator op(const T& a, const uint128_t& b) { return uint128_t(a) op b; }
SHIM_OP(+) SHIM_OP(-) SHIM_OP(*) SHIM_OP(/) SHIM_OP(%) SHIM_OP(&) SHIM_OP(|) SHIM_OP(^)
#undef SHIM_OP
#define SHIM_CMP(op) template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> inline bool operator op(const T& a, const uint128_t& b) { return uint128_t(a) op b; }
SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(>) SHIM_CMP(<=) SHIM_CMP(>=)
#undef SHIM_CMP

#define SHIM_AS(op) template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> inline T& operator op##=(T& a, const uint128_t& b) { return a = static_cast<T>(uint128_t(a) op b); }
SHIM_AS(+) SHIM_AS(-) SHIM_AS(*) SHIM_AS(/) SHIM_AS(%) SHIM_AS(&) SHIM_AS(|) SHIM_AS(^)
#undef SHIM_AS

inline std::ostream& operator<<(std::ostream& out, const uint128_t& v) {
	if(out.flags() & std::ios::hex) return out << v.str(16);
	if(out.flags() & std::ios::oct) return out << v.str(8);
	return out << v.str(10);
}
static const uint128_t uint128_0(0), uint128_1(1), uint128_64(64), uint128_128(128);
#endif
