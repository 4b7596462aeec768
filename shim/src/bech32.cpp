#include <cstdint>
#include <bech32.h>
#include <cctype>
#include <array>
namespace bech32 {
static const char* charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t polymod(const std::vector<unsigned char>& v) {
	uint32_t c = 1;
	static const uint32_t g[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
	for(auto x : v) {
		const uint32_t c0 = c >> 25;
		c = ((c & 0x1ffffff) << 5) ^ x;
		for(int i = 0; i < 5; ++i) { if((c0 >> i) & 1) { c ^= g[i]; } }
	}
	return c;
}
static std::vector<unsigned char> expand(const std::string& hrp) {
	std::vector<unsigned char> r;
	for(char c : hrp) { r.push_back((unsigned char)c >> 5); }
	r.push_back(0);
	for(char c : hrp) { r.push_back(c & 0x1f); }
	return r;
}
static std::string enc(const std::string& hrp, const std::vector<unsigned char>& dp, uint32_t k) {
	if(hrp.empty() || hrp.size() > 83) { throw std::runtime_error("bech32: bad hrp"); }
	std::string lhrp;
	for(char c : hrp) { if(c < 33 || c > 126) { throw std::runtime_error("bech32: bad hrp"); } lhrp += (char)std::tolower((unsigned char)c); }
	if(lhrp.size() + 1 + dp.size() + 6 > 90) { throw std::runtime_error("bech32: too long"); }
	auto v = expand(lhrp);
	for(auto d : dp) { if(d > 31) { throw std::runtime_error("bech32: data value out of range"); } v.push_back(d); }
	auto w = v; w.resize(w.size() + 6);
	const uint32_t m = polymod(w) ^ k;
	std::string out = lhrp + "1";
	for(auto d : dp) { out += charset[d]; }
	for(int i = 0; i < 6; ++i) { out += charset[(m >> (5 * (5 - i))) & 31]; }
	return out;
}
std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp) { return enc(hrp, dp, 0x2bc830a3); }
std::string encodeUsingOriginalConstant(const std::string& hrp, const std::vector<unsigned char>& dp) { return enc(hrp, dp, 1); }
DecodedResult decode(const std::string& b) {
	if(b.size() < 8 || b.size() > 90) { throw std::runtime_error("bech32: bad length"); }
	bool lo = false, up = false;
	for(char c : b) { if(c < 33 || c > 126) { throw std::runtime_error("bech32: bad char"); } lo |= std::islower((unsigned char)c) != 0; up |= std::isupper((unsigned char)c) != 0; }
	if(lo && up) { throw std::runtime_error("bech32: mixed case"); }
	std::string s;
	for(char c : b) { s += (char)std::tolower((unsigned char)c); }
	const auto pos = s.rfind('1');
	if(pos == std::string::npos || pos < 1 || pos + 7 > s.size()) { throw std::runtime_error("bech32: bad separator"); }
	DecodedResult out;
	out.hrp = s.substr(0, pos);
	std::vector<unsigned char> dp;
	const std::string cs(charset);
	for(size_t i = pos + 1; i < s.size(); ++i) { const auto k = cs.find(s[i]); if(k == std::string::npos) { throw std::runtime_error("bech32: bad data char"); } dp.push_back((unsigned char)k); }
	auto v = expand(out.hrp);
	v.insert(v.end(), dp.begin(), dp.end());
	const auto m = polymod(v);
	if(m == 1) { out.encoding = Encoding::Bech32; } else if(m == 0x2bc830a3) { out.encoding = Encoding::Bech32m; } else { return DecodedResult(); }
	dp.resize(dp.size() - 6);
	out.dp = dp;
	return out;
}
}
