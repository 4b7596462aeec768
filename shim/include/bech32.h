// Stand-in for dcdpr/libbech32 (BIP-173 / BIP-350), same API subset.
#ifndef SHIM_BECH32_H
#define SHIM_BECH32_H
#include <string>
#include <vector>
#include <stdexcept>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct DecodedResult { Encoding encoding = Encoding::Invalid; std::string hrp; std::vector<unsigned char> dp; };
std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp);
std::string encodeUsingOriginalConstant(const std::string& hrp, const std::vector<unsigned char>& dp);
DecodedResult decode(const std::string& bstring);
}
#endif
