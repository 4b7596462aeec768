// stand-in for chmike/CxxUrl, only used for a log line
#pragma once
#include <string>
#include <map>
namespace Url {
struct Url {
	std::string s;
	Url(const std::string& s) : s(s) {}
	Url& setQuery(const std::map<std::string, std::string>&) { return *this; }
	std::string str() const { return s; }
};
}
