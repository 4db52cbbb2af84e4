// Encodings of a stream: UTF-8 with and without byte order mark, UTF-16, other line breaks.
#pragma once
#include <string>
#include <cstdint>
namespace com {
const int ENCODINGS = 7;
inline std::string utf16(const std::string &s, bool big, bool bom) {
	std::string o;
	auto unit = [&](uint32_t u) { char a = (char)(u >> 8), b = (char)u; o += big ? a : b; o += big ? b : a; };
	if (bom) unit(0xfeff);
	for (size_t i = 0; i < s.size();) {
		unsigned char ch = (unsigned char)s[i]; uint32_t u; int n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
		u = n == 1 ? ch : ch & (0xffu >> (n + 1));
		for (int k = 1; k < n; k++) u = u << 6 | ((unsigned char)s[i + k] & 0x3f);
		i += n;
		if (u < 0x10000) unit(u); else { u -= 0x10000; unit(0xd800 | u >> 10); unit(0xdc00 | (u & 0x3ff)); }
	}
	return o;
}
inline std::string breaks(const std::string &s, const char *nl) { std::string o; for (char ch : s) if (ch == '\n') o += nl; else o += ch; return o; }
inline std::string encode(const std::string &s, int e) {
	switch (e) {
	case 0: return s;
	case 1: return "\xef\xbb\xbf" + s;
	case 2: return utf16(s, false, true);
	case 3: return utf16(s, true, true);
	case 4: return breaks(s, "\r\n");
	case 5: return utf16(breaks(s, "\r\n"), false, true);
	default: return breaks(s, "\r");
	}
}
}
