// Results handed out by the library, kept and looked at again later: each must go on to read as it did.
#pragma once
#include "lib.h"
struct Kept {
	struct Text {
		String* s;
		WS w;
		std::string what;
	};
	struct Bytes {
		Array* a;
		std::vector<uint8_t> b;
		std::string what;
	};
	std::vector<Text> texts;
	std::vector<Bytes> arrays;
	void keep(Case& c, String* s, const WS& w, const std::string& what) {
		expectStr(c, what.c_str(), s, w);
		texts.push_back({s, w, what});
	}
	void keep(Case& c, Array* a, const std::vector<uint8_t>& b, const std::string& what) {
		arrays.push_back({a, b, what});
		verify(c, arrays.back());
		if (a->GetElementType() != ByteType || a->get_Rank() != 1)
			c.fail("%s is not an array of bytes", what.c_str());
	}
	// the caller owns an array it was given
	void overwrite(size_t k, uint8_t v) {
		Bytes& x = arrays[k];
		for (size_t i = 0; i < x.b.size(); ++i)
			*(Byte*) x.a->Address((Int32) i) = x.b[i] = (uint8_t) (v + i);
	}
	void verify(Case& c, Bytes& x) {
		if (!x.a || x.a->get_Length() != (Int32) x.b.size())
			c.fail("%s is not an array of %d bytes", x.what.c_str(), (int) x.b.size());
		for (size_t i = 0; i < x.b.size(); ++i)
			if (*(Byte*) x.a->Address((Int32) i) != x.b[i])
				c.fail("%s: byte %d is %02x, expected %02x", x.what.c_str(), (int) i, *(Byte*) x.a->Address((Int32) i), x.b[i]);
	}
	void verify(Case& c) {
		for (auto& x : texts)
			expectStr(c, ("later " + x.what).c_str(), x.s, x.w);
		for (auto& x : arrays)
			verify(c, x);
	}
};
