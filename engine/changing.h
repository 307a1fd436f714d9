#pragma once
#include "lib.h"
// A character array that is an operand of several calls and changes between them.
struct ChangingChars {
	Array* a;
	WS m;
	ChangingChars(const WS& w) : a(mkChars(w)), m(w) {}
	void change(Case& c, wchar_t ch) {
		if (m.empty())
			return;
		size_t i = (size_t) c.draw(m.size());
		switch (c.draw(6)) {
		case 0:
			*(Char*) a->Address((Int32) i) = ch;
			m[i] = ch;
			break;
		case 1:
			a->SetValue((Object*) new CharValue(ch), (Int32) i);
			m[i] = ch;
			break;
		case 2:
			Buffer::SetByte(a, (Int32) (4 * i), (Byte) ch);
			m[i] = (wchar_t) ((m[i] & ~0xFF) | (ch & 0xFF));
			break;
		case 3: {
			WS w(m.size() - i, ch);
			Array::Copy(mkChars(w), 0, a, (Int32) i, (Int32) w.size());
			m = m.substr(0, i) + w;
			break;
		}
		case 4:
			Array::Clear(a, (Int32) i, (Int32) (m.size() - i));
			m = m.substr(0, i) + WS(m.size() - i, 0);
			break;
		default:
			m[i] = ch;
			a->Initialize((void*) m.data());
		}
	}
};
