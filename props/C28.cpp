// C28  Formatting never writes past the buffer it is given
#include "lib.h"
PBT_MAIN("C28", "a formatting call into a buffer of at most the text length plus 3 characters")

namespace {
struct Made {
	Object* o;
	const char* kind;
	WS text;          // full text, when known independently
	bool known;
};
// Text through a second route: the default text conversion for values, the content for strings.
Made make(Case& c) {
	Made m{nullptr, "", L"", false};
	switch (longOdds() ? c.draw(2) : c.draw(17)) {
	case 0: {
		m.text = genStr(c, 300);
		m.o = mk(m.text);
		m.kind = "String";
		m.known = true;
		break;
	}
	case 1: {
		m.text = genStr(c, 300);
		StringBuilder* b = new StringBuilder(mk(m.text));
		if (c.coin()) {
			WS more = genStr(c, 40);
			b->Append(mk(more));
			m.text += more;
		}
		if (c.chance(1, 3) && !m.text.empty()) {
			size_t cut = (size_t) c.draw(m.text.size());
			b->set_Length((Int32) cut);
			m.text.resize(cut);
		}
		m.o = b;
		m.kind = "StringBuilder";
		m.known = true;
		break;
	}
	case 2: {
		bool v = c.coin();
		m.o = new BooleanValue(v);
		m.kind = "Boolean";
		m.text = v ? L"True" : L"False";
		m.known = true;
		break;
	}
	case 3: {
		wchar_t ch = genChar(c);
		m.o = new CharValue(ch);
		m.kind = "Char";
		m.text = WS(1, ch);
		m.known = true;
		break;
	}
#define INTCASE(n, T, lo, hi, fmt)                                                   \
	case n: {                                                                        \
		T v = (T) c.edge(lo, hi);                                                    \
		m.o = new T##Value(v);                                                       \
		m.kind = #T;                                                                 \
		char b[40];                                                                  \
		snprintf(b, sizeof b, fmt, v);                                               \
		m.text = wide(b);                                                            \
		m.known = true;                                                              \
		break;                                                                       \
	}
		INTCASE(4, Byte, 0, 255, "%u")
		INTCASE(5, SByte, -128, 127, "%d")
		INTCASE(6, Int16, -32768, 32767, "%d")
		INTCASE(7, UInt16, 0, 65535, "%u")
		INTCASE(8, Int32, INT32_MIN, INT32_MAX, "%d")
		INTCASE(9, UInt32, 0, (int64_t) UINT32_MAX, "%u")
		INTCASE(10, Int64, INT64_MIN, INT64_MAX, "%lld")
	case 11: {
		UInt64 v = (UInt64) c.uedge(0, UINT64_MAX);
		m.o = new UInt64Value(v);
		m.kind = "UInt64";
		m.text = wide(std::to_string((unsigned long long) v));
		m.known = true;
		break;
	}
	case 12: {
		uint64_t bits = c.bits64();
		double d;
		memcpy(&d, &bits, 8);
		if (c.coin())
			d = (double) c.edge(-1000000, 1000000) / 1000;
		m.o = new DoubleValue(d);
		m.kind = "Double";
		break;
	}
	case 13: {
		uint32_t bits = (uint32_t) c.bits64();
		float f;
		memcpy(&f, &bits, 4);
		if (c.coin())
			f = (float) c.edge(-1000000, 1000000) / 1000;
		m.o = new SingleValue(f);
		m.kind = "Single";
		break;
	}
	case 14:
		m.o = new DateTimeValue((UInt64) c.uedge(0, 3155378975999999999ull));
		m.kind = "DateTime";
		break;
	case 15:
		m.o = new TimeSpanValue((Int64) c.edge(INT64_MIN, INT64_MAX));
		m.kind = "TimeSpan";
		break;
	default:
		m.o = new Object();
		m.kind = "Object";
	}
	if (!m.known)
		m.text = ws(m.o->ToString());
	return m;
}
}

namespace {
void exact(Case& c) {
	Made m = make(c);
	size_t len = m.text.size();
	size_t size;
	switch (c.weighted({5, 4, 2, 2})) {
	case 0:
		size = len + 1 + c.draw(3);
		break;
	case 1:
		size = (size_t) c.draw(len + 2);
		break;
	case 2:
		size = c.size(400);
		break;
	default:
		size = len + 1 > 2 ? len + 1 - c.draw(3) : len + 1;
	}
	c.note("%s %s into a buffer of %zu characters", m.kind, show(m.text).c_str(), size);
	if (size <= len + 3)
		c.nontrivial();
	c.label(m.kind);
	// an exact heap block: AddressSanitizer sees any access beside it
	Char* where = (Char*) malloc(size * sizeof(Char) + (size ? 0 : 1));
	Char* buf = size ? where : (Char*) ((char*) where + 1);
	for (size_t i = 0; i < size; ++i)
		buf[i] = 0x5A5A;
	Int32 n = -12345;
	Ex e = tryCall([&] { n = m.o->FormatString(buf, (Int32) size); });
	if (size >= len + 1) {
		if (e != ExNone)
			c.fail("%s text of %zu characters into a buffer of %zu: %s", m.kind, len, size, exName(e));
		if (n != (Int32) len)
			c.fail("%s text %s into a buffer of %zu returned %d, expected %zu", m.kind, show(m.text).c_str(), size, n, len);
		if (WS(buf, len) != m.text || buf[len] != 0)
			c.fail("%s text into a buffer of %zu is %s, expected %s", m.kind, size, show(WS(buf, std::min(size, len + 1))).c_str(), show(m.text).c_str());
	}
	else if (e == ExNone && n > (Int32) len)
		c.fail("%s text of %zu characters into a buffer of %zu returned %d", m.kind, len, size, n);
	free(where);
	// the object still has its full text
	if (m.known) {
		String* t = m.o->ToString();
		if (ws(t) != m.text)
			c.fail("%s::ToString is %s, expected %s", m.kind, show(ws(t)).c_str(), show(m.text).c_str());
	}
}
}
PBT_PROP(exact_buffer, 3000) { exact(c); }
PBT_PROP(exact_buffer_long, 120) {
	LongTexts guard(2);
	exact(c);
}
// The same objects through every route that formats into an internal buffer.
namespace {
void internal(Case& c) {
	Made m = make(c);
	WS pre = genStr(c, 30);
	StringBuilder* b = new StringBuilder(mk(pre));
	int times = 1 + (int) c.draw(4);
	c.note("%s %s appended %d times to %s", m.kind, show(m.text).c_str(), times, show(pre).c_str());
	if (m.text.size() > 1)
		c.nontrivial();
	WS want = pre;
	for (int i = 0; i < times; ++i) {
		b->Append(m.o);
		want += m.text;
	}
	expectStr(c, "Append(Object)", b->ToString(), want);
	expectStr(c, "ToString", m.o->ToString(), m.text);
	expectStr(c, "Concat", String::Concat(m.o, m.o), m.text + m.text);
}
}
PBT_PROP(internal_buffers, 1000) { internal(c); }
PBT_PROP(internal_buffers_long, 60) {
	LongTexts guard(2);
	internal(c);
}
