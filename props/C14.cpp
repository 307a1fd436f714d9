// C14: byte conversions round-trip and reject short input.
#include "values.h"
#include "kept.h"
PBT_MAIN("C14", "A case is a primitive value (uniform bit patterns, type limits, NaN payloads, every character) converted to bytes and read back from every position of a byte array, or a byte array with an index and length inside, at the edge of or outside it; "
	"the oracle is the value's little-endian image. Non-trivial: the image is not all zero, or the request is out of range; distinct by generated choices.")
namespace {
struct T {
	const char* name;
	int size;
	std::function<Array*(uint64_t)> bytes;                 // from the low bits of the word
	std::function<uint64_t(Array*, Int32)> read;           // the bits of the value read
};
template<class V> uint64_t bitsOf(V v) {
	uint64_t r = 0;
	memcpy(&r, &v, sizeof v);
	return r;
}
template<class V> V valueOf(uint64_t b) {
	V v;
	memcpy(&v, &b, sizeof v);
	return v;
}
const std::vector<T>& types() {
	static std::vector<T> t{
		{"Boolean", 1, [](uint64_t b) { return BitConverter::GetBytes((Boolean) (b & 1)); }, [](Array* a, Int32 i) { return (uint64_t) BitConverter::ToBoolean(a, i); }},
		{"Char", 2, [](uint64_t b) { return BitConverter::GetBytes((Char) (b & 0xFFFF)); }, [](Array* a, Int32 i) { return (uint64_t) (uint32_t) BitConverter::ToChar(a, i); }},
		{"Int16", 2, [](uint64_t b) { return BitConverter::GetBytes((Int16) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToInt16(a, i)); }},
		{"UInt16", 2, [](uint64_t b) { return BitConverter::GetBytes((UInt16) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToUInt16(a, i)); }},
		{"Int32", 4, [](uint64_t b) { return BitConverter::GetBytes((Int32) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToInt32(a, i)); }},
		{"UInt32", 4, [](uint64_t b) { return BitConverter::GetBytes((UInt32) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToUInt32(a, i)); }},
		{"Int64", 8, [](uint64_t b) { return BitConverter::GetBytes((Int64) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToInt64(a, i)); }},
		{"UInt64", 8, [](uint64_t b) { return BitConverter::GetBytes((UInt64) b); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToUInt64(a, i)); }},
		{"Single", 4, [](uint64_t b) { return BitConverter::GetBytes(valueOf<Single>(b)); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToSingle(a, i)); }},
		{"Double", 8, [](uint64_t b) { return BitConverter::GetBytes(valueOf<Double>(b)); }, [](Array* a, Int32 i) { return bitsOf(BitConverter::ToDouble(a, i)); }}};
	return t;
}
uint64_t mask(int size) { return size == 8 ? ~0ULL : (1ULL << (8 * size)) - 1; }
uint64_t genBits(Case& c, const T& t) {
	if (!strcmp(t.name, "Boolean"))
		return c.draw(2);
	if (!strcmp(t.name, "Double"))
		return doubleToBits(genDouble(c));
	if (!strcmp(t.name, "Single"))
		return floatToBits(genFloat(c));
	return c.bits64() & mask(t.size);
}
// A quiet NaN may gain its quiet bit when it passes through a floating register; x86-64 does not do that for plain moves.
std::string hex(const std::vector<uint8_t>& b, size_t i, size_t n) {
	std::string r;
	char t[4];
	for (size_t k = i; k < i + n; ++k) {
		snprintf(t, sizeof t, k > i ? "-%02X" : "%02X", b[k]);
		r += t;
	}
	return r;
}
}
PBT_PROP(round_trip, 6000) {
	const T& t = c.pick(types());
	uint64_t v = genBits(c, t);
	c.note("%s %llx", t.name, (unsigned long long) v);
	if (v)
		c.nontrivial();
	c.label(t.name);
	Array* a = t.bytes(v);
	if (!a || a->GetElementType() != ByteType || a->get_Rank() != 1 || a->get_Length() != t.size)
		c.fail("bytes of %s are not a byte array of length %d", t.name, t.size);
	for (int i = 0; i < t.size; ++i)
		if (*(Byte*) a->Address(i) != (Byte) (v >> (8 * i)))
			c.fail("byte %d of %s %llx is %02x", i, t.name, (unsigned long long) v, *(Byte*) a->Address(i));
	uint64_t back = t.read(a, 0);
	if (back != v)
		c.fail("%s %llx came back as %llx", t.name, (unsigned long long) v, (unsigned long long) back);
	// at any position of a larger array
	int before = (int) c.draw(9), after = (int) c.draw(9);
	std::vector<uint8_t> w;
	for (int i = 0; i < before + t.size + after; ++i)
		w.push_back((uint8_t) c.draw(256));
	for (int i = 0; i < t.size; ++i)
		w[(size_t) (before + i)] = (uint8_t) (v >> (8 * i));
	Array* b = mkBytes(w);
	back = t.read(b, before);
	if (back != v)
		c.fail("%s %llx at position %d came back as %llx", t.name, (unsigned long long) v, before, (unsigned long long) back);
	if (a == t.bytes(v))
		c.fail("%s: the same array was returned twice", t.name);
}
PBT_PROP(any_bytes, 5500) {
	// Reading any type at any index of any array, then writing that value.
	size_t n = c.size(20);
	std::vector<uint8_t> w;
	for (size_t i = 0; i < n; ++i)
		w.push_back((uint8_t) (c.coin() ? c.draw(256) : c.pick({0, 1, 0x7F, 0x80, 0xFF, 0xD8})));
	Array* a = mkBytes(w);
	int i = c.chance(1, 6) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.near0(-2, (int64_t) n + 2);
	c.note("%s at %d", hex(w, 0, n).c_str(), i);
	for (auto& t : types()) {
		bool ok = i >= 0 && (int64_t) i + t.size <= (int64_t) n;
		uint64_t got = 0;
		Ex e = tryCall([&] { got = t.read(a, i); });
		if ((e == ExNone) != ok)
			c.fail("To%s at %d of %d bytes ended with %s", t.name, i, (int) n, exName(e));
		if (!ok) {
			c.nontrivial();
			continue;
		}
		uint64_t want = 0;
		for (int k = 0; k < t.size; ++k)
			want |= (uint64_t) w[(size_t) (i + k)] << (8 * k);
		if (want)
			c.nontrivial();
		if (!strcmp(t.name, "Boolean"))
			want = want != 0;
		if (got != want)
			c.fail("To%s at %d of %s gave %llx", t.name, i, hex(w, 0, n).c_str(), (unsigned long long) got);
		Array* b = t.bytes(got);
		for (int k = 0; k < t.size; ++k)
			if (*(Byte*) b->Address(k) != (Byte) (want >> (8 * k)))
				c.fail("%s read at %d of %s does not give the same bytes back", t.name, i, hex(w, 0, n).c_str());
	}
	for (size_t k = 0; k < n; ++k)
		if (*(Byte*) a->Address((Int32) k) != w[k])
			c.fail("reading changed the array");
}
PBT_PROP(every_16_bit_value, 4) {
	uint64_t block = c.enumerate(256);
	c.note("Char, Int16 and UInt16 values %llx00 to %llxff", (unsigned long long) block, (unsigned long long) block);
	c.nontrivial();
	for (uint64_t v = block << 8; v < (block + 1) << 8; ++v)
		for (int k = 1; k < 4; ++k) {
			const T& t = types()[(size_t) k];
			Array* a = t.bytes(v);
			if (a->get_Length() != 2 || *(Byte*) a->Address(0) != (v & 255) || *(Byte*) a->Address(1) != v >> 8 || t.read(a, 0) != v)
				c.fail("%s %llx", t.name, (unsigned long long) v);
			delete a;
		}
}
PBT_PROP(reinterpretation, 2500) {
	uint64_t b = c.coin() ? c.bits64() : doubleToBits(genDouble(c));
	c.note("%016llx", (unsigned long long) b);
	if (b)
		c.nontrivial();
	double d = BitConverter::Int64BitsToDouble((Int64) b);
	if (doubleToBits(d) != b || (uint64_t) BitConverter::DoubleToInt64Bits(bitsToDouble(b)) != b || (uint64_t) BitConverter::DoubleToInt64Bits(d) != b)
		c.fail("%016llx is not preserved", (unsigned long long) b);
	if (!BitConverter::IsLittleEndian)
		c.fail("IsLittleEndian is false");
}
namespace {
void hexText(Case& c, size_t n) {
	std::vector<uint8_t> w;
	uint8_t seed = (uint8_t) c.draw(256);
	for (size_t i = 0; i < n; ++i)
		w.push_back(n <= 60 ? (uint8_t) c.draw(256) : (uint8_t) (seed + i * 37 + i / 256));
	Array* a = mkBytes(w);
	int i = c.chance(1, 6) ? (int) c.edge(INT32_MIN, INT32_MAX) : c.chance(1, 4) ? (int) c.near0(-2, (int64_t) n + 2) : (int) c.draw(n + 1);
	int k = c.chance(1, 6) ? (int) c.edge(INT32_MIN, INT32_MAX) : c.chance(1, 4) || i < 0 || i > (int) n ? (int) c.near0(-2, (int64_t) n + 2) : (int) c.draw(n - (size_t) i + 1);
	c.note("%d bytes [%d,+%d]", (int) n, i, k);
	if (n > 1)
		c.nontrivial();
	expectStr(c, "ToString()", BitConverter::ToString(a), wide(hex(w, 0, n)));
	struct {
		int mode;
		size_t from, count;
		std::function<String*()> f;
	} t[] = {
		{i >= 0 && i < (int) n ? 1 : i == 0 && n == 0 ? 2 : 0, (size_t) i, n - (size_t) i, [&] { return BitConverter::ToString(a, i); }},
		// a start at the end is no position of the array, even with nothing requested (.NET rejects it, too)
		{i == (int) n && n > 0 ? 0 : i >= 0 && k >= 0 && (int64_t) i + k <= (int64_t) n ? (i < (int) n ? 1 : 2) : k == -1 && i >= 0 && i <= (int) n ? 3 : 0, (size_t) i, k == -1 ? n - (size_t) i : (size_t) k, [&] { return BitConverter::ToString(a, i, k); }}};
	for (auto& x : t) {
		String* r = nullptr;
		Ex e = tryCall([&] { r = x.f(); });
		if (x.mode == 0 ? e == ExNone : x.mode == 1 && e != ExNone)
			c.fail("ToString of %d bytes from %d count %d ended with %s", (int) n, i, k, exName(e));
		if (x.mode == 0)
			c.nontrivial();
		if (e == ExNone)
			expectStr(c, "ToString(range)", r, wide(hex(w, x.from, x.count)));
	}
}
}
PBT_PROP(hexadecimal_text, 3500) { hexText(c, c.size(40)); }
PBT_PROP(hexadecimal_text_long, 60) { hexText(c, genLongLen(c)); }
PBT_PROP(hexadecimal_text_huge, 1) {
	LongTexts guard(1, true);
	hexText(c, genLongLen(c));
}
PBT_PROP(images_kept, 400) {
	// Images and texts are kept, some overwritten by their owner, while others are made.
	Kept k;
	size_t n = 2 + c.steps(10, 120);
	for (size_t i = 0; i < n; ++i) {
		if (!k.arrays.empty() && c.chance(1, 3)) {
			size_t j = (size_t) c.draw(k.arrays.size());
			c.note("overwrite image %d", (int) j);
			k.overwrite(j, (uint8_t) c.draw(256));
			c.nontrivial();
		}
		if (!k.arrays.empty() && c.chance(1, 4)) {
			auto& x = c.pick(k.arrays);
			c.note("text");
			k.keep(c, BitConverter::ToString(x.a), wide(hex(x.b, 0, x.b.size())), "ToString");
		}
		const T& t = c.pick(types());
		uint64_t v = c.chance(1, 4) ? c.draw(2) : genBits(c, t);
		c.note("%s %llx", t.name, (unsigned long long) v);
		std::vector<uint8_t> b;
		for (int j = 0; j < t.size; ++j)
			b.push_back((uint8_t) (v >> (8 * j)));
		k.keep(c, t.bytes(v), b, std::string("GetBytes of ") + t.name);
	}
	k.verify(c);
}
// The same array over and over, its bytes changing in between.
PBT_PROP(changing_bytes, 1500) {
	size_t n = (size_t) c.range(8, 20);
	std::vector<uint8_t> w(n);
	for (auto& x : w)
		x = (uint8_t) c.draw(256);
	Array* a = mkBytes(w);
	Array* other = mkBytes(w);
	size_t rounds = 2 + (size_t) c.draw(8);
	int at = (int) c.draw(n - 7), kind = (int) c.draw(5);     // the same read is usually repeated
	c.note("%d reads of %s at %d", (int) rounds, hex(w, 0, n).c_str(), at);
	c.nontrivial();
	for (size_t k = 0; k < rounds; ++k) {
		if (c.chance(1, 4))
			at = (int) c.draw(n - 7);
		if (c.chance(1, 3))
			kind = (int) c.draw(5);
		if (kind == 0)
			expectStr(c, "ToString of a changed array", BitConverter::ToString(a), wide(hex(w, 0, n)));
		else if (kind == 1)
			expectStr(c, "ToString(range) of a changed array", BitConverter::ToString(a, at, 7), wide(hex(w, (size_t) at, 7)));
		else {
			auto& t = c.pick(types());
			uint64_t want = 0, got = t.read(a, at);
			for (int i = 0; i < t.size; ++i)
				want |= (uint64_t) w[(size_t) (at + i)] << (8 * i);
			if (!strcmp(t.name, "Boolean"))
				want = want != 0;
			if (got != want)
				c.fail("To%s at %d of %s gave %llx after a change", t.name, at, hex(w, 0, n).c_str(), (unsigned long long) got);
		}
		size_t i = (size_t) c.draw(n);
		uint8_t b = (uint8_t) c.draw(256);
		switch (c.draw(5)) {
		case 0: *(Byte*) a->Address((Int32) i) = b; break;
		case 1: Buffer::SetByte(a, (Int32) i, b); break;
		case 2: a->SetValue((Object*) new ByteValue(b), (Int32) i); break;
		case 3:
			Buffer::SetByte(other, (Int32) i, b);
			Buffer::BlockCopy(other, (Int32) i, a, (Int32) i, 1);
			break;
		default: continue;
		}
		w[i] = b;
	}
}
PBT_PROP(null_arrays, 300) {
	int i = (int) c.edge(INT32_MIN, INT32_MAX);
	c.note("null at %d", i);
	c.nontrivial();
	for (auto& t : types()) {
		Ex e = tryCall([&] { t.read(nullptr, i); });
		if (e == ExNone)
			c.fail("To%s of a null array ended with %s", t.name, exName(e));
	}
	if (tryCall([&] { BitConverter::ToString(nullptr); }) == ExNone || tryCall([&] { BitConverter::ToString(nullptr, i); }) == ExNone || tryCall([&] { BitConverter::ToString(nullptr, i, 1); }) == ExNone)
		c.fail("ToString of a null array was accepted");
}
