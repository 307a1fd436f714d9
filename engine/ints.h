#pragma once
#include "lib.h"
// The eight integer types of the library, seen through one table.
struct IntType {
	const char* name;
	DataType type;
	i128 lo, hi;
	int bits;
	Ex (*parse)(String*, i128&);
	Ex (*tryParse)(String*, bool&, i128&);
	Object* (*box)(i128);
	Int32 (*cmpRaw)(Object*, i128);
	bool (*eqRaw)(Object*, i128);
	Int32 (*cmpObj)(Object*, Object*);
	bool (*eqObj)(Object*, Object*);
	void (*sbAppend)(StringBuilder*, i128);
	void (*sbInsert)(StringBuilder*, Int32, i128);
	i128 (*maxv)();
	i128 (*minv)();
};
template<class V, class T> struct IntOps {
	static Ex parse(String* s, i128& r) {
		return tryCall([&] { r = (i128) V::Parse(s); });
	}
	static Ex tryParse(String* s, bool& ok, i128& r) {
		return tryCall([&] {
			T v = (T) 0x5A;
			ok = V::TryParse(s, v);
			r = (i128) v;
		});
	}
	static Object* box(i128 v) { return new V((T) v); }
	static Int32 cmpRaw(Object* o, i128 v) { return ((V*) o)->CompareTo((T) v); }
	static bool eqRaw(Object* o, i128 v) { return ((V*) o)->Equals((T) v); }
	static Int32 cmpObj(Object* o, Object* p) { return ((V*) o)->CompareTo(p); }
	static bool eqObj(Object* o, Object* p) { return ((V*) o)->Equals(p); }
	static void sbAppend(StringBuilder* sb, i128 v) { sb->Append((T) v); }
	static void sbInsert(StringBuilder* sb, Int32 i, i128 v) { sb->Insert(i, (T) v); }
	static i128 maxv() { return (i128) V::MaxValue; }
	static i128 minv() { return (i128) V::MinValue; }
	static IntType make(const char* n, DataType t, i128 lo, i128 hi, int bits) {
		return IntType{n, t, lo, hi, bits, parse, tryParse, box, cmpRaw, eqRaw, cmpObj, eqObj, sbAppend, sbInsert, maxv, minv};
	}
};
inline const std::vector<IntType>& intTypes() {
	static std::vector<IntType> v{
		IntOps<ByteValue, Byte>::make("Byte", ByteType, 0, 255, 8),
		IntOps<SByteValue, SByte>::make("SByte", SByteType, -128, 127, 8),
		IntOps<Int16Value, Int16>::make("Int16", Int16Type, -32768, 32767, 16),
		IntOps<UInt16Value, UInt16>::make("UInt16", UInt16Type, 0, 65535, 16),
		IntOps<Int32Value, Int32>::make("Int32", Int32Type, -(i128) 2147483648LL, 2147483647, 32),
		IntOps<UInt32Value, UInt32>::make("UInt32", UInt32Type, 0, 4294967295LL, 32),
		IntOps<Int64Value, Int64>::make("Int64", Int64Type, -((i128) 1 << 63), ((i128) 1 << 63) - 1, 64),
		IntOps<UInt64Value, UInt64>::make("UInt64", UInt64Type, 0, ((i128) 1 << 64) - 1, 64)};
	return v;
}
inline std::string dec(i128 v) {
	bool neg = v < 0;
	u128 u = neg ? (u128) 0 - (u128) v : (u128) v;
	std::string r;
	do {
		r += (char) ('0' + (int) (u % 10));
		u /= 10;
	} while (u);
	if (neg)
		r += '-';
	std::reverse(r.begin(), r.end());
	return r;
}
inline i128 genInt(Case& c, const IntType& t) {
	if (t.bits == 64 && c.chance(1, 6)) {                          // half way between two floats or two doubles, or next to it
		unsigned w = c.coin() ? 53 : 24;
		uint64_t m = (1ull << (w - 1)) | c.draw(1ull << (w - 1));
		unsigned room = (t.lo < 0 ? 63 : 64) - (w + 1);
		uint64_t u = (((m << 1) | 1) << c.draw(room + 1)) + (uint64_t) c.near0(-1, 1);
		return t.lo < 0 && c.coin() ? -(i128) u : (i128) u;
	}
	if (t.lo < 0)
		return (i128) c.edge((int64_t) t.lo, (int64_t) t.hi);
	return (i128) c.uedge((uint64_t) t.lo, (uint64_t) t.hi);
}
