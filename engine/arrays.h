#pragma once
#include "values.h"
#include "userobj.h"
#include <memory>
// The sixteen element types an array can hold.  A cell is modelled by the bits of its element (a
// pointer for the two reference types).
struct ElemType {
	const char* name;
	DataType type;
	int size;
	bool primitive;                               // by .NET: usable in a byte buffer
	Object* (*box)(uint64_t);                     // a boxed element (the object itself for references)
	bool (*unbox)(Object*, uint64_t&);            // the bits of a box of exactly this type
};
template<class V, class B> struct EOps {
	static Object* box(uint64_t b) {
		V v;
		memcpy((void*) &v, &b, sizeof v);
		return new B(v);
	}
};
#define ELEM(nm, V, B, get, prim) ElemType{#nm, nm##Type, (int) sizeof(V), prim, EOps<V, B>::box, [](Object* o, uint64_t& b) { \
	if (!o || o->GetRawDataType() != nm##Type || !dynamic_cast<B*>(o)) return false; V v = o->get(); b = 0; memcpy(&b, (void*) &v, sizeof v); return true; }}
inline const std::vector<ElemType>& elemTypes() {
	static std::vector<ElemType> v{
		ELEM(Byte, Byte, ByteValue, get_AsByte, true), ELEM(SByte, SByte, SByteValue, get_AsSByte, true), ELEM(Int16, Int16, Int16Value, get_AsInt16, true), ELEM(UInt16, UInt16, UInt16Value, get_AsUInt16, true),
		ELEM(Int32, Int32, Int32Value, get_AsInt32, true), ELEM(UInt32, UInt32, UInt32Value, get_AsUInt32, true), ELEM(Int64, Int64, Int64Value, get_AsInt64, true), ELEM(UInt64, UInt64, UInt64Value, get_AsUInt64, true),
		ELEM(Single, Single, SingleValue, get_AsSingle, true), ELEM(Double, Double, DoubleValue, get_AsDouble, true), ELEM(Boolean, Boolean, BooleanValue, get_AsBoolean, true), ELEM(Char, Char, CharValue, get_AsChar, true),
		ELEM(DateTime, DateTime, DateTimeValue, get_AsDateTime, false), ELEM(TimeSpan, TimeSpan, TimeSpanValue, get_AsTimeSpan, false),
		ElemType{"Object", ObjectType, 8, false, [](uint64_t b) { return (Object*) b; }, [](Object* o, uint64_t& b) { b = (uint64_t) o; return true; }},
		ElemType{"String", StringType, 8, false, [](uint64_t b) { return (Object*) b; }, [](Object* o, uint64_t& b) { b = (uint64_t) o; return true; }}};
	return v;
}
// Bits of a legal element.
inline uint64_t genElem(Case& c, const ElemType& t) {
	switch (t.type) {
	case BooleanType: return c.draw(2);
	case CharType: return c.uedge(0, 0xFFFF);
	case SingleType: return floatToBits(genFloat(c));
	case DoubleType: return doubleToBits(genDouble(c));
	case DateTimeType: {
		DateTime d((UInt64) genDateTicks(c));
		uint64_t b;
		memcpy(&b, (void*) &d, 8);
		return b;
	}
	case TimeSpanType: {
		TimeSpan d((Int64) genSpanTicks(c));
		uint64_t b;
		memcpy(&b, (void*) &d, 8);
		return b;
	}
	case ObjectType:
		switch (c.draw(6)) {
		case 0: return 0;
		case 5: {
			WS w;
			return (uint64_t) user::leaf(c, w);
		}
		case 1: return (uint64_t) (Object*) mk(genStr(c, 3));
		case 2: return (uint64_t) (Object*) intTypes()[c.draw(8)].box((i128) c.draw(100));
		case 3: return (uint64_t) (Object*) new Object();
		default: return (uint64_t) (Object*) new Array(Int32Type, 1);
		}
	case StringType: return c.draw(4) ? (uint64_t) (Object*) mk(genStr(c, 3)) : 0;
	default: return t.size == 8 ? c.bits64() : c.bits64() & ((1ULL << (8 * t.size)) - 1);
	}
}
inline uint64_t rawCell(const ElemType& t, const void* p) {
	uint64_t b = 0;
	memcpy(&b, p, (size_t) t.size);
	return b;
}
// An array together with its model.
struct ArrModel {
	const ElemType* t = nullptr;
	Array* a = nullptr;
	int rank = 1;
	int dim[3] = {0, -1, -1};
	std::vector<uint64_t> m;
	std::unique_ptr<char[]> outside;                  // the memory this array wraps, if it does not own its own
	size_t bytes = 0;
	int total() const { return (int) m.size(); }
	void create(Case& c, const ElemType& et, int rk, int maxDim, bool filled) {
		t = &et;
		rank = rk;
		size_t n = 1;
		for (int i = 0; i < rank; ++i) {
			dim[i] = (int) c.draw((uint64_t) (c.chance(1, 8) ? maxDim + 6 : maxDim) + 1);
			n *= (size_t) dim[i];
		}
		make(c, n);
		check(c, "creation");
		if (filled && c.chance(1, 4)) {                     // all at once
			std::vector<char> raw(n * (size_t) et.size + 1, 7);
			for (size_t i = 0; i < n; ++i) {
				m[i] = genElem(c, et);
				memcpy(raw.data() + i * (size_t) et.size, &m[i], (size_t) et.size);
			}
			if (a->Initialize(raw.data()) != a)
				c.fail("Initialize did not return its array");
			std::fill(raw.begin(), raw.end(), 9);
			check(c, "Initialize");
		} else if (filled)
			for (size_t i = 0; i < n; ++i) {
				m[i] = genElem(c, et);
				memcpy(cell((int) i), &m[i], (size_t) et.size);
			}
	}
	// One dimension around a power of two or a round number, the others small; filled from a palette of elements.
	void createLarge(Case& c, const ElemType& et, int rk, int64_t most = 120000) {
		t = &et;
		rank = rk;
		int at = (int) c.draw((uint64_t) rk);
		int64_t n = 1;
		for (int i = 0; i < rk; ++i)
			if (i != at)
				n *= dim[i] = c.chance(1, 3) ? 1 : 1 + (int) c.draw(rk == 2 ? 40 : 9);
		dim[at] = (int) std::min<int64_t>((int64_t) genLongLen(c), most / n);
		n *= dim[at];
		if (rk > 1 && most >= 120000 && c.chance(1, 6)) {        // several large dimensions: rows or planes of many elements
			int a = rk - 2, b = rk - 1;
			dim[a] = 2 + (int) c.draw(700);
			int64_t plane = c.chance(1, 3) ? 66000 + (int64_t) c.draw(70000) : (int64_t) genLongLen(c) + 1;
			dim[b] = (int) std::max<int64_t>(2, plane / dim[a] + 1);
			if (c.coin())
				std::swap(dim[a], dim[b]);
			if (rk == 3)
				dim[0] = 2 + (int) c.draw(2);
			n = 1;
			for (int i = 0; i < rk; ++i)
				n *= dim[i];
		}
		make(c, (size_t) n);
		check(c, "creation");
		uint64_t palette[13];
		for (auto& x : palette)
			x = genElem(c, et);
		size_t stride = 1 + (size_t) c.draw(12);
		for (size_t i = 0; i < m.size(); ++i) {
			m[i] = palette[(i * stride + i / 13) % 13];
			memcpy(cell((int) i), &m[i], (size_t) et.size);
		}
	}
	// Own storage, zeroed, or the caller's, as it was.
	void make(Case& c, size_t n) {
		m.assign(n, 0);
		if (c.chance(3, 4)) {
			a = rank == 1 ? made<Array>(c, t->type, dim[0]) : rank == 2 ? made<Array>(c, t->type, dim[0], dim[1]) : made<Array>(c, t->type, dim[0], dim[1], dim[2]);
			return;
		}
		size_t size = (size_t) t->size;
		bytes = n * size;
		outside.reset(new char[bytes + 16]);
		memset(outside.get(), 0x5C, bytes + 16);
		bool blank = c.coin();
		for (size_t i = 0; i < n; ++i) {
			if (!blank)
				m[i] = genElem(c, *t);
			memcpy(outside.get() + i * size, &m[i], size);
		}
		void* p = outside.get();
		a = rank == 1 ? made<Array>(c, p, t->type, dim[0]) : rank == 2 ? made<Array>(c, p, t->type, dim[0], dim[1]) : made<Array>(c, p, t->type, dim[0], dim[1], dim[2]);
	}
	// The address the library gives for the k-th element in row-major order.
	void* cell(int k) {
		if (rank == 1)
			return a->Address(k);
		if (rank == 2)
			return a->Address(k / dim[1], k % dim[1]);
		return a->Address(k / (dim[1] * dim[2]), k / dim[2] % dim[1], k % dim[2]);
	}
	void check(Case& c, const char* what) {
		for (int k = 0; k < total(); ++k)
			if (rawCell(*t, cell(k)) != m[(size_t) k])
				c.fail("after %s element %d of %s is %llx, expected %llx", what, k, text().c_str(), (unsigned long long) rawCell(*t, cell(k)), (unsigned long long) m[(size_t) k]);
		if (outside)
			for (int k = 0; k < total() || k < 16; ++k) {
				if (k < total() && rawCell(*t, outside.get() + (size_t) k * (size_t) t->size) != m[(size_t) k])
					c.fail("after %s the memory %s wraps does not hold element %d", what, text().c_str(), k);
				if (k < 16 && outside[bytes + (size_t) k] != 0x5C)
					c.fail("after %s memory behind the memory %s wraps changed", what, text().c_str());
			}
	}
	std::string text() const {
		std::string r = std::string(t->name) + "[" + std::to_string(dim[0]);
		for (int i = 1; i < rank; ++i)
			r += "," + std::to_string(dim[i]);
		return r + (outside ? "] over foreign memory" : "]");
	}
};
