// C04: boxed values convert exactly or refuse.
#include "values.h"
PBT_MAIN("C04", "A case is one boxed value (integer limits, powers of two +-1, all 8/16-bit values enumerated; special, fractional and uniform-bit floats; dates, spans, Booleans, characters) or a string, builder, array or plain object, "
	"read through all fourteen accessors; the oracle is the exact value reduced modulo the target width (C# unchecked cast) or an invalid-cast error from a support table. "
	"Non-trivial: a value that does not fit at least one target type or an object with an unsupported accessor; distinct by generated choices.")

namespace {
enum { ABool, AChar, AByte, ASByte, AInt16, AUInt16, AInt32, AUInt32, AInt64, AUInt64, ASingle, ADouble, ADate, ASpan, NACC };
const char* accName[] = {"Boolean", "Char", "Byte", "SByte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double", "DateTime", "TimeSpan"};
struct Out {
	Ex e = ExNone;
	i128 i = 0;
	double d = 0;
};
Out read(Object* o, int a) {
	Out r;
	r.e = tryCall([&] {
		switch (a) {
		case ABool: r.i = o->get_AsBoolean(); break;
		case AChar: r.i = o->get_AsChar(); break;
		case AByte: r.i = o->get_AsByte(); break;
		case ASByte: r.i = o->get_AsSByte(); break;
		case AInt16: r.i = o->get_AsInt16(); break;
		case AUInt16: r.i = o->get_AsUInt16(); break;
		case AInt32: r.i = o->get_AsInt32(); break;
		case AUInt32: r.i = o->get_AsUInt32(); break;
		case AInt64: r.i = o->get_AsInt64(); break;
		case AUInt64: r.i = o->get_AsUInt64(); break;
		case ASingle: r.d = o->get_AsSingle(); break;
		case ADouble: r.d = o->get_AsDouble(); break;
		case ADate: r.i = o->get_AsDateTime().value; break;
		default: r.i = o->get_AsTimeSpan().value;
		}
	});
	return r;
}
const int accBits[] = {1, 16, 8, 8, 16, 16, 32, 32, 64, 64};
const bool accSigned[] = {false, false, false, true, true, false, true, false, true, false};
i128 reduce(i128 v, int a) {
	u128 m = ((u128) 1 << accBits[a]) - 1;
	u128 u = (u128) v & m;
	if (accSigned[a] && (u >> (accBits[a] - 1)))
		return (i128) u - ((i128) 1 << accBits[a]);
	return (i128) u;
}
void type(Case& c, Object* o, DataType t) {
	if (o->GetRawDataType() != t)
		c.fail("the box of type %d reports type %d", (int) t, (int) o->GetRawDataType());
}
void refused(Case& c, const char* what, Object* o, int a) {
	Out r = read(o, a);
	if (r.e != ExInvalidCast)
		c.fail("%s read as %s gave %s/%s, expected an invalid-cast error", what, accName[a], dec(r.i).c_str(), exName(r.e));
}
// An integer-like box: every accessor of `mask` gives the reduced value.
void integerBox(Case& c, const char* what, Object* o, i128 v, unsigned mask, int own) {
	for (int a = 0; a < NACC; ++a) {
		if (!(mask >> a & 1)) {
			refused(c, what, o, a);
			continue;
		}
		Out r = read(o, a);
		if (r.e != ExNone)
			c.fail("%s %s read as %s raised %s", what, dec(v).c_str(), accName[a], exName(r.e));
		if (a == ABool ? r.i != (v != 0) : a == AChar ? (own != AChar && (v > 0xFFFF || v < 0) ? (r.i & 0xFFFF) != reduce(v, AChar) : r.i != v)
			: a == ASingle ? r.d != (double) (float) v : a == ADouble ? r.d != (double) v : r.i != reduce(v, a))
			c.fail("%s %s read as %s gave %s (%g)", what, dec(v).c_str(), accName[a], dec(r.i).c_str(), r.d);
	}
}
const unsigned kAll = (1u << ADate) - 1;
void integer(Case& c, const IntType& t, i128 v) {
	static const int own[] = {AByte, ASByte, AInt16, AUInt16, AInt32, AUInt32, AInt64, AUInt64};
	int k = (int) (&t - &intTypes()[0]);
	Object* o = t.box(v);
	type(c, o, t.type);
	integerBox(c, t.name, o, v, kAll, own[k]);
}
void floatBox(Case& c, const char* what, Object* o, double d, bool single) {
	static const int ok[] = {AInt16, AUInt16, AInt32, AUInt32, AInt64, AUInt64, ASingle, ADouble};
	for (int a = 0; a < NACC; ++a) {
		bool supported = false;
		for (int k : ok)
			supported |= k == a;
		if (!supported) {
			refused(c, what, o, a);
			continue;
		}
		Out r = read(o, a);
		if (r.e != ExNone)
			c.fail("%s %.17g read as %s raised %s", what, d, accName[a], exName(r.e));
		if (a == ADouble || a == ASingle) {
			double w = a == ASingle ? (double) (float) d : d;
			if (doubleToBits(r.d) != doubleToBits(w) && !(w != w && r.d != r.d))
				c.fail("%s %.17g read as %s gave %.17g, expected %.17g", what, d, accName[a], r.d, w);
			continue;
		}
		// an unchecked cast is defined by C# only for values whose truncation fits
		double tr = trunc(d);
		double lo = accSigned[a] ? -ldexp(1, accBits[a] - 1) : 0, hi = ldexp(1, accBits[a] - accSigned[a]);
		if (!(tr >= lo && tr < hi))
			continue;
		if (r.i != (i128) tr)
			c.fail("%s %.17g read as %s gave %s, expected %s", what, d, accName[a], dec(r.i).c_str(), dec((i128) tr).c_str());
	}
}
}
PBT_PROP(integers, 6000) {
	const IntType& t = c.pick(intTypes());
	i128 v = genInt(c, t);
	c.note("%s %s", t.name, dec(v).c_str());
	if (v < 0 || v > 255)
		c.nontrivial();
	c.label(v < 0 ? "negative" : v > 0xFFFF ? "wide" : "small");
	integer(c, t, v);
}
PBT_PROP(small_types_exhaustive, 3) {
	int64_t off = (int64_t) c.enumerate(256);
	c.note("every 256th 8- and 16-bit value from offset %d", (int) off);
	c.nontrivial();
	for (int k = 0; k < 4; ++k)
		for (i128 v = intTypes()[k].lo + off; v <= intTypes()[k].hi; v += 256)
			integer(c, intTypes()[k], v);
}
PBT_PROP(floats, 5000) {
	if (c.coin()) {
		double d = genDouble(c);
		c.note("Double %.17g", d);
		if (d != 0)
			c.nontrivial();
		DoubleValue o(d);
		type(c, &o, DoubleType);
		floatBox(c, "Double", &o, d, false);
		double back = o.get_AsDouble();
		if (d == d && doubleToBits(back) != doubleToBits(d))
			c.fail("Double payload changed");
	} else {
		float f = genFloat(c);
		c.note("Single %.9g", f);
		if (f != 0)
			c.nontrivial();
		SingleValue o(f);
		type(c, &o, SingleType);
		floatBox(c, "Single", &o, f, true);
		float back = o.get_AsSingle();
		if (f == f && floatToBits(back) != floatToBits(f))
			c.fail("Single payload changed");
	}
}
PBT_PROP(booleans_chars_dates_spans, 3000) {
	c.nontrivial();
	switch (c.draw(4)) {
	case 0: {
		bool b = c.coin();
		c.note("Boolean %d", b);
		BooleanValue o(b);
		type(c, &o, BooleanType);
		integerBox(c, "Boolean", &o, b, kAll & ~(1u << AChar | 1u << ASingle | 1u << ADouble), ABool);
		break;
	}
	case 1: {
		i128 v = (i128) c.uedge(0, 0xFFFF);
		c.note("Char %d", (int) v);
		CharValue o((Char) v);
		type(c, &o, CharType);
		integerBox(c, "Char", &o, v, kAll & ~(1u << ABool), AChar);
		break;
	}
	case 2: {
		int64_t v = genDateTicks(c);
		c.note("DateTime %lld", (long long) v);
		DateTimeValue o((DateTime((UInt64) v)));
		type(c, &o, DateTimeType);
		for (int a = 0; a < NACC; ++a)
			if (a != ADate)
				refused(c, "DateTime", &o, a);
		Out r = read(&o, ADate);
		if (r.e != ExNone || r.i != v)
			c.fail("DateTime payload %lld read back as %s", (long long) v, dec(r.i).c_str());
		break;
	}
	default: {
		int64_t v = genSpanTicks(c);
		c.note("TimeSpan %lld", (long long) v);
		TimeSpanValue o((TimeSpan((Int64) v)));
		type(c, &o, TimeSpanType);
		for (int a = 0; a < NACC; ++a)
			if (a != ASpan)
				refused(c, "TimeSpan", &o, a);
		Out r = read(&o, ASpan);
		if (r.e != ExNone || r.i != v)
			c.fail("TimeSpan payload %lld read back as %s", (long long) v, dec(r.i).c_str());
	}
	}
}
PBT_PROP(other_objects, 500) {
	Object* o;
	DataType t;
	const char* n;
	switch (c.draw(4)) {
	case 0:
		o = mk(c.coin() ? genStr(c, 5) : L"12");
		t = StringType;
		n = "String";
		break;
	case 1:
		o = new StringBuilder(mk(genStr(c, 5)));
		t = ObjectType;
		n = "StringBuilder";
		break;
	case 2: {
		static const DataType ts[] = {ObjectType, BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, StringType};
		o = new Array(ts[c.draw(16)], 2);
		t = ObjectType;
		n = "Array";
		break;
	}
	default:
		o = new Object();
		t = ObjectType;
		n = "Object";
	}
	c.note("%s", n);
	c.nontrivial();
	if (t == StringType || !strcmp(n, "Object"))
		type(c, o, t);
	for (int a = 0; a < NACC; ++a)
		refused(c, n, o, a);
}
