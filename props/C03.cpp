// C03: value comparison is a total order that agrees with equality.
#include "values.h"
#include "userobj.h"
PBT_MAIN("C03", "A case is three values of one of the fourteen comparable types (type limits, powers of two +-1, neighbours, special floats and NaNs with any payload, uniform bits), compared pairwise in raw and boxed form "
	"against exact 128-bit/IEEE ordering; or a value compared with null and with a box of each other type. All 8-bit pairs are enumerated. "
	"Non-trivial: the values are not all equal, or the case mixes types; distinct by generated choices.")

namespace {
int sgn(Int32 v) { return v < 0 ? -1 : v > 0; }
template<class A> int order(const A& a, const A& b) { return a < b ? -1 : a > b ? 1 : 0; }
template<> int order<double>(const double& a, const double& b) {
	bool na = a != a, nb = b != b;
	return na || nb ? (int) nb - (int) na : a < b ? -1 : a > b;
}
// One type: M the model value, boxes and comparisons through V.
template<class M> struct Ops {
	const char* name;
	std::function<Object*(M)> box;
	std::function<Int32(Object*, M)> cmpRaw;
	std::function<Int32(Object*, Object*)> cmpObj;
	std::function<bool(Object*, M)> eqRaw;
	std::function<std::string(M)> text;
};
template<class M> void triple(Case& c, const Ops<M>& t, const std::vector<M>& v) {
	int o[3][3];
	Object* b[3];
	for (int i = 0; i < 3; ++i)
		b[i] = t.box(v[i]);
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) {
			int want = order<M>(v[i], v[j]);
			int raw = sgn(t.cmpRaw(b[i], v[j])), boxed = sgn(t.cmpObj(b[i], b[j]));
			o[i][j] = boxed;
			if (raw != want || boxed != want)
				c.fail("%s: comparing %s with %s gives raw %d, boxed %d, expected %d", t.name, t.text(v[i]).c_str(), t.text(v[j]).c_str(), raw, boxed, want);
			bool eq[] = {t.eqRaw(b[i], v[j]), ((ValueType*) b[i])->Equals(b[j]), b[i]->Equals(b[j]), Object::Equals(b[i], b[j]), Object::Equals(b[j], b[i])};
			for (bool e : eq)
				if (e != (want == 0))
					c.fail("%s: equality of %s and %s gives %d %d %d %d %d, comparison says %d", t.name, t.text(v[i]).c_str(), t.text(v[j]).c_str(), eq[0], eq[1], eq[2], eq[3], eq[4], want);
		}
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) {
			if (o[i][j] != -o[j][i])
				c.fail("%s: comparison is not antisymmetric", t.name);
			for (int k = 0; k < 3; ++k)
				if (o[i][j] <= 0 && o[j][k] <= 0 && o[i][k] > 0)
					c.fail("%s: comparison is not transitive", t.name);
		}
	for (int i = 0; i < 3; ++i) {
		Int32 n = 0;
		Ex e = tryCall([&] { n = t.cmpObj(b[i], nullptr); });
		if (e != ExNone || n <= 0)
			c.fail("%s: comparison of %s with null gives %d (%s), expected a positive number", t.name, t.text(v[i]).c_str(), n, exName(e));
		if (b[i]->Equals((Object*) nullptr) || Object::Equals(b[i], nullptr) || Object::Equals(nullptr, b[i]))
			c.fail("%s: %s equals null", t.name, t.text(v[i]).c_str());
	}
}
Ops<i128> intOps(const IntType& t) {
	return Ops<i128>{t.name, t.box, t.cmpRaw, t.cmpObj, [&t](Object* o, i128 v) { return t.eqRaw(o, v); }, [](i128 v) { return dec(v); }};
}
std::string dtext(double d) {
	char b[64];
	snprintf(b, sizeof b, "%.17g(%016llx)", d, (unsigned long long) doubleToBits(d));
	return b;
}
Object* anyBox(Case& c, size_t k) {
	auto& it = intTypes();
	if (k < 8)
		return it[k].box(genInt(c, it[k]));
	switch (k) {
	case 8: return new DoubleValue(genDouble(c));
	case 9: return new SingleValue(genFloat(c));
	case 10: return new BooleanValue(c.coin());
	case 11: return new CharValue((Char) c.draw(0x10000));
	case 12: return new DateTimeValue(DateTime((UInt64) genDateTicks(c)));
	case 13: return new TimeSpanValue(TimeSpan((Int64) genSpanTicks(c)));
	case 14: return mk(genStr(c, 4));
	case 15: return new StringBuilder(mk(genStr(c, 4)));
	case 16: return new Array(Int32Type, (Int32) c.draw(3));
	case 18: {
		WS w;
		return user::thing(c, w);
	}
	default: return new Object();
	}
}
// Compare box a (of type ka < 14) with any object.
Int32 cmpAny(size_t k, Object* a, Object* b) {
	if (k < 8)
		return intTypes()[k].cmpObj(a, b);
	switch (k) {
	case 8: return ((DoubleValue*) a)->CompareTo(b);
	case 9: return ((SingleValue*) a)->CompareTo(b);
	case 10: return ((BooleanValue*) a)->CompareTo(b);
	case 11: return ((CharValue*) a)->CompareTo(b);
	case 12: return ((DateTimeValue*) a)->CompareTo(b);
	default: return ((TimeSpanValue*) a)->CompareTo(b);
	}
}
template<class M, class G> std::vector<M> three(Case& c, G gen) {
	std::vector<M> v{gen()};
	for (int i = 1; i < 3; ++i)
		v.push_back(c.chance(1, 4) ? v[(size_t) c.draw(v.size())] : gen());
	return v;
}
}
PBT_PROP(integer_triples, 6000) {
	const IntType& t = c.pick(intTypes());
	auto v = three<i128>(c, [&] { return genInt(c, t); });
	// values whose difference leaves the type's range or has only high bits
	if (c.chance(1, 4)) {
		v[1] = v[0] + ((i128) 1 << c.draw((uint64_t) t.bits)) * (c.coin() ? 1 : -1);
		v[1] = std::min(std::max(v[1], t.lo), t.hi);
	}
	c.note("%s %s %s %s", t.name, dec(v[0]).c_str(), dec(v[1]).c_str(), dec(v[2]).c_str());
	if (v[0] != v[1] || v[1] != v[2])
		c.nontrivial();
	if (v[0] - v[1] > t.hi || v[1] - v[0] > t.hi || v[0] - v[1] > INT32_MAX || v[1] - v[0] > INT32_MAX)
		c.label("difference overflows");
	triple(c, intOps(t), v);
}
PBT_PROP(byte_pairs_exhaustive, 6) {
	int64_t a = (int64_t) c.enumerate(512);
	const IntType& t = intTypes()[a / 256];
	i128 x = t.lo + (a % 256);
	c.note("%s %s against every value", t.name, dec(x).c_str());
	c.nontrivial();
	Object* o = t.box(x);
	for (i128 y = t.lo; y <= t.hi; ++y) {
		Object* p = t.box(y);
		int want = order<i128>(x, y);
		if (sgn(t.cmpRaw(o, y)) != want || sgn(t.cmpObj(o, p)) != want || t.eqRaw(o, y) != (want == 0) || o->Equals(p) != (want == 0))
			c.fail("%s: %s against %s", t.name, dec(x).c_str(), dec(y).c_str());
		delete p;
	}
}
PBT_PROP(float_triples, 4000) {
	bool single = c.coin();
	Ops<double> t;
	if (single)
		t = Ops<double>{"Single", [](double d) { return new SingleValue((float) d); }, [](Object* o, double d) { return ((SingleValue*) o)->CompareTo((float) d); },
			[](Object* o, Object* p) { return ((SingleValue*) o)->CompareTo(p); }, [](Object* o, double d) { return ((SingleValue*) o)->Equals((float) d); }, dtext};
	else
		t = Ops<double>{"Double", [](double d) { return new DoubleValue(d); }, [](Object* o, double d) { return ((DoubleValue*) o)->CompareTo(d); },
			[](Object* o, Object* p) { return ((DoubleValue*) o)->CompareTo(p); }, [](Object* o, double d) { return ((DoubleValue*) o)->Equals(d); }, dtext};
	auto v = three<double>(c, [&] { return single ? (double) genFloat(c) : genDouble(c); });
	c.note("%s %s %s %s", t.name, dtext(v[0]).c_str(), dtext(v[1]).c_str(), dtext(v[2]).c_str());
	if (order(v[0], v[1]) || order(v[1], v[2]))
		c.nontrivial();
	if (v[0] != v[0] || v[1] != v[1] || v[2] != v[2])
		c.label("has NaN");
	triple(c, t, v);
}
PBT_PROP(date_triples, 1500) {
	auto v = three<i128>(c, [&] { return (i128) genDateTicks(c); });
	if (c.chance(1, 4) && v[0] < kMaxDateTicks)
		v[1] = v[0] + 1;
	c.note("DateTime %s %s %s", dec(v[0]).c_str(), dec(v[1]).c_str(), dec(v[2]).c_str());
	if (v[0] != v[1] || v[1] != v[2])
		c.nontrivial();
	Ops<i128> t{"DateTime", [](i128 d) { return new DateTimeValue(DateTime((UInt64) d)); }, [](Object* o, i128 d) { return ((DateTimeValue*) o)->CompareTo(DateTime((UInt64) d)); },
		[](Object* o, Object* p) { return ((DateTimeValue*) o)->CompareTo(p); }, [](Object* o, i128 d) { return ((DateTimeValue*) o)->Equals(DateTime((UInt64) d)); }, dec};
	triple(c, t, v);
	for (auto a : v)
		for (auto b : v) {
			DateTime x((UInt64) a), y((UInt64) b);
			if (sgn(DateTimeValue::Compare(x, y)) != order(a, b) || DateTimeValue::Equals(x, y) != (a == b))
				c.fail("DateTime static comparison of %s and %s", dec(a).c_str(), dec(b).c_str());
		}
}
PBT_PROP(span_triples, 1500) {
	auto v = three<i128>(c, [&] { return (i128) genSpanTicks(c); });
	c.note("TimeSpan %s %s %s", dec(v[0]).c_str(), dec(v[1]).c_str(), dec(v[2]).c_str());
	if (v[0] != v[1] || v[1] != v[2])
		c.nontrivial();
	Ops<i128> t{"TimeSpan", [](i128 d) { return new TimeSpanValue(TimeSpan((Int64) d)); }, [](Object* o, i128 d) { return ((TimeSpanValue*) o)->CompareTo(TimeSpan((Int64) d)); },
		[](Object* o, Object* p) { return ((TimeSpanValue*) o)->CompareTo(p); }, [](Object* o, i128 d) { return ((TimeSpanValue*) o)->Equals(TimeSpan((Int64) d)); }, dec};
	triple(c, t, v);
	for (auto a : v)
		for (auto b : v) {
			TimeSpan x((Int64) a), y((Int64) b);
			if (sgn(TimeSpanValue::Compare(x, y)) != order(a, b) || TimeSpanValue::Equals(x, y) != (a == b))
				c.fail("TimeSpan static comparison of %s and %s", dec(a).c_str(), dec(b).c_str());
		}
}
PBT_PROP(boolean_and_char_triples, 1000) {
	if (c.coin()) {
		auto v = three<i128>(c, [&] { return (i128) c.draw(2); });
		c.note("Boolean %d %d %d", (int) v[0], (int) v[1], (int) v[2]);
		c.nontrivial();
		Ops<i128> t{"Boolean", [](i128 d) { return new BooleanValue(d != 0); }, [](Object* o, i128 d) { return ((BooleanValue*) o)->CompareTo((Boolean) (d != 0)); },
			[](Object* o, Object* p) { return ((BooleanValue*) o)->CompareTo(p); }, [](Object* o, i128 d) { return ((BooleanValue*) o)->Equals((Boolean) (d != 0)); }, dec};
		triple(c, t, v);
	} else {
		auto v = three<i128>(c, [&] { return (i128) c.uedge(0, 0xFFFF); });
		c.note("Char %d %d %d", (int) v[0], (int) v[1], (int) v[2]);
		if (v[0] != v[1])
			c.nontrivial();
		Ops<i128> t{"Char", [](i128 d) { return new CharValue((Char) d); }, [](Object* o, i128 d) { return ((CharValue*) o)->CompareTo((Char) d); },
			[](Object* o, Object* p) { return ((CharValue*) o)->CompareTo(p); }, [](Object* o, i128 d) { return ((CharValue*) o)->Equals((Char) d); }, dec};
		triple(c, t, v);
	}
}
PBT_PROP(mixed_types, 4000) {
	size_t ka = (size_t) c.draw(14), kb = (size_t) c.draw(19);
	if (ka == kb)
		kb = (kb + 1) % 19;
	Object *a, *b;
	if (ka < 8 && kb < 8 && c.coin()) {            // the same number in two types
		i128 v = (i128) c.draw(100);
		a = intTypes()[ka].box(v);
		b = intTypes()[kb].box(v);
	} else {
		a = anyBox(c, ka);
		b = anyBox(c, kb);
	}
	c.note("type %d against type %d", (int) ka, (int) kb);
	c.nontrivial();
	if (a->Equals(b) || Object::Equals(a, b) || ((ValueType*) a)->Equals(b))
		c.fail("a box of type %d equals an object of type %d", (int) a->GetRawDataType(), (int) b->GetRawDataType());
	Int32 r = 0;
	Ex e = tryCall([&] { r = cmpAny(ka, a, b); });
	if (e != ExArgument)
		c.fail("comparing a box of type %d with an object of type %d gave %d (%s), expected an argument error", (int) a->GetRawDataType(), (int) b->GetRawDataType(), r, exName(e));
}
// Objects of a program's own: the library asks the object, and only where it has to.
PBT_PROP(own_objects, 1500) {
	user::Thing* t[4];
	for (auto& x : t) {
		WS w;
		x = (user::Thing*) user::leaf(c, w);
	}
	t[3] = t[c.draw(3)];
	Object* plain = new Object();
	c.note("own objects with keys %d %d %d", t[0]->key, t[1]->key, t[2]->key);
	c.nontrivial();
	for (auto* x : t)
		for (auto* y : t)
			if (Object::Equals(x, y) != (x->key == y->key) || x->Equals(y) != (x->key == y->key))
				c.fail("own objects with keys %d and %d: Object.Equals gives %d", x->key, y->key, (int) Object::Equals(x, y));
	size_t k = (size_t) c.draw(14);
	Object* others[] = {anyBox(c, k), mk(genStr(c, 4)), plain, nullptr};
	for (Object* o : others) {
		if (Object::Equals(o, t[0]) || Object::Equals(t[0], o) || t[0]->Equals(o))
			c.fail("an own object equals something else");
		if (o && o->Equals(t[0]))
			c.fail("an object of type %d equals an own object", (int) o->GetRawDataType());
	}
	if (!Object::Equals(nullptr, nullptr) || !plain->Equals(plain) || plain->Equals(new Object()) || Object::Equals(plain, new Object()))
		c.fail("equality of plain objects or of nulls");
	// an error of the object's own comes out as it is
	Exception *given = new Exception(new String(L"own")), *got = nullptr;
	t[1]->first = [&] { throw given; };
	try {
		Object::Equals(t[1], c.coin() ? (Object*) t[0] == t[1] ? plain : (Object*) t[0] : others[0]);
	}
	catch (Exception* e) {
		got = e;
	}
	t[1]->first = nullptr;
	if (got != given)
		c.fail("an error raised by an own comparison was lost");
}
