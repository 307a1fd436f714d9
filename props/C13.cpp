// C13: byte-level buffer access agrees with element access.
#include "arrays.h"
PBT_MAIN("C13", "A case is a history of byte reads, byte writes, block copies (overlapping ranges of one array and different element types included) and element stores over two arrays, with offsets inside, at the edge of or outside the image; the oracle is a byte vector per array, compared with "
	"every byte and every element after each step. Non-trivial: a byte of a non-empty array is written or copied, or the request is rejected; distinct by generated choices.")
namespace {
struct Img {
	ArrModel am;
	std::vector<uint8_t> b;
	int supported;                        // 0 rejected, 1 required, 2 either
	int n() const { return (int) b.size(); }
	void create(Case& c, bool large = false) {
		const ElemType& t = c.pick(elemTypes());
		if (large)
			am.createLarge(c, t, 1, 70000);
		else
			am.create(c, t, c.chance(1, 12) ? 2 : 1, c.chance(1, 10) ? 20 : 6, true);
		supported = t.type == ObjectType || t.type == StringType ? 0 : am.rank != 1 || t.type == DateTimeType || t.type == TimeSpanType ? 2 : 1;
		for (int i = 0; i < am.total(); ++i)
			for (int k = 0; k < t.size; ++k)
				b.push_back((uint8_t) (am.m[(size_t) i] >> (8 * k)));
	}
	void check(Case& c, const char* what) {
		for (int i = 0; i < am.total(); ++i) {
			uint64_t v = 0;
			for (int k = 0; k < am.t->size; ++k)
				v |= (uint64_t) b[(size_t) (i * am.t->size + k)] << (8 * k);
			if (rawCell(*am.t, am.cell(i)) != v)
				c.fail("after %s element %d of %s is %llx, the image says %llx", what, i, am.text().c_str(), (unsigned long long) rawCell(*am.t, am.cell(i)), (unsigned long long) v);
		}
	}
};
int fit(Case& c, int64_t len) { return c.chance(1, 5) ? (c.coin() ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.near0(-2, len + 2)) : (int) c.draw((uint64_t) std::max<int64_t>(len, 0) + 1); }
void verdict(Case& c, const char* what, const std::string& on, int mode, Ex e) {
	if (mode == 0 ? e == ExNone : mode == 1 && e != ExNone)
		c.fail("%s on %s ended with %s", what, on.c_str(), exName(e));
}
void step(Case& c, Img& x, Img& y) {
	char what[200];
	switch (c.weighted({6, 3, 3, 1, 1})) {
	case 0: {
		int i = fit(c, x.n()), j = fit(c, y.n()), k = c.chance(1, 5) ? fit(c, x.n()) : (int) c.draw((uint64_t) std::max(0, std::min(x.n() - std::max(i, 0), y.n() - std::max(j, 0))) + 1);
		snprintf(what, sizeof what, "BlockCopy %s from %d to %s at %d count %d", x.am.text().c_str(), i, &x == &y ? "itself" : y.am.text().c_str(), j, k);
		c.note("%s", what);
		bool in = i >= 0 && j >= 0 && k >= 0 && (int64_t) i + k <= x.n() && (int64_t) j + k <= y.n();
		int mode = !in || !x.supported || !y.supported ? 0 : std::max(x.supported, y.supported);
		if (mode != 1 || k)
			c.nontrivial();
		if (mode && &x == &y && i != j && std::abs(i - j) < k)
			c.label("overlap");
		if (mode && x.am.t != y.am.t)
			c.label("two types");
		Ex e = tryCall([&] { Buffer::BlockCopy(x.am.a, i, y.am.a, j, k); });
		verdict(c, what, y.am.text(), mode, e);
		if (e == ExNone) {
			auto snap = x.b;
			std::copy(snap.begin() + i, snap.begin() + i + k, y.b.begin() + j);
		}
		break;
	}
	case 1: {
		int i = fit(c, x.n() - 1);
		Byte v = (Byte) c.draw(256);
		snprintf(what, sizeof what, "SetByte %d of %s", i, x.am.text().c_str());
		c.note("%s", what);
		bool in = i >= 0 && i < x.n();
		int mode = in ? x.supported : 0;
		c.nontrivial();
		Ex e = tryCall([&] { Buffer::SetByte(x.am.a, i, v); });
		verdict(c, what, x.am.text(), mode, e);
		if (e == ExNone)
			x.b[(size_t) i] = v;
		break;
	}
	case 2: {
		int i = fit(c, x.n() - 1);
		snprintf(what, sizeof what, "GetByte %d of %s", i, x.am.text().c_str());
		c.note("%s", what);
		bool in = i >= 0 && i < x.n();
		Byte v = 0;
		Ex e = tryCall([&] { v = Buffer::GetByte(x.am.a, i); });
		if (!in)
			c.nontrivial();
		verdict(c, what, x.am.text(), in ? x.supported : 0, e);
		if (e == ExNone && v != x.b[(size_t) i])
			c.fail("%s gave %02x, expected %02x", what, v, x.b[(size_t) i]);
		break;
	}
	case 3: {
		Int32 len = -9;
		snprintf(what, sizeof what, "ByteLength of %s", x.am.text().c_str());
		c.note("%s", what);
		Ex e = tryCall([&] { len = Buffer::ByteLength(x.am.a); });
		verdict(c, what, x.am.text(), x.supported, e);
		if (e == ExNone && len != x.n())
			c.fail("%s is %d, expected %d", what, len, x.n());
		break;
	}
	default: {                                     // a store through the element view shows in the image
		if (!x.am.total())
			return;
		int i = (int) c.draw((uint64_t) x.am.total());
		uint64_t v = genElem(c, *x.am.t);
		snprintf(what, sizeof what, "storing element %d of %s", i, x.am.text().c_str());
		c.note("%s", what);
		if (x.am.rank == 1)
			x.am.a->SetValue(x.am.t->box(v), i);
		else
			memcpy(x.am.cell(i), &v, (size_t) x.am.t->size);
		for (int k = 0; k < x.am.t->size; ++k)
			x.b[(size_t) (i * x.am.t->size + k)] = (uint8_t) (v >> (8 * k));
	}
	}
	x.check(c, what);
	y.check(c, what);
}
void finish(Case& c, Img& x) {
	for (int i = 0; x.supported == 1 && i < x.n(); ++i)
		if (Buffer::GetByte(x.am.a, i) != x.b[(size_t) i])
			c.fail("byte %d of %s", i, x.am.text().c_str());
	if (x.supported == 1 && Buffer::ByteLength(x.am.a) != x.n())
		c.fail("byte length of %s", x.am.text().c_str());
}
}
PBT_PROP(one_step, 13000) {
	Img x, y;
	x.create(c);
	if (c.coin()) {
		step(c, x, x);
	} else {
		y.create(c);
		step(c, x, y);
		finish(c, y);
	}
	finish(c, x);
}
PBT_PROP(histories, 4500) {
	Img x, y;
	x.create(c);
	y.create(c);
	size_t steps = 2 + c.steps(10, 150);
	for (size_t i = 0; i < steps; ++i) {
		Img& p = c.coin() ? x : y;
		Img& q = c.coin() ? x : y;
		step(c, p, q);
	}
	finish(c, x);
	finish(c, y);
}
PBT_PROP(large_arrays, 40) {
	Img x, y;
	x.create(c, true);
	y.create(c, true);
	for (int i = 0; i < 4; ++i) {
		Img& p = c.coin() ? x : y;
		Img& q = c.coin() ? x : y;
		step(c, p, q);
	}
	finish(c, x);
	finish(c, y);
	delete x.am.a;
	delete y.am.a;
}
PBT_PROP(null_arrays, 300) {
	Img x;
	x.create(c);
	int i = fit(c, 4), k = fit(c, 4);
	c.note("null arrays with %s, %d, %d", x.am.text().c_str(), i, k);
	c.nontrivial();
	struct {
		const char* what;
		std::function<void()> f;
	} t[] = {{"BlockCopy(null, array)", [&] { Buffer::BlockCopy(nullptr, i, x.am.a, i, k); }}, {"BlockCopy(array, null)", [&] { Buffer::BlockCopy(x.am.a, i, nullptr, i, k); }}, {"BlockCopy(null, null)", [&] { Buffer::BlockCopy(nullptr, 0, nullptr, 0, 0); }},
		{"ByteLength(null)", [&] { Buffer::ByteLength(nullptr); }}, {"GetByte(null)", [&] { Buffer::GetByte(nullptr, i); }}, {"SetByte(null)", [&] { Buffer::SetByte(nullptr, i, 1); }}};
	for (auto& y : t)
		if (tryCall(y.f) == ExNone)
			c.fail("%s was accepted", y.what);
	x.check(c, "a rejected call");
}
PBT_PROP(shared_storage, 3000) {
	// Arrays of any primitive types around overlapping parts of the same memory.
	const int words = 6;
	uint64_t mem[words];
	std::vector<uint8_t> b(sizeof mem);
	for (auto& x : b)
		x = (uint8_t) c.draw(2);                     // bits any type can hold
	memcpy(mem, b.data(), sizeof mem);
	struct {
		const ElemType* t;
		int at, n;
		Array* a;
	} v[2];
	for (auto& x : v) {
		do
			x.t = &c.pick(elemTypes());
		while (!x.t->primitive);
		int all = (int) sizeof mem / x.t->size, first = (int) c.draw((uint64_t) all + 1);
		int count = (int) c.draw((uint64_t) (all - first) + 1);
		x.at = first * x.t->size;
		x.n = count * x.t->size;
		x.a = new Array((char*) mem + x.at, x.t->type, count);
	}
	size_t steps = 1 + c.size(5);
	for (size_t s = 0; s < steps; ++s) {
		auto &x = v[c.draw(2)], &y = c.chance(1, 5) ? x : &x == &v[0] ? v[1] : v[0];
		char what[200];
		if (c.chance(1, 5)) {
			int i = fit(c, x.n - 1);
			Byte w = (Byte) c.draw(2);
			snprintf(what, sizeof what, "SetByte %d of %s %d+%d", i, x.t->name, x.at, x.n);
			c.note("%s", what);
			c.nontrivial();
			Ex e = tryCall([&] { Buffer::SetByte(x.a, i, w); });
			verdict(c, what, x.t->name, i >= 0 && i < x.n, e);
			if (e == ExNone)
				b[(size_t) (x.at + i)] = w;
		} else {
			int i = fit(c, x.n), j = fit(c, y.n), k = c.chance(1, 6) ? fit(c, x.n) : (int) c.draw((uint64_t) std::max(0, std::min(x.n - std::max(i, 0), y.n - std::max(j, 0))) + 1);
			snprintf(what, sizeof what, "BlockCopy from %d of %s %d+%d to %d of %s %d+%d count %d", i, x.t->name, x.at, x.n, j, y.t->name, y.at, y.n, k);
			c.note("%s", what);
			bool ok = i >= 0 && j >= 0 && k >= 0 && (int64_t) i + k <= x.n && (int64_t) j + k <= y.n;
			if (!ok || k)
				c.nontrivial();
			Ex e = tryCall([&] { Buffer::BlockCopy(x.a, i, y.a, j, k); });
			verdict(c, what, y.t->name, ok, e);
			if (e == ExNone) {
				auto snap = b;
				std::copy(snap.begin() + x.at + i, snap.begin() + x.at + i + k, b.begin() + y.at + j);
			}
		}
		if (memcmp(mem, b.data(), sizeof mem) != 0)
			c.fail("after %s the memory differs from its image", what);
		for (auto& z : v)
			for (int i = 0; i < z.n; ++i)
				if (Buffer::GetByte(z.a, i) != b[(size_t) (z.at + i)])
					c.fail("after %s byte %d of the %s array at %d", what, i, z.t->name, z.at);
	}
	delete v[0].a;
	delete v[1].a;
}
