// C12: bulk array operations move exactly the requested elements.
#include "arrays.h"
PBT_MAIN("C12", "A case is one or two arrays of any element type and rank with generated contents and a copy, range copy, constrained copy, copy-to, clear, search or bulk initialisation with indexes and counts inside, at the edge of or outside the arrays (overlapping ranges of one array are common), "
	"or a history of such steps; the oracle moves the elements one at a time from a snapshot. Non-trivial: at least one element is moved, cleared or found, or the request is rejected; distinct by generated choices.")
namespace {
int arg(Case& c, int64_t len) { return c.chance(1, 10) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.near0(-2, len + 2); }
int fit(Case& c, int64_t len) { return c.chance(1, 5) ? arg(c, len) : (int) c.draw((uint64_t) std::max<int64_t>(len, 0) + 1); }
std::string cat(const char* f, int a, int b, int d) {
	char t[100];
	snprintf(t, sizeof t, f, a, b, d);
	return t;
}
void outcome(Case& c, const std::string& what, int mode, Ex e) {
	if (mode == 0 ? e == ExNone : mode == 1 && e != ExNone)
		c.fail("%s ended with %s", what.c_str(), exName(e));
}
// One random bulk operation over the pool.
void step(Case& c, std::vector<ArrModel*>& pool) {
	ArrModel& x = *pool[(size_t) c.draw(pool.size())];
	ArrModel& y = c.chance(1, 2) ? x : *pool[(size_t) c.draw(pool.size())];
	int nx = x.total(), ny = y.total();
	switch (c.weighted({8, 3, 2, 4, 4, 1})) {
	case 0: {
		int i = fit(c, nx), j = fit(c, ny), k = c.chance(1, 5) ? arg(c, nx) : (int) c.draw((uint64_t) std::max(0, std::min(nx - std::max(i, 0), ny - std::max(j, 0))) + 1);
		bool constrained = c.chance(1, 3);
		std::string what = std::string(constrained ? "ConstrainedCopy" : "Copy") + " " + x.text() + cat(" from %d to %d count %d", i, j, k) + (&x == &y ? " of itself" : " of " + y.text());
		c.note("%s", what.c_str());
		bool in = i >= 0 && j >= 0 && k >= 0 && (int64_t) i + k <= nx && (int64_t) j + k <= ny;
		bool ok = in && x.rank == y.rank && x.t == y.t;
		if (!ok || k)
			c.nontrivial();
		if (ok && &x == &y && i != j && std::abs(i - j) < k)
			c.label("overlap");
		Ex e = tryCall([&] { constrained ? Array::ConstrainedCopy(x.a, i, y.a, j, k) : Array::Copy(x.a, i, y.a, j, k); });
		outcome(c, what, ok, e);
		if (ok) {
			auto snap = x.m;
			for (int q = 0; q < k; ++q)
				y.m[(size_t) (j + q)] = snap[(size_t) (i + q)];
		}
		break;
	}
	case 1: {
		int k = c.coin() ? (int) c.draw((uint64_t) std::min(nx, ny) + 1) : arg(c, std::max(nx, ny));
		std::string what = "Copy " + x.text() + " to " + y.text() + cat(" count %d", k, 0, 0);
		c.note("%s", what.c_str());
		bool ok = k >= 0 && k <= nx && k <= ny && x.rank == y.rank && x.t == y.t;
		if (!ok || k)
			c.nontrivial();
		Ex e = tryCall([&] { Array::Copy(x.a, y.a, k); });
		outcome(c, what, ok, e);
		if (ok)
			{
			auto snap = x.m;
			std::copy(snap.begin(), snap.begin() + k, y.m.begin());
		}
		break;
	}
	case 2: {
		int j = fit(c, ny - nx);
		std::string what = "CopyTo " + x.text() + " into " + y.text() + cat(" at %d", j, 0, 0);
		c.note("%s", what.c_str());
		bool ok = x.rank == 1 && y.rank == 1 && j >= 0 && (int64_t) j + nx <= ny && x.t == y.t;
		if (!ok || nx)
			c.nontrivial();
		Ex e = tryCall([&] { x.a->CopyTo(y.a, j); });
		outcome(c, what, ok, e);
		if (ok) {
			auto snap = x.m;
			std::copy(snap.begin(), snap.end(), y.m.begin() + j);
		}
		break;
	}
	case 3: {
		int i = fit(c, nx), k = i >= 0 && i <= nx ? fit(c, nx - i) : arg(c, nx);
		std::string what = "Clear " + x.text() + cat(" from %d count %d", i, k, 0);
		c.note("%s", what.c_str());
		bool ok = i >= 0 && k >= 0 && (int64_t) i + k <= nx;
		if (!ok || k)
			c.nontrivial();
		Ex e = tryCall([&] { Array::Clear(x.a, i, k); });
		outcome(c, what, ok ? (x.rank == 1 ? 1 : 2) : 0, e);         // clearing a matrix may be unsupported
		if (e == ExNone)
			std::fill(x.m.begin() + i, x.m.begin() + i + k, 0);
		break;
	}
	case 4: {
		uint64_t bits = nx && c.chance(2, 3) ? x.m[(size_t) c.draw((uint64_t) nx)] : genElem(c, *x.t);
		Object* o = x.t->box(bits);
		if (o && x.t->type == StringType && c.coin())
			o = String::Copy((String*) o);                            // an equal string, not the same one
		int i = fit(c, nx), k = c.chance(1, 4) ? arg(c, nx) : i >= 0 && i <= nx ? (int) c.draw((uint64_t) (nx - i) + 1) : 0;
		int form = (int) c.draw(3);
		if (form == 0)
			i = 0;
		if (form < 2)
			k = -1;
		std::string what = "IndexOf in " + x.text() + cat(" from %d count %d", i, k, 0);
		c.note("%s", what.c_str());
		bool in = i >= 0 && i <= nx && (k == -1 || (k >= 0 && (int64_t) i + k <= nx));
		int want = -1;
		for (int q = i, end = k == -1 ? nx : i + k; in && q < end && want < 0; ++q)
			if (x.t->type == ObjectType || x.t->type == StringType ? (!x.m[(size_t) q] ? !o : o && ((Object*) x.m[(size_t) q])->Equals(o)) : x.t->box(x.m[(size_t) q])->Equals(o))
				want = q;
		if (!in || want >= 0)
			c.nontrivial();
		Int32 got = -9;
		Ex e = tryCall([&] { got = form == 0 ? Array::IndexOf(x.a, o) : form == 1 ? Array::IndexOf(x.a, o, i) : Array::IndexOf(x.a, o, i, k); });
		bool ref = x.t->type == ObjectType || x.t->type == StringType;
		int mode = !in && k >= -1 ? 0 : x.rank != 1 ? 0 : !ref || (form == 2 && k < 0) ? 2 : in;
		if (k < -1)
			mode = 2;                                                 // negative counts stand for the default
		outcome(c, what, mode, e);
		if (e == ExNone && in && got != want)
			c.fail("%s gave %d, expected %d", what.c_str(), got, want);
		break;
	}
	default: {
		std::vector<char> raw((size_t) (nx * x.t->size) + 1, 7);
		for (int q = 0; q < nx; ++q) {
			x.m[(size_t) q] = genElem(c, *x.t);
			memcpy(raw.data() + q * x.t->size, &x.m[(size_t) q], (size_t) x.t->size);
		}
		c.note("Initialize %s", x.text().c_str());
		if (nx)
			c.nontrivial();
		if (x.a->Initialize(raw.data()) != x.a)
			c.fail("Initialize did not return its array");
		std::fill(raw.begin(), raw.end(), 9);
		break;
	}
	}
	for (auto* p : pool)
		p->check(c, "a bulk operation");
}
}
PBT_PROP(same_array, 7000) {
	ArrModel x;
	x.create(c, c.pick(elemTypes()), c.chance(1, 4) ? 2 + (int) c.draw(2) : 1, c.chance(1, 20) ? 40 : 7, true);
	std::vector<ArrModel*> pool{&x};
	step(c, pool);
}
PBT_PROP(two_arrays, 8000) {
	ArrModel x, y;
	const ElemType& t = c.pick(elemTypes());
	int rank = c.chance(1, 4) ? 2 + (int) c.draw(2) : 1;
	x.create(c, t, rank, rank == 1 ? 8 : 3, true);
	y.create(c, c.chance(1, 6) ? c.pick(elemTypes()) : t, c.chance(1, 8) ? 1 + (int) c.draw(3) : rank, rank == 1 ? 8 : 3, true);
	std::vector<ArrModel*> pool{&x, &y};
	step(c, pool);
}
PBT_PROP(histories, 3500) {
	const ElemType& t = c.pick(elemTypes());
	ArrModel x, y;
	x.create(c, t, 1, 12, true);
	y.create(c, t, 1, 12, true);
	std::vector<ArrModel*> pool{&x, &y};
	size_t steps = 2 + c.steps(8, 150);
	for (size_t i = 0; i < steps; ++i)
		step(c, pool);
}
PBT_PROP(large_arrays, 40) {
	const ElemType& t = c.pick(elemTypes());
	int rank = c.chance(1, 5) ? 2 + (int) c.draw(2) : 1;
	ArrModel x, y;
	x.createLarge(c, t, rank, 80000);
	y.createLarge(c, t, rank, 80000);
	std::vector<ArrModel*> pool{&x, &y};
	for (int i = 0; i < 3; ++i)
		step(c, pool);
	delete x.a;
	delete y.a;
}
PBT_PROP(null_arrays, 300) {
	ArrModel x;
	x.create(c, c.pick(elemTypes()), 1, 4, true);
	int k = arg(c, 4);
	c.note("null arrays with %s, %d", x.text().c_str(), k);
	c.nontrivial();
	struct {
		const char* what;
		std::function<void()> f;
	} t[] = {{"Copy(null, array)", [&] { Array::Copy(nullptr, x.a, k); }}, {"Copy(array, null)", [&] { Array::Copy(x.a, nullptr, k); }}, {"Copy(null range)", [&] { Array::Copy(nullptr, 0, x.a, 0, k); }},
		{"Copy(range, null)", [&] { Array::Copy(x.a, 0, nullptr, 0, k); }}, {"Copy(null, null)", [&] { Array::Copy(nullptr, 0, nullptr, 0, k); }}, {"ConstrainedCopy(null)", [&] { Array::ConstrainedCopy(nullptr, 0, x.a, 0, k); }},
		{"ConstrainedCopy(to null)", [&] { Array::ConstrainedCopy(x.a, 0, nullptr, 0, k); }}, {"CopyTo(null)", [&] { x.a->CopyTo(nullptr, k); }}, {"Clear(null)", [&] { Array::Clear(nullptr, 0, k); }},
		{"IndexOf(null)", [&] { Array::IndexOf(nullptr, nullptr, 0, k); }}};
	for (auto& y : t) {
		Ex e = tryCall(y.f);
		if (e == ExNone)
			c.fail("%s was accepted", y.what);
	}
	x.check(c, "a rejected call");
}
PBT_PROP(shared_storage, 3000) {
	// Arrays that are different objects around overlapping parts of the same memory.
	const ElemType& t = c.pick(elemTypes());
	size_t size = (size_t) t.size;
	int cells = 4 + (int) c.draw(c.chance(1, 12) ? 60 : 12);
	std::vector<uint64_t> m((size_t) cells);
	std::unique_ptr<char[]> mem(new char[(size_t) cells * size]);
	for (int i = 0; i < cells; ++i) {
		m[(size_t) i] = genElem(c, t);
		memcpy(mem.get() + (size_t) i * size, &m[(size_t) i], size);
	}
	struct {
		int at, n;
		Array* a;
	} v[2];
	for (auto& x : v) {
		x.at = (int) c.draw((uint64_t) cells + 1);
		x.n = (int) c.draw((uint64_t) (cells - x.at) + 1);
		x.a = new Array(mem.get() + (size_t) x.at * size, t.type, x.n);
	}
	size_t steps = 1 + c.size(5);
	for (size_t s = 0; s < steps; ++s) {
		auto &x = v[c.draw(2)], &y = c.chance(1, 5) ? x : &x == &v[0] ? v[1] : v[0];
		int i = fit(c, x.n), j = fit(c, y.n), k = c.chance(1, 6) ? arg(c, x.n) : (int) c.draw((uint64_t) std::max(0, std::min(x.n - std::max(i, 0), y.n - std::max(j, 0))) + 1);
		int kind = (int) c.draw(5);
		if (kind == 2)
			i = j = 0;
		if (kind == 3)
			i = 0, k = x.n;
		std::string what = cat(kind == 0 ? "Copy from %d to %d count %d" : kind == 1 ? "ConstrainedCopy from %d to %d count %d" : kind == 2 ? "Copy of the first, %d to %d, %d" : kind == 3 ? "CopyTo %d at %d count %d" : "Clear from %d (%d) count %d", i, j, k)
			+ " between " + std::to_string(x.at) + "+" + std::to_string(x.n) + " and " + std::to_string(y.at) + "+" + std::to_string(y.n);
		c.note("%s of %s", what.c_str(), t.name);
		bool ok = i >= 0 && k >= 0 && (int64_t) i + k <= x.n && (kind == 4 || (j >= 0 && (int64_t) j + k <= y.n));
		if (!ok || k)
			c.nontrivial();
		Ex e = tryCall([&] {
			switch (kind) {
			case 0: Array::Copy(x.a, i, y.a, j, k); break;
			case 1: Array::ConstrainedCopy(x.a, i, y.a, j, k); break;
			case 2: Array::Copy(x.a, y.a, k); break;
			case 3: x.a->CopyTo(y.a, j); break;
			default: Array::Clear(x.a, i, k);
			}
		});
		outcome(c, what, ok, e);
		if (ok) {
			auto snap = m;
			for (int q = 0; q < k; ++q)
				if (kind == 4)
					m[(size_t) (x.at + i + q)] = 0;
				else
					m[(size_t) (y.at + j + q)] = snap[(size_t) (x.at + i + q)];
		}
		for (int q = 0; q < cells; ++q)
			if (rawCell(t, mem.get() + (size_t) q * size) != m[(size_t) q])
				c.fail("after %s cell %d of %s memory is %llx, expected %llx", what.c_str(), q, t.name, (unsigned long long) rawCell(t, mem.get() + (size_t) q * size), (unsigned long long) m[(size_t) q]);
	}
	delete v[0].a;
	delete v[1].a;
}
