// C11: array elements are independent, typed and bounds-checked.
#include "arrays.h"
PBT_MAIN("C11", "A case is an array of one of sixteen element types and one to three dimensions (zero sizes included), own or caller-supplied storage, and a history of element reads and stores through every path (boxed, by index array, by address) with indexes inside, at the edge of or outside a "
	"dimension, missing or surplus indexes and values of other types; after every step all cells are compared with a map from index tuples to values. Non-trivial: an element is stored and another exists, or the step is rejected; distinct by generated choices.")
namespace {
struct Ix {
	int n = 0;
	int v[3] = {-1, -1, -1};
	std::string text() const {
		std::string r;
		for (int i = 0; i < n; ++i)
			r += (i ? "," : "") + std::to_string(v[i]);
		return "[" + r + "]";
	}
};
// -1: not a cell; otherwise the row-major position.
int position(const ArrModel& a, const Ix& x) {
	if (x.n != a.rank)
		return -1;
	int64_t k = 0;
	for (int i = 0; i < x.n; ++i) {
		if (x.v[i] < 0 || x.v[i] >= a.dim[i])
			return -1;
		k = k * a.dim[i] + x.v[i];
	}
	return (int) k;
}
Ix genIx(Case& c, const ArrModel& a) {
	Ix x;
	x.n = a.rank;
	for (int i = 0; i < x.n; ++i)
		x.v[i] = (int) c.draw((uint64_t) std::max(a.dim[i], 1));
	switch (c.weighted({10, 3, 2, 1})) {
	case 1:                                            // one index outside
		x.v[(size_t) c.draw((uint64_t) x.n)] = c.coin() ? a.dim[c.draw((uint64_t) a.rank)] + (int) c.draw(3) : c.coin() ? -1 - (int) c.draw(2) : (int) c.edge(INT32_MIN, INT32_MAX);
		break;
	case 2:                                            // another number of indexes
		x.n = 1 + (int) c.draw(3);
		for (int i = 0; i < x.n; ++i)
			if (x.v[i] < 0)
				x.v[i] = (int) c.draw(3);
		for (int i = x.n; i < 3; ++i)
			x.v[i] = -1;
		if (c.chance(1, 5)) {                          // the middle one missing
			x.n = 3;
			x.v[1] = -1;
			x.v[2] = (int) c.draw(3);
		}
		break;
	case 3:                                            // all wild
		for (int i = 0; i < x.n; ++i)
			x.v[i] = (int) c.edge(INT32_MIN, INT32_MAX);
	}
	return x;
}
// Index tuples that mean something else through the fixed-argument paths: a negative trailing index reads as "not given".
bool ambiguous(const ArrModel& a, const Ix& x) {
	Ix y = x;
	while (y.n > 1 && y.v[y.n - 1] < 0)
		--y.n;
	return y.n != x.n && position(a, x) < 0 && position(a, y) >= 0;
}
Array* indexArray(const Ix& x) {
	Array* r = new Array(Int32Type, x.n);
	for (int i = 0; i < x.n; ++i)
		*(Int32*) r->Address(i) = x.v[i];
	return r;
}
// The element of type d a number of type s becomes, if d can represent every s (.NET's widening), else false.
bool widens(const ElemType& s, uint64_t bits, const ElemType& d, uint64_t& out) {
	auto isInt = [](DataType t) { return (t >= SByteType && t <= UInt64Type) || t == CharType; };
	if (!isInt(s.type) && s.type != SingleType)
		return false;
	if (s.type == SingleType) {
		if (d.type != DoubleType)
			return false;
		out = doubleToBits((double) bitsToFloat((uint32_t) bits));
		return true;
	}
	bool sSigned = s.type == SByteType || s.type == Int16Type || s.type == Int32Type || s.type == Int64Type;
	int sBytes = s.type == CharType ? 2 : s.size;
	i128 v = sSigned ? (i128) ((int64_t) (bits << (64 - 8 * sBytes)) >> (64 - 8 * sBytes)) : (i128) bits;
	if (d.type == SingleType || d.type == DoubleType) {
		out = d.type == SingleType ? floatToBits((float) v) : doubleToBits((double) v);
		return true;
	}
	if (!isInt(d.type))
		return false;
	bool dSigned = d.type == SByteType || d.type == Int16Type || d.type == Int32Type || d.type == Int64Type;
	int dBytes = d.type == CharType ? 2 : d.size;
	if (sSigned ? !dSigned || dBytes < sBytes : dSigned ? dBytes <= sBytes : dBytes < sBytes)
		return false;
	out = (uint64_t) v & (d.size == 8 ? ~0ULL : (1ULL << (8 * d.size)) - 1);
	return true;
}
// Boxed elements read earlier, with the bits they had.
typedef std::vector<std::pair<Object*, uint64_t>> Boxes;
void readAll(Case& c, ArrModel& a, const Ix& x, Boxes* boxes = nullptr) {
	int p = position(a, x);
	bool amb = ambiguous(a, x);
	Array* ia = indexArray(x);
	struct {
		const char* what;
		bool byArray;
		std::function<bool(uint64_t&)> f;
	} t[] = {{"GetValue", false, [&](uint64_t& b) {
			Object* o = a.a->GetValue(x.v[0], x.v[1], x.v[2]);
			if (boxes && p >= 0)
				boxes->push_back({o, a.m[(size_t) p]});
			return a.t->unbox(o, b);
		}},
		{"GetValue(index array)", true, [&](uint64_t& b) { return a.t->unbox(a.a->GetValue(ia), b); }},
		{"Address", false, [&](uint64_t& b) {
			b = rawCell(*a.t, a.a->Address(x.v[0], x.v[1], x.v[2]));
			return true;
		}}};
	for (auto& y : t) {
		uint64_t b = 0;
		bool typed = true;
		Ex e = tryCall([&] { typed = y.f(b); });
		if (p >= 0) {
			if (e != ExNone || !typed || b != a.m[(size_t) p])
				c.fail("%s%s of %s gave %llx (%s%s), expected %llx", y.what, x.text().c_str(), a.text().c_str(), (unsigned long long) b, exName(e), typed ? "" : ", another type", (unsigned long long) a.m[(size_t) p]);
		} else if (e == ExNone && !amb)
			c.fail("%s%s of %s was accepted", y.what, x.text().c_str(), a.text().c_str());
	}
}
}
PBT_PROP(histories, 7000) {
	ArrModel a;
	a.create(c, c.pick(elemTypes()), 1 + (int) c.draw(3), 4, c.coin());
	c.note("%s", a.text().c_str());
	c.label(a.t->name);
	// the shape
	if (a.a->get_Rank() != a.rank || a.a->get_Length() != a.total() || a.a->GetElementType() != a.t->type)
		c.fail("%s reports rank %d, length %d, type %d", a.text().c_str(), a.a->get_Rank(), a.a->get_Length(), (int) a.a->GetElementType());
	Boxes boxes;
	size_t steps = 1 + c.steps(8, 150);
	for (size_t s = 0; s < steps; ++s) {
		Ix x = genIx(c, a);
		int p = position(a, x);
		bool amb = ambiguous(a, x);
		if (p < 0 || a.total() > 1)
			c.nontrivial();
		switch (c.weighted({2, 4, 3, 2})) {
		case 0:
			c.note("read %s", x.text().c_str());
			readAll(c, a, x, &boxes);
			break;
		case 1: {                                      // a boxed value, sometimes of another type or null
			const ElemType& vt = c.chance(3, 4) ? *a.t : c.pick(elemTypes());
			uint64_t bits = genElem(c, vt);
			if (vt.type == ObjectType && &vt != a.t && bits == 0)
				bits = (uint64_t) (Object*) new Object();
			bool null = c.chance(1, 12);
			Object* o = null ? nullptr : vt.box(bits);
			bool refArr = a.t->type == ObjectType || a.t->type == StringType;
			if (!o)
				null = true;
			bool byArray = c.coin();
			int mode;                                  // 0 reject, 1 accept, 2 either
			uint64_t stored = bits;
			if (null) {
				mode = refArr ? 1 : 2;
				stored = 0;
			} else if (a.t->type == ObjectType) {
				mode = 1;
				stored = (uint64_t) o;
			} else if (o->GetRawDataType() == a.t->type)
				mode = 1;
			else
				mode = vt.type != ObjectType && widens(vt, bits, *a.t, stored) ? 2 : 0;
			// an Object cell may hold a box or string generated above
			if (!null && vt.type == ObjectType && a.t->type != ObjectType && o->GetRawDataType() != ObjectType)
				break;
			if (p < 0)
				mode = amb && !byArray ? 3 : 0;
			c.note("store a %s%s at %s%s", null ? "null " : "", vt.name, x.text().c_str(), byArray ? " by index array" : "");
			if (mode == 3)
				break;
			Ex e = tryCall([&] {
				if (byArray)
					a.a->SetValue(o, indexArray(x));
				else
					a.a->SetValue(o, x.v[0], x.v[1], x.v[2]);
			});
			if (mode == 0 ? e == ExNone : mode == 1 && e != ExNone)
				c.fail("storing a %s at %s of %s ended with %s", null ? "null" : vt.name, x.text().c_str(), a.text().c_str(), exName(e));
			if (e == ExNone)
				a.m[(size_t) p] = stored;
			break;
		}
		case 2: {                                      // through the address
			uint64_t bits = genElem(c, *a.t);
			c.note("write at %s", x.text().c_str());
			void* q = nullptr;
			Ex e = tryCall([&] { q = a.a->Address(x.v[0], x.v[1], x.v[2]); });
			if (p < 0) {
				if (e == ExNone && !amb)
					c.fail("the address of %s in %s was given", x.text().c_str(), a.text().c_str());
			} else {
				if (e != ExNone)
					c.fail("the address of %s in %s: %s", x.text().c_str(), a.text().c_str(), exName(e));
				memcpy(q, &bits, (size_t) a.t->size);
				a.m[(size_t) p] = bits;
			}
			break;
		}
		default: {                                     // rank queries
			int r = c.coin() ? (int) c.draw(4) : (int) c.edge(INT32_MIN, INT32_MAX);
			bool ok = r >= 0 && r < a.rank;
			Int32 len = -9, lo = -9, hi = -9;
			Ex e1 = tryCall([&] { len = a.a->GetLength(r); }), e2 = tryCall([&] { lo = a.a->GetLowerBound(r); }), e3 = tryCall([&] { hi = a.a->GetUpperBound(r); });
			c.note("dimension %d", r);
			if (!ok)
				c.nontrivial();
			if ((e1 == ExNone) != ok || (e2 == ExNone) != ok || (e3 == ExNone) != ok || (ok && (len != a.dim[r] || lo != 0 || hi != a.dim[r] - 1)))
				c.fail("dimension %d of %s: length %d (%s), bounds %d..%d (%s, %s)", r, a.text().c_str(), len, exName(e1), lo, hi, exName(e2), exName(e3));
		}
		}
		a.check(c, "a step");
	}
	for (int k = 0; k < a.total(); ++k) {
		Ix x;
		x.n = a.rank;
		int rest = k;
		for (int i = a.rank - 1; i >= 0; --i) {
			x.v[i] = rest % a.dim[i];
			rest /= a.dim[i];
		}
		readAll(c, a, x, &boxes);
	}
	for (auto& b : boxes) {                            // what was read stays what it was
		uint64_t bits = 0;
		if (!a.t->unbox(b.first, bits) || bits != b.second)
			c.fail("an element read as %llx from %s reads %llx later", (unsigned long long) b.second, a.text().c_str(), (unsigned long long) bits);
	}
	delete a.a;
}
PBT_PROP(large_arrays, 30) {
	// One dimension of hundreds to tens of thousands: cells, bounds and stores through every path.
	ArrModel a;
	a.createLarge(c, c.pick(elemTypes()), 1 + (int) c.draw(3));
	c.note("%s", a.text().c_str());
	c.nontrivial();
	if (a.a->get_Rank() != a.rank || a.a->get_Length() != a.total())
		c.fail("%s reports rank %d, length %d", a.text().c_str(), a.a->get_Rank(), a.a->get_Length());
	for (int r = 0; r < a.rank; ++r)
		if (a.a->GetLength(r) != a.dim[r] || a.a->GetLowerBound(r) != 0 || a.a->GetUpperBound(r) != a.dim[r] - 1)
			c.fail("dimension %d of %s: length %d, bounds %d..%d", r, a.text().c_str(), a.a->GetLength(r), a.a->GetLowerBound(r), a.a->GetUpperBound(r));
	a.check(c, "filling");
	for (int s = 0; s < 12; ++s) {
		Ix x;
		x.n = a.rank;
		for (int i = 0; i < x.n; ++i)
			x.v[i] = c.chance(1, 3) ? (c.coin() ? a.dim[i] - 1 : 0) : (int) c.draw((uint64_t) std::max(a.dim[i], 1));
		if (c.chance(1, 6)) {
			int i = (int) c.draw((uint64_t) x.n);
			x.v[i] = a.dim[i] + (int) c.draw(3);
		}
		int p = position(a, x);
		readAll(c, a, x);
		uint64_t bits = genElem(c, *a.t);
		Object* o = a.t->box(bits);
		if (!o)
			continue;
		bool byArray = c.coin();
		c.note("store at %s", x.text().c_str());
		Ex e = tryCall([&] {
			if (byArray)
				a.a->SetValue(o, indexArray(x));
			else
				a.a->SetValue(o, x.v[0], x.v[1], x.v[2]);
		});
		if ((e == ExNone) != (p >= 0))
			c.fail("storing at %s of %s ended with %s", x.text().c_str(), a.text().c_str(), exName(e));
		if (p >= 0)
			a.m[(size_t) p] = bits;
		readAll(c, a, x);
	}
	a.check(c, "the stores");
	delete a.a;
}
PBT_PROP(wrapped_storage, 3000) {
	// An array over the caller's memory reads and writes exactly that memory and never frees it.
	const ElemType& t = c.pick(elemTypes());
	int rank = 1 + (int) c.draw(3), dim[3] = {1, 1, 1};
	for (int i = 0; i < rank; ++i)
		dim[i] = (int) c.draw(4);
	int n = dim[0] * dim[1] * dim[2];
	std::vector<uint64_t> want((size_t) n);
	std::vector<char> mem((size_t) (n * t.size) + 16, (char) 0x5C);
	Array* a = rank == 1 ? new Array(mem.data(), t.type, dim[0]) : rank == 2 ? new Array(mem.data(), t.type, dim[0], dim[1]) : new Array(mem.data(), t.type, dim[0], dim[1], dim[2]);
	c.note("%s over %d bytes, rank %d", t.name, n * t.size, rank);
	if (n)
		c.nontrivial();
	if (a->get_Length() != n || a->get_Rank() != rank || a->GetElementType() != t.type)
		c.fail("wrong shape");
	for (int i = 0; i < dim[0]; ++i)
		for (int j = 0; j < dim[1]; ++j)
			for (int k = 0; k < dim[2]; ++k) {
				int p = (i * dim[1] + j) * dim[2] + k;
				want[(size_t) p] = genElem(c, t);
				Object* o = t.box(want[(size_t) p]);
				if (c.coin())
					a->SetValue(o, i, rank > 1 ? j : -1, rank > 2 ? k : -1);
				else
					memcpy(mem.data() + p * t.size, &want[(size_t) p], (size_t) t.size);
			}
	for (int p = 0; p < n; ++p) {
		uint64_t b = 0;
		int i = p / (dim[1] * dim[2]), j = p / dim[2] % dim[1], k = p % dim[2];
		bool typed = t.unbox(a->GetValue(i, rank > 1 ? j : -1, rank > 2 ? k : -1), b);
		if (rawCell(t, mem.data() + p * t.size) != want[(size_t) p] || !typed || b != want[(size_t) p])
			c.fail("element %d of the wrapped array", p);
	}
	delete a;
	for (int p = 0; p < n; ++p)
		if (rawCell(t, mem.data() + p * t.size) != want[(size_t) p])
			c.fail("destroying the array changed the memory it wraps");
	for (size_t i = (size_t) (n * t.size); i < mem.size(); ++i)
		if (mem[i] != 0x5C)
			c.fail("memory after the wrapped array changed");
}
PBT_PROP(shapes, 3000) {
	// Dimension sizes: negative and overflowing requests are rejected, others give that shape.
	const ElemType& t = c.pick(elemTypes());
	int rank = 1 + (int) c.draw(3);
	int64_t d[3] = {1, 1, 1};
	for (int i = 0; i < rank; ++i)
		d[i] = c.weighted({4, 1, 1, 1}) == 0 ? (int64_t) c.draw(8) : c.coin() ? (int64_t) c.edge(INT32_MIN, i ? -2 : -1) : (int64_t) c.edge(1 << 15, INT32_MAX);
	bool neg = false, zero = false;
	i128 n = 1;
	for (int i = 0; i < rank; ++i) {
		neg = neg || d[i] < 0;
		zero = zero || d[i] == 0;
		n *= d[i];
	}
	i128 bytes = n * t.size;
	c.note("%s[%lld,%lld,%lld] rank %d", t.name, (long long) d[0], (long long) d[1], (long long) d[2], rank);
	bool big = false;
	for (int i = 0; i < rank; ++i)
		big = big || d[i] > 100;
	if (!neg && (bytes > 100000 && bytes <= INT32_MAX))
		return;                                        // a legal but large array: not worth the memory
	if (neg || big)
		c.nontrivial();
	Array* a = nullptr;
	Ex e = tryCall([&] { a = rank == 1 ? new Array(t.type, (Int32) d[0]) : rank == 2 ? new Array(t.type, (Int32) d[0], (Int32) d[1]) : new Array(t.type, (Int32) d[0], (Int32) d[1], (Int32) d[2]); });
	if (neg || n > INT32_MAX) {
		if (e == ExNone)
			c.fail("dimensions %lld,%lld,%lld were accepted", (long long) d[0], (long long) d[1], (long long) d[2]);
		return;
	}
	if (bytes > INT32_MAX || (zero && big)) {
		if (e == ExNone && a->get_Length() != (Int32) n)
			c.fail("length %d", a->get_Length());
		return;
	}
	if (e != ExNone || a->get_Length() != (Int32) n || a->get_Rank() != rank)
		c.fail("dimensions %lld,%lld,%lld gave %s", (long long) d[0], (long long) d[1], (long long) d[2], exName(e));
	for (int i = 0; i < rank; ++i)
		if (a->GetLength(i) != d[i] || a->GetLowerBound(i) != 0 || a->GetUpperBound(i) != d[i] - 1)
			c.fail("dimension %d", i);
	delete a;
}
PBT_PROP(index_arrays, 2500) {
	// Index arrays of the wrong length, type or rank, or null.
	ArrModel a;
	a.create(c, c.pick(elemTypes()), 1 + (int) c.draw(3), 3, true);
	c.nontrivial();
	Array* ia = nullptr;
	switch (c.draw(5)) {
	case 0:
		c.note("null index array on %s", a.text().c_str());
		break;
	case 1:
		ia = new Array(c.pick({Int64Type, Int16Type, ObjectType, ByteType, UInt32Type, DoubleType}), a.rank);
		c.note("index array of another type on %s", a.text().c_str());
		break;
	case 2: {
		int n = (int) c.draw(5);
		if (n == a.rank)
			++n;
		ia = new Array(Int32Type, n);
		c.note("%d indexes on %s", n, a.text().c_str());
		break;
	}
	case 3:
		ia = new Array(Int32Type, a.rank, 1);
		c.note("two-dimensional index array on %s", a.text().c_str());
		break;
	default: {
		ia = new Array(Int32Type, a.rank);
		int which = (int) c.draw((uint64_t) a.rank);
		*(Int32*) ia->Address(which) = c.coin() ? -1 - (int) c.draw(3) : a.dim[which] + (int) c.draw(3);
		c.note("index %d is %d on %s", which, *(Int32*) ia->Address(which), a.text().c_str());
	}
	}
	Object* o = a.t->box(genElem(c, *a.t));
	Ex e1 = tryCall([&] { a.a->GetValue(ia); }), e2 = tryCall([&] { a.a->SetValue(o, ia); });
	if (e1 == ExNone || e2 == ExNone)
		c.fail("the index array was accepted on %s (%s, %s)", a.text().c_str(), exName(e1), exName(e2));
	a.check(c, "rejected index array");
}
PBT_PROP(shared_storage, 2500) {
	// Index arrays over the very memory the element lies in: the indexes are those before the store.
	const int cells = 24;
	int mem[cells + 8], want[cells + 8];
	for (int& x : mem)
		x = (int) c.near0(-1, 4);
	int rank = 1 + (int) c.draw(3), dim[3] = {1, 1, 1};
	for (int i = 0; i < rank; ++i)
		dim[i] = 1 + (int) c.draw(rank == 1 ? 6 : 3);
	int n = dim[0] * dim[1] * dim[2], at = (int) c.draw((uint64_t) std::max(1, cells - n));
	int from = c.chance(3, 4) ? std::min(cells, at + (int) c.draw((uint64_t) n)) : (int) c.draw(cells);
	Array* a = rank == 1 ? new Array(mem + at, Int32Type, dim[0]) : rank == 2 ? new Array(mem + at, Int32Type, dim[0], dim[1]) : new Array(mem + at, Int32Type, dim[0], dim[1], dim[2]);
	Array* ia = rank == 1 && dim[0] == 1 && c.coin() ? a : new Array(mem + from, Int32Type, rank);
	if (ia == a)
		from = at;
	memcpy(want, mem, sizeof mem);
	int64_t p = 0;
	for (int i = 0; i < rank && p >= 0; ++i)
		p = mem[from + i] < 0 || mem[from + i] >= dim[i] ? -1 : p * dim[i] + mem[from + i];
	int v = (int) c.near0(-3, 9);
	c.note("rank %d, %d cells at %d, indexes %d %d %d at %d, store %d", rank, n, at, mem[from], mem[from + 1], mem[from + 2], from, v);
	c.nontrivial();
	Object* got = nullptr;
	Ex e = tryCall([&] { got = a->GetValue(ia); });
	if ((e == ExNone) != (p >= 0) || (p >= 0 && ((Int32Value*) got)->get_AsInt32() != mem[at + p]))
		c.fail("reading by indexes in the same memory: %s", exName(e));
	e = tryCall([&] { a->SetValue(new Int32Value(v), ia); });
	if ((e == ExNone) != (p >= 0))
		c.fail("storing by indexes in the same memory: %s", exName(e));
	if (p >= 0)
		want[at + p] = v;
	for (int i = 0; i < cells + 8; ++i)
		if (mem[i] != want[i])
			c.fail("cell %d is %d, expected %d", i, mem[i], want[i]);
	if (ia != a)
		delete ia;
	delete a;
}
