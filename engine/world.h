// An interpreter of library calls over a fixed pool of objects.  Plans are plain data drawn in
// advance, and the interpreter allocates nothing itself (no std containers), so the same plan can
// run in ordinary heap mode or inside the recycling memory region.
#pragma once
#include "lib.h"

struct WOp {
	uint16_t code;
	uint8_t x, y, z, t;
	int64_t a, b, c;
	double d;
};
enum { NS = 8, NB = 4, NA = 8, NO = 8, NE = 2, ND = 3, MAXW = 64 };

struct World;
struct OpDef {
	const char* name;
	void (*fn)(World&, const WOp&);
};
struct WTrace {
	uint64_t hash;
	char text[72];
};
struct World {
	String* S[NS];
	StringBuilder* B[NB];
	Array* A[NA];
	Object* O[NO];
	CharEnumerator* E[NE];
	DateTime D[ND];
	TimeSpan T[ND];
	alignas(16) unsigned char raw[2][64 * 8];    // storage wrapped by arrays that do not own it
	// what the current operation is allowed to change
	uint32_t mayS, mayB, mayA, mayO, mayE;
	// output of the current operation
	uint64_t h;
	char txt[72];
	int nt;
	bool ran;
	const char* bad;        // set when a result is malformed in itself
	Array* rawOwner[2];

	void reset() {
		for (auto& s : S) s = nullptr;
		for (auto& s : B) s = nullptr;
		for (auto& s : A) s = nullptr;
		for (auto& s : O) s = nullptr;
		for (auto& s : E) s = nullptr;
		for (auto& s : D) s = DateTime((UInt64) 0);
		for (auto& s : T) s = TimeSpan((Int64) 0);
		memset(raw, 0, sizeof raw);
		rawOwner[0] = rawOwner[1] = nullptr;
		bad = nullptr;
	}
	void mix(uint64_t v) {
		h = (h ^ v) * 0x9fb21c651e98df25ull;
		h ^= h >> 29;
	}
	void say(const char* s) {
		while (*s && nt < (int) sizeof txt - 1)
			txt[nt++] = *s++;
		txt[nt] = 0;
	}
	// results -----------------------------------------------------------------------------------
	void r(int64_t v) {
		ran = true;
		mix((uint64_t) v);
		if (nt < 60) {
			char b[24];
			snprintf(b, sizeof b, " %lld", (long long) v);
			say(b);
		}
	}
	void rd(double v) {
		ran = true;
		uint64_t u;
		if (v != v)
			u = 0x7ff8000000000000ull;
		else
			memcpy(&u, &v, 8);
		mix(u);
		if (nt < 60) {
			char b[40];
			snprintf(b, sizeof b, " %.17g", v);
			say(b);
		}
	}
	void ex(int kind) {
		ran = true;
		mix(1000 + (uint64_t) kind);
		say(" !");
		say(exName(kind));
	}
	void rs(String* s) {
		ran = true;
		if (!s) {
			mix(7);
			say(" null");
			return;
		}
		Int32 n = s->get_Length();
		const Char* p = s->get_Buffer();
		if (n < 0 || !p) {
			bad = "a string with a negative length or no buffer";
			return;
		}
		mix((uint64_t) n);
		for (Int32 i = 0; i < n; ++i)
			mix((uint64_t) p[i]);
		if (p[n] != 0)
			bad = "a string without a terminator after its length";
		say(" '");
		for (Int32 i = 0; i < n && nt < 60; ++i) {
			char b[2] = {p[i] >= 32 && p[i] < 127 ? (char) p[i] : '?', 0};
			say(b);
		}
		say("'");
	}
	void ra(Array* a) {
		ran = true;
		if (!a) {
			mix(8);
			say(" null");
			return;
		}
		mix((uint64_t) a->GetElementType());
		mix((uint64_t) a->get_Rank());
		for (Int32 k = 0; k < a->get_Rank(); ++k)
			mix((uint64_t) a->GetLength(k));
		mix(bytesOf(a, false));
		char b[40];
		snprintf(b, sizeof b, " array t%d n%d", (int) a->GetElementType(), a->get_Length());
		say(b);
	}
	void ro(Object* o, int depth = 0) {
		ran = true;
		if (!o) {
			mix(9);
			say(" null");
			return;
		}
		for (auto e : A)
			if (o == e)
				return depth < 2 ? ra(e) : (void) mix(55);
		for (auto e : B)
			if (o == e)
				return rb(e);
		mix((uint64_t) o->GetRawDataType());
		if (Array* a = dynamic_cast<Array*>(o))          // one that has left its slot
			return depth < 2 ? ra(a) : (void) mix(55);
		if (StringBuilder* b = dynamic_cast<StringBuilder*>(o))
			return rb(b);
		rs(o->ToString());
	}
	void rb(StringBuilder* b) {
		ran = true;
		Int32 n = b->get_Length();
		const Char* p = b->get_Buffer();
		if (n < 0 || n > b->get_Capacity() || b->get_Capacity() > b->get_MaxCapacity())
			bad = "a builder whose length, capacity and maximum are out of order";
		mix((uint64_t) n);
		mix((uint64_t) b->get_Capacity());
		mix((uint64_t) b->get_MaxCapacity());
		for (Int32 i = 0; i < n; ++i)
			mix((uint64_t) p[i]);
		char t[40];
		snprintf(t, sizeof t, " builder n%d", n);
		say(t);
	}
	// Content digest of an array; object elements by identity (within one run) or by text.
	uint64_t bytesOf(Array* a, bool identity) {
		uint64_t keep = h;
		h = 99;
		Int32 n = a->get_Length();
		if (n > 0) {
			Int32 r1 = a->get_Rank();
			const unsigned char* p = (const unsigned char*) (r1 == 1 ? a->Address(0) : r1 == 2 ? a->Address(0, 0) : a->Address(0, 0, 0));
			size_t sz = (size_t) DataTypeSize[a->GetElementType()];
			bool objs = a->GetElementType() == ObjectType || a->GetElementType() == StringType;
			if (objs && !identity) {
				for (Int32 i = 0; i < n; ++i) {
					Object* o = ((Object**) p)[i];
					if (!o) {
						mix(3);
						continue;
					}
					int slot = -1;
					for (int k = 0; k < NA; ++k)
						if (o == A[k])
							slot = k;
					mix(o->GetRawDataType());
					if (slot >= 0)
						mix((uint64_t) slot + 70);
					else if (o->GetRawDataType() == StringType) {
						String* s = (String*) o;
						for (Int32 k = 0; k < s->get_Length(); ++k)
							mix((uint64_t) s->get_Buffer()[k]);
					}
				}
			}
			else
				for (size_t i = 0; i < (size_t) n * sz; ++i)
					mix(p[i]);
		}
		uint64_t v = h;
		h = keep;
		return v;
	}
	// objects -----------------------------------------------------------------------------------
	static uint32_t bit(int i) { return 1u << i; }
	String* s(int i) { i %= NS + 1; return i == NS ? nullptr : S[i]; }      // an argument: possibly null
	StringBuilder* sb(int i) { i %= NB + 1; return i == NB ? nullptr : B[i]; }
	Array* arr(int i) { i %= NA + 1; return i == NA ? nullptr : A[i]; }
	Array* arrT(int i, DataType t) {                                         // an array argument, of this element type if there is one
		for (int k = 0; k < NA; ++k)
			if (A[(i + k) % NA] && A[(i + k) % NA]->GetElementType() == t)
				return A[(i + k) % NA];
		return arr(i);
	}
	Object* obj(int i) {
		i %= NO + NS + NB + NA + 2;
		if (i < NO) return O[i];
		i -= NO;
		if (i < NS) return S[i];
		i -= NS;
		if (i < NB) return B[i];
		i -= NB;
		if (i < NA) return A[i];
		return nullptr;
	}
	String* str(int i) {                                                     // a target: never null unless there is none
		for (int k = 0; k < NS; ++k)
			if (S[(i + k) % NS])
				return S[(i + k) % NS];
		return nullptr;
	}
	StringBuilder* bld(int i, bool change) {
		for (int k = 0; k < NB; ++k) {
			int j = (i + k) % NB;
			if (B[j]) {
				if (change) {
					mayB |= bit(j);
					if (B[j]->get_Length() > 200)        // texts grow exponentially when joined to themselves
						B[j]->set_Length(20);
				}
				return B[j];
			}
		}
		return nullptr;
	}
	Array* ary(int i, bool change) {
		for (int k = 0; k < NA; ++k) {
			int j = (i + k) % NA;
			if (A[j]) {
				if (change)
					changing(A[j]);
				return A[j];
			}
		}
		return nullptr;
	}
	Array* aryT(int i, DataType t, bool change) {
		for (int k = 0; k < NA; ++k) {
			int j = (i + k) % NA;
			if (A[j] && A[j]->GetElementType() == t) {
				if (change)
					changing(A[j]);
				return A[j];
			}
		}
		return ary(i, change);
	}
	void changing(Array* a) {
		if (a)
			for (int j = 0; j < NA; ++j)
				if (A[j] == a)
					mayA |= bit(j);
	}
	Object* box(int i) {
		for (int k = 0; k < NO; ++k)
			if (O[(i + k) % NO])
				return O[(i + k) % NO];
		return nullptr;
	}
	void putS(int i, String* v) {
		rs(v);
		if (v && v->get_Length() <= 200) {
			S[i % NS] = v;
			mayS |= bit(i % NS);
		}
	}
	void putB(int i, StringBuilder* v) {
		B[i % NB] = v;
		mayB |= bit(i % NB);
		rb(v);
	}
	void putA(int i, Array* v) {
		if (v) {
			A[i % NA] = v;
			mayA |= bit(i % NA);
		}
		ra(v);
	}
	void putO(int i, Object* v) {
		ro(v);
		if (v) {
			O[i % NO] = v;
			mayO |= bit(i % NO);
		}
	}
	// digests -----------------------------------------------------------------------------------
	uint64_t digestS(String* v) {
		if (!v)
			return 0;
		h = 11;
		nt = 0;
		rs(v);
		return h;
	}
	uint64_t digestB(StringBuilder* v) {
		if (!v)
			return 0;
		h = 12;
		nt = 0;
		rb(v);
		return h;
	}
	uint64_t digestA(Array* v, bool identity) {
		if (!v)
			return 0;
		h = 13;
		nt = 0;
		if (!identity) {
			ra(v);
			return h;
		}
		mix((uint64_t) v->GetElementType());
		for (Int32 k = 0; k < v->get_Rank(); ++k)
			mix((uint64_t) v->GetLength(k));
		mix(bytesOf(v, true));
		return h;
	}
	uint64_t digestO(Object* v) {
		if (!v)
			return 0;
		h = 14;
		if (dynamic_cast<Array*>(v) || dynamic_cast<StringBuilder*>(v)) {        // guarded where it lives
			mix((uint64_t) v);
			return h;
		}
		nt = 0;
		ro(v);
		return h;
	}
	uint64_t digestE(CharEnumerator* v) {
		if (!v)
			return 0;
		h = 15;
		try {
			mix((uint64_t) v->get_Current());
		}
		catch (Exception*) {
			mix(77);
		}
		return h;
	}
};

// One operation; exceptions of the library are results.
inline void worldRun(World& w, const OpDef& d, const WOp& o) {
	w.mayS = w.mayB = w.mayA = w.mayO = w.mayE = 0;
	w.h = 1;
	w.nt = 0;
	w.txt[0] = 0;
	w.ran = false;
	try {
		d.fn(w, o);
	}
	catch (Exception* e) {
		w.ex(classify(e));
	}
}
