// The operations of the world interpreter: every public member that takes library values.
// Left out: members that take raw pointers, the current time, and requests for huge memory.
#pragma once
#include "world.h"

#define I(v) ((Int32) (v))
#define NEED(p) if (!(p)) return
// a size-like argument: any negative, but never a request for a huge block
inline Int32 wsz(int64_t v) { return v > 300 ? (Int32) (v % 300) : (Int32) (v < INT32_MIN ? INT32_MIN : v); }
inline Char wch(int64_t v) {
	static const wchar_t small[] = {L'a', L'b', L'A', L' ', L'1', L'z', 0, L',', L'\n', 0x3A9, 0xFFFF, L'B'};
	return (uint64_t) v < 12 ? small[v] : (Char) ((uint64_t) v & 0xFFFF);
}
inline Object* makeBox(int t, int64_t a, double d) {
	switch (t % 15) {
	case 0: return new BooleanValue((a & 1) != 0);
	case 1: return new CharValue(wch(a));
	case 2: return new SByteValue((SByte) a);
	case 3: return new ByteValue((Byte) a);
	case 4: return new Int16Value((Int16) a);
	case 5: return new UInt16Value((UInt16) a);
	case 6: return new Int32Value((Int32) a);
	case 7: return new UInt32Value((UInt32) a);
	case 8: return new Int64Value((Int64) a);
	case 9: return new UInt64Value((UInt64) a);
	case 10: return new SingleValue((Single) d);
	case 11: return new DoubleValue(d);
	case 12: return new DateTimeValue(DateTime((UInt64) a % 3155378976000000000ull));
	case 13: return new TimeSpanValue(TimeSpan((Int64) a));
	default: return new Object();
	}
}
inline Int32 boxCompare(Object* o, Object* p) {
	switch (o->GetRawDataType()) {
	case BooleanType: return ((BooleanValue*) o)->CompareTo(p);
	case CharType: return ((CharValue*) o)->CompareTo(p);
	case SByteType: return ((SByteValue*) o)->CompareTo(p);
	case ByteType: return ((ByteValue*) o)->CompareTo(p);
	case Int16Type: return ((Int16Value*) o)->CompareTo(p);
	case UInt16Type: return ((UInt16Value*) o)->CompareTo(p);
	case Int32Type: return ((Int32Value*) o)->CompareTo(p);
	case UInt32Type: return ((UInt32Value*) o)->CompareTo(p);
	case Int64Type: return ((Int64Value*) o)->CompareTo(p);
	case UInt64Type: return ((UInt64Value*) o)->CompareTo(p);
	case SingleType: return ((SingleValue*) o)->CompareTo(p);
	case DoubleType: return ((DoubleValue*) o)->CompareTo(p);
	case DateTimeType: return ((DateTimeValue*) o)->CompareTo(p);
	case TimeSpanType: return ((TimeSpanValue*) o)->CompareTo(p);
	case StringType: return ((String*) o)->CompareTo(p);
	default: return 0;
	}
}
// the element types an array can hold (there is no decimal, and the null type is no element type)
inline DataType elemTypeOf(int z) { int t = 1 + z % 16; return (DataType) (t < DecimalType ? t : t + 1); }
// arrays whose bytes are addresses
inline bool refs(Array* a) { return a && (a->GetElementType() == ObjectType || a->GetElementType() == StringType); }
inline int sgn(Int32 v) { return v < 0 ? -1 : v > 0; }
inline void setDim(World& w, Int32& n1, Int32& n2, Int32& n3, const WOp& o) {
	n1 = wsz(o.a);
	n2 = n3 = -1;
	if (o.t % 5 == 1 || o.t % 5 == 2) {
		n1 = n1 > 9 ? n1 % 9 : n1;
		n2 = wsz(o.b);
		n2 = n2 > 9 ? n2 % 9 : n2;
	}
	if (o.t % 5 == 2) {
		n1 = n1 > 5 ? n1 % 5 : n1;
		n2 = n2 > 5 ? n2 % 5 : n2;
		n3 = wsz(o.c);
		n3 = n3 > 5 ? n3 % 5 : n3;
	}
}
// The three indexes of an access: right number of dimensions most of the time.
inline void setIdx(Array* a, const WOp& o, Int32& i, Int32& j, Int32& k) {
	i = I(o.a);
	j = I(o.b);
	k = I(o.c);
	if (o.t % 6) {
		if (a->get_Rank() < 3) k = -1;
		if (a->get_Rank() < 2) j = -1;
	}
}

#define OP(nm, ...) {nm, [](World& w, const WOp& o) __VA_ARGS__},
static const OpDef worldOps[] = {
	// ---- strings: creation
	OP("S.new(char,n)", { w.putS(o.x, new String(wch(o.b), wsz(o.a))); })
	OP("S.new(chars)", { w.putS(o.x, new String(w.arrT(o.y, CharType), I(o.a), I(o.b))); })
	OP("S.new(chars,all)", { w.putS(o.x, new String(w.arrT(o.y, CharType))); })
	OP("S.literal", {
		static const Char* lits[] = {L"", L"a", L"ab", L"abab", L"  A b ", L"12", L"-7", L"3.25", L"True", L"false", L"1.02:03:04", L"hello world", L",", L"zz", L"\t", L"9999999999999999999999"};
		w.putS(o.x, new String(lits[(uint64_t) o.a % 16]));
	})
	OP("S.copyof", { NEED(w.str(o.y)); w.putS(o.x, String::Copy(w.s(o.y))); })
	OP("S.fromBuffer", { String* s = w.str(o.y); NEED(s); w.putS(o.x, new String(s->get_Buffer(), 0, s->get_Length())); })
	OP("S.Chars", { String* s = w.str(o.x); NEED(s); w.r(s->get_Chars(I(o.a))); })
	OP("S.Address", { String* s = w.str(o.x); NEED(s); Char* p = s->Address(I(o.a)); w.r(*p); })
	OP("S.Length", { String* s = w.str(o.x); NEED(s); w.r(s->get_Length()); w.r(s->GetRawDataType()); })
	OP("S.Compare", { w.r(sgn(String::Compare(w.s(o.x), w.s(o.y), (o.t & 1) != 0))); })
	OP("S.Compare(range)", { w.r(sgn(String::Compare(w.s(o.x), I(o.a), w.s(o.y), I(o.b), I(o.c), (o.t & 1) != 0))); })
	OP("S.CompareOrdinal", { w.r(sgn(String::CompareOrdinal(w.s(o.x), w.s(o.y)))); })
	OP("S.CompareOrdinal(range)", { w.r(sgn(String::CompareOrdinal(w.s(o.x), I(o.a), w.s(o.y), I(o.b), I(o.c)))); })
	OP("S.CompareTo", { String* s = w.str(o.x); NEED(s); w.r(sgn(s->CompareTo(w.s(o.y)))); })
	OP("S.CompareTo(obj)", { String* s = w.str(o.x); NEED(s); w.r(sgn(s->CompareTo(w.obj(o.y)))); })
	OP("S.Concat(array)", { w.putS(o.x, String::Concat(w.arrT(o.y, o.t & 1 ? StringType : ObjectType))); })
	OP("S.Concat(objs)", { w.putS(o.x, String::Concat(w.obj(o.y), w.obj(o.z), w.obj(o.t), w.obj((int) ((uint64_t) o.a % 40)))); })
	OP("S.Contains", { String* s = w.str(o.x); NEED(s); w.r(s->Contains(w.s(o.y))); })
	OP("S.CopyTo", { String* s = w.str(o.x); NEED(s); Array* d = w.arrT(o.y, CharType); w.changing(d); s->CopyTo(I(o.a), d, I(o.b), I(o.c)); w.ra(d); })
	OP("S.EndsWith", { String* s = w.str(o.x); NEED(s); w.r(s->EndsWith(w.s(o.y))); })
	OP("S.EndsWith(ch)", { String* s = w.str(o.x); NEED(s); w.r(s->EndsWith(wch(o.a))); })
	OP("S.StartsWith", { String* s = w.str(o.x); NEED(s); w.r(s->StartsWith(w.s(o.y))); })
	OP("S.Equals", { String* s = w.str(o.x); NEED(s); w.r(s->Equals(w.s(o.y))); })
	OP("S.Equals(obj)", { String* s = w.str(o.x); NEED(s); w.r(s->Equals(w.obj(o.y))); })
	OP("S.Equals(static)", { w.r(String::Equals(w.s(o.x), w.s(o.y))); w.r(String::op_Inequality(w.s(o.x), w.s(o.y))); w.r(String::Equals(w.s(o.x), w.obj(o.z))); w.r(String::Equals(w.obj(o.z), w.s(o.y))); })
	OP("S.GetEnumerator", { String* s = w.str(o.x); NEED(s); w.E[o.y % NE] = s->GetEnumerator(); w.mayE |= 1u << (o.y % NE); w.r(1); })
	OP("S.IndexOf(ch)", { String* s = w.str(o.x); NEED(s); w.r(s->IndexOf(wch(o.c))); w.r(s->IndexOf(wch(o.c), I(o.a))); })
	OP("S.IndexOf(ch,range)", { String* s = w.str(o.x); NEED(s); w.r(s->IndexOf(wch(o.c), I(o.a), I(o.b))); })
	OP("S.IndexOf(str)", { String* s = w.str(o.x); NEED(s); w.r(s->IndexOf(w.s(o.y))); w.r(s->IndexOf(w.s(o.y), I(o.a))); })
	OP("S.IndexOf(str,range)", { String* s = w.str(o.x); NEED(s); w.r(s->IndexOf(w.s(o.y), I(o.a), I(o.b))); })
	OP("S.IndexOfAny", { String* s = w.str(o.x); NEED(s); Array* a = w.arrT(o.y, CharType); w.r(s->IndexOfAny(a)); w.r(s->IndexOfAny(a, I(o.a))); })
	OP("S.IndexOfAny(range)", { String* s = w.str(o.x); NEED(s); w.r(s->IndexOfAny(w.arrT(o.y, CharType), I(o.a), I(o.b))); })
	OP("S.Insert", { String* s = w.str(o.x); NEED(s); w.putS(o.y, s->Insert(I(o.a), w.s(o.z))); })
	OP("S.IsNull..", { w.r(String::IsNullOrEmpty(w.s(o.x))); w.r(String::IsNullOrWhiteSpace(w.s(o.x))); })
	OP("S.Join(ch)", { w.putS(o.x, String::Join(wch(o.c), w.arrT(o.y, o.t & 1 ? StringType : ObjectType), I(o.a), I(o.b))); })
	OP("S.Join(str)", { w.putS(o.x, String::Join(w.s(o.z), w.arrT(o.y, o.t & 1 ? StringType : ObjectType), I(o.a), I(o.b))); })
	OP("S.Join(str,all)", { w.putS(o.x, String::Join(w.s(o.z), w.arrT(o.y, o.t & 1 ? StringType : ObjectType))); })
	OP("S.LastIndexOf(ch)", { String* s = w.str(o.x); NEED(s); w.r(s->LastIndexOf(wch(o.c))); w.r(s->LastIndexOf(wch(o.c), I(o.a))); })
	OP("S.LastIndexOf(ch,range)", { String* s = w.str(o.x); NEED(s); w.r(s->LastIndexOf(wch(o.c), I(o.a), I(o.b))); })
	OP("S.LastIndexOf(str)", { String* s = w.str(o.x); NEED(s); w.r(s->LastIndexOf(w.s(o.y))); w.r(s->LastIndexOf(w.s(o.y), I(o.a))); })
	OP("S.LastIndexOf(str,range)", { String* s = w.str(o.x); NEED(s); w.r(s->LastIndexOf(w.s(o.y), I(o.a), I(o.b))); })
	OP("S.LastIndexOfAny", { String* s = w.str(o.x); NEED(s); Array* a = w.arrT(o.y, CharType); w.r(s->LastIndexOfAny(a)); w.r(s->LastIndexOfAny(a, I(o.a))); w.r(s->LastIndexOfAny(a, I(o.a), I(o.b))); })
	OP("S.PadLeft", { String* s = w.str(o.x); NEED(s); w.putS(o.y, o.t & 1 ? s->PadLeft(wsz(o.a)) : s->PadLeft(wsz(o.a), wch(o.c))); })
	OP("S.PadRight", { String* s = w.str(o.x); NEED(s); w.putS(o.y, o.t & 1 ? s->PadRight(wsz(o.a)) : s->PadRight(wsz(o.a), wch(o.c))); })
	OP("S.Remove", { String* s = w.str(o.x); NEED(s); w.putS(o.y, o.t & 1 ? s->Remove(I(o.a)) : s->Remove(I(o.a), I(o.b))); })
	OP("S.Replace(ch)", { String* s = w.str(o.x); NEED(s); w.putS(o.y, s->Replace(wch(o.a), wch(o.b))); })
	OP("S.Replace(str)", { String* s = w.str(o.x); NEED(s); w.putS(o.y, s->Replace(w.s(o.z), w.s(o.t))); })
	OP("S.Substring", { String* s = w.str(o.x); NEED(s); w.putS(o.y, o.t & 1 ? s->Substring(I(o.a)) : s->Substring(I(o.a), I(o.b))); })
	OP("S.ToCharArray", { String* s = w.str(o.x); NEED(s); w.putA(o.y, o.t & 1 ? s->ToCharArray() : s->ToCharArray(I(o.a), I(o.b))); })
	OP("S.Case", { String* s = w.str(o.x); NEED(s); w.putS(o.y, o.t % 4 == 0 ? s->ToLower() : o.t % 4 == 1 ? s->ToUpper() : o.t % 4 == 2 ? s->ToLowerInvariant() : s->ToUpperInvariant()); })
	OP("S.ToString", { String* s = w.str(o.x); NEED(s); w.putS(o.y, s->ToString()); })
	OP("S.Trim", { String* s = w.str(o.x); NEED(s); w.putS(o.y, s->Trim()); })
	OP("S.Trim(set)", { String* s = w.str(o.x); NEED(s); Array* a = w.arrT(o.z, CharType); w.putS(o.y, o.t % 3 == 0 ? s->Trim(a) : o.t % 3 == 1 ? s->TrimStart(a) : s->TrimEnd(a)); })
	OP("S.Format", { String* s = w.str(o.x); NEED(s); static Char buf[64]; Int32 n = s->FormatString(buf, 64); w.r(n); })
	// ---- enumerators
	OP("E.MoveNext", { CharEnumerator* e = w.E[o.x % NE]; NEED(e); w.mayE |= 1u << (o.x % NE); w.r(e->MoveNext()); })
	OP("E.Current", { CharEnumerator* e = w.E[o.x % NE]; NEED(e); w.r(e->get_Current()); })
	OP("E.Reset", { CharEnumerator* e = w.E[o.x % NE]; NEED(e); w.mayE |= 1u << (o.x % NE); e->Reset(); w.r(1); })
	OP("E.drain", { CharEnumerator* e = w.E[o.x % NE]; NEED(e); w.mayE |= 1u << (o.x % NE); int n = 0; while (n < 5000 && e->MoveNext()) { w.mix((uint64_t) e->get_Current()); ++n; } w.r(n); })
	OP("E.new", { String* s = w.s(o.y); CharEnumerator* e = new CharEnumerator(s); NEED(s); w.E[o.x % NE] = e; w.mayE |= 1u << (o.x % NE); w.r(2); })
	// ---- builders
	OP("B.new", { w.putB(o.x, new StringBuilder()); })
	OP("B.new(cap)", { w.putB(o.x, new StringBuilder(wsz(o.a))); })
	OP("B.new(cap,max)", { w.putB(o.x, new StringBuilder(wsz(o.a), I(o.b))); })
	OP("B.new(str)", { w.putB(o.x, o.t & 1 ? new StringBuilder(w.s(o.y)) : new StringBuilder(w.s(o.y), wsz(o.a))); })
	OP("B.new(str,range)", { w.putB(o.x, new StringBuilder(w.s(o.y), I(o.a), I(o.b), wsz(o.c))); })
	OP("B.Address", { StringBuilder* b = w.bld(o.x, false); NEED(b); Char* p = b->Address(I(o.a)); w.r(*p); })
	OP("B.Chars", { StringBuilder* b = w.bld(o.x, false); NEED(b); w.r(b->get_Chars(I(o.a))); })
	OP("B.setChars", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->set_Chars(I(o.a), wch(o.b)); w.rb(b); })
	OP("B.Capacity", { StringBuilder* b = w.bld(o.x, false); NEED(b); w.r(b->get_Capacity()); w.r(b->get_MaxCapacity()); w.r(b->get_Length()); w.r(b->IsInternal()); })
	OP("B.setCapacity", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->set_Capacity(wsz(o.a)); w.rb(b); })
	OP("B.setLength", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->set_Length(wsz(o.a)); w.rb(b); })
	OP("B.EnsureCapacity", { StringBuilder* b = w.bld(o.x, true); NEED(b); w.r(b->EnsureCapacity(wsz(o.a))); w.rb(b); })
	OP("B.Append(chars)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(w.arrT(o.y, CharType), I(o.a), I(o.b)); w.rb(b); })
	OP("B.Append(chars,all)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(w.arrT(o.y, CharType)); w.rb(b); })
	OP("B.Append(value)", {
		StringBuilder* b = w.bld(o.x, true);
		NEED(b);
		switch (o.t % 11) {
		case 0: b->Append((Boolean) ((o.a & 1) != 0)); break;
		case 1: b->Append((Byte) o.a); break;
		case 2: b->Append(wch(o.a)); break;
		case 3: b->Append((Double) o.d); break;
		case 4: b->Append((Int16) o.a); break;
		case 5: b->Append((Int32) o.a); break;
		case 6: b->Append((Int64) o.a); break;
		case 7: b->Append((SByte) o.a); break;
		case 8: b->Append((Single) o.d); break;
		case 9: b->Append((UInt16) o.a); break;
		default: b->Append((UInt64) o.a); break;
		}
		w.rb(b);
	})
	OP("B.Append(ch,n)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(wch(o.b), wsz(o.a)); w.rb(b); })
	OP("B.Append(obj)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(w.obj(o.y)); w.rb(b); })
	OP("B.Append(str)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(w.s(o.y)); w.rb(b); })
	OP("B.Append(str,range)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Append(w.s(o.y), I(o.a), I(o.b)); w.rb(b); })
	OP("B.Append(box,at)", { StringBuilder* b = w.bld(o.x, true); NEED(b); Object* v = makeBox(o.t % 14, o.a, o.d); b->Append(*(ValueType*) v, o.z & 1 ? -1 : I(o.b)); w.rb(b); })
	OP("B.AppendLine", { StringBuilder* b = w.bld(o.x, true); NEED(b); o.t & 1 ? b->AppendLine() : b->AppendLine(w.s(o.y)); w.rb(b); })
	OP("B.Clear", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Clear(); w.rb(b); })
	OP("B.Equals", { StringBuilder* b = w.bld(o.x, false); NEED(b); w.r(b->Equals(w.sb(o.y))); })
	OP("B.Insert(value)", {
		StringBuilder* b = w.bld(o.x, true);
		NEED(b);
		Int32 at = I(o.b);
		switch (o.t % 12) {
		case 0: b->Insert(at, (Boolean) ((o.a & 1) != 0)); break;
		case 1: b->Insert(at, (Byte) o.a); break;
		case 2: b->Insert(at, wch(o.a)); break;
		case 3: b->Insert(at, (Double) o.d); break;
		case 4: b->Insert(at, (Int16) o.a); break;
		case 5: b->Insert(at, (Int32) o.a); break;
		case 6: b->Insert(at, (Int64) o.a); break;
		case 7: b->Insert(at, (SByte) o.a); break;
		case 8: b->Insert(at, (Single) o.d); break;
		case 9: b->Insert(at, (UInt16) o.a); break;
		case 10: b->Insert(at, (UInt32) o.a); break;
		default: b->Insert(at, (UInt64) o.a); break;
		}
		w.rb(b);
	})
	OP("B.Insert(chars)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Insert(I(o.a), w.arrT(o.y, CharType), I(o.b), I(o.c)); w.rb(b); })
	OP("B.Insert(chars,all)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Insert(I(o.a), w.arrT(o.y, CharType)); w.rb(b); })
	OP("B.Insert(obj)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Insert(I(o.a), w.obj(o.y)); w.rb(b); })
	OP("B.Insert(str)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Insert(I(o.a), w.s(o.y), o.t & 1 ? 1 : wsz(o.b > 5 ? o.b % 5 : o.b)); w.rb(b); })
	OP("B.Remove", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Remove(I(o.a), I(o.b)); w.rb(b); })
	OP("B.Replace(ch)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Replace(wch(o.a), wch(o.b)); w.rb(b); })
	OP("B.Replace(ch,range)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Replace(wch(o.c), wch(o.t), I(o.a), I(o.b)); w.rb(b); })
	OP("B.Replace(str)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Replace(w.s(o.y), w.s(o.z)); w.rb(b); })
	OP("B.Replace(str,range)", { StringBuilder* b = w.bld(o.x, true); NEED(b); b->Replace(w.s(o.y), w.s(o.z), I(o.a), I(o.b)); w.rb(b); })
	OP("B.ToString", { StringBuilder* b = w.bld(o.x, false); NEED(b); w.putS(o.y, b->ToString()); })
	OP("B.ToString(range)", { StringBuilder* b = w.bld(o.x, false); NEED(b); w.putS(o.y, b->ToString(I(o.a), I(o.b))); })
	OP("B.Format", { StringBuilder* b = w.bld(o.x, false); NEED(b); static Char buf[64]; w.r(b->FormatString(buf, 64)); })
	OP("B.temporary", {
		StringBuilder* b = o.t & 1 ? new StringBuilder(wsz(o.a)) : new StringBuilder(w.s(o.y));
		b->Append(L'q', 140);
		b->Append(w.s(o.z));
		w.rb(b);
		delete b;
	})
	// ---- arrays
	OP("A.new", { Int32 a, b, c; setDim(w, a, b, c, o); w.putA(o.x, new Array(elemTypeOf(o.z), a, b, c)); })
	OP("A.new(chars)", { w.putA(o.x, new Array(CharType, wsz(o.a))); })
	OP("A.new(objs)", { w.putA(o.x, new Array(o.t & 1 ? StringType : ObjectType, wsz(o.a) % 12)); })
	OP("A.new(bytes)", { w.putA(o.x, new Array(ByteType, wsz(o.a))); })
	OP("A.new(idx)", { Array* a = new Array(Int32Type, 1 + o.t % 3); for (int k = 0; k <= o.t % 3; ++k) *(Int32*) a->Address(k) = I(k == 0 ? o.a : k == 1 ? o.b : o.c); w.putA(o.x, a); })
	OP("A.wrap", { int k = o.x & 1; Array* a = new Array(w.raw[k], (DataType) (6 + o.t % 8), 1 + o.y % 64); NEED(!w.rawOwner[k]); w.rawOwner[k] = a; w.putA(2 + k, a); if (w.A[2 + k] != a) w.rawOwner[k] = nullptr; })
	OP("A.Length", { Array* a = w.ary(o.x, false); NEED(a); w.r(a->get_Length()); w.r(a->get_Rank()); w.r(a->GetElementType()); w.r(a->GetRawDataType()); })
	OP("A.Address", { Array* a = w.ary(o.x, false); NEED(a); Int32 i, j, k; setIdx(a, o, i, j, k); unsigned char* p = (unsigned char*) a->Address(i, j, k); Int32 n = DataTypeSize[a->GetElementType()]; bool objs = a->GetElementType() == ObjectType || a->GetElementType() == StringType; uint64_t s = 0; for (Int32 q = 0; q < n; ++q) s += p[q]; w.r(objs ? 1 : (int64_t) s); })
	OP("A.Clear", { Array* a = w.arr(o.x); w.changing(a); Array::Clear(a, I(o.a), I(o.b)); w.ra(a); })
	OP("A.Copy(n)", { Array *a = w.arr(o.x), *b = o.t & 1 && a ? w.arrT(o.y, a->GetElementType()) : w.arr(o.y); w.changing(b); Array::Copy(a, b, I(o.a)); w.ra(b); })
	OP("A.Copy(range)", { Array *a = w.arr(o.x), *b = o.t & 1 && a ? w.arrT(o.y, a->GetElementType()) : w.arr(o.y); w.changing(b); o.t & 2 ? Array::Copy(a, I(o.a), b, I(o.b), I(o.c)) : Array::ConstrainedCopy(a, I(o.a), b, I(o.b), I(o.c)); w.ra(b); })
	OP("A.CopyTo", { Array* a = w.ary(o.x, false); NEED(a); Array* b = o.t & 1 ? w.arrT(o.y, a->GetElementType()) : w.arr(o.y); w.changing(b); a->CopyTo(b, I(o.a)); w.ra(b); })
	OP("A.EnsureSingle", { Array* a = w.ary(o.x, false); NEED(a); a->EnsureSingleDimension(); w.r(1); })
	OP("A.GetLength", { Array* a = w.ary(o.x, false); NEED(a); w.r(a->GetLength(I(o.a))); })
	OP("A.Bounds", { Array* a = w.ary(o.x, false); NEED(a); w.r(a->GetLowerBound(I(o.a))); w.r(a->GetUpperBound(I(o.a))); })
	OP("A.GetValue", { Array* a = w.ary(o.x, false); NEED(a); Int32 i, j, k; setIdx(a, o, i, j, k); w.putO(o.y, a->GetValue(i, j, k)); })
	OP("A.GetValue(idx)", { Array* a = w.ary(o.x, false); NEED(a); w.putO(o.y, a->GetValue(o.t & 1 ? w.arrT(o.z, Int32Type) : w.arr(o.z))); })
	OP("A.IndexOf", { Array* a = o.t & 1 ? w.arrT(o.x, ObjectType) : w.arr(o.x); w.r(Array::IndexOf(a, w.obj(o.y))); w.r(Array::IndexOf(a, w.obj(o.y), I(o.a))); })
	OP("A.IndexOf(range)", { w.r(Array::IndexOf(w.arrT(o.x, o.t & 1 ? StringType : ObjectType), w.obj(o.y), I(o.a), I(o.b))); })
	OP("A.Initialize", {
		Array* a = w.ary(o.x, true);
		NEED(a);
		bool objs = a->GetElementType() == ObjectType || a->GetElementType() == StringType;
		NEED(!objs && a->get_Length() <= 300 && a->GetElementType() != BooleanType);
		static unsigned char init[300 * 8];
		for (int k = 0; k < 300 * 8; ++k)
			init[k] = (unsigned char) (k * 7 + o.a);
		if (a->GetElementType() == CharType)
			for (int k = 0; k < 300; ++k)
				((Char*) init)[k] = wch((uint64_t) (o.a + k) % 12);
		a->Initialize(init);
		w.ra(a);
	})
	OP("A.SetValue", { Array* a = w.ary(o.x, true); NEED(a); Int32 i, j, k; setIdx(a, o, i, j, k); a->SetValue(w.obj(o.y), i, j, k); w.ra(a); })
	OP("A.SetValue(box)", { Array* a = w.ary(o.x, true); NEED(a); Int32 i, j, k; setIdx(a, o, i, j, k); a->SetValue(makeBox(o.z & 1 ? a->GetElementType() - (a->GetElementType() > DecimalType ? 3 : 2) + 15 : o.z, o.b, o.d), i, j, k); w.ra(a); })
	OP("A.SetValue(str)", { Array* a = w.aryT(o.x, o.t & 1 ? StringType : ObjectType, true); NEED(a); a->SetValue((Object*) w.s(o.y), I(o.a)); w.ra(a); })
	OP("A.SetValue(idx)", { Array* a = w.ary(o.x, true); NEED(a); a->SetValue(w.obj(o.y), o.t & 1 ? w.arrT(o.z, Int32Type) : w.arr(o.z)); w.ra(a); })
	OP("A.temporary", { Array* a = new Array((DataType) (2 + o.t % 12), wsz(o.a)); w.ra(a); delete a; })
	// ---- buffers and bit conversion
	OP("Buf.BlockCopy", { Array *a = w.arr(o.x), *b = w.arr(o.y); w.changing(b); bool objs = a && b && ((a->GetElementType() == ObjectType || a->GetElementType() == StringType) || (b->GetElementType() == ObjectType || b->GetElementType() == StringType)); (void) objs; Buffer::BlockCopy(a, I(o.a), b, I(o.b), I(o.c)); if (objs) w.bad = "BlockCopy accepted an array of references"; w.ra(b); })
	OP("Buf.ByteLength", { w.r(Buffer::ByteLength(w.arr(o.x))); })
	OP("Buf.GetByte", { w.r(Buffer::GetByte(w.arr(o.x), I(o.a))); })
	OP("Buf.SetByte", { Array* a = w.arr(o.x); bool objs = a && (a->GetElementType() == ObjectType || a->GetElementType() == StringType); w.changing(a); bool boolean = a && a->GetElementType() == BooleanType; Buffer::SetByte(a, I(o.a), (Byte) (boolean ? o.b & 1 : o.b)); if (objs) w.bad = "SetByte accepted an array of references"; w.ra(a); })
	OP("Bit.GetBytes", {
		Array* a;
		switch (o.t % 10) {
		case 0: a = BitConverter::GetBytes((Boolean) ((o.a & 1) != 0)); break;
		case 1: a = BitConverter::GetBytes(wch(o.a)); break;
		case 2: a = BitConverter::GetBytes((Double) o.d); break;
		case 3: a = BitConverter::GetBytes((Int16) o.a); break;
		case 4: a = BitConverter::GetBytes((Int32) o.a); break;
		case 5: a = BitConverter::GetBytes((Int64) o.a); break;
		case 6: a = BitConverter::GetBytes((Single) o.d); break;
		case 7: a = BitConverter::GetBytes((UInt16) o.a); break;
		case 8: a = BitConverter::GetBytes((UInt32) o.a); break;
		default: a = BitConverter::GetBytes((UInt64) o.a); break;
		}
		w.putA(o.x, a);
	})
	OP("Bit.To", {
		Array* a = o.z & 3 ? w.arrT(o.x, ByteType) : w.arr(o.x);
		NEED(!refs(a));
		switch (o.t % 10) {
		case 0: w.r(BitConverter::ToBoolean(a, I(o.a)) ? 1 : 0); break;
		case 1: w.r(BitConverter::ToChar(a, I(o.a))); break;
		case 2: w.rd(BitConverter::ToDouble(a, I(o.a))); break;
		case 3: w.r(BitConverter::ToInt16(a, I(o.a))); break;
		case 4: w.r(BitConverter::ToInt32(a, I(o.a))); break;
		case 5: w.r(BitConverter::ToInt64(a, I(o.a))); break;
		case 6: w.rd(BitConverter::ToSingle(a, I(o.a))); break;
		case 7: w.r(BitConverter::ToUInt16(a, I(o.a))); break;
		case 8: w.r(BitConverter::ToUInt32(a, I(o.a))); break;
		default: w.r((int64_t) BitConverter::ToUInt64(a, I(o.a))); break;
		}
	})
	OP("Bit.ToString", { Array* a = o.z & 3 ? w.arrT(o.y, ByteType) : w.arr(o.y); NEED(!refs(a)); w.putS(o.x, o.t & 1 ? BitConverter::ToString(a) : BitConverter::ToString(a, I(o.a), I(o.b))); })
	OP("Bit.words", { w.r(BitConverter::DoubleToInt64Bits(o.d) == 0); w.rd(BitConverter::Int64BitsToDouble(o.a)); })
	// ---- boxes
	OP("O.new", { w.putO(o.x, makeBox(o.t, o.a, o.d)); })
	OP("O.As", {
		Object* v = w.obj(o.x);
		NEED(v);
		DataType t = v->GetRawDataType();
		bool flo = t == DoubleType || t == SingleType;      // out-of-range float to integer is unspecified
		switch (o.t % 14) {
		case 0: w.r(v->get_AsBoolean() ? 1 : 0); break;
		case 1: w.r(v->get_AsChar()); break;
		case 2: w.r(flo ? (v->get_AsByte(), 0) : v->get_AsByte()); break;
		case 3: w.r(flo ? (v->get_AsSByte(), 0) : v->get_AsSByte()); break;
		case 4: w.r(flo ? (v->get_AsInt16(), 0) : v->get_AsInt16()); break;
		case 5: w.r(flo ? (v->get_AsUInt16(), 0) : v->get_AsUInt16()); break;
		case 6: w.r(flo ? (v->get_AsInt32(), 0) : v->get_AsInt32()); break;
		case 7: w.r(flo ? (v->get_AsUInt32(), 0) : (int64_t) v->get_AsUInt32()); break;
		case 8: w.r(flo ? (v->get_AsInt64(), 0) : v->get_AsInt64()); break;
		case 9: w.r(flo ? (v->get_AsUInt64(), 0) : (int64_t) v->get_AsUInt64()); break;
		case 10: w.rd(v->get_AsSingle()); break;
		case 11: w.rd(v->get_AsDouble()); break;
		case 12: w.r((int64_t) v->get_AsDateTime().value); break;
		default: w.r(v->get_AsTimeSpan().value); break;
		}
	})
	OP("O.CompareTo", { Object* v = w.box(o.x); NEED(v); w.r(sgn(boxCompare(v, w.obj(o.y)))); })
	OP("O.CompareTo(like)", { Object* v = w.box(o.x); NEED(v); w.r(sgn(boxCompare(v, makeBox((int) v->GetRawDataType() - 2 + 15, o.a, o.d)))); })
	OP("O.Equals", { Object* v = w.box(o.x); NEED(v); Object* p = w.obj(o.y); w.r(v->Equals(p)); w.r(Object::Equals(w.obj(o.z), p)); })
	OP("O.ToString", { Object* v = w.box(o.x); NEED(v); for (auto e : w.A) if (v == e) return; for (auto e : w.B) if (v == e) return; w.putS(o.y, v->ToString()); })
	OP("O.Format", { Object* v = w.box(o.x); NEED(v); for (auto e : w.B) if (v == e) return; static Char buf[80]; w.r(v->FormatString(buf, 80)); })
	OP("O.Parse", {
		String* s = w.s(o.x);
		Object* r = nullptr;
		switch (o.t % 14) {
		case 0: r = new BooleanValue(BooleanValue::Parse(s)); break;
		case 1: r = new CharValue(CharValue::Parse(s)); break;
		case 2: r = new SByteValue(SByteValue::Parse(s)); break;
		case 3: r = new ByteValue(ByteValue::Parse(s)); break;
		case 4: r = new Int16Value(Int16Value::Parse(s)); break;
		case 5: r = new UInt16Value(UInt16Value::Parse(s)); break;
		case 6: r = new Int32Value(Int32Value::Parse(s)); break;
		case 7: r = new UInt32Value(UInt32Value::Parse(s)); break;
		case 8: r = new Int64Value(Int64Value::Parse(s)); break;
		case 9: r = new UInt64Value(UInt64Value::Parse(s)); break;
		case 10: r = new SingleValue(SingleValue::Parse(s)); break;
		case 11: r = new DoubleValue(DoubleValue::Parse(s)); break;
		default: r = new TimeSpanValue(TimeSpanValue::Parse(s)); break;
		}
		w.putO(o.y, r);
	})
	OP("O.TryParse", {
		String* s = w.s(o.x);
		switch (o.t % 12) {
		case 0: { Char v = 1; w.r(CharValue::TryParse(s, v)); w.r(v); break; }
		case 1: { SByte v = 1; w.r(SByteValue::TryParse(s, v)); w.r(v); break; }
		case 2: { Byte v = 1; w.r(ByteValue::TryParse(s, v)); w.r(v); break; }
		case 3: { Int16 v = 1; w.r(Int16Value::TryParse(s, v)); w.r(v); break; }
		case 4: { UInt16 v = 1; w.r(UInt16Value::TryParse(s, v)); w.r(v); break; }
		case 5: { Int32 v = 1; w.r(Int32Value::TryParse(s, v)); w.r(v); break; }
		case 6: { UInt32 v = 1; w.r(UInt32Value::TryParse(s, v)); w.r(v); break; }
		case 7: { Int64 v = 1; w.r(Int64Value::TryParse(s, v)); w.r(v); break; }
		case 8: { UInt64 v = 1; w.r(UInt64Value::TryParse(s, v)); w.r((int64_t) v); break; }
		case 9: { Single v = 1; w.r(SingleValue::TryParse(s, v)); w.rd(v); break; }
		case 10: { Double v = 1; w.r(DoubleValue::TryParse(s, v)); w.rd(v); break; }
		default: { TimeSpan v; w.r(TimeSpanValue::TryParse(s, v)); w.r(v.value); break; }
		}
	})
	OP("C.at", {
		String* s = w.s(o.x);
		switch (o.t % 11) {
		case 6: w.r(CharValue::IsControl(s, I(o.a))); break;
		case 7: w.r(CharValue::IsLetterOrDigit(s, I(o.a))); break;
		case 8: w.r(CharValue::IsLower(s, I(o.a))); break;
		case 9: w.r(CharValue::IsNumber(s, I(o.a))); break;
		case 10: w.r(CharValue::IsSeparator(s, I(o.a))); break;
		case 0: w.r(CharValue::IsDigit(s, I(o.a))); break;
		case 1: w.r(CharValue::IsLetter(s, I(o.a))); break;
		case 2: w.r(CharValue::IsWhiteSpace(s, I(o.a))); break;
		case 3: w.rd(CharValue::GetNumericValue(s, I(o.a))); break;
		case 4: w.r(CharValue::IsPunctuation(s, I(o.a))); break;
		default: w.r(CharValue::IsUpper(s, I(o.a))); break;
		}
	})
	OP("C.one", {
		Char ch = (Char) (o.t & 1 ? 'a' + (uint64_t) o.a % 3 : o.t & 2 ? (uint64_t) o.a & 127 : (uint64_t) o.a & 0xffff);
		int64_t bits = CharValue::IsControl(ch);
		bits = bits * 2 + (CharValue::IsDigit(ch) != 0);
		bits = bits * 2 + (CharValue::IsLetter(ch) != 0);
		bits = bits * 2 + (CharValue::IsLetterOrDigit(ch) != 0);
		bits = bits * 2 + (CharValue::IsLower(ch) != 0);
		bits = bits * 2 + (CharValue::IsUpper(ch) != 0);
		bits = bits * 2 + (CharValue::IsNumber(ch) != 0);
		bits = bits * 2 + (CharValue::IsPunctuation(ch) != 0);
		bits = bits * 2 + (CharValue::IsSeparator(ch) != 0);
		bits = bits * 2 + (CharValue::IsWhiteSpace(ch) != 0);
		w.r(bits);
		w.r(CharValue::ToLower(ch));
		w.r(CharValue::ToUpper(ch));
		w.rd(CharValue::GetNumericValue(ch));
		if (o.t & 4)
			w.putS(o.x, CharValue::ToString(ch));
	})
	// ---- dates and spans
	OP("D.new", { w.D[o.x % ND] = DateTime((UInt64) o.a % 3155378976000000000ull); w.r((int64_t) w.D[o.x % ND].value); })
	OP("D.new(ymd)", { DateTime d(I(o.t & 1 ? (uint64_t) o.a % 9999 + 1 : o.a), I(o.t & 2 ? (uint64_t) o.b % 12 + 1 : o.b), I(o.t & 4 ? (uint64_t) o.c % 28 + 1 : o.c), o.y % 26, o.z % 62, o.x % 62); w.D[o.x % ND] = d; w.r((int64_t) d.value); })
	OP("D.parts", { DateTimeValue d(w.D[o.x % ND]); w.r(d.get_Year()); w.r(d.get_Month()); w.r(d.get_Day()); w.r(d.get_DayOfYear()); w.r(d.get_DayOfWeek()); w.r(d.get_Hour()); w.r(d.get_Minute()); w.r(d.get_Second()); w.r(d.get_Millisecond()); w.r((int64_t) d.get_Date().value); w.r(d.get_TimeOfDay().value); })
	OP("D.Add", {
		DateTimeValue d(w.D[o.x % ND]);
		DateTime r;
		switch (o.t % 9) {
		case 0: r = d.AddDays(o.d); break;
		case 1: r = d.AddHours(o.d); break;
		case 2: r = d.AddMinutes(o.d); break;
		case 3: r = d.AddSeconds(o.d); break;
		case 4: r = d.AddMilliseconds(o.d); break;
		case 5: r = d.AddMonths(I(o.a)); break;
		case 6: r = d.AddYears(I(o.a)); break;
		case 7: r = d.AddTicks(o.a); break;
		default: r = d.Add(w.T[o.y % ND]); break;
		}
		w.D[o.z % ND] = r;
		w.r((int64_t) r.value);
	})
	OP("D.Subtract", { DateTimeValue d(w.D[o.x % ND]); if (o.t & 1) { w.T[o.z % ND] = d.Subtract(w.D[o.y % ND]); w.r(w.T[o.z % ND].value); } else { w.D[o.z % ND] = d.Subtract(w.T[o.y % ND]); w.r((int64_t) w.D[o.z % ND].value); } })
	OP("D.Compare", { DateTimeValue d(w.D[o.x % ND]); w.r(d.CompareTo(w.D[o.y % ND])); w.r(DateTimeValue::Compare(w.D[o.x % ND], w.D[o.y % ND])); w.r(d.Equals(w.D[o.y % ND])); w.r(d.Equals(w.obj(o.z))); w.r(d.CompareTo(w.obj(o.z))); })
	OP("D.static", { w.r(DateTimeValue::IsLeapYear(I(o.a))); })
	OP("D.DaysInMonth", { w.r(DateTimeValue::DaysInMonth(I(o.a), I(o.b))); })
	OP("D.ToString", { w.putS(o.y, (new DateTimeValue(w.D[o.x % ND]))->ToString()); })
	OP("D.zone", { DateTimeValue d(w.D[o.x % ND]); w.r((int64_t) (o.t & 1 ? d.ToLocalTime() : d.ToUniversalTime()).value); w.r(d.IsDaylightSavingTime()); })
	OP("D.box", { w.putO(o.y, new DateTimeValue(w.D[o.x % ND])); })
	OP("D.ops", {
		DateTime d = w.D[o.x % ND], e = w.D[o.y % ND];
		TimeSpan t = w.T[o.z % ND];
		switch (o.t % 4) {
		case 0: w.D[o.y % ND] = DateTimeValue::op_Addition(d, t); w.r((int64_t) w.D[o.y % ND].value); break;
		case 1: w.D[o.y % ND] = DateTimeValue::op_Subtraction(d, t); w.r((int64_t) w.D[o.y % ND].value); break;
		case 2: w.T[o.z % ND] = DateTimeValue::op_Subtraction(d, e); w.r(w.T[o.z % ND].value); break;
		default: w.r(DateTimeValue::op_Equality(d, e)); w.r(DateTimeValue::op_Inequality(d, e)); w.r(DateTimeValue::op_GreaterThan(d, e)); w.r(DateTimeValue::op_GreaterThanOrEqual(d, e)); w.r(DateTimeValue::op_LessThan(d, e)); w.r(DateTimeValue::op_LessThanOrEqual(d, e)); break;
		}
	})
	OP("T.new", { w.T[o.x % ND] = TimeSpan((Int64) o.a); w.r(o.a); })
	OP("T.new(dhms)", { TimeSpan t(I(o.a), I(o.b), I(o.c), o.y, o.z); w.T[o.x % ND] = t; w.r(t.value); })
	OP("T.parts", { TimeSpanValue t(w.T[o.x % ND]); w.r(t.get_Days()); w.r(t.get_Hours()); w.r(t.get_Minutes()); w.r(t.get_Seconds()); w.r(t.get_Milliseconds()); w.r(t.get_Ticks()); w.rd(t.get_TotalDays()); w.rd(t.get_TotalMilliseconds()); })
	OP("T.arith", {
		TimeSpanValue t(w.T[o.x % ND]);
		TimeSpan r;
		switch (o.t % 7) {
		case 0: r = t.Add(w.T[o.y % ND]); break;
		case 1: r = t.Subtract(w.T[o.y % ND]); break;
		case 2: r = t.Negate(); break;
		case 3: r = t.Duration(); break;
		case 4: r = t.Multiply(o.d); break;
		case 5: r = t.Divide(o.d); break;
		default: w.rd(t.Divide(w.T[o.y % ND])); return;
		}
		w.T[o.z % ND] = r;
		w.r(r.value);
	})
	OP("T.ops", {
		TimeSpan t = w.T[o.x % ND], u = w.T[o.y % ND];
		TimeSpan v;
		switch (o.t % 9) {
		case 0: v = TimeSpanValue::op_Addition(t, u); break;
		case 1: v = TimeSpanValue::op_Subtraction(t, u); break;
		case 2: v = TimeSpanValue::op_Multiply(t, o.d); break;
		case 3: v = TimeSpanValue::op_Multiply(o.d, t); break;
		case 4: v = TimeSpanValue::op_Division(t, o.d); break;
		case 5: v = TimeSpanValue::op_UnaryNegation(t); break;
		case 6: v = TimeSpanValue::op_UnaryPlus(t); break;
		case 7: v = TimeSpanValue::FromTicks(o.a); break;
		default:
			w.rd(TimeSpanValue::op_Division(t, u));
			w.r(TimeSpanValue::op_Equality(t, u)); w.r(TimeSpanValue::op_Inequality(t, u)); w.r(TimeSpanValue::op_GreaterThan(t, u)); w.r(TimeSpanValue::op_GreaterThanOrEqual(t, u)); w.r(TimeSpanValue::op_LessThan(t, u)); w.r(TimeSpanValue::op_LessThanOrEqual(t, u));
			w.rd(TimeSpanValue(t).get_TotalHours()); w.rd(TimeSpanValue(t).get_TotalMinutes()); w.rd(TimeSpanValue(t).get_TotalSeconds());
			return;
		}
		w.T[o.z % ND] = v;
		w.r(v.value);
	})
	OP("T.From", { TimeSpan r; switch (o.t % 5) { case 0: r = TimeSpanValue::FromDays(o.d); break; case 1: r = TimeSpanValue::FromHours(o.d); break; case 2: r = TimeSpanValue::FromMinutes(o.d); break; case 3: r = TimeSpanValue::FromSeconds(o.d); break; default: r = TimeSpanValue::FromMilliseconds(o.d); } w.T[o.x % ND] = r; w.r(r.value); })
	OP("T.Compare", { TimeSpanValue t(w.T[o.x % ND]); w.r(t.CompareTo(w.T[o.y % ND])); w.r(t.Equals(w.obj(o.z))); w.r(t.CompareTo(w.obj(o.z))); })
	OP("T.ToString", { w.putS(o.y, (new TimeSpanValue(w.T[o.x % ND]))->ToString()); })
	OP("T.Parse", { w.T[o.x % ND] = TimeSpanValue::Parse(w.s(o.y)); w.r(w.T[o.x % ND].value); })
	OP("T.box", { w.putO(o.y, new TimeSpanValue(w.T[o.x % ND])); })
	// ---- math
	OP("M.int", {
		switch (o.t % 8) {
		case 0: w.r(Math::Abs((Int32) o.a)); break;
		case 1: w.r(Math::Abs((Int64) o.a)); break;
		case 2: { Int32 q; w.r(Math::DivRem((Int32) o.a, (Int32) o.b, q)); w.r(q); break; }
		case 3: { Int64 q; w.r(Math::DivRem((Int64) o.a, (Int64) o.b, q)); w.r(q); break; }
		case 4: w.r(Math::Divide((Int64) o.a, (Int64) o.b)); break;
		case 5: w.r(Math::Clamp((Int32) o.a, (Int32) o.b, (Int32) o.c)); break;
		case 6: w.r(Math::BigMul((Int32) o.a, (Int32) o.b)); break;
		default: w.r(Math::Abs((SByte) o.a)); w.r(Math::Abs((Int16) o.b)); break;
		}
	})
	OP("M.more", {
		double e = (double) o.a;
		float f = (float) o.d;
		switch (o.t % 10) {
		case 0: w.rd(Math::Max(o.d, e)); w.rd(Math::Min(o.d, e)); w.rd(Math::MaxMagnitude(o.d, e)); w.rd(Math::MinMagnitude(o.d, e)); break;
		case 1: w.rd(Math::IEEERemainder(o.d, e)); w.rd(DoubleValue::Modulus(o.d, e)); w.rd(SingleValue::Modulus(f, (float) e)); break;
		case 2: w.rd(Math::Log(o.d)); w.rd(Math::Log(o.d, e)); w.rd(Math::Log10(o.d)); w.rd(Math::Log2(o.d)); w.rd(Math::Exp(o.d)); break;
		case 3: w.rd(Math::Pow(o.d, e)); w.rd(Math::Sqrt(o.d)); w.rd(Math::Cbrt(o.d)); break;
		case 4: w.rd(Math::Sin(o.d)); w.rd(Math::Cos(o.d)); w.rd(Math::Tan(o.d)); w.rd(Math::Atan2(o.d, e)); break;
		case 5: w.rd(Math::Acos(o.d)); w.rd(Math::Asin(o.d)); w.rd(Math::Atan(o.d)); w.rd(Math::Sinh(o.d)); w.rd(Math::Cosh(o.d)); w.rd(Math::Tanh(o.d)); break;
		case 6: w.rd(Math::Acosh(o.d)); w.rd(Math::Asinh(o.d)); w.rd(Math::Atanh(o.d)); break;
		case 7: w.rd(Math::FusedMultiplyAdd(o.d, e, (double) o.b)); w.rd(Math::CopySign(o.d == o.d ? o.d : 1, e)); break;
		case 8: w.r(DoubleValue::IsFinite(o.d)); w.r(DoubleValue::IsInfinity(o.d)); w.r(DoubleValue::IsNaN(o.d)); w.r(DoubleValue::IsNegative(o.d)); w.r(DoubleValue::IsNegativeInfinity(o.d)); w.r(DoubleValue::IsPositiveInfinity(o.d)); w.r(DoubleValue::IsNormal(o.d)); w.r(DoubleValue::IsSubnormal(o.d)); break;
		default: w.r(SingleValue::IsFinite(f)); w.r(SingleValue::IsInfinity(f)); w.r(SingleValue::IsNaN(f)); w.r(SingleValue::IsNegative(f)); w.r(SingleValue::IsNegativeInfinity(f)); w.r(SingleValue::IsPositiveInfinity(f)); w.r(SingleValue::IsNormal(f)); w.r(SingleValue::IsSubnormal(f)); break;
		}
	})
	OP("M.double", {
		switch (o.t % 8) {
		case 0: w.rd(Math::Round(o.d)); break;
		case 1: w.rd(Math::Round(o.d, I(o.a))); break;
		case 2: w.rd(Math::Round(o.d, I(o.a), (MidpointRounding) (o.b % 7))); break;
		case 3: w.r(Math::Sign(o.d)); break;
		case 4: w.r(Math::ILogB(o.d)); break;
		case 5: w.rd(Math::ScaleB(o.d, I(o.a))); break;
		case 6: w.rd(Math::BitIncrement(o.d)); w.rd(Math::BitDecrement(o.d)); break;
		default: w.rd(Math::Truncate(o.d)); w.rd(Math::Floor(o.d)); w.rd(Math::Ceiling(o.d)); break;
		}
	})
	OP("X.custom", { Exception* e = new Exception(w.s(o.x), o.t & 1 ? new Exception() : nullptr); w.rs(e->get_Message()); w.r(e->get_InnerException() != nullptr); w.r(e->GetBaseException() != nullptr); })
};
enum { NOPS = sizeof worldOps / sizeof worldOps[0] };
#undef OP

// Index-like arguments: mostly small, around the usual lengths, sometimes extreme.
inline int64_t genArg(Case& c) {
	switch (c.weighted({10, 5, 2, 1, 2})) {
	case 0:
		return (int64_t) c.draw(6);
	case 1:
		return (int64_t) c.draw(40);
	case 2:
		return -1 - (int64_t) c.draw(3);
	case 3:
		return c.edge(INT32_MIN, INT32_MAX);
	default:
		return (int64_t) c.bits64();
	}
}
inline WOp genWOp(Case& c) {
	WOp o;
	memset(&o, 0, sizeof o);
	o.code = (uint16_t) c.draw(NOPS);
	o.x = (uint8_t) c.draw(16);
	o.y = (uint8_t) c.draw(64);
	o.z = (uint8_t) c.draw(64);
	o.t = (uint8_t) c.draw(60);
	o.a = genArg(c);
	o.b = genArg(c);
	o.c = genArg(c);
	const char* n = worldOps[o.code].name;
	if (n[0] == 'D' || n[0] == 'T' || n[0] == 'O' || n[0] == 'M' || !strncmp(n, "Bit", 3) || strstr(n, "value") || strstr(n, "box")) {
		switch (c.draw(4)) {
		case 0:
			o.d = (double) o.b / 4;
			break;
		case 1:
			o.d = (double) (int64_t) c.bits64();
			break;
		case 2: {
			uint64_t u = c.bits64();
			memcpy(&o.d, &u, 8);
			break;
		}
		default: {
			static const double sp[] = {0, -0.0, 0.5, 1.5, INFINITY, -INFINITY, NAN, 1e18, 1e-18, 1e300, 2147483648.0, -1.25};
			o.d = sp[c.draw(12)];
		}
		}
	}
	return o;
}
// A pool with something in it: a few fixed creations first, so that most operations have a target.
inline int genPlan(Case& c, WOp* plan, int maxOps) {
	int n = 0;
	auto byName = [](const char* nm) {
		for (int i = 0; i < NOPS; ++i)
			if (!strcmp(worldOps[i].name, nm))
				return i;
		return 0;
	};
	static const int start[] = {byName("S.literal"), byName("S.literal"), byName("B.new(str)"), byName("A.new(chars)"), byName("A.new(objs)"), byName("A.new(bytes)"), byName("O.new"), byName("A.new"), byName("S.new(char,n)"), byName("A.new(idx)")};
	int pre = (int) c.draw(11);
	for (int i = 0; i < pre; ++i) {
		WOp o = genWOp(c);
		o.code = (uint16_t) start[i];
		o.x = (uint8_t) i;
		if (o.a < 0)
			o.a = -(o.a + 1);
		plan[n++] = o;
	}
	int m = (int) c.size((size_t) (maxOps - pre));
	for (int i = 0; i < m; ++i)
		plan[n++] = genWOp(c);
	return n;
}
inline void noteOp(Case& c, int i, const WOp& o) {
	c.note("%d: %s x=%d y=%d z=%d t=%d a=%lld b=%lld c=%lld d=%.17g", i, worldOps[o.code].name, o.x, o.y, o.z, o.t, (long long) o.a, (long long) o.b, (long long) o.c, o.d);
}
