#pragma once
#include "lib.h"
// Objects and errors of a program's own: classes derived from the library's, called back by the library.
namespace user {
struct Thing : Object {
	enum How { Text, Format, Plain, Nested, Raise };
	How how = Text;
	int key = 0;                                  // what makes two of them equal
	String* text = nullptr;                       // Text: the answer; Nested: joins the parts
	WS form;                                      // Format: what it writes, at most 127 characters
	Array* parts = nullptr;                       // Nested
	int by = 0;                                   // Nested: which call of the library makes the text
	std::function<void()> first;                  // runs before anything else
	String* ToString() override {
		if (first)
			first();
		switch (how) {
		case Text:
			return text;
		case Nested:
			switch (by) {
			case 0:
				return String::Join(text, parts);
			case 1: {
				StringBuilder b;
				for (Int32 i = 0; i < parts->get_Length(); ++i) {
					if (i)
						b.Append(text);
					b.Append(*(Object**) parts->Address(i));
				}
				return b.ToString();
			}
			case 2: {
				String* r = new String(L"", 0, 0);
				for (Int32 i = 0; i < parts->get_Length(); ++i)
					r = String::Concat(r, i ? text : nullptr, *(Object**) parts->Address(i));
				return r;
			}
			case 4:
			case 5: {
				std::vector<Object*> all;
				for (Int32 i = 0; i < parts->get_Length(); ++i) {
					if (i)
						all.push_back(text);
					all.push_back(*(Object**) parts->Address(i));
				}
				return by == 4 ? String::Concat(mkObjs(all)) : String::Join((String*) nullptr, mkObjs(all));
			}
			case 6:
				return text->get_Length() == 1 ? String::Join(text->get_Chars(0), parts) : String::Join(text, parts, 0, parts->get_Length());
			default: {
				StringBuilder b;
				for (Int32 i = parts->get_Length(); i-- > 0;) {
					b.Insert(0, *(Object**) parts->Address(i));
					if (i)
						b.Insert(0, text);
				}
				return b.ToString();
			}
			}
		default:
			return Object::ToString();
		}
	}
	Int32 FormatString(Char* where, const Int32 size) override {
		if (how != Format)
			return Object::FormatString(where, size);
		for (size_t i = 0; i < form.size() && (Int32) i < size; ++i)
			where[i] = form[i];
		return (Int32) form.size();
	}
	Boolean Equals(Object* other) override {
		if (first)
			first();
		Thing* t = dynamic_cast<Thing*>(other);
		return t && t->key == key;
	}
};
inline Object* leaf(Case& c, WS& text) {
	Thing* t = new Thing();
	t->key = (int) c.draw(3);
	switch (c.weighted({3, 3, 1})) {
	case 0:
		t->how = Thing::Text;
		text = genStr(c, 6);
		if (c.chance(1, 6))
			text += WS((size_t) c.range(120, 400), genChar(c));
		t->text = mk(text);
		break;
	case 1:
		t->how = Thing::Format;
		text = genStr(c, 6);
		if (c.chance(1, 6))
			text = WS((size_t) c.range(100, 127), genChar(c));
		if (text.size() > 127)
			text.resize(127);
		t->form = text;
		break;
	default:
		t->how = Thing::Plain;
		text = L"Object";
	}
	return t;
}
// An object of the program's own and its text; Nested ones call the library while they are asked for it.
inline Object* thing(Case& c, WS& text, int depth = 0) {
	if (depth >= 3 || !c.chance(2, 5))
		return leaf(c, text);
	Thing* t = new Thing();
	t->key = (int) c.draw(3);
	t->how = Thing::Nested;
	t->by = (int) c.draw(8);
	WS sep = genStr(c, 2);
	t->text = mk(sep);
	std::vector<Object*> o;
	size_t n = (size_t) c.draw(4);
	text.clear();
	for (size_t i = 0; i < n; ++i) {
		WS w;
		if (c.coin()) {
			w = genStr(c, 4);
			o.push_back(mk(w));
		} else
			o.push_back(thing(c, w, depth + 1));
		if (i)
			text += sep;
		text += w;
	}
	t->parts = mkObjs(o);
	return t;
}
}
