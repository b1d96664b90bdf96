// Model of the parts of pugixml that the importer, the exporter and changes to them may use: the document tree is kept as a tree
// of strings, saving copies it into a table of files, loading copies it back. Text-level effects that matter are kept: escaping can be
// switched off by the flags, strings end at the first zero character, nodes die with their document.
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <pugixml.hpp>
#include <string>
#include <vector>
namespace pugi
{
struct xml_attribute_struct { std::string name, value; xml_node_struct *owner = nullptr; };
struct xml_node_struct
{
	xml_node_type type = node_element;
	std::string name, value;
	xml_node_struct *parent = nullptr;
	std::vector<xml_attribute_struct *> attrs;
	std::vector<xml_node_struct *> kids;
	~xml_node_struct()
	{
		for (auto *a : attrs) delete a;
		for (auto *k : kids) delete k;
	}
};
}
using namespace pugi;
using std::string;
typedef xml_node_struct N;
typedef xml_attribute_struct At;
namespace
{
struct File { N *tree; unsigned flags; };
std::map<string, File> &files() { static std::map<string, File> f; return f; }
bool special(const string &s)
{
	for (char c : s) if (c == '<' || c == '>' || c == '&' || c == '"' || (unsigned char)c < 32) return true;
	return false;
}
N *copyTree(const N *n, N *parent)
{
	N *c = new N;
	c->type = n->type; c->name = n->name; c->value = n->value; c->parent = parent;
	for (auto *a : n->attrs) { At *b = new At; b->name = a->name; b->value = a->value; b->owner = c; c->attrs.push_back(b); }
	for (auto *k : n->kids) c->kids.push_back(copyTree(k, c));
	return c;
}
bool anySpecial(const N *n)
{
	if (special(n->value)) return true;
	for (auto *a : n->attrs) if (special(a->value)) return true;
	for (auto *k : n->kids) if (anySpecial(k)) return true;
	return false;
}
void escapeTree(N *n)   // what a reader sees that does not translate escapes back
{
	if (special(n->value)) n->value += "&amp;";
	for (auto *a : n->attrs) if (special(a->value)) a->value += "&amp;";
	for (auto *k : n->kids) escapeTree(k);
}
xml_node null() { return xml_node(); }
N *sib(N *n, int d)
{
	if (!n || !n->parent) return nullptr;
	auto &k = n->parent->kids;
	for (size_t i = 0; i < k.size(); i++)
		if (k[i] == n) { const long j = (long)i + d; return j < 0 || j >= (long)k.size() ? nullptr : k[j]; }
	return nullptr;
}
At *asib(At *a, int d)
{
	if (!a) return nullptr;
	auto &k = a->owner->attrs;
	for (size_t i = 0; i < k.size(); i++)
		if (k[i] == a) { const long j = (long)i + d; return j < 0 || j >= (long)k.size() ? nullptr : k[j]; }
	return nullptr;
}
// Reads XML text: elements, attributes, comments and declarations; character data is skipped.
struct Reader
{
	const char *p;
	bool ok = true;
	bool at(const char *s) const { for (size_t i = 0; s[i]; i++) if (p[i] != s[i]) return false; return true; }
	void space() { while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; }
	void past(const char *s) { while (*p && !at(s)) p++; if (*p) p += strlen(s); else ok = false; }
	string name() { string s; while (*p && !(*p == ' ' || (*p >= 9 && *p <= 13)) && *p != '=' && *p != '>' && *p != '/') s += *p++; return s; }
	string text(char q)
	{
		string s;
		while (*p && *p != q)
		{
			if (*p != '&') { s += *p++; continue; }
			if (at("&lt;")) { s += '<'; p += 4; }
			else if (at("&gt;")) { s += '>'; p += 4; }
			else if (at("&amp;")) { s += '&'; p += 5; }
			else if (at("&quot;")) { s += '"'; p += 6; }
			else if (at("&apos;")) { s += '\''; p += 6; }
			else s += *p++;
		}
		if (*p) p++; else ok = false;
		return s;
	}
	void content(N *to)
	{
		while (ok && *p)
		{
			if (*p != '<') { p++; continue; }
			if (at("<!--")) { past("-->"); continue; }
			if (at("<?")) { past("?>"); continue; }
			if (at("<!")) { past(">"); continue; }
			if (at("</"))
			{
				p += 2;
				ok = to->parent && name() == to->name;
				past(">");
				return;
			}
			p++;
			N *n = new N;
			n->parent = to;
			n->name = name();
			to->kids.push_back(n);
			for (space(); ok && *p && *p != '>' && *p != '/'; space())
			{
				At *a = new At;
				a->owner = n;
				a->name = name();
				n->attrs.push_back(a);
				space();
				if (*p != '=') { ok = false; return; }
				p++;
				space();
				if (*p != '"' && *p != '\'') { ok = false; return; }
				const char q = *p++;
				a->value = text(q);
			}
			if (*p == '/') { p++; past(">"); }
			else if (*p == '>') { p++; content(n); }
			else ok = false;
		}
		if (to->parent) ok = false;
	}
};
bool allowed(N *n, xml_node_type) { return n && (n->type == node_element || n->type == node_document); }
N *addKid(N *n, xml_node_type t, const char *name, size_t at)
{
	N *c = new N;
	c->type = t; c->parent = n;
	if (name) c->name = name;
	n->kids.insert(n->kids.begin() + at, c);
	return c;
}
size_t posOf(N *n, N *k) { for (size_t i = 0; i < n->kids.size(); i++) if (n->kids[i] == k) return i; return n->kids.size(); }
At *addAttr(N *n, const char *name, size_t at)
{
	At *a = new At;
	a->owner = n; a->name = name ? name : "";
	n->attrs.insert(n->attrs.begin() + at, a);
	return a;
}
bool same(const string &a, const char *b) { return strcmp(a.c_str(), b) == 0; }
bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// pugixml's number reader: blanks, sign, 0x, digits up to the first other character; saturates
template <typename U> U readInt(const string &str, U minv, U maxv)
{
	const char *s = str.c_str();
	while (blank(*s)) s++;
	const bool neg = *s == '-';
	if (*s == '+' || *s == '-') s++;
	U v = 0;
	bool over = false;
	if (s[0] == '0' && (s[1] | 32) == 'x')
	{
		s += 2;
		while (*s == '0') s++;
		const char *b = s;
		for (;; s++)
		{
			if (*s >= '0' && *s <= '9') v = v * 16 + (*s - '0');
			else if ((*s | 32) >= 'a' && (*s | 32) <= 'f') v = v * 16 + ((*s | 32) - 'a' + 10);
			else break;
		}
		over = (size_t)(s - b) > sizeof(U) * 2;
	}
	else
		for (; *s >= '0' && *s <= '9'; s++)
		{
			const U d = *s - '0';
			if (v > (((U)~(U)0) - d) / 10) over = true;
			v = v * 10 + d;
		}
	if (neg) return over || v > 0 - minv ? minv : 0 - v;
	return over || v > maxv ? maxv : v;
}
int asInt(const string &s) { return (int)readInt<unsigned>(s, (unsigned)INT_MIN, INT_MAX); }
unsigned asUInt(const string &s) { return readInt<unsigned>(s, 0, UINT_MAX); }
long long asLL(const string &s) { return (long long)readInt<unsigned long long>(s, (unsigned long long)LLONG_MIN, LLONG_MAX); }
unsigned long long asULL(const string &s) { return readInt<unsigned long long>(s, 0, ULLONG_MAX); }
bool asBool(const string &s) { const char c = s.c_str()[0]; return c == '1' || c == 't' || c == 'T' || c == 'y' || c == 'Y'; }
double asDouble(const string &s) { return strtod(s.c_str(), nullptr); }
string ftext(double v, int digits) { char b[128]; snprintf(b, sizeof b, "%.*g", digits, v); return b; }
string text(unsigned long v) { return std::to_string(v); }
string stext(long v) { return v < 0 ? "-" + std::to_string(0ul - (unsigned long)v) : std::to_string((unsigned long)v); }
}
namespace pugi
{
xml_writer::~xml_writer() {}
// attributes
xml_attribute::xml_attribute() : _attr(nullptr) {}
xml_attribute::xml_attribute(xml_attribute_struct *a) : _attr(a) {}
static void boolAttr(xml_attribute ***) {}
xml_attribute::operator xml_attribute::unspecified_bool_type() const { return _attr ? boolAttr : nullptr; }
bool xml_attribute::operator!() const { return !_attr; }
bool xml_attribute::operator==(const xml_attribute &r) const { return _attr == r._attr; }
bool xml_attribute::operator!=(const xml_attribute &r) const { return _attr != r._attr; }
bool xml_attribute::empty() const { return !_attr; }
const char_t *xml_attribute::name() const { return _attr ? _attr->name.c_str() : ""; }
const char_t *xml_attribute::value() const { return _attr ? _attr->value.c_str() : ""; }
const char_t *xml_attribute::as_string(const char_t *d) const { return _attr ? _attr->value.c_str() : d; }
int xml_attribute::as_int(int d) const { return _attr && !_attr->value.empty() ? asInt(_attr->value) : d; }
unsigned xml_attribute::as_uint(unsigned d) const { return _attr && !_attr->value.empty() ? asUInt(_attr->value) : d; }
long long xml_attribute::as_llong(long long d) const { return _attr && !_attr->value.empty() ? asLL(_attr->value) : d; }
unsigned long long xml_attribute::as_ullong(unsigned long long d) const { return _attr && !_attr->value.empty() ? asULL(_attr->value) : d; }
bool xml_attribute::as_bool(bool d) const { return _attr && !_attr->value.empty() ? asBool(_attr->value) : d; }
bool xml_attribute::set_name(const char_t *s) { if (!_attr) return false; _attr->name = s; return true; }
bool xml_attribute::set_name(const char_t *s, size_t n) { if (!_attr) return false; _attr->name.assign(s, n); return true; }
bool xml_attribute::set_value(const char_t *s) { if (!_attr) return false; _attr->value = s; return true; }
bool xml_attribute::set_value(const char_t *s, size_t n) { if (!_attr) return false; _attr->value.assign(s, n); return true; }
bool xml_attribute::set_value(int v) { return set_value((long)v); }
bool xml_attribute::set_value(unsigned v) { return set_value((unsigned long)v); }
bool xml_attribute::set_value(long v) { if (!_attr) return false; _attr->value = stext(v); return true; }
bool xml_attribute::set_value(unsigned long v) { if (!_attr) return false; _attr->value = text(v); return true; }
bool xml_attribute::set_value(long long v) { return set_value((long)v); }
bool xml_attribute::set_value(unsigned long long v) { return set_value((unsigned long)v); }
bool xml_attribute::set_value(bool v) { return set_value(v ? "true" : "false"); }
bool xml_attribute::set_value(double v) { return set_value(v, 17); }
bool xml_attribute::set_value(double v, int d) { return set_value(ftext(v, d).c_str()); }
bool xml_attribute::set_value(float v) { return set_value(v, 9); }
bool xml_attribute::set_value(float v, int d) { return set_value(ftext(v, d).c_str()); }
double xml_attribute::as_double(double d) const { return _attr && !_attr->value.empty() ? asDouble(_attr->value) : d; }
float xml_attribute::as_float(float d) const { return _attr && !_attr->value.empty() ? (float)asDouble(_attr->value) : d; }
xml_attribute &xml_attribute::operator=(double v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(float v) { set_value(v); return *this; }
bool xml_attribute::operator<(const xml_attribute &r) const { return _attr < r._attr; }
xml_attribute &xml_attribute::operator=(const char_t *v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(int v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(unsigned v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(long v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(unsigned long v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(bool v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(long long v) { set_value(v); return *this; }
xml_attribute &xml_attribute::operator=(unsigned long long v) { set_value(v); return *this; }
xml_attribute xml_attribute::next_attribute() const { return xml_attribute(asib(_attr, 1)); }
xml_attribute xml_attribute::previous_attribute() const { return xml_attribute(asib(_attr, -1)); }
xml_attribute_struct *xml_attribute::internal_object() const { return _attr; }
// nodes
xml_node::xml_node() : _root(nullptr) {}
xml_node::xml_node(xml_node_struct *p) : _root(p) {}
static void boolNode(xml_node ***) {}
xml_node::operator xml_node::unspecified_bool_type() const { return _root ? boolNode : nullptr; }
bool xml_node::operator!() const { return !_root; }
bool xml_node::operator==(const xml_node &r) const { return _root == r._root; }
bool xml_node::operator!=(const xml_node &r) const { return _root != r._root; }
bool xml_node::empty() const { return !_root; }
xml_node_type xml_node::type() const { return _root ? _root->type : node_null; }
const char_t *xml_node::name() const { return _root ? _root->name.c_str() : ""; }
const char_t *xml_node::value() const { return _root ? _root->value.c_str() : ""; }
xml_attribute xml_node::first_attribute() const { return xml_attribute(_root && !_root->attrs.empty() ? _root->attrs.front() : nullptr); }
xml_attribute xml_node::last_attribute() const { return xml_attribute(_root && !_root->attrs.empty() ? _root->attrs.back() : nullptr); }
xml_node xml_node::first_child() const { return xml_node(_root && !_root->kids.empty() ? _root->kids.front() : nullptr); }
xml_node xml_node::last_child() const { return xml_node(_root && !_root->kids.empty() ? _root->kids.back() : nullptr); }
xml_node xml_node::next_sibling() const { return xml_node(sib(_root, 1)); }
xml_node xml_node::previous_sibling() const { return xml_node(sib(_root, -1)); }
xml_node xml_node::parent() const { return xml_node(_root ? _root->parent : nullptr); }
xml_node xml_node::root() const { N *n = _root; while (n && n->parent) n = n->parent; return xml_node(n); }
xml_text xml_node::text() const { return xml_text(_root); }
xml_node xml_node::child(const char_t *name) const
{
	if (_root) for (N *k : _root->kids) if (same(k->name, name)) return xml_node(k);
	return null();
}
xml_attribute xml_node::attribute(const char_t *name) const
{
	if (_root) for (At *a : _root->attrs) if (same(a->name, name)) return xml_attribute(a);
	return xml_attribute();
}
xml_attribute xml_node::attribute(const char_t *name, xml_attribute &hint) const { xml_attribute a = attribute(name); hint = a.next_attribute(); return a; }
xml_node xml_node::next_sibling(const char_t *name) const { for (N *n = sib(_root, 1); n; n = sib(n, 1)) if (same(n->name, name)) return xml_node(n); return null(); }
xml_node xml_node::previous_sibling(const char_t *name) const { for (N *n = sib(_root, -1); n; n = sib(n, -1)) if (same(n->name, name)) return xml_node(n); return null(); }
const char_t *xml_node::child_value() const
{
	if (_root) for (N *k : _root->kids) if (k->type == node_pcdata || k->type == node_cdata) return k->value.c_str();
	return "";
}
const char_t *xml_node::child_value(const char_t *name) const { return child(name).child_value(); }
bool xml_node::set_name(const char_t *s) { if (!_root || _root->type == node_document) return false; _root->name = s; return true; }
bool xml_node::set_value(const char_t *s) { if (!_root || _root->type == node_document || _root->type == node_element) return false; _root->value = s; return true; }
xml_attribute xml_node::append_attribute(const char_t *name) { return xml_attribute(_root && _root->type != node_document ? addAttr(_root, name, _root->attrs.size()) : nullptr); }
xml_attribute xml_node::prepend_attribute(const char_t *name) { return xml_attribute(_root && _root->type != node_document ? addAttr(_root, name, 0) : nullptr); }
xml_node xml_node::append_child(xml_node_type t) { return allowed(_root, t) ? xml_node(addKid(_root, t, nullptr, _root->kids.size())) : null(); }
xml_node xml_node::prepend_child(xml_node_type t) { return allowed(_root, t) ? xml_node(addKid(_root, t, nullptr, 0)) : null(); }
xml_node xml_node::append_child(const char_t *n) { return allowed(_root, node_element) ? xml_node(addKid(_root, node_element, n, _root->kids.size())) : null(); }
xml_node xml_node::prepend_child(const char_t *n) { return allowed(_root, node_element) ? xml_node(addKid(_root, node_element, n, 0)) : null(); }
xml_node xml_node::insert_child_after(const char_t *n, const xml_node &k) { return allowed(_root, node_element) && k._root && k._root->parent == _root ? xml_node(addKid(_root, node_element, n, posOf(_root, k._root) + 1)) : null(); }
xml_node xml_node::insert_child_before(const char_t *n, const xml_node &k) { return allowed(_root, node_element) && k._root && k._root->parent == _root ? xml_node(addKid(_root, node_element, n, posOf(_root, k._root))) : null(); }
xml_node xml_node::append_copy(const xml_node &p)
{
	if (!_root || !p._root) return null();
	N *c = copyTree(p._root, _root);
	_root->kids.push_back(c);
	return xml_node(c);
}
xml_attribute xml_node::append_copy(const xml_attribute &p)
{
	if (!_root || _root->type == node_document || !p) return xml_attribute();
	At *a = addAttr(_root, p.name(), _root->attrs.size());
	a->value = p.value();
	return xml_attribute(a);
}
xml_node xml_node::append_move(const xml_node &k)
{
	if (!_root || !k._root || !k._root->parent) return null();
	for (N *n = _root; n; n = n->parent) if (n == k._root) return null();
	auto &from = k._root->parent->kids;
	from.erase(from.begin() + posOf(k._root->parent, k._root));
	k._root->parent = _root;
	_root->kids.push_back(k._root);
	return k;
}
bool xml_node::set_name(const char_t *s, size_t n) { return set_name(string(s, n).c_str()); }
bool xml_node::set_value(const char_t *s, size_t n) { return set_value(string(s, n).c_str()); }
bool xml_node::operator<(const xml_node &r) const { return _root < r._root; }
string xml_node::path(char_t d) const
{
	string p;
	for (N *n = _root; n; n = n->parent) p = (n->parent ? d + n->name : string()) + p;
	return p;
}
bool xml_node::remove_attribute(const xml_attribute &a)
{
	if (!_root || !a.internal_object()) return false;
	for (size_t i = 0; i < _root->attrs.size(); i++)
		if (_root->attrs[i] == a.internal_object()) { delete _root->attrs[i]; _root->attrs.erase(_root->attrs.begin() + i); return true; }
	return false;
}
bool xml_node::remove_attribute(const char_t *n) { return remove_attribute(attribute(n)); }
bool xml_node::remove_attributes() { if (!_root) return false; for (At *a : _root->attrs) delete a; _root->attrs.clear(); return true; }
bool xml_node::remove_child(const xml_node &k)
{
	if (!_root || !k._root || k._root->parent != _root) return false;
	_root->kids.erase(_root->kids.begin() + posOf(_root, k._root));
	delete k._root;
	return true;
}
bool xml_node::remove_child(const char_t *n) { return remove_child(child(n)); }
bool xml_node::remove_children() { if (!_root) return false; for (N *k : _root->kids) delete k; _root->kids.clear(); return true; }
xml_node xml_node::find_child_by_attribute(const char_t *n, const char_t *an, const char_t *av) const
{
	if (_root) for (N *k : _root->kids) if (same(k->name, n)) for (At *a : k->attrs) if (same(a->name, an) && same(a->value, av)) return xml_node(k);
	return null();
}
xml_node xml_node::find_child_by_attribute(const char_t *an, const char_t *av) const
{
	if (_root) for (N *k : _root->kids) for (At *a : k->attrs) if (same(a->name, an) && same(a->value, av)) return xml_node(k);
	return null();
}
xml_node xml_node::first_element_by_path(const char_t *path, char_t d) const
{
	xml_node n(*this);
	string p(path), part;
	for (size_t i = 0; i <= p.size(); i++)
		if (i == p.size() || p[i] == d) { if (!part.empty()) n = n.child(part.c_str()); part.clear(); }
		else part += p[i];
	return n;
}
xml_node::iterator xml_node::begin() const { return iterator(_root && !_root->kids.empty() ? _root->kids.front() : nullptr, _root); }
xml_node::iterator xml_node::end() const { return iterator(nullptr, _root); }
xml_node::attribute_iterator xml_node::attributes_begin() const { return attribute_iterator(_root && !_root->attrs.empty() ? _root->attrs.front() : nullptr, _root); }
xml_node::attribute_iterator xml_node::attributes_end() const { return attribute_iterator(nullptr, _root); }
xml_object_range<xml_node_iterator> xml_node::children() const { return xml_object_range<xml_node_iterator>(begin(), end()); }
xml_object_range<xml_attribute_iterator> xml_node::attributes() const { return xml_object_range<xml_attribute_iterator>(attributes_begin(), attributes_end()); }
xml_object_range<xml_named_node_iterator> xml_node::children(const char_t *name) const
{
	return xml_object_range<xml_named_node_iterator>(xml_named_node_iterator(child(name)._root, _root, name), xml_named_node_iterator(nullptr, _root, name));
}
xml_node_struct *xml_node::internal_object() const { return _root; }
// iterators
xml_node_iterator::xml_node_iterator() {}
xml_node_iterator::xml_node_iterator(const xml_node &n) : _wrap(n), _parent(n.parent()) {}
xml_node_iterator::xml_node_iterator(xml_node_struct *r, xml_node_struct *p) : _wrap(r), _parent(p) {}
bool xml_node_iterator::operator==(const xml_node_iterator &r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_node_iterator::operator!=(const xml_node_iterator &r) const { return !(*this == r); }
xml_node &xml_node_iterator::operator*() const { return _wrap; }
xml_node *xml_node_iterator::operator->() const { return &_wrap; }
xml_node_iterator &xml_node_iterator::operator++() { _wrap._root = sib(_wrap._root, 1); return *this; }
xml_node_iterator xml_node_iterator::operator++(int) { xml_node_iterator t = *this; ++*this; return t; }
xml_node_iterator &xml_node_iterator::operator--() { _wrap = _wrap._root ? _wrap.previous_sibling() : _parent.last_child(); return *this; }
xml_node_iterator xml_node_iterator::operator--(int) { xml_node_iterator t = *this; --*this; return t; }
xml_attribute_iterator::xml_attribute_iterator() {}
xml_attribute_iterator::xml_attribute_iterator(const xml_attribute &a, const xml_node &p) : _wrap(a), _parent(p) {}
xml_attribute_iterator::xml_attribute_iterator(xml_attribute_struct *r, xml_node_struct *p) : _wrap(r), _parent(p) {}
bool xml_attribute_iterator::operator==(const xml_attribute_iterator &r) const { return _wrap._attr == r._wrap._attr && _parent._root == r._parent._root; }
bool xml_attribute_iterator::operator!=(const xml_attribute_iterator &r) const { return !(*this == r); }
xml_attribute &xml_attribute_iterator::operator*() const { return _wrap; }
xml_attribute *xml_attribute_iterator::operator->() const { return &_wrap; }
xml_attribute_iterator &xml_attribute_iterator::operator++() { _wrap = _wrap.next_attribute(); return *this; }
xml_attribute_iterator xml_attribute_iterator::operator++(int) { xml_attribute_iterator t = *this; ++*this; return t; }
xml_named_node_iterator::xml_named_node_iterator() : _name(nullptr) {}
xml_named_node_iterator::xml_named_node_iterator(const xml_node &n, const char_t *name) : _wrap(n), _parent(n.parent()), _name(name) {}
xml_named_node_iterator::xml_named_node_iterator(xml_node_struct *r, xml_node_struct *p, const char_t *name) : _wrap(r), _parent(p), _name(name) {}
bool xml_named_node_iterator::operator==(const xml_named_node_iterator &r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_named_node_iterator::operator!=(const xml_named_node_iterator &r) const { return !(*this == r); }
xml_node &xml_named_node_iterator::operator*() const { return _wrap; }
xml_node *xml_named_node_iterator::operator->() const { return &_wrap; }
xml_named_node_iterator &xml_named_node_iterator::operator++() { _wrap = _wrap.next_sibling(_name); return *this; }
xml_named_node_iterator xml_named_node_iterator::operator++(int) { xml_named_node_iterator t = *this; ++*this; return t; }
// text
xml_text::xml_text() : _root(nullptr) {}
xml_text::xml_text(xml_node_struct *r) : _root(r) {}
xml_node_struct *xml_text::_data() const
{
	if (!_root || _root->type == node_pcdata || _root->type == node_cdata) return _root;
	for (N *k : _root->kids) if (k->type == node_pcdata || k->type == node_cdata) return k;
	return nullptr;
}
xml_node_struct *xml_text::_data_new() { if (N *d = _data()) return d; return _root ? addKid(_root, node_pcdata, nullptr, _root->kids.size()) : nullptr; }
static void boolText(xml_text ***) {}
xml_text::operator xml_text::unspecified_bool_type() const { return _data() ? boolText : nullptr; }
bool xml_text::operator!() const { return !_data(); }
bool xml_text::empty() const { return !_data(); }
const char_t *xml_text::get() const { N *d = _data(); return d ? d->value.c_str() : ""; }
const char_t *xml_text::as_string(const char_t *def) const { N *d = _data(); return d ? d->value.c_str() : def; }
int xml_text::as_int(int def) const { N *d = _data(); return d ? asInt(d->value) : def; }
unsigned xml_text::as_uint(unsigned def) const { N *d = _data(); return d ? asUInt(d->value) : def; }
long long xml_text::as_llong(long long def) const { N *d = _data(); return d ? asLL(d->value) : def; }
unsigned long long xml_text::as_ullong(unsigned long long def) const { N *d = _data(); return d ? asULL(d->value) : def; }
bool xml_text::as_bool(bool def) const { N *d = _data(); return d ? asBool(d->value) : def; }
bool xml_text::set(const char_t *s) { N *d = _data_new(); if (!d) return false; d->value = s; return true; }
bool xml_text::set(const char_t *s, size_t n) { return set(string(s, n).c_str()); }
bool xml_text::set(double v) { return set(v, 17); }
bool xml_text::set(double v, int d) { return set(ftext(v, d).c_str()); }
bool xml_text::set(float v) { return set(v, 9); }
bool xml_text::set(float v, int d) { return set(ftext(v, d).c_str()); }
double xml_text::as_double(double def) const { N *d = _data(); return d ? asDouble(d->value) : def; }
float xml_text::as_float(float def) const { N *d = _data(); return d ? (float)asDouble(d->value) : def; }
xml_node xml_text::data() const { return xml_node(_data()); }
xml_text &xml_text::operator=(double v) { set(v); return *this; }
xml_text &xml_text::operator=(int v) { set(v); return *this; }
xml_text &xml_text::operator=(unsigned v) { set(v); return *this; }
xml_text &xml_text::operator=(long v) { set(v); return *this; }
bool xml_text::set(unsigned long v) { return set(::text(v).c_str()); }
bool xml_text::set(unsigned long long v) { return set((unsigned long)v); }
bool xml_text::set(long v) { return set(stext(v).c_str()); }
bool xml_text::set(int v) { return set((long)v); }
bool xml_text::set(unsigned v) { return set((unsigned long)v); }
bool xml_text::set(bool v) { return set(v ? "true" : "false"); }
xml_text &xml_text::operator=(const char_t *s) { set(s); return *this; }
xml_text &xml_text::operator=(unsigned long v) { set(v); return *this; }
xml_text &xml_text::operator=(bool v) { set(v); return *this; }
// documents
xml_parse_result::xml_parse_result() : status(status_internal_error), offset(0), encoding(encoding_auto) {}
xml_parse_result::operator bool() const { return status == status_ok; }
const char *xml_parse_result::description() const { return status == status_ok ? "No error" : status == status_file_not_found ? "File was not found" : "Error reading from file/stream"; }
void xml_document::_create() { N *n = new N; n->type = node_document; _root = n; }
void xml_document::_destroy() { delete _root; _root = nullptr; }
xml_document::xml_document() : _buffer(nullptr) { _create(); }
xml_document::~xml_document() { _destroy(); }
void xml_document::_move(xml_document &r) noexcept { _root = r._root; r._create(); }
xml_document::xml_document(xml_document &&r) noexcept : _buffer(nullptr) { _move(r); }
xml_document &xml_document::operator=(xml_document &&r) noexcept { if (this != &r) { _destroy(); _move(r); } return *this; }
void xml_document::reset() { _destroy(); _create(); }
void xml_document::reset(const xml_document &p)
{
	N *c = copyTree(p._root, nullptr);
	_destroy();
	_root = c;
}
static bool putText(const string &path, const char *text)
{
	N *root = new N;
	root->type = node_document;
	Reader r{ text };
	r.content(root);
	if (r.ok) files()[path] = File{ root, 0 };
	else delete root;
	return r.ok;
}
}
// for harnesses: places a text in the table of files
bool rt_pugi_put(const char *path, const char *text) { return pugi::putText(path, text); }
namespace pugi
{
bool xml_document::save_file(const char *path, const char_t *, unsigned flags, xml_encoding) const
{
	const string p(path);
	if (p.empty() || p.rfind("/missing-dir/", 0) == 0) return false;
	files()[p] = File{ copyTree(_root, nullptr), flags };
	return true;
}
xml_parse_result xml_document::load_file(const char *path, unsigned options, xml_encoding)
{
	reset();
	xml_parse_result r;
	auto it = files().find(string(path));
	if (it == files().end()) { r.status = status_file_not_found; return r; }
	const N *t = it->second.tree;
	bool element = false;
	for (N *k : t->kids) element |= k->type == node_element;
	if (!element && !(options & parse_fragment)) { r.status = status_no_document_element; return r; }
	if ((it->second.flags & format_no_escapes) && anySpecial(t)) { r.status = status_bad_attribute; return r; }
	_destroy();
	_root = copyTree(t, nullptr);
	if (!(options & parse_escapes)) escapeTree(_root);
	r.status = status_ok;
	return r;
}
xml_node xml_document::document_element() const
{
	for (N *k : _root->kids) if (k->type == node_element) return xml_node(k);
	return null();
}
}
