// values as trees: copying is deep, assignment and swap keep both sides intact
#include <pbt.h>
#include <leak.h>
#include <cybozu/json.hpp>
#include <memory>
#include <math.h>
#include <string.h>
using pbt::G;
typedef cybozu::Json J;
struct Node { // model
	J::Type type = J::T_Null;
	std::string str;
	double num = 0;
	bool b = false;
	std::map<std::string, Node> obj;
	std::vector<Node> arr;
};
static void check(const J::Value& v, const Node& n)
{
	REQUIRE_EQ(v.isNull(), n.type == J::T_Null);
	REQUIRE_EQ(v.isString(), n.type == J::T_String);
	REQUIRE_EQ(v.isObject(), n.type == J::T_Object);
	REQUIRE_EQ(v.isArray(), n.type == J::T_Array);
	REQUIRE_EQ(v.isBool(), n.type == J::T_Bool);
	REQUIRE_EQ(v.isNumber(), n.type == J::T_Number);
	switch (n.type) {
	case J::T_Null: break;
	case J::T_String: REQUIRE_STREQ(v.getString(), n.str); break;
	case J::T_Number: { double d = v.getNumber(); REQUIRE_MSG(memcmp(&d, &n.num, sizeof(d)) == 0, "number is " << d << " must be " << n.num); } break;
	case J::T_Bool: REQUIRE_EQ(v.getBool(), n.b); break;
	case J::T_Array:
		REQUIRE_EQ(v.getArray().size(), n.arr.size());
		for (size_t i = 0; i < n.arr.size(); i++) check(v.getArray()[i], n.arr[i]);
		break;
	case J::T_Object:
		{
			REQUIRE_EQ(v.getObject().size(), n.obj.size());
			auto w = n.obj.begin();
			for (auto& p : v.getObject()) { REQUIRE_STREQ(p.first, w->first); check(p.second, w->second); ++w; }
		}
		break;
	}
}
static size_t countNodes(const Node& n)
{
	size_t r = 1;
	for (auto& c : n.arr) r += countNodes(c);
	for (auto& c : n.obj) r += countNodes(c.second);
	return r;
}
static const size_t N = 5;
PROP(tree)
{
	std::vector<J::Value> v(N);
	std::vector<Node> m(N);
	size_t steps = 1 + g.size(25), most = 0;
	for (size_t s = 0; s < steps; s++) {
		size_t a = g.below(N), b = g.below(N);
		switch (g.below(11)) {
		case 0:
			{
				std::string t = g.text(g.below(30), "ab\"\\\n\xe3");
				bool zero = g.chance(1, 4);
				if (zero) t.insert(g.below(t.size() + 1), 1, '\0');
				g.note() << "v" << a << "=string ";
				if (!zero && g.boolean()) v[a] = J::Value(t.c_str()); else v[a] = J::Value(t);
				m[a] = Node(); m[a].type = J::T_String; m[a].str = t;
			}
			break;
		case 1: { double d = (double)g.irange(-1000, 1000) / 8; switch (g.below(8)) { case 0: d = -0.0; break; case 1: d = 0; break; case 2: d = HUGE_VAL; break; case 3: d = 1.0 / 3 * (double)g.irange(-9, 9); break; case 4: d = 5e-324; break; case 5: d = (double)((uint64_t(1) << 53) - 1); break; case 6: d = __builtin_nan("5"); break; default: break; } g.note() << "v" << a << "=" << d << " "; v[a] = J::Value(d); m[a] = Node(); m[a].type = J::T_Number; m[a].num = d; } break;
		case 2: { bool t = g.boolean(); g.note() << "v" << a << "=" << t << " "; v[a] = J::Value(t); m[a] = Node(); m[a].type = J::T_Bool; m[a].b = t; } break;
		case 3: g.note() << "v" << a << "=null "; v[a] = J::Value(); m[a] = Node(); break;
		case 4: case 5:
			{
				J::Array arr; Node n; n.type = J::T_Array;
				size_t len = g.below(4);
				g.note() << "v" << a << "=[";
				for (size_t i = 0; i < len; i++) { size_t c = g.below(N); if (countNodes(m[c]) > 60) continue; g.note() << " v" << c; arr.push_back(v[c]); n.arr.push_back(m[c]); }
				g.note() << "] ";
				v[a] = J::Value(arr); m[a] = n;
				arr.clear();
			}
			break;
		case 6: case 7:
			{
				J::Object obj; Node n; n.type = J::T_Object;
				size_t len = g.below(4);
				g.note() << "v" << a << "={";
				for (size_t i = 0; i < len; i++) { size_t c = g.below(N); if (countNodes(m[c]) > 60) continue; std::string key = g.text(g.below(3), "ab"); g.note() << " " << key << ":v" << c; obj[key] = v[c]; n.obj[key] = m[c]; }
				g.note() << "} ";
				v[a] = J::Value(obj); m[a] = n;
			}
			break;
		case 8: g.note() << "v" << a << "=v" << b << " "; { J::Value& r = (v[a] = v[b]); REQUIRE(&r == &v[a]); } m[a] = Node(m[b]); break;
		case 9: g.note() << "swap v" << a << " v" << b << " "; v[a].swap(v[b]); if (a != b) std::swap(m[a], m[b]); break;
		default:
			g.note() << "copy v" << a << " ";
			{
				std::unique_ptr<J::Value> c(new J::Value(v[a]));
				check(*c, m[a]);
				Node old = m[a];
				v[a] = J::Value(); m[a] = Node(); // the copy must not depend on it
				check(*c, old);
				if (g.boolean()) { v[b] = *c; m[b] = old; }
				else if (g.boolean()) { // out of the copy itself
					if (old.type == J::T_Array && !old.arr.empty()) { size_t i = g.below(old.arr.size()); *c = c->getArray()[i]; Node t = old.arr[i]; check(*c, t); }
					if (old.type == J::T_Object && !old.obj.empty()) { Node t = old.obj.begin()->second; *c = c->getObject().begin()->second; check(*c, t); }
				}
			}
			break;
		}
		for (auto& n : m) most = std::max(most, countNodes(n));
		if (g.chance(1, 4)) { size_t k = g.below(N); check(v[k], m[k]); }
	}
	g.nontrivial(most > 4);
	for (size_t i = 0; i < N; i++) check(v[i], m[i]);
	size_t a = g.below(N), b = g.below(N);
	REQUIRE_MSG(!leak::loses([&] { J::Value c(v[a]); J::Value d; d = c; d = v[b]; c.swap(d); c = d; }), "memory is lost");
	check(v[a], m[a]);
	check(v[b], m[b]);
}
