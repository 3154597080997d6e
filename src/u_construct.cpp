// Unit: every way to bring an element into being - constructors with no, one
// and several arguments, implicit and explicit, braces and parentheses that
// mean different things, conversions in ranges - against std::list (which
// asks as little of its elements) given the same calls.
#include "core.hpp"
#include <any>
#include <deque>
#include <functional>
#include <list>
#include <sstream>
#include <string_view>
#include <tuple>
#include <utility>
using namespace vt;
template <class T> using Seq = boost::segmented_tree::seq<T, std::allocator<T>, VT_SEG, VT_BASE>;


struct Rec { int a; short b; double d; char t[5]; int* p; };
struct Expl {
  long v;
  explicit Expl() : v(-1) {}
  explicit Expl(int x) : v(x) {}
  explicit Expl(int x, int y) : v(x * 1000 + y) {}
  explicit Expl(std::string const& s) : v((long)s.size() + 100000) {}
  explicit Expl(char const*) : v(7) {}
};
struct Listy { std::string s; Listy() : s("none") {} Listy(std::initializer_list<int> l) : s("list") { for (int x : l) s += "," + std::to_string(x); } Listy(int a, int b) : s("two " + std::to_string(a) + " " + std::to_string(b)) {} explicit Listy(int a) : s("one " + std::to_string(a)) {} };
struct Greedy {
  std::string s = "default";
  Greedy() {}
  Greedy(Greedy const& o) : s(o.s) {}
  Greedy(Greedy&& o) noexcept : s(std::move(o.s)) {}
  Greedy& operator=(Greedy const&) = default;
  Greedy& operator=(Greedy&&) = default;
  template <class U, class = std::enable_if_t<!std::is_same<std::decay_t<U>, Greedy>::value>> explicit Greedy(U&&) : s(std::is_lvalue_reference<U>::value ? std::is_const<std::remove_reference_t<U>>::value ? "const lvalue" : "lvalue" : "rvalue") {}
  template <class U, class V> explicit Greedy(U&&, V&&) : s(std::string(std::is_lvalue_reference<U>::value ? "l" : "r") + (std::is_lvalue_reference<V>::value ? "l" : "r")) {}
};
// Braces around one of these wrap it: T{value} is not T(value).
struct Json { std::string s; Json() : s("null") {} Json(int x) : s(std::to_string(x)) {} Json(std::initializer_list<Json> l) : s("[") { for (auto& x : l) s += x.s + ","; s += "]"; } friend bool operator==(Json const& a, Json const& b) { return a.s == b.s; } friend bool operator<(Json const& a, Json const& b) { return a.s < b.s; } };
enum class Colour : signed char { red = -1, green = 5 };
struct Base { virtual ~Base() {} virtual int id() const { return 1; } };
struct Derived : Base { int k; explicit Derived(int x) : k(x) {} int id() const override { return 100 + k; } };
struct ToExpl { int v; explicit operator Expl() const { return Expl(v); } };
struct ToString { int v; operator std::string() const { return std::string((std::size_t)v, 'q'); } };

template <class T> static std::string show(T const& x) { std::ostringstream o; if constexpr (std::is_floating_point<T>::value) o.precision(17); o << +x; return o.str(); }
static std::string show(std::string const& x) { return x; }
static std::string show(Rec const& r) { return std::to_string(r.a) + "/" + std::to_string(r.b) + "/" + std::to_string(r.d) + "/" + std::to_string(r.t[0]) + std::to_string(r.t[4]) + (r.p ? "p" : "0"); }
static std::string show(Expl const& e) { return std::to_string(e.v); }
static std::string show(Listy const& l) { return l.s; }
static std::string show(Greedy const& g) { return g.s; }
static std::string show(Json const& l) { return l.s; }
static std::string show(std::vector<std::any> const& v);
struct Klass { int a, b; void f() {} };
static std::string show(int Klass::* p) { return p ? p == &Klass::a ? "a" : "b" : "null"; }
static std::string show(void (Klass::* p)()) { return p ? "f" : "null"; }
static std::string show(std::nullptr_t p) { return p ? "?" : "null"; }
static std::string show(Colour c) { return std::to_string((int)c); }
static std::string show(std::vector<int> const& v) { std::string s = "v"; for (int x : v) s += " " + std::to_string(x); return s; }
static std::string show(std::unique_ptr<Base> const& p) { return p ? std::to_string(p->id()) : "null"; }
static std::string show(std::shared_ptr<Base> const& p) { return p ? std::to_string(p->id()) + "x" + std::to_string(p.use_count()) : "null"; }
static std::string show(std::any const& a) { if (auto p = std::any_cast<int>(&a)) return "int " + std::to_string(*p); if (auto p = std::any_cast<std::string>(&a)) return "string " + *p; return a.has_value() ? std::string("other ") + a.type().name() : "empty"; }
static std::string show(std::vector<std::any> const& v) { std::string s = "v"; for (auto& x : v) s += " " + (x.type() == typeid(std::vector<std::any>) ? "(" + show(std::any_cast<std::vector<std::any> const&>(x)) + ")" : show(x)); return s; }
static std::string show(std::function<int(int)> const& f) { return f ? std::to_string(f(3)) : "empty"; }
static std::string show(std::pair<int, std::unique_ptr<Base>> const& p) { return std::to_string(p.first) + ":" + show(p.second); }
static std::string show(std::tuple<std::string, int> const& t) { return std::get<0>(t) + ":" + std::to_string(std::get<1>(t)); }
static std::string show(int* p) { return p ? "pointer " + std::to_string(*p) : "null"; }

template <class T> struct Pair {
  Seq<T> s; std::list<T> v;
  const char* type;
  Rng& rng;
  Pair(const char* t, Rng& r) : type(t), rng(r) {}
  template <class C> static auto at(C& c, std::size_t i) { return std::next(c.begin(), (std::ptrdiff_t)i); }
  std::size_t pos() { return rng.one_in(4) ? v.size() : rng.below(v.size() + 1); }
  template <class F> void both(const char* who, F f) {
    step(who, (long)v.size());
    std::size_t i = pos();
    dirty_stack(); f(s, at(s, i));
    dirty_stack(); f(v, at(v, i));
    same(who);
    if (v.size() > 60) { std::size_t k = rng.below(40); s.erase(at(s, 0), at(s, k)); v.erase(v.begin(), at(v, k)); same("erase"); }
  }
  void same(const char* who) {
    VT_CHECK(s.size() == v.size(), "content", "%s of %s: size() is %zu, std::list's %zu", who, type, (std::size_t)s.size(), v.size());
    std::size_t i = 0;
    auto w = v.begin();
    for (auto& x : s) { auto a = show(x), b = show(*w); ++w; VT_CHECK(a == b, "content", "%s of %s: element %zu is \"%s\", std::list's \"%s\"", who, type, i, a.c_str(), b.c_str()); ++i; }
    VT_COUNT("operations");
    saw(mix(mix((u64)who[0] << 16 | (u64)strlen(who), v.size()), (u64)type[0] << 8 | (u64)strlen(type)));
  }
  template <class... A> void make(const char* who, A const&... a) {     // the same arguments everywhere
    both(who, [&](auto& c, auto p) { c.emplace(p, a...); });
    both(who, [&](auto& c, auto) { c.emplace_back(a...); });
    step("emplace_front"); dirty_stack(); s.emplace_front(a...); v.emplace(v.begin(), a...); same(who);
  }
  void count() {
    both("resize", [&](auto& c, auto) { c.resize(c.size() + 5); });
    std::size_t k = rng.below(30);
    dirty_stack();
    Seq<T> n((typename Seq<T>::size_type)k); std::list<T> w(k);
    s.swap(n); v.swap(w); same("counting constructor");
    Seq<T> m(std::move(s)); s = std::move(m); same("move");
  }
  template <class R> void range(const char* who, R const& r) {
    both(who, [&](auto& c, auto p) { c.insert(p, r.begin(), r.end()); });
    dirty_stack();
    { Seq<T> n(r.begin(), r.end()); std::list<T> w(r.begin(), r.end()); s.swap(n); v.swap(w); }
    same(who);
  }
  template <class R> void assigned(const char* who, R const& r) { both(who, [&](auto& c, auto) { c.assign(r.begin(), r.end()); }); }
  template <class R> void moved(const char* who, R make) {              // make() gives a fresh source each time
    both(who, [&](auto& c, auto p) { auto r = make(); c.insert(p, std::make_move_iterator(r.begin()), std::make_move_iterator(r.end())); });
    { auto a = make(), b = make(); Seq<T> n(std::make_move_iterator(a.begin()), std::make_move_iterator(a.end())); std::list<T> w(std::make_move_iterator(b.begin()), std::make_move_iterator(b.end())); s.swap(n); v.swap(w); }
    same(who);
    both(who, [&](auto& c, auto) { auto r = make(); c.assign(std::make_move_iterator(r.begin()), std::make_move_iterator(r.end())); });
  }
};
template <class T> static void value_types(const char* name, Rng& rng) {
  Pair<T> p(name, rng);
  p.count(); p.make("no argument"); p.count();
}
// Every operation that takes or hands on one finished element.
template <class T> static void whole(const char* name, Rng& rng, T const& a, T const& b) {
  Pair<T> p(name, rng);
  auto any = [&]() -> T const& { return rng.one_in(2) ? a : b; };
  for (int k = 0; k < 40; ++k) {
    T const& x = any();
    std::size_t n = rng.below(6);
    switch (rng.below(18)) {
      case 0: p.both("insert(const&)", [&](auto& c, auto i) { c.insert(i, x); }); break;
      case 1: p.both("insert(&&)", [&](auto& c, auto i) { T y(x); c.insert(i, std::move(y)); }); break;
      case 2: p.both("push_back(const&)", [&](auto& c, auto) { c.push_back(x); }); break;
      case 3: p.both("push_front(const&)", [&](auto& c, auto) { c.push_front(x); }); break;
      case 4: p.both("push_back(&&)", [&](auto& c, auto) { c.push_back(T(x)); }); break;
      case 5: p.both("push_front(&&)", [&](auto& c, auto) { c.push_front(T(x)); }); break;
      case 6: p.make("copy", x); break;
      case 7: p.both("emplace(&&)", [&](auto& c, auto i) { c.emplace(i, T(x)); c.emplace_front(T(x)); c.emplace_back(T(x)); }); break;
      case 8: p.both("insert(count)", [&](auto& c, auto i) { c.insert(i, n, x); }); break;
      case 9: p.both("resize(value)", [&](auto& c, auto) { c.resize(c.size() + n, x); }); break;
      case 10: p.both("assign(count)", [&](auto& c, auto) { c.assign(n * 5, x); }); break;
      case 11: p.both("insert(list)", [&](auto& c, auto i) { c.insert(i, std::initializer_list<T>{x, a, b}); }); break;
      case 12: p.both("assignment of a list", [&](auto& c, auto) { std::initializer_list<T> l{x, x, a}; c = l; }); p.both("assign(list)", [&](auto& c, auto) { std::initializer_list<T> l{a, x, b, b}; c.assign(l); }); break;
      case 13: { Seq<T> s(n, x), t(s), u(std::initializer_list<T>{x, a}); std::list<T> v(n, x), w(std::initializer_list<T>{x, a}); t.splice(t.begin(), u); v.splice(v.begin(), w); p.s.swap(t); p.v.swap(v); p.same("constructors"); break; }
      case 14: { auto l = {a, b, x}; p.range("range", l); std::list<T> m(l); p.range("list", m); p.moved("moved range", [&] { return std::list<T>(l); }); break; }
      case 15: p.s.reverse(); p.v.reverse(); p.same("reverse"); break;
      case 16: { std::size_t i = p.pos(), j = p.pos(); if (i > j) std::swap(i, j); p.s.erase(p.at(p.s, i), p.at(p.s, j)); p.v.erase(p.at(p.v, i), p.at(p.v, j)); p.same("erase"); break; }
      default: {
        auto by = [](T const& l, T const& r) { return show(l) < show(r); };
        auto eq = [](T const& l, T const& r) { return show(l) == show(r); };
        Seq<T> t(n, x); std::list<T> w(n, x);
        p.s.sort(by); p.v.sort(by); p.same("sort");
        p.s.merge(t, by); p.v.merge(w, by); p.same("merge");
        if (rng.one_in(2)) { p.s.unique(eq); p.v.unique(eq); p.same("unique"); }
      }
    }
  }
}
static void one_case(Rng& rng) {
  int a = (int)rng.below(50), b = (int)rng.below(9);
  (void)a; (void)b;
#if VT_PART & 1
  value_types<Rec>("Rec", rng); value_types<int>("int", rng); value_types<double>("double", rng); value_types<bool>("bool", rng); value_types<char>("char", rng); value_types<unsigned long long>("ull", rng);
  value_types<int*>("int*", rng); value_types<Colour>("Colour", rng); value_types<std::string>("string", rng); value_types<Listy>("Listy", rng); value_types<std::unique_ptr<Base>>("unique_ptr", rng); value_types<std::any>("any", rng); value_types<Greedy>("Greedy", rng);
#endif
#if VT_PART & 2
  value_types<Json>("Json", rng); value_types<std::vector<std::any>>("vector<any>", rng); value_types<int Klass::*>("int Klass::*", rng); value_types<void (Klass::*)()>("Klass::f", rng); value_types<std::nullptr_t>("nullptr_t", rng);
  whole<Json>("Json", rng, Json(a), Json{Json(b), Json()}); whole<std::vector<std::any>>("vector<any>", rng, std::vector<std::any>(1, a), std::vector<std::any>(2, std::string("s"))); whole<std::any>("any", rng, std::any(a), std::any(std::string("s")));
  whole<int Klass::*>("int Klass::*", rng, &Klass::a, &Klass::b); whole<std::vector<int>>("vector", rng, std::vector<int>(3, a), std::vector<int>()); whole<Listy>("Listy", rng, Listy(a, b), Listy{a, b}); whole<Greedy>("Greedy", rng, Greedy(a), Greedy(a, b)); whole<Expl>("Expl", rng, Expl(a), Expl(a, b));
#endif
#if VT_PART & 4
  {
    Pair<Expl> p("Expl", rng);
    p.count(); p.make("no argument"); p.make("int", a); p.make("two ints", a, b); p.make("string", std::string((std::size_t)b, 'x')); p.make("literal", "abc");
    p.range("ints", std::vector<int>{a, b, 3}); p.range("list of ints", std::list<int>(7, a)); p.range("strings", std::deque<std::string>{"a", "bb"}); p.range("explicit conversion", std::vector<ToExpl>{{a}, {b}});
    p.range("shorts", std::vector<short>{(short)a, 5});
  }
  {
    Pair<Listy> p("Listy", rng);
    p.make("one int", a); p.make("two ints", a, b); p.make("list", std::initializer_list<int>{a, b, 1});
    p.both("braces", [&](auto& c, auto q) { c.insert(q, {a, b, 2}); });          // a Listy or a list of them: whatever it is, the same
    p.both("push braces", [&](auto& c, auto) { c.push_back({a, b, 2}); });
    p.range("ints", std::vector<int>{a, b, 3});
  }
  {
    Pair<std::vector<int>> p("vector", rng);
    p.count(); p.make("count", a); p.make("count and value", b, a); p.make("list", std::initializer_list<int>{a, b}); std::vector<int> w{1, 2, a}; p.make("range", w.begin(), w.end()); p.make("copy", w);
    p.range("counts", std::vector<int>{3, b});
    p.both("push braces", [&](auto& c, auto) { c.push_back({a, b}); });
    p.both("insert braces", [&](auto& c, auto q) { c.insert(q, std::vector<int>{a, b}); });
  }
  {
    Pair<std::string> p("string", rng);
    p.make("count and char", (std::size_t)b, 'z'); p.make("literal", "literal"); p.make("pointer and length", "abcdef", (std::size_t)3); std::string q = "hello"; p.make("substring", q, (std::size_t)1, (std::size_t)2); p.make("range", q.begin(), q.end()); p.make("view", std::string_view("view")); p.make("converting", ToString{b});
    p.range("literals", std::vector<const char*>{"x", "yy", ""}); p.range("views", std::vector<std::string_view>{"a", "bc"}); p.range("converting", std::vector<ToString>{{b}, {2}}); p.assigned("assigned literals", std::vector<const char*>{"k", "ll", "mmm", "n"}); p.assigned("assigned converting", std::vector<ToString>{{b}});
    p.both("braces", [&](auto& c, auto i) { c.insert(i, {"one", "two"}); });
    p.both("assigned list", [&](auto& c, auto) { c = {"one", "two", "three"}; });
    p.both("implicit push", [&](auto& c, auto) { c.push_back("pushed"); });
  }
  {
    Pair<std::unique_ptr<Base>> p("unique_ptr", rng);
    p.both("derived", [&](auto& c, auto i) { c.insert(i, std::make_unique<Derived>(a)); });
    p.both("derived back", [&](auto& c, auto) { c.push_back(std::make_unique<Derived>(b)); });
    p.both("raw", [&](auto& c, auto i) { c.emplace(i, new Derived(a)); });
    p.both("raw back", [&](auto& c, auto) { c.emplace_back(new Base); });
    p.both("null", [&](auto& c, auto i) { c.emplace(i, nullptr); });
    p.make("nullptr", nullptr);
    p.moved("derived", [&] { std::vector<std::unique_ptr<Derived>> r; for (int k = 0; k < b; ++k) r.push_back(std::make_unique<Derived>(k)); return r; });
    p.count();
  }
#endif
#if VT_PART & 8
  {
    Pair<std::shared_ptr<Base>> p("shared_ptr", rng);
    p.both("unique", [&](auto& c, auto i) { c.insert(i, std::make_unique<Derived>(a)); });
    p.both("raw", [&](auto& c, auto) { c.emplace_back(new Derived(a)); });
    p.both("rvalue", [&](auto& c, auto i) { auto q = std::make_shared<Derived>(b); c.emplace(i, std::move(q)); });
    p.both("rvalue back", [&](auto& c, auto) { auto q = std::make_shared<Derived>(b); c.emplace_back(std::move(q)); });
    { auto q = std::make_shared<Derived>(a); p.s.emplace_front(std::move(q)); p.v.emplace(p.v.begin(), std::make_shared<Derived>(a)); p.same("rvalue front"); }
    { auto q = std::make_shared<Base>(); std::shared_ptr<Base> r(q); p.s.push_front(std::move(q)); p.v.insert(p.v.begin(), std::make_shared<Base>()); r.reset(); p.same("push rvalue front"); }
    p.moved("uniques", [&] { std::list<std::unique_ptr<Derived>> r; for (int k = 0; k < b; ++k) r.push_back(std::make_unique<Derived>(k)); return r; });
  }
  {
    Pair<std::any> p("any", rng);
    p.make("int", a); p.make("string", std::string("s")); p.make("any", std::any(b)); p.make("in place", std::in_place_type<std::string>, (std::size_t)3, 'i');
    p.both("insert int", [&](auto& c, auto i) { c.insert(i, std::any(a)); }); p.both("implicit", [&](auto& c, auto) { c.push_back(a); });
    p.range("ints", std::vector<int>{1, 2, b}); p.range("anys", std::vector<std::any>{a, std::string("t"), {}});
  }
  {
    Pair<std::function<int(int)>> p("function", rng);
    p.make("lambda", [a](int x) { return x + a; }); p.make("nothing"); p.make("null", nullptr);
    p.both("implicit", [&](auto& c, auto i) { c.insert(i, [b](int x) { return x * b; }); });
    p.count();
  }
  {
    Pair<std::pair<int, std::unique_ptr<Base>>> p("pair", rng);
    p.both("two", [&](auto& c, auto i) { c.emplace(i, a, std::make_unique<Derived>(b)); });
    p.both("piecewise", [&](auto& c, auto i) { c.emplace(i, std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(new Derived(b))); });
    p.both("braces", [&](auto& c, auto) { c.push_back({b, nullptr}); });
    p.count();
  }
  {
    Pair<std::tuple<std::string, int>> p("tuple", rng);
    p.make("two", "text", a); p.make("nothing"); p.both("push", [&](auto& c, auto) { c.push_back(std::make_tuple(std::string("m"), b)); });
  }
  {
    Pair<Greedy> p("Greedy", rng);
    int n = 3; const int k = 4;
    p.both("lvalue", [&](auto& c, auto i) { c.emplace(i, n); }); p.both("const lvalue", [&](auto& c, auto i) { c.emplace(i, k); }); p.both("rvalue", [&](auto& c, auto i) { c.emplace(i, 5); });
    p.both("back lvalue", [&](auto& c, auto) { c.emplace_back(n); }); p.both("back const", [&](auto& c, auto) { c.emplace_back(k); }); p.both("back rvalue", [&](auto& c, auto) { c.emplace_back(5); });
    p.both("two", [&](auto& c, auto i) { c.emplace(i, n, 5); }); p.both("two back", [&](auto& c, auto) { c.emplace_back(7, k); });
    p.s.emplace_front(n); p.v.emplace(p.v.begin(), n); p.s.emplace_front(5); p.v.emplace(p.v.begin(), 5); p.s.emplace_front(k, 5); p.v.emplace(p.v.begin(), k, 5); p.same("front");
    std::vector<int> r{1, 2}; p.both("range", [&](auto& c, auto i) { c.insert(i, r.begin(), r.end()); }); p.both("const range", [&](auto& c, auto i) { c.insert(i, r.cbegin(), r.cend()); });
    p.both("moved range", [&](auto& c, auto i) { auto q = r; c.insert(i, std::make_move_iterator(q.begin()), std::make_move_iterator(q.end())); });
  }
#endif
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    one_case(rng);
    if (id < 1) sample("every form of construction of 17 element types, against std::list given the same calls");
  }
  return finish();
}
