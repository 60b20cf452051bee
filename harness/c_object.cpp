// C32: identity, type, lifetime and forwarding of the interpreter's generic handle.
#include <atomic>
#include <openscenario_interpreter/object.hpp>
#include <set>

#include "vh.hpp"
using namespace vh;
using namespace openscenario_interpreter;

static std::map<int, int> born, died;
static int next_id = 0;
static std::set<int> evaluated_now;

struct Tracked
{
  const int id;
  std::uint64_t canary = 0xC0FFEE;
  Tracked() : id(next_id++) { ++born[id]; }
  Tracked(const Tracked & o) : id(next_id++), value(o.value) { ++born[id]; }
  virtual ~Tracked() { ++died[id]; canary = 0; }
  std::string value;
};
struct Base { int base = 7; virtual ~Base() = default; };
struct Plain : Tracked { explicit Plain(const std::string & v = "") { value = v; } };
struct Printing : Tracked, Base
{
  explicit Printing(const std::string & v) { value = v; }
  friend std::ostream & operator<<(std::ostream & os, const Printing & p) { return os << "printed(" << p.value << ")"; }
  auto description() const -> std::string { return "described " + value; }
};
struct Evaluating : Tracked
{
  int times = 0;
  Object result;
  explicit Evaluating(Object o) : result(o) {}
  auto evaluate() -> Object { ++times; return result; }
};
struct Finishing : Tracked, Base
{
  bool done;
  explicit Finishing(bool d) : done(d) {}
  auto accomplished() -> bool { return done; }
};
struct Throwing : Tracked
{
  auto evaluate() -> Object { throw SemanticError("evaluated ", id); }
};
struct Refusing : Tracked
{
  explicit Refusing(int) { throw std::runtime_error("not constructed"); }
};
struct VisitedA : virtual Base { int v = 1; };
struct VisitedB : virtual Base { int v = 2; };
struct Choice : public ComplexType { using ComplexType::ComplexType; Choice(const Object & o) : ComplexType(o) {} };
DEFINE_LAZY_VISITOR(const Choice, CASE(VisitedA), CASE(VisitedB));

struct Info { int kind; int id; Tracked * address; std::string value; bool done; };

template <typename T> static bool refuses(const Object & o)
{
  try {
    o.as<T>();
    return false;
  } catch (const SemanticError &) {
    return true;
  }
}

static std::string text_of(const Object & o)
{
  std::ostringstream s;
  s << o;
  return s.str();
}

static void inspect(const Object & o, const Info * info, const std::string & story)
{
  auto bad = [&](const char * k, const std::string & w) { fail(k, w + "\nafter " + story); };
  if (!info) {
    if (o) bad("null", "an empty handle holds something");
    if (o.is<Plain>() || o.is_also<Base>()) bad("null-type", "an empty handle has a type");
    if (!refuses<Plain>(o)) bad("null-cast", "an empty handle was cast");
    bool threw = false;
    try { o.evaluate(); } catch (const SemanticError &) { threw = true; }
    if (!threw) bad("null-evaluate", "an empty handle was evaluated");
    return;
  }
  if (!o) return bad("lost", "a handle became empty");
  const int k = info->kind;
  const bool types[] = {o.is<Plain>(), o.is<Printing>(), o.is<Evaluating>(), o.is<Finishing>(), o.is<Throwing>()};
  const bool also[] = {o.is_also<Plain>(), o.is_also<Printing>(), o.is_also<Evaluating>(), o.is_also<Finishing>(), o.is_also<Throwing>()};
  const bool refused[] = {refuses<Plain>(o), refuses<Printing>(o), refuses<Evaluating>(o), refuses<Finishing>(o), refuses<Throwing>(o)};
  for (int i = 0; i < 5; ++i)
    if (types[i] != (i == k) || also[i] != (i == k) || refused[i] != (i != k)) return bad("type", cat("kind ", k, " taken for kind ", i));
  if (o.is_also<Base>() != (k == 1 || k == 3) || refuses<Base>(o) != !(k == 1 || k == 3)) bad("base", cat("kind ", k, " and its base"));
  if ((k == 1 || k == 3) && o.as<Base>().base != 7) bad("base-value", "the base part differs");
  Tracked & t = o.as<Tracked>();
  if (&t != info->address || t.id != info->id) bad("identity", "a cast returned another object");
  if (t.canary != 0xC0FFEE || died[t.id]) return bad("dead", "a handle refers to a destroyed object");
  if (k < 2 && t.value != info->value) bad("value", "the object changed");
  const bool done = o.accomplished();
  if (done != (k == 3 && info->done)) bad("accomplished", cat("accomplished() is ", done));
  const std::string d = o.description();
  if (d != (k == 1 ? "described " + info->value : "")) bad("description", d);
  const auto text = text_of(o);
  if (k == 1 && text.find("printed(" + info->value + ")") == std::string::npos) bad("print", text);
  if (k == 0 && text.find("Plain") == std::string::npos) bad("print", text);
  if (k == 2) {
    auto & e = o.as<Evaluating>();
    const int before = e.times;
    if (o.evaluate().get() != e.result.get() || e.times != before + 1) bad("evaluate", "evaluation through the handle differs");
  } else if (k == 4) {
    std::string w;
    try { o.evaluate(); } catch (const SemanticError & e) { w = e.what(); }
    if (w.find(cat("evaluated ", info->id)) == std::string::npos) bad("evaluate-error", "the error of the evaluation was lost: " + w);
  } else if (o.evaluate().get() != o.get()) {
    bad("self-evaluation", "an object without evaluation does not evaluate to itself");
  }
  count("handles inspected");
}

static void history(Rng & r)
{
  std::string story;
  born.clear();
  died.clear();
  {
    std::vector<Object> handles(std::size_t(r.i(1, 6)));
    std::vector<std::shared_ptr<Info>> model(handles.size());
    std::vector<std::weak_ptr<Info>> all;
    std::map<int, std::weak_ptr<Info>> alive;
    auto pick = [&]() { return std::size_t(r.i(0, std::int64_t(handles.size()) - 1)); };
    for (int step = 0, m = int(r.i(1, 40)); step < m; ++step) {
      const auto i = pick(), j = pick();
      const int op = int(r.i(0, 9));
      story += cat(op, ":", i, ",", j, " ");
      current(story);
      if (op <= 3) {
        const int kind = int(r.i(0, 4));
        const std::string v = cat("v", r.i(0, 99));
        const bool done = r.chance(0.5);
        const bool re = r.chance(0.3);
        Object o;
        Object inner = handles[j];
        while (inner && inner.is<Evaluating>()) inner = Object();  // no cycles
        switch (kind) {
          case 0: if (re) { o = handles[i]; auto h = o; h.rebind<Plain>(v); if (h.get() == o.get()) fail("rebind", "rebinding kept the old object\nafter " + story); o = h; } else if (r.chance(0.5)) o = make<Plain>(v); else o = make(Plain(v)); break;
          case 1: if (re) { o = handles[i]; o.rebind<Printing>(v); } else o = make<Printing>(v); break;
          case 2: o = make<Evaluating>(inner); break;
          case 3: o = make<Finishing>(done); break;
          default: o = make<Throwing>(); break;
        }
        story += cat("make", kind, " ");
        auto & t = o.as<Tracked>();
        auto info = std::shared_ptr<Info>(new Info{kind, t.id, &t, v, done});
        if (kind == 2) {  // keeps what it evaluates to
          auto keep = model[j] && inner ? model[j] : nullptr;
          info = std::shared_ptr<Info>(info.get(), [info, keep](Info *) mutable { info.reset(); keep.reset(); });
        }
        alive[t.id] = info;
        handles[i] = o;
        model[i] = info;
      } else if (op == 4) { handles[i] = handles[j]; model[i] = model[j]; }
      else if (op == 5) { if (i != j) { handles[i] = std::move(handles[j]); model[i] = std::move(model[j]); handles[j] = Object(); model[j] = nullptr; } }
      else if (op == 6) { handles[i] = Object(); model[i] = nullptr; }
      else if (op == 7) { std::swap(handles[i], handles[j]); std::swap(model[i], model[j]); }
      else if (op == 8) {
        const int b = next_id;
        bool threw = false;
        try { make<Refusing>(1); } catch (const std::runtime_error &) { threw = true; }
        if (!threw || died[b] != 1) fail("refusing", "a constructor that throws");
      } else { Elements e{handles[i], handles[j]}; if (e.front().get() != handles[i].get()) fail("list", "a copied handle refers to another object"); }
      for (std::size_t k = 0; k < handles.size(); ++k) {
        inspect(handles[k], model[k].get(), story);
        for (std::size_t l = 0; l < k; ++l)
          if ((handles[k] == handles[l]) != (model[k] == model[l])) fail("sharing", "handles compare differently from the objects\n" + story);
      }
      for (auto & [id, w] : alive) {
        const bool want = !w.expired();
        if ((died[id] == 0) != want) { fail(want ? "destroyed-early" : "not-destroyed", cat("object ", id, " was destroyed ", died[id], " times while ", want ? "a" : "no", " handle refers to it\nafter ", story)); alive.clear(); break; }
      }
    }
  }
  for (auto & [id, c] : born)
    if (died[id] != 1) { fail("destroyed-count", cat("object ", id, " was destroyed ", died[id], " times\nafter ", story)); break; }
  count("objects created", born.size());
  observed(story);
  sample(story.substr(0, 150), 3);
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (std::uint64_t i = 0; i < n(1200, 40000); ++i) history(r);
  // the type-directed visitor calls the function with the stored object, and refuses other types
  auto name = [](auto & x) { return x.v; };
  const Choice a(make<VisitedA>()), b(make<VisitedB>()), c(make<Plain>("x"));
  if (apply<int>(name, a) != 1 || apply<int>(name, b) != 2) fail("visitor", "the visitor took one type for another");
  bool threw = false;
  try { apply<int>(name, c); } catch (const SyntaxError &) { threw = true; }
  if (!threw) fail("visitor-refusal", "the visitor accepted a foreign type");
  if (unspecified.evaluate().get() != unspecified.get() || !unspecified.is<Unspecified>()) fail("unspecified", "unspecified does not evaluate to itself");
  observed("visitor");
  finish();
}
