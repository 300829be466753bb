// C15-C17: collections, containers and references against membership models.
// C18: paths and resolution over random object trees.
// C19: component lifecycle monitor.  C20: event delivery monitor.
#include "smpx.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/IArrayField.h>
#include <Smp/IFailure.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/ReferenceFull.h>
#include <Smp/Services/IResolver.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Object.h>
#include <optional>
using namespace smpx;
namespace {
using ::Smp::IComponent;
using ::Smp::IObject;

/// the name of the Smp error thrown by f, "" when none, "?..." for anything else
template <typename F> std::string thrown(F &&f) {
  try { f(); return ""; }
  catch (const xv::Violation &) { throw; }
  catch (const ::Smp::Exception &e) { return e.GetName(); }
  catch (const std::exception &e) { return std::string("?") + e.what(); }
}

// ---------------------------------------------------------------- C15
struct Iface { virtual ~Iface() = default; };
struct Item : ::Xsmp::Object, Iface {
  int *destroyed;
  Item(const char *n, int *d) : Object(n), destroyed(d) {}
  ~Item() noexcept override { ++*destroyed; }
};
struct NotObject : Iface {};
const char *const names[] = {"a", "b", "ab", "B", "a_", "a1", "x", "abc", "[0]", "[10]"};
const char *const lookups[] = {"a", "b", "ab", "B", "a_", "a1", "x", "abc", "[0]", "[10]", "", "zz", "A", "abcd", "[1]"};

template <typename Col, typename T> void compare(const Col &col, const std::vector<T *> &model, const char *what) {
  XV_EQ(col.size(), model.size(), "size", what << ": size()");
  XV_EQ(col.empty(), model.empty(), "size", what << ": empty()");
  const ::Smp::ICollection<T> &i = col;
  for (std::size_t k = 0; k < model.size(); ++k) XV_EQ(i.at(k), model[k], "position", what << ": element " << k << " of " << model.size());
  for (std::size_t k : {model.size(), model.size() + 1, model.size() * 2 + 7, std::size_t(-1), std::size_t(1) << 63U}) XV_CHECK(i.at(k) == nullptr, "position", what << ": an element at position " << k << " of " << model.size());
  for (const char *n : lookups) {
    T *want = nullptr;
    for (auto *m : model) if (!want && std::string(dynamic_cast<IObject *>(m)->GetName()) == n) want = m;
    std::string lent(n); // looked up by text, not by pointer
    XV_EQ(i.at(lent.c_str()), want, "name", what << ": element named " << xv::show(n));
  }
  XV_CHECK(i.at(static_cast<const char *>(nullptr)) == nullptr, "name", what << ": an element with a null name");
  std::vector<T *> seen;
  for (auto *e : i) seen.push_back(e);
  XV_CHECK(seen == model, "iteration", what << ": iteration yields " << seen.size() << " elements, not the " << model.size() << " expected ones in insertion order");
  seen.clear();
  for (auto it = i.begin(); it != i.end(); ++it) seen.push_back(*it);
  XV_CHECK(seen == model, "iteration", what << ": iterating by hand differs");
  XV_COUNT("collection states");
}

template <typename T, bool Dup> struct Plain {
  ::Xsmp::Collection<T, Dup> col{"col", "d", nullptr};
  static constexpr bool dup = Dup;
  std::vector<T *> base;
  void mutateBase(xv::Case &, std::vector<std::unique_ptr<Item>> &) {}
  static const char *name() { return Dup ? "collection with duplicates" : "collection"; }
};
template <typename T, bool Dup> struct Delegating {
  ::Xsmp::Collection<T, true> under{"under", "what", nullptr};
  ::Xsmp::detail::AbstractCollection<T> *none = nullptr;
  ::Xsmp::DelegateCollection<T, Dup> col{&under};
  static constexpr bool dup = Dup;
  std::vector<T *> base;
  void mutateBase(xv::Case &c, std::vector<std::unique_ptr<Item>> &pool) {
    auto *e = static_cast<T *>(pool[c.rng.below(pool.size())].get());
    if (c.rng.chance(2, 3)) { under.Add(e); base.push_back(e); c.op("base+"); }
    else if (auto it = std::find(base.begin(), base.end(), e); it != base.end()) { under.Remove(e); base.erase(it); c.op("base-"); }
  }
  static const char *name() { return "delegating collection"; }
};

template <typename C, typename T> void history(xv::Case &c) {
  int destroyed = 0;
  std::vector<std::unique_ptr<Item>> pool;
  std::vector<T *> own;
  C h;
  for (int i = 0; i < 14; ++i) pool.push_back(std::make_unique<Item>(names[c.rng.below(std::size(names))], &destroyed));
  NotObject odd;
  unsigned refused = 0, accepted = 0;
  auto model = [&] { auto m = h.base; m.insert(m.end(), own.begin(), own.end()); return m; };
  for (unsigned n = static_cast<unsigned>(c.rng.range(3, 40)); n > 0; --n) {
    auto m = model();
    switch (c.rng.below(12)) {
    case 0: case 1: case 2: case 3: case 4: {
      auto *e = pool[c.rng.below(pool.size())].get();
      bool clash = false;
      for (auto *x : m) clash |= std::strcmp(dynamic_cast<IObject *>(x)->GetName(), e->GetName()) == 0;
      c.op(std::string("add ") + e->GetName());
      auto t = thrown([&] { h.col.Add(e); });
      if (clash && !C::dup) { XV_EQ(t, "DuplicateName", "duplicate", C::name() << ": adding a second " << e->GetName()); ++refused; }
      else { XV_EQ(t, "", "add", C::name() << ": adding " << e->GetName()); own.push_back(e); ++accepted; }
      break; }
    case 5: case 6: case 7: {
      auto *e = pool[c.rng.below(pool.size())].get();
      c.op(std::string("remove ") + e->GetName());
      auto it = std::find(own.begin(), own.end(), static_cast<T *>(e));
      bool r = h.col.Remove(e);
      XV_EQ(r, it != own.end(), "remove", C::name() << ": removing " << e->GetName() << " reports");
      if (it != own.end()) own.erase(it);
      break; }
    case 8: if (c.rng.chance(1, 4)) { c.op("clear"); h.col.clear(); own.clear(); } break;
    case 9: h.mutateBase(c, pool); break;
    case 10:
      if constexpr (!std::is_base_of_v<IObject, T>) {
        c.op("odd");
        XV_CHECK(!thrown([&] { h.col.Add(&odd); }).empty(), "odd", "an element that is no object was added");
        XV_CHECK(!thrown([&] { h.col.Remove(&odd); }).empty(), "odd", "an element that is no object was removed");
      } else XV_EQ(h.col.Remove(nullptr), false, "remove", "removing null reports");
      break;
    default: break;
    }
    compare<decltype(h.col), T>(h.col, model(), C::name());
  }
  c.nontrivial = refused + accepted > 3;
  xv::count("refused duplicates", refused);
  XV_EQ(destroyed, 0, "ownership", C::name() << " destroyed an element it does not own");
}
template <bool Dup> void owning(xv::Case &c) {
  int destroyed = 0, made = 0;
  unsigned refused = 0;
  {
    ::Xsmp::ContainingCollection<Item, Dup> col{"col", "d", nullptr};
    std::vector<Item *> model;
    for (unsigned n = static_cast<unsigned>(c.rng.range(3, 40)); n > 0; --n) {
      int before = destroyed;
      switch (c.rng.below(10)) {
      case 0: case 1: case 2: case 3: case 4: {
        const char *name = names[c.rng.below(std::size(names))];
        bool clash = false;
        for (auto *x : model) clash |= std::strcmp(x->GetName(), name) == 0;
        c.op(std::string("add ") + name);
        Item *got = nullptr;
        auto t = thrown([&] { ++made; got = c.rng.chance(1, 2) ? col.template Add<Item>(name, &destroyed) : col.Add(std::make_unique<Item>(name, &destroyed)); });
        if (clash && !Dup) { XV_EQ(t, "DuplicateName", "duplicate", "owning collection: adding a second " << name); XV_EQ(destroyed, before + 1, "ownership", "elements destroyed by a refused add"); ++refused; }
        else { XV_EQ(t, "", "add", "owning collection: adding " << name); model.push_back(got); XV_EQ(destroyed, before, "ownership", "elements destroyed by adding"); }
        break; }
      case 5: case 6: case 7:
        if (!model.empty()) {
          auto it = model.begin() + static_cast<std::ptrdiff_t>(c.rng.below(model.size()));
          c.op(std::string("remove ") + (*it)->GetName());
          XV_EQ(col.Remove(*it), true, "remove", "owning collection: removing a member reports");
          XV_EQ(destroyed, before + 1, "ownership", "elements destroyed by removing one");
          model.erase(it);
        } else XV_EQ(col.Remove(nullptr), false, "remove", "owning collection: removing null reports");
        break;
      case 8: { Item other("a", &destroyed); XV_EQ(col.Remove(&other), false, "remove", "owning collection: removing a stranger reports"); ++made; break; }
      default: if (c.rng.chance(1, 4)) { c.op("clear"); col.clear(); XV_EQ(destroyed, before + static_cast<int>(model.size()), "ownership", "elements destroyed by clear"); model.clear(); } break;
      }
      compare<decltype(col), Item>(col, model, "owning collection");
    }
    c.nontrivial = model.size() + refused > 1;
  }
  xv::count("refused duplicates", refused);
  XV_EQ(destroyed, made, "ownership", "elements destroyed with the owning collection");
}
} // namespace
XV_SCENARIO(C15, plain, 1500, 40000) { if (c.index % 2) history<Plain<IObject, false>, IObject>(c); else history<Plain<IObject, true>, IObject>(c); }
XV_SCENARIO(C15, iface, 800, 20000) { if (c.index % 2) history<Plain<Iface, false>, Iface>(c); else history<Plain<Iface, true>, Iface>(c); }
XV_SCENARIO(C15, delegating, 1200, 20000) { if (c.index % 3) history<Delegating<IObject, false>, IObject>(c); else history<Delegating<IObject, true>, IObject>(c); }
XV_SCENARIO(C15, owning, 1500, 40000) { if (c.index % 2) owning<false>(c); else owning<true>(c); }

// ---------------------------------------------------------------- C16, C17
namespace {
/// a component that tells when it is destroyed and disconnected
struct Life { int destroyed = 0, disconnected = 0; bool connected = false, done = false; };
template <typename Base> struct Tracked : Base {
  std::shared_ptr<Life> life;
  template <typename... A> explicit Tracked(std::shared_ptr<Life> l, A &&...a) : Base(std::forward<A>(a)...), life(std::move(l)) {}
  ~Tracked() noexcept override { ++life->destroyed; }
  void Disconnect() override { ++life->disconnected; Base::Disconnect(); }
};
struct Kid {
  std::string name;
  IComponent *p;
  std::shared_ptr<Life> life;
  int kind; // 0 Node, 1 Leaf, 2 Svc
  ::Smp::IComposite *parent;
};
Kid makeKid(const std::string &name, int kind, ::Smp::IComposite *parent) {
  auto l = std::make_shared<Life>();
  IComponent *p = nullptr;
  if (kind == 0) p = new Tracked<Node>(l, name.c_str(), "", parent, nullptr);
  else if (kind == 1) p = new Tracked<Leaf>(l, name.c_str(), "", parent, nullptr);
  else p = new Tracked<Svc>(l, name.c_str(), "", parent, nullptr);
  return {name, p, l, kind, parent};
}
template <typename T> bool accepts(const Kid &k) { return dynamic_cast<T *>(k.p) != nullptr; }
/// one container or reference with its model
struct Box {
  std::string name, type;
  ::Smp::Int64 lower, upper;
  ::Smp::IContainer *con = nullptr;
  ::Smp::IReference *ref = nullptr;
  std::function<bool(const Kid &)> fits;
  std::function<std::vector<IComponent *>()> native; // through the typed interface
  std::vector<Kid> model;
  bool full() const { return upper >= 0 && static_cast<::Smp::Int64>(model.size()) >= upper; }
};
template <typename H, typename T> std::vector<IComponent *> natives(H &h) {
  std::vector<IComponent *> v;
  for (auto *e : h) v.push_back(dynamic_cast<IComponent *>(e));
  std::vector<IComponent *> w;
  for (std::size_t i = 0; i < h.size(); ++i) { w.push_back(dynamic_cast<IComponent *>(h[i])); if (h.at(i) != h[i]) XV_FAIL("content", "at() and [] differ"); }
  XV_CHECK(v == w, "content", "typed iteration and indexing differ");
  std::vector<IComponent *> r;
  for (auto it = h.rbegin(); it != h.rend(); ++it) r.insert(r.begin(), dynamic_cast<IComponent *>(*it));
  XV_CHECK(v == r, "content", "reverse iteration differs");
  if (!v.empty()) XV_CHECK(dynamic_cast<IComponent *>(h.front()) == v.front() && dynamic_cast<IComponent *>(h.back()) == v.back(), "content", "front or back differs");
  XV_EQ(h.empty(), v.empty(), "content", "typed empty()");
  bool out = false;
  try { h.at(h.size()); } catch (const std::out_of_range &) { out = true; }
  XV_CHECK(out, "content", "no out-of-range error beyond the end");
  for (auto *e : h) { auto *c = dynamic_cast<IComponent *>(e); XV_CHECK(h.find(e) != h.end() && dynamic_cast<IComponent *>(*h.find(e)) == c, "content", "find(pointer) of a member"); std::string n = c->GetName(); auto *f = dynamic_cast<IComponent *>(h.at(n)); XV_EQ(std::string(f->GetName()), n, "content", "at(name)"); }
  // the read-only interface and the access by name show the same
  const H &ch = h;
  std::vector<IComponent *> x, y;
  for (auto it = ch.begin(); it != ch.end(); ++it) x.push_back(dynamic_cast<IComponent *>(*it));
  XV_CHECK(v == x && static_cast<std::size_t>(ch.cend() - ch.cbegin()) == v.size(), "content", "read-only iteration differs");
  x.clear();
  for (auto it = ch.rbegin(); it != ch.rend(); ++it) x.insert(x.begin(), dynamic_cast<IComponent *>(*it));
  for (auto it = ch.crbegin(); it != ch.crend(); ++it) y.insert(y.begin(), dynamic_cast<IComponent *>(*it));
  XV_CHECK(v == x && v == y, "content", "read-only reverse iteration differs");
  XV_EQ(ch.size(), v.size(), "content", "read-only size()");
  for (std::size_t i = 0; i < v.size(); ++i) {
    XV_CHECK(dynamic_cast<IComponent *>(ch[i]) == v[i] && dynamic_cast<IComponent *>(ch.at(i)) == v[i], "content", "read-only access to element " << i);
    const std::string n = v[i]->GetName();
    const auto first = static_cast<std::size_t>(std::find_if(v.begin(), v.end(), [&](auto *e) { return n == e->GetName(); }) - v.begin());
    XV_CHECK(h[n] == h[first] && ch[n] == h[first] && h.at(n) == h[first] && ch.at(n) == h[first], "content", "access by the name " << n << " yields another element than the first of that name");
    XV_CHECK(h.find(n) == h.begin() + static_cast<std::ptrdiff_t>(first) && ch.find(n) == ch.begin() + static_cast<std::ptrdiff_t>(first), "content", "find(" << n << ")");
  }
  if (!v.empty()) XV_CHECK(ch.front() == h.front() && ch.back() == h.back(), "content", "read-only front or back differs");
  for (const char *n : {"", "nobody"}) {
    XV_CHECK(h.find(n) == h.end() && ch.find(n) == ch.end(), "content", "found an element named " << xv::show(n));
    xv::throws<std::out_of_range>("content", "at() with an unknown name", [&] { (void)h.at(n); });
    xv::throws<std::out_of_range>("content", "read-only at() with an unknown name", [&] { (void)ch.at(n); });
  }
  xv::throws<std::out_of_range>("content", "read-only at() beyond the end", [&] { (void)ch.at(ch.size()); });
  return v;
}
template <typename Owner, typename T> Box makeContainer(Owner &o, const char *name, const char *type, ::Smp::Int64 lo, ::Smp::Int64 up) {
  auto &h = o.own.template make<::Xsmp::Container<T>>(name, "", static_cast<::Xsmp::Composite *>(&o), lo, up);
  Box b{name, type, lo, up};
  b.con = &h;
  b.fits = [](const Kid &k) { return accepts<T>(k); };
  b.native = [&h] { return natives<::Xsmp::Container<T>, T>(h); };
  return b;
}
template <typename Owner, typename T> Box makeReference(Owner &o, const char *name, const char *type, ::Smp::Int64 lo, ::Smp::Int64 up) {
  auto &h = o.own.template make<::Xsmp::Reference<T>>(name, "", static_cast<::Xsmp::Aggregate *>(&o), lo, up);
  Box b{name, type, lo, up};
  b.ref = &h;
  b.fits = [](const Kid &k) { return accepts<T>(k); };
  b.native = [&h] { return natives<::Xsmp::Reference<T>, T>(h); };
  return b;
}
const char *const kidNames[] = {"a", "b", "c", "d", "ab", "f", "ep", "op", "pr", "src", "snk", "fl", "[0]", "other"};
template <typename X> void content(const Box &b, const X &x) {
  std::vector<IComponent *> want;
  for (const auto &k : b.model) want.push_back(k.p);
  XV_EQ(x.GetCount(), static_cast<::Smp::Int64>(want.size()), "count", b.name << ": GetCount()");
  XV_EQ(x.GetLower(), b.lower, "limits", b.name << ": GetLower()");
  XV_EQ(x.GetUpper(), b.upper, "limits", b.name << ": GetUpper()");
  XV_CHECK(b.native() == want, "content", b.name << ": typed content differs from the components added and not removed");
  const auto *cc = x.GetComponents();
  XV_EQ(cc->size(), want.size(), "content", b.name << ": size of GetComponents()");
  std::vector<IComponent *> seen;
  for (auto *e : *cc) seen.push_back(e);
  XV_CHECK(seen == want, "content", b.name << ": iteration over GetComponents()");
  for (std::size_t i = 0; i < want.size(); ++i) XV_EQ(cc->at(i), want[i], "content", b.name << ": component " << i);
  for (std::size_t i : {want.size(), want.size() + 3, std::size_t(-1)}) XV_CHECK(cc->at(i) == nullptr, "content", b.name << ": a component at position " << i << " of " << want.size());
  for (const char *n : kidNames) {
    IComponent *first = nullptr;
    for (const auto &k : b.model) if (!first && k.name == n) first = k.p;
    XV_EQ(x.GetComponent(std::string(n).c_str()), first, "lookup", b.name << ": GetComponent(" << n << ")");
    XV_EQ(cc->at(std::string(n).c_str()), first, "lookup", b.name << ": GetComponents()->at(" << n << ")");
  }
  XV_CHECK(x.GetComponent(nullptr) == nullptr && x.GetComponent("") == nullptr && x.GetComponent("nobody") == nullptr, "lookup", b.name << ": found a component under no name");
  for (const auto &k : b.model) XV_EQ(k.life->destroyed, 0, "alive", b.name << ": component " << k.name << " was destroyed");
  XV_COUNT("states compared");
}
/// the lower and upper limits of a random container
std::pair<::Smp::Int64, ::Smp::Int64> limits(xv::Case &c) {
  ::Smp::Int64 up = c.rng.chance(1, 3) ? -1 : c.rng.range(0, 5);
  ::Smp::Int64 lo = c.rng.chance(1, 2) ? 0 : c.rng.range(0, up < 0 ? 3 : up);
  return {lo, up};
}
} // namespace
XV_SCENARIO(C16, histories, 2500, 12000) {
  std::vector<std::shared_ptr<Life>> all;
  std::vector<Kid> loose;
  unsigned refused = 0, accepted = 0, deleted = 0;
  {
    ::Xsmp::Publication::TypeRegistry types;
    auto owner = std::make_unique<Node>("owner", "", nullptr, nullptr);
    auto stranger = std::make_unique<Node>("stranger", "", nullptr, nullptr);
    std::unique_ptr<::Xsmp::Publication::Publication> pub;
    std::set<std::string> taken;
    ::Smp::Int32 value = 0;
    bool published = c.rng.chance(1, 2);
    if (published) {
      pub = std::make_unique<::Xsmp::Publication::Publication>(owner.get(), &types);
      owner->Publish(pub.get());
    }
    auto member = [&] { // one more named member of the owner
      switch (c.rng.below(7)) {
      case 0: if (published && taken.insert("f").second) pub->PublishField("f", "", &value); break;
      case 1: if (taken.insert("ep").second) owner->own.make<::Xsmp::EntryPoint>("ep", "", static_cast<::Xsmp::EntryPointPublisher *>(owner.get()), [] {}); break;
      case 2: if (published && taken.insert("op").second) pub->PublishOperation("op", "", ::Smp::ViewKind::VK_All); break;
      case 3: if (published && taken.insert("pr").second) pub->PublishProperty("pr", "", ::Smp::Uuids::Uuid_Int32, ::Smp::AccessKind::AK_ReadWrite, ::Smp::ViewKind::VK_All); break;
      case 4: if (taken.insert("src").second) owner->own.make<::Xsmp::EventSource<void>>("src", "", static_cast<::Xsmp::EventProvider *>(owner.get())); break;
      case 5: if (taken.insert("snk").second) owner->own.make<::Xsmp::EventSink<void>>("snk", "", static_cast<::Xsmp::EventConsumer *>(owner.get()), [](IObject *) {}); break;
      default: break;
      }
    };
    std::vector<Box> boxes;
    for (int i = static_cast<int>(c.rng.range(1, 3)); i > 0; --i) {
      auto [lo, up] = limits(c);
      auto n = "box" + std::to_string(i);
      switch (c.rng.below(4)) {
      case 0: boxes.push_back(makeContainer<Node, IComponent>(*owner, n.c_str(), "IComponent", lo, up)); break;
      case 1: boxes.push_back(makeContainer<Node, ::Smp::IModel>(*owner, n.c_str(), "IModel", lo, up)); break;
      case 2: boxes.push_back(makeContainer<Node, Node>(*owner, n.c_str(), "Node", lo, up)); break;
      default: boxes.push_back(makeContainer<Node, ::Smp::IComposite>(*owner, n.c_str(), "IComposite", lo, up)); break;
      }
    }
    for (int i = 0; i < 3; ++i) member();
    for (unsigned n = static_cast<unsigned>(c.rng.range(5, 40)); n > 0; --n) {
      auto &b = c.rng.pick(boxes);
      auto what = c.rng.below(20);
      if (what == 0) {
        // a member that takes a name already given to a contained component is not the containers' business
        std::set<std::string> used;
        for (auto &x : boxes) for (auto &k : x.model) used.insert(k.name);
        if (used.empty()) member();
      } else if (what < 12) {
        Kid k;
        if (!loose.empty() && c.rng.chance(1, 3)) { auto i = c.rng.below(loose.size()); k = loose[i]; loose.erase(loose.begin() + static_cast<std::ptrdiff_t>(i)); }
        else { k = makeKid(kidNames[c.rng.below(std::size(kidNames))], static_cast<int>(c.rng.below(3)), c.rng.chance(1, 12) ? static_cast<::Smp::IComposite *>(stranger.get()) : c.rng.chance(1, 15) ? nullptr : static_cast<::Smp::IComposite *>(owner.get())); all.push_back(k.life); }
        bool clash = taken.count(k.name) != 0;
        for (auto &x : boxes) for (auto &o : x.model) clash |= o.name == k.name;
        c.op("add " + k.name + " kind " + std::to_string(k.kind) + " to " + b.name + ":" + b.type);
        auto t = thrown([&] { b.con->AddComponent(k.p); });
        // any of the reasons that hold may be the one reported
        std::set<std::string> reasons;
        if (!b.fits(k)) reasons.insert("InvalidObjectType");
        if (b.full()) reasons.insert("ContainerFull");
        if (clash) reasons.insert("DuplicateName");
        if (k.parent != owner.get()) reasons.insert("InvalidParent");
        if (reasons.empty()) { XV_EQ(t, "", "add", "adding " << k.name << " to " << b.name << " (" << b.type << ", " << b.model.size() << " of " << b.upper << ")"); b.model.push_back(k); ++accepted; }
        else {
          XV_CHECK(reasons.count(t), "refuse", "adding " << k.name << " to " << b.name << " (" << b.type << ", " << b.model.size() << " of " << b.upper << "): " << (t.empty() ? "accepted" : t) << " where " << *reasons.begin() << " is due");
          loose.push_back(k);
          ++refused;
          xv::count("refused by " + t);
        }
      } else if (what < 18) {
        std::vector<Kid> everyone;
        for (auto &x : boxes) everyone.insert(everyone.end(), x.model.begin(), x.model.end());
        everyone.insert(everyone.end(), loose.begin(), loose.end());
        if (everyone.empty()) continue;
        auto k = c.rng.chance(1, 2) && !b.model.empty() ? c.rng.pick(b.model) : c.rng.pick(everyone);
        auto in = std::find_if(b.model.begin(), b.model.end(), [&](auto &o) { return o.p == k.p; });
        c.op("delete " + k.name + " from " + b.name);
        bool connect = in != b.model.end() && !k.life->done && c.rng.chance(1, 3);
        std::unique_ptr<::Xsmp::Publication::Publication> kp;
        if (connect) {
          kp = std::make_unique<::Xsmp::Publication::Publication>(k.p, &types);
          k.p->Publish(kp.get());
          k.p->Configure(nullptr, nullptr);
          k.p->Connect(nullptr);
          k.life->connected = k.life->done = true;
        }
        auto t = thrown([&] { b.con->DeleteComponent(k.p); });
        if (in == b.model.end()) { XV_EQ(t, "NotContained", "delete", "deleting " << k.name << ", not in " << b.name); ++refused; XV_EQ(k.life->destroyed, 0, "alive", "component destroyed by a refused deletion"); }
        else if (static_cast<::Smp::Int64>(b.model.size()) <= b.lower) { XV_EQ(t, "CannotDelete", "delete", "deleting one of " << b.model.size() << " with lower limit " << b.lower); ++refused; XV_EQ(k.life->destroyed + k.life->disconnected, 0, "alive", "component destroyed or disconnected by a refused deletion"); }
        else {
          XV_EQ(t, "", "delete", "deleting " << k.name << " from " << b.name << " with " << b.model.size() << " components, lower limit " << b.lower);
          XV_EQ(k.life->destroyed, 1, "destroyed", "deleted component destroyed");
          XV_EQ(k.life->disconnected, k.life->connected ? 1 : 0, "disconnected", "deleted component disconnected");
          b.model.erase(in);
          ++deleted;
        }
        if (connect && k.life->destroyed == 0) k.p->Disconnect(), k.life->disconnected = 0, k.life->connected = false; // leaves its publication
      } else if (what == 18) {
        XV_EQ(thrown([&] { b.con->AddComponent(nullptr); }), "InvalidObjectType", "refuse", "adding null to " << b.name);
      } else
        XV_EQ(thrown([&] { b.con->DeleteComponent(nullptr); }), "NotContained", "delete", "deleting null from " << b.name);
      for (auto &x : boxes) content(x, *x.con);
      for (auto &k : loose) XV_EQ(k.life->destroyed, 0, "alive", "a component refused by its container was destroyed");
    }
    auto before = loose;
    owner.reset();
    for (auto &k : loose) { XV_EQ(k.life->destroyed, 0, "alive", "a component outside the containers died with them"); delete k.p; }
  }
  for (auto &l : all) XV_EQ(l->destroyed, 1, "destroyed", "destructions of one component");
  c.nontrivial = refused > 0 && accepted > 0 && deleted > 0;
  xv::count("accepted", accepted);
  xv::count("deleted", deleted);
}
XV_SCENARIO(C17, histories, 4000, 20000) {
  auto owner = std::make_unique<Node>("owner", "", nullptr, nullptr);
  std::vector<Kid> kids;
  for (int i = 0; i < 6; ++i) kids.push_back(makeKid(kidNames[c.rng.below(std::size(kidNames))], static_cast<int>(c.rng.below(3)), nullptr));
  std::vector<Box> boxes;
  for (int i = static_cast<int>(c.rng.range(1, 3)); i > 0; --i) {
    auto [lo, up] = limits(c);
    auto n = "ref" + std::to_string(i);
    switch (c.rng.below(5)) {
    case 0: boxes.push_back(makeReference<Node, IComponent>(*owner, n.c_str(), "IComponent", lo, up)); break;
    case 1: boxes.push_back(makeReference<Node, ::Smp::IModel>(*owner, n.c_str(), "IModel", lo, up)); break;
    case 2: boxes.push_back(makeReference<Node, Node>(*owner, n.c_str(), "Node", lo, up)); break;
    case 3: boxes.push_back(makeReference<Node, ::Smp::IService>(*owner, n.c_str(), "IService", lo, up)); break;
    default: boxes.push_back(makeReference<Node, ::Smp::IComposite>(*owner, n.c_str(), "IComposite", lo, up)); break;
    }
  }
  unsigned refused = 0, accepted = 0, removed = 0, forgotten = 0;
  for (unsigned n = static_cast<unsigned>(c.rng.range(5, 40)); n > 0; --n) {
    auto &b = c.rng.pick(boxes);
    auto k = c.rng.pick(kids);
    auto what = c.rng.below(16);
    if (what < 8) {
      c.op("add " + k.name + " kind " + std::to_string(k.kind) + " to " + b.name + ":" + b.type);
      auto t = thrown([&] { b.ref->AddComponent(k.p); });
      std::set<std::string> reasons;
      if (!b.fits(k)) reasons.insert("InvalidObjectType");
      if (b.full()) reasons.insert("ReferenceFull");
      if (reasons.empty()) { XV_EQ(t, "", "add", "adding " << k.name << " to " << b.name << " (" << b.type << ", " << b.model.size() << " of " << b.upper << ")"); b.model.push_back(k); ++accepted; }
      else { XV_CHECK(reasons.count(t), "refuse", "adding " << k.name << " to " << b.name << " (" << b.type << "): " << (t.empty() ? "accepted" : t) << " where " << *reasons.begin() << " is due"); ++refused; xv::count("refused by " + t); }
    } else if (what < 12) {
      if (!b.model.empty() && c.rng.chance(2, 3)) k = c.rng.pick(b.model);
      c.op("remove " + k.name + " from " + b.name);
      auto in = std::find_if(b.model.begin(), b.model.end(), [&](auto &o) { return o.p == k.p; });
      auto t = thrown([&] { b.ref->RemoveComponent(k.p); });
      if (in == b.model.end()) { XV_EQ(t, "NotReferenced", "remove", "removing " << k.name << ", not in " << b.name); ++refused; }
      else if (static_cast<::Smp::Int64>(b.model.size()) <= b.lower) { XV_EQ(t, "CannotRemove", "remove", "removing one of " << b.model.size() << " with lower limit " << b.lower); ++refused; }
      else { XV_EQ(t, "", "remove", "removing " << k.name << " from " << b.name); b.model.erase(in); ++removed; }
    } else if (what == 12) {
      XV_CHECK(!thrown([&] { b.ref->AddComponent(nullptr); }).empty(), "refuse", "adding null to " << b.name << " was accepted");
      XV_EQ(thrown([&] { b.ref->RemoveComponent(nullptr); }), "NotReferenced", "remove", "removing null from " << b.name);
    } else {
      c.op("links " + k.name);
      owner->RemoveLinks(k.p);
      for (auto &x : boxes)
        for (auto it = x.model.begin(); it != x.model.end();) if (it->p == k.p) { it = x.model.erase(it); ++forgotten; } else ++it;
    }
    for (auto &x : boxes) content(x, *x.ref);
  }
  owner.reset();
  for (auto &k : kids) { XV_EQ(k.life->destroyed, 0, "alive", "a referenced component died with its reference"); delete k.p; XV_EQ(k.life->destroyed, 1, "destroyed", "destructions of one component"); }
  c.nontrivial = refused > 0 && accepted > 0 && removed + forgotten > 0;
  xv::count("accepted", accepted);
  xv::count("removed", removed);
  xv::count("forgotten links", forgotten);
}

// ---------------------------------------------------------------- C18
namespace {
struct Inner { ::Smp::Int32 i; ::Smp::Float64 d[3]; };
struct Outer { Inner in[2]; ::Smp::UInt8 u; };
const ::Smp::Uuid uDoubles{1, 1, 1, 1, 1}, uInner{1, 1, 1, 1, 2}, uInners{1, 1, 1, 1, 3}, uOuter{1, 1, 1, 1, 4}, uSimple{1, 1, 1, 1, 5};
struct Memory { ::Smp::Int32 i = 0; ::Smp::Float64 d[4] = {}; Outer o = {}; ::Smp::Int8 s[5] = {}; };
/// a random object tree in a simulator, and every object in it
struct Tree {
  ::Xsmp::Simulator sim;
  std::vector<Node *> nodes;
  std::vector<IComponent *> comps;
  std::vector<std::pair<IObject *, IObject *>> objects; // object, owner of which it is a member
  std::set<const IObject *> known;
  std::map<Node *, std::vector<std::unique_ptr<Memory>>> memory;
  unsigned counter = 0;
  bool anonymousArrays = false; // arrays of fields published one by one
  std::string fresh(xv::Case &c) {
    static const char *const base[] = {"a", "b", "Node_", "x9y", "Z", "field", "child_of_"};
    ++counter;
    return c.rng.chance(1, 12) ? "[" + std::to_string(counter) + "]" : base[c.rng.below(std::size(base))] + std::to_string(counter);
  }
  void dress(xv::Case &c, Node &n) {
    nodes.push_back(&n);
    for (int i = static_cast<int>(c.rng.below(3)); i > 0; --i) n.own.make<::Xsmp::EntryPoint>(fresh(c).c_str(), "", static_cast<::Xsmp::EntryPointPublisher *>(&n), [] {});
    if (c.rng.chance(1, 2)) n.own.make<::Xsmp::EventSource<void>>(fresh(c).c_str(), "", static_cast<::Xsmp::EventProvider *>(&n));
    if (c.rng.chance(1, 2)) n.own.make<::Xsmp::EventSink<void>>(fresh(c).c_str(), "", static_cast<::Xsmp::EventConsumer *>(&n), [](IObject *) {});
    if (c.rng.chance(1, 3)) n.own.make<::Xsmp::Field<bool>::failure>(sim.GetTypeRegistry(), ::Smp::Uuids::Uuid_Bool, fresh(c).c_str(), "", &n);
    ::Smp::IField *own = nullptr;
    if (c.rng.chance(1, 3)) own = &n.own.make<::Xsmp::Field<::Smp::Int32>>(sim.GetTypeRegistry(), ::Smp::Uuids::Uuid_Int32, fresh(c).c_str(), "", &n);
    memory[&n].push_back(std::make_unique<Memory>());
    auto *m = memory[&n].back().get();
    std::vector<std::string> f;
    for (int i = 0; i < 8; ++i) f.push_back(c.rng.chance(1, 2) ? fresh(c) : "");
    n.onPublish = [this, f, m, own](::Smp::IPublication *r) {
      if (own) r->PublishField(own);
      if (!f[0].empty()) r->PublishField(f[0].c_str(), "", &m->i);
      if (!f[1].empty()) r->PublishField(f[1].c_str(), "", m->d, uDoubles);
      if (!f[2].empty()) r->PublishField(f[2].c_str(), "", &m->o, uOuter);
      if (!f[3].empty()) r->PublishField(f[3].c_str(), "", m->s, uSimple);
      if (!f[4].empty()) r->PublishOperation(f[4].c_str(), "", ::Smp::ViewKind::VK_All);
      if (!f[5].empty()) r->PublishProperty(f[5].c_str(), "", ::Smp::Uuids::Uuid_Int32, ::Smp::AccessKind::AK_ReadWrite, ::Smp::ViewKind::VK_All);
      if (!f[6].empty()) { auto *s = r->PublishStructure(f[6].c_str(), ""); s->PublishField("x", "", &m->d[0]); s->PublishField("y", "", m->d, uDoubles); auto *deep = s->PublishStructure("deep", ""); deep->PublishField("z", "", &m->i); }
      if (!f[7].empty() && anonymousArrays) { auto *a = r->PublishArray(f[7].c_str(), ""); a->PublishField("[0]", "", &m->o, uInner); a->PublishField("[1]", "", &m->o, uInner); a->PublishField("[2]", "", &m->o, uInner); }
    };
  }
  explicit Tree(xv::Case &c, bool withAnonymousArrays = false) : anonymousArrays(withAnonymousArrays) {
    sim.LoadLibrary("xsmp_services");
    auto *t = sim.GetTypeRegistry();
    t->AddArrayType("Doubles", "", uDoubles, ::Smp::Uuids::Uuid_Float64, sizeof(double), 3);
    t->AddArrayType("Simple", "", uSimple, ::Smp::Uuids::Uuid_Int8, 1, 5, true);
    auto *in = t->AddStructureType("Inner", "", uInner);
    in->AddField("i", "", ::Smp::Uuids::Uuid_Int32, offsetof(Inner, i));
    in->AddField("d", "", uDoubles, offsetof(Inner, d));
    t->AddArrayType("Inners", "", uInners, uInner, sizeof(Inner), 2);
    auto *o = t->AddStructureType("Outer", "", uOuter);
    o->AddField("in", "", uInners, offsetof(Outer, in));
    o->AddField("u", "", ::Smp::Uuids::Uuid_UInt8, offsetof(Outer, u));
    for (int i = static_cast<int>(c.rng.range(1, 3)); i > 0; --i) { auto *n = new Node(fresh(c).c_str(), "", &sim, &sim); sim.AddModel(n); dress(c, *n); }
    std::vector<Svc *> svcs;
    std::map<Node *, std::vector<IComponent *>> family;
    if (c.rng.chance(1, 2)) { auto *s = new Svc(fresh(c).c_str(), "", &sim, &sim); sim.AddService(s); svcs.push_back(s); }
    for (int i = static_cast<int>(c.rng.below(9)); i > 0; --i) {
      auto &p = *c.rng.pick(nodes);
      auto &con = c.rng.chance(1, 2) ? p.children : p.own.make<::Xsmp::Container<IComponent>>(fresh(c).c_str(), "", static_cast<::Xsmp::Composite *>(&p), 0, -1);
      // the same name may be used below different components
      std::string name = c.rng.chance(1, 3) ? c.rng.pick({"twin", "Same"}) : fresh(c);
      for (auto *sibling : family[&p]) if (name == sibling->GetName()) { name = fresh(c); break; }
      ::Smp::IComponent *kid;
      if (c.rng.chance(1, 4)) con.AddComponent(kid = new Leaf(name.c_str(), "", &p));
      else { auto *n = new Node(name.c_str(), "", &p); con.AddComponent(kid = n); dress(c, *n); }
      family[&p].push_back(kid);
    }
    for (int i = static_cast<int>(c.rng.below(4)); i > 0; --i) {
      auto &p = *c.rng.pick(nodes);
      auto &ref = p.own.make<::Xsmp::Reference<IComponent>>(fresh(c).c_str(), "", static_cast<::Xsmp::Aggregate *>(&p), 0, -1);
      ref.AddComponent(c.rng.pick(nodes));
      // and components with the name of an own one: the own one is meant
      for (auto *other : nodes) {
        if (other == &p) continue;
        for (auto *k : family[other]) for (auto *mine : family[&p]) if (std::strcmp(k->GetName(), mine->GetName()) == 0) { ref.AddComponent(k); XV_COUNT("references to a namesake of an own component"); }
      }
    }
    if (c.rng.chance(5, 6)) sim.Publish();
    known.insert(&sim);
    for (auto *con : *sim.GetContainers()) for (auto *m : *con->GetComponents()) walk(m, &sim);
  }
  void add(IObject *o, IObject *owner) { objects.emplace_back(o, owner); known.insert(o); }
  void walkField(::Smp::IField *f, IObject *owner) {
    add(f, owner);
    if (auto *s = dynamic_cast<::Smp::IStructureField *>(f)) for (auto *k : *s->GetFields()) walkField(k, f);
    else if (auto *a = dynamic_cast<::Smp::IArrayField *>(f)) for (::Smp::UInt64 i = 0; i < a->GetSize(); ++i) walkField(a->GetItem(i), f);
  }
  template <typename T> void members(const T *col, IObject *owner) { if (col) for (auto *x : *col) add(x, owner); }
  void walk(IComponent *p, IObject *owner) {
    comps.push_back(p);
    add(p, owner);
    if (auto *x = dynamic_cast<::Smp::IEntryPointPublisher *>(p)) members(x->GetEntryPoints(), p);
    if (auto *x = dynamic_cast<::Smp::IEventProvider *>(p)) members(x->GetEventSources(), p);
    if (auto *x = dynamic_cast<::Smp::IEventConsumer *>(p)) members(x->GetEventSinks(), p);
    if (auto *x = dynamic_cast<::Smp::IFallibleModel *>(p)) members(x->GetFailures(), p);
    if (auto *x = dynamic_cast<::Smp::IDynamicInvocation *>(p)) { members(x->GetOperations(), p); members(x->GetProperties(), p); }
    if (auto *f = p->GetFields()) for (auto *k : *f) walkField(k, p);
    if (auto *x = dynamic_cast<::Smp::IComposite *>(p)) for (auto *con : *x->GetContainers()) for (auto *k : *con->GetComponents()) walk(k, p);
  }
};
/// the segments below the given ancestor, outermost first; member segments and items are marked by '.' and '['
std::vector<std::pair<char, std::string>> below(const IObject *o, const IObject *ancestor) {
  std::vector<std::pair<char, std::string>> v;
  for (; o != ancestor; o = o->GetParent()) {
    char k = dynamic_cast<const IComponent *>(o) ? '/' : dynamic_cast<const ::Smp::IArrayField *>(o->GetParent()) ? '[' : '.';
    v.insert(v.begin(), {k, o->GetName()});
  }
  return v;
}
/// a path through the segments with redundant steps
std::string spell(xv::Case &c, Tree &t, const IObject *from, const std::vector<std::pair<char, std::string>> &segs, bool absolute, bool plain) {
  std::string p;
  const IObject *at = from;
  bool first = true;
  for (const auto &[k, name] : segs) {
    std::string sep = k == '/' ? "/" : k == '.' ? "." : "";
    if (first) sep = absolute ? "/" : "";
    if (!plain && k != '[') {
      if (k == '.' && !first && c.rng.chance(1, 4)) sep = "/";
      if (sep == "/" && c.rng.chance(1, 3)) { sep = c.rng.pick({"//", "/./", "///", "/.//./"}); XV_COUNT("redundant steps"); }
      if (first && !absolute && c.rng.chance(1, 4)) { sep = c.rng.pick({"./", ".//", "././"}); XV_COUNT("redundant steps"); }
      // down into some member component of this one and back up
      std::vector<const char *> kids;
      for (auto *x : t.comps) if (x->GetParent() == at && name != x->GetName()) kids.push_back(x->GetName());
      if (!kids.empty() && (sep.empty() || sep.back() == '/') && c.rng.chance(1, 4)) { sep += std::string(kids[c.rng.below(kids.size())]) + "/../"; XV_COUNT("detours"); }
    }
    p += sep + name;
    first = false;
    if (at) { // follow
      const IObject *next = nullptr;
      for (auto &[o, owner] : t.objects) if (owner == at && name == o->GetName() && (k == '/') == (dynamic_cast<const IComponent *>(o) != nullptr)) next = o;
      at = next;
    }
  }
  if (absolute && p.empty()) p = "/";
  return p;
}
} // namespace
XV_SCENARIO_NOLEAK(C18, paths, 250, 5000) {
  Tree t(c);
  auto *r = t.sim.GetResolver();
  XV_CHECK(r, "resolver", "no resolver");
  XV_EQ(r->ResolveAbsolute("/"), static_cast<IObject *>(&t.sim), "root", "resolving /");
  unsigned deep = 0;
  std::set<std::string> paths;
  for (auto &[o, owner] : t.objects) {
    const auto path = ::Xsmp::Helper::GetPath(o);
    auto segs = below(o, &t.sim);
    XV_EQ(path, spell(c, t, &t.sim, segs, true, true), "path", "path of " << o->GetName());
    XV_CHECK(paths.insert(path).second, "path", "two objects have the path " << path);
    XV_EQ(r->ResolveAbsolute(path.c_str()), o, "absolute", "resolving " << path);
    XV_COUNT("absolute paths");
    auto odd = spell(c, t, &t.sim, segs, true, false);
    XV_EQ(r->ResolveAbsolute(odd.c_str()), o, "redundant", "resolving " << odd << " for " << path);
    deep += segs.size() > 3;
    // from a few components
    std::string lastPath;
    std::remove_reference_t<decltype(t.comps)>::value_type lastFrom = nullptr;
    for (int i = 0; i < 3; ++i) {
      auto *from = c.rng.pick(t.comps);
      std::set<const IObject *> up;
      for (const IObject *a = o; a; a = a->GetParent()) up.insert(a);
      std::string rel;
      const IObject *k = from;
      for (; !up.count(k); k = k->GetParent()) rel += c.rng.chance(1, 5) ? ".././" : "../";
      auto rest = spell(c, t, k, below(o, k), false, c.rng.chance(1, 2));
      if (rest.empty() && !rel.empty() && c.rng.chance(1, 2)) rel.pop_back();
      if (rest.empty() && rel.empty()) rel = c.rng.pick({"", ".", "./", "./."});
      rel += rest;
      c.op(rel);
      if (!rel.empty() && rel.front() == '/') continue;
      lastPath = rel;
      lastFrom = from;
      XV_EQ(r->ResolveRelative(rel.c_str(), from), o, "relative", "resolving " << xv::show(rel) << " from " << ::Xsmp::Helper::GetPath(from) << " for " << path);
      XV_COUNT("relative paths");
    }
    // a path that names nothing
    auto bad = path;
    switch (c.rng.below(8)) {
    case 0: bad += ".nothing"; break;
    case 1: bad += "/nothing"; break;
    case 2: bad += "[77]"; break;
    case 3: bad += "[x]"; break;
    case 4: bad += "[]"; break;
    case 5: bad += c.rng.pick({"[99999999999999999999999]", "[0x1]", "[1 ]", "[1", "[-99]", "[18446744073709551616]", "]", "[1]]"}); break;
    case 6: bad += "/../" + std::string(o->GetName()) + "Z"; break;
    default: { auto at = c.rng.below(bad.size() - 1) + 1; bad[at] = bad[at] == '/' || bad[at] == '.' || bad[at] == '[' || bad[at] == ']' ? bad[at] : '%'; if (bad == path) bad += "%"; break; }
    }
    XV_CHECK(r->ResolveAbsolute(bad.c_str()) == nullptr || t.known.count(r->ResolveAbsolute(bad.c_str())) == 0, "nothing", "resolving " << xv::show(bad) << " found " << ::Xsmp::Helper::GetPath(r->ResolveAbsolute(bad.c_str())));
    XV_COUNT("paths to nothing");
    // an index beyond the end
    if (auto *a = dynamic_cast<::Smp::IArrayField *>(o)) {
      for (auto n : {a->GetSize(), a->GetSize() + 1, a->GetSize() * 1000 + 3}) XV_CHECK(r->ResolveAbsolute((path + "[" + std::to_string(n) + "]").c_str()) == nullptr, "nothing", "resolved item " << n << " of " << path);
      // a negative index counts from the end
      for (::Smp::UInt64 n = 1; n <= std::min<::Smp::UInt64>(a->GetSize(), 20); ++n) {
        const auto item = "[-" + std::to_string(n) + "]";
        IObject *want = a->GetItem(a->GetSize() - n);
        XV_CHECK(r->ResolveAbsolute((path + item).c_str()) == want, "item", "resolving " << path << item << " does not find item " << a->GetSize() - n);
        if (!lastPath.empty() && lastPath.back() != '.' && lastPath.back() != '/') XV_CHECK(r->ResolveRelative((lastPath + item).c_str(), lastFrom) == want, "item", "resolving " << lastPath << item << " from " << ::Xsmp::Helper::GetPath(lastFrom) << " does not find item " << a->GetSize() - n);
        XV_COUNT("items found from the end");
      }
      for (auto n : {a->GetSize() + 1, a->GetSize() * 1000 + 3}) XV_CHECK(r->ResolveAbsolute((path + "[-" + std::to_string(n) + "]").c_str()) == nullptr, "nothing", "resolved item -" << n << " of " << path);
    }
  }
  std::string up = "..";
  for (auto *p : t.comps) {
    XV_CHECK(r->ResolveRelative("/", p) == nullptr, "nothing", "a relative path starting at the root was resolved");
    XV_CHECK(r->ResolveAbsolute(p->GetName()) == nullptr, "nothing", "an absolute path without a root was resolved");
    XV_CHECK(r->ResolveRelative(nullptr, p) == nullptr, "nothing", "a null path was resolved");
    std::string above;
    for (const IObject *a = p; a; a = a->GetParent()) above += "../";
    XV_CHECK(r->ResolveRelative(above.c_str(), p) == nullptr, "nothing", "a step above the root was resolved: " << above);
  }
  XV_CHECK(r->ResolveAbsolute(nullptr) == nullptr && r->ResolveAbsolute("") == nullptr, "nothing", "an empty absolute path was resolved");
  XV_CHECK(r->ResolveRelative("x", nullptr) == nullptr && r->ResolveRelative("..", nullptr) == nullptr, "nothing", "a path from no component was resolved");
  XV_EQ(::Xsmp::Helper::GetPath(nullptr), "<null>", "path", "path of null");
  // garbage resolves to something of the tree or to nothing
  for (int i = 0; i < 60; ++i) {
    std::string g;
    static const char *const bits[] = {"/", ".", "..", "[", "]", "[0]", "[1]", "[-1]", "a", "_", "_children", "...", "//", " ", "\xff", "x9y2", "[9223372036854775808]"};
    for (auto n = c.rng.range(0, 8); n > 0; --n) g += c.rng.chance(1, 3) && !t.objects.empty() ? std::string(c.rng.pick(t.objects).first->GetName()) : bits[c.rng.below(std::size(bits))];
    auto *x = r->ResolveAbsolute(g.c_str()), *y = r->ResolveRelative(g.c_str(), c.rng.pick(t.comps));
    for (auto *o : {x, y}) if (o) XV_CHECK(t.known.count(o) || dynamic_cast<::Smp::IContainer *>(o) || dynamic_cast<::Smp::IReference *>(o), "garbage", "resolving " << xv::show(g) << " found an object that is not in the tree");
    XV_COUNT("garbage paths");
  }
  c.nontrivial = deep > 0 && t.comps.size() > 2;
}
/// items published one by one: found from their array, and from their own path
XV_SCENARIO_NOLEAK(C18, item_by_item, 60, 600) {
  Tree t(c, true);
  auto *r = t.sim.GetResolver();
  c.nontrivial = t.comps.size() > 1;
  for (auto &[o, owner] : t.objects) {
    auto *a = dynamic_cast<::Smp::IArrayField *>(o);
    if (!a || a->GetSize() != 3 || !dynamic_cast<::Smp::IStructureField *>(a->GetItem(0))) continue;
    for (::Smp::UInt64 i = 0; i < 3; ++i) {
      const auto path = ::Xsmp::Helper::GetPath(o) + "[" + std::to_string(i) + "]";
      c.op(path);
      XV_EQ(r->ResolveAbsolute(path.c_str()), static_cast<IObject *>(a->GetItem(i)), "item", "resolving " << path);
      XV_EQ(r->ResolveAbsolute((path + ".i").c_str()), static_cast<IObject *>(dynamic_cast<::Smp::IStructureField *>(a->GetItem(i))->GetField("i")), "item", "resolving " << path << ".i");
      XV_COUNT("items published one by one");
    }
    for (::Smp::UInt64 i = 0; i < 3; ++i) {
      const auto own = ::Xsmp::Helper::GetPath(a->GetItem(i));
      XV_EQ(r->ResolveAbsolute(own.c_str()), static_cast<IObject *>(a->GetItem(i)), "path of an item published into an array", "resolving " << own);
    }
  }
}

// ---------------------------------------------------------------- C19
namespace {
struct Acts {
  int publish = 0, configure = 0, connect = 0, disconnect = 0;
  ::Smp::IPublication *receiver = nullptr;
  ::Smp::Services::ILogger *logger = nullptr;
  ::Smp::Services::ILinkRegistry *registry = nullptr;
  ::Smp::ISimulator *simulator = nullptr, *during = nullptr;
};
/// what generated component classes do, over the actions of T
template <typename T, typename Base> struct Gen : Base {
  using Base::Base;
  using Base::GetSimulator;
  void Publish(::Smp::IPublication *r) override { Base::Publish(r); ::Xsmp::Component::Helper::Publish<T>(this, r); }
  void Configure(::Smp::Services::ILogger *l, ::Smp::Services::ILinkRegistry *r) override { Base::Configure(l, r); ::Xsmp::Component::Helper::Configure<T>(this, l, r); }
  void Connect(::Smp::ISimulator *s) override { Base::Connect(s); ::Xsmp::Component::Helper::Connect<T>(this, s); }
  void Disconnect() override { ::Xsmp::Component::Helper::Disconnect<T>(this); Base::Disconnect(); }
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
  Acts acts;
};
using CI = ::Smp::Services::ILogger;
using LR = ::Smp::Services::ILinkRegistry;
struct Full : Gen<Full, ::Xsmp::Model> {
  using Gen::Gen;
  void DoPublish(::Smp::IPublication *r) { ++acts.publish; acts.receiver = r; }
  void DoConfigure(CI *l, LR *r) { ++acts.configure; acts.logger = l; acts.registry = r; }
  void DoConnect(::Smp::ISimulator *s) { ++acts.connect; acts.simulator = s; acts.during = GetSimulator(); }
  void DoDisconnect() { ++acts.disconnect; acts.during = GetSimulator(); }
};
struct Bare : Gen<Bare, ::Xsmp::Model> {
  using Gen::Gen;
  void DoPublish() { ++acts.publish; }
  void DoConfigure() { ++acts.configure; }
  void DoConnect() { ++acts.connect; acts.during = GetSimulator(); }
  void DoDisconnect() { ++acts.disconnect; acts.during = GetSimulator(); }
};
struct ByLogger : Gen<ByLogger, ::Xsmp::Service> {
  using Gen::Gen;
  void DoConfigure(CI *l) { ++acts.configure; acts.logger = l; }
  void DoConnect(::Smp::ISimulator *s) { ++acts.connect; acts.simulator = s; acts.during = GetSimulator(); }
};
struct ByRegistry : Gen<ByRegistry, ::Xsmp::Component> {
  using Gen::Gen;
  void DoConfigure(LR *r) { ++acts.configure; acts.registry = r; }
  void DoDisconnect() { ++acts.disconnect; acts.during = GetSimulator(); }
};
struct Silent : Gen<Silent, ::Xsmp::Model> { using Gen::Gen; };
/// a generated class derived from another
struct Derived : Gen<Derived, Full> {
  using Gen::Gen;
  Acts more;
  void DoPublish(::Smp::IPublication *) { ++more.publish; }
  void DoConfigure() { ++more.configure; }
  void DoConnect() { ++more.connect; }
  void DoDisconnect() { ++more.disconnect; }
};
struct Can { bool publish, configure, connect, disconnect, receiver, logger, registry, simulator; };
using State = ::Smp::ComponentStateKind;
template <typename T> void lifecycle(xv::Case &c, Can can) {
  ::Xsmp::Publication::TypeRegistry types;
  ::Xsmp::Simulator sim, first;
  sim.LoadLibrary("xsmp_services");
  T x("x", "the x", nullptr, c.rng.chance(1, 2) ? &first : nullptr);
  Acts &acts = [&x]() -> Acts & { if constexpr (std::is_same_v<T, Derived>) return static_cast<Full &>(x).acts; else return x.acts; }();
  auto *initial = x.GetSimulator();
  ::Xsmp::Publication::Publication pub(&x, &types);
  auto *logger = sim.GetLogger();
  auto *registry = sim.GetLinkRegistry();
  Acts want;
  State state = State::CSK_Created;
  unsigned refused = 0, accepted = 0;
  auto *expectSim = initial;
  ::Smp::Int32 value = 7;
  for (unsigned n = static_cast<unsigned>(c.rng.range(4, 16)); n > 0; --n) {
    auto what = c.rng.chance(1, 2) ? static_cast<int>(state) % 4 : static_cast<int>(c.rng.below(5));
    const auto before = state;
    State need = State::CSK_Created;
    bool got = false;
    try {
      switch (what) {
      case 0: c.op("publish"); need = State::CSK_Created; x.Publish(&pub); break;
      case 1: c.op("configure"); need = State::CSK_Publishing; x.Configure(logger, registry); break;
      case 2: c.op("connect"); need = State::CSK_Configured; x.Connect(&sim); break;
      case 3: c.op("disconnect"); need = State::CSK_Connected; x.Disconnect(); break;
      default: c.op("publish null"); x.Publish(nullptr); break;
      }
      got = true;
    } catch (const ::Smp::InvalidComponentState &e) {
      if (what < 4) {
        XV_EQ(static_cast<int>(e.GetInvalidState()), static_cast<int>(before), "error", "invalid state reported by call " << what);
        XV_EQ(static_cast<int>(e.GetExpectedState()), static_cast<int>(need), "error", "expected state reported by call " << what);
      }
    } catch (const ::Smp::Exception &e) {
      XV_CHECK(what == 4, "error", "call " << what << " in state " << static_cast<int>(before) << " threw " << e.what());
    }
    const bool legal = what < 4 && before == need;
    XV_EQ(got, legal, "accept", "call " << what << " in state " << static_cast<int>(before) << " accepted");
    if (legal) {
      ++accepted;
      switch (what) {
      case 0: state = State::CSK_Publishing; want.publish += can.publish; if (can.receiver) want.receiver = &pub; break;
      case 1: state = State::CSK_Configured; want.configure += can.configure; if (can.logger) want.logger = logger; if (can.registry) want.registry = registry; break;
      case 2: state = State::CSK_Connected; want.connect += can.connect; expectSim = &sim; if (can.simulator) want.simulator = &sim; if (can.connect) want.during = &sim; break;
      default: state = State::CSK_Disconnected; want.disconnect += can.disconnect; expectSim = nullptr; if (can.disconnect) want.during = &sim; break;
      }
    } else ++refused;
    auto report = [&](const char *w) { std::ostringstream o; o << w << " after call " << what << " in state " << static_cast<int>(before) << (legal ? " (legal)" : " (illegal)"); return o.str(); };
    XV_EQ(static_cast<int>(x.GetState()), static_cast<int>(state), "state", report("state"));
    XV_EQ(acts.publish, want.publish, "action", report("publish actions"));
    XV_EQ(acts.configure, want.configure, "action", report("configure actions"));
    XV_EQ(acts.connect, want.connect, "action", report("connect actions"));
    XV_EQ(acts.disconnect, want.disconnect, "action", report("disconnect actions"));
    XV_EQ(acts.receiver, want.receiver, "action", report("receiver passed"));
    XV_EQ(acts.logger, want.logger, "action", report("logger passed"));
    XV_EQ(acts.registry, want.registry, "action", report("link registry passed"));
    XV_EQ(acts.simulator, want.simulator, "action", report("simulator passed"));
    XV_EQ(acts.during, want.during, "action", report("simulator known during the action"));
    XV_EQ(x.GetSimulator(), expectSim, "simulator", report("simulator"));
    XV_EQ(x.GetFields() == nullptr, state == State::CSK_Created, "fields", report("absence of published fields"));
    if constexpr (std::is_same_v<T, Derived>) {
      XV_EQ(x.more.publish, want.publish, "action", report("derived publish actions"));
      XV_EQ(x.more.configure, want.configure, "action", report("derived configure actions"));
      XV_EQ(x.more.connect, want.connect, "action", report("derived connect actions"));
      XV_EQ(x.more.disconnect, want.disconnect, "action", report("derived disconnect actions"));
    }
    (void)value;
  }
  xv::count("accepted calls", accepted);
  xv::count("refused calls", refused);
  if (state == State::CSK_Disconnected) XV_COUNT("complete lives");
  c.nontrivial = accepted > 1 && refused > 0;
}
} // namespace
XV_SCENARIO_NOLEAK(C19, lifecycles, 900, 20000) {
  switch (c.index % 6) {
  case 0: lifecycle<Full>(c, {true, true, true, true, true, true, true, true}); break;
  case 1: lifecycle<Bare>(c, {true, true, true, true, false, false, false, false}); break;
  case 2: lifecycle<ByLogger>(c, {false, true, true, false, false, true, false, true}); break;
  case 3: lifecycle<ByRegistry>(c, {false, true, false, true, false, false, true, false}); break;
  case 4: lifecycle<Silent>(c, {false, false, false, false, false, false, false, false}); break;
  default: lifecycle<Derived>(c, {true, true, true, true, true, true, true, true}); break;
  }
}

// ---------------------------------------------------------------- C20
namespace {
struct Sub; // a sink and what it saw
struct Source {
  std::string type;
  Kind kind;
  ::Smp::IEventSource *p;
  Node *owner;
  std::function<::Smp::AnySimple(xv::Rng &, IObject *)> emit; // emits a random value, returns it
  std::set<Sub *> subscribed;
  int depth = 0;
};
struct Seen { IObject *sender; ::Smp::AnySimple value; };
struct Sub {
  std::string type;
  Kind kind;
  ::Smp::IEventSink *p;
  Node *owner;
  std::vector<Seen> seen;
  std::function<void()> act; // done once by the next notification
};
std::string text(const ::Smp::AnySimple &v) {
  switch (v.GetType()) {
  case Kind::PTK_Int32: return "Int32 " + std::to_string(static_cast<::Smp::Int32>(v));
  case Kind::PTK_Float64: { std::ostringstream o; o.precision(17); o << "Float64 " << static_cast<::Smp::Float64>(v); return o.str(); }
  case Kind::PTK_Bool: return static_cast<::Smp::Bool>(v) ? "Bool true" : "Bool false";
  case Kind::PTK_UInt8: return "UInt8 " + std::to_string(static_cast<::Smp::UInt8>(v));
  case Kind::PTK_Duration: return "Duration " + std::to_string(static_cast<::Smp::Int64>(v));
  case Kind::PTK_String8: return std::string("String8 ") + static_cast<::Smp::String8>(v);
  default: return "None";
  }
}
struct Bench {
  xv::Case &c;
  std::deque<Node> owners;
  std::deque<Source> sources;
  std::deque<Sub> sinks;
  explicit Bench(xv::Case &cc) : c(cc) {}
  template <typename T, typename V> void source(Node &o, const std::string &n, const char *type, Kind k, V value) {
    auto &e = o.own.make<::Xsmp::EventSource<T>>(n.c_str(), "", static_cast<::Xsmp::EventProvider *>(&o), k);
    sources.push_back({type, k, &e, &o, [&e, k, value](xv::Rng &r, IObject *s) { T v = value(r); ::Smp::AnySimple a{k, v}; if (s) { if (r.chance(1, 2)) e.Emit(s, v); else e(s, v); } else if (r.chance(1, 2)) e.Emit(v); else e(v); return a; }, {}});
  }
  template <typename T> void sink(Node &o, const std::string &n, const char *type, Kind k) {
    sinks.push_back({type, k, nullptr, &o, {}, {}});
    auto *s = &sinks.back();
    s->p = &o.own.make<::Xsmp::EventSink<T>>(n.c_str(), "", static_cast<::Xsmp::EventConsumer *>(&o), [s, k](IObject *sender, T v) {
      s->seen.push_back({sender, ::Smp::AnySimple{k, v}});
      if (s->act) { auto a = std::move(s->act); s->act = nullptr; a(); }
    }, k);
  }
  void build() {
    for (int i = 0; i < 3; ++i) owners.emplace_back(("o" + std::to_string(i)).c_str(), "", nullptr, nullptr);
    for (int i = 0; i < 5; ++i) {
      auto &o = owners[c.rng.below(3)];
      auto n = "src" + std::to_string(i);
      switch (c.rng.below(6)) {
      case 0: { auto &e = o.own.make<::Xsmp::EventSource<void>>(n.c_str(), "", static_cast<::Xsmp::EventProvider *>(&o)); sources.push_back({"void", Kind::PTK_None, &e, &o, [&e](xv::Rng &r, IObject *s) { if (s) { if (r.chance(1, 2)) e.Emit(s); else e(s); } else if (r.chance(1, 2)) e.Emit(); else e(); return ::Smp::AnySimple{}; }, {}}); break; }
      case 1: source<::Smp::Int32>(o, n, "Int32", Kind::PTK_Int32, [](xv::Rng &r) { return static_cast<::Smp::Int32>(r.next()); }); break;
      case 2: source<::Smp::Float64>(o, n, "Float64", Kind::PTK_Float64, [](xv::Rng &r) { return r.unit() * 1e9; }); break;
      case 3: source<::Smp::Bool>(o, n, "Bool", Kind::PTK_Bool, [](xv::Rng &r) { return r.chance(1, 2); }); break;
      case 4: source<::Smp::Duration>(o, n, "Duration", Kind::PTK_Duration, [](xv::Rng &r) { return static_cast<::Smp::Duration>(r.next()); }); break;
      default: source<::Smp::UInt8>(o, n, "UInt8", Kind::PTK_UInt8, [](xv::Rng &r) { return static_cast<::Smp::UInt8>(r.next()); }); break;
      }
    }
    for (int i = 0; i < 10; ++i) {
      auto &o = owners[c.rng.below(3)];
      auto n = "snk" + std::to_string(i);
      // mostly of a type some source has
      auto type = c.rng.chance(5, 6) ? c.rng.pick(sources).type : std::string(c.rng.pick({"void", "Int32", "Float64", "Bool", "Duration", "UInt8"}));
      if (type == "Int32") sink<::Smp::Int32>(o, n, "Int32", Kind::PTK_Int32);
      else if (type == "Float64") sink<::Smp::Float64>(o, n, "Float64", Kind::PTK_Float64);
      else if (type == "Bool") sink<::Smp::Bool>(o, n, "Bool", Kind::PTK_Bool);
      else if (type == "Duration") sink<::Smp::Duration>(o, n, "Duration", Kind::PTK_Duration);
      else if (type == "UInt8") sink<::Smp::UInt8>(o, n, "UInt8", Kind::PTK_UInt8);
      else {
        sinks.push_back({"void", Kind::PTK_None, nullptr, &o, {}, {}});
        auto *s = &sinks.back();
        s->p = &o.own.make<::Xsmp::EventSink<void>>(n.c_str(), "", static_cast<::Xsmp::EventConsumer *>(&o), [s](IObject *sender) { s->seen.push_back({sender, {}}); if (s->act) { auto a = std::move(s->act); s->act = nullptr; a(); } });
      }
      XV_EQ(sinks.back().p->GetParent(), static_cast<IObject *>(&o), "facts", "parent of a sink");
    }
  }
  void subscribe(Source &s, Sub &k) {
    c.op("subscribe " + s.type + " " + k.type);
    auto t = thrown([&] { s.p->Subscribe(k.p); });
    if (s.kind != k.kind) XV_EQ(t, "InvalidEventSink", "subscribe", "subscribing a " << k.type << " sink to a " << s.type << " source");
    else if (s.subscribed.count(&k)) { XV_EQ(t, "EventSinkAlreadySubscribed", "subscribe", "subscribing twice"); XV_COUNT("refused subscriptions"); }
    else { XV_EQ(t, "", "subscribe", "subscribing a sink"); s.subscribed.insert(&k); }
  }
  void unsubscribe(Source &s, Sub &k) {
    c.op("unsubscribe");
    auto t = thrown([&] { s.p->Unsubscribe(k.p); });
    if (s.subscribed.count(&k)) { XV_EQ(t, "", "unsubscribe", "unsubscribing a subscribed sink"); s.subscribed.erase(&k); }
    else XV_EQ(t, "EventSinkNotSubscribed", "unsubscribe", "unsubscribing a sink that is not subscribed");
  }
  void links(Node &o, Node &target) {
    c.op("remove links");
    o.RemoveLinks(&target);
    for (auto &s : sources) if (s.owner == &o) for (auto it = s.subscribed.begin(); it != s.subscribed.end();) if ((*it)->owner == &target) it = s.subscribed.erase(it); else ++it;
    XV_COUNT("link removals");
  }
};
} // namespace
XV_SCENARIO(C20, histories, 800, 15000) {
  Bench b(c);
  b.build();
  unsigned emissions = 0, acted = 0;
  for (unsigned n = static_cast<unsigned>(c.rng.range(10, 50)); n > 0; --n) {
    auto &s = c.rng.pick(b.sources);
    auto &k = c.rng.pick(b.sinks);
    switch (c.rng.below(10)) {
    case 0: case 1: case 2: case 3: b.subscribe(s, k); break;
    case 4: b.unsubscribe(s, k); break;
    case 5: if (c.rng.chance(1, 3)) { auto &x = c.rng.pick(b.owners); auto &y = c.rng.pick(b.owners); b.links(x, y); } break;
    default: {
      // an emission, with a few handlers that change subscriptions
      std::set<Sub *> start = s.subscribed, changed;
      for (auto &x : b.sinks) x.seen.clear();
      bool nested = false;
      std::set<Sub *> gone; // unsubscribed during the emission before they were notified
      if (c.rng.chance(1, 2))
        for (auto *x : start)
          if (c.rng.chance(1, 3)) {
            auto *victim = &c.rng.pick(b.sinks);
            auto kind = c.rng.below(5);
            auto *from = &c.rng.pick(b.owners), *to = &c.rng.pick(b.owners);
            auto note = [&, x] { // compare before and after a change
              return s.subscribed;
            };
            x->act = [&, x, victim, kind, from, to, note] {
              ++acted;
              auto was = note();
              try {
                switch (kind) {
                case 0: b.unsubscribe(s, *x); break;
                case 1: b.unsubscribe(s, *victim); break;
                case 2: b.subscribe(s, *victim); break;
                case 3: b.links(*from, *to); break;
                default: { nested = true; if (auto *o = &b.sources[c.rng.below(b.sources.size())]; o != &s) o->emit(c.rng, nullptr); break; }
                }
              } catch (const xv::Violation &v) { c.flag(v.key, v.detail); }
              for (auto *w : was) if (!s.subscribed.count(w)) { changed.insert(w); if (w->seen.empty()) gone.insert(w); }
              for (auto *w : s.subscribed) if (!was.count(w)) changed.insert(w);
            };
          }
      IObject *sender = c.rng.chance(1, 3) ? static_cast<IObject *>(&c.rng.pick(b.owners)) : nullptr;
      c.op("emit " + s.type + " to " + std::to_string(start.size()));
      ::Smp::AnySimple v;
      auto t = thrown([&] { v = s.emit(c.rng, sender); });
      XV_EQ(t, "", "emit", "emitting");
      for (auto &x : b.sinks) x.act = nullptr;
      ++emissions;
      auto *expect = sender ? sender : static_cast<IObject *>(s.owner);
      for (auto &x : b.sinks) {
        const bool was = start.count(&x) != 0;
        // nested emissions of other sources may notify other sinks
        if (nested) { std::vector<Seen> mine; for (auto &q : x.seen) if (q.sender == expect && text(q.value) == text(v)) mine.push_back(q); if (was && !changed.count(&x)) XV_CHECK(!mine.empty(), "delivery", "a subscribed sink was not notified"); continue; }
        if (was && !changed.count(&x)) XV_EQ(x.seen.size(), std::size_t(1), "delivery", "notifications of a subscribed sink by one emission");
        else if (gone.count(&x) && !s.subscribed.count(&x)) XV_EQ(x.seen.size(), std::size_t(0), "gone", "notifications of a sink unsubscribed before its turn");
        else if (was || changed.count(&x)) XV_CHECK(x.seen.size() <= 1, "delivery", x.seen.size() << " notifications of one sink by one emission");
        else XV_EQ(x.seen.size(), std::size_t(0), "stranger", "notifications of a sink that is not subscribed");
        for (auto &q : x.seen) {
          XV_EQ(q.sender, expect, "sender", "sender of the event");
          XV_EQ(text(q.value), text(v), "argument", "argument of the event");
          XV_COUNT("notifications");
        }
      }
    }
    }
  }
  // a value of another type is refused by a sink
  for (auto &k : b.sinks)
    if (k.kind == Kind::PTK_None) { k.seen.clear(); auto t = thrown([&] { k.p->Notify(nullptr, {Kind::PTK_Int32, ::Smp::Int32(1)}); }); XV_EQ(t, "InvalidAnyType", "type", "notifying a sink without argument of a value"); XV_CHECK(k.seen.empty(), "type", "the handler ran on a refused value"); }
  xv::count("emissions", emissions);
  xv::count("changes during an emission", acted);
  c.nontrivial = emissions > 2;
  for (auto &o : b.owners) for (auto &s : b.sources) (void)o, (void)s;
}

// ---------------------------------------------------------------- C46
namespace {
/// one kind of part: what the component should list
template <typename T> struct Parts {
  std::vector<T *> all;
  std::vector<std::pair<std::string, std::string>> facts;
};
} // namespace
XV_SCENARIO(C46, parts, 1500, 40000) {
  auto &r = c.rng;
  ::Xsmp::Publication::TypeRegistry types;
  auto owner = std::make_unique<Node>("owner", "the owner");
  Node &o = *owner;
  Parts<::Smp::IEntryPoint> eps;
  Parts<::Smp::IEventSink> sinks;
  Parts<::Smp::IEventSource> sources;
  Parts<::Smp::IReference> refs;
  Parts<::Smp::IContainer> conts;
  Parts<::Smp::IFailure> fails;
  conts.all.push_back(&o.children); conts.facts.emplace_back("children", "child components");
  std::deque<int> runs; // executions of each entry point
  std::vector<std::pair<::Smp::IEntryPoint *, std::size_t>> exec; // also those not listed
  Pool loose; // parts without a component that lists them
  // a refused part is destroyed: whatever still lists it is found by AddressSanitizer
  auto add = [&](auto &parts, const char *what, auto construct, auto &&alone) {
    using T = std::remove_pointer_t<typename std::decay_t<decltype(parts.all)>::value_type>;
    const bool bad = r.chance(1, 8);
    std::string name = bad ? r.pick<const char *>({"", "1a", "a b", "a.b", "_a", "a/b"}) : names[r.below(8)];
    std::string description = r.pick<const char *>({"", "a part", "name", "owner"});
    bool clash = false;
    for (auto &f : parts.facts) clash |= f.first == name;
    const bool listed = std::is_same_v<T, ::Smp::IFailure> || r.chance(7, 8); // (a failure finds its model by itself)
    c.op(std::string(listed ? "" : "loose ") + what + " " + name);
    T *made = nullptr;
    std::string lentName(name), lentDescription(description); // the part keeps its own copies
    auto t = thrown([&] { made = listed ? static_cast<T *>(construct(lentName.c_str(), lentDescription.c_str())) : static_cast<T *>(alone(lentName.c_str(), lentDescription.c_str())); });
    lentName.assign(lentName.size(), '#'); lentDescription.assign(lentDescription.size(), '#');
    if (bad) { XV_EQ(t, "InvalidObjectName", "name", "a " << what << " named " << xv::show(name)); XV_COUNT("invalid names"); return made; }
    if (listed && clash) { XV_EQ(t, "DuplicateName", "duplicate", "a second " << what << " named " << name); XV_COUNT("duplicates"); return static_cast<T *>(nullptr); }
    XV_EQ(t, "", "add", "adding the " << what << " " << name);
    XV_EQ(std::string(made->GetName()), name, "facts", "name of a " << what);
    XV_EQ(std::string(made->GetDescription()), description, "facts", "description of the " << what << " " << name);
    XV_EQ(made->GetParent(), static_cast<IObject *>(&o), "facts", "parent of the " << what << " " << name);
    if (listed) { parts.all.push_back(made); parts.facts.emplace_back(name, description); XV_COUNT("parts"); } else XV_COUNT("parts not listed");
    return made;
  };
  auto check = [&](const char *what, auto *collection, auto &parts, auto find) {
    XV_CHECK(collection != nullptr, "list", "no collection of " << what);
    if (!collection) return;
    XV_EQ(collection->GetParent(), static_cast<IObject *>(&o), "list", "parent of the collection of " << what);
    XV_EQ(collection->size(), parts.all.size(), "list", "number of " << what);
    std::size_t k = 0;
    for (auto *e : *collection) { XV_CHECK(k < parts.all.size() && e == parts.all[k], "order", "number " << k << " of the " << what); ++k; }
    for (k = 0; k < parts.all.size(); ++k) {
      XV_CHECK(collection->at(k) == parts.all[k], "order", "number " << k << " of the " << what);
      XV_EQ(std::string(parts.all[k]->GetName()), parts.facts[k].first, "facts", "name of number " << k << " of the " << what);
      XV_EQ(std::string(parts.all[k]->GetDescription()), parts.facts[k].second, "facts", "description of number " << k << " of the " << what);
    }
    for (const char *n : lookups) {
      std::remove_pointer_t<decltype(parts.all.data())> want = nullptr;
      for (k = 0; k < parts.all.size(); ++k) if (parts.facts[k].first == n) want = parts.all[k];
      std::string lent(n);
      XV_CHECK(collection->at(lent.c_str()) == want, "find", "the collection of " << what << (want ? " misses " : " has ") << xv::show(n));
      XV_CHECK(find(lent.c_str()) == want, "find", "the component " << (want ? "misses its " : "has among its ") << what << " " << xv::show(n));
    }
    XV_CHECK(find(nullptr) == nullptr, "find", "one of the " << what << " has a null name");
    XV_COUNT("collections compared");
  };
  for (std::uint64_t n = 5 + r.below(25); n > 0; --n) {
    switch (r.below(7)) {
    case 0: {
      runs.push_back(0);
      auto *count = &runs.back();
      const auto at = runs.size() - 1;
      auto keep = std::make_shared<int>(static_cast<int>(at)); // owned by the callback
      auto call = [count, keep] { ++*count; };
      auto *e = add(eps, "entry point", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::EntryPoint>(nm, d, static_cast<::Xsmp::EntryPointPublisher *>(&o), call); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::EntryPoint>(nm, d, static_cast<IObject *>(&o), call); });
      if (e) exec.emplace_back(e, at);
      break; }
    case 1:
      if (r.chance(1, 2)) add(sinks, "event sink", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::EventSink<void>>(nm, d, static_cast<::Xsmp::EventConsumer *>(&o), [](IObject *) {}); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::EventSink<void>>(nm, d, static_cast<IObject *>(&o), [](IObject *) {}); });
      else if (auto *e = add(sinks, "event sink", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::EventSink<double>>(nm, d, static_cast<::Xsmp::EventConsumer *>(&o), [](IObject *, double) {}, Kind::PTK_Float64); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::EventSink<double>>(nm, d, static_cast<IObject *>(&o), [](IObject *, double) {}, Kind::PTK_Float64); })) XV_CHECK(e->GetEventArgType() == Kind::PTK_Float64, "facts", "argument of a sink");
      break;
    case 2:
      if (r.chance(1, 2)) add(sources, "event source", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::EventSource<void>>(nm, d, static_cast<::Xsmp::EventProvider *>(&o)); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::EventSource<void>>(nm, d, static_cast<IObject *>(&o)); });
      else add(sources, "event source", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::EventSource<bool>>(nm, d, static_cast<::Xsmp::EventProvider *>(&o), Kind::PTK_Bool); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::EventSource<bool>>(nm, d, static_cast<IObject *>(&o), Kind::PTK_Bool); });
      break;
    case 3: {
      const auto lower = r.range(0, 3), upper = r.range(-1, 5);
      auto *e = add(refs, "reference", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::Reference<IComponent>>(nm, d, static_cast<::Xsmp::Aggregate *>(&o), lower, upper); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::Reference<IComponent>>(nm, d, static_cast<IObject *>(&o), lower, upper); });
      if (e) { XV_EQ(e->GetLower(), lower, "facts", "lower bound of a reference"); XV_EQ(e->GetUpper(), upper, "facts", "upper bound of a reference"); XV_EQ(e->GetCount(), 0, "facts", "size of a new reference"); }
      break; }
    case 4: {
      const auto lower = r.range(0, 3), upper = r.range(-1, 5);
      auto *e = add(conts, "container", [&](const char *nm, const char *d) { return &o.own.make<::Xsmp::Container<IComponent>>(nm, d, static_cast<::Xsmp::Composite *>(&o), lower, upper); }, [&](const char *nm, const char *d) { return &loose.make<::Xsmp::Container<IComponent>>(nm, d, static_cast<IObject *>(&o), lower, upper); });
      if (e) { XV_EQ(e->GetLower(), lower, "facts", "lower bound of a container"); XV_EQ(e->GetUpper(), upper, "facts", "upper bound of a container"); XV_EQ(e->GetCount(), 0, "facts", "size of a new container"); }
      break; }
    case 5: {
      using F = ::Xsmp::Field<bool>::failure;
      add(fails, "failure", [&](const char *nm, const char *d) { return &o.own.make<F>(&types, uuidOf(Kind::PTK_Bool), nm, d, &o, ::Smp::ViewKind::VK_All); }, [&](const char *nm, const char *d) { return &loose.make<F>(&types, uuidOf(Kind::PTK_Bool), nm, d, static_cast<IObject *>(&o), ::Smp::ViewKind::VK_All); });
      break; }
    default:
      if (!exec.empty()) {
        auto &e = r.pick(exec);
        c.op(std::string("execute ") + e.first->GetName());
        auto before = runs;
        if (r.chance(1, 2)) e.first->Execute(); else (*static_cast<const ::Xsmp::EntryPoint *>(e.first))();
        before[e.second]++;
        XV_CHECK(before == runs, "execute", "executing the entry point " << e.first->GetName() << " ran something else than its callback once");
        XV_COUNT("executions");
      }
    }
  }
  check("entry points", o.GetEntryPoints(), eps, [&](const char *n) { return o.GetEntryPoint(n); });
  check("event sinks", o.GetEventSinks(), sinks, [&](const char *n) { return o.GetEventSink(n); });
  check("event sources", o.GetEventSources(), sources, [&](const char *n) { return o.GetEventSource(n); });
  check("references", o.GetReferences(), refs, [&](const char *n) { return o.GetReference(n); });
  check("containers", o.GetContainers(), conts, [&](const char *n) { return o.GetContainer(n); });
  check("failures", o.GetFailures(), fails, [&](const char *n) { return o.GetFailure(n); });
  XV_EQ(std::string(o.GetName()), "owner", "facts", "name of the component");
  XV_EQ(std::string(o.GetDescription()), "the owner", "facts", "description of the component");
  XV_CHECK(o.GetParent() == nullptr, "facts", "parent of the component");
  c.nontrivial = eps.all.size() + sinks.all.size() + sources.all.size() + refs.all.size() + conts.all.size() + fails.all.size() > 1;
}
