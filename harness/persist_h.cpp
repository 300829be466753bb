// C26: values of every supported kind stored and restored.
#include "values.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/Services/IResolver.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <filesystem>
#include <unistd.h>
namespace fs = std::filesystem;
namespace {
using namespace smpx;
enum Plain { p0, p1 = 70000, p2 = -5 };
enum class Tiny : std::uint8_t { a, b = 255 };
enum class Wide : std::int64_t { a = INT64_MIN, b = 7, c = INT64_MAX };

/// the simulator whose objects the stored references denote
struct World {
  ::Xsmp::Simulator sim;
  std::vector<::Smp::IObject *> objects;
  std::vector<::Smp::IComponent *> comps;
  World() {
    sim.LoadLibrary("xsmp_services");
    auto *a = new Node("a", "", &sim, &sim);
    sim.AddModel(a);
    for (auto *n : {&a->child<Node>("b"), &a->child<Node>("c_"), a}) {
      auto &e = n->own.make<::Xsmp::EntryPoint>("ep", "", static_cast<::Xsmp::EntryPointPublisher *>(n), [] {});
      auto &s = n->own.make<::Xsmp::EventSource<void>>("es", "", static_cast<::Xsmp::EventProvider *>(n));
      auto &f = n->own.make<::Xsmp::Field<::Smp::Int32>>(sim.GetTypeRegistry(), ::Smp::Uuids::Uuid_Int32, "f", "", n);
      n->onPublish = [p = &f](::Smp::IPublication *r) { r->PublishField(p); };
      objects.insert(objects.end(), {n, &e, &s, &f});
      comps.push_back(n);
    }
    sim.Publish();
    for (auto *s : {sim.GetService("XsmpScheduler"), sim.GetService("XsmpTimeKeeper")}) if (s) { comps.push_back(s); objects.push_back(s); }
  }
};
thread_local World *world = nullptr;

template <typename T, typename = void> struct Gen;
template <typename T> T gen(xv::Rng &r, int deep) { return Gen<T>::make(r, deep); }
template <typename T> bool same(const T &a, const T &b) { return Gen<T>::same(a, b); }
template <typename T> struct Gen<T, std::enable_if_t<std::is_integral_v<T>>> {
  static T make(xv::Rng &r, int) { return static_cast<T>(r.chance(1, 3) ? r.pick({T{}, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(1)}) : static_cast<T>(r.next())); }
  static bool same(T a, T b) { return a == b; }
};
template <typename T> struct Gen<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static T make(xv::Rng &r, int) { return r.chance(1, 4) ? r.pick({static_cast<T>(-0.0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()}) : static_cast<T>((r.unit() - 0.5) * 1e6); }
  static bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
};
template <> struct Gen<Plain> { static Plain make(xv::Rng &r, int) { return r.pick({p0, p1, p2}); } static bool same(Plain a, Plain b) { return a == b; } };
template <> struct Gen<Tiny> { static Tiny make(xv::Rng &r, int) { return r.pick({Tiny::a, Tiny::b}); } static bool same(Tiny a, Tiny b) { return a == b; } };
template <> struct Gen<Wide> { static Wide make(xv::Rng &r, int) { return r.pick({Wide::a, Wide::b, Wide::c}); } static bool same(Wide a, Wide b) { return a == b; } };
std::size_t length(xv::Rng &r, int deep) { return deep > 1 ? r.below(4) : r.chance(1, 20) ? r.below(300) : r.below(8); }
template <typename C, typename T, typename A> struct Gen<std::basic_string<C, T, A>> {
  using S = std::basic_string<C, T, A>;
  static S make(xv::Rng &r, int deep) { S s; for (auto n = r.chance(1, 3) ? r.below(60) : length(r, deep); n > 0; --n) s += gen<C>(r, deep); return s; }
  static bool same(const S &a, const S &b) { return a == b; }
};
template <typename V> struct Seq {
  static bool same(const V &a, const V &b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) if (!::same<typename V::value_type>(*i, *j)) return false;
    return true;
  }
};
template <typename T, typename A> struct Gen<std::vector<T, A>> : Seq<std::vector<T, A>> {
  static std::vector<T, A> make(xv::Rng &r, int deep) { std::vector<T, A> v; for (auto n = length(r, deep); n > 0; --n) v.push_back(gen<T>(r, deep + 1)); return v; }
};
template <typename T, typename C> struct Gen<std::set<T, C>> : Seq<std::set<T, C>> {
  static std::set<T, C> make(xv::Rng &r, int deep) { std::set<T, C> v; for (auto n = length(r, deep); n > 0; --n) v.insert(gen<T>(r, deep + 1)); return v; }
};
template <typename T, typename H> struct Gen<std::unordered_set<T, H>> {
  static std::unordered_set<T, H> make(xv::Rng &r, int deep) { std::unordered_set<T, H> v; for (auto n = length(r, deep); n > 0; --n) v.insert(gen<T>(r, deep + 1)); return v; }
  static bool same(const std::unordered_set<T, H> &a, const std::unordered_set<T, H> &b) { return a == b; }
};
template <typename M> struct Maps {
  static M make(xv::Rng &r, int deep) { M v; for (auto n = length(r, deep); n > 0; --n) v.emplace(gen<typename M::key_type>(r, deep + 1), gen<typename M::mapped_type>(r, deep + 1)); return v; }
  static bool same(const M &a, const M &b) {
    if (a.size() != b.size()) return false;
    for (auto &[k, v] : a) { auto i = b.find(k); if (i == b.end() || !::same<typename M::mapped_type>(v, i->second)) return false; }
    return true;
  }
};
template <typename K, typename V, typename C> struct Gen<std::map<K, V, C>> : Maps<std::map<K, V, C>> {};
template <typename K, typename V, typename H> struct Gen<std::unordered_map<K, V, H>> : Maps<std::unordered_map<K, V, H>> {};
template <typename A, typename B> struct Gen<std::pair<A, B>> {
  static std::pair<A, B> make(xv::Rng &r, int deep) { A a = gen<A>(r, deep); return {a, gen<B>(r, deep)}; }
  static bool same(const std::pair<A, B> &a, const std::pair<A, B> &b) { return ::same<A>(a.first, b.first) && ::same<B>(a.second, b.second); }
};
template <typename T, std::size_t N> struct Gen<std::array<T, N>> : Seq<std::array<T, N>> {
  static std::array<T, N> make(xv::Rng &r, int deep) { std::array<T, N> v{}; for (auto &x : v) x = gen<T>(r, deep); return v; }
};
template <typename T> struct Gen<T *, std::enable_if_t<std::is_base_of_v<::Smp::IObject, T>>> {
  static T *make(xv::Rng &r, int) {
    if (!world || r.chance(1, 8)) return nullptr;
    if constexpr (std::is_same_v<std::remove_const_t<T>, ::Smp::IObject>) return r.pick(world->objects);
    else return dynamic_cast<T *>(r.pick(world->comps));
  }
  static bool same(T *a, T *b) { return a == b; }
};

/// one stored value and the one it is restored into
struct Slot {
  virtual ~Slot() = default;
  virtual void store(::Smp::IStorageWriter *w, const ::Smp::IObject *sender) = 0;
  virtual void restore(::Smp::IStorageReader *r, const ::Smp::IObject *sender) = 0;
  virtual bool equal() const = 0;
  virtual bool kept() const = 0;
  virtual const std::type_info &type() const = 0;
};
const ::Smp::ISimulator *simulator() { return world ? &world->sim : nullptr; }
template <typename T> struct Of final : Slot {
  T saved, kept_, target;
  explicit Of(xv::Rng &r) : saved(gen<T>(r, 0)), kept_(saved), target(gen<T>(r, 0)) {}
  void store(::Smp::IStorageWriter *w, const ::Smp::IObject *o) override { const T &v = saved; if (o) ::Xsmp::Persist::Store(simulator(), o, w, v); else ::Xsmp::Persist::Store(simulator(), w, v); }
  void restore(::Smp::IStorageReader *r, const ::Smp::IObject *o) override { if (o) ::Xsmp::Persist::Restore(simulator(), o, r, target); else ::Xsmp::Persist::Restore(simulator(), r, target); }
  bool equal() const override { return same<T>(kept_, target); }
  bool kept() const override { return same<T>(kept_, saved); }
  const std::type_info &type() const override { return typeid(T); }
};
template <typename T> struct Of<std::atomic<T>> final : Slot {
  std::atomic<T> saved, target;
  T was;
  explicit Of(xv::Rng &r) : saved(gen<T>(r, 0)), target(gen<T>(r, 0)), was(saved) {}
  void store(::Smp::IStorageWriter *w, const ::Smp::IObject *o) override { if (o) ::Xsmp::Persist::Store(simulator(), o, w, saved); else ::Xsmp::Persist::Store(simulator(), w, saved); }
  void restore(::Smp::IStorageReader *r, const ::Smp::IObject *o) override { if (o) ::Xsmp::Persist::Restore(simulator(), o, r, target); else ::Xsmp::Persist::Restore(simulator(), r, target); }
  bool equal() const override { return same<T>(was, target); }
  bool kept() const override { return same<T>(was, saved); }
  const std::type_info &type() const override { return typeid(std::atomic<T>); }
};
template <typename T, std::size_t N, std::size_t M> struct Of<T[N][M]> final : Slot {
  T saved[N][M], target[N][M], was[N][M];
  explicit Of(xv::Rng &r) { for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) { saved[i][j] = was[i][j] = gen<T>(r, 0); target[i][j] = gen<T>(r, 0); } }
  void store(::Smp::IStorageWriter *w, const ::Smp::IObject *o) override { if (o) ::Xsmp::Persist::Store(simulator(), o, w, saved); else ::Xsmp::Persist::Store(simulator(), w, saved); }
  void restore(::Smp::IStorageReader *r, const ::Smp::IObject *o) override { if (o) ::Xsmp::Persist::Restore(simulator(), o, r, target); else ::Xsmp::Persist::Restore(simulator(), r, target); }
  static bool eq(const T (&a)[N][M], const T (&b)[N][M]) { for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) if (!same<T>(a[i][j], b[i][j])) return false; return true; }
  bool equal() const override { return eq(was, target); }
  bool kept() const override { return eq(was, saved); }
  const std::type_info &type() const override { return typeid(T[N][M]); }
};
using Text = std::string;
using Obj = ::Smp::IObject *;
using Comp = ::Smp::IComponent *;
template <typename... T> struct Types {
  static std::unique_ptr<Slot> make(xv::Rng &r) {
    using F = std::unique_ptr<Slot> (*)(xv::Rng &);
    static const F f[] = {[](xv::Rng &q) -> std::unique_ptr<Slot> { return std::make_unique<Of<T>>(q); }...};
    return f[r.below(sizeof...(T))](r);
  }
};
using Scalars = Types<bool, char, signed char, unsigned char, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float, double, wchar_t, char16_t, Plain, Tiny, Wide>;
using Shapes = Types<Text, std::wstring, std::u16string, std::u32string, std::vector<int>, std::vector<bool>, std::vector<Text>, std::vector<std::vector<double>>, std::vector<std::pair<Text, Wide>>, std::vector<std::map<int, Text>>,
                     std::vector<std::array<Text, 3>>, std::set<int>, std::set<Text>, std::set<std::vector<int>>, std::set<int, std::greater<int>>, std::set<std::pair<int, Text>>, std::unordered_set<int>, std::unordered_set<Text>, std::map<int, Text>,
                     std::map<Text, std::vector<int>>, std::map<std::pair<int, Text>, std::set<Text>>, std::map<int, std::map<int, std::vector<Text>>>, std::map<Text, double, std::greater<Text>>, std::unordered_map<Text, int>,
                     std::unordered_map<int, std::unordered_map<Text, std::vector<bool>>>, std::array<int, 5>, std::array<Text, 2>, std::array<double, 0>, std::array<std::vector<Text>, 4>, std::pair<int, Text>, std::pair<std::set<int>, std::pair<Text, bool>>,
                     std::atomic<int>, std::atomic<bool>, std::atomic<double>, std::atomic<std::uint64_t>, int[2][3], Text[3][1], std::vector<float>[1][2], std::uint8_t[7][5]>;
using Objects = Types<Obj, Comp, const ::Smp::IObject *, const ::Smp::IComponent *, std::vector<Obj>, std::set<Comp>, std::map<Obj, int>, std::map<int, Obj>, std::pair<Comp, Text>, std::array<Obj, 2>, std::unordered_map<Comp, Obj>, std::map<Comp, std::vector<Obj>>>;
struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/xvpersistXXXXXX"; dir = mkdtemp(t); }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
};
std::vector<std::unique_ptr<Slot>> slots(xv::Case &c, bool objects) {
  std::vector<std::unique_ptr<Slot>> v;
  for (auto n = c.rng.range(1, 12); n > 0; --n) {
    const auto k = c.rng.below(objects ? 12 : 10);
    v.push_back(k < 3 ? Scalars::make(c.rng) : k < 10 ? Shapes::make(c.rng) : Objects::make(c.rng));
    c.op(v.back()->type().name());
  }
  return v;
}
void roundTrip(xv::Case &c, bool objects, ::Smp::IObject *sender) {
  auto v = slots(c, objects);
  Scratch s;
  const bool file = c.rng.chance(1, 2);
  std::vector<bool> checked;
  for (std::size_t i = 0; i < v.size(); ++i) checked.push_back(c.rng.chance(1, 2));
  auto write = [&](::Smp::IStorageWriter &w) { for (std::size_t i = 0; i < v.size(); ++i) v[i]->store(&w, checked[i] ? sender : nullptr); };
  auto judge = [&](::Smp::IStorageReader &r, auto &&done) {
    for (std::size_t i = 0; i < v.size(); ++i) {
      v[i]->restore(&r, checked[i] ? sender : nullptr);
      XV_CHECK(v[i]->kept(), "stored", "storing changed the stored value of type " << v[i]->type().name());
      XV_CHECK(v[i]->equal(), "restored", "a value of type " << v[i]->type().name() << " did not come back");
      XV_COUNT("values restored");
    }
    XV_CHECK(done(), "consumed", "reading back did not consume exactly what was written");
  };
  MemStore m;
  write(m);
  if (file) {
    const std::string path = c.rng.chance(1, 2) ? s.dir : s.dir + "/deep/er"; // the writer creates the path
    { ::Xsmp::StorageWriter w(path.c_str(), "state.bin", sender); XV_EQ(std::string(w.GetStateVectorFileName()), "state.bin", "names", "file name"); XV_EQ(std::string(w.GetStateVectorFilePath()), path, "names", "path"); write(w); }
    XV_COUNT("stores to files");
    XV_EQ(fs::file_size(path + "/state.bin"), m.bytes.size(), "size", "size of the file");
    ::Xsmp::StorageReader r(path.c_str(), "state.bin", sender);
    XV_EQ(std::string(r.GetStateVectorFileName()), "state.bin", "names", "file name");
    XV_EQ(std::string(r.GetStateVectorFilePath()), path, "names", "path");
    judge(r, [&] { char x = 0; bool end = false; try { r.Restore(&x, 1); } catch (const ::Smp::CannotRestore &) { end = true; } return end; });
  } else {
    MemLoad l(m);
    judge(l, [&] { return l.done(); });
  }
  // a truncated store: what was read before the cut is right, then the restore throws
  if (!m.bytes.empty()) {
    const std::size_t cut = c.rng.below(m.bytes.size());
    std::vector<char> part(m.bytes.begin(), m.bytes.begin() + static_cast<std::ptrdiff_t>(cut));
    { std::FILE *f = std::fopen((s.dir + "/cut.bin").c_str(), "wb"); if (cut) std::fwrite(part.data(), 1, cut, f); std::fclose(f); }
    ::Xsmp::StorageReader r(s.dir.c_str(), "cut.bin", sender);
    bool threw = false;
    for (std::size_t i = 0; i < v.size() && !threw; ++i) {
      try { v[i]->restore(&r, checked[i] ? sender : nullptr); } catch (const ::Smp::CannotRestore &) { threw = true; break; }
      XV_CHECK(v[i]->equal(), "restored", "a value of type " << v[i]->type().name() << " did not come back from a truncated store");
    }
    XV_CHECK(threw, "truncated", "a store cut at byte " << cut << " of " << m.bytes.size() << " was restored");
    XV_COUNT("truncated stores");
  }
  // a value of another type in the checked format
  {
    MemStore one;
    v[0]->store(&one, sender);
    auto other = c.rng.chance(1, 2) ? Scalars::make(c.rng) : Shapes::make(c.rng);
    if (other->type() != v[0]->type()) {
      MemLoad l(one);
      xv::throws<::Smp::CannotRestore>("type", "restoring a value of another type", [&] { other->restore(&l, sender); });
      XV_COUNT("types refused");
    }
  }
  c.nontrivial = v.size() > 1;
}
} // namespace
XV_SCENARIO(C26, values, 3000, 100000) {
  Leaf sender("sender", "", nullptr, nullptr);
  roundTrip(c, false, &sender);
}
XV_SCENARIO(C26, references, 400, 8000) {
  World w;
  world = &w;
  try { roundTrip(c, true, w.comps[0]); } catch (...) { world = nullptr; throw; }
  world = nullptr;
  XV_COUNT("simulations");
}
/// where files cannot be written or read
XV_SCENARIO(C26, files, 200, 4000) {
  Scratch s;
  c.nontrivial = true;
  Leaf sender("sender", "", nullptr, nullptr);
  std::uint64_t v = c.rng.next(), back = 0;
  const auto k = c.rng.below(8);
  c.op(std::to_string(k));
  auto store = [&](const char *path, const char *name) { ::Xsmp::StorageWriter w(path, name, &sender); w.Store(&v, sizeof v); };
  auto load = [&](const char *path, const char *name) { ::Xsmp::StorageReader r(path, name, &sender); r.Restore(&back, sizeof back); };
  const std::string file = s.dir + "/x";
  switch (k) {
  case 0: xv::throws<::Smp::CannotRestore>("missing", "reading a missing file", [&] { load(s.dir.c_str(), "nothing"); }); XV_COUNT("files refused"); break;
  case 1: xv::throws<::Smp::CannotStore>("directory", "writing over a directory", [&] { fs::create_directory(file); store(s.dir.c_str(), "x"); }); XV_COUNT("files refused"); break;
  case 2: // the path is a file
    store(s.dir.c_str(), "x");
    xv::throws<::Smp::CannotStore>("path", "writing below a file", [&] { store(file.c_str(), "y"); });
    xv::throws<::Smp::CannotStore>("path", "writing below a file", [&] { store((file + "/z").c_str(), "y"); });
    xv::throws<::Smp::CannotRestore>("path", "reading below a file", [&] { load(file.c_str(), "y"); });
    XV_COUNT("files refused");
    break;
  case 3: case 4: { // the name alone says where the file is
    const char *none = k == 3 ? nullptr : "";
    store(none, file.c_str());
    load(none, file.c_str());
    XV_EQ(back, v, "no path", "value read back from " << file);
    XV_COUNT("files without path");
    break;
  }
  case 5: // storing again replaces the content
    { ::Xsmp::StorageWriter w(s.dir.c_str(), "x", &sender); for (int i = 0; i < 5; ++i) w.Store(&v, sizeof v); }
    store(s.dir.c_str(), "x");
    XV_EQ(fs::file_size(file), sizeof v, "size", "size of a file stored again");
    load(s.dir.c_str(), "x");
    XV_EQ(back, v, "again", "value read back");
    XV_COUNT("files replaced");
    break;
  case 6: { // large blocks
    std::vector<char> big(c.rng.below(3000000)), in(big.size());
    for (std::size_t i = 0; i < big.size(); i += 97) big[i] = static_cast<char>(c.rng.next());
    { ::Xsmp::StorageWriter w(s.dir.c_str(), "x", &sender); w.Store(big.data(), big.size()); w.Store(nullptr, 0); w.Store(&v, sizeof v); }
    ::Xsmp::StorageReader r(s.dir.c_str(), "x", &sender);
    r.Restore(in.data(), in.size());
    r.Restore(&back, sizeof back);
    XV_CHECK(in == big && back == v, "large", "a block of " << big.size() << " bytes did not come back");
    XV_COUNT("large blocks");
    break;
  }
  default: xv::throws<::Smp::CannotRestore>("short", "reading more than is there", [&] { store(s.dir.c_str(), "x"); char b[64]; ::Xsmp::StorageReader r(s.dir.c_str(), "x", &sender); r.Restore(b, 9 + c.rng.below(50)); }); XV_COUNT("files refused"); break;
  }
}
