// Objects the SMP harnesses are made of: a component with every kind of
// member, built and changed at run time, whose life and calls are recorded.
#ifndef SMPX_H_
#define SMPX_H_
#include "xv.h"
#include <Smp/AnySimple.h>
#include <Smp/Exception.h>
#include <Smp/IField.h>
#include <Smp/IModel.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IPublication.h>
#include <Smp/IRequest.h>
#include <Smp/IService.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Component.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Service.h>
#include <Xsmp/Simulator.h>
#include <memory>
#include <algorithm>
#include <deque>
#include <set>
namespace smpx {
using Kind = ::Smp::PrimitiveTypeKind;

/// a pointer-stable pool of members of any type, destroyed in reverse order
struct Pool {
  std::vector<std::shared_ptr<void>> v;
  template <typename T, typename... A> T &make(A &&...a) {
    auto p = std::make_shared<T>(std::forward<A>(a)...);
    v.push_back(p);
    return *p;
  }
  Pool() = default;
  Pool(const Pool &) = delete;
  Pool &operator=(const Pool &) = delete;
  ~Pool() { while (!v.empty()) v.pop_back(); }
};

/// records what happens to components
struct Trace {
  std::mutex m;
  std::vector<std::string> calls;
  bool on = false; // set while someone reads the calls
  void call(const std::string &s) { if (!on) return; std::lock_guard<std::mutex> g(m); calls.push_back(s); }
  std::vector<std::string> take() { std::lock_guard<std::mutex> g(m); auto r = std::move(calls); calls.clear(); return r; }
};
inline Trace &trace() { static auto *t = new Trace; return *t; }

const ::Smp::Uuid nodeUuid{0x12345678, 0x1234, 0x1234, 0x1234, 0x123456789abcULL};

/// the members every component of the harnesses has
template <typename Base>
class NodeOf : public Base, public ::Xsmp::Composite, public ::Xsmp::Aggregate, public ::Xsmp::EventProvider, public ::Xsmp::EventConsumer, public ::Xsmp::EntryPointPublisher {
public:
  Pool own;
  std::function<void(::Smp::IPublication *)> onPublish;
  std::function<void()> onConfigure, onConnect, onDisconnect;
  ::Smp::Uuid uuid = nodeUuid;
  ::Xsmp::Container<::Smp::IComponent> children{"children", "child components", static_cast<::Xsmp::Composite *>(this), 0, -1};
  NodeOf(const char *name, const char *description = "", ::Smp::IComposite *parent = nullptr, ::Smp::ISimulator *simulator = nullptr) : Base(name, description, parent, simulator) { liveCount()++; }
  ~NodeOf() noexcept override { liveCount()--; }
  static std::atomic<int> &liveCount() { static std::atomic<int> n{0}; return n; }
  const ::Smp::Uuid &GetUuid() const override { return uuid; }
  void Publish(::Smp::IPublication *r) override { Base::Publish(r); trace().call(std::string("publish ") + this->GetName()); if (onPublish) onPublish(r); }
  void Configure(::Smp::Services::ILogger *l, ::Smp::Services::ILinkRegistry *r) override { Base::Configure(l, r); trace().call(std::string("configure ") + this->GetName()); if (onConfigure) onConfigure(); }
  void Connect(::Smp::ISimulator *s) override { Base::Connect(s); trace().call(std::string("connect ") + this->GetName()); if (onConnect) onConnect(); }
  void Disconnect() override { trace().call(std::string("disconnect ") + this->GetName()); if (onDisconnect) onDisconnect(); Base::Disconnect(); }
  using Base::GetSimulator;
  /// a contained child, owned by the container
  template <typename T = NodeOf> T &child(const char *name) {
    auto n = std::make_unique<T>(name, "", this, nullptr);
    auto &r = *n;
    children.AddComponent(n.get());
    n.release();
    return r;
  }
};
class Node : public NodeOf<::Xsmp::Model>, public ::Xsmp::FallibleModel {
public:
  using NodeOf<::Xsmp::Model>::NodeOf;
};
/// a component that publishes nothing and is no composite
class Leaf : public ::Xsmp::Model {
public:
  using ::Xsmp::Model::Model;
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
};
using Svc = NodeOf<::Xsmp::Service>;

inline ::Smp::Uuid uuidOf(Kind k) {
  switch (k) {
  case Kind::PTK_Char8: return ::Smp::Uuids::Uuid_Char8;
  case Kind::PTK_Bool: return ::Smp::Uuids::Uuid_Bool;
  case Kind::PTK_Int8: return ::Smp::Uuids::Uuid_Int8;
  case Kind::PTK_UInt8: return ::Smp::Uuids::Uuid_UInt8;
  case Kind::PTK_Int16: return ::Smp::Uuids::Uuid_Int16;
  case Kind::PTK_UInt16: return ::Smp::Uuids::Uuid_UInt16;
  case Kind::PTK_Int32: return ::Smp::Uuids::Uuid_Int32;
  case Kind::PTK_UInt32: return ::Smp::Uuids::Uuid_UInt32;
  case Kind::PTK_Int64: return ::Smp::Uuids::Uuid_Int64;
  case Kind::PTK_UInt64: return ::Smp::Uuids::Uuid_UInt64;
  case Kind::PTK_Float32: return ::Smp::Uuids::Uuid_Float32;
  case Kind::PTK_Float64: return ::Smp::Uuids::Uuid_Float64;
  case Kind::PTK_Duration: return ::Smp::Uuids::Uuid_Duration;
  case Kind::PTK_DateTime: return ::Smp::Uuids::Uuid_DateTime;
  case Kind::PTK_String8: return ::Smp::Uuids::Uuid_String8;
  default: return ::Smp::Uuids::Uuid_Void;
  }
}
} // namespace smpx
#endif
