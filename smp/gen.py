#!/usr/bin/env python3
"""Writes the stand-in ECSS SMP headers (see DESIGN.md, "Environment model").
One table per interface; run it again after editing: python3 gen.py"""
import os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "include")

def write(path, body, includes=(), ns=None):
    guard = "STANDIN_SMP_" + re.sub(r"\W", "_", path).upper()
    out = ["// Stand-in for the ECSS-E-ST-40-07C header <Smp/%s>." % path,
           "#ifndef " + guard, "#define " + guard]
    out += ["#include <%s>" % i for i in includes]
    if ns:
        body = "namespace %s {\n%s\n}" % (ns, body.strip("\n"))
    out += [body, "#endif", ""]
    p = os.path.join(ROOT, "Smp", path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write("\n".join(out))

def enum(path, ns, name, prefix, lits, include="Smp/PrimitiveTypes.h"):
    b = "enum class %s : ::Smp::Int32 {\n" % name
    b += ",\n".join("  %s_%s = %d" % (prefix, l, v) for l, v in lits)
    b += "\n};\nstd::ostream &operator<<(std::ostream &os, const %s &obj);" % name
    write(path, b, [include, "iosfwd"], ns)

def iface(name, bases, methods, inc=(), fwd="", pre="", coll=None, ns="Smp", sub="", consts=""):
    """methods: lines of C++ declarations without 'virtual' and '= 0;'"""
    b = fwd
    if b and not b.endswith("\n"): b += "\n"
    ic = list(inc)
    b += "class %s" % name
    if bases:
        b += " : " + ", ".join("public virtual ::%s" % x for x in bases)
    b += " {\npublic:\n  virtual ~%s() noexcept = default;\n" % name if not bases else " {\npublic:\n  ~%s() noexcept override = default;\n" % name
    b += consts
    for m in methods.strip().split(";"):
        m = " ".join(m.split())
        if m: b += "  virtual %s = 0;\n" % m
    b += "};\n"
    if coll:
        b += "using %s = ICollection<%s>;\n" % (coll, name)
        ic.append("Smp/ICollection.h")
    write(sub + name + ".h", b, ic, ns)

# ---------------------------------------------------------------- primitives
ptk = "None Char8 Bool Int8 UInt8 Int16 UInt16 Int32 UInt32 Int64 UInt64 Float32 Float64 Duration DateTime String8".split()
write("PrimitiveTypes.h", """
namespace Smp {
using Char8 = char; using String8 = const char *; using Bool = bool;
using Int8 = std::int8_t; using Int16 = std::int16_t; using Int32 = std::int32_t; using Int64 = std::int64_t;
using UInt8 = std::uint8_t; using UInt16 = std::uint16_t; using UInt32 = std::uint32_t; using UInt64 = std::uint64_t;
using Float32 = float; using Float64 = double;
using Duration = Int64; using DateTime = Int64;
enum class PrimitiveTypeKind : Int32 {
%s
};
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
}""" % ",\n".join("  PTK_%s = %d" % (l, i) for i, l in enumerate(ptk)), ["Smp/Uuid.h", "cstddef", "cstdint", "iosfwd", "memory", "string", "utility", "vector"])
write("PrimitiveTypeKind.h", "", ["Smp/PrimitiveTypes.h"])
enum("ViewKind.h", "Smp", "ViewKind", "VK", [("None", 0), ("Debug", 1), ("Expert", 2), ("All", 3)])
enum("AccessKind.h", "Smp", "AccessKind", "AK", [("ReadWrite", 0), ("ReadOnly", 1), ("WriteOnly", 2)])
enum("ComponentStateKind.h", "Smp", "ComponentStateKind", "CSK", [(n, i) for i, n in enumerate("Created Publishing Configured Connected Disconnected".split())])
enum("SimulatorStateKind.h", "Smp", "SimulatorStateKind", "SSK", [(n, i) for i, n in enumerate("Building Connecting Initialising Standby Executing Storing Restoring Reconnecting Exiting Aborting".split())])
enum("Services/TimeKind.h", "Smp::Services", "TimeKind", "TK", [(n, i) for i, n in enumerate("SimulationTime MissionTime EpochTime ZuluTime".split())])
enum("Publication/ParameterDirectionKind.h", "Smp::Publication", "ParameterDirectionKind", "PDK", [(n, i) for i, n in enumerate("In Out InOut Return".split())])
write("Services/EventId.h", "using EventId = ::Smp::Int64;", ["Smp/PrimitiveTypes.h"], "Smp::Services")
write("Services/LogMessageKind.h", "using LogMessageKind = ::Smp::Int32;", ["Smp/PrimitiveTypes.h"], "Smp::Services")

uu = ["Uuid"] + ptk[1:] + "PrimitiveTypeKind EventId LogMessageKind TimeKind ViewKind ParameterDirectionKind ComponentStateKind AccessKind SimulatorStateKind".split()
write("Uuid.h", """
namespace Smp {
struct Uuid {
  std::uint32_t Data1{};
  std::array<std::uint16_t, 3> Data2{};
  std::array<std::uint8_t, 6> Data3{};
  constexpr Uuid() noexcept = default;
  constexpr Uuid(std::uint32_t d1, std::uint16_t a, std::uint16_t b, std::uint16_t c, std::uint64_t d3) noexcept
      : Data1{d1}, Data2{a, b, c},
        Data3{static_cast<std::uint8_t>((d3 >> 40U) & 0xFFU), static_cast<std::uint8_t>((d3 >> 32U) & 0xFFU),
              static_cast<std::uint8_t>((d3 >> 24U) & 0xFFU), static_cast<std::uint8_t>((d3 >> 16U) & 0xFFU),
              static_cast<std::uint8_t>((d3 >> 8U) & 0xFFU), static_cast<std::uint8_t>(d3 & 0xFFU)} {}
  constexpr Uuid(std::uint32_t d1, const std::array<std::uint16_t, 3> &d2, const std::array<std::uint8_t, 6> &d3) noexcept
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  Uuid(const char *string);
  constexpr Uuid(const Uuid &) noexcept = default;
  constexpr Uuid &operator=(const Uuid &) noexcept = default;
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);
struct Uuids {
  static constexpr Uuid Uuid_Void{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xA0B1C2D3E3FFULL};
%s
};
} // namespace Smp
namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
} // namespace std""" % "\n".join("  static constexpr Uuid Uuid_%s{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0x%012xULL};" % (n, 0xA0B1C2D3E400 + i) for i, n in enumerate(uu)),
      ["array", "cstddef", "cstdint", "functional", "iosfwd"])

conv = "Char8 Bool Int8 UInt8 Int16 UInt16 Int32 UInt32 Int64 UInt64 Float32 Float64 String8".split()
write("AnySimple.h", """
namespace Smp {
class AnySimple {
public:
  AnySimple();
  explicit AnySimple(PrimitiveTypeKind kind);
  template <typename T> AnySimple(PrimitiveTypeKind kind, T newValue) : AnySimple(kind) { SetValue(kind, newValue); }
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);
  ~AnySimple() noexcept;
%s
%s
  String8 MoveString();
  PrimitiveTypeKind GetType() const noexcept;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;

  PrimitiveTypeKind type;
  union {
    Char8 char8Value; Bool boolValue; Int8 int8Value; UInt8 uInt8Value; Int16 int16Value; UInt16 uInt16Value;
    Int32 int32Value; UInt32 uInt32Value; Int64 int64Value; UInt64 uInt64Value; Float32 float32Value; Float64 float64Value;
    Duration durationValue; DateTime dateTimeValue; String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
}""" % ("\n".join("  void SetValue(PrimitiveTypeKind kind, %s newValue);" % c for c in conv),
        "\n".join("  operator %s() const;" % c for c in conv)), ["Smp/PrimitiveTypes.h", "iosfwd"])
write("AnySimpleArray.h", "using AnySimpleArray = AnySimple *;", ["Smp/AnySimple.h"], "Smp")

write("CollectionIterator.h", """
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T **;
  using reference = T *;
  CollectionIterator(const ICollection<T> &collection, std::size_t index) : _collection(&collection), _index(index) {}
  T *operator*() const;
  T *operator->() const { return **this; }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto c = *this; ++_index; return c; }
  bool operator==(const CollectionIterator &o) const { return _collection == o._collection && _index == o._index; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
private:
  const ICollection<T> *_collection;
  std::size_t _index;
};""", ["cstddef", "iterator"], "Smp")
write("IObject.h", """
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual String8 GetName() const = 0;
  virtual String8 GetDescription() const = 0;
  virtual IObject *GetParent() const = 0;
};""", ["Smp/PrimitiveTypes.h"], "Smp")
write("ICollection.h", """
template <typename T> class ICollection : public virtual IObject {
public:
  using iterator = CollectionIterator<T>;
  using const_iterator = CollectionIterator<T>;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
template <typename T> T *CollectionIterator<T>::operator*() const { return _collection->at(_index); }""",
      ["Smp/CollectionIterator.h", "Smp/IObject.h"], "Smp")

O, P, C = "Smp::IObject", "Smp::IPersist", "Smp::IComponent"
def I(n): return "Smp/%s.h" % n
T = "Smp/PrimitiveTypes.h"
write("IStorageReader.h", """
class IStorageReader {
public:
  virtual ~IStorageReader() noexcept = default;
  virtual void Restore(void *address, UInt64 size) = 0;
  virtual String8 GetStateVectorFileName() const = 0;
  virtual String8 GetStateVectorFilePath() const = 0;
};""", [T], "Smp")
write("IStorageWriter.h", """
class IStorageWriter {
public:
  virtual ~IStorageWriter() noexcept = default;
  virtual void Store(void *address, UInt64 size) = 0;
  virtual String8 GetStateVectorFileName() const = 0;
  virtual String8 GetStateVectorFilePath() const = 0;
};""", [T], "Smp")
iface("IPersist", [O], "void Restore(IStorageReader *reader); void Store(IStorageWriter *writer);", [I("IObject"), I("IStorageReader"), I("IStorageWriter")])
iface("IField", [P], "ViewKind GetView() const; Bool IsState() const; Bool IsInput() const; Bool IsOutput() const; const Publication::IType *GetType() const;",
      [I("IPersist"), I("ViewKind")], "namespace Publication { class IType; }", coll="FieldCollection")
iface("ISimpleField", ["Smp::IField"], "PrimitiveTypeKind GetPrimitiveTypeKind() const; AnySimple GetValue() const; void SetValue(AnySimple value);", [I("IField"), I("AnySimple")])
iface("IForcibleField", ["Smp::ISimpleField"], "void Force(AnySimple value); void Unforce(); Bool IsForced(); void Freeze();", [I("ISimpleField")])
iface("IDataflowField", ["Smp::IField"], "void Connect(IField *target); void Push();", [I("IField")])
iface("IArrayField", ["Smp::IField"], "UInt64 GetSize() const; IField *GetItem(UInt64 index) const;", [I("IField")])
iface("ISimpleArrayField", ["Smp::IField"], "UInt64 GetSize() const; AnySimple GetValue(UInt64 index) const; void SetValue(UInt64 index, AnySimple value); void GetValues(UInt64 length, AnySimpleArray values) const; void SetValues(UInt64 length, AnySimpleArray values);", [I("IField"), I("AnySimpleArray")])
iface("IStructureField", ["Smp::IField"], "const FieldCollection *GetFields() const; IField *GetField(String8 name) const;", [I("IField")])
iface("IFailure", [P], "void Fail(); void Unfail(); Bool IsFailed() const;", [I("IPersist")], coll="FailureCollection")
iface("IComponent", [O], """ComponentStateKind GetState() const; void Publish(IPublication *receiver);
 void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry = nullptr); void Connect(ISimulator *simulator); void Disconnect();
 IField *GetField(String8 fullName) const; const FieldCollection *GetFields() const; const Uuid &GetUuid() const;""",
      [I("IObject"), I("IField"), I("ComponentStateKind"), I("Uuid")], "class IPublication;\nclass ISimulator;\nnamespace Services { class ILogger; class ILinkRegistry; }", coll="ComponentCollection")
iface("IModel", [C], "", [I("IComponent")], coll="ModelCollection")
iface("IService", [C], "", [I("IComponent")], coll="ServiceCollection")
iface("ILinkingComponent", [C], "void RemoveLinks(const IComponent *target);", [I("IComponent")])
iface("IContainer", [O], "const ComponentCollection *GetComponents() const; IComponent *GetComponent(String8 name) const; void AddComponent(IComponent *component); void DeleteComponent(IComponent *component); Int64 GetCount() const; Int64 GetUpper() const; Int64 GetLower() const;", [I("IComponent")], coll="ContainerCollection")
iface("IReference", [O], "const ComponentCollection *GetComponents() const; IComponent *GetComponent(String8 name) const; void AddComponent(IComponent *component); void RemoveComponent(IComponent *component); Int64 GetCount() const; Int64 GetUpper() const; Int64 GetLower() const;", [I("IComponent")], coll="ReferenceCollection")
iface("IComposite", [O], "const ContainerCollection *GetContainers() const; IContainer *GetContainer(String8 name) const;", [I("IContainer")])
iface("IAggregate", [C], "const ReferenceCollection *GetReferences() const; IReference *GetReference(String8 name) const;", [I("IReference")])
iface("IEntryPoint", [O], "void Execute() const;", [I("IObject")], coll="EntryPointCollection")
iface("IEntryPointPublisher", [O], "const EntryPointCollection *GetEntryPoints() const; IEntryPoint *GetEntryPoint(String8 name) const;", [I("IEntryPoint")])
iface("IEventSink", [O], "PrimitiveTypeKind GetEventArgType() const; void Notify(IObject *sender, AnySimple arg);", [I("IObject"), I("AnySimple")], coll="EventSinkCollection")
iface("IEventSource", [O], "void Subscribe(IEventSink *eventSink); void Unsubscribe(IEventSink *eventSink);", [I("IEventSink")], coll="EventSourceCollection")
iface("IEventConsumer", [C], "const EventSinkCollection *GetEventSinks() const; IEventSink *GetEventSink(String8 name) const;", [I("IComponent"), I("IEventSink")])
iface("IEventProvider", [C], "const EventSourceCollection *GetEventSources() const; IEventSource *GetEventSource(String8 name) const;", [I("IComponent"), I("IEventSource")])
iface("IFallibleModel", ["Smp::IModel"], "Bool IsFailed() const; const FailureCollection *GetFailures() const; IFailure *GetFailure(String8 name) const;", [I("IModel"), I("IFailure")])
iface("IParameter", [O], "Publication::IType *GetType() const; Publication::ParameterDirectionKind GetDirection() const;", [I("IObject"), "Smp/Publication/ParameterDirectionKind.h"], "namespace Publication { class IType; }", coll="ParameterCollection")
iface("IRequest", [], """String8 GetOperationName() const; Int32 GetParameterCount() const; Int32 GetParameterIndex(String8 parameterName) const;
 void SetParameterValue(Int32 index, AnySimple value); AnySimple GetParameterValue(Int32 index) const; void SetReturnValue(AnySimple value); AnySimple GetReturnValue() const;""", [I("AnySimple")])
iface("IOperation", [O], "const ParameterCollection *GetParameters() const; IParameter *GetParameter(String8 name) const; IParameter *GetReturnParameter() const; ViewKind GetView() const; IRequest *CreateRequest(); void Invoke(IRequest *request); void DeleteRequest(IRequest *request);", [I("IParameter"), I("IRequest"), I("ViewKind")], coll="OperationCollection")
iface("IProperty", [O], "Publication::IType *GetType() const; AccessKind GetAccess() const; ViewKind GetView() const; AnySimple GetValue() const; void SetValue(AnySimple value);", [I("IObject"), I("AccessKind"), I("ViewKind"), I("AnySimple")], "namespace Publication { class IType; }", coll="PropertyCollection")
iface("IDynamicInvocation", [C], "IRequest *CreateRequest(String8 operationName); void Invoke(IRequest *request); void DeleteRequest(IRequest *request); const PropertyCollection *GetProperties() const; const OperationCollection *GetOperations() const;", [I("IComponent"), I("IOperation"), I("IProperty"), I("IRequest")])
iface("IFactory", [O], "Uuid GetUuid() const; IComponent *CreateInstance(String8 name, String8 description, IComposite *parent); void DeleteInstance(IComponent *instance); String8 GetTypeName() const;", [I("IObject"), I("Uuid")], "class IComponent;\nclass IComposite;", coll="FactoryCollection")

flag = "ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false"
iface("IPublication", [], "Publication::ITypeRegistry *GetTypeRegistry() const;" +
      "".join("void PublishField(String8 name, String8 description, %s *address, %s);" % (t, flag) for t in conv[:-1]) +
      "void PublishField(String8 name, String8 description, void *address, Uuid typeUuid, %s); void PublishField(IField *field);" % flag +
      "void PublishArray(String8 name, String8 description, Int64 count, void *address, PrimitiveTypeKind type, %s);" % flag +
      """IPublication *PublishArray(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true);
      IPublication *PublishStructure(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true);
      Publication::IPublishOperation *PublishOperation(String8 name, String8 description, ViewKind view = ViewKind::VK_None);
      void PublishProperty(String8 name, String8 description, Uuid typeUuid, AccessKind accessKind, ViewKind view = ViewKind::VK_None);
      IField *GetField(String8 fullName) const; const FieldCollection *GetFields() const; const PropertyCollection *GetProperties() const; const OperationCollection *GetOperations() const;
      IRequest *CreateRequest(String8 operationName); void DeleteRequest(IRequest *request); void Unpublish();""",
      [I("IField"), I("IOperation"), I("IProperty"), I("IRequest"), I("Uuid"), I("ViewKind"), I("AccessKind")], "namespace Publication { class ITypeRegistry; class IPublishOperation; }")

PB = "Smp::Publication"
iface("IType", [O], "PrimitiveTypeKind GetPrimitiveTypeKind() const; Uuid GetUuid() const; void Publish(IPublication *receiver, String8 name, String8 description, void *address, %s);" % flag,
      [I("IObject"), I("Uuid"), I("ViewKind")], "", ns="Smp { class IPublication; namespace Publication", sub="Publication/") if False else write("Publication/IType.h", """
namespace Smp {
class IPublication;
namespace Publication {
class IType : public virtual ::Smp::IObject {
public:
  ~IType() noexcept override = default;
  virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual Uuid GetUuid() const = 0;
  virtual void Publish(IPublication *receiver, String8 name, String8 description, void *address, %s) = 0;
};
} // namespace Publication
} // namespace Smp""" % flag, [I("IObject"), I("Uuid"), I("ViewKind")])
PT = "Smp::Publication::IType"
iface("IArrayType", [PT], "UInt64 GetSize() const; const IType *GetItemType() const;", ["Smp/Publication/IType.h"], ns=PB, sub="Publication/")
iface("IEnumerationType", [PT], "void AddLiteral(String8 name, String8 description, Int32 value);", ["Smp/Publication/IType.h"], ns=PB, sub="Publication/")
iface("IStructureType", [PT], "void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, %s);" % flag, ["Smp/Publication/IType.h"], ns=PB, sub="Publication/")
iface("IClassType", [PB + "::IStructureType"], "", ["Smp/Publication/IStructureType.h"], ns=PB, sub="Publication/")
iface("IPublishOperation", [], "void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In);", ["Smp/Uuid.h", "Smp/Publication/ParameterDirectionKind.h", T], ns=PB, sub="Publication/")
nd = "String8 name, String8 description, Uuid typeUuid"
iface("ITypeRegistry", [], """IType *GetType(PrimitiveTypeKind type) const; IType *GetType(Uuid typeUuid) const;
 IType *AddFloatType(%s, Float64 minimum, Float64 maximum, Bool minInclusive, Bool maxInclusive, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Float64);
 IType *AddIntegerType(%s, Int64 minimum, Int64 maximum, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Int32);
 IEnumerationType *AddEnumerationType(%s, Int16 memorySize);
 IArrayType *AddArrayType(%s, Uuid itemTypeUuid, Int64 itemSize, Int64 arrayCount, Bool simpleArray = false);
 IType *AddStringType(%s, Int64 length); IStructureType *AddStructureType(%s); IClassType *AddClassType(%s, Uuid baseClassUuid);""" % ((nd,) * 7),
      ["Smp/Publication/IType.h", "Smp/Publication/IArrayType.h", "Smp/Publication/IClassType.h", "Smp/Publication/IEnumerationType.h", "Smp/Publication/IStructureType.h"], ns=PB, sub="Publication/")

SV = "Smp::Services"
S = ["Smp::IService"]
fw = "class IEntryPoint;"
def svc(name, methods, inc=(), fwd="", consts=""):
    b = "namespace Smp {\n%s\nnamespace Services {\nclass %s : public virtual ::Smp::IService {\npublic:\n  ~%s() noexcept override = default;\n%s" % (fwd, name, name, consts)
    for m in methods.strip().split(";"):
        m = " ".join(m.split())
        if m: b += "  virtual %s = 0;\n" % m
    write("Services/%s.h" % name, b + "};\n} // namespace Services\n} // namespace Smp", [I("IService")] + list(inc))
svc("ILogger", "LogMessageKind QueryLogMessageKind(String8 messageKindName); void Log(const IObject *sender, String8 message, LogMessageKind kind = 0);", ["Smp/Services/LogMessageKind.h"],
    consts="".join("  static constexpr LogMessageKind LMK_%s = %d;\n  static constexpr const char *LMK_%sName = \"%s\";\n" % (n, i, n, n) for i, n in enumerate("Information Event Warning Error Debug".split())))
svc("IResolver", "IObject *ResolveAbsolute(String8 absolutePath); IObject *ResolveRelative(String8 relativePath, const IComponent *sender);")
svc("ILinkRegistry", """void AddLink(IComponent *source, const IComponent *target); UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const;
 Bool RemoveLink(IComponent *source, const IComponent *target); const ComponentCollection *GetLinkSources(const IComponent *target) const; Bool CanRemove(const IComponent *target); void RemoveLinks(const IComponent *target);""")
svc("ITimeKeeper", """Duration GetSimulationTime() const; DateTime GetEpochTime() const; DateTime GetMissionStartTime() const; Duration GetMissionTime() const; DateTime GetZuluTime() const;
 void SetSimulationTime(Duration simulationTime); void SetEpochTime(DateTime epochTime); void SetMissionStartTime(DateTime missionStart); void SetMissionTime(Duration missionTime);""")
ev = "LeaveConnecting EnterInitialising LeaveInitialising EnterStandby LeaveStandby EnterExecuting LeaveExecuting EnterStoring LeaveStoring EnterRestoring LeaveRestoring EnterExiting EnterAborting EpochTimeChanged MissionTimeChanged EnterReconnecting LeaveReconnecting PreSimTimeChange PostSimTimeChange".split()
svc("IEventManager", "EventId QueryEventId(String8 eventName); void Subscribe(EventId event, const IEntryPoint *entryPoint); void Unsubscribe(EventId event, const IEntryPoint *entryPoint); void Emit(EventId event, Bool synchronous = true);",
    ["Smp/Services/EventId.h"], fw, consts="".join("  static constexpr EventId SMP_%sId = %d;\n  static constexpr const char *SMP_%s = \"SMP_%s\";\n" % (n, i + 1, n, n) for i, n in enumerate(ev)))
cy = "Duration cycleTime = 0, Int64 repeat = 0"
svc("IScheduler", """EventId AddImmediateEvent(const IEntryPoint *entryPoint); EventId AddSimulationTimeEvent(const IEntryPoint *entryPoint, Duration simulationTime, %s);
 EventId AddMissionTimeEvent(const IEntryPoint *entryPoint, Duration missionTime, %s); EventId AddEpochTimeEvent(const IEntryPoint *entryPoint, DateTime epochTime, %s);
 EventId AddZuluTimeEvent(const IEntryPoint *entryPoint, DateTime zuluTime, %s);
 void SetEventSimulationTime(EventId event, Duration simulationTime); void SetEventMissionTime(EventId event, Duration missionTime); void SetEventEpochTime(EventId event, DateTime epochTime); void SetEventZuluTime(EventId event, DateTime zuluTime);
 void SetEventCycleTime(EventId event, Duration cycleTime); void SetEventRepeat(EventId event, Int64 repeat); void RemoveEvent(EventId event); EventId GetCurrentEventId() const; Duration GetNextScheduledEventTime() const;""" % ((cy,) * 4), ["Smp/Services/EventId.h"], fw)

iface("ISimulator", ["Smp::IComposite"], """void Initialise(); void Publish(); void Configure(); void Connect(); void Run(); void Hold(Bool immediate); void Store(String8 filename); void Restore(String8 filename);
 void Reconnect(IComponent *root); void Exit(); void Abort(); SimulatorStateKind GetState() const; void AddInitEntryPoint(IEntryPoint *entryPoint); void AddModel(IModel *model); void AddService(IService *service); IService *GetService(String8 name) const;
 Services::ILogger *GetLogger() const; Services::ITimeKeeper *GetTimeKeeper() const; Services::IScheduler *GetScheduler() const; Services::IEventManager *GetEventManager() const; Services::IResolver *GetResolver() const; Services::ILinkRegistry *GetLinkRegistry() const;
 void RegisterFactory(IFactory *componentFactory); IComponent *CreateInstance(Uuid uuid, String8 name, String8 description, IComposite *parent); IFactory *GetFactory(Uuid uuid) const; const FactoryCollection *GetFactories() const; Publication::ITypeRegistry *GetTypeRegistry() const; void LoadLibrary(String8 libraryPath);""",
      [I("IComposite"), I("IModel"), I("IService"), I("IFactory"), I("SimulatorStateKind"), I("Uuid")] + ["Smp/Services/I%s.h" % n for n in "Logger TimeKeeper Scheduler EventManager Resolver LinkRegistry".split()],
      "class IEntryPoint;\nnamespace Publication { class ITypeRegistry; }\nnamespace Services { class ILogger; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; class ILinkRegistry; }",
      consts="  static constexpr const char *SMP_SimulatorServices = \"Services\";\n  static constexpr const char *SMP_SimulatorModels = \"Models\";\n")

# ---------------------------------------------------------------- exceptions
write("Exception.h", """
class IObject;
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};""", [T, I("Uuid"), "exception"], "Smp")
def exc(name, getters, inc=(), fwd="", ns="Smp", sub=""):
    b = "namespace Smp {\n%s\n}\nnamespace %s {\nclass %s : public virtual ::Smp::Exception {\npublic:\n  ~%s() noexcept override = default;\n" % (fwd, ns, name, name)
    for g in getters.split(";"):
        if g.strip(): b += "  virtual %s() const noexcept = 0;\n" % g.strip()
    write(sub + name + ".h", b + "};\n}", ["Smp/Exception.h"] + list(inc))
df = "class IDataflowField; class IField;"
es = "class IEventSource; class IEventSink;"
for n in ("FieldAlreadyConnected", "InvalidTarget"): exc(n, "const IDataflowField *GetSource; const IField *GetTarget", fwd=df)
for n in ("CannotStore", "CannotRestore", "InvalidFieldType"): exc(n, "")
exc("InvalidObjectName", "String8 GetInvalidName")
exc("ContainerFull", "String8 GetContainerName; Int64 GetContainerSize")
exc("DuplicateName", "String8 GetDuplicateName")
exc("NotContained", "String8 GetContainerName; IComponent *GetComponent", fwd="class IComponent;")
exc("CannotDelete", "String8 GetContainerName; IComponent *GetComponent; Int64 GetLowerLimit", fwd="class IComponent;")
exc("InvalidComponentState", "ComponentStateKind GetInvalidState; ComponentStateKind GetExpectedState", ["Smp/ComponentStateKind.h"])
exc("InvalidObjectType", "IObject *GetInvalidObject")
exc("NotReferenced", "String8 GetReferenceName; IComponent *GetComponent", fwd="class IComponent;")
exc("ReferenceFull", "String8 GetReferenceName; Int64 GetReferenceSize")
exc("CannotRemove", "String8 GetReferenceName; IComponent *GetComponent; Int64 GetLowerLimit", fwd="class IComponent;")
for n in ("InvalidEventSink", "EventSinkAlreadySubscribed", "EventSinkNotSubscribed"): exc(n, "const IEventSource *GetEventSource; const IEventSink *GetEventSink", fwd=es)
exc("InvalidOperationName", "String8 GetOperationName")
exc("InvalidParameterCount", "String8 GetOperationName; Int32 GetOperationParameters; Int32 GetRequestParameters")
exc("InvalidParameterType", "String8 GetOperationName; String8 GetParameterName; PrimitiveTypeKind GetInvalidType; PrimitiveTypeKind GetExpectedType")
exc("InvalidArrayIndex", "Int64 GetInvalidIndex; Int64 GetArraySize")
exc("InvalidFieldValue", "AnySimple GetInvalidFieldValue", ["Smp/AnySimple.h"])
exc("InvalidArrayValue", "Int64 GetInvalidValueIndex; AnySimple GetInvalidValue", ["Smp/AnySimple.h"])
exc("InvalidArraySize", "Int64 GetArraySize; Int64 GetInvalidSize")
exc("InvalidFieldName", "String8 GetFieldName")
exc("InvalidParameterIndex", "String8 GetOperationName; Int32 GetParameterIndex; Int32 GetParameterCount")
exc("VoidOperation", "String8 GetOperationName")
exc("InvalidAnyType", "PrimitiveTypeKind GetInvalidType; PrimitiveTypeKind GetExpectedType")
exc("InvalidReturnValue", "String8 GetOperationName; AnySimple GetValue", ["Smp/AnySimple.h"])
exc("InvalidParameterValue", "String8 GetParameterName; AnySimple GetValue", ["Smp/AnySimple.h"])
exc("DuplicateUuid", "String8 GetOldName; String8 GetNewName")
for n in ("LibraryNotFound", "InvalidLibrary"): exc(n, "String8 GetLibraryName")
exc("InvalidSimulatorState", "SimulatorStateKind GetInvalidState", ["Smp/SimulatorStateKind.h"])
for n in ("InvalidEventName", "InvalidCycleTime", "InvalidEventTime"): exc(n, "", ns=SV, sub="Services/")
exc("InvalidEventId", "EventId GetInvalidEventId", ["Smp/Services/EventId.h"], ns=SV, sub="Services/")
for n in ("EntryPointNotSubscribed", "EntryPointAlreadySubscribed"): exc(n, "const IEntryPoint *GetEntryPoint; String8 GetEventName", fwd="class IEntryPoint;", ns=SV, sub="Services/")
exc("InvalidSimulationTime", "Duration GetCurrentTime; Duration GetProvidedTime; Duration GetMaximumTime", ns=SV, sub="Services/")
exc("TypeNotRegistered", "Uuid GetUuid", ["Smp/Uuid.h"], ns=PB, sub="Publication/")
exc("TypeAlreadyRegistered", "String8 GetTypeName; const IType *GetType", ["Smp/Publication/IType.h"], ns=PB, sub="Publication/")
exc("DuplicateLiteral", "String8 GetLiteralName; Int32 GetLiteralValue", ns=PB, sub="Publication/")
exc("InvalidPrimitiveType", "String8 GetTypeName; PrimitiveTypeKind GetType", ns=PB, sub="Publication/")
