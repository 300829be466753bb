// Stand-in for the ECSS-E-ST-40-07C header <Smp/AnySimple.h>.
#ifndef STANDIN_SMP_ANYSIMPLE_H
#define STANDIN_SMP_ANYSIMPLE_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
class AnySimple {
public:
  AnySimple();
  explicit AnySimple(PrimitiveTypeKind kind);
  template <typename T> AnySimple(PrimitiveTypeKind kind, T newValue) : AnySimple(kind) { SetValue(kind, newValue); }
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);
  ~AnySimple() noexcept;
  void SetValue(PrimitiveTypeKind kind, Char8 newValue);
  void SetValue(PrimitiveTypeKind kind, Bool newValue);
  void SetValue(PrimitiveTypeKind kind, Int8 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt8 newValue);
  void SetValue(PrimitiveTypeKind kind, Int16 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt16 newValue);
  void SetValue(PrimitiveTypeKind kind, Int32 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt32 newValue);
  void SetValue(PrimitiveTypeKind kind, Int64 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt64 newValue);
  void SetValue(PrimitiveTypeKind kind, Float32 newValue);
  void SetValue(PrimitiveTypeKind kind, Float64 newValue);
  void SetValue(PrimitiveTypeKind kind, String8 newValue);
  operator Char8() const;
  operator Bool() const;
  operator Int8() const;
  operator UInt8() const;
  operator Int16() const;
  operator UInt16() const;
  operator Int32() const;
  operator UInt32() const;
  operator Int64() const;
  operator UInt64() const;
  operator Float32() const;
  operator Float64() const;
  operator String8() const;
  String8 MoveString();
  PrimitiveTypeKind GetType() const noexcept;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;

  PrimitiveTypeKind type;
  union {
    Char8 char8Value; Bool boolValue; Int8 int8Value; UInt8 uInt8Value; Int16 int16Value; UInt16 uInt16Value;
    Int32 int32Value; UInt32 uInt32Value; Int64 int64Value; UInt64 uInt64Value; Float32 float32Value; Float64 float64Value;
    Duration durationValue; DateTime dateTimeValue; String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
}
#endif
