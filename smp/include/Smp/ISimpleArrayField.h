// Stand-in for the ECSS-E-ST-40-07C header <Smp/ISimpleArrayField.h>.
#ifndef STANDIN_SMP_ISIMPLEARRAYFIELD_H
#define STANDIN_SMP_ISIMPLEARRAYFIELD_H
#include <Smp/IField.h>
#include <Smp/AnySimpleArray.h>
namespace Smp {
class ISimpleArrayField : public virtual ::Smp::IField {
public:
  ~ISimpleArrayField() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual AnySimple GetValue(UInt64 index) const = 0;
  virtual void SetValue(UInt64 index, AnySimple value) = 0;
  virtual void GetValues(UInt64 length, AnySimpleArray values) const = 0;
  virtual void SetValues(UInt64 length, AnySimpleArray values) = 0;
};
}
#endif
