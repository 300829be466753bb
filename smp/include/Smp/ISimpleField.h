// Stand-in for the ECSS-E-ST-40-07C header <Smp/ISimpleField.h>.
#ifndef STANDIN_SMP_ISIMPLEFIELD_H
#define STANDIN_SMP_ISIMPLEFIELD_H
#include <Smp/IField.h>
#include <Smp/AnySimple.h>
namespace Smp {
class ISimpleField : public virtual ::Smp::IField {
public:
  ~ISimpleField() noexcept override = default;
  virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
}
#endif
