// Stand-in for the ECSS-E-ST-40-07C header <Smp/IForcibleField.h>.
#ifndef STANDIN_SMP_IFORCIBLEFIELD_H
#define STANDIN_SMP_IFORCIBLEFIELD_H
#include <Smp/ISimpleField.h>
namespace Smp {
class IForcibleField : public virtual ::Smp::ISimpleField {
public:
  ~IForcibleField() noexcept override = default;
  virtual void Force(AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
}
#endif
