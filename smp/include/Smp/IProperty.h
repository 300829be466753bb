// Stand-in for the ECSS-E-ST-40-07C header <Smp/IProperty.h>.
#ifndef STANDIN_SMP_IPROPERTY_H
#define STANDIN_SMP_IPROPERTY_H
#include <Smp/IObject.h>
#include <Smp/AccessKind.h>
#include <Smp/ViewKind.h>
#include <Smp/AnySimple.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IProperty : public virtual ::Smp::IObject {
public:
  ~IProperty() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual AccessKind GetAccess() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
using PropertyCollection = ICollection<IProperty>;
}
#endif
