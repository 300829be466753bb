// Stand-in for the ECSS-E-ST-40-07C header <Smp/IObject.h>.
#ifndef STANDIN_SMP_IOBJECT_H
#define STANDIN_SMP_IOBJECT_H
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual String8 GetName() const = 0;
  virtual String8 GetDescription() const = 0;
  virtual IObject *GetParent() const = 0;
};
}
#endif
