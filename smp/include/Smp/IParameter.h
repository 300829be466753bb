// Stand-in for the ECSS-E-ST-40-07C header <Smp/IParameter.h>.
#ifndef STANDIN_SMP_IPARAMETER_H
#define STANDIN_SMP_IPARAMETER_H
#include <Smp/IObject.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IParameter : public virtual ::Smp::IObject {
public:
  ~IParameter() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual Publication::ParameterDirectionKind GetDirection() const = 0;
};
using ParameterCollection = ICollection<IParameter>;
}
#endif
