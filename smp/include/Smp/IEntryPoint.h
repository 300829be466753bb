// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEntryPoint.h>.
#ifndef STANDIN_SMP_IENTRYPOINT_H
#define STANDIN_SMP_IENTRYPOINT_H
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEntryPoint : public virtual ::Smp::IObject {
public:
  ~IEntryPoint() noexcept override = default;
  virtual void Execute() const = 0;
};
using EntryPointCollection = ICollection<IEntryPoint>;
}
#endif
