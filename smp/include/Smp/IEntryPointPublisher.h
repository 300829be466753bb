// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEntryPointPublisher.h>.
#ifndef STANDIN_SMP_IENTRYPOINTPUBLISHER_H
#define STANDIN_SMP_IENTRYPOINTPUBLISHER_H
#include <Smp/IEntryPoint.h>
namespace Smp {
class IEntryPointPublisher : public virtual ::Smp::IObject {
public:
  ~IEntryPointPublisher() noexcept override = default;
  virtual const EntryPointCollection *GetEntryPoints() const = 0;
  virtual IEntryPoint *GetEntryPoint(String8 name) const = 0;
};
}
#endif
