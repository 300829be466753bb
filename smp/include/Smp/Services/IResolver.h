// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/IResolver.h>.
#ifndef STANDIN_SMP_SERVICES_IRESOLVER_H
#define STANDIN_SMP_SERVICES_IRESOLVER_H
#include <Smp/IService.h>
namespace Smp {

namespace Services {
class IResolver : public virtual ::Smp::IService {
public:
  ~IResolver() noexcept override = default;
  virtual IObject *ResolveAbsolute(String8 absolutePath) = 0;
  virtual IObject *ResolveRelative(String8 relativePath, const IComponent *sender) = 0;
};
} // namespace Services
} // namespace Smp
#endif
