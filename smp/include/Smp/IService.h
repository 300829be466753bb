// Stand-in for the ECSS-E-ST-40-07C header <Smp/IService.h>.
#ifndef STANDIN_SMP_ISERVICE_H
#define STANDIN_SMP_ISERVICE_H
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp {
class IService : public virtual ::Smp::IComponent {
public:
  ~IService() noexcept override = default;
};
using ServiceCollection = ICollection<IService>;
}
#endif
