// Stand-in for the ECSS-E-ST-40-07C header <Smp/IModel.h>.
#ifndef STANDIN_SMP_IMODEL_H
#define STANDIN_SMP_IMODEL_H
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp {
class IModel : public virtual ::Smp::IComponent {
public:
  ~IModel() noexcept override = default;
};
using ModelCollection = ICollection<IModel>;
}
#endif
