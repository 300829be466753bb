// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IClassType.h>.
#ifndef STANDIN_SMP_PUBLICATION_ICLASSTYPE_H
#define STANDIN_SMP_PUBLICATION_ICLASSTYPE_H
#include <Smp/Publication/IStructureType.h>
namespace Smp::Publication {
class IClassType : public virtual ::Smp::Publication::IStructureType {
public:
  ~IClassType() noexcept override = default;
};
}
#endif
