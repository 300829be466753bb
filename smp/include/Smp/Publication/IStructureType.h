// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IStructureType.h>.
#ifndef STANDIN_SMP_PUBLICATION_ISTRUCTURETYPE_H
#define STANDIN_SMP_PUBLICATION_ISTRUCTURETYPE_H
#include <Smp/Publication/IType.h>
namespace Smp::Publication {
class IStructureType : public virtual ::Smp::Publication::IType {
public:
  ~IStructureType() noexcept override = default;
  virtual void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
};
}
#endif
