// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IPublishOperation.h>.
#ifndef STANDIN_SMP_PUBLICATION_IPUBLISHOPERATION_H
#define STANDIN_SMP_PUBLICATION_IPUBLISHOPERATION_H
#include <Smp/Uuid.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Publication {
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In) = 0;
};
}
#endif
