// Stand-in for the ECSS-E-ST-40-07C header <Smp/IDynamicInvocation.h>.
#ifndef STANDIN_SMP_IDYNAMICINVOCATION_H
#define STANDIN_SMP_IDYNAMICINVOCATION_H
#include <Smp/IComponent.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
namespace Smp {
class IDynamicInvocation : public virtual ::Smp::IComponent {
public:
  ~IDynamicInvocation() noexcept override = default;
  virtual IRequest *CreateRequest(String8 operationName) = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
  virtual const PropertyCollection *GetProperties() const = 0;
  virtual const OperationCollection *GetOperations() const = 0;
};
}
#endif
