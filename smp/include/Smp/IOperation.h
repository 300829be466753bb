// Stand-in for the ECSS-E-ST-40-07C header <Smp/IOperation.h>.
#ifndef STANDIN_SMP_IOPERATION_H
#define STANDIN_SMP_IOPERATION_H
#include <Smp/IParameter.h>
#include <Smp/IRequest.h>
#include <Smp/ViewKind.h>
#include <Smp/ICollection.h>
namespace Smp {
class IOperation : public virtual ::Smp::IObject {
public:
  ~IOperation() noexcept override = default;
  virtual const ParameterCollection *GetParameters() const = 0;
  virtual IParameter *GetParameter(String8 name) const = 0;
  virtual IParameter *GetReturnParameter() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual IRequest *CreateRequest() = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
};
using OperationCollection = ICollection<IOperation>;
}
#endif
