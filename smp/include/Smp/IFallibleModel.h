// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFallibleModel.h>.
#ifndef STANDIN_SMP_IFALLIBLEMODEL_H
#define STANDIN_SMP_IFALLIBLEMODEL_H
#include <Smp/IModel.h>
#include <Smp/IFailure.h>
namespace Smp {
class IFallibleModel : public virtual ::Smp::IModel {
public:
  ~IFallibleModel() noexcept override = default;
  virtual Bool IsFailed() const = 0;
  virtual const FailureCollection *GetFailures() const = 0;
  virtual IFailure *GetFailure(String8 name) const = 0;
};
}
#endif
