// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFailure.h>.
#ifndef STANDIN_SMP_IFAILURE_H
#define STANDIN_SMP_IFAILURE_H
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
namespace Smp {
class IFailure : public virtual ::Smp::IPersist {
public:
  ~IFailure() noexcept override = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual Bool IsFailed() const = 0;
};
using FailureCollection = ICollection<IFailure>;
}
#endif
