// Stand-in for the ECSS-E-ST-40-07C header <Smp/IPersist.h>.
#ifndef STANDIN_SMP_IPERSIST_H
#define STANDIN_SMP_IPERSIST_H
#include <Smp/IObject.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
namespace Smp {
class IPersist : public virtual ::Smp::IObject {
public:
  ~IPersist() noexcept override = default;
  virtual void Restore(IStorageReader *reader) = 0;
  virtual void Store(IStorageWriter *writer) = 0;
};
}
#endif
