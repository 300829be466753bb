// Stand-in for the ECSS-E-ST-40-07C header <Smp/IDataflowField.h>.
#ifndef STANDIN_SMP_IDATAFLOWFIELD_H
#define STANDIN_SMP_IDATAFLOWFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IDataflowField : public virtual ::Smp::IField {
public:
  ~IDataflowField() noexcept override = default;
  virtual void Connect(IField *target) = 0;
  virtual void Push() = 0;
};
}
#endif
