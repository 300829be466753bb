// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/DuplicateLiteral.h>.
#ifndef STANDIN_SMP_PUBLICATION_DUPLICATELITERAL_H
#define STANDIN_SMP_PUBLICATION_DUPLICATELITERAL_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Publication {
class DuplicateLiteral : public virtual ::Smp::Exception {
public:
  ~DuplicateLiteral() noexcept override = default;
  virtual String8 GetLiteralName() const noexcept = 0;
  virtual Int32 GetLiteralValue() const noexcept = 0;
};
}
#endif
