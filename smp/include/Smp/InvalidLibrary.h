// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidLibrary.h>.
#ifndef STANDIN_SMP_INVALIDLIBRARY_H
#define STANDIN_SMP_INVALIDLIBRARY_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidLibrary : public virtual ::Smp::Exception {
public:
  ~InvalidLibrary() noexcept override = default;
  virtual String8 GetLibraryName() const noexcept = 0;
};
}
#endif
