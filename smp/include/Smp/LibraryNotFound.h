// Stand-in for the ECSS-E-ST-40-07C header <Smp/LibraryNotFound.h>.
#ifndef STANDIN_SMP_LIBRARYNOTFOUND_H
#define STANDIN_SMP_LIBRARYNOTFOUND_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class LibraryNotFound : public virtual ::Smp::Exception {
public:
  ~LibraryNotFound() noexcept override = default;
  virtual String8 GetLibraryName() const noexcept = 0;
};
}
#endif
