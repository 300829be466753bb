// Stand-in for the ECSS-E-ST-40-07C header <Smp/Exception.h>.
#ifndef STANDIN_SMP_EXCEPTION_H
#define STANDIN_SMP_EXCEPTION_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <exception>
namespace Smp {
class IObject;
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};
}
#endif
