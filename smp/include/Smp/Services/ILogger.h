// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/ILogger.h>.
#ifndef STANDIN_SMP_SERVICES_ILOGGER_H
#define STANDIN_SMP_SERVICES_ILOGGER_H
#include <Smp/IService.h>
#include <Smp/Services/LogMessageKind.h>
namespace Smp {

namespace Services {
class ILogger : public virtual ::Smp::IService {
public:
  ~ILogger() noexcept override = default;
  static constexpr LogMessageKind LMK_Information = 0;
  static constexpr const char *LMK_InformationName = "Information";
  static constexpr LogMessageKind LMK_Event = 1;
  static constexpr const char *LMK_EventName = "Event";
  static constexpr LogMessageKind LMK_Warning = 2;
  static constexpr const char *LMK_WarningName = "Warning";
  static constexpr LogMessageKind LMK_Error = 3;
  static constexpr const char *LMK_ErrorName = "Error";
  static constexpr LogMessageKind LMK_Debug = 4;
  static constexpr const char *LMK_DebugName = "Debug";
  virtual LogMessageKind QueryLogMessageKind(String8 messageKindName) = 0;
  virtual void Log(const IObject *sender, String8 message, LogMessageKind kind = 0) = 0;
};
} // namespace Services
} // namespace Smp
#endif
