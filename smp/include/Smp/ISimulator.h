// Stand-in for the ECSS-E-ST-40-07C header <Smp/ISimulator.h>.
#ifndef STANDIN_SMP_ISIMULATOR_H
#define STANDIN_SMP_ISIMULATOR_H
#include <Smp/IComposite.h>
#include <Smp/IModel.h>
#include <Smp/IService.h>
#include <Smp/IFactory.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/IResolver.h>
#include <Smp/Services/ILinkRegistry.h>
namespace Smp {
class IEntryPoint;
namespace Publication { class ITypeRegistry; }
namespace Services { class ILogger; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; class ILinkRegistry; }
class ISimulator : public virtual ::Smp::IComposite {
public:
  ~ISimulator() noexcept override = default;
  static constexpr const char *SMP_SimulatorServices = "Services";
  static constexpr const char *SMP_SimulatorModels = "Models";
  virtual void Initialise() = 0;
  virtual void Publish() = 0;
  virtual void Configure() = 0;
  virtual void Connect() = 0;
  virtual void Run() = 0;
  virtual void Hold(Bool immediate) = 0;
  virtual void Store(String8 filename) = 0;
  virtual void Restore(String8 filename) = 0;
  virtual void Reconnect(IComponent *root) = 0;
  virtual void Exit() = 0;
  virtual void Abort() = 0;
  virtual SimulatorStateKind GetState() const = 0;
  virtual void AddInitEntryPoint(IEntryPoint *entryPoint) = 0;
  virtual void AddModel(IModel *model) = 0;
  virtual void AddService(IService *service) = 0;
  virtual IService *GetService(String8 name) const = 0;
  virtual Services::ILogger *GetLogger() const = 0;
  virtual Services::ITimeKeeper *GetTimeKeeper() const = 0;
  virtual Services::IScheduler *GetScheduler() const = 0;
  virtual Services::IEventManager *GetEventManager() const = 0;
  virtual Services::IResolver *GetResolver() const = 0;
  virtual Services::ILinkRegistry *GetLinkRegistry() const = 0;
  virtual void RegisterFactory(IFactory *componentFactory) = 0;
  virtual IComponent *CreateInstance(Uuid uuid, String8 name, String8 description, IComposite *parent) = 0;
  virtual IFactory *GetFactory(Uuid uuid) const = 0;
  virtual const FactoryCollection *GetFactories() const = 0;
  virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void LoadLibrary(String8 libraryPath) = 0;
};
}
#endif
