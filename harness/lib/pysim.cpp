// The real simulator for the Python harness: a C interface over the library it
// was created from, whose calls report their errors as text.
#include "../smpx.h"
#include <cstring>
#include <dlfcn.h>
namespace {
using smpx::Node;
int alive = 0;
/// a model that tells when the simulator deletes it
struct Probe : smpx::Node {
  using Node::Node;
  ~Probe() override { --alive; }
};
void *own(void *sim, const char *name, bool failing) {
  auto *s = static_cast<::Smp::ISimulator *>(sim);
  auto *p = new Probe(name, "", s, s);
  ++alive;
  if (failing) p->onConnect = [] { throw std::runtime_error("the model does not connect"); };
  s->AddModel(p);
  return p;
}
template <typename F> int guarded(char *err, std::size_t size, F &&f) {
  std::string what;
  try { f(); return 0; }
  catch (const ::Smp::Exception &e) { what = std::string(e.GetName()) + ": " + e.GetMessage(); }
  catch (const std::exception &e) { what = std::string("std: ") + e.what(); }
  std::snprintf(err, size, "%s", what.c_str());
  return 1;
}
} // namespace
extern "C" {
void *xv_create(const char *library, const char *factory, const char *name, const char *description) {
  void *h = dlopen((std::string("lib") + library + ".so").c_str(), RTLD_NOW | RTLD_GLOBAL);
  if (!h) return nullptr;
  auto *f = reinterpret_cast<::Smp::ISimulator *(*)(::Smp::String8, ::Smp::String8)>(dlsym(h, factory));
  return f ? f(name, description) : nullptr;
}
int xv_load(void *sim, const char *name, char *err, std::size_t size) {
  return guarded(err, size, [&] { static_cast<::Smp::ISimulator *>(sim)->LoadLibrary(name); });
}
int xv_connect(void *sim, char *err, std::size_t size) {
  return guarded(err, size, [&] { static_cast<::Smp::ISimulator *>(sim)->Connect(); });
}
int xv_exit(void *sim, char *err, std::size_t size) {
  return guarded(err, size, [&] { static_cast<::Smp::ISimulator *>(sim)->Exit(); });
}
int xv_abort(void *sim, char *err, std::size_t size) {
  return guarded(err, size, [&] { static_cast<::Smp::ISimulator *>(sim)->Abort(); });
}
int xv_run(void *sim, long long duration, char *err, std::size_t size) {
  return guarded(err, size, [&] { dynamic_cast<::Xsmp::Simulator &>(*static_cast<::Smp::ISimulator *>(sim)).Run(duration); });
}
int xv_state(void *sim) { return static_cast<int>(static_cast<::Smp::ISimulator *>(sim)->GetState()); }
const char *xv_name(void *sim) { return static_cast<::Smp::ISimulator *>(sim)->GetName(); }
int xv_models(void *sim) { return static_cast<int>(static_cast<::Smp::ISimulator *>(sim)->GetContainer("Models")->GetComponents()->size()); }
/// one bit for each standard service there is
int xv_services(void *sim) {
  auto *s = static_cast<::Smp::ISimulator *>(sim);
  return (s->GetLogger() ? 1 : 0) | (s->GetTimeKeeper() ? 2 : 0) | (s->GetResolver() ? 4 : 0) | (s->GetEventManager() ? 8 : 0) | (s->GetLinkRegistry() ? 16 : 0) | (s->GetScheduler() ? 32 : 0);
}
int xv_add(void *sim, const char *name, int failing, char *err, std::size_t size) {
  return guarded(err, size, [&] { own(sim, name, failing != 0); });
}
void xv_destroy(void *sim) { delete static_cast<::Smp::ISimulator *>(sim); }
int xv_alive() { return alive; }
}
