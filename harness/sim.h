// A simulator with the standard services for the harnesses, and the scratch
// directory they run in.
#ifndef SIM_H_
#define SIM_H_
#include "smpx.h"
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/IResolver.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/ITimeKeeper.h>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <unistd.h>
namespace smpx {
/// the current directory of the process, removed when it ends
struct Scratch {
  std::string dir, before;
  Scratch() {
    char t[] = "/tmp/xvsimXXXXXX";
    if (!mkdtemp(t)) std::abort();
    dir = t;
    before = std::filesystem::current_path();
    if (chdir(t) != 0) std::abort();
    quiet();
  }
  ~Scratch() {
    if (chdir(before.c_str()) != 0) std::abort();
    std::error_code e;
    std::filesystem::remove_all(dir, e);
  }
  /// no appender for the loggers created from now on
  void quiet() { configure("log.rootLogger=\n"); }
  void configure(const std::string &text) { std::ofstream f("XsmpLogger.properties"); f << text; }
  static Scratch &get() { static Scratch s; return s; }
};
inline const char *stateName(::Smp::SimulatorStateKind s) {
  static const char *const names[] = {"Building", "Connecting", "Initialising", "Standby", "Executing", "Storing", "Restoring", "Reconnecting", "Exiting", "Aborting"};
  return names[static_cast<int>(s)];
}
/// a simulator with the standard services loaded
struct World {
  Scratch &scratch = Scratch::get();
  ::Xsmp::Simulator sim;
  explicit World(bool connect = true) {
    sim.LoadLibrary("xsmp_services");
    if (connect) { sim.Publish(); sim.Configure(); sim.Connect(); }
  }
  ::Smp::Services::IScheduler *scheduler() { return sim.GetScheduler(); }
  ::Smp::Services::ITimeKeeper *clock() { return sim.GetTimeKeeper(); }
  ::Smp::Services::IEventManager *events() { return sim.GetEventManager(); }
  ::Smp::Services::ILinkRegistry *links() { return sim.GetLinkRegistry(); }
  ::Smp::Services::ILogger *logger() { return sim.GetLogger(); }
};
} // namespace smpx
#endif
