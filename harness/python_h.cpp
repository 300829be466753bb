// The base class of the Python tests: generated test modules run by the real
// unittest package over the real simulator, every step recorded and compared
// with what the tests were promised.
#include "xv.h"
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <regex>
#include <sstream>
#include <unistd.h>
namespace {
namespace fs = std::filesystem;
const char *const services[] = {"logger", "time_keeper", "resolver", "event_manager", "link_registry", "scheduler"};
const char *const loaders[] = {"loadLogger", "loadTimeKeeper", "loadResolver", "loadEventManager", "loadLinkRegistry", "loadScheduler"};
struct Scratch {
  fs::path dir;
  Scratch() { char t[] = "/tmp/xvpythonXXXXXX"; if (!mkdtemp(t)) std::abort(); dir = t; }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
};
/// what is promised: lines of the trace, each a pattern
struct Promise {
  std::vector<std::string> lines;
  std::string destroyed; // the state the simulator is deleted in, nothing when it is not created
};
std::string escape(const std::string &s) { return std::regex_replace(s, std::regex(R"([.()\[\]*+?^$\\/{}|])"), R"(\$&)"); }
} // namespace

XV_SCENARIO_NOLEAK(C47, tests, 250, 6000) {
  Scratch scratch;
  auto &r = c.rng;
  const std::string module = r.pick<std::string>({"test_m", "test_Model", "check"});
  std::ostringstream py;
  py << "import unittest\nimport xsmp\nimport ecss_smp\n";
  std::vector<Promise> promises;
  const auto classes = r.range(1, 3);
  for (int k = 0; k < classes; k++) {
    const std::string cls = "Test" + std::to_string(k);
    py << "class " << cls << "(xsmp.unittest.TestCase):\n";
    // what a test class may change
    std::string name = "TestSimulator";
    const bool named = r.chance(1, 4);
    const auto models = r.below(3);
    // the step that fails
    const auto failing = r.chance(1, 2) ? std::string() : r.pick<std::string>({"create", "loader", "loader after", "library", "services", "assembly", "assembly after", "connect", "hints", "skip", "assert"});
    const auto at = r.below(6);
    const std::string raise = failing == "skip" ? "raise unittest.SkipTest('not today')" : failing == "assert" ? "raise AssertionError('not true')" : "raise ValueError('broken')";
    const std::string why = failing == "skip" ? "skip(not today)" : failing == "assert" ? "failure(AssertionError:not_true)" : failing == "library" ? "error(Error:LibraryNotFound" : failing == "connect" ? "error(Error:" : failing == "hints" ? "error(OSError:no_hints)" : "error(ValueError:broken)";
    if (failing == "create") py << "    def createSimulator(self):\n        " << raise << "\n";
    else if (named) { name = "Other"; py << "    def createSimulator(self):\n        return super().createSimulator(name='Other', description='another one')\n"; }
    if (failing == "loader") py << "    def " << loaders[at] << "(self, sim):\n        " << raise << "\n";
    if (failing == "loader after") py << "    def " << loaders[at] << "(self, sim):\n        super()." << loaders[at] << "(sim)\n        " << raise << "\n";
    if (failing == "library") py << "    def " << loaders[at] << "(self, sim):\n        sim.LoadLibrary('xsmp_missing')\n";
    if (failing == "services") py << "    def loadServices(self, sim):\n        super().loadServices(sim)\n        " << raise << "\n";
    py << "    def loadAssembly(self, sim):\n        ecss_smp.say('assembly', sim.describe())\n";
    if (failing == "assembly") py << "        " << raise << "\n";
    for (std::uint64_t m = 0; m < models; m++) py << "        sim.add('m" << m << "')\n";
    if (failing == "connect") py << "        sim.add('bad', True)\n";
    if (failing == "hints") py << "        sim.fail_hints = True\n";
    if (failing == "assembly after" || failing == "skip" || failing == "assert") py << "        " << raise << "\n";
    const auto tests = r.range(1, 3);
    for (int n = 0; n < tests; n++) {
      const auto body = r.pick<std::string>({"pass", "pass", "fail", "error", "skip", "exit", "abort", "run", "delete", "sub"});
      py << "    def test_" << n << "(self):\n        ecss_smp.say('body', self.sim.describe())\n";
      Promise p;
      auto line = [&](const std::string &s) { p.lines.push_back(escape(s)); };
      std::string outcome = "ok";
      line("test " + module + "." + cls + ".test_" + std::to_string(n));
      // set up
      bool good = false;
      do {
        if (failing == "create") break;
        line("create xsmp_simulator createSimulator " + name);
        p.destroyed = "0";
        bool stop = false;
        for (std::size_t s = 0; s < 6 && !stop; s++) {
          const bool here = at == s;
          if (here && failing == "loader") { stop = true; break; }
          if (here && failing == "library") { line("load xsmp_missing"); stop = true; break; }
          line(std::string("load xsmp_") + services[s]);
          if (here && failing == "loader after") stop = true;
        }
        if (stop || failing == "services") break;
        line("assembly " + name + " state 0 services 63 models 0");
        if (failing == "assembly") break;
        for (std::uint64_t m = 0; m < models; m++) line("add m" + std::to_string(m));
        if (failing == "connect") line("add bad");
        if (failing == "assembly after" || failing == "skip" || failing == "assert") break;
        line("connect");
        if (failing == "connect") { p.destroyed = "1"; break; }
        line("hints " + (scratch.dir / ("_" + module + ".py")).string());
        p.destroyed = "3";
        if (failing == "hints") break;
        good = true;
      } while (false);
      if (!good) outcome = why;
      else {
        line("body " + name + " state 3 services 63 models " + std::to_string(models));
        bool standby = true;
        if (body == "fail") { py << "        self.fail('wrong')\n"; outcome = "failure(AssertionError:wrong)"; }
        if (body == "error") { py << "        raise KeyError('lost')\n"; outcome = "error(KeyError:'lost')"; }
        if (body == "skip") { py << "        self.skipTest('later')\n"; outcome = "skip(later)"; }
        if (body == "exit") { py << "        self.sim.Exit()\n"; line("exit"); standby = false; p.destroyed = "8"; }
        if (body == "abort") { py << "        self.sim.Abort()\n"; line("abort"); standby = false; p.destroyed = "9"; }
        if (body == "run") { const auto d = r.below(1000); py << "        self.sim.Run(" << d << ")\n"; line("run " + std::to_string(d)); }
        if (body == "delete") { py << "        del self.sim\n"; standby = false; }
        if (body == "sub") { py << "        for i in range(3):\n            with self.subTest(i=i):\n                self.assertNotEqual(i, 1)\n"; outcome = "sub"; }
        if (standby) { line("exit"); p.destroyed = "8"; }
      }
      line("outcome " + outcome);
      if (why.back() != ')' && !good) p.lines.back() += ".*";
      line("left 0 0");
      promises.push_back(p);
      if (!good) XV_COUNT("tests not set up"); else XV_COUNT("tests set up");
      if (!good) xv::count("failing: " + failing, 1);
      c.op(failing + " " + body + " " + std::to_string(at) + " " + std::to_string(models));
    }
  }
  { std::ofstream f(scratch.dir / (module + ".py")); f << py.str(); }
  { std::ofstream f(scratch.dir / "XsmpLogger.properties"); f << "log.rootLogger=\n"; }
  const auto bin = fs::read_symlink("/proc/self/exe").parent_path().string();
  const char *repo = std::getenv("XV_REPO"), *verif = std::getenv("XV_VERIF");
  XV_CHECK(repo && verif, "environment", "XV_REPO and XV_VERIF are not set");
  const auto out = (scratch.dir / "trace").string(), log = (scratch.dir / "log").string();
  const std::string cmd = "cd " + scratch.dir.string() + " && env -u LD_PRELOAD PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" + repo + "/python:" + verif + "/harness/python:" + scratch.dir.string() + " LD_LIBRARY_PATH=" + bin + " XV_PYSIM=" + bin + "/libxvpysim.so XV_OUT=" + out + " timeout 60 python3 " + verif + "/harness/python/driver.py " + module + " > " + log + " 2>&1";
  const int rc = std::system(cmd.c_str());
  std::ostringstream text;
  { std::ifstream f(log); text << f.rdbuf(); }
  XV_CHECK(rc == 0, "driver", "the tests did not end well: " << rc << " " << text.str().substr(0, 600));
  std::ifstream f(out);
  std::vector<std::string> trace;
  for (std::string l; std::getline(f, l);) trace.push_back(l);
  XV_CHECK(!trace.empty() && trace.back() == "end", "driver", "the tests did not end");
  std::size_t at = 0;
  for (const auto &p : promises) {
    std::size_t n = 0;
    std::vector<std::string> destroyed;
    const std::string who = at < trace.size() ? trace[at] : "the end";
    for (; n < p.lines.size() && at < trace.size(); at++) {
      const auto &l = trace[at];
      if (l.rfind("destroy ", 0) == 0) { destroyed.push_back(l.substr(8)); continue; }
      XV_CHECK(std::regex_match(l, std::regex(p.lines[n])), "step", who << ": step " << n << " is " << l << ", expected " << p.lines[n]);
      n++;
    }
    XV_CHECK(n == p.lines.size(), "step", who << ": expected " << p.lines[n]);
    XV_CHECK(destroyed.size() == (p.destroyed.empty() ? 0U : 1U) && (destroyed.empty() || destroyed[0] == p.destroyed), "deleted", who << ": " << destroyed.size() << " simulators were deleted, the first in state " << (destroyed.empty() ? "none" : destroyed[0]) << ", expected " << p.destroyed);
    XV_COUNT("tests compared");
    xv::count("steps compared", n);
  }
  XV_EQ(at, trace.size() - 1, "step", "recorded steps");
  c.nontrivial = true;
}
