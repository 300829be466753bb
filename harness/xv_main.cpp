// Driver of a monitor executable: see xv.h. Writes one JSON object per line.
#include "xv.h"
#include <iostream>
#include <unistd.h>
namespace {
std::FILE *report = stdout;
void line(const std::string &s) {
  std::fputs((s + "\n").c_str(), report);
  std::fflush(report);
}
struct Outcome { bool violated = false; std::string key, detail; std::vector<std::string> log; std::uint64_t shape = 0; bool nontrivial = false; };
Outcome once(const xv::Scenario &s, std::uint64_t index, std::uint64_t seed, bool thorough) {
  Outcome o;
  xv::Case c(s.name, index, xv::mix(seed * 0x9e3779b97f4a7c15ULL + xv::hash(s.name) + index * 0x100000001b3ULL), thorough);
  try { s.run(c); }
  catch (const xv::Violation &v) { o.violated = true; o.key = v.key; o.detail = v.detail; }
  catch (const std::exception &e) { o.violated = true; o.key = "unexpected-exception"; o.detail = e.what(); }
  if (!o.violated && !c.flagged.empty()) { o.violated = true; o.key = c.flagged[0].first; o.detail = c.flagged[0].second; }
  o.log = c.log; o.shape = c.shape; o.nontrivial = c.nontrivial;
  return o;
}
} // namespace
extern "C" __attribute__((weak)) int __llvm_profile_write_file(); // only there when coverage is recorded
int main(int argc, char **argv) {
  std::string prop, tier = "quick", only, skip;
  std::uint64_t seed = 1, shard = 0, shards = 1;
  const char *progress = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") prop = v;
    else if (a == "--tier") tier = v;
    else if (a == "--seed") seed = std::stoull(v);
    else if (a == "--report") report = std::fopen(v.c_str(), "a");
    else if (a == "--progress") progress = argv[i + 1];
    else if (a == "--only") only = v;
    else if (a == "--shard") { shard = std::stoull(v); shards = std::stoull(v.substr(v.find('/') + 1)); }
  }
  if (!report) return 2;
  static char dummy[4096];
  xv::progressPage() = dummy;
  if (progress) {
    int fd = open(progress, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) return 2;
    xv::progressPage() = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  const bool thorough = tier == "thorough";
  std::string onlyName;
  std::uint64_t onlyIndex = 0;
  bool hasOnly = !only.empty();
  if (hasOnly) { onlyName = only.substr(0, only.find(':')); onlyIndex = std::stoull(only.substr(only.find(':') + 1)); }
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> perScenario;
  std::uint64_t evaluations = 0, violations = 0;
  bool any = false;
  for (const auto &s : xv::scenarios()) {
    if (prop != s.prop) continue;
    if (hasOnly && onlyName != s.name) continue;
    any = true;
    const std::uint64_t n = thorough ? s.thorough : s.quick;
    std::uint64_t seenViolations = 0, samples = 0;
    for (std::uint64_t i = hasOnly ? onlyIndex : shard; hasOnly ? i == onlyIndex : i < n; i += shards) {
      std::snprintf(xv::progressPage(), 4096, "%s:%llu", s.name, static_cast<unsigned long long>(i));
      const std::size_t before = xv::allocated();
      Outcome o = once(s, i, seed, thorough);
      ++evaluations; ++perScenario[s.name];
      if (!o.violated && s.leakCheck) {
        std::vector<std::string> log; log.swap(o.log);
        const std::size_t used = [&] { std::size_t t = log.capacity() * sizeof(std::string); for (auto &l : log) if (l.capacity() > 15) t += l.capacity() + 1; return t; }();
        if (xv::allocated() > before + used) {
          // possible leak: caches fill once, leaks repeat. Re-run the same case and look for growth each time.
          int grew = 0;
          std::size_t last = 0;
          for (int k = 0; k < 4; ++k) {
            const std::size_t b = xv::allocated();
            { Outcome again = once(s, i, seed, thorough); }
            const std::size_t a = xv::allocated();
            if (a > b) { ++grew; last = a - b; }
          }
          if (grew >= 4) { o.violated = true; o.key = "leak"; o.detail = "each run of this case leaves " + std::to_string(last) + " bytes allocated"; }
        }
        o.log.swap(log);
      }
      if (o.nontrivial && distinct.size() < 400000) distinct.insert(o.shape);
      if (o.violated || (samples < 2 && shard == 0 && o.nontrivial)) {
        std::string j = std::string("{\"") + (o.violated ? "violation" : "sample") + "\":" + xv::json(s.name) + ",\"index\":" + std::to_string(i);
        if (o.violated) j += ",\"key\":" + xv::json(o.key) + ",\"detail\":" + xv::json(o.detail);
        j += ",\"log\":[";
        const std::size_t max = o.violated ? o.log.size() : std::min<std::size_t>(o.log.size(), 12);
        for (std::size_t k = 0; k < max; ++k) j += (k ? "," : "") + xv::json(o.log[k]);
        line(j + "]}");
        ++samples;
      }
      if (o.violated && (++violations, ++seenViolations >= 5)) break;
    }
  }
  std::string j = "{\"done\":true,\"evaluations\":" + std::to_string(evaluations) + ",\"scenarios\":{";
  bool first = true;
  for (auto &[k, v] : perScenario) { j += (first ? "" : ",") + xv::json(k) + ":" + std::to_string(v); first = false; }
  j += "},\"counters\":{";
  first = true;
  for (auto &[k, v] : xv::counters().v) { j += (first ? "" : ",") + xv::json(k) + ":" + std::to_string(v); first = false; }
  j += "},\"distinct\":[";
  first = true;
  for (auto h : distinct) { j += (first ? "" : ",") + std::to_string(h); first = false; }
  line(j + "]}");
  std::fflush(nullptr);
  if (!any) return 2;
  // skip static destruction problems being mistaken for results: the report is complete
  if (__llvm_profile_write_file) std::exit(violations ? 1 : 0);
  _exit(violations ? 1 : 0);
}
