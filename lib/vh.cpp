#include "vh.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace vh {
namespace {

struct Slot { volatile std::size_t family, index; volatile bool busy; };

std::string verif_dir()
{ const char* d = std::getenv("VERIF_DIR"); return d ? d : "/verif"; }

std::string jstr(const std::string& s)
{
   std::string r = "\"";
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
      else if (c == '\n') r += "\\n";
      else if (c == '\t') r += "\\t";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += char(c);
   }
   return r + "\"";
}
std::string a2s(std::size_t i) { return std::to_string(i); }
std::string enc(const std::string& s)   // one-line encoding for the worker pipe files
{ std::string r; for (char c : s) { if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else r += c; } return r; }
std::string dec(const std::string& s)
{ std::string r; for (std::size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i+1 < s.size()) { i++; r += s[i]=='n' ? '\n' : s[i]; } else r += s[i]; } return r; }

struct Found { std::string family; std::size_t index; std::string key, what; };

void run_case(const Family& f, std::size_t i, Report& r)
{
   r.family = f.name; r.index = i;
   try { f.run(i, r); }
   catch (const std::exception& e) { r.fail("exception", std::string("unexpected exception: ") + e.what()); }
   catch (...) { r.fail("exception", "unexpected exception of unknown type"); }
}

/// run one case in a child; returns the failures
std::vector<Found> isolated(const Family& f, std::size_t i, unsigned timeout, bool show, std::size_t first)
{
   char tmpl[] = "/tmp/vh_iso_XXXXXX"; const int fd = mkstemp(tmpl);
   std::fflush(nullptr);
   const pid_t pid = fork();
   if (pid == 0) {
      if (!show) { const int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
      Report r;
      for (auto k = first; k <= i; k++) { alarm(timeout); r.fails.clear(); run_case(f, k, r); }
      std::string out;
      for (auto& x : r.fails) out += enc(x.key) + "\t" + enc(x.what) + "\n";
      if (write(fd, out.data(), out.size()) < 0) _exit(3);
      _exit(0);
   }
   int st = 0; waitpid(pid, &st, 0);
   std::vector<Found> res;
   std::ifstream in(tmpl); std::string line;
   while (std::getline(in, line)) {
      const auto t = line.find('\t');
      res.push_back({f.name, i, dec(line.substr(0, t)), dec(line.substr(t + 1))});
   }
   if (WIFSIGNALED(st)) {
      const int s = WTERMSIG(st);
      res.push_back({f.name, i, s == SIGALRM ? "hang" : "crash",
         s == SIGALRM ? "no answer within " + std::to_string(timeout) + " s" : std::string("killed by signal ") + strsignal(s)});
   } else if (WEXITSTATUS(st) != 0) {
      res.push_back({f.name, i, "crash", "process ended with exit code " + std::to_string(WEXITSTATUS(st))});
   }
   close(fd); unlink(tmpl);
   return res;
}

} // namespace

bool thorough()
{ const char* t = std::getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

std::string fmt(double d) { char b[40]; std::snprintf(b, 40, "%.17g", d); return b; }

int run(int argc, char** argv, Check& c)
{
   const auto t0 = std::chrono::steady_clock::now();
   std::string only;
   for (int i = 1; i < argc; i++)
      if (std::string(argv[i]) == "--replay" && i + 1 < argc) only = argv[++i];
      else if (std::string(argv[i]) == "--list") {
         for (auto& f : c.families) std::printf("%s %zu  %s\n", f.name.c_str(), f.size, f.space.c_str());
         return 0;
      }

   if (!only.empty()) {       // family:index
      const auto p = only.find(':'), d = only.find('-', p);
      const std::string fam = only.substr(0, p);
      const std::size_t first = std::stoull(only.substr(p + 1)), idx = d == std::string::npos ? first : std::stoull(only.substr(d + 1));
      for (auto& f : c.families) if (f.name == fam && idx < f.size) {
         const auto v = isolated(f, idx, 10*f.timeout_s, true, first);
         for (auto& x : v) std::printf("FAIL %s:%zu [%s] %s\n", fam.c_str(), idx, x.key.c_str(), x.what.c_str());
         std::printf("%zu failure(s)\n", v.size());
         return v.empty() ? 0 : 1;
      }
      std::printf("no such case\n"); return 2;
   }

   unsigned W = c.workers > 0 ? c.workers : std::max(1u, std::thread::hardware_concurrency());
   char tmpl[] = "/tmp/vh_XXXXXX"; const std::string dir = mkdtemp(tmpl);
   auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot)*W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   // shared work counter per family: chunks are handed out dynamically
   auto* next = static_cast<std::size_t*>(mmap(nullptr, sizeof(std::size_t)*(c.families.size()+1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   std::vector<Found> found; std::vector<std::string> samples;
   std::map<std::string, std::uint64_t> counters; std::map<std::string, double> maxima;
   std::set<std::uint64_t> states; std::uint64_t overflow = 0; std::size_t restarts = 0, dumps = 0;

   // known findings:  KNOWN property=<id> case=<family>:<index|*> key=<key> <text>
   struct Known { std::string family, index, key, text; };
   std::vector<Known> known;
   { std::ifstream in(verif_dir() + "/known_findings.txt"); std::string l;
     while (std::getline(in, l)) {
        if (l.compare(0, 6, "KNOWN ") != 0) continue;
        std::istringstream is(l.substr(6)); std::string pr, ca, ke; is >> pr >> ca >> ke; std::string rest; std::getline(is, rest);
        if (pr != "property=" + c.id) continue;
        const std::string cs = ca.substr(5); const auto p = cs.find(':');
        known.push_back({cs.substr(0, p), cs.substr(p + 1), ke.substr(4), rest});
     } }

   const auto is_known = [&known] (const std::string& fam, std::size_t i, const std::string& key) -> const Known* {
      for (auto& q : known) if (q.key == key && q.family == fam && (q.index == "*" || q.index == std::to_string(i))) return &q;
      return nullptr; };

   const auto spawn = [&] (unsigned w) {
      const std::string out = dir + "/" + std::to_string(w) + "." + std::to_string(dumps++);
      std::fflush(nullptr);
      const pid_t pid = fork();
      if (pid) return std::make_pair(pid, out);
      if (!c.keep_stderr) { const int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
      Report r; std::vector<Found> mine; std::set<const Known*> seen_known;
      // flush after every chunk, so that a crash loses no counts of finished cases
      const auto flush = [&] {
         std::ofstream o(out, std::ios::app);
         for (auto& k : r.counters) o << "C\t" << k.first << '\t' << k.second << '\n';
         for (auto& k : r.maxima) o << "X\t" << k.first << '\t' << fmt(k.second) << '\n';
         for (auto s : r.states) o << "H\t" << s << '\n';
         for (auto& s : r.samples) o << "S\t" << enc(s) << '\n';
         for (auto& v : mine) o << "V\t" << v.family << '\t' << v.index << '\t' << enc(v.key) << '\t' << enc(v.what) << '\n';
         if (r.overflow) o << "O\t" << r.overflow << '\n';
         r.counters.clear(); r.maxima.clear(); r.states.clear(); mine.clear(); r.overflow = 0; r.samples.clear();
      };
      unsigned long flushed_at = 0, done = 0, nsamples = 0;
      for (std::size_t fi = 0; fi < c.families.size(); fi++) {
         const auto& f = c.families[fi];
         const std::size_t chunk = std::max<std::size_t>(1, std::min<std::size_t>(256, f.size/(W*16)));
         for (;;) {
            const std::size_t b = __atomic_fetch_add(&next[fi], chunk, __ATOMIC_SEQ_CST);
            if (b >= f.size) break;
            for (std::size_t i = b; i < std::min(b + chunk, f.size); i++) {
               slots[w].family = fi; slots[w].index = i; slots[w].busy = true;
               alarm(f.timeout_s);
               const auto nf = r.fails.size();
               run_case(f, i, r);
               r.count("cases"); r.count("cases:" + f.name);
               // listed findings are reported once and never end the exploration
               std::size_t keep = nf;
               for (auto k = nf; k < r.fails.size(); k++) {
                  const Known* q = is_known(f.name, i, r.fails[k].key);
                  if (q) r.count("known findings");
                  if (!q || seen_known.insert(q).second) mine.push_back({f.name, i, r.fails[k].key, r.fails[k].what});
                  if (!q) { if (keep != k) r.fails[keep] = r.fails[k]; keep++; }
               }
               r.fails.resize(keep);
               if (r.samples.size() + nsamples > 3) r.samples.resize(nsamples < 3 ? 3 - nsamples : 0);
               slots[w].busy = false; done++;
            }
            if (done - flushed_at >= 64 || !mine.empty()) { nsamples += r.samples.size(); flush(); flushed_at = done; }
            // a worker that has seen plenty of failures stops early
            if (r.fails.size() >= 20) { next[fi] = f.size; r.fails.clear(); flush(); _exit(0); }
         }
      }
      alarm(0); flush(); _exit(0);
   };

   std::map<pid_t, std::pair<unsigned, std::string>> live; std::vector<std::string> outs;
   for (unsigned w = 0; w < W; w++) { auto p = spawn(w); live[p.first] = {w, p.second}; outs.push_back(p.second); }
   while (!live.empty()) {
      int st; const pid_t pid = wait(&st);
      if (pid < 0) break;
      const auto it = live.find(pid); if (it == live.end()) continue;
      const unsigned w = it->second.first; live.erase(it);
      if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
         const auto& f = c.families[slots[w].family];
         const std::size_t i = slots[w].index;
         if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { std::printf("worker killed (memory?)\n"); return 2; }
         const bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
         found.push_back({f.name, i, hang ? "hang" : "crash", "worker ended abnormally"});
         if (++restarts < 16) { auto p = spawn(w); live[p.first] = {w, p.second}; outs.push_back(p.second); }
         else std::printf("too many abnormal ends, not all cases were run\n");
      }
   }
   for (auto& fn : outs) {
      std::ifstream in(fn); std::string l;
      while (std::getline(in, l)) {
         std::vector<std::string> t; std::size_t p = 0, q;
         while ((q = l.find('\t', p)) != std::string::npos && t.size() < 4) { t.push_back(l.substr(p, q - p)); p = q + 1; }
         t.push_back(l.substr(p));
         if (t[0] == "C") counters[t[1]] += std::stoull(t[2]);
         else if (t[0] == "X") { const double v = std::stod(t[2]); if (!maxima.count(t[1]) || maxima[t[1]] < v) maxima[t[1]] = v; }
         else if (t[0] == "H") states.insert(std::stoull(t[1]));
         else if (t[0] == "S") samples.push_back(dec(t[1]));
         else if (t[0] == "O") overflow += std::stoull(t[1]);
         else if (t[0] == "V") found.push_back({t[1], std::stoull(t[2]), dec(t[3]), dec(t[4])});
      }
      unlink(fn.c_str());
   }
   rmdir(dir.c_str());

   std::sort(found.begin(), found.end(), [] (const Found& a, const Found& b) {
      return std::tie(a.family, a.index) < std::tie(b.family, b.index); });
   std::set<std::string> printed; std::size_t violations = 0; std::set<std::string> seenCase; std::map<std::string,int> perKey;
   std::set<std::pair<std::string,std::size_t>> replayed; std::size_t nondet = 0;
   mkdir((verif_dir() + "/replays").c_str(), 0755);
   for (auto& v : found) {
      if (violations >= 10) break;
      if (perKey[v.family + v.key]++ >= 3) continue;
      if (!replayed.insert({v.family, v.index}).second) continue;
      const Family* f = nullptr; for (auto& g : c.families) if (g.name == v.family) f = &g;
      // replay alone, longer limit: only a reproduced failure is reported
      auto again = isolated(*f, v.index, 4*f->timeout_s, false, v.index);
      std::string which = a2s(v.index);
      if (again.empty()) {   // depends on what ran before it in the same process
         const std::size_t first = v.index > 255 ? v.index - 255 : 0;
         again = isolated(*f, v.index, 4*f->timeout_s, false, first);
         which = a2s(first) + "-" + a2s(v.index);
      }
      if (again.empty()) { nondet++; std::printf("note: %s:%zu [%s] did not reproduce when run alone: %s\n", v.family.c_str(), v.index, v.key.c_str(), v.what.c_str());
         continue; }
      for (auto& a : again) {
         const Known* k = is_known(a.family, a.index, a.key);
         if (k) { if (printed.insert(k->key + k->family + k->index).second) std::printf("KNOWN-FINDING: property=%s%s\n", c.id.c_str(), k->text.c_str()); continue; }
         const std::string path = verif_dir() + "/replays/" + c.id + "-" + a.family + "-" + std::to_string(a.index) + ".txt";
         if (seenCase.insert(path).second) {
            std::ofstream o(path);
            o << "property " << c.id << "\ncase " << a.family << ":" << a.index << "\n";
            for (auto& b : again) o << "[" << b.key << "] " << b.what << "\n";
            o << "replay: " << verif_dir() << "/run.sh " << c.id << " " << (thorough() ? "thorough" : "quick") << " --replay " << a.family << ":" << which << "\n";
            std::printf("VIOLATION property=%s replay=%s\n", c.id.c_str(), path.c_str());
            std::printf("   %s:%zu [%s] %s\n", a.family.c_str(), a.index, a.key.c_str(), a.what.c_str());
            violations++;
         }
      }
   }

   // vacuity guards
   bool vacuous = false;
   std::size_t expected = 0; for (auto& f : c.families) expected += f.size;
   std::size_t unlisted = 0; for (auto& v : found) unlisted += !is_known(v.family, v.index, v.key);
   if (!unlisted && counters["cases"] != expected) { std::printf("internal error: ran %llu of %zu cases\n", (unsigned long long)counters["cases"], expected); vacuous = true; }
   for (auto& q : c.required) if (!counters[q]) { std::printf("vacuity: nothing was counted under '%s'\n", q.c_str()); vacuous = true; }

   const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   { std::ofstream o(verif_dir() + "/evidence/" + c.id + ".json");
     const char* seed = std::getenv("VERIF_SEED");
     o << "{\n \"property\": " << jstr(c.id) << ",\n \"tier\": " << (thorough() ? "\"thorough\"" : "\"quick\"")
       << ",\n \"seed\": " << (seed && *seed ? std::atol(seed) : 1) << ",\n \"level\": " << jstr(c.level) << ",\n \"coverage\": {\n";
     counters["@distinct"] = states.size();
     if (c.level == "model_checking")
        o << "  \"states\": " << counters[c.c_states] << ",\n  \"transitions\": " << counters[c.c_transitions]
          << ",\n  \"traces_validated_against_impl\": " << counters[c.c_traces] << ",\n";
     else
        o << "  \"evaluations\": " << counters["cases"] << ",\n  \"distinct_nontrivial\": " << states.size() << ",\n";
     o << "  \"exhaustive\": " << (restarts || overflow ? "false" : "true") << ",\n"
       << "  \"rule\": " << jstr(c.rule) << ",\n  \"families\": [";
     bool first = true;
     for (auto& f : c.families) { o << (first ? "\n" : ",\n") << "   {\"name\": " << jstr(f.name) << ", \"cases\": " << f.size << ", \"explored\": " << counters["cases:" + f.name] << ", \"space\": " << jstr(f.space) << "}"; first = false; }
     o << "],\n  \"counters\": {";
     first = true;
     for (auto& k : counters) { if (k.first.compare(0, 6, "cases:") == 0 || k.first[0] == '@' || (c.level == "model_checking" && (k.first == c.c_states || k.first == c.c_transitions || k.first == c.c_traces))) continue; o << (first ? "" : ", ") << jstr(k.first) << ": " << k.second; first = false; }
     o << "},\n  \"maxima\": {";
     first = true; for (auto& k : maxima) { o << (first ? "" : ", ") << jstr(k.first) << ": " << fmt(k.second); first = false; }
     o << "},\n  \"samples\": [";
     first = true; std::size_t ns = 0; for (auto& s : samples) { if (ns++ >= 12) break; o << (first ? "" : ", ") << jstr(s); first = false; }
     o << "]";
     for (auto& n : c.notes) o << ",\n  " << jstr(n.first) << ": " << jstr(n.second);
     o << "\n },\n \"wall_s\": " << fmt(wall) << ",\n \"assumptions\": [";
     first = true; for (auto& a : c.assumptions) { o << (first ? "" : ", ") << jstr(a); first = false; }
     o << "],\n \"violations\": " << violations << "\n}\n"; }

   std::printf("%s: %llu cases, %zu distinct behaviours, %llu comparisons, %zu violation(s), %.1f s\n", c.id.c_str(),
      (unsigned long long)counters["cases"], states.size(), (unsigned long long)counters["comparisons"], violations, wall);
   if (std::getenv("P09_CALIBRATE") || maxima.size() < 40)
      for (auto& m : maxima) std::printf("   max %s = %.3g\n", m.first.c_str(), m.second);
   if (violations) return 1;
   if (nondet) { std::printf("some failures did not reproduce: see notes\n"); return 3; }
   return vacuous ? 4 : 0;
}

} // namespace vh
