#include "mon.h"

#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mon {

static std::string vfmt(const char* f, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
void Ctx::note(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  if (note_.size() < 6000) note_ += vfmt(f, ap) + "\n";
  va_end(ap);
}
bool Ctx::check(bool ok, const char* key, const char* f, ...) {
  checks_[key]++;
  if (ok) return true;
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  report(key, s);
  return false;
}
bool Ctx::near(double a, double b, double rel, double abs, const char* key,
               const char* what) {
  checks_[key]++;
  double m = std::fmax(std::fabs(a), std::fabs(b));
  double d = std::fabs(a - b);
  if (d <= abs + rel * m) return true;
  report(key, fmt("%s: got %.17g expected %.17g (diff %.3g, allowed %.3g)",
                  what, a, b, d, abs + rel * m));
  return false;
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      o += fmt("\\u%04x", ch);
    } else {
      o += ch;
    }
  }
  return o;
}

static int g_fd = -1;  // violation log, written as it happens
void Ctx::report(const char* key, const std::string& text) {
  nviol++;
  if (verbose) {
    fprintf(stderr, "case %llu key %s: %s\n",
            static_cast<unsigned long long>(case_index), key, text.c_str());
    if (!note_.empty()) fprintf(stderr, "%s", note_.c_str());
  }
  if (++per_key_[key] > 5) return;
  std::string l =
      fmt("{\"case\":%llu,\"key\":\"%s\",\"text\":\"",
          static_cast<unsigned long long>(case_index), key) +
      esc(text) + "\",\"note\":\"" + esc(note_) + "\"}\n";
  if (g_fd >= 0) {
    ssize_t r = write(g_fd, l.data(), l.size());
    (void)r;
  }
}

}  // namespace mon

static volatile uint64_t* g_crumb = nullptr;

static void OnAlarm(int) {
  static const char m[] = "WATCHDOG: case did not finish\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(97);
}

static uint64_t TagHash(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

static double Cpu() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void Limit(int seconds) {
  itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// usage: driver SEED FROM TO OUTPREFIX [watchdog_s] [verbose]
int main(int argc, char** argv) {
  if (argc == 2 && !strcmp(argv[1], "--info")) {
    printf("%llu\n%s\n", static_cast<unsigned long long>(mon::FixedCases()),
           mon::kRule);
    return 0;
  }
  if (argc < 5) return 2;
  const uint64_t seed = strtoull(argv[1], nullptr, 10);
  const uint64_t from = strtoull(argv[2], nullptr, 10);
  const uint64_t to = strtoull(argv[3], nullptr, 10);
  const std::string out = argv[4];
  const int wd = argc > 5 ? atoi(argv[5]) : 20;
  mon::Ctx c;
  c.verbose = argc > 6;
  int fd = open((out + ".crumb").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, 8) != 0) return 2;
  g_crumb = static_cast<volatile uint64_t*>(
      mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  mon::g_fd = open((out + ".viol").c_str(),
                   O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  // a hang is counted in processor time: a busy machine is not a hang
  signal(SIGALRM, OnAlarm);
  signal(SIGPROF, OnAlarm);
  double slowest = 0;
  uint64_t slowest_case = 0;
  uint64_t done = 0;
  for (uint64_t i = from; i < to; i++) {
    *g_crumb = i;
    c.case_index = i;
    c.clear_note();
    uint64_t s = mon::mix(mon::mix(TagHash(mon::kTag), seed), i);
    if (i < mon::FixedCases()) s = mon::mix(TagHash(mon::kTag), i);
    c.rng = mon::Rng(s);
    alarm(wd * 20);
    Limit(wd);
    const double t0 = Cpu();
    mon::RunCase(c);
    if (Cpu() - t0 > slowest) slowest = Cpu() - t0, slowest_case = i;
    done++;
    if (c.nviol > 200) break;
  }
  alarm(0);
  Limit(0);
  FILE* f = fopen((out + ".sum").c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"slowest_ms\":%.0f,\"slowest_case\":%llu,", slowest * 1000,
          static_cast<unsigned long long>(slowest_case));
  fprintf(f, "\"done\":%llu,\"nviol\":%llu,\"events\":{",
          static_cast<unsigned long long>(done),
          static_cast<unsigned long long>(c.nviol));
  bool first = true;
  for (auto& e : c.events_) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", e.first.c_str(),
            static_cast<unsigned long long>(e.second));
    first = false;
  }
  fprintf(f, "},\"checks\":{");
  first = true;
  for (auto& e : c.checks_) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", e.first.c_str(),
            static_cast<unsigned long long>(e.second));
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto& e : c.samples_) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", mon::esc(e).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  FILE* g = fopen((out + ".dist").c_str(), "wb");
  if (!g) return 2;
  for (uint64_t h : c.distinct_) fwrite(&h, 8, 1, g);
  fclose(g);
  return 0;
}
