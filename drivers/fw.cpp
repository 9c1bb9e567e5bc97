#include "fw.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <map>
#include <set>

#if defined(__SANITIZE_ADDRESS__)
#define FW_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FW_ASAN 1
#endif
#endif
#ifdef FW_ASAN
#include <sanitizer/allocator_interface.h>
#endif

namespace {
struct Sec { const char *name; SectionFn fn; };
std::vector<Sec> &secs() { static std::vector<Sec> v; return v; }

// Everything the monitor keeps lives in static storage: it must not allocate
// between the two ends of a measured window.
const int MAXEV = 512;
struct Ev { const char *name; u64 n; } evs[MAXEV];
int nev = 0;
const size_t HT = 1u << 20;
u64 ht[HT];
u64 n_inputs = 0, n_distinct_nontrivial = 0;
char samples[6][600];
int nsamples = 0;
int sample_case_mark = -1;
volatile u64 *progress = nullptr;
volatile int in_case = 0;
FILE *out = nullptr;
int nfail_printed = 0;
std::map<std::string, int> *failkeys = nullptr;
u64 case_fails = 0, total_fails = 0;

i64 live_blocks = 0, live_bytes = 0;
u64 tot_allocs = 0;
bool counting = false;
#ifdef FW_ASAN
void mhook(const volatile void *p, size_t n) {
  if (counting) { live_blocks++; live_bytes += (i64)n; tot_allocs++; }
}
void fhook(const volatile void *p) {
  if (counting && p) {
    live_blocks--;
    live_bytes -= (i64)__sanitizer_get_allocated_size((const void *)p);
  }
}
#endif

void on_prof(int) {
  static const char m[] = "\nFW-HANG\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(97);
}
void on_exit_handler() {
  if (in_case) {
    static const char m[] = "\nFW-EXIT-IN-CASE\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(96);
  }
}
void arm(double cpu) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)cpu;
  it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}
} // namespace

std::string fw_quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch == '\t') r += "\\t";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}

SectionReg::SectionReg(const char *name, SectionFn fn) { secs().push_back({name, fn}); }

void Ctx::event(const char *name, u64 n) {
  for (int i = 0; i < nev; i++) {
    if (evs[i].name == name || !strcmp(evs[i].name, name)) { evs[i].n += n; return; }
  }
  if (nev < MAXEV) { evs[nev].name = name; evs[nev].n = n; nev++; }
}
void Ctx::input(u64 h, bool nontrivial) {
  n_inputs++;
  if (!nontrivial) return;
  if (!h) h = 1;
  size_t k = (h * 0x9e3779b97f4a7c15ULL) >> 44;
  for (size_t t = 0; t < 64; t++, k = (k + 1) & (HT - 1)) {
    if (ht[k] == h) return;
    if (!ht[k]) { ht[k] = h; n_distinct_nontrivial++; return; }
  }
}
void Ctx::input(const std::string &s, bool nontrivial) { input(hash_str(s), nontrivial); }
bool Ctx::want_sample() const { return !leakmode && nsamples < 6 && sample_case_mark != (int)idx; }
void Ctx::sample(const std::string &s) {
  if (!want_sample()) return;
  sample_case_mark = (int)idx;
  snprintf(samples[nsamples++], sizeof samples[0], "%s", s.c_str());
}
void Ctx::fail(const std::string &key, const std::string &detail) {
  bool save = counting;
  counting = false;
  case_fails++;
  total_fails++;
  int &k = (*failkeys)[key];
  if (k++ < 3 && nfail_printed < 60) {
    nfail_printed++;
    std::string d = detail.size() > 1500 ? detail.substr(0, 1500) + "..." : detail;
    fprintf(out, "{\"t\":\"fail\",\"key\":%s,\"case\":%llu,\"detail\":%s}\n",
        fw_quote(key).c_str(), (unsigned long long)idx, fw_quote(d).c_str());
    fflush(out);
  }
  counting = save;
}

static void run_case(SectionFn fn, Ctx &c) {
  try {
    fn(c);
  } catch (const spffl::exception_t &e) {
    c.fail(std::string(c.section) + ":refused_valid", std::string("library error on a valid operation: ") + e.what());
  } catch (const std::exception &e) {
    c.fail(std::string(c.section) + ":foreign_exception", std::string("exception: ") + e.what());
  } catch (...) {
    c.fail(std::string(c.section) + ":foreign_exception", "unknown exception");
  }
}

int main(int argc, char **argv) {
  std::string section, outp, prog, hashp;
  u64 seed = 1, start = 0, count = 1;
  double cpu = 20;
  bool leak = false, thorough = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--list") {
      for (auto &s : secs()) printf("%s\n", s.name);
      return 0;
    } else if (a == "--section") section = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--start") start = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") outp = nx();
    else if (a == "--progress") prog = nx();
    else if (a == "--hashes") hashp = nx();
    else if (a == "--cpu") cpu = atof(nx().c_str());
    else if (a == "--leak") leak = true;
    else if (a == "--thorough") thorough = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 98; }
  }
  SectionFn fn = nullptr;
  for (auto &s : secs()) if (section == s.name) fn = s.fn;
  if (!fn) { fprintf(stderr, "no section %s\n", section.c_str()); return 98; }
  out = outp.empty() ? fdopen(dup(1), "w") : fopen(outp.c_str(), "w");
  if (!out) return 98;
  setvbuf(out, nullptr, _IOFBF, 1 << 16);
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0) return 98;
    progress = (volatile u64 *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  // What the library itself prints is not part of what a driver judges.
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  failkeys = new std::map<std::string, int>;
  signal(SIGPROF, on_prof);
  atexit(on_exit_handler);
#ifdef FW_ASAN
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
  Ctx c;
  c.section = section.c_str();
  c.thorough = thorough;
  c.leakmode = leak;
  u64 done = 0, leak_checked = 0;
  for (u64 i = start; i < start + count; i++) {
    if (progress) { progress[0] = i; progress[1] = 1; }
    u64 base = hash_str(section) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (i * 0xd1342543de82ef95ULL + 0x1234567);
    c.idx = i;
    case_fails = 0;
    arm(cpu);
    in_case = 1;
    int reps = leak ? 3 : 1;
    int grew = 0;
    i64 lastb = 0, lastn = 0;
    for (int r = 0; r < reps; r++) {
      Rng g(base);
      g.next();
      c.rng = g;
      live_blocks = live_bytes = 0;
      counting = leak;
      run_case(fn, c);
      counting = false;
      if (leak) {
        if (r == 0) leak_checked++;
        if (live_blocks > 0 || live_bytes > 0) { grew++; lastb = live_bytes; lastn = live_blocks; }
        else break;
      }
    }
    if (leak && grew == reps) {
      std::ostringstream o;
      o << lastn << " blocks / " << lastb << " bytes stay allocated after every repetition of the case";
      c.fail(std::string("leak:") + section, o.str());
    }
    in_case = 0;
    arm(0);
    done++;
  }
  if (progress) progress[1] = 2;
  fprintf(out, "{\"t\":\"done\",\"cases\":%llu,\"inputs\":%llu,\"distinct\":%llu,\"fails\":%llu,\"allocs\":%llu,\"leak_checked\":%llu,\"events\":{",
      (unsigned long long)done, (unsigned long long)n_inputs, (unsigned long long)n_distinct_nontrivial,
      (unsigned long long)total_fails, (unsigned long long)tot_allocs, (unsigned long long)leak_checked);
  for (int i = 0; i < nev; i++)
    fprintf(out, "%s%s:%llu", i ? "," : "", fw_quote(evs[i].name).c_str(), (unsigned long long)evs[i].n);
  fprintf(out, "},\"samples\":[");
  for (int i = 0; i < nsamples; i++)
    fprintf(out, "%s%s", i ? "," : "", fw_quote(samples[i]).c_str());
  fprintf(out, "]}\n");
  fclose(out);
  if (!hashp.empty()) {
    FILE *h = fopen(hashp.c_str(), "wb");
    if (!h) return 98;
    for (size_t i = 0; i < HT; i++) if (ht[i]) fwrite(&ht[i], 8, 1, h);
    fclose(h);
  }
  fflush(stderr);
  _exit(0);
}
