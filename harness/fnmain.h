#pragma once
// Options, isolation and trace writing shared by the function drivers.
#include "hv.h"

struct Opt { string mode, out, pool; uint64_t seed = 1; long from = 0, count = 0; int every = 1, kind = 0, cpu = 20, hangs = 6; long maxsus = 200; } opt;
struct FShm { volatile long idx, done, sus, fwd; };
static FShm* shm;
static FILE* fo;
static void put(const string& o) { fwrite(o.data(), 1, o.size(), fo); fflush(fo); shm->fwd++; }

static void jints(string& o, const vector<int>& v) { o += "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; jint(o, v[i]); } o += "]"; }
static string head(long id, const char* f) { string o = "{\"e\":\"begin\",\"id\":"; jint(o, id); o += ",\"f\":\""; o += f; o += "\""; return o; }
static bool fwd(long i) { return i % opt.every == 0; }
static void one_case(long i);
int main(int argc, char** argv) {
  opt.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    string a = argv[i], v = argv[i + 1];
    if (a == "--seed") opt.seed = strtoull(v.c_str(), 0, 10); else if (a == "--from") opt.from = atol(v.c_str()); else if (a == "--count") opt.count = atol(v.c_str());
    else if (a == "--every") opt.every = atoi(v.c_str()); else if (a == "--out") opt.out = v; else if (a == "--kind") opt.kind = atoi(v.c_str()); else if (a == "--pool") opt.pool = v;
    else if (a == "--cpu") opt.cpu = atoi(v.c_str());
  }
  shm = (FShm*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fo = fopen(opt.out.c_str(), "a"); if (!fo) { perror("out"); return 3; }
  long i = opt.from, end = opt.from + opt.count, aborts = 0;
  while (i < end && aborts < opt.hangs) {
    shm->idx = i; fflush(fo); long chunk = std::min(end, i + 2000); pid_t pid = fork();
    if (!pid) {
      rlimit rl{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl);
      for (long k = i; k < chunk; k++) { shm->idx = k; itimerval tv{}; tv.it_value.tv_sec = opt.cpu; setitimer(ITIMER_PROF, &tv, nullptr); one_case(k); shm->done++; }
      fflush(fo); _exit(0);
    }
    int st; waitpid(pid, &st, 0); if (st == 0) { i = chunk; continue; }
    long at = shm->idx; aborts++; string o = head(at, "abort") + "}\n"; put(o); fflush(fo); i = at + 1;
  }
  fclose(fo);
  printf("{\"cases\":%ld,\"suspicious\":%ld,\"forwarded\":%ld,\"aborts\":%ld}\n", shm->done, shm->sus, shm->fwd, aborts);
  return 0;
}
