// Bounded exhaustive exploration framework shared by all harnesses.
//
// A harness enumerates its whole (bounded) space of cases deterministically: VC.run("id", f) is called once
// per case, in the same order in every process. The runner (check.py) splits the cases over processes
// (--shard i/n), restarts a process behind a case that killed it (--from k) and replays a single case
// (--only id). Before a case starts, its index and id are written to the progress file, so that a crash,
// an abort() by an assertion of the code under test, or a hang is attributed to that case.
#ifndef VERIF_VC_HPP
#define VERIF_VC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace vc
{

struct Failure { std::string msg; };

inline std::string jesc(const std::string &s)
{
   std::string o;
   for (unsigned char c : s)
   {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
   }
   return o;
}

class Explorer
{
public:
   int shard = 0, nshard = 1; long from = 0; std::string only; bool thorough = false; bool list = false;
   long index = 0, executed = 0, checks = 0, states = 0, transitions = 0, nviol = 0;
   int max_viol = 5; unsigned case_seconds = 240;
   std::unordered_set<uint64_t> distinct;
   std::vector<std::string> samples;
   int progress_fd = -1; FILE *out = NULL; std::string cur; bool case_failed = false;

   void init(int argc, char **argv)
   {
      for (int i = 1; i < argc; i++)
      {
         std::string a = argv[i];
         if (a == "--shard") { sscanf(argv[++i], "%d/%d", &shard, &nshard); }
         else if (a == "--from") from = atol(argv[++i]);
         else if (a == "--only") only = argv[++i];
         else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
         else if (a == "--out") out = fopen(argv[++i], "a");
         else if (a == "--progress") progress_fd = open(argv[++i], O_RDWR | O_CREAT, 0644);
         else if (a == "--list") list = true;
      }
      if (!out) out = fdopen(dup(2), "a");
   }

   // one case of the bounded space. Returns true if it was executed here.
   bool run(const std::string &id, const std::function<void()> &f)
   {
      const long k = index++;
      if (list) { fprintf(out, "%s\n", id.c_str()); return false; }
      if (!only.empty()) { if (id != only) return false; }
      else if (k < from || k % nshard != shard) return false;
      if (nviol >= max_viol) return false;
      cur = id; case_failed = false; executed++;
      if (progress_fd >= 0)
      {
         std::string s = std::to_string(k) + " " + id + "\n";
         if (pwrite(progress_fd, s.data(), s.size(), 0) >= 0) { int r = ftruncate(progress_fd, s.size()); (void) r; }
      }
      if (samples.size() < 6 && (k % 97 == 0 || executed < 3)) samples.push_back(id);
      alarm(case_seconds);
      try { f(); }
      catch (const Failure &e) { report(e.msg); }
      catch (const std::exception &e) { report(std::string("unexpected exception: ") + e.what()); }
      alarm(0);
      states++;
      return true;
   }

   void report(const std::string &msg)
   {
      nviol++; case_failed = true;
      fprintf(out, "{\"viol\":1,\"case\":\"%s\",\"msg\":\"%s\"}\n", jesc(cur).c_str(), jesc(msg).c_str());
      fflush(out);
   }

   // fingerprint of an observed behaviour; how many different ones there were goes into the evidence
   void outcome(uint64_t h) { if (distinct.size() < 2000000) distinct.insert(h); }

   void finish()
   {
      fprintf(out, "{\"done\":1,\"total\":%ld,\"executed\":%ld,\"checks\":%ld,\"states\":%ld,\"transitions\":%ld,\"distinct\":%zu,\"samples\":[",
              index, executed, checks, states, transitions, distinct.size());
      for (size_t i = 0; i < samples.size(); i++) fprintf(out, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
      fprintf(out, "]}\n"); fflush(out);
   }
};

extern Explorer X;

struct Hash
{
   uint64_t h = 1469598103934665603ull;
   void bytes(const void *p, size_t n) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } }
   Hash &add(double d) { if (d == 0) d = 0; float f = (float) d; bytes(&f, sizeof f); return *this; }
   Hash &add(long v) { bytes(&v, sizeof v); return *this; }
   Hash &add(int v) { return add((long) v); }
   Hash &add(const std::string &s) { bytes(s.data(), s.size()); return *this; }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

inline void check(bool ok, const std::string &m) { X.checks++; if (!ok) fail(m); }

template <class A, class B> inline void eq(const A &got, const B &want, const std::string &what)
{
   X.checks++;
   if (!(got == want)) { std::ostringstream o; o.precision(17); o << what << ": got " << got << ", expected " << want; fail(o.str()); }
}
// |got - want| <= tol * max(1, scale); NaN never passes
inline void near(double got, double want, const std::string &what, double scale = 0, double tol = 1e-9)
{
   X.checks++;
   double s = std::max(1.0, std::max(std::fabs(want), scale));
   if (!(std::fabs(got - want) <= tol * s))
   { std::ostringstream o; o.precision(17); o << what << ": got " << got << ", expected " << want; fail(o.str()); }
}

// Runs f in a forked child. Returns the wait status. Output of the child goes to the void.
inline int in_child(const std::function<void()> &f, unsigned seconds = 60)
{
   fflush(NULL);
   pid_t p = fork();
   if (p == 0)
   {
      struct rlimit_dummy {};
      alarm(seconds);
      int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
      f();
      _exit(0);
   }
   int st = 0; waitpid(p, &st, 0);
   return st;
}
inline bool child_ok(int st) { return WIFEXITED(st) && WEXITSTATUS(st) == 0; }

// a scratch directory of this process, removed at the end by the runner (its parent makes it the cwd)
inline std::string tmpfile(const std::string &n) { return "vc_" + std::to_string(getpid()) + "_" + n; }

// iterate over all tuples (i0..ik-1) with 0 <= ij < n[j]
inline void product(const std::vector<int> &n, const std::function<void(const std::vector<int> &)> &f)
{
   std::vector<int> i(n.size(), 0);
   for (int x : n) if (x <= 0) return;
   while (true)
   {
      f(i);
      int k = (int) n.size() - 1;
      while (k >= 0 && ++i[k] == n[k]) i[k--] = 0;
      if (k < 0) return;
   }
}
template <class T> inline std::string str(const std::vector<T> &v)
{ std::ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; return o.str(); }
template <class T> inline std::string S(const T &v) { std::ostringstream o; o << v; return o.str(); }

} // namespace vc

#ifdef VC_MAIN
#include <mpi.h>
vc::Explorer vc::X;
void vc_main();
int main(int argc, char **argv)
{
   vc::X.init(argc, argv);
#ifndef VC_NO_MPI
   MPI_Init(&argc, &argv);
#endif
   vc_main();
   vc::X.finish();
   fflush(NULL);
   _exit(0);   // static destructors are not part of what is checked
}
#endif
#endif
