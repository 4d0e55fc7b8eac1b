// C15: time profiler under a controlled clock and controlled MPI ranks: all histories of start/stop/report up to a depth.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "etc.hpp"
#include <memory>
#include <time.h>
using namespace std; using vc::X; using vc::S;

// ---- clock: advances only when told
static long fake_ns = 1000000000L;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) { (void) c; t->tv_sec = fake_ns / 1000000000L; t->tv_nsec = fake_ns % 1000000000L; return 0; }
// ---- MPI: np simulated ranks, one after the other, the root last; reductions are exact and rules of MPI are checked
static int sim_rank = 0; static vector<vector<double>> contribD; static vector<vector<int>> contribI; static int nred = 0; static string mpi_error;
extern "C" int MPI_Comm_rank(MPI_Comm, int *r) { *r = sim_rank; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int *r) { *r = 1; return 0; }
extern "C" int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm)
{
   if (root != 0 || op != MPI_SUM) { mpi_error = "unexpected reduction"; return 0; }
   if (s == MPI_IN_PLACE) { if (sim_rank != 0) { mpi_error = "a process other than the root reduces in place (erroneous in MPI)"; return 1; } s = r; }
   size_t k = nred++;
   if (t == MPI_DOUBLE) { vector<double> v((const double *) s, (const double *) s + n); if (k >= contribD.size()) contribD.resize(k + 1); if (contribD[k].empty()) contribD[k].assign(n, 0.0); for (int i = 0; i < n; i++) contribD[k][i] += v[i]; if (sim_rank == 0) memcpy(r, contribD[k].data(), n * 8); }
   else if (t == MPI_INT) { vector<int> v((const int *) s, (const int *) s + n); if (k >= contribI.size()) contribI.resize(k + 1); if (contribI[k].empty()) contribI[k].assign(n, 0); for (int i = 0; i < n; i++) contribI[k][i] += v[i]; if (sim_rank == 0) memcpy(r, contribI[k].data(), n * 4); }
   else mpi_error = "unexpected reduction type";
   return 0;
}
extern "C" int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm) { mpi_error = "unsupported by the harness"; return 0; }

static string capture(const function<void()> &f)
{
   fflush(stdout); cout.flush(); int keep = dup(1); string n = vc::tmpfile("cap"); int fd = open(n.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1);
   try { f(); } catch (...) { fflush(stdout); dup2(keep, 1); close(keep); close(fd); unlink(n.c_str()); throw; }
   fflush(stdout); cout.flush(); dup2(keep, 1); close(keep);
   string o; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) o.append(b, k); close(fd); unlink(n.c_str()); return o;
}
struct Rec { string name; double t; int c; };
struct Model { vector<Rec> r; map<string, int> ix; vector<long> started; vector<bool> on; };
static void mstart(Model &m, const string &n) { if (!m.ix.count(n)) { m.ix[n] = m.r.size(); m.r.push_back({n, 0, 0}); m.started.push_back(0); m.on.push_back(false); } int i = m.ix[n]; m.on[i] = true; m.started[i] = fake_ns; }
static void mstop(Model &m, const string &n) { int i = m.ix[n]; m.on[i] = false; m.r[i].t += (fake_ns - m.started[i]) * 1e-9; m.r[i].c++; }

// the printed table: data lines have 4 tab-separated columns, the numbers in 2..4
static vector<Rec> parse(const string &s, vector<double> &per)
{
   vector<Rec> o; istringstream in(s); string l; per.clear();
   while (getline(in, l)) { vector<string> f; string x; istringstream ls(l); while (getline(ls, x, '\t')) { size_t a = x.find_first_not_of(" "), b = x.find_last_not_of(" "); f.push_back(a == string::npos ? "" : x.substr(a, b - a + 1)); }
      if (f.size() != 4) continue; char *e1, *e2, *e3; double t = strtod(f[1].c_str(), &e1), p = strtod(f[3].c_str(), &e3); long c = strtol(f[2].c_str(), &e2, 10); if (*e1 || *e2 || *e3) continue; o.push_back({f[0], t, (int) c}); per.push_back(p); }
   return o;
}
static void compare(const string &text, const vector<Rec> &want, const string &title, bool sum, double total)
{
   vc::eq(mpi_error, string(""), "MPI use"); vc::check(text.find(title) != string::npos, "the title is missing");
   vector<double> per; auto g = parse(text, per); vector<Rec> w = want; if (sum) w.push_back({"Total time", total, 1});
   vc::eq((int) g.size(), (int) w.size(), "number of reported timers");
   for (size_t i = 0; i < w.size(); i++) { vc::eq(g[i].name, w[i].name, "timer " + S(i)); vc::eq(g[i].c, w[i].c, "calls of " + w[i].name); vc::near(g[i].t, w[i].t, "time of " + w[i].name, 0, 1e-4); if (w[i].c) vc::near(per[i] * w[i].c, w[i].t, "time per call of " + w[i].name, 0, 1e-4); }
}
static void resetMPI() { nred = 0; contribD.clear(); contribI.clear(); mpi_error = ""; }

static const char *nm[4] = {"assemble", "solve", "a", "b name"};

void vc_main()
{
   config = InputParser(); config.dict_ = YAML::Load("{}");
   // ops: 0..K-1 toggle timer k (start if stopped, stop if running); K: report (only when nothing runs)
   for (int K = 1; K <= 3; K++)
   {
      const int D = X.thorough ? (K == 3 ? 9 : 10) : (K == 3 ? 7 : 8);
      for (int len = 1; len <= D; len++) vc::product(vector<int>(len, K + 1), [&](const vector<int> &ops) {
         vector<bool> on(K, false); for (int o : ops) { if (o < K) on[o] = !on[o]; else for (bool b : on) if (b) return; } for (bool b : on) if (b) return; if (ops.back() == K && len > 1 && ops[len - 2] == K) return;
         X.run("timers " + S(K) + " ops " + vc::str(ops), [=]() {
            sim_rank = 0; TimeProfiler p("case"); Model m; long step = 3000000; vector<bool> on(K, false);
            for (int o : ops)
            {
               fake_ns += step; step = step * 2 % 1000000007L; X.transitions++;
               if (o == K) { resetMPI(); string t = capture([&]() { p.Print("report title"); }); compare(t, m.r, "report title", false, 0); continue; }
               if (!on[o]) { p.Start(nm[o]); mstart(m, nm[o]); } else { p.Stop(nm[o]); mstop(m, nm[o]); }
               on[o] = !on[o];
            }
            double tot = 0; for (auto &r : m.r) tot += r.t;
            for (int rep = 0; rep < 2; rep++) { resetMPI(); string t = capture([&]() { p.Print("final", rep); }); compare(t, m.r, "final", rep, tot); fake_ns += 12345; }
            vc::Hash h; for (auto &r : m.r) { h.add(r.c); h.add(r.t); } X.outcome(h.h);
         });
      });
   }
   // misuse
   for (int k = 0; k < 5; k++) X.run("misuse " + S(k), [=]() {
      int st = vc::in_child([=]() { TimeProfiler p("x"); if (k == 0) p.Stop("never"); if (k == 1) { p.Start("a"); p.Start("a"); } if (k == 2) { p.Start("a"); p.Stop("a"); p.Stop("a"); } if (k == 3) { p.Start("a"); p.Start("b"); p.Stop("c"); } if (k == 4) { p.Start("a"); p.Start("b"); p.Stop("a"); p.Start("b"); } _exit(0); });
      vc::check(!vc::child_ok(st), "a wrong use of a timer went unnoticed"); });
   // several processes: every rank reports, the root prints the sums; twice
   for (int np = 1; np <= 4; np++) for (int reps = 1; reps <= 3; reps++) X.run("ranks " + S(np) + " reports " + S(reps), [=]() {
      vector<unique_ptr<TimeProfiler>> p(np); vector<Rec> want = {{nm[0], 0, 0}, {nm[1], 0, 0}};
      for (int r = 0; r < np; r++) { sim_rank = r; p[r].reset(new TimeProfiler("x", MPI_COMM_SELF)); for (int k = 0; k < 2; k++) for (int c = 0; c <= r + k; c++) { p[r]->Start(nm[k]); fake_ns += (r + 1) * 1000000L; want[k].t += (r + 1) * 1e-3; want[k].c++; p[r]->Stop(nm[k]); } }
      for (int q = 0; q < reps; q++) { resetMPI(); for (int r = np - 1; r >= 0; r--) { sim_rank = r; nred = 0; string t = capture([&]() { p[r]->Print("sum"); }); X.transitions++; if (r) { vc::eq(mpi_error, string(""), "MPI use"); vector<double> per; vc::eq((int) parse(t, per).size(), 0, "a process other than the root prints"); } else compare(t, want, "sum", false, 0); } }
      sim_rank = 0;
   });
   // many timers, long and similar names, long histories, nested and overlapping, spans from a nanosecond to days
   for (int K = 1; K <= (X.thorough ? 60 : 30); K++) for (int kind = 0; kind < 4; kind++) for (int np : {1, 2, 9}) X.run("many timers " + S(K) + " kind " + S(kind) + " processes " + S(np), [=]() {
      auto name = [&](int k) { return kind == 0 ? S(k) : kind == 1 ? string(k % 100 + 1, 'n') : kind == 2 ? "f" + string(k, '.') + "::g(" + S(k % 3) + ") const" : string(k % 2 ? "A" : "a") + S(k / 2); };
      vector<unique_ptr<TimeProfiler>> p(np); vector<Rec> want; double tot = 0;
      for (int r = 0; r < np; r++)
      {
         sim_rank = r; p[r].reset(new TimeProfiler("x", MPI_COMM_SELF)); Model m; long step = 1;
         for (int k = 0; k < K; k++) { p[r]->Start(name(k)); mstart(m, name(k)); fake_ns += 17; p[r]->Stop(name(k)); mstop(m, name(k)); }
         for (int i = 0; i < 6 * K; i++) { int a = (i * 7 + r) % K, b = (i * 3 + 1) % K; p[r]->Start(name(a)); mstart(m, name(a)); step = step * 11 % 20000000000003L; fake_ns += step; bool two = a != b; if (two) { p[r]->Start(name(b)); mstart(m, name(b)); } fake_ns += 1 + i; if (i % 2 || !two) { p[r]->Stop(name(a)); mstop(m, name(a)); fake_ns += 5000; if (two) { p[r]->Stop(name(b)); mstop(m, name(b)); } } else { p[r]->Stop(name(b)); mstop(m, name(b)); fake_ns += 900; p[r]->Stop(name(a)); mstop(m, name(a)); } X.transitions += 4; }
         if (r == 0) want = m.r; else for (size_t k = 0; k < want.size(); k++) { want[k].t += m.r[k].t; want[k].c += m.r[k].c; }
      }
      for (auto &r : want) tot += r.t;
      for (int rep = 0; rep < 2; rep++) { resetMPI(); for (int r = np - 1; r >= 0; r--) { sim_rank = r; nred = 0; string t = capture([&]() { p[r]->Print("all of them", np == 1 && rep); }); if (!r) compare(t, want, "all of them", np == 1 && rep, tot); else { vector<double> per; vc::eq((int) parse(t, per).size(), 0, "a process other than the root prints"); } } }
      sim_rank = 0; vc::Hash h; for (auto &r : want) { h.add(r.c); h.add(r.t); } X.outcome(h.h);
   });
   // printing at the end of life only when configured
   for (int on = 0; on < 3; on++) X.run("at end " + S(on), [=]() {
      config.dict_ = YAML::Load(on == 0 ? "{}" : on == 1 ? "{time_profile: {mytitle: true, other: false}}" : "{time_profile: {mytitle: false, other: true}}"); sim_rank = 0; resetMPI(); vector<Rec> want;
      string t = capture([&]() { TimeProfiler p("other title"); p.SetTitle("mytitle"); p.Start("a"); fake_ns += 5000000; p.Stop("a"); });
      config.dict_ = YAML::Load("{}"); if (on == 1) compare(t, {{"a", 5e-3, 1}}, "mytitle", false, 0); else vc::eq(t.find("mytitle") == string::npos, true, "printed although not configured"); });
   // formatting
   for (int n = 0; n <= 5000; n += n < 1100 ? 1 : 37) X.run("format " + S(n), [=]() { string a(n, 'x'); vc::eq(string_format("<%s|%05d|%.3f>", a.c_str(), n, n / 8.0).substr(0, n + 1), "<" + a, "text"); char b[64]; snprintf(b, 64, "|%05d|%.3f>", n, n / 8.0); vc::eq(string_format("<%s|%05d|%.3f>", a.c_str(), n, n / 8.0), "<" + a + b, "formatted text"); vc::eq(string_format(a + "%%"), a + "%", "percent"); });
   // draws of the library's generator
   for (int lo = -3; lo <= 3; lo++) for (int hi = lo; hi <= 4; hi++) X.run("uniform " + S(lo) + ".." + S(hi), [=]() { set<int> s; for (int k = 0; k < 400 * (hi - lo + 1); k++) { int v = UniformRandom(lo, hi); vc::check(v >= lo && v <= hi, "draw " + S(v) + " outside"); s.insert(v); } vc::eq((int) s.size(), hi - lo + 1, "values reached"); });
   X.run("uniform real", [=]() { double mn = 2, mx = -1; for (int k = 0; k < 20000; k++) { double v = UniformRandom(); vc::check(v >= 0 && v <= 1, "draw outside of [0,1]"); mn = min(mn, v); mx = max(mx, v); } vc::check(mn < 0.01 && mx > 0.99, "the draws do not reach the ends of the interval"); });
   X.run("files", [=]() { string f = vc::tmpfile("e"); vc::check(!FileExists(f), "a missing file exists"); fclose(fopen(f.c_str(), "w")); vc::check(FileExists(f), "a file does not exist"); unlink(f.c_str()); vc::check(!FileExists(f), "a removed file exists"); });
}
