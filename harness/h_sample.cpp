// C04: sample indices, shares of the processes, and what becomes of the snapshots. All parameter counts and sizes up to a
// bound; all process counts and ranks (a communicator with a pretended size and rank); all histories of samples of
// different arrangements, written to files and collected again in every order; sampling runs split over processes.
#define VC_MAIN
#include <mpi.h>
#include "vc.hpp"
#include "main_workflow.hpp"
#include "random_sample_generator.hpp"
#include "hdf5_utils.hpp"
#include "etc.hpp"
#include <memory>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace std; using namespace mfem; using vc::X; using vc::S;

// a communicator whose size and rank are what the case says
static MPI_Comm SIM = MPI_COMM_NULL; static int SN = 1, SR = 0;
extern "C" int MPI_Comm_size(MPI_Comm c, int *n) { if (SIM != MPI_COMM_NULL && c == SIM) { *n = SN; return MPI_SUCCESS; } return PMPI_Comm_size(c, n); }
extern "C" int MPI_Abort(MPI_Comm, int) { _exit(3); }   // in a forked child there is no process manager to tell
extern "C" int MPI_Comm_rank(MPI_Comm c, int *r) { if (SIM != MPI_COMM_NULL && c == SIM) { *r = SR; return MPI_SUCCESS; } return PMPI_Comm_rank(c, r); }

static map<string, string> flat(const YAML::Node &n, const string &pre = "")
{
   map<string, string> o;
   if (n.IsMap()) for (auto it = n.begin(); it != n.end(); ++it) { auto s = flat(it->second, pre + "/" + it->first.as<string>()); o.insert(s.begin(), s.end()); }
   else if (n.IsDefined() && !n.IsNull()) o[pre] = YAML::Dump(n);
   return o;
}
static void conf(const string &y) { config = InputParser(); config.dict_ = YAML::Load(y); }

// parameter p of a list: cycles through the three kinds
static string pkey(int p) { const char *k[] = {"a/x", "b", "a/deep/f"}; return string(k[p % 3]) + S(p); }
static string pentry(int p, int n)
{
   string s = "{key: " + pkey(p) + ", sample_size: " + S(n);
   if (p % 3 == 0) s += ", type: double, minimum: " + S(p - 1.5) + ", maximum: " + S(p + 4.25);
   if (p % 3 == 1) s += ", type: integer, minimum: " + S(p) + ", maximum: " + S(p + 3 * max(1, n - 1));
   if (p % 3 == 2) s += ", type: filename, minimum: 2, maximum: " + S(2 + 2 * max(1, n - 1)) + ", format: 'm%03d.mesh'";
   return s + "}";
}
static void checkParam(int p, int n, int i, const string &what)
{
   if (p % 3 == 0) vc::near(config.GetRequiredOption<double>(pkey(p)), p - 1.5 + (n > 1 ? 5.75 * i / (n - 1) : 0), what + ", parameter " + S(p));
   if (p % 3 == 1) vc::eq(config.GetRequiredOption<int>(pkey(p)), p + 3 * i, what + ", parameter " + S(p));
   if (p % 3 == 2) { char b[32]; snprintf(b, sizeof b, "m%03d.mesh", 2 + 2 * i); vc::eq(config.GetRequiredOption<string>(pkey(p)), string(b), what + ", parameter " + S(p)); }
}
static string plist(const vector<int> &n, const string &more = "")
{ string s = "{untouched: 7, a: {other: z}, sample_generation: {" + more + "parameters: ["; for (size_t p = 0; p < n.size(); p++) s += (p ? ", " : "") + pentry(p, n[p]); return s + "]}}"; }

static void grid(const vector<int> &n)
{
   X.run("grid " + vc::str(n), [&]() {
      int N = 1; for (int v : n) N *= v; const int np = n.size();
      SN = 1; SR = 0; conf(plist(n)); SampleGenerator g(SIM); g.SetParamSpaceSizes();
      vc::eq(g.GetTotalSampleSize(), N, "number of samples"); vc::eq(g.GetNumSampleParams(), np, "number of parameters"); vc::check(g.GetType() == BASE, "type");
      for (int p = 0; p < np; p++) { vc::eq(g.GetSampleSizes()[p], n[p], "size"); vc::eq(g.GetParam(p)->GetKey(), pkey(p), "key"); }
      const auto before = flat(config.dict_); map<vector<int>, int> seen; vc::Hash h; for (int v : n) h.add(v);
      // samples in an order that jumps around, each twice in different ways
      for (int q = 0; q < 2 * N; q++)
      {
         const int s = q < N ? (int) ((long) q * 7 % N == 0 && q ? q : ((long) q * (N % 7 ? 7 : 1)) % N) : 2 * N - 1 - q; X.transitions++;
         Array<int> c = g.GetSampleIndex(s); vector<int> cv(c.begin(), c.end()); vc::eq((int) cv.size(), np, "combination");
         for (int p = 0; p < np; p++) vc::check(cv[p] >= 0 && cv[p] < n[p], "combination of sample " + S(s) + " out of range");
         if (seen.count(cv)) vc::eq(seen[cv], s, "two samples have the combination " + vc::str(cv)); seen[cv] = s;
         vc::eq(g.GetSampleIndex(c), s, "index of the combination of sample " + S(s)); vc::check(g.IsMyJob(s) && g.IsMyJob(c), "the only process does everything");
         if (q % 2) g.SetSampleParams(s); else g.SetSampleParams(c);
         auto after = flat(config.dict_), rest = after;
         for (int p = 0; p < np; p++) { checkParam(p, n[p], cv[p], "sample " + S(s)); rest.erase("/" + pkey(p)); }
         auto b0 = before; for (int p = 0; p < np; p++) b0.erase("/" + pkey(p)); vc::check(rest == b0, "other options changed");
      }
      vc::eq((int) seen.size(), N, "different combinations"); X.outcome(h.h);
      // every combination is a sample
      vc::product(n, [&](const vector<int> &c) { Array<int> a(np); for (int p = 0; p < np; p++) a[p] = c[p]; int s = g.GetSampleIndex(a); vc::check(s >= 0 && s < N, "sample of " + vc::str(c)); vc::eq(seen.at(c), s, "sample of " + vc::str(c)); });
   });
}
static void shares(int N, int np)
{
   X.run("shares N" + S(N) + " np" + S(np), [=]() {
      for (int kind = 0; kind < 3; kind++)
      {
         vector<int> owner(N, -1), share(np, 0);
         for (int r = 0; r < np; r++)
         {
            SN = np; SR = r;
            if (kind == 0) conf(plist({N}));
            else if (kind == 1) { if (N % 2) continue; conf(plist({2, N / 2})); }
            else conf(plist({3, 3}, "random_sample_generator: {number_of_samples: " + S(N) + "}, "));
            unique_ptr<SampleGenerator> g(kind == 2 ? new RandomSampleGenerator(SIM) : new SampleGenerator(SIM)); g->SetParamSpaceSizes(); vc::eq(g->GetTotalSampleSize(), N, "number of samples"); vc::eq(g->GetProcRank(), r, "rank");
            if (kind == 2) { vc::check(g->GetType() == RANDOM, "type"); vc::eq(g->GetSampleSizes()[1], N, "random sample sizes"); }
            for (int s = 0; s < N; s++)
            {
               X.transitions++; Array<int> c = g->GetSampleIndex(s); vc::eq(g->IsMyJob(c), g->IsMyJob(s), "job by combination"); vc::eq(g->GetSampleIndex(c), s, "index of the combination");
               if (!g->IsMyJob(s)) continue;
               vc::check(owner[s] < 0, "sample " + S(s) + " belongs to processes " + S(owner[s]) + " and " + S(r)); owner[s] = r; share[r]++;
            }
         }
         if (kind == 1 && N % 2) continue;
         for (int s = 0; s < N; s++) vc::check(owner[s] >= 0, "sample " + S(s) + " belongs to nobody");
         vc::check(*max_element(share.begin(), share.end()) - *min_element(share.begin(), share.end()) <= 1, "shares " + vc::str(share));
         vc::Hash h; h.add(N).add(np).add(kind); X.outcome(h.h);
      }
      SN = 1; SR = 0;
   });
}

// ---- snapshots
struct FakeTopo : public TopologyHandler
{
   FakeTopo(const vector<string> &subs, const vector<array<int, 4>> &ports) : TopologyHandler(TopologyHandlerMode::COMPONENT)
   {
      numSub = subs.size(); mesh_types.SetSize(numSub);
      for (int m = 0; m < numSub; m++) { auto it = find(comp_names.begin(), comp_names.end(), subs[m]); mesh_types[m] = it - comp_names.begin(); if (it == comp_names.end()) comp_names.push_back(subs[m]); }
      num_comp = comp_names.size(); num_ports = ports.size(); port_infos.SetSize(num_ports);
      for (int p = 0; p < num_ports; p++) { port_infos[p].PortAttr = 10 + p; port_infos[p].Mesh1 = ports[p][0]; port_infos[p].Mesh2 = ports[p][1]; port_infos[p].Attr1 = ports[p][2]; port_infos[p].Attr2 = ports[p][3]; }
   }
   Mesh *GetMesh(const int) override { return NULL; } Mesh *GetGlobalMesh() override { return NULL; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {} void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
};
struct Arr { vector<string> subs; vector<array<int, 4>> ports; };
static const vector<Arr> arrs = {
   {{"A", "B"}, {{0, 1, 2, 4}}}, {{"A", "A", "B"}, {{0, 1, 2, 4}, {1, 2, 2, 4}}}, {{"A", "A"}, {{0, 1, 2, 4}, {0, 1, 1, 3}}}, {{"B", "A"}, {{0, 1, 2, 4}}},
   {{"A", "A", "A", "A"}, {{0, 1, 2, 4}, {2, 3, 2, 4}, {0, 2, 1, 3}, {1, 3, 1, 3}}}, {{"B"}, {}}, {{"B", "A", "AB"}, {{1, 0, 2, 4}, {2, 1, 4, 2}, {0, 2, 3, 1}}}};
static int dimOf(const string &comp, int v) { return (comp == "A" ? 3 : comp == "B" ? 4 : 5) + v; }
typedef vector<double> V;
struct Model   // what should be stored
{
   map<pair<string, string>, vector<V>> snaps; map<tuple<string, string, int, int>, vector<pair<V, V>>> ports; vector<pair<string, string>> order;   // ports: the two sides' snapshots (first variable)
   void append(const Model &o)
   {
      for (auto &t : o.order) { if (!snaps.count(t)) order.push_back(t); auto &d = snaps[t]; auto &s = o.snaps.at(t); d.insert(d.end(), s.begin(), s.end()); }
      for (auto &p : o.ports) { auto &d = ports[p.first]; d.insert(d.end(), p.second.begin(), p.second.end()); }
   }
};
static double vid(int call, int sub, int var, int k, int salt) { return 1 + salt * 1000 + call * 100 + sub * 10 + var + 0.01 * k; }

// variables: 0 = one joint basis; 2 = two separate ones
static void record(SampleGenerator &g, Model &m, const Arr &a, int nv, int call, int salt)
{
   conf("{domain-decomposition: {type: interior_penalty}}"); FakeTopo th(a.subs, a.ports);
   const int num_var = nv ? nv : 1; const vector<string> vn = {"vel", "pres"}; vector<BasisTag> tags; Array<int> off(1); off[0] = 0;
   for (size_t s = 0; s < a.subs.size(); s++) for (int v = 0; v < num_var; v++) { tags.push_back(nv ? BasisTag(a.subs[s], vn[v]) : BasisTag(a.subs[s])); off.Append(off.Last() + dimOf(a.subs[s], v)); }
   BlockVector u(off); vector<V> blocks;
   for (size_t b = 0; b < tags.size(); b++) { V x(off[b + 1] - off[b]); for (size_t k = 0; k < x.size(); k++) u.GetBlock(b)[k] = x[k] = vid(call, b / num_var, b % num_var, k, salt); blocks.push_back(x); }
   Array<int> cols; g.SaveSnapshot(&u, tags, cols); X.transitions++; vc::eq(cols.Size(), (int) tags.size(), "one column per block");
   for (size_t b = 0; b < tags.size(); b++) { auto t = make_pair(tags[b].comp, tags[b].var); if (!m.snaps.count(t)) m.order.push_back(t); vc::eq(cols[b], (int) m.snaps[t].size(), "column of block " + S(b)); m.snaps[t].push_back(blocks[b]); }
   g.SaveSnapshotPorts(&th, cols);
   for (auto &p : a.ports) m.ports[make_tuple(a.subs[p[0]], a.subs[p[1]], p[2], p[3])].push_back({blocks[p[0] * num_var], blocks[p[1] * num_var]});
}
static void compare(SampleGenerator &g, const Model &m, int nv, const string &what, bool absent = false)
{
   for (auto &t : m.snaps)
   {
      auto M = g.LookUpSnapshot(BasisTag(t.first.first, t.first.second)); vc::eq(M->numColumns(), (int) t.second.size(), what + ": snapshots of " + t.first.first + t.first.second); vc::eq(M->numRows(), (int) t.second[0].size(), what + ": length of a snapshot");
      for (size_t c = 0; c < t.second.size(); c++) for (size_t i = 0; i < t.second[c].size(); i++) vc::eq(M->item(i, c), t.second[c][i], what + ": snapshot " + S(c) + " of " + t.first.first + t.first.second);
   }
   for (auto &p : m.ports)
   {
      PortTag tag; tag.Mesh1 = get<0>(p.first); tag.Mesh2 = get<1>(p.first); tag.Attr1 = get<2>(p.first); tag.Attr2 = get<3>(p.first);
      Array2D<int> *c = g.LookUpSnapshotPortColOffsets(tag); vc::check(c != NULL, "port"); vc::eq(c->NumRows(), (int) p.second.size(), what + ": pairs of port " + tag.Mesh1 + tag.Mesh2 + S(tag.Attr1)); vc::eq(c->NumCols(), 2, "pair");
      auto M1 = g.LookUpSnapshot(BasisTag(tag.Mesh1, nv ? "vel" : "")), M2 = g.LookUpSnapshot(BasisTag(tag.Mesh2, nv ? "vel" : ""));
      for (size_t r = 0; r < p.second.size(); r++)
      {
         int c1 = (*c)(r, 0), c2 = (*c)(r, 1); vc::check(c1 >= 0 && c1 < M1->numColumns() && c2 >= 0 && c2 < M2->numColumns(), what + ": pair points outside of the snapshots");
         for (size_t i = 0; i < p.second[r].first.size(); i++) vc::eq(M1->item(i, c1), p.second[r].first[i], what + ": first side of pair " + S(r) + " of port " + tag.Mesh1 + tag.Mesh2 + S(tag.Attr1));
         for (size_t i = 0; i < p.second[r].second.size(); i++) vc::eq(M2->item(i, c2), p.second[r].second[i], what + ": second side of pair " + S(r) + " of port " + tag.Mesh1 + tag.Mesh2 + S(tag.Attr1));
      }
   }
   // tags that were never recorded
   if (absent) for (string t : {"A", "B", "AB", "C"}) if (!m.snaps.count({t, nv ? "vel" : ""}))
   { int st = vc::in_child([&]() { g.LookUpSnapshot(BasisTag(t, nv ? "vel" : "")); }); vc::check(!vc::child_ok(st), what + ": snapshots of " + t + " which were never taken"); }
}
static void genconf(const string &dir, const string &prefix, const string &more = "") { conf("{sample_generation: {maximum_number_of_snapshots: 60, parameters: [" + pentry(0, 2) + "], file_path: {directory: " + dir + ", prefix: " + prefix + "}}" + more + "}"); }

static void cleanup(const string &d)
{
   DIR *p = opendir(d.c_str()); if (!p) return; vector<string> n; while (auto *e = readdir(p)) { string s = e->d_name; if (s != "." && s != "..") n.push_back(s); } closedir(p);
   for (auto &s : n) unlink((d + "/" + s).c_str()); rmdir(d.c_str());
}
static void history(const vector<vector<int>> &files, int nv)
{
   string id = "snapshots nv" + S(nv); for (auto &f : files) id += " [" + vc::str(f) + "]";
   X.run(id, [&]() {
      const string dir = vc::tmpfile("snap"); mkdir(dir.c_str(), 0755); vector<Model> models; vc::Hash h; h.add(nv); int total = 0;
      for (size_t f = 0; f < files.size(); f++)
      {
         genconf(dir, "run" + S(f)); SampleGenerator g(SIM); vc::eq(g.GetSamplePrefix(), dir + "/run" + S(f) + "_sample", "prefix"); Model m;
         for (size_t c = 0; c < files[f].size(); c++) { record(g, m, arrs[files[f][c]], nv, c, f); h.add(files[f][c]); total++; compare(g, m, nv, "after sample " + S(c)); }
         g.WriteSnapshots(); g.WriteSnapshotPorts(); models.push_back(m); X.transitions += 2;
      }
      // collected again: every order of the files (all permutations, and one file twice)
      vector<vector<int>> orders; vector<int> o; for (size_t f = 0; f < files.size(); f++) o.push_back(f);
      do orders.push_back(o); while (next_permutation(o.begin(), o.end())); o.push_back(0); orders.push_back(o);
      for (auto &ord : orders)
      {
         const string what = "collected " + vc::str(ord);
         genconf(dir, "train", ", basis: {number_of_basis: 1, svd: {save_spectrum: true}}"); SampleGenerator g(SIM); Model m;
         for (int f : ord) { g.CollectSnapshotsByPort(dir + "/b", dir + "/run" + S(f) + "_sample.port.h5"); m.append(models[f]); X.transitions++; compare(g, m, nv, what); }
         // the same by basis tag, from lists of files
         SampleGenerator g2(SIM); Model m2;
         for (auto &t : m.order)
         {
            vector<string> list; BasisTag tag(t.first, t.second); for (int f : ord) if (models[f].snaps.count(t)) { list.push_back(dir + "/run" + S(f) + "_sample_" + t.first + (t.second.size() ? "_" + t.second : "") + "_snapshot"); auto &d = m2.snaps[t]; auto &s = models[f].snaps.at(t); d.insert(d.end(), s.begin(), s.end()); }
            g2.CollectSnapshotsByBasis(dir + "/c", tag, list); X.transitions++;
         }
         compare(g2, m2, nv, what + " by basis", &ord == &orders[0] && files.size() == 1);
         if (&ord != &orders[0]) continue;
         // bases end up in one file per tag, spanning that tag's snapshots
         for (int q = 0; q < 2; q++)
         {
            (q ? g2 : g).FormReducedBasis(dir + (q ? "/c" : "/b"));
            for (auto &t : m.snaps)
            {
               const string base = dir + (q ? "/c_" : "/b_") + t.first.first + (t.first.second.size() ? "_" + t.first.second : ""); CAROM::BasisReader r(base); auto B = r.getSpatialBasis();
               vc::eq(B->numRows(), (int) t.second[0].size(), "rows of the basis of " + base);
               for (auto &s : t.second) { double err = 0, nn = 0; V rest = s; for (int j = 0; j < B->numColumns(); j++) { double d = 0; for (size_t i = 0; i < s.size(); i++) d += B->item(i, j) * s[i]; for (size_t i = 0; i < s.size(); i++) rest[i] -= d * B->item(i, j); } for (size_t i = 0; i < s.size(); i++) { err += rest[i] * rest[i]; nn += s[i] * s[i]; } vc::check(err <= 1e-20 * nn, "snapshot outside of the basis of " + base); }
               ifstream sv(base + "_sv.txt"); vc::check(sv.good(), "singular values of " + base); V val; double q1; while (sv >> q1) val.push_back(q1);
               // singular values of these snapshots: the norm of their components along every basis vector, in decreasing order
               vc::check((int) val.size() >= B->numColumns(), "number of singular values of " + base); double left = 0; for (auto &s : t.second) for (double x : s) left += x * x; const double all = left;
               for (size_t j = 0; j < val.size(); j++) { left -= val[j] * val[j]; vc::check(!j || val[j] <= val[j - 1] * (1 + 1e-10), "order of the singular values of " + base); if ((int) j >= B->numColumns()) continue; double n2 = 0; for (auto &s : t.second) { double d = 0; for (size_t i = 0; i < s.size(); i++) d += B->item(i, j) * s[i]; n2 += d * d; } vc::near(val[j], sqrt(n2), "singular value " + S(j) + " of " + base, max(1e-30, sqrt(all)), 1e-9); } vc::near(left, 0.0, "all of the singular values of " + base, max(1e-30, all), 1e-9);
            }
         }
      }
      h.add(total); X.outcome(h.h); cleanup(dir);
   });
}

// ---- a sampling run split over processes
static void runs(int N1, int N2, int np, int offset)
{
   X.run("run " + S(N1) + "x" + S(N2) + " np" + S(np) + " offset" + S(offset), [=]() {
      const string dir = vc::tmpfile("run"); mkdir(dir.c_str(), 0755);
      { Mesh m = Mesh::MakeCartesian2D(2, 1, Element::QUADRILATERAL, true, 2., 1.); m.SetAttribute(0, 1); m.SetAttribute(1, 2); m.SetAttributes(); ofstream o(dir + "/m.mesh"); m.Print(o); }
      auto setup = [&](int count, int rank, const string &out) {
         SN = count; SR = rank; mkdir(out.c_str(), 0755);
         conf("{main: {solver: poisson, use_rom: false}, mesh: {filename: " + dir + "/m.mesh, uniform_refinement: 1}, discretization: {order: 1}, parameterized_problem: {name: poisson0}, single_run: {poisson0: {k: 9.0, offset: 8.0}}, save_solution: {enabled: true}, "
              "sample_generation: {maximum_number_of_snapshots: 50, report_frequency: 100, file_path: {directory: " + out + ", prefix: pp, offset: " + S(offset) + "}, parameters: [{key: single_run/poisson0/k, type: double, sample_size: " + S(N1) + ", minimum: 0.5, maximum: 1.5}, {key: single_run/poisson0/offset, type: double, sample_size: " + S(N2) + ", minimum: 0.1, maximum: 0.4}]}}");
      };
      // what each sample's solution is, from single runs
      const int N = N1 * N2; vector<Vector> want(N);
      for (int s = 0; s < N; s++)
      {
         setup(1, 0, dir + "/x"); config.dict_["single_run"]["poisson0"]["k"] = 0.5 + (N1 > 1 ? 1.0 * (s / N2) / (N1 - 1) : 0); config.dict_["single_run"]["poisson0"]["offset"] = 0.1 + (N2 > 1 ? 0.3 * (s % N2) / (N2 - 1) : 0);
         config.dict_["save_solution"]["file_path"]["directory"] = dir + "/x"; config.dict_["save_solution"]["file_path"]["prefix"] = "sol"; SingleRun(MPI_COMM_WORLD, "");
         hid_t f = H5Fopen((dir + "/x/sol.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); hdf5_utils::ReadDataset(f, "solution", want[s]); H5Fclose(f);
      }
      vector<int> owner(N, -1);
      for (int r = 0; r < np; r++)
      {
         const string out = dir + "/r" + S(r);
         int st = vc::in_child([&]() { setup(np, r, out); auto before = flat(config.dict_); GenerateSamples(SIM); X.transitions++; if (flat(config.dict_) != before) _exit(7); }, 40);
         vc::check(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "process " + S(r) + " of " + S(np) + " does not finish"); vc::check(!(WIFEXITED(st) && WEXITSTATUS(st) == 7), "the configuration is not what it was before sampling"); vc::check(vc::child_ok(st), "process " + S(r) + " of " + S(np) + " failed");
         int mine = 0; vector<int> order;
         for (int s = 0; s < N; s++)
         {
            const string file = out + "/sample" + S(s + offset) + "_solution.h5"; if (access(file.c_str(), F_OK)) continue;
            vc::check(owner[s] < 0, "sample " + S(s) + " taken twice"); owner[s] = r; mine++; order.push_back(s);
            Vector got; hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); hdf5_utils::ReadDataset(f, "solution", got); H5Fclose(f);
            vc::eq(got.Size(), want[s].Size(), "solution"); for (int i = 0; i < got.Size(); i++) vc::near(got[i], want[s][i], "sample " + S(s) + " of process " + S(r), 0, 1e-8);
         }
         // the snapshots of this process, in order, both subdomains
         for (int sub = 0; sub < 2; sub++)
         {
            auto M = CAROM::shim::read(out + "/pp_sample_comp" + S(sub) + "_snapshot", "snapshot_matrix"); vc::eq(M.numColumns(), mine, "snapshots of process " + S(r));
            for (int q = 0; q < mine; q++) for (int i = 0; i < M.numRows(); i++) vc::near(M.item(i, q), want[order[q]][sub * M.numRows() + i], "snapshot " + S(q) + " of subdomain " + S(sub), 0, 1e-8);
         }
         cleanup(out);
      }
      for (int s = 0; s < N; s++) vc::check(owner[s] >= 0, "sample " + S(s) + " was never taken");
      cleanup(dir + "/x"); cleanup(dir); SN = 1; SR = 0;
   });
}

void vc_main()
{
   MPI_Comm_dup(MPI_COMM_SELF, &SIM); { int q = open("/dev/null", O_WRONLY); dup2(q, 1); }
   const int M = X.thorough ? 5 : 4, P = X.thorough ? 5 : 4;
   for (int p = 1; p <= P; p++) vc::product(vector<int>(p, M), [&](const vector<int> &i) { vector<int> n; for (int v : i) n.push_back(v + 1); grid(n); });
   for (auto &n : vector<vector<int>>{{13, 7}, {1, 50}, {50, 1}, {7, 11, 5}, {2, 2, 2, 2, 2, 2}, {3, 1, 4, 1, 5}, {2, 3, 2, 3, 2, 3}}) grid(n);
   for (int N = 1; N <= (X.thorough ? 60 : 30); N++) for (int np = 1; np <= (X.thorough ? 17 : 9); np++) shares(N, np);
   // random samples
   X.run("random", [&]() {
      for (int np = 1; np <= 6; np++)
      {
         vector<int> n(np, 3); conf(plist(n, "random_sample_generator: {number_of_samples: 11}, ")); SN = 1; SR = 0; RandomSampleGenerator g(SIM); g.SetParamSpaceSizes(); vc::eq(g.GetTotalSampleSize(), 11, "number of samples");
         auto before = flat(config.dict_); vector<set<string>> seen(np);
         for (int rep = 0; rep < 40; rep++) for (int s = 0; s < 11; s++)
         {
            Array<int> c = g.GetSampleIndex(s); if (rep % 2) g.SetSampleParams(s); else g.SetSampleParams(c); X.transitions++;
            auto rest = flat(config.dict_), b0 = before;
            for (int p = 0; p < np; p++)
            {
               const string k = "/" + pkey(p); vc::check(rest.count(k), "parameter " + S(p) + " is not set"); seen[p].insert(rest[k]); rest.erase(k); b0.erase(k);
               if (p % 3 == 0) { double v = config.GetRequiredOption<double>(pkey(p)); vc::check(v >= p - 1.5 - 1e-5 && v <= p + 4.25 + 1e-5, "draw outside the range"); }
               if (p % 3 == 1) { int v = config.GetRequiredOption<int>(pkey(p)); vc::check(v >= p && v <= p + 6, "draw outside the range"); }
               if (p % 3 == 2) { string v = config.GetRequiredOption<string>(pkey(p)); vc::check(v >= "m002.mesh" && v <= "m006.mesh", "draw outside the range"); }
            }
            vc::check(rest == b0, "other options changed");
         }
         for (int p = 0; p < np; p++) vc::check(seen[p].size() > 2, "parameter " + S(p) + " does not vary");
         for (int bad : {-1, 11}) { int st = vc::in_child([&]() { g.GetSampleIndex(bad); }); vc::check(!vc::child_ok(st), "random sample " + S(bad)); }
      }
   });
   // names
   X.run("names", [&]() {
      for (string dir : {"", ".", "some/dir"}) for (string pre : {"", "p", "run_1"}) for (string prob : {"", "poisson0"}) for (int off : {-1, 0, 40})
      {
         string y = "{sample_generation: {parameters: [" + pentry(0, 2) + "]"; string fp;
         if (dir.size()) fp += "directory: " + dir; if (pre.size()) fp += string(fp.size() ? ", " : "") + "prefix: " + pre; if (off >= 0) fp += string(fp.size() ? ", " : "") + "offset: " + S(off);
         if (fp.size()) y += ", file_path: {" + fp + "}"; y += "}"; if (prob.size()) y += ", parameterized_problem: {name: " + prob + "}"; conf(y + "}");
         SampleGenerator g(SIM); const string d = dir.size() ? dir : ".", p = pre.size() ? pre : prob.size() ? prob : "sample"; X.transitions++;
         vc::eq(g.GetSamplePrefix(), d + "/" + p + "_sample", "prefix of the snapshot files"); vc::eq(g.GetFileOffset(), max(off, 0), "offset"); set<string> paths;
         for (int s = 0; s < 25; s++) for (string q : {"", "solution", "vis"}) { string path = g.GetSamplePath(s, q); vc::eq(path, d + "/sample" + S(s) + "_" + (q.size() ? q : p), "path of sample " + S(s)); paths.insert(path); }
         vc::eq((int) paths.size(), 75, "different paths"); vc::eq(g.GetBaseFilename("x/y", BasisTag("comp", "vel")), string("x/y_comp_vel"), "basis file"); vc::eq(g.GetBaseFilename("x/y", BasisTag("comp")), string("x/y_comp"), "basis file");
      }
      for (string bad : {"{a: 1}", "{sample_generation: {parameters: [{key: k, type: nope, minimum: 0, maximum: 1}]}}", "{sample_generation: {parameters: [{type: double, minimum: 0, maximum: 1}]}}"})
      { int st = vc::in_child([&]() { conf(bad); SampleGenerator g(SIM); }); vc::check(!vc::child_ok(st), "accepted: " + bad); }
   });
   // tags and files of a configuration
   {
      const vector<pair<string, vector<string>>> solvers = {{"poisson", {"solution"}}, {"stokes", {"vel", "pres"}}, {"steady-ns", {"vel", "pres"}}, {"unsteady-ns", {"vel", "pres"}}, {"linelast", {"solution"}}, {"adv-diff", {"solution"}}};
      const vector<vector<string>> comps = {{"a"}, {"a", "b"}, {"b", "a", "c_d"}};
      for (auto &sv : solvers) for (auto &c : comps) for (int sep = 0; sep < 2; sep++) X.run("tags " + sv.first + " " + vc::str(c) + " sep" + S(sep), [&]() {
         string y = "{main: {solver: " + sv.first + "}, mesh: {type: component-wise, component-wise: {components: ["; for (auto &n : c) y += "{file: " + n + ".mesh, name: " + n + "}, "; conf(y + "]}}}"); X.transitions++;
         auto t = GetGlobalBasisTagList(TopologyHandlerMode::COMPONENT, sep); vector<BasisTag> w; for (auto &n : c) if (sep) for (auto &v : sv.second) w.push_back(BasisTag(n, v)); else w.push_back(BasisTag(n));
         vc::eq(t.size(), w.size(), "number of basis tags"); for (size_t k = 0; k < w.size(); k++) vc::check(t[k] == w[k], "basis tag " + S(k) + ": " + t[k].print());
      });
      // files listed for a tag: none, a list, a format, both; listed before, between or after other tags
      for (int kind = 0; kind < 5; kind++) for (int pos = 0; pos < 3; pos++) for (string name : {"a", "a_vel", "b"}) X.run("files kind" + S(kind) + " pos" + S(pos) + " " + name, [&]() {
         vector<string> e = {"{name: other, snapshot_files: [o1, o2], number_of_basis: 2}", "{name: a_vel_, snapshot_format: {type: filename, minimum: 1, maximum: 3, format: 'o%d'}}"}; vector<string> want;
         string m = "{name: " + name + ", number_of_basis: 3"; if (kind & 1) { m += ", snapshot_files: [f9, f2, f4]"; want = {"f9", "f2", "f4"}; }
         if (kind & 2) { m += ", snapshot_format: {type: filename, minimum: 2, maximum: 4, format: 's%02d'}"; for (string q : {"s02", "s03", "s04"}) want.push_back(q); }
         if (kind < 4) e.insert(e.begin() + pos, m + "}"); string y = "{basis: {tags: ["; for (auto &q : e) y += q + ", "; conf(kind == 4 && pos == 2 ? "{basis: {prefix: x}}" : y + "]}}"); if (want.empty()) want = {"dflt"};
         vector<string> list = {"stale"}; FindSnapshotFilesForBasis(name == "a_vel" ? BasisTag("a", "vel") : BasisTag(name), "dflt", list); vc::eq(vc::str(list), vc::str(want), "snapshot files"); X.transitions++;
      });
      for (string bad : {"nope", "Base"}) X.run("generator " + bad, [&]() { int st = vc::in_child([&]() { conf(plist({2}, "type: " + bad + ", ")); InitSampleGenerator(SIM); }); vc::check(!vc::child_ok(st), "unknown generator accepted"); });
      for (string t : {"", "base", "random"}) X.run("generator " + t, [&]() { conf(plist({2}, (t.size() ? "type: " + t + ", " : ""))); unique_ptr<SampleGenerator> g(InitSampleGenerator(SIM)); vc::check(g->GetType() == (t == "random" ? RANDOM : BASE), "type"); });
   }
   // histories of samples in one file
   const int A = arrs.size();
   for (int nv : {0, 1, 2})
   {
      for (int len = 1; len <= (X.thorough ? 5 : 4); len++) vc::product(vector<int>(len, A), [&](const vector<int> &s) { if (len == 5 && nv == 1) return; history({s}, nv); });
      // two and three files
      for (int l1 = 1; l1 <= 2; l1++) for (int l2 = 1; l2 <= 2; l2++) vc::product(vector<int>(l1 + l2, A), [&](const vector<int> &s) { if (!X.thorough && l1 + l2 == 4 && (s[0] + 3 * s[1] + 5 * s[2] + s[3]) % 4) return; history({{s.begin(), s.begin() + l1}, {s.begin() + l1, s.end()}}, nv); });
      vc::product({A, A, A}, [&](const vector<int> &s) { if (X.thorough || (s[0] + s[1] + s[2]) % 2 == 0) history({{s[0]}, {s[1]}, {s[2]}}, nv); });
   }
   for (int np = 1; np <= 4; np++) for (auto &n : vector<pair<int, int>>{{2, 3}, {4, 1}, {1, 5}, {3, 3}}) if (n.first * n.second >= np) for (int off : {0, 17}) if (X.thorough || off == 0 || np == 2) runs(n.first, n.second, np, off);
}
