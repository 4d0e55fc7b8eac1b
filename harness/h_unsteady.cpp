// C19: the time-dependent Navier-Stokes solver. Every state satisfies the discrete equations of its step; restart files,
// snapshots and final solutions are those states for every combination of step counts and intervals; every way to cut the
// run into restarted pieces gives the same states; the reduced model with a complete basis follows the same states.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "rom.hpp"

struct Case { Geo g; Opt o; int ic; double dt; bool rom; };
static string id(const Case &c) { ostringstream s; s << c.g.id << ": order " << c.o.order << (c.o.dg ? " dg" : "") << " sides " << c.o.bc << " initial " << c.ic << " dt " << c.dt; return s.str(); }
static string fileOf(int step) { char b[32]; snprintf(b, sizeof b, "_%08d.h5", step); return dir + "/solution" + b; }
static void clear() { for (int n = 0; n < 12; n++) unlink(fileOf(n).c_str()); unlink((dir + "/solution.h5").c_str()); }
static void runFor(int nt, int ri, int vi, int from = -1)   // from: restart with the file of this step
{
   config.dict_["time-integration"]["number_of_timesteps"] = nt; config.dict_["save_solution"]["restart_interval"] = ri; YAML::Node v; v["enabled"] = vi >= 0; if (vi >= 0) { v["time_interval"] = vi; v["unified_paraview"] = false; v["file_path"]["directory"] = dir; v["file_path"]["prefix"] = "pv"; } config.dict_["visualization"] = v;
   config.dict_["solver"]["use_restart"] = from >= 0; if (from >= 0) config.dict_["solver"]["restart_file"] = fileOf(from); SingleRun(MPI_COMM_WORLD, ""); X.transitions++; config.dict_["solver"]["use_restart"] = false; config.dict_["visualization"]["enabled"] = false;
}
static void same(const Vector &a, const Vector &b, const string &what) { vc::eq(a.Size(), b.Size(), what + ": size"); double top = max(1.0, b.Normlinf()); for (int i = 0; i < a.Size(); i++) vc::near(a(i), b(i), what + ": value " + S(i), top, 1e-9); }
static void stateFile(int step, const Vector &want, double dt, const string &what)
{
   Vector v; readSolution(fileOf(step), v); same(v, want, what + ": file of step " + S(step)); hid_t f = H5Fopen(fileOf(step).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); int n = -1; double t = -1; hdf5_utils::ReadAttribute(f, "timestep", n); hdf5_utils::ReadAttribute(f, "time", t); H5Fclose(f); vc::eq(n, step, what + ": step in the file"); vc::near(t, step * dt, what + ": time in the file", 1, 1e-12);
}
static vector<Vector> reference(const Case &c, int N, Full &F)
{
   clear(); runFor(N, 1, -1); vector<Vector> u(N + 1); auto *t = dynamic_cast<UnsteadyNSSolver *>(F.s.get()); const int K = F.K;
   for (int n = 0; n <= N; n++) { readSolution(fileOf(n), u[n]); stateFile(n, u[n], c.dt, "run"); } Vector last; readSolution(dir + "/solution.h5", last); same(last, u[N], "final solution");
   // initial state
   for (int m = 0; m < K; m++) for (int v = 0; v < 2; v++) { FiniteElementSpace *fe = v ? t->pfes[m] : t->ufes[m]; GridFunction g(fe); g = 0.0; if (IC & (1 << v)) { VectorFunctionCoefficient q(v ? 1 : DIM, v ? &icP : &icU); g.ProjectCoefficient(q); } for (int i = 0; i < g.Size(); i++) vc::near(u[0](F.off[2 * m + v] + i), g(i), "initial state, subdomain " + S(m) + " variable " + S(v), 1, 1e-12); }
   // every step
   vector<SparseMatrix> mass; for (int m = 0; m < K; m++) { BilinearForm b(t->ufes[m]); b.AddDomainIntegrator(new VectorMassIntegrator); b.Assemble(); b.Finalize(); mass.push_back(b.SpMat()); }
   double sA = F.A.MaxMaxNorm();
   for (int n = 0; n < N; n++)
   {
      Vector r(F.f.Size()); F.A.Mult(u[n + 1], r); r -= F.f; int nu = 0; for (int m = 0; m < K; m++) nu += t->ufes[m]->GetVSize(); Vector x(nu), y(nu), z; y = 0.0; for (int m = 0, q = 0; m < K; m++) for (int i = F.off[2 * m]; i < F.off[2 * m + 1]; i++) x(q++) = u[n](i);
      for (int m = 0, q = 0; m < K; m++) { const int s = t->ufes[m]->GetVSize(); Vector xs(x.GetData() + q, s), ys(y.GetData() + q, s); Vector tmp(s); t->hs[m]->Mult(xs, tmp); ys += tmp; q += s; } t->nl_itf->InterfaceAddMult(x, y);
      double sc = max(1.0, max(u[n].Normlinf(), u[n + 1].Normlinf()) * max(sA, 1 / c.dt)); for (int m = 0, q = 0; m < K; m++) { const int s = t->ufes[m]->GetVSize(), b = F.off[2 * m]; Vector d(s), e(s); for (int i = 0; i < s; i++) d(i) = (u[n + 1](b + i) - u[n](b + i)) / c.dt; mass[m].Mult(d, e); for (int i = 0; i < s; i++) r(b + i) += e(i) + y(q + i); q += s; }
      for (int i = 0; i < r.Size(); i++) vc::near(r(i), 0.0, "equation " + S(i) + " of step " + S(n + 1), sc, 1e-8);
      if (!c.o.bc) { double sum = 0; for (int m = 0; m < K; m++) for (int i = F.off[2 * m + 1]; i < F.off[2 * m + 2]; i++) sum += u[n + 1](i); vc::near(sum, 0.0, "sum of the pressure of step " + S(n + 1), max(1.0, u[n + 1].Normlinf() * r.Size()), 1e-9); }
   }
   return u;
}
static void checkRun(const vector<Vector> &u, int from, int nt, int ri, double dt, const string &what)
{
   Vector last; readSolution(dir + "/solution.h5", last); same(last, u[nt], what + ": final solution"); vc::Hash h; h.add(nt).add(from);
   for (int n = 0; n < 12; n++) { const bool want = (n == 0 && from < 0) || (ri > 0 && n > max(from, 0) && n <= nt && n % ri == 0); const bool got = access(fileOf(n).c_str(), F_OK) == 0; vc::check(got == want, what + ": file of step " + S(n) + (want ? " is missing" : " should not be there")); if (want) stateFile(n, u[n], dt, what); h.add((int) want); }
   for (int i = 0; i < last.Size(); i++) h.add(lround(last(i) * 1e4)); X.outcome(h.h);
}
static void samples(const Case &c, int N, const map<int, vector<Vector>> &ref, Full &F, int si, int boot)
{
   vector<int> at; for (int n = 1; n <= N; n++) if (si && n > boot && n % si == 0) at.push_back(n); if (at.empty()) return; const string what = "samples every " + S(si) + " after " + S(boot); const int K = F.K;
   config.dict_["time-integration"]["number_of_timesteps"] = N; config.dict_["sample_generation"]["time-integration"]["sample_interval"] = si; config.dict_["sample_generation"]["time-integration"]["bootstrap"] = boot; GenerateSamples(MPI_COMM_WORLD); X.transitions++;
   map<string, vector<const Vector *>> cols; map<int, int> count; vector<int> rankOf(K); for (int m = 0; m < K; m++) rankOf[m] = count[F.type[m]]++;
   for (int type = 0; type < (int) F.comp.size(); type++) for (int v = 0; v < 2; v++)
   {
      auto M = CAROM::shim::read(dir + "/s_sample_" + bname(F, type, v, true) + "_snapshot", "snapshot_matrix"); vc::eq(M.numColumns(), (int) (ref.size() * at.size()) * count[type], what + ": number of snapshots"); int col = 0;
      for (auto &r : ref) for (int n : at) for (int m = 0; m < K; m++) if (F.type[m] == type) { const int b = F.off[2 * m + v]; vc::eq(M.numRows(), F.off[2 * m + v + 1] - b, what + ": length"); double top = max(1.0, r.second[n].Normlinf()); for (int i = 0; i < M.numRows(); i++) vc::near(M.item(i, col), r.second[n](b + i), what + ": step " + S(n) + " of sample " + S(r.first) + " in " + bname(F, type, v, true), top, 1e-9); col++; }
   }
   // which columns meet at ports
   TopologyHandler *th = F.s->topol_handler; map<array<string, 4>, vector<array<int, 2>>> want; for (size_t e = 0; e < ref.size() * at.size(); e++) for (int p = 0; p < th->GetNumPorts(); p++) { const PortInfo *q = th->GetPortInfo(p); const int a = q->Mesh1, b = q->Mesh2; want[{{F.comp[F.type[a]], F.comp[F.type[b]], S(q->Attr1), S(q->Attr2)}}].push_back({{(int) e * count[F.type[a]] + rankOf[a], (int) e * count[F.type[b]] + rankOf[b]}}); }
   hid_t f = H5Fopen((dir + "/s_sample.port.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f >= 0, what + ": no port file"); int np = -1; hdf5_utils::ReadAttribute(f, "number_of_ports", np); vc::eq(np, (int) want.size(), what + ": number of ports");
   for (int p = 0; p < np; p++) { hid_t g = H5Gopen2(f, S(p).c_str(), H5P_DEFAULT); array<string, 4> tag; int a, b; hdf5_utils::ReadAttribute(g, "Mesh1", tag[0]); hdf5_utils::ReadAttribute(g, "Mesh2", tag[1]); hdf5_utils::ReadAttribute(g, "Attr1", a); hdf5_utils::ReadAttribute(g, "Attr2", b); tag[2] = S(a); tag[3] = S(b); Array2D<int> ci; hdf5_utils::ReadDataset(g, "col_idxs", ci); H5Gclose(g); vc::check(want.count(tag), what + ": unknown port"); auto &w = want[tag]; vc::eq(ci.NumRows(), (int) w.size(), what + ": columns of a port"); for (size_t r = 0; r < w.size(); r++) for (int k = 0; k < 2; k++) vc::eq(ci(r, k), w[r][k], what + ": column of a port"); } H5Fclose(f);
   vc::Hash h; h.add(si).add(boot).add((int) at.size()); X.outcome(h.h);
}
static void history(const Case &c)
{
   UNST = true; IC = c.ic; PH = NSLF; DIM = dimOf(c.g.k); BC = c.o.bc; POLY = !BC; FAR = DIM == 2 ? 2 : 3; BATTR.clear(); for (int s = 1; s <= 2 * DIM; s++) BATTR.push_back(s); pnu = 0.9; const int N = 4;
   for (int q = 0; q < 2; q++) { Problem P(STOKES, c.g.k, c.o.order, 0, q, c.g.X()); PU[q] = P.u; PF[q] = P.f; }
   YAML::Node y = base(c.o, NULL); y["navier-stokes"]["zeta"] = 0.4; y["navier-stokes"]["operator-type"] = "lf"; y["stokes"]["nu"] = pnu; y["time-integration"]["timestep_size"] = c.dt; y["time-integration"]["number_of_timesteps"] = N; y["main"]["solver"] = "unsteady-ns"; y["main"]["use_rom"] = false; y["parameterized_problem"]["name"] = "vc"; y["save_solution"]["enabled"] = true; y["save_solution"]["file_path"]["prefix"] = "solution"; y["model_reduction"]["separate_variable_basis"] = true;
   with(c.g, y, [&]() {
      config.dict_["save_solution"]["file_path"]["directory"] = dir; map<int, vector<Vector>> ref; const double as[2] = {1.0, 1.75}; unique_ptr<Full> F[2];
      for (int q = 1; q >= 0; q--) { setParams(as[q], 0.5); F[q].reset(new Full(false)); ref[q] = reference(c, N, *F[q]); } auto &u = ref[0];
      double moved = 0; for (int n = 1; n < N; n++) { Vector d(u[n + 1]); d -= u[n]; moved = max(moved, d.Normlinf()); } vc::check(moved > 1e-6, "the states do not change: nothing is tested");
      // numbers of steps and intervals
      for (int nt = 0; nt <= N; nt++) for (int ri = 0; ri <= N + 1; ri++) { clear(); runFor(nt, ri, -1); checkRun(u, -1, nt, ri, c.dt, S(nt) + " steps, file every " + S(ri)); }
      for (int vi = 0; vi <= 3; vi++) for (int ri = 1; ri <= (X.thorough ? 3 : 2); ri++) { clear(); runFor(N, ri, vi); checkRun(u, -1, N, ri, c.dt, "file every " + S(ri) + ", view every " + S(vi)); }
      // all ways to cut the run
      for (int cut = 0; cut < 1 << (N - 1); cut++) for (int vi = -1; vi <= (X.thorough ? 3 : 2); vi++)
      {
         if (vi == 1 || (!X.thorough && vi >= 0 && (cut & (cut - 1)))) continue; clear(); vector<int> ends; for (int k = 1; k < N; k++) if (cut >> (k - 1) & 1) ends.push_back(k); ends.push_back(N); int from = -1; string what = "cut"; for (int e : ends) what += " " + S(e); if (vi >= 0) what += ", view every " + S(vi);
         for (int e : ends) { runFor(e, 1, vi, from); Vector last; readSolution(dir + "/solution.h5", last); same(last, u[e], what + ": solution after step " + S(e)); for (int n = 0; n <= N; n++) { vc::check((access(fileOf(n).c_str(), F_OK) == 0) == (n <= e), what + ": files"); if (n <= e) stateFile(n, u[n], c.dt, what); } from = e; }
      }
      for (int from = 0; from <= N; from++) for (int ri = 0; ri <= 3; ri++) { clear(); runFor(N, 1, -1); for (int n = 0; n <= N; n++) if (n != from) unlink(fileOf(n).c_str()); string keep = dir + "/keep.h5"; rename(fileOf(from).c_str(), keep.c_str()); config.dict_["solver"]["use_restart"] = true; config.dict_["solver"]["restart_file"] = keep; config.dict_["time-integration"]["number_of_timesteps"] = N; config.dict_["save_solution"]["restart_interval"] = ri; SingleRun(MPI_COMM_WORLD, ""); X.transitions++; config.dict_["solver"]["use_restart"] = false; checkRun(u, from, N, ri, c.dt, "restart of step " + S(from) + ", file every " + S(ri)); }
      config.dict_["save_solution"]["restart_interval"] = 0;
      // snapshots
      config.dict_["sample_generation"]["maximum_number_of_snapshots"] = 100; config.dict_["sample_generation"]["report_frequency"] = 1000; config.dict_["sample_generation"]["file_path"]["directory"] = dir; config.dict_["sample_generation"]["file_path"]["prefix"] = "s"; setParams(9, 0.5);
      { YAML::Node pr, q; q["key"] = "single_run/vc/a"; q["type"] = "double"; q["sample_size"] = 2; q["minimum"] = as[0]; q["maximum"] = as[1]; pr.push_back(q); config.dict_["sample_generation"]["parameters"] = pr; }
      for (int si = 1; si <= 4; si++) for (int boot = 0; boot <= 3; boot++) samples(c, N, ref, *F[0], si, boot);
      if (!c.rom) return;
      // the reduced model: bases containing all the states
      samples(c, N, ref, *F[0], 1, 0); map<string, int> rank; Full &f = *F[0];
      for (int type = 0; type < (int) f.comp.size(); type++) for (int v = 0; v < 2; v++) { auto M = CAROM::shim::read(dir + "/s_sample_" + bname(f, type, v, true) + "_snapshot", "snapshot_matrix"); vector<double> a; for (int j = 0; j < M.numColumns(); j++) for (int i = 0; i < M.numRows(); i++) a.push_back(M.item(i, j)); auto s = singular(a, M.numRows(), M.numColumns()); int r = 0; while (r < (int) s.size() && s[r] > 1e-9 * s[0]) r++; rank[bname(f, type, v, true)] = r; }
      config.dict_["main"]["use_rom"] = true; config.dict_["basis"]["prefix"] = dir + "/b"; YAML::Node tags; for (auto &t : rank) { YAML::Node q; q["name"] = t.first; q["number_of_basis"] = t.second; tags.push_back(q); } config.dict_["basis"]["tags"] = tags; config.dict_["sample_collection"]["mode"] = "port";
      YAML::Node m = config.dict_["model_reduction"]; m["save_operator"]["level"] = "component"; m["save_operator"]["prefix"] = dir + "/rom"; m["ordering"] = "variable"; m["linear_solver_type"] = "direct"; m["linear_system_type"] = "us"; m["nonlinear_handling"] = "eqp"; m["eqp"]["relative_tolerance"] = 1e-11;
      setParams(as[0], 0.5); TrainROM(MPI_COMM_WORLD); X.transitions++;
      for (int pre = 0; pre < 2; pre++)
      {
         m["eqp"]["precompute"] = pre == 1; config.dict_["time-integration"]["timestep_size"] = 3 * c.dt; TrainEQP(MPI_COMM_WORLD); BuildROM(MPI_COMM_WORLD); X.transitions += 2; config.dict_["time-integration"]["timestep_size"] = c.dt;   // the operators do not depend on the step
         for (int q = 0; q < 2; q++)
         {
            setParams(as[q], 0.5); auto &w = ref[q]; vector<string> keep; for (int n = 0; n <= N; n++) { keep.push_back(dir + "/fom" + S(n) + ".h5"); hid_t h = H5Fcreate(keep[n].c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h, "solution", w[n]); hdf5_utils::WriteAttribute(h, "timestep", n); hdf5_utils::WriteAttribute(h, "time", n * c.dt); H5Fclose(h); }
            for (int from = IC ? 1 : -1; from <= N; from++) for (int nt = max(from, 0); nt <= N; nt++)
            {
               if (from == 0) continue; clear(); config.dict_["time-integration"]["number_of_timesteps"] = nt; config.dict_["solver"]["use_restart"] = from >= 0; if (from >= 0) config.dict_["solver"]["restart_file"] = keep[from]; SingleRun(MPI_COMM_WORLD, ""); X.transitions++; config.dict_["solver"]["use_restart"] = false;
               const string what = "reduced run of sample " + S(q) + " from " + S(from) + " to " + S(nt); Vector got; readSolution(dir + "/solution.h5", got); double top = max(1e-3, w[nt].Normlinf()); for (int i = 0; i < got.Size(); i++) vc::near(got(i), w[nt](i), what + ": value " + S(i), top, 2e-5); vc::Hash h; h.add(from).add(nt).add(q); X.outcome(h.h);
            }
         }
      }
   });
   UNST = false;
}
void vc_main()
{
   { int q = open("/dev/null", O_WRONLY); dup2(q, 1); }
   const bool T = X.thorough; vector<Geo> gs; auto sub = [&](Kind k, int nx, int ny, int nz, const vector<int> &attr, const vector<int> &rot, const string &n) { Geo g; g.k = k; g.n[0] = nx; g.n[1] = ny; g.n[2] = nz; g.attr = attr; g.rot = rot; g.id = string("mesh ") + name(k) + " " + n; gs.push_back(g); };
   sub(QUAD, 2, 1, 1, {1, 2}, {0, 3}, "two"); sub(TRI, 2, 1, 1, {1, 2, 2, 1}, {0, 1, 2, 0}, "four"); sub(QUAD, 2, 2, 1, {1, 2, 2, 1}, {0, 1, 2, 3}, "1221"); sub(QUAD, 2, 1, 1, {1, 1}, {0, 0}, "undivided");
   auto comp = [&](Kind k, const vector<array<int, 3>> &cells, const vector<int> &of, int flip, const string &n) { Geo g; g.comp = true; g.k = k; g.cells = cells; g.of = of; g.flip = flip; g.gmode = 0; g.ne = dimOf(k) == 2 ? 2 : 1; g.rot = {0, 0, 0, 0}; g.id = string("components ") + name(k) + " " + n + " flip " + S(flip); gs.push_back(g); };
   const vector<array<int, 3>> two = {{{0, 0, 0}}, {{1, 0, 0}}}, quad = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}};
   comp(QUAD, two, {0, 1}, 0, "ab"); comp(QUAD, two, {0, 0}, 1, "aa"); comp(TRI, two, {0, 1}, 1, "ab"); comp(QUAD, quad, {0, 1, 1, 0}, 5, "abba"); if (T) { comp(TRI, quad, {0, 0, 0, 0}, 0, "aaaa"); comp(TRI, two, {1, 0}, 0, "ba"); }
   for (auto &g : gs) for (int ord = 1; ord <= 2; ord++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 3; bc++) for (int ic = 0; ic < 4; ic++) for (double dt : {0.05, 0.4})
   {
      if (dg && !bc) continue; if (ord > 1 && !T && (g.k == TRI || g.comp)) continue; if (!T && (ic == 2 || (ic == 1 && bc))) continue; if (!T && dt > 0.1 && ic) continue; Case c; c.g = g; c.o = {NSLF, ord, (bool) dg, 0, bc, 0}; c.ic = ic; c.dt = dt; c.rom = g.comp && bc == 2; X.run(id(c), [=]() { history(c); });
   }
}
