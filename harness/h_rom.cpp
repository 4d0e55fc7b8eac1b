// C17: the whole reduced-model workflow (samples, basis, operators, reduced solution), on real files. For every combination
// of solver, decomposition, basis assignment, operator storage level, ordering and linear solver, the reduced solution is
// the Galerkin solution in the stored basis, computed here from the full-order operator, and the full-order solution
// itself when the basis contains it.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "rom.hpp"

struct Case { Geo g, deploy; bool hasDeploy = false; Opt o; bool sep; int eqp = 0; bool gridParams = true; };
static string id(const Case &c) { return c.g.id + string(c.hasDeploy ? " to " + c.deploy.id : "") + ": " + pname[c.o.ph] + " order " + S(c.o.order) + (c.o.dg ? " dg" : "") + " sides " + S(c.o.bc) + (c.sep ? " separate" : "") + (c.eqp ? " eqp" + S(c.eqp) : ""); }
// reduced spaces: columns of every block in the order of the reduced system
struct Space
{
   DenseMatrix V; vector<int> start, block; int n = 0;
   Space(const Full &F, bool sep, bool byVar, const map<string, int> &nb, const map<string, int> &nsup)
   {
      const int K = F.K, nv = F.nv; vector<array<int, 2>> order; if (!sep) for (int m = 0; m < K; m++) order.push_back({{m, -1}}); else if (!byVar) for (int m = 0; m < K; m++) for (int v = 0; v < nv; v++) order.push_back({{m, v}}); else for (int v = 0; v < nv; v++) for (int m = 0; m < K; m++) order.push_back({{m, v}});
      vector<DenseMatrix> bs; vector<int> row;
      for (auto &o : order)
      {
         const string t = bname(F, F.type[o[0]], max(o[1], 0), sep); DenseMatrix b = loadBasis(dir + "/b_" + t, nb.at(t)); row.push_back(F.off[o[0] * nv + max(o[1], 0)]); vc::eq(b.Height(), (o[1] < 0 ? F.off[(o[0] + 1) * nv] : F.off[o[0] * nv + o[1] + 1]) - row.back(), "length of the basis vectors of " + t);
         if (sep && nv == 2 && o[1] == 0) { DenseMatrix sp; hid_t f = H5Fopen((dir + "/b_" + F.comp[F.type[o[0]]] + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f >= 0, "supremizers were not written"); hdf5_utils::ReadDataset(f, "supremizer_basis", sp); H5Fclose(f); const int ns = nsup.at(F.comp[F.type[o[0]]]); vc::check(sp.Width() >= ns, "number of supremizers"); DenseMatrix e(b.Height(), b.Width() + ns); for (int i = 0; i < b.Height(); i++) { for (int j = 0; j < b.Width(); j++) e(i, j) = b(i, j); for (int j = 0; j < ns; j++) e(i, b.Width() + j) = sp(i, j); } b = e; }
         start.push_back(n); n += b.Width(); bs.push_back(b);
      }
      start.push_back(n); V.SetSize(F.off.back(), n); V = 0.0; for (size_t q = 0; q < bs.size(); q++) for (int i = 0; i < bs[q].Height(); i++) for (int j = 0; j < bs[q].Width(); j++) V(row[q] + i, start[q] + j) = bs[q](i, j);
   }
};
static Vector readText(const string &file) { ifstream i(file); vector<double> v; double x; while (i >> x) v.push_back(x); Vector r(v.size()); for (size_t k = 0; k < v.size(); k++) r(k) = v[k]; return r; }
static DenseMatrix readMM(const string &file, int n) { ifstream i(file); string l; while (getline(i, l)) if (l.size() && l[0] != '%') break; istringstream h(l); int r, c, z; h >> r >> c >> z; vc::check(r == n && c == n, "size of the stored reduced matrix " + S(r) + " x " + S(c) + ", expected " + S(n)); DenseMatrix d(r, c); d = 0.0; int a, b; double v; while (i >> a >> b >> v) d(a - 1, b - 1) += v; return d; }
struct Run { string level, ordering, solver, type, prec, nl; int load; bool variable() const { return ordering == "variable"; } string name() const { return level + " " + ordering + " " + solver + (type.size() ? " " + type : "") + (prec != "none" ? " " + prec : "") + (nl.size() ? " " + nl : ""); } };
static void setRun(const Run &r)
{
   YAML::Node m = config.dict_["model_reduction"]; m["save_operator"]["level"] = r.level; m["save_operator"]["prefix"] = dir + "/rom"; m["ordering"] = r.ordering; m["linear_solver_type"] = r.solver; m["linear_system_type"] = r.type.size() ? r.type : "us"; m["preconditioner"] = r.prec; m["nonlinear_handling"] = r.nl.size() ? r.nl : "none";
}
static void train(const Case &c, map<string, int> &rank, vector<array<double, 2>> &params, vector<Vector> &sols)
{
   const bool sep = c.sep; config.dict_["main"]["solver"] = solverName[PH]; config.dict_["main"]["use_rom"] = false; config.dict_["model_reduction"]["separate_variable_basis"] = sep; config.dict_["sample_generation"]["maximum_number_of_snapshots"] = 100; config.dict_["sample_generation"]["report_frequency"] = 1000; config.dict_["sample_generation"]["file_path"]["directory"] = dir; config.dict_["sample_generation"]["file_path"]["prefix"] = "s"; config.dict_["save_solution"]["enabled"] = true; config.dict_["save_solution"]["file_path"]["directory"] = dir; config.dict_["save_solution"]["file_path"]["prefix"] = "solution"; setParams(9, 9);
   config.dict_["parameterized_problem"]["name"] = "vc"; YAML::Node pr; const int n = c.gridParams ? 2 : 1; for (string k : {"a", "b"}) { YAML::Node q; q["key"] = "single_run/vc/" + k; q["type"] = "double"; q["sample_size"] = n; q["minimum"] = k == "a" ? 1.0 : -0.5; q["maximum"] = k == "a" ? 1.75 : 0.75; pr.push_back(q); } config.dict_["sample_generation"]["parameters"] = pr;
   GenerateSamples(MPI_COMM_WORLD); X.transitions++;
   for (int i = 0; i < n * n; i++) { Vector v; readSolution(dir + "/sample" + S(i) + "_solution.h5", v); sols.push_back(v); params.push_back({{i / n ? 1.75 : 1.0, i % n ? 0.75 : -0.5}}); }
   // the snapshots are the parts of the solutions
   config.dict_["single_run"]["vc"]["a"] = 1.0; Full F(false); map<string, vector<vector<double>>> snaps;
   for (auto &u : sols) for (int m = 0; m < F.K; m++) for (int v = 0; v < (sep ? F.nv : 1); v++) { const int b = F.off[m * F.nv + v], e = sep ? F.off[m * F.nv + v + 1] : F.off[(m + 1) * F.nv]; snaps[bname(F, F.type[m], v, sep)].push_back(vector<double>(u.GetData() + b, u.GetData() + e)); }
   for (auto &t : snaps) { auto M = CAROM::shim::read(dir + "/s_sample_" + t.first + "_snapshot", "snapshot_matrix"); vc::eq(M.numColumns(), (int) t.second.size(), "number of snapshots of " + t.first); vc::eq(M.numRows(), (int) t.second[0].size(), "length of the snapshots of " + t.first); vector<double> a; for (size_t j = 0; j < t.second.size(); j++) for (size_t i = 0; i < t.second[j].size(); i++) { vc::eq(M.item(i, j), t.second[j][i], "snapshot of " + t.first); a.push_back(t.second[j][i]); } auto s = singular(a, M.numRows(), M.numColumns()); int r = 0; while (r < (int) s.size() && s[r] > 1e-8 * s[0]) r++; rank[t.first] = r; }
   config.dict_["main"]["use_rom"] = true; config.dict_["basis"]["prefix"] = dir + "/b"; YAML::Node tags; for (auto &t : rank) { YAML::Node q; q["name"] = t.first; q["number_of_basis"] = t.second; tags.push_back(q); } config.dict_["basis"]["tags"] = tags; config.dict_["basis"]["svd"]["save_spectrum"] = false;
   if (PH >= NSBASE) config.dict_["model_reduction"]["nonlinear_handling"] = c.eqp ? "eqp" : "tensor";
   config.dict_["sample_collection"]["mode"] = PH == NSLF ? "port" : "basis"; TrainROM(MPI_COMM_WORLD); X.transitions++;
   // bases: orthonormal, containing the snapshots
   for (auto &t : rank) { DenseMatrix B = loadBasis(dir + "/b_" + t.first, t.second); for (int i = 0; i < B.Width(); i++) for (int j = 0; j <= i; j++) { Vector x, y; B.GetColumn(i, x); B.GetColumn(j, y); vc::near(x * y, i == j ? 1 : 0, "basis of " + t.first + " orthonormal", 1, 1e-8); } double top = 0; for (auto &s : snaps[t.first]) for (double x : s) top = max(top, fabs(x)); for (auto &s : snaps[t.first]) { Vector x(s.size()); for (size_t i = 0; i < s.size(); i++) x(i) = s[i]; Vector q(B.Width()), w(s.size()); B.MultTranspose(x, q); B.Mult(q, w); w -= x; vc::near(w.Normlinf(), 0.0, "snapshot in the basis of " + t.first, top, 1e-6); } }
}
// supremizers: orthonormal, with the velocity basis containing the divergence of every pressure basis vector
static void supremizers(const Case &c, const map<string, int> &rank, const map<string, int> &nsup)
{
   Full F(false); auto *st = dynamic_cast<StokesSolver *>(F.s.get()); Array<FiniteElementSpace *> fes; st->GetComponentFESpaces(fes);
   for (size_t k = 0; k < F.comp.size(); k++)
   {
      FiniteElementSpace *u = fes[2 * k], *p = fes[2 * k + 1]; ConstantCoefficient minus(-1.0); MixedBilinearFormDGExtension b(u, p); b.AddDomainIntegrator(new VectorDivergenceIntegrator(minus)); if (c.o.dg) b.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); b.Assemble(); b.Finalize(); const int nu = rank.at(F.comp[k] + "_vel"), np = rank.at(F.comp[k] + "_pres"), ns = nsup.at(F.comp[k]);
      DenseMatrix U = loadBasis(dir + "/b_" + F.comp[k] + "_vel", nu), P = loadBasis(dir + "/b_" + F.comp[k] + "_pres", np), sp; hid_t f = H5Fopen((dir + "/b_" + F.comp[k] + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f >= 0, "no supremizers"); hdf5_utils::ReadDataset(f, "supremizer_basis", sp); H5Fclose(f);
      vc::eq(sp.Width(), ns, "number of supremizers"); vc::eq(sp.Height(), U.Height(), "length of the supremizers"); vector<Vector> all; for (int i = 0; i < nu; i++) { Vector x; U.GetColumn(i, x); all.push_back(x); } for (int i = 0; i < ns; i++) { Vector x; sp.GetColumn(i, x); all.push_back(x); }
      for (size_t i = nu; i < all.size(); i++) for (size_t j = 0; j <= i; j++) vc::near(all[i] * all[j], i == j ? 1 : 0, "supremizers orthonormal", 1, 1e-7);
      for (int i = 0; i < min(ns, np); i++) { Vector x, d(U.Height()), r; P.GetColumn(i, x); d = 0.0; b.SpMat().MultTranspose(x, d); r = d; for (auto &q : all) r.Add(-(q * r), q); vc::near(r.Normlinf(), 0.0, "supremizer of pressure vector " + S(i) + " of " + F.comp[k], max(1e-10, d.Normlinf()), 1e-7); }
   }
   for (int k = 0; k < fes.Size(); k++) delete fes[k];
}
// does Newton's method in the reduced space converge, starting with the projected full-order solution? (only asked when the
// basis does not contain the solution, so that nothing is known about the reduced problem)
static bool newton(Full &F, const Space &V)
{
   Vector x(V.n), w(V.V.Height()), r, q(V.n), q2(V.n); V.V.MultTranspose(F.u, x); auto at = [&](const Vector &z, Vector &o) { V.V.Mult(z, w); F.residual(w, r); V.V.MultTranspose(r, o); };
   for (int it = 0; it < 40; it++)
   {
      at(x, q); const double n = q.Norml2(); if (n < 1e-8) return true; if (!(n < 1e12)) return false; DenseMatrix J(V.n); for (int j = 0; j < V.n; j++) { Vector p(x), m(x); p(j) += 1; m(j) -= 1; Vector a(V.n), b(V.n); at(p, a); at(m, b); for (int i = 0; i < V.n; i++) J(i, j) = (a(i) - b(i)) / 2; }
      if (condOf(J) > 1e12) return false; J.Invert(); J.Mult(q, q2); x -= q2;
   }
   return false;
}
static void oneRun(const Case &c, const Run &r, const map<string, int> &nb, const map<string, int> &nsup, double a, double b, bool complete, Full &F, const Space &V, const string &fomFile)
{
   const string what = r.name() + " a " + S(a) + " b " + S(b) + (complete ? "" : " truncated"); setParams(a, b); config.dict_["main"]["use_rom"] = true; setRun(r); YAML::Node m = config.dict_["model_reduction"];
   if (PH >= NSBASE) { config.dict_["solver"]["use_restart"] = !complete; if (complete) config.dict_["solver"].remove("restart_file"); else config.dict_["solver"]["restart_file"] = fomFile; }
   m["save_linear_system"]["enabled"] = true; m["save_linear_system"]["prefix"] = dir + "/sys"; m["compare_solution"]["enabled"] = r.load > 0; m["compare_solution"]["load_solution"] = r.load == 2; if (r.load == 2) m["compare_solution"]["fom_solution_file"] = fomFile;
   unlink((dir + "/solution.h5").c_str()); unlink((dir + "/out.h5").c_str()); const double err = SingleRun(MPI_COMM_WORLD, dir + "/out.h5"); X.transitions++; if (PH >= NSBASE) config.dict_["solver"]["use_restart"] = false; Vector got; readSolution(dir + "/solution.h5", got); vc::eq(got.Size(), F.f.Size(), what + ": size of the solution");
   double top = 1e-3; for (int i = 0; i < F.u.Size(); i++) top = max(top, fabs(F.u(i))); DenseMatrix AV(F.f.Size(), V.n), R(V.n, V.n); mfem::Mult(F.A, V.V, AV); MultAtB(V.V, AV, R); Vector g(V.n); V.V.MultTranspose(F.f, g);
   // the reduced system
   { DenseMatrix M = readMM(dir + "/sys_mat.mm", V.n); double sc = R.MaxMaxNorm(); for (int i = 0; i < V.n; i++) for (int j = 0; j < V.n; j++) vc::near(M(i, j), R(i, j), what + ": entry " + S(i) + "," + S(j) + " of the reduced matrix", sc, 1e-6); Vector h = readText(dir + "/sys_rhs.txt"); vc::eq(h.Size(), V.n, what + ": size of the reduced right-hand side"); for (int i = 0; i < V.n; i++) vc::near(h(i), g(i), what + ": reduced right-hand side", max(1.0, g.Normlinf()), 1e-6); Vector x = readText(dir + "/sys_sol.txt"), w(got.Size()); vc::eq(x.Size(), V.n, what + ": size of the reduced solution"); V.V.Mult(x, w); for (int i = 0; i < w.Size(); i++) vc::near(got(i), w(i), what + ": solution is not the reduced solution", top, 1e-6); }
   if (complete) { const double tol = PH >= NSBASE ? 1e-5 : 1e-5; for (int i = 0; i < got.Size(); i++) vc::near(got(i), F.u(i), what + ": value " + S(i) + " differs from the full-order solution", top, tol); if (r.load) vc::near(err, 0.0, what + ": reported error", 1, 1e-4); }
   Vector res, q(V.n); F.residual(got, res); V.V.MultTranspose(res, q);
   if (c.eqp == 0 && (PH < NSBASE || complete || !(q.Normlinf() > 1e-7 * max(1.0, R.MaxMaxNorm() * top)) || newton(F, V))) vc::near(q.Normlinf(), 0.0, what + ": residual in the reduced space", max(1.0, R.MaxMaxNorm() * top), 1e-7);
   if (PH < NSBASE) { DenseMatrix I(R); I.Invert(); Vector x(V.n), w(got.Size()); I.Mult(g, x); V.V.Mult(x, w); double t2 = max(top, w.Normlinf()); for (int i = 0; i < w.Size(); i++) vc::near(got(i), w(i), what + ": value " + S(i) + " differs from the Galerkin solution", t2, 1e-5); }
   hid_t f = H5Fopen((dir + "/out.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); Vector e, t1, t2; hdf5_utils::ReadDataset(f, "rel_error", e); hdf5_utils::ReadDataset(f, "rom_solve", t1); hdf5_utils::ReadDataset(f, "fom_solve", t2); H5Fclose(f); vc::eq(e.Size(), F.nv, what + ": stored errors"); vc::eq(e.Max(), err, what + ": returned error"); vc::check(t1(0) >= 0, "time of the reduced solution"); vc::check((t2(0) >= 0) == (r.load == 1), "time of the full-order solution"); if (!r.load) vc::eq(e.Min(), -1.0, "error without comparison");
   vc::Hash h; h.add(V.n).add((int) complete); for (int i = 0; i < got.Size(); i++) h.add(lround(got(i) * 1e5)); X.outcome(h.h);
}
// a restarted reduced solution starts with the best approximation of the stored one, in the reduced space
static void restart(const Run &r, double a, double b, Full &F, const Space &V)
{
   const string what = r.name() + " restarted", file = dir + "/start.h5"; setParams(a, b); config.dict_["main"]["use_rom"] = true; setRun(r); YAML::Node m = config.dict_["model_reduction"]; m["save_linear_system"]["enabled"] = false; m["compare_solution"]["enabled"] = false; m["compare_solution"]["load_solution"] = false;
   Vector u(F.u.Size()), q(V.n), w(F.u.Size()), got; for (int i = 0; i < u.Size(); i++) u(i) = F.u(i) + 0.1 * (((i * 37 + 11) % 17) - 8); { hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(f, "solution", u); H5Fclose(f); }
   const int keep = config.dict_["solver"]["max_iter"] ? config.dict_["solver"]["max_iter"].as<int>() : -1; config.dict_["solver"]["use_restart"] = true; config.dict_["solver"]["restart_file"] = file; config.dict_["solver"]["max_iter"] = 0; unlink((dir + "/solution.h5").c_str()); SingleRun(MPI_COMM_WORLD, ""); X.transitions++;
   config.dict_["solver"]["use_restart"] = false; config.dict_["solver"].remove("restart_file"); if (keep < 0) config.dict_["solver"].remove("max_iter"); else config.dict_["solver"]["max_iter"] = keep; readSolution(dir + "/solution.h5", got); V.V.MultTranspose(u, q); V.V.Mult(q, w); vc::eq(got.Size(), w.Size(), what + ": size"); for (int i = 0; i < w.Size(); i++) vc::near(got(i), w(i), what + ": value " + S(i), max(1.0, w.Normlinf()), 1e-8);
}
static vector<Run> runsOf(const Case &c)
{
   vector<Run> o; vector<string> levels = {"none", "global"}; if (c.g.comp && PH != ADVDIFF) levels.push_back("component"); int n = 0;
   for (auto &l : levels) for (string ord : {"domain", "variable"})
   {
      if (ord == "variable" && !c.sep) continue; vector<array<string, 3>> sv; sv.push_back({{"direct", "us", "none"}}); const bool sym = PH == POISSON || PH == ELAST;
      if (sym) { sv.push_back({{"direct", "spd", "none"}}); for (string p : {"none", "gs", "amg", "block_gs", "block_jacobi"}) sv.push_back({{"cg", "", p}}); sv.push_back({{"minres", "", "none"}}); sv.push_back({{"minres", "", "block_gs"}}); } else if (PH == STOKES) sv.push_back({{"minres", "", "none"}}); if (sym || PH == STOKES) sv.push_back({{"direct", "sid", "none"}});
      for (auto &s : sv) { if (PH >= NSBASE) { if (c.eqp && l != "component") continue; if (PH == NSLF && !c.eqp) continue; o.push_back({l, ord, s[0], s[1], s[2], c.eqp ? "eqp" : "tensor", n++ % 3}); } else o.push_back({l, ord, s[0], s[1], s[2], "", n++ % 3}); }
   }
   return o;
}
static void workflow(const Case &c)
{
   PH = c.o.ph; DIM = dimOf(c.g.k); BC = c.o.bc; POLY = PH >= STOKES && !BC; FAR = DIM == 2 ? 2 : 3; BATTR.clear(); for (int s = 1; s <= 2 * DIM; s++) BATTR.push_back(s); pnu = PH >= NSBASE ? (c.hasDeploy ? 6.0 : 1.7) : 0.7;
   for (int q = 0; q < 2; q++) { Problem P(PH >= NSBASE ? STOKES : PH, c.g.k, c.o.order, 0, q, c.g.X()); PU[q] = P.u; PF[q] = P.f; }
   YAML::Node y = base(c.o, NULL); y["navier-stokes"]["zeta"] = 0.4; y["stokes"]["nu"] = pnu; y["adv-diff"]["peclet_number"] = 1.5; if (PH < NSBASE) { y["solver"]["relative_tolerance"] = 1e-14; y["solver"]["absolute_tolerance"] = 1e-14; y["solver"]["max_iter"] = 20000; }
   with(c.g, y, [&]() {
      map<string, int> rank, nsup; vector<array<double, 2>> params; vector<Vector> sols; train(c, rank, params, sols); const bool sup = c.sep && nvOf[PH] == 2;
      if (sup) { for (auto &t : rank) if (t.first.size() > 5 && t.first.substr(t.first.size() - 5) == "_pres") nsup[t.first.substr(0, t.first.size() - 5)] = t.second; supremizers(c, rank, nsup); }
      if (c.eqp) { config.dict_["model_reduction"]["eqp"]["relative_tolerance"] = 1e-11; config.dict_["model_reduction"]["eqp"]["precompute"] = c.eqp == 2; }
      // sizes of the basis: everything, or less (for linear problems)
      for (int trunc = 0; trunc < (c.eqp ? 1 : sup && !c.hasDeploy && (X.thorough || c.o.bc) ? 3 : 2); trunc++)
      {
         map<string, int> nb = rank, ns = nsup; bool smaller = false; if (trunc == 2) { for (auto &t : ns) if (t.second > 1) { t.second--; smaller = true; } if (!smaller) break; } if (trunc == 1) { for (auto &t : nb) if (t.second > 1 && !(sup && t.first.find("_pres") == string::npos)) { t.second = max(1, t.second - 1); smaller = true; } if (!smaller) break; if (sup) for (auto &t : ns) t.second = nb[t.first + "_pres"]; }
         YAML::Node tags; for (auto &t : nb) { YAML::Node q; q["name"] = t.first; q["number_of_basis"] = t.second; tags.push_back(q); } config.dict_["basis"]["tags"] = tags; YAML::Node keep = YAML::Clone(config.dict_);
         if (trunc == 2) { // fewer supremizers than pressure basis vectors: for all, with exceptions
            const int most = ns.begin()->second; config.dict_["basis"]["number_of_supremizer"] = most; for (auto &t : ns) if (t.second != most) for (size_t k = 0; k < config.dict_["basis"]["tags"].size(); k++) { YAML::Node q = config.dict_["basis"]["tags"][k]; if (q["name"].as<string>() == t.first + "_pres") q["number_of_supremizer"] = t.second; } config.dict_["main"]["use_rom"] = true; AuxiliaryTrainROM(MPI_COMM_WORLD); X.transitions++; supremizers(c, rank, ns); }
         if (c.eqp) { setRun({"component", "domain", "direct", "us", "none", "eqp", 0}); config.dict_["main"]["use_rom"] = true; setParams(params[0][0], params[0][1]); TrainEQP(MPI_COMM_WORLD); X.transitions++; }
         vector<array<double, 2>> at; at.push_back(params[0]); if (params.size() > 1) { at.push_back(params[params.size() - 1]); } if (PH < NSBASE) at.push_back({{-0.3, 2.2}});
         for (int dep = 0; dep < (c.hasDeploy ? 2 : 1); dep++)
         {
            vector<unique_ptr<Full>> fs; for (auto &p : at) { setParams(p[0], p[1]); if (dep) topology(c.deploy); fs.emplace_back(new Full(true)); if (dep) topology(c.g); }
            string built; unique_ptr<Space> V[2]; for (int ord = 0; ord < (c.sep ? 2 : 1); ord++) V[ord].reset(new Space(*fs[0], c.sep, ord, nb, ns)); DenseMatrix AV(fs[0]->f.Size(), V[0]->n), R(V[0]->n, V[0]->n); mfem::Mult(fs[0]->A, V[0]->V, AV); MultAtB(V[0]->V, AV, R); if (condOf(R) > 1e8) { vc::Hash h; h.add(-1).add(trunc).add(dep); X.outcome(h.h); continue; }
            int cnt = 0;
            for (auto &r : runsOf(c))
            {
               if (dep && r.level == "component") topology(c.g);   // elements are built for the training arrangement
               else if (dep) topology(c.deploy);
               if (built != r.level + r.ordering) { config.dict_["main"]["use_rom"] = true; setRun(r); unlink((dir + "/rom.h5").c_str()); setParams(at[0][0], at[0][1]); BuildROM(MPI_COMM_WORLD); X.transitions++; built = r.level + r.ordering; }
               if (dep) topology(c.deploy);
               for (size_t p = 0; p < at.size(); p++) { if ((cnt++ + p) % 2 && !X.thorough && at.size() > 1) continue; string file = dir + "/fom.h5"; { hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(f, "solution", fs[p]->u); H5Fclose(f); } oneRun(c, r, nb, ns, at[p][0], at[p][1], !trunc && !dep && (PH < NSBASE || p < params.size()), *fs[p], *V[r.variable()], file); }
               if (PH >= NSBASE) restart(r, at[0][0], at[0][1], *fs[0], *V[r.variable()]);
            }
         }
         config.dict_ = keep;
      }
   });
}
void vc_main()
{
   { int q = open("/dev/null", O_WRONLY); dup2(q, 1); }
   const bool T = X.thorough; vector<Geo> gs; auto sub = [&](Kind k, int nx, int ny, int nz, const vector<int> &attr, const vector<int> &rot, int shear, const string &n) { Geo g; g.k = k; g.n[0] = nx; g.n[1] = ny; g.n[2] = nz; g.attr = attr; g.rot = rot; g.shear = shear; g.id = string("mesh ") + name(k) + " " + n; gs.push_back(g); };
   sub(QUAD, 2, 2, 1, {1, 2, 2, 1}, {0, 1, 2, 3}, 0, "1221"); sub(QUAD, 3, 2, 1, {1, 2, 3, 1, 2, 3}, {0, 0, 0, 0, 0, 0}, 1, "columns"); sub(TRI, 2, 1, 1, {1, 2, 2, 1}, {0, 1, 2, 0}, 0, "four"); sub(HEX, 2, 1, 1, {1, 2}, {0, 5}, 0, "two");
   auto comp = [&](Kind k, const vector<array<int, 3>> &cells, const vector<int> &of, int flip, const string &n) { Geo g; g.comp = true; g.k = k; g.cells = cells; g.of = of; g.flip = flip; g.gmode = 0; g.ne = dimOf(k) == 2 ? 2 : 1; g.rot = {0, 0, 0, 0}; g.both = true; for (int c = 0; c < 2; c++) { bool f = false; for (int o : of) f |= o == c; if (!f) g.both = false; } g.id = string("components ") + name(k) + " " + n + " flip " + S(flip); return g; };
   const vector<array<int, 3>> two = {{{0, 0, 0}}, {{1, 0, 0}}}, quad = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, ell = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}}, row = {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}}, big = {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}, {{2, 1, 0}}};
   for (Kind k : {QUAD, TRI}) for (int flip = 0; flip < 2; flip++) { gs.push_back(comp(k, two, {0, 1}, flip, "ab")); gs.push_back(comp(k, two, {0, 0}, flip, "aa")); gs.push_back(comp(k, quad, {0, 1, 1, 0}, flip * 5, "abba")); }
   gs.push_back(comp(HEX, two, {0, 1}, 0, "ab")); gs.push_back(comp(TET, two, {0, 0}, 1, "aa")); gs.push_back(comp(QUAD, row, {1, 0, 0}, 0, "baa"));
   for (auto &g : gs) for (int ph = 0; ph < NPHYS; ph++) for (int ord = 1; ord <= 2; ord++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 3; bc++) for (int sep = 0; sep < 2; sep++) for (int eqp = 0; eqp < 3; eqp++)
   {
      const int d = dimOf(g.k); if (d == 3 && (ord > 1 || ph >= STOKES)) continue; if ((ph == ADVDIFF && dg) || (ph >= STOKES && dg && !bc)) continue; if (ord > 1 && (g.k == TRI || ph == ELAST) && !T) continue; if (eqp && (ph < NSBASE || !g.comp)) continue; if (ph == NSLF && (!eqp || bc != 2)) continue; if (ph == ELAST && bc == 2) continue;
      // every combination on three decompositions; on the others order 1, one set of sides, and both discretisations
      const bool full = T || g.id == "mesh quad 1221" || g.id == "components quad abba flip 5" || g.id == "components tri ab flip 1"; if (!full && (ord > 1 || bc != (ph == ELAST ? 1 : 2) || (ph >= STOKES ? sep != dg : sep) || eqp == 2)) continue; if (!T && ph < STOKES && sep && bc) continue;
      Case c; c.g = g; c.o = {(Phys) ph, ord, (bool) dg, 0, bc, 0}; c.sep = sep; c.eqp = eqp; c.gridParams = ph < NSBASE; X.run(id(c), [=]() { workflow(c); });
   }
   // operators of components, put together in another arrangement
   struct D { vector<array<int, 3>> to; vector<int> of; const char *n; vector<int> use; };
   for (Kind k : {QUAD, TRI}) for (int ph = 0; ph < NSLF; ph++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 2; bc++) for (int sep = 0; sep < 2; sep++) for (auto &D0 : vector<D>{{two, {0, 0}, "aa"}, {row, {0, 0, 0}, "aaa"}, {ell, {0, 0, 0}, "aaL"}, {big, {0, 0, 0, 0, 0, 0}, "six"}})
   {
      if ((ph == ADVDIFF && dg) || (ph >= STOKES && dg && !bc)) continue; if (!T && (ph < STOKES ? sep || bc != 1 : sep != dg || bc != 1)) continue; Case c; c.g = comp(k, quad, {0, 0, 0, 0}, 0, "aaaa"); c.deploy = comp(k, D0.to, D0.of, 0, D0.n); c.hasDeploy = true; c.o = {(Phys) ph, 1, (bool) dg, 0, bc, 0}; c.sep = sep; c.gridParams = true; X.run(id(c), [=]() { workflow(c); });
   }
   // two kinds of components, some of them not used, in other orders
   const vector<array<int, 3>> one = {{{0, 0, 0}}};
   for (Kind k : {QUAD, TRI}) for (int ph = 0; ph < NSLF; ph++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 2; bc++) for (int sep = 0; sep < 2; sep++) for (auto &D0 : vector<D>{{one, {1}, "b", {1}}, {two, {1, 1}, "bb", {1}}, {two, {1, 0}, "ba", {1, 0}}, {two, {1, 0}, "ba", {0, 1}}, {row, {1, 1, 0}, "bba", {1, 0}}})
   {
      if ((ph == ADVDIFF && dg) || (ph >= STOKES && dg && !bc)) continue; if (!T && k == TRI) continue; if (!T && (ph < STOKES ? sep || bc != 1 : sep != dg || bc != 1)) continue; Case c; c.g = comp(k, {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}}, {{4, 0, 0}}}, {0, 0, 1, 1, 0}, 0, "aabba"); c.deploy = comp(k, D0.to, D0.of, 0, D0.n); c.deploy.use = D0.use; c.deploy.id += " list"; for (int u : D0.use) c.deploy.id += u ? "b" : "a"; c.hasDeploy = true; c.o = {(Phys) ph, 1, (bool) dg, 0, bc, 0}; c.sep = sep; c.gridParams = true; X.run(id(c), [=]() { workflow(c); });
   }
}
