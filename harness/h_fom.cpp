// Full-order solvers: the solution of every (bounded) problem with a polynomial solution is that polynomial, however the
// domain is divided, and a fully discontinuous discretisation gives the same solution for every division.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "fom.hpp"

static void setData(MultiBlockSolver *s, Phys ph, const Problem &P, const function<bool(int)> &neumann)
{
   s->InitVariables(); auto &ga = s->global_bdr_attributes;
   for (int b = 0; b < ga.Size(); b++)
   {
      const bool N = neumann(ga[b]); s->SetBdrType(N ? BoundaryType::NEUMANN : BoundaryType::DIRICHLET, b);
      if (ph == ELAST) { if (N) s->AddBCFunction(function<void(const Vector &, double, Vector &)>([P](const Vector &x, double, Vector &t) { P.traction(x, t); }), ga[b]); else s->AddBCFunction(vect(P.u), ga[b]); }
      else if (N) continue; else if (ph <= ADVDIFF) s->AddBCFunction(scalar(P.u[0]), ga[b]); else s->AddBCFunction(vect(P.u), ga[b]);
   }
   if (ph <= ADVDIFF) dynamic_cast<PoissonSolver *>(s)->AddRHSFunction(scalar(P.f[0])); else if (ph == ELAST) { auto *e = dynamic_cast<LinElastSolver *>(s); e->AddRHSFunction(vect(P.f)); for (int m = 0; m < e->numSub; m++) { delete e->lambda_c[m]; delete e->mu_c[m]; e->lambda_c[m] = new ConstantCoefficient(P.lambda); e->mu_c[m] = new ConstantCoefficient(P.mu); } } else dynamic_cast<StokesSolver *>(s)->AddRHSFunction(vect(P.f));
   if (ph == ADVDIFF) { auto *a = dynamic_cast<AdvDiffSolver *>(s); auto F = vect(P.flow); if (a->numSub % 2) a->SetFlowAtSubdomain(F); else for (int m = a->numSub - 1; m >= 0; m--) a->SetFlowAtSubdomain(F, m); }
}
static void solve(MultiBlockSolver *s) { s->BuildOperators(); s->SetupBCOperators(); s->Assemble(); vc::check(s->Solve(), "the solver did not converge"); X.transitions++; }
static void compare(MultiBlockSolver *s, Phys ph, const Problem &P, bool gauge, double tol)
{
   const int nv = s->GetNumVar(); double mean = 0; int np = 0; double pmax = 1, got_mean = 0;
   VectorFunctionCoefficient ue(P.dim, vect(P.u)); FunctionCoefficient se(scalar(P.u[0])), pe(scalar(P.p));
   if (nv == 2) for (int m = 0; m < s->GetNumSubdomains(); m++) { GridFunction e(s->GetGridFunction(m * nv + 1)->FESpace()); e.ProjectCoefficient(pe); mean += e.Sum(); np += e.Size(); pmax = max(pmax, e.Normlinf()); got_mean += s->GetGridFunction(m * nv + 1)->Sum(); }
   mean = np ? mean / np : 0; if (gauge) vc::near(got_mean / np, 0.0, "mean of the pressure values", 0, 1e-6); vc::Hash h;
   for (int m = 0; m < s->GetNumSubdomains(); m++)
   {
      GridFunction *g = s->GetGridFunction(m * nv), e(g->FESpace()); if (ph <= ADVDIFF) e.ProjectCoefficient(se); else e.ProjectCoefficient(ue);
      vc::eq(g->Size(), e.Size(), "solution size"); double sc = max(1.0, e.Normlinf()); for (int i = 0; i < e.Size(); i++) vc::near((*g)(i), e(i), "subdomain " + S(m) + " value " + S(i), sc, tol); for (int i = 0; i < e.Size(); i++) h.add(e(i));
      if (nv == 2) { GridFunction *q = s->GetGridFunction(m * nv + 1), w(q->FESpace()); w.ProjectCoefficient(pe); if (gauge) w -= mean; for (int i = 0; i < w.Size(); i++) vc::near((*q)(i), w(i), "subdomain " + S(m) + " pressure value " + S(i), pmax, 20 * tol); }
   }
   h.add(s->GetNumSubdomains()); X.outcome(h.h);
}
// solutions are files of one vector; reading one into another solver of the same configuration gives it back
static void fileRoundTrip(MultiBlockSolver *s, Phys ph)
{
   Vector before(*s->U); s->save_sol = true; string f = dir + "/sol.h5"; s->SaveSolution(f); (*s->U) = -7.0; s->LoadSolution(f); for (int i = 0; i < before.Size(); i++) vc::eq((*s->U)(i), before(i), "stored solution");
   BlockVector *c = s->GetSolutionCopy(); Vector err; s->CompareSolution(*c, err); vc::eq(err.Size(), s->GetNumVar(), "errors"); for (int v = 0; v < err.Size(); v++) vc::near(err(v), 0.0, "error of the solution itself", 0, 1e-12);
   // every variable and subdomain once twice as large: the relative error is that share of the norm
   const int nv = s->GetNumVar(), K = s->GetNumSubdomains(); vector<double> n2(nv * K), tot(nv, 0.0);
   for (int i = 0; i < nv * K; i++) { GridFunction *g = s->GetGridFunction(i); Mesh *m = g->FESpace()->GetMesh(); double a = 0; for (int e = 0; e < m->GetNE(); e++) { ElementTransformation *T = m->GetElementTransformation(e); const IntegrationRule &r = IntRules.Get(m->GetElementBaseGeometry(e), 2 * g->FESpace()->GetFE(e)->GetOrder() + 3); for (int q = 0; q < r.GetNPoints(); q++) { T->SetIntPoint(&r.IntPoint(q)); Vector v(g->VectorDim()); if (v.Size() == 1) v = g->GetValue(e, r.IntPoint(q)); else g->GetVectorValue(e, r.IntPoint(q), v); a += r.IntPoint(q).weight * T->Weight() * (v * v); } } n2[i] = a; tot[i % nv] += a; }
   for (int i = 0; i < nv * K; i++) { *c = *s->U; c->GetBlock(i) *= 2.0; s->CompareSolution(*c, err); for (int v = 0; v < nv; v++) if (tot[v] > 1e-10) vc::near(err(v), v == i % nv ? sqrt(n2[i] / tot[v]) : 0.0, "relative error with one block doubled", 0, 1e-6); } delete c;
}
// a restarted Navier-Stokes solution starts with the stored one (no iterations: it is the stored one)
static void restart(MultiBlockSolver *s, Phys ph, bool gauge)
{
   Vector u(*s->U); for (int i = 0; i < u.Size(); i++) u(i) += 0.1 * (((i * 37 + 11) % 17) - 8); const Vector keep(*s->U); const string f = dir + "/start.h5"; *static_cast<Vector *>(s->U) = u; s->save_sol = true; s->SaveSolution(f); (*s->U) = -7.0; YAML::Node y = config.dict_["solver"]; const YAML::Node old = YAML::Clone(y); y["use_restart"] = true; y["restart_file"] = f; y["max_iter"] = 0; s->Solve(); X.transitions++; config.dict_["solver"] = old;
   const int nv = s->GetNumVar(), K = s->GetNumSubdomains(); double mean = 0; int np = 0; for (int m = 0, k = 0; m < K; m++) for (int v = 0; v < nv; v++) for (int i = 0; i < s->U->GetBlock(m * nv + v).Size(); i++, k++) if (v == 1) { mean += u(k); np++; } mean = gauge ? mean / np : 0;
   for (int m = 0, k = 0; m < K; m++) for (int v = 0; v < nv; v++) for (int i = 0; i < s->U->GetBlock(m * nv + v).Size(); i++, k++) vc::near((*s->U)(k), u(k) - (v == 1 ? mean : 0), "restarted value " + S(k), max(1.0, u.Normlinf()), 1e-10);
   *static_cast<Vector *>(s->U) = keep;
}
static void exact(const Geo &g, const Opt &o)
{
   const int d = dimOf(g.k); Problem P(o.ph, g.k, o.order, o.bc, o.sol, g.X());
   with(g, base(o, &P), [&]() {
      unique_ptr<MultiBlockSolver> s(make(o.ph)); const int far = d == 2 ? 2 : 3; bool any = false;
      setData(s.get(), o.ph, P, [&](int ga) { bool r; if (!o.bc) r = false; else if (!g.comp || g.gmode == 0) r = ga == far; else { const int m = (ga - 10) / 10, sd = (ga - 10) % 10; r = sd == far && g.cells[m][0] + 1 == (int) P.X; } any |= r; return r; });
      if (o.bc) vc::check(any, "no side for the natural condition"); solve(s.get());
      compare(s.get(), o.ph, P, o.ph >= STOKES && !any, o.solver ? 2e-6 : 1e-7); fileRoundTrip(s.get(), o.ph);
      if (o.ph >= NSBASE) restart(s.get(), o.ph, !any);
   });
}
// ---- solutions at points, for problems without polynomial solution
struct Pt { array<long, 3> k; bool operator<(const Pt &o) const { return k < o.k; } };
typedef map<Pt, vector<double>> Field;
static void general(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = sin(1.3 * x(0) + k) + 0.7 * cos(2.1 * x(1) - k) * (x.Size() > 2 ? 1 + 0.3 * sin(x(2)) : 1); }
static Field sampled(MultiBlockSolver *s)
{
   Field f; const int nv = s->GetNumVar(); for (int m = 0; m < s->GetNumSubdomains(); m++) { Mesh *M = s->GetGridFunction(m * nv)->FESpace()->GetMesh(); for (int e = 0; e < M->GetNE(); e++) { const IntegrationRule &r = IntRules.Get(M->GetElementBaseGeometry(e), 4); for (int q = 0; q < r.GetNPoints(); q++) { Vector x; M->GetElementTransformation(e)->Transform(r.IntPoint(q), x); Pt p = {{{0, 0, 0}}}; for (int k = 0; k < x.Size(); k++) p.k[k] = lround(x(k) * 1e6); vector<double> v; for (int a = 0; a < nv; a++) { GridFunction *g = s->GetGridFunction(m * nv + a); Vector w(g->VectorDim()); if (w.Size() == 1) w = g->GetValue(e, r.IntPoint(q)); else g->GetVectorValue(e, r.IntPoint(q), w); for (int k = 0; k < w.Size(); k++) v.push_back(w(k)); } vc::check(!f.count(p), "two elements at the same place"); f[p] = v; } } } return f;
}
static Field generalSolution(const Geo &g, const Opt &o)
{
   Field f; const int d = dimOf(g.k); YAML::Node y = base(o, NULL); y["stokes"]["nu"] = 1.7;
   with(g, y, [&]() {
      unique_ptr<MultiBlockSolver> s(make(o.ph)); s->InitVariables(); s->SetBdrType(BoundaryType::DIRICHLET); auto sc = [](const Vector &x, double t) { Vector y(1); general(x, t, y); return y(0); };
      // what flows in flows out, also with the quadrature of the boundary terms
      auto rot = [](const Vector &x, double, Vector &y) { y = 0.0; y(0) = 0.6 - 0.5 * x(1) * x(1); y(1) = 0.4 * x(0) + 0.2 * x(0) * x(0); };
      if (o.ph <= ADVDIFF) { s->AddBCFunction(function<double(const Vector &, double)>(sc)); dynamic_cast<PoissonSolver *>(s.get())->AddRHSFunction(function<double(const Vector &, double)>([sc](const Vector &x, double t) { return 3 * sc(x, t); })); }
      else if (o.ph == ELAST) { auto *e = dynamic_cast<LinElastSolver *>(s.get()); s->AddBCFunction(function<void(const Vector &, double, Vector &)>(general)); e->AddRHSFunction(general); for (int m = 0; m < e->numSub; m++) { delete e->lambda_c[m]; delete e->mu_c[m]; e->lambda_c[m] = new FunctionCoefficient([](const Vector &x) { return 1.5 + 0.3 * sin(x(0)); }); e->mu_c[m] = new FunctionCoefficient([](const Vector &x) { return 0.8 + 0.2 * x(1); }); } }
      else { s->AddBCFunction(function<void(const Vector &, double, Vector &)>(rot)); dynamic_cast<StokesSolver *>(s.get())->AddRHSFunction(general); }
      solve(s.get()); f = sampled(s.get()); });
   return f;
}
static void sameField(const Field &a, const Field &b, double tol)
{
   vc::eq(a.size(), b.size(), "points"); double sc = 1; for (auto &p : b) for (double v : p.second) sc = max(sc, fabs(v)); auto it = b.begin(); for (auto &p : a) { vc::check(p.first.k == it->first.k, "the same points"); for (size_t k = 0; k < p.second.size(); k++) vc::near(p.second[k], it->second[k], "value " + S(k) + " at " + S(p.first.k[0] * 1e-6) + "," + S(p.first.k[1] * 1e-6) + "," + S(p.first.k[2] * 1e-6), sc, tol); ++it; }
}

// all ways to divide n elements, in canonical numbering (first use of each number in increasing order)
static vector<vector<int>> partitions(int n, int maxk) { vector<vector<int>> r; vector<int> a(n); function<void(int, int)> go = [&](int i, int k) { if (i == n) { r.push_back(a); return; } for (int v = 1; v <= min(k + 1, maxk); v++) { a[i] = v; go(i + 1, max(k, v)); } }; go(0, 0); return r; }

void vc_main()
{
   config = InputParser(); const bool T = X.thorough; if (!getenv("VC_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); cout.setstate(ios::failbit); }
   auto allowed = [](const Opt &o) { if (const char *v = getenv("VC_SKIP")) if (strchr(v, (char) (48 + o.ph))) return false; if (o.ph == ADVDIFF && o.dg) return false; if (o.bc && o.ph == NSLF) return false; return true; };
   auto oid = [](const Opt &o) { return string(pname[o.ph]) + " order " + S(o.order) + (o.dg ? " dg" : "") + (o.solver == 0 ? "" : o.solver == 1 ? " iterative" : " amg") + (o.bc ? " natural side" : "") + (o.sol ? " solution " + S(o.sol) : ""); };
   // ---- divided meshes
   for (int k : {QUAD, TRI, HEX, TET})
   {
      vector<Geo> gs; auto add = [&](int nx, int ny, int nz, const vector<int> &attr, int shear, const vector<int> &rot, int refine) { Geo g; g.k = (Kind) k; g.n[0] = nx; g.n[1] = ny; g.n[2] = nz; g.attr = attr; g.shear = shear; g.rot = rot; g.refine = refine; g.id = string(name((Kind) k)) + " " + S(nx) + "x" + S(ny) + (dimOf((Kind) k) == 3 ? "x" + S(nz) : "") + " divided " + vc::str(attr) + (shear ? " sheared " + S(shear) : "") + (refine ? " refined" : ""); gs.push_back(g); };
      if (k == QUAD) { int i = 0; for (auto &a : partitions(4, 4)) add(2, 2, 1, a, i++ % 3, {i % 4, 1, 0, 3}, 0); i = 0; for (auto &a : partitions(6, 3)) { if (!T && i++ % 6) continue; add(3, 2, 1, a, i % 3, {0, i % 4, 2}, 0); } add(2, 1, 1, {2, 1}, 1, {1}, 1); }
      if (k == TRI) { int i = 0; for (auto &a : partitions(4, 3)) add(2, 1, 1, a, i++ % 3, {i % 3, 1, 0}, 0); i = 0; for (auto &a : partitions(8, 4)) { if (i++ % (T ? 40 : 400)) continue; add(2, 2, 1, a, i % 3, {0, i % 3, 2}, 0); } add(1, 1, 1, {2, 1}, 2, {1, 2}, 1); }
      if (k == HEX) { int i = 0; for (auto &a : partitions(4, 4)) { if (!T && i++ % 4) continue; add(2, 2, 1, a, i % 3, {i % 24, 5, 11, 17}, 0); } add(1, 1, 2, {1, 2}, 2, {3, 20}, 0); }
      if (k == TET) { int i = 0; for (auto &a : partitions(6, 2)) { if (i++ % (T ? 3 : 15)) continue; add(1, 1, 1, a, i % 3, {i % 12, 3, 7}, 0); } }
      const int d = dimOf((Kind) k); int count = 0;
      for (auto &g : gs) for (int ph = 0; ph < NPHYS; ph++) for (int ord = 1; ord <= (d == 2 ? (ph >= STOKES ? 2 : 3) : ph >= STOKES ? 1 : 2); ord++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 2; bc++) for (int so = 0; so < 3; so++) for (int sol = 0; sol < 2; sol++)
      {
         Opt o = {(Phys) ph, ord, (bool) dg, so, bc, sol}; if (!allowed(o) || (bc && g.shear)) continue; if (d == 3 && ph >= STOKES && so) continue;
         count++; if (count % (T ? 2 : 4) != 1 && !(so == 0 && sol == 0 && ord == 1 && &g - &gs[0] < 3)) continue;
         X.run(g.id + ": " + oid(o), [=]() { exact(g, o); });
      }
      // the same solution for every division
      for (size_t i = 0; i < gs.size(); i++) for (int ph = 0; ph < NPHYS; ph++) for (int ord = 1; ord <= (d == 2 ? 2 : 1); ord++)
      {
         const Geo g = gs[i]; Opt o = {(Phys) ph, ord, true, 0, 0, 0}; if (!allowed(o)) continue; if (ph >= STOKES && (d == 3 || ord > 1)) continue; if (!T && (i + ph + ord) % 2) continue;
         X.run(g.id + ": " + oid(o) + ", same as undivided", [=]() { Geo w = g; w.attr.assign(g.attr.size(), 1); sameField(generalSolution(g, o), generalSolution(w, o), 1e-6); });
      }
   }
   // ---- components
   struct Grid { const char *n; vector<array<int, 3>> c; vector<int> of; bool full; };
   vector<Grid> gs = {{"ab", {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}, true}, {"aa", {{{1, 0, 0}}, {{0, 0, 0}}}, {0, 0}, true}, {"L aab", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}}, {0, 1, 0}, false}, {"aaaa", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 0, 0, 0}, true}, {"abba", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 1, 1, 0}, true}, {"aba", {{{2, 0, 0}}, {{1, 0, 0}}, {{0, 0, 0}}}, {0, 1, 0}, true}, {"a", {{{0, 0, 0}}}, {0}, true}};
   for (int k : {QUAD, TRI, HEX, TET}) for (size_t gi = 0; gi < gs.size(); gi++) for (int flip = 0; flip < 4; flip++) for (int rotated = 0; rotated < 2; rotated++) for (int gm = 0; gm < 2; gm++)
   {
      const Grid &G = gs[gi]; const int d = dimOf((Kind) k); if (rotated && (d == 3 || k == TRI)) continue; Geo g; g.comp = true; g.k = (Kind) k; g.cells = G.c; g.of = G.of; g.flip = flip; g.gmode = gm; g.ne = d == 2 && flip % 2 ? 2 : 1; g.rot = {flip, 1}; g.both = gi % 2 == 0; if (rotated) for (size_t m = 0; m < G.c.size(); m++) g.quarter.push_back((m + flip) % 4);
      if (d == 3 && G.c.size() > 2 && !T) continue; g.id = string("components ") + name((Kind) k) + " " + G.n + " flip " + S(flip) + (rotated ? " turned" : "") + " boundaries " + S(gm); int count = gi * 5 + flip * 3 + rotated * 2 + gm;
      for (int ph = 0; ph < NPHYS; ph++) for (int ord = 1; ord <= (d == 2 ? 2 : 1); ord++) for (int dg = 0; dg < 2; dg++) for (int bc = 0; bc < 2; bc++) for (int so = 0; so < 3; so++)
      {
         Opt o = {(Phys) ph, ord, (bool) dg, so, bc, (flip + ord) % 2}; if (!allowed(o)) continue; if (bc && (!G.full || (rotated && gm == 0))) continue; if (bc && rotated) continue; if (d == 3 && ph >= STOKES && so) continue; if (G.c.size() > 3 && ph >= STOKES && ord > 1 && g.ne > 1) continue;
         count++; if (count % (T ? 2 : 5)) continue; X.run(g.id + ": " + oid(o), [=]() { exact(g, o); });
      }
      if (G.full && !rotated && (k == QUAD || k == HEX) && gm) for (int ph = 0; ph < NPHYS; ph++) { Opt o = {(Phys) ph, 1, true, 0, 0, 0}; if (!allowed(o) || (ph >= STOKES && (d == 3 || G.c.size() > 3))) continue; if (!T && (ph + flip + gi) % 2) continue; X.run(g.id + ": " + oid(o) + ", same as one mesh", [=]() { Geo w; w.k = g.k; int ext[3] = {1, 1, 1}; for (auto &c : g.cells) for (int q = 0; q < 3; q++) ext[q] = max(ext[q], c[q] + 1); for (int q = 0; q < 3; q++) w.n[q] = ext[q] * (q < d ? g.ne : 1); w.attr.assign(w.n[0] * w.n[1] * w.n[2], 1); Geo g1 = g; sameField(generalSolution(g1, o), [&]() { Geo v = w; v.scale = 1.0 / g.ne; return generalSolution(v, o); }(), 1e-6); }); }
   }
}
