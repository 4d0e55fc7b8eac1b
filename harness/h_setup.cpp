// From a problem definition to the data of a solver: every problem on every solver of its kind, on meshes carrying all kinds of
// boundary attribute sets, whole and divided: each side gets exactly the condition the problem states for its attribute.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "comp.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
#include "steady_ns_solver.hpp"
#include "unsteady_ns_solver.hpp"
#include "advdiff_solver.hpp"
#include "parameterized_problem.hpp"
extern "C" int MPI_Abort(MPI_Comm, int) { _exit(3); }
namespace ff = function_factory;

struct G { Kind k; int n[3] = {1, 1, 1}; vector<int> attr, battr; bool hole = false; string id; };
struct Rm { string f; ~Rm() { unlink(f.c_str()); } };
static string file(const G &g)
{
   string f = vc::tmpfile("g") + ".mesh"; Mesh b = box(g.k, g.n[0], g.n[1], g.n[2]); Mesh m = rebuild(b, g.attr, {0, 1, 2});
   for (int i = 0; i < m.GetNBE(); i++) m.SetBdrAttribute(i, g.battr[m.GetBdrAttribute(i) - 1]);
   m.SetAttributes(); for (int i = 0; i < m.GetNV(); i++) { double *v = m.GetVertex(i); v[0] = 0.8 * v[0] + 0.1 * v[1]; v[1] *= 1.3; }
   ofstream o(f); o.precision(17); m.Print(o); return f;
}
enum Kd { SCALAR, ELASTIC, FLOW, ADV };
struct Pb { const char *name; Kd kind; };
static const vector<Pb> problems = {{"poisson0", SCALAR}, {"poisson_component", SCALAR}, {"poisson_spiral", SCALAR}, {"channel_flow", FLOW}, {"component_flow", FLOW}, {"flow_past_array", FLOW}, {"backward_facing_step", FLOW}, {"lid_driven_cavity", FLOW}, {"force_driven_corner", FLOW}, {"periodic_flow_past_array", FLOW}, {"linelast_disp", ELASTIC}, {"linelast_disp_lcantilever", ELASTIC}, {"linelast_disp_lattice", ELASTIC}, {"linelast_force_cantilever", ELASTIC}, {"linelast_cwtrain", ELASTIC}, {"linelast_frame_wind", ELASTIC}, {"advdiff_flow_past_array", ADV}};
// parameters given to a problem
static map<string, double> values(const string &n, int v)
{
   map<string, double> m; if (v == 0) return m;
   if (n == "poisson0") { m["k"] = 0.3 * v; m["offset"] = 0.1; }
   if (n == "poisson_component") { m["k0"] = 0.2; m["bdr_k1"] = 0.4; m["offset"] = 0.3; m["bdr_idx"] = v == 1 ? 2 : -1; }
   if (n == "poisson_spiral") m["k"] = 2;
   if (n == "channel_flow") { m["nu"] = 2.1; m["U"] = 0.7; }
   if (n == "component_flow" || n == "flow_past_array" || n == "advdiff_flow_past_array") { m["nu"] = 0.7; m["u0_x"] = v == 1 ? 0.8 : -0.3; m["u0_y"] = v == 1 ? -0.4 : 0.9; m["u0_z"] = 0.2; for (string c : {"_u", "_v", "_w"}) for (string x : {"_x", "_y", "_z"}) m["k" + c + x] = 0; for (string x : {"_x", "_y", "_z"}) m["offsets" + x] = 0.1; if (v == 2) m["k_u_y"] = 0.05; if (n[0] == 'a') { m["q0"] = 1.4; m["qk_x"] = 0.2; } }
   if (n == "backward_facing_step") { m["u0"] = 1.4; m["amp0"] = 0.2; m["ky0"] = 1; m["freq0"] = 0.4; m["t_offset0"] = 0.2; }
   if (n == "lid_driven_cavity") { m["u0"] = 1.9; m["L"] = 1.6; m["nu"] = 0.4; }
   if (n == "force_driven_corner" || n == "periodic_flow_past_array") { m["fx"] = 0.3; m["fy"] = -0.2; m["nu"] = 3; }
   if (n.compare(0, 8, "linelast") == 0) { m["lambda"] = 1.7; m["mu"] = 0.45; } if (n.compare(0, 13, "linelast_disp") == 0) m["rdisp_f"] = 0.3 * v;
   return m;
}
static ParameterizedProblem *make(const string &n, int v)
{
   config.dict_["parameterized_problem"]["name"] = n; ParameterizedProblem *p = InitParameterizedProblem();
   for (auto &q : values(n, v)) if (p->param_map.count(q.first)) p->SetParams(q.first, q.second); else if (n.compare(0, 8, "linelast")) vc::fail("problem " + n + " has no parameter " + q.first);
   return p;
}
static MultiBlockSolver *solver(int s) { switch (s) { case 0: return new PoissonSolver; case 1: return new LinElastSolver; case 2: return new StokesSolver; case 3: case 4: return new SteadyNSSolver; case 5: return new UnsteadyNSSolver; default: return new AdvDiffSolver; } }
static const char *sname[] = {"poisson", "elasticity", "stokes", "navier-stokes", "navier-stokes lf", "unsteady", "advection-diffusion"};
// the condition the problem states for an attribute: position in its list, or -1
static int stated(const ParameterizedProblem &p, int attr) { for (int i = 0; i < p.battr.Size(); i++) if (p.battr[i] == attr || p.battr[i] == -1) return i; return -1; }

static function<void(int, const string &, const function<void(const Vector &, ElementTransformation &, const IntegrationPoint &)> &)> none;
template <class F> static void onBdr(MultiBlockSolver *s, int attr, F f)
{
   for (int m = 0; m < s->numSub; m++) { Mesh *M = s->meshes[m]; for (int b = 0; b < M->GetNBE(); b++) if (M->GetBdrAttribute(b) == attr) { ElementTransformation *T = M->GetBdrElementTransformation(b); const IntegrationRule &r = IntRules.Get(M->GetBdrElementBaseGeometry(b), 3); for (int q = 0; q < r.GetNPoints(); q++) { T->SetIntPoint(&r.IntPoint(q)); Vector x; T->Transform(r.IntPoint(q), x); f(x, *T, r.IntPoint(q)); } } }
}
static void checkVector(MultiBlockSolver *s, int attr, VectorCoefficient *c, const function<void(const Vector &, double, Vector &)> &want, const string &what, double t)
{
   vc::check(c != NULL, what + " is missing"); const int d = s->dim; vc::eq(c->GetVDim(), d, what + " dimension"); c->SetTime(t);
   onBdr(s, attr, [&](const Vector &x, ElementTransformation &T, const IntegrationPoint &ip) { Vector g(d), w(d); c->Eval(g, T, ip); want(x, t, w); for (int k = 0; k < d; k++) vc::near(g(k), w(k), what + " component " + S(k)); });
}
static void verify(MultiBlockSolver *s, int kind, ParameterizedProblem &p, Kd kd, const map<string, double> &vals, bool first)
{
   auto &ga = s->global_bdr_attributes; const int d = s->dim; vc::Hash h; bool enclosed = true; h.add(p.problem_name).add((int) kind);
   for (double t : {0.0, 0.37}) for (int b = 0; b < ga.Size(); b++)
   {
      const int i = stated(p, ga[b]); const string what = "condition on attribute " + S(ga[b]); h.add(ga[b]).add(i < 0 ? -1 : (int) p.bdr_type[i]);
      if (i >= 0 && p.battr[i] != -1) vc::eq((int) s->bdr_type[b], (int) p.bdr_type[i], "type of the " + what);
      else if (i < 0 && first) vc::check(s->bdr_type[b] == BoundaryType::NUM_BDR_TYPE, "type of the " + what + ", which is not stated");
      else if (i >= 0 && first) vc::check(s->bdr_type[b] != BoundaryType::NEUMANN || p.bdr_type[i] == BoundaryType::NEUMANN, "type of the " + what);
      const bool dirichlet = i >= 0 && p.bdr_type[i] == BoundaryType::DIRICHLET, zero = i >= 0 && p.bdr_type[i] == BoundaryType::ZERO;
      if (kd == SCALAR || kd == ADV)
      {
         Coefficient *c = dynamic_cast<PoissonSolver *>(s)->bdr_coeffs[b]; if (!dirichlet && !zero) { vc::check(c == NULL, what + " should not exist"); continue; }
         vc::check(c != NULL, what + " is missing"); c->SetTime(t); onBdr(s, ga[b], [&](const Vector &x, ElementTransformation &T, const IntegrationPoint &ip) { vc::near(c->Eval(T, ip), zero ? 0.0 : p.scalar_bdr_ptr[i](x, t), what); });
      }
      else if (kd == FLOW)
      {
         VectorCoefficient *c = dynamic_cast<StokesSolver *>(s)->ud_coeffs[b]; vc::check(dynamic_cast<StokesSolver *>(s)->sn_coeffs[b] == NULL, "unstated traction"); if (!dirichlet && !zero) { vc::check(c == NULL, what + " should not exist"); enclosed = false; continue; }
         auto *f = zero ? NULL : p.vector_bdr_ptr[i]; checkVector(s, ga[b], c, [f](const Vector &x, double t, Vector &y) { if (f) f(x, t, y); else y = 0.0; }, what, t);
      }
      else
      {
         VectorCoefficient *c = dynamic_cast<LinElastSolver *>(s)->bdr_coeffs[b]; auto *f = i < 0 ? NULL : p.vector_bdr_ptr[i]; if (!f) { vc::check(c == NULL, what + " should not exist"); continue; }
         checkVector(s, ga[b], c, [f](const Vector &x, double t, Vector &y) { f(x, t, y); }, what, t);
      }
   }
   // volume data: the sum of all sources
   Vector want(d), got(d), one(d); ElementTransformation *T = s->meshes[0]->GetElementTransformation(0); const IntegrationPoint &ip = IntRules.Get(s->meshes[0]->GetElementBaseGeometry(0), 2).IntPoint(0); T->SetIntPoint(&ip); Vector x; T->Transform(ip, x);
   if (kd == SCALAR || kd == ADV) { double g = 0; for (auto *c : dynamic_cast<PoissonSolver *>(s)->rhs_coeffs) g += c->Eval(*T, ip); vc::near(g, p.scalar_rhs_ptr ? p.scalar_rhs_ptr(x, 0.0) : 0.0, "source"); }
   else
   {
      got = 0.0; want = 0.0; if (p.vector_rhs_ptr) p.vector_rhs_ptr(x, 0.0, want);
      if (kd == FLOW) for (auto *c : dynamic_cast<StokesSolver *>(s)->f_coeffs) { c->Eval(one, *T, ip); got += one; } else for (auto *c : dynamic_cast<LinElastSolver *>(s)->rhs_coeffs) { c->Eval(one, *T, ip); got += one; }
      for (int k = 0; k < d; k++) vc::near(got(k), want(k), "force component " + S(k));
   }
   auto val = [&](const char *n, double def) { auto it = vals.find(n); return it == vals.end() || !p.param_map.count(n) ? def : it->second; };
   if (kd == FLOW) vc::near(dynamic_cast<StokesSolver *>(s)->nu_coeff->Eval(*T, ip), val("nu", 1), "viscosity");
   if (kd == ELASTIC) { auto *e = dynamic_cast<LinElastSolver *>(s); for (int m = 0; m < s->numSub; m++) { ElementTransformation *U = s->meshes[m]->GetElementTransformation(0); U->SetIntPoint(&ip); vc::near(e->lambda_c[m]->Eval(*U, ip), p.general_scalar_ptr[0](x, 0.0), "first parameter"); vc::near(e->mu_c[m]->Eval(*U, ip), p.general_scalar_ptr[1](x, 0.0), "second parameter"); } }
   // an enclosed fluid neither gains nor loses volume
   if (kd == FLOW && enclosed && vals.size() && string(p.problem_name).find("component_flow") == 0)
   {
      double flux = 0, area = 0; auto *f = dynamic_cast<StokesSolver *>(s);
      for (int m = 0; m < s->numSub; m++) { Mesh *M = s->meshes[m]; for (int b = 0; b < M->GetNBE(); b++) { const int g = ga.Find(M->GetBdrAttribute(b)); if (g < 0) continue; FaceElementTransformations *F = M->GetBdrFaceTransformations(b); const IntegrationRule &r = IntRules.Get(F->GetGeometryType(), 8); Vector mid; M->GetElementTransformation(F->Elem1No)->Transform(Geometries.GetCenter(M->GetElementBaseGeometry(F->Elem1No)), mid); for (int q = 0; q < r.GetNPoints(); q++) { F->SetAllIntPoints(&r.IntPoint(q)); Vector n(d), u(d), X1; CalcOrtho(F->Jacobian(), n); F->Transform(r.IntPoint(q), X1); X1 -= mid; if (X1 * n < 0) n *= -1.0; f->ud_coeffs[g]->Eval(u, *F->Elem1, F->GetElement1IntPoint()); flux += r.IntPoint(q).weight * (u * n); area += r.IntPoint(q).weight * n.Norml2(); } } }
      vc::near(flux, 0.0, "net inflow of an enclosed fluid", area, 1e-3 * (val("k_u_y", 0) != 0 ? 1 : 1e-6)); h.add(flux);
   }
   h.add(s->numSub); X.outcome(h.h); X.transitions++;
}
static void configure(const G &g, const string &f, int s, int order)
{
   config.dict_ = YAML::Node(); config.dict_["mesh"]["filename"] = f; config.dict_["discretization"]["order"] = order; config.dict_["solver"]["direct_solve"] = true; config.dict_["visualization"]["enabled"] = false; config.dict_["navier-stokes"]["operator-type"] = s >= 4 && s <= 5 ? "lf" : "base"; if (s == 5) { config.dict_["time-integration"]["number_of_timesteps"] = 1; config.dict_["time-integration"]["timestep_size"] = 0.1; }
}
// at least one side holds the fluid or the solid
// and what flows into an enclosed fluid flows out (what the problems without a correction state for sides which let it through is rejected)
static bool held(const ParameterizedProblem &p, const G &g)
{
   bool open = false, in = false; int sides = 0; const bool fixes = string(p.problem_name).find("component_flow") != string::npos || string(p.problem_name).find("flow_past_array") != string::npos, level = !strcmp(p.problem_name.c_str(), "channel_flow") || !strcmp(p.problem_name.c_str(), "lid_driven_cavity");
   for (size_t k = 0; k < g.battr.size(); k++) { int i = stated(p, g.battr[k]); if (i < 0 || p.bdr_type[i] == BoundaryType::NEUMANN) open = true; else if (p.bdr_type[i] == BoundaryType::DIRICHLET) sides++; if (i < 0 || p.bdr_type[i] == BoundaryType::NEUMANN) continue; if (p.bdr_type[i] == BoundaryType::DIRICHLET && !(level && (g.battr.size() == 4 ? k % 2 == 0 : k != 2 && k != 4))) in = true; }
   if (!open && in && !fixes) return false; if (!open && sides == 1 && fixes) return false;   // nothing flows out elsewhere
   for (int a : g.battr) { int i = stated(p, a); if (i >= 0 && p.bdr_type[i] != BoundaryType::NEUMANN) return true; } return false;
}
// the velocity the transport term sees. (The installed MFEM evaluates grid functions on their own mesh only.)
static void flowAt(AdvDiffSolver &a, int m, int e, const IntegrationPoint &ip, Vector &u)
{
   vc::check(a.flow_coeffs[m] != NULL, "no flow in subdomain " + S(m)); auto *g = dynamic_cast<VectorGridFunctionCoefficient *>(a.flow_coeffs[m]);
   if (g) { const GridFunction *f = g->GetGridFunction(); vc::check(f && f->FESpace()->GetMesh()->GetNE() == a.meshes[m]->GetNE(), "flow of another subdomain"); f->GetVectorValue(e, ip, u); }
   else { ElementTransformation *E = a.meshes[m]->GetElementTransformation(e); E->SetIntPoint(&ip); a.flow_coeffs[m]->Eval(u, *E, ip); }
}
static bool fits(int s, Kd k) { return s == 0 ? k == SCALAR : s == 1 ? k == ELASTIC : s == 6 ? k == ADV : k == FLOW; }

void vc_main()
{
   config = InputParser(); const bool T = X.thorough; if (!getenv("VC_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); cout.setstate(ios::failbit); int e = dup(2); (void) e; mfem::err.SetStream(cout); }
   vector<G> gs; auto add = [&](Kind k, int nx, int ny, const vector<int> &a, const vector<int> &b) { G g; g.k = k; g.n[0] = nx; g.n[1] = ny; g.attr = a; g.battr = b; g.id = string(name(k)) + " divided " + vc::str(a) + " sides " + vc::str(b); gs.push_back(g); };
   for (auto &b : vector<vector<int>>{{1, 2, 3, 4}, {4, 3, 2, 1}, {5, 5, 5, 5}, {3, 5, 1, 2}, {2, 2, 3, 4}, {7, 4, 5, 3}, {1, 1, 1, 1}, {6, 6, 6, 9}, {3, 3, 3, 5}, {2, 1, 2, 3}, {4, 5, 4, 1}})
   { add(QUAD, 2, 2, {1, 1, 1, 1}, b); add(QUAD, 2, 2, {1, 2, 2, 1}, b); add(QUAD, 3, 1, {2, 3, 1}, b); add(TRI, 1, 1, {2, 1}, b); }
   if (T) { vector<int> b(4); for (int c = 0; c < 625; c++) { int q = c; for (int &v : b) { v = 1 + q % 5; q /= 5; } add(QUAD, 2, 1, {1, 2}, b); } }
   for (auto &b : vector<vector<int>>{{1, 2, 3, 4, 5, 6}, {5, 4, 3, 2, 1, 1}, {3, 3, 3, 3, 5, 5}, {9, 1, 7, 2, 8, 3}}) { add(HEX, 1, 1, {1}, b); add(HEX, 2, 1, {2, 1}, b); add(TET, 1, 1, {1, 1, 1, 2, 2, 2}, b); }
   for (auto &g : gs) for (int s = 0; s < 7; s++) for (auto &p : problems) for (int v = 0; v < 3; v++)
   {
      const bool d3 = dimOf(g.k) == 3; if (!fits(s, p.kind)) continue; if (p.kind == ADV && (v == 0 || d3)) continue; if (d3 && string(p.name) == "poisson_spiral") continue;
      if (!T && s >= 3 && s <= 5 && (v + &g - &gs[0]) % 3) continue;
      X.run(string(p.name) + " values " + S(v) + " on " + sname[s] + ": " + g.id, [=]() {
         const string f = file(g); Rm rm{f}; configure(g, f, s, 1); unique_ptr<ParameterizedProblem> pr(make(p.name, v)); if (p.kind >= FLOW && !held(p.kind == ADV ? *ff::advdiff_problem::flow_problem : *pr, g)) return; unique_ptr<MultiBlockSolver> sv(solver(s));
         sv->InitVariables(); sv->SetParameterizedProblem(pr.get()); verify(sv.get(), s, *pr, p.kind, values(p.name, v), true);
         if (s == 6)
         {  // the flow of the advection problem is that of its flow problem
            auto *a = dynamic_cast<AdvDiffSolver *>(sv.get()); const string f2 = file(g); configure(g, f2, 2, 1); StokesSolver st; unlink(f2.c_str()); st.InitVariables(); st.SetParameterizedProblem(ff::advdiff_problem::flow_problem); st.BuildOperators(); st.SetupBCOperators(); st.Assemble(); st.Solve();
            for (int m = 0; m < a->numSub; m++) { Mesh *M = a->meshes[m]; for (int e = 0; e < M->GetNE(); e++) { const IntegrationRule &r = IntRules.Get(M->GetElementBaseGeometry(e), 3); for (int q = 0; q < r.GetNPoints(); q++) { Vector u(a->dim), w(a->dim); flowAt(*a, m, e, r.IntPoint(q), u); st.vels[m]->GetVectorValue(e, r.IntPoint(q), w); for (int k = 0; k < a->dim; k++) vc::near(u(k), w(k), "flow in subdomain " + S(m) + " component " + S(k), 1, 1e-8); } } }
         }
      });
   }
   // stored flow fields
   for (int gi : {0, 1, 2, 3}) for (int v = 1; v < 3; v++)
      X.run("stored flow values " + S(v) + ": " + gs[gi].id, [=]() {
         const G g = gs[gi]; const string flow = vc::tmpfile("flow") + ".h5"; vector<double> got[3];
         for (int round = 0; round < 3; round++)
         {   // stored, loaded (though the problem has changed), computed anew as there is no such file
            const string f = file(g); Rm rm{f}; configure(g, f, 6, 1); config.dict_["adv-diff"]["flow_file"] = flow; if (round == 0) config.dict_["adv-diff"]["save_flow"] = true; else config.dict_["adv-diff"]["load_flow"] = true; if (round == 2) unlink(flow.c_str());
            unique_ptr<ParameterizedProblem> pr(make("advdiff_flow_past_array", round == 1 ? 3 - v : v)); AdvDiffSolver a; a.InitVariables(); a.SetParameterizedProblem(pr.get());
            for (int m = 0; m < a.numSub; m++) { Mesh *M = a.meshes[m]; for (int e = 0; e < M->GetNE(); e++) { const IntegrationRule &r = IntRules.Get(M->GetElementBaseGeometry(e), 2); for (int q = 0; q < r.GetNPoints(); q++) { Vector u(a.dim); flowAt(a, m, e, r.IntPoint(q), u); for (int k = 0; k < a.dim; k++) got[round].push_back(u(k)); } } }
            struct stat sb; vc::eq(stat(flow.c_str(), &sb) == 0, round < 2, "flow file"); X.transitions++;
         }
         for (size_t i = 0; i < got[0].size(); i++) { vc::near(got[1][i], got[0][i], "loaded flow"); vc::near(got[2][i], got[0][i], "computed flow", 1, 1e-8); }
      });
   // one problem after another on the same solver
   for (size_t gi : {0, 1, 3, 9}) for (int s = 0; s < 6; s++) for (auto &p : problems) for (auto &q : problems)
   {
      if (!fits(s, p.kind) || !fits(s, q.kind)) continue; if (!T && s >= 3 && s <= 5 && (&p - &q + gi) % 3) continue;
      X.run(string(p.name) + " then " + q.name + " on " + sname[s] + ": " + gs[gi].id, [=]() {
         const G g = gs[gi]; const string f = file(g); Rm rm{f}; configure(g, f, s, 1); unique_ptr<MultiBlockSolver> sv(solver(s)); sv->InitVariables();
         for (int round = 0; round < 2; round++) { auto &z = round ? q : p; const int v = 1 + (gi + round) % 2; unique_ptr<ParameterizedProblem> pr(make(z.name, v)); if (z.kind >= FLOW && !held(*pr, g)) return; sv->SetParameterizedProblem(pr.get()); verify(sv.get(), s, *pr, z.kind, values(z.name, v), round == 0); }
      });
   }
}
