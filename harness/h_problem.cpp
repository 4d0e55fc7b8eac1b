// C14: problem definitions. Every problem x every sequence of up to 2 (thorough 3) assignments through every way of
// assigning (by name, by index, in one batch, from the single-run section), against an independent table of what each
// parameter means; every ordered pair of problems one after the other.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "parameterized_problem.hpp"
#include <memory>
#include <limits>
using namespace std; using namespace mfem; using vc::X; using vc::S;
namespace ff = function_factory;
typedef map<string, double> P;
static const double PI = 3.14159265358979323846;

struct Datum { string label; function<ff::GeneralScalarFunction *(ParameterizedProblem &)> sf; function<ff::GeneralVectorFunction *(ParameterizedProblem &)> vf;
   function<vector<double>(const P &, const vector<double> &, double, int)> want; int fixed = 0; };   // fixed: number of components, if not the dimension
struct Spec
{
   string name; vector<pair<string, double>> par;   // names and defaults
   map<string, vector<double>> vals;                // values other than the usual ones
   vector<Datum> data; vector<int> dims = {2, 3}; bool flow = false;
   function<vector<int>(const P &)> battr; function<vector<int>(const P &)> btype; bool adv = false;
   bool typeAtStart = true;
};
enum { Z = 0, D = 1, N = 2 };
static vector<int> iota(int n) { vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i + 1; return v; }
static int typ(BoundaryType t) { return t == BoundaryType::ZERO ? Z : t == BoundaryType::DIRICHLET ? D : t == BoundaryType::NEUMANN ? N : -1; }

static Datum srhs(function<double(const P &, const vector<double> &, double)> w)
{ return {"rhs", [](ParameterizedProblem &p) { return p.scalar_rhs_ptr; }, nullptr, [w](const P &p, const vector<double> &x, double t, int) { return vector<double>{w(p, x, t)}; }, 1}; }
static Datum sbdr(int b, function<double(const P &, const vector<double> &, double)> w)
{ return {"boundary " + S(b), [b](ParameterizedProblem &p) { return p.scalar_bdr_ptr[b]; }, nullptr, [w](const P &p, const vector<double> &x, double t, int) { return vector<double>{w(p, x, t)}; }, 1}; }
typedef function<vector<double>(const P &, const vector<double> &, double, int)> VW;
static Datum vbdr(int b, VW w) { return {"boundary " + S(b), nullptr, [b](ParameterizedProblem &p) { return p.vector_bdr_ptr[b]; }, w}; }
static Datum vrhs(VW w) { return {"rhs", nullptr, [](ParameterizedProblem &p) { return p.vector_rhs_ptr; }, w}; }
static Datum vnone(const string &l, function<ff::GeneralVectorFunction *(ParameterizedProblem &)> f) { return {l, nullptr, f, nullptr}; }

static vector<Spec> specs()
{
   vector<Spec> v;
   auto all1 = [](const P &) { return vector<int>{-1}; };
   {
      Spec s; s.name = "poisson0"; s.par = {{"k", 1}, {"offset", 0}}; s.battr = all1; s.btype = [](const P &) { return vector<int>{Z}; };
      s.data = {srhs([](const P &p, const vector<double> &x, double) { double a = 0; for (double c : x) a += c; return sin(2 * PI * (p.at("k") * a + p.at("offset"))); })};
      v.push_back(s);
   }
   {
      Spec s; s.name = "poisson_component"; for (int d = 0; d < 3; d++) { s.par.push_back({"k" + S(d), 0}); s.par.push_back({"bdr_k" + S(d), 0}); }
      s.par.push_back({"offset", 0.1}); s.par.push_back({"bdr_offset", 0}); s.par.push_back({"bdr_idx", -1});
      s.vals["bdr_idx"] = {0, -1, 2.7, 3, 1};
      s.battr = [](const P &p) { double b = p.at("bdr_idx"); return vector<int>{b < 0 ? -1 : 1 + (int) b}; };
      s.btype = [](const P &) { return vector<int>{D}; };
      for (int q = 0; q < 2; q++)
      {
         string pre = q ? "bdr_" : "";
         auto w = [pre](const P &p, const vector<double> &x, double) { double a = p.at(pre + "offset"); for (size_t d = 0; d < x.size(); d++) a += p.at(pre + "k" + S(d)) * x[d]; return sin(2 * PI * a); };
         s.data.push_back(q ? sbdr(0, w) : srhs(w));
      }
      v.push_back(s);
   }
   {
      Spec s; s.name = "poisson_spiral"; s.par = {{"L", 1}, {"Lw", 0.2}, {"k", 1}, {"s", 0.6}}; s.vals["Lw"] = {0.3, 0.15, 0.8}; s.dims = {2};
      s.battr = all1; s.btype = [](const P &) { return vector<int>{Z}; };
      s.data = {srhs([](const P &p, const vector<double> &x, double) {
         double L = p.at("L"), r = hypot(x[0] - L / 2, x[1] - L / 2), th = atan2(x[1] - L / 2, x[0] - L / 2); if (th < 0) th += 2 * PI;
         double per = p.at("s") * L / 2, best = 1e300;   // three arms, two turns over s*L
         for (int n = -1; n < 2; n++) best = min(best, fabs(r - per * (th / (2 * PI) + n)));
         return exp(-0.5 * best * best / p.at("Lw") / p.at("Lw")) * cos(2 * PI * p.at("k") * best); })};
      v.push_back(s);
   }
   auto b5 = [](const P &) { return iota(5); };
   {
      Spec s; s.name = "channel_flow"; s.par = {{"nu", 1}, {"L", 1}, {"U", 1}, {"x0", 0.5}}; s.vals["L"] = {0.7, -1.4, 2.2}; s.battr = b5;
      s.btype = [](const P &) { return vector<int>{Z, N, Z, D, Z}; };
      VW w = [](const P &p, const vector<double> &x, double, int d) { vector<double> y(d, 0.); double c = (x[1] - p.at("x0")) / p.at("L"); y[0] = p.at("U") * (1 - 4 * c * c); return y; };
      for (int b = 0; b < 5; b++) s.data.push_back(vbdr(b, w));
      s.data.push_back(vnone("rhs", [](ParameterizedProblem &p) { return p.vector_rhs_ptr; })); v.push_back(s);
   }
   for (int q = 0; q < 3; q++)
   {
      Spec s; s.name = q == 0 ? "component_flow" : q == 1 ? "flow_past_array" : "advdiff_flow_past_array"; s.flow = true; s.par = {{"nu", 1}};
      const string xc[3] = {"_x", "_y", "_z"}, uc[3] = {"_u", "_v", "_w"};
      for (int i = 0; i < 3; i++) { s.par.push_back({"u0" + xc[i], 0}); s.par.push_back({"du" + xc[i], 1}); s.par.push_back({"offsets" + xc[i], 0});
         for (int j = 0; j < 3; j++) s.par.push_back({"k" + uc[i] + xc[j], 1}); }
      VW w = [](const P &p, const vector<double> &x, double, int d) {
         const string xc[3] = {"_x", "_y", "_z"}, uc[3] = {"_u", "_v", "_w"}; vector<double> y(d);
         for (int i = 0; i < d; i++) { double a = -p.at("offsets" + xc[i]); for (int j = 0; j < d; j++) a += p.at("k" + uc[i] + xc[j]) * x[j];
            y[i] = p.at("u0" + xc[i]) + p.at("du" + xc[i]) * sin(2 * PI * a) - ff::flow_problem::del_u * (x[i] - ff::flow_problem::x0(i)); }
         return y; };
      for (int b = 0; b < (q ? 5 : 5); b++) s.data.push_back(vbdr(b, w));
      s.data.push_back(vnone("rhs", [](ParameterizedProblem &p) { return p.vector_rhs_ptr; }));
      s.battr = b5;
      auto sides = [](const P &p, int last) { bool r = p.at("u0_x") > 0, u = p.at("u0_y") > 0; return vector<int>{u ? D : N, r ? N : D, u ? N : D, r ? D : N, last}; };
      if (q == 0) s.btype = [](const P &) { return vector<int>{D, D, D, D, Z}; };
      else { s.btype = [=](const P &p) { return sides(p, q == 2 ? N : Z); }; s.typeAtStart = false; }
      if (q == 2)
      {
         s.adv = true; s.par.push_back({"q0", 1}); s.par.push_back({"dq", 0.1}); s.par.push_back({"qoffset", 0}); for (int i = 0; i < 3; i++) s.par.push_back({"qk" + xc[i], 0});
         for (int b = 0; b < 5; b++) s.data.push_back(sbdr(b, [](const P &p, const vector<double> &x, double) { const string xc[3] = {"_x", "_y", "_z"};
            double a = p.at("qoffset"); for (size_t d = 0; d < x.size(); d++) a += p.at("qk" + xc[d]) * x[d]; return p.at("q0") + p.at("dq") * sin(2 * PI * a); }));
      }
      v.push_back(s);
   }
   {
      Spec s; s.name = "backward_facing_step"; s.par = {{"nu", 1}, {"y0", 0}, {"y1", 1}, {"u0", 1}};
      for (int m = 0; m < 2; m++) for (string k : {"amp", "ky", "freq", "t_offset"}) s.par.push_back({k + S(m), 0});
      s.vals["y0"] = {0.1, -0.4, 0.33}; s.vals["y1"] = {1.2, 0.9, -2.};
      s.battr = [](const P &) { return iota(3); }; s.btype = [](const P &) { return vector<int>{D, Z, N}; };
      auto prof = [](const P &p, double y) { double g = p.at("y1") - p.at("y0"); return p.at("u0") * 4 * (y - p.at("y0")) * (p.at("y1") - y) / (g * g); };
      VW w = [prof](const P &p, const vector<double> &x, double t, int d) { vector<double> y(d, 0.); y[0] = prof(p, x[1]);
         for (int m = 0; m < 2; m++) y[1] += p.at("amp" + S(m)) * sin(PI * p.at("ky" + S(m)) * (x[1] - p.at("y0")) / (p.at("y1") - p.at("y0"))) * sin(2 * PI * (p.at("freq" + S(m)) * t + p.at("t_offset" + S(m))));
         return y; };
      for (int b = 0; b < 3; b++) s.data.push_back(vbdr(b, w));
      s.data.push_back({"initial velocity", nullptr, [](ParameterizedProblem &p) { return p.ic_ptr.Size() > 1 ? p.ic_ptr[0] : NULL; }, [prof](const P &p, const vector<double> &x, double, int d) { vector<double> y(d, 0.); if (!(x[1] < p.at("y0"))) y[0] = prof(p, x[1]); return y; }});
      s.data.push_back({"initial pressure", nullptr, [](ParameterizedProblem &p) { return p.ic_ptr.Size() > 1 ? p.ic_ptr[1] : NULL; }, [](const P &, const vector<double> &, double, int) { return vector<double>{0.}; }, 1});
      s.data.push_back(vnone("rhs", [](ParameterizedProblem &p) { return p.vector_rhs_ptr; })); v.push_back(s);
   }
   {
      Spec s; s.name = "lid_driven_cavity"; s.par = {{"nu", 1}, {"u0", 1}, {"L", 1}}; s.vals["L"] = {0.7, 1.4, 2.2}; s.battr = b5; s.btype = [](const P &) { return vector<int>{Z, Z, D, Z, Z}; };
      s.data.push_back(vbdr(2, [](const P &p, const vector<double> &x, double, int d) { vector<double> y(d, 0.); double L = p.at("L"); y[0] = 4 * p.at("u0") * x[0] * (L - x[0]) / (L * L); return y; }));
      s.data.push_back(vnone("rhs", [](ParameterizedProblem &p) { return p.vector_rhs_ptr; })); v.push_back(s);
   }
   for (int q = 0; q < 2; q++)
   {
      Spec s; s.name = q ? "force_driven_corner" : "periodic_flow_past_array"; s.par = {{"nu", 1}, {"fx", 0}, {"fy", 0}, {"fz", 0}};
      if (q) { s.battr = b5; s.btype = [](const P &) { return vector<int>{Z, Z, N, N, Z}; }; for (int b = 2; b < 4; b++) s.data.push_back(vnone("boundary " + S(b), [b](ParameterizedProblem &p) { return p.vector_bdr_ptr[b]; })); }
      else { s.battr = [](const P &) { return vector<int>{5}; }; s.btype = [](const P &) { return vector<int>{Z}; }; }
      s.data.push_back(vrhs([](const P &p, const vector<double> &, double, int d) { vector<double> y = {p.at("fx"), p.at("fy"), p.at("fz")}; y.resize(d); return y; })); v.push_back(s);
   }
   const Datum lam = {"lambda", [](ParameterizedProblem &p) { return p.general_scalar_ptr[0]; }, nullptr, [](const P &p, const vector<double> &, double, int) { return vector<double>{p.at("lambda")}; }, 1};
   const Datum mu = {"mu", [](ParameterizedProblem &p) { return p.general_scalar_ptr[1]; }, nullptr, [](const P &p, const vector<double> &, double, int) { return vector<double>{p.at("mu")}; }, 1};
   auto gv = [](ParameterizedProblem &p) { return p.general_vector_ptr[0]; }; auto vr = [](ParameterizedProblem &p) { return p.vector_rhs_ptr; };
   auto nb = [](int b) { return vnone("boundary " + S(b), [b](ParameterizedProblem &p) { return p.vector_bdr_ptr[b]; }); };
   auto last = [](const vector<double> &, int d, double val) { vector<double> y(d, 0.); y[d - 1] = val; return y; };
   VW disp = [last](const P &p, const vector<double> &x, double, int d) { return last(x, d, -0.2 * x[0] * p.at("rdisp_f")); };
   VW ldisp = [last](const P &p, const vector<double> &x, double, int d) { return last(x, d, -0.2 * (x[d - 1] - 5) * p.at("rdisp_f")); };
   const vector<pair<string, double>> lpar = {{"rdisp_f", 1}, {"lambda", 1}, {"mu", 1}};
   { Spec s; s.name = "linelast_disp"; s.par = lpar; s.battr = [](const P &) { return iota(3); }; s.btype = [](const P &) { return vector<int>{D, D, Z}; };
     s.data = {lam, mu, vbdr(0, disp), vbdr(1, disp), {"initial guess", nullptr, gv, disp}, vnone("rhs", vr)}; v.push_back(s); }
   { Spec s; s.name = "linelast_disp_lcantilever"; s.par = lpar; s.battr = [](const P &) { return iota(3); }; s.btype = [](const P &) { return vector<int>{D, D, N}; };
     s.data = {lam, mu, vbdr(0, ldisp), vbdr(1, ldisp), nb(2), vnone("initial guess", gv), vnone("rhs", vr)}; v.push_back(s); }
   { Spec s; s.name = "linelast_disp_lattice"; s.par = lpar; s.battr = b5; s.btype = [](const P &) { return vector<int>{N, D, N, D, N}; };
     s.data = {lam, mu, nb(0), vbdr(1, disp), nb(2), vbdr(3, disp), nb(4), vnone("initial guess", gv), vnone("rhs", vr)}; v.push_back(s); }
   { Spec s; s.name = "linelast_force_cantilever"; s.par = {{"rforce_f", 1}, {"lambda", 1}, {"mu", 1}}; s.battr = b5; s.btype = [](const P &) { return vector<int>{N, N, N, D, N}; };
     Datum fixedEnd = {"boundary 3 (clamped)", nullptr, nullptr, nullptr};
     s.data = {lam, mu, nb(0), vbdr(1, [last](const P &p, const vector<double> &x, double, int d) { return last(x, d, -0.01 * p.at("rforce_f")); }), nb(2), nb(4), vnone("initial guess", gv), vnone("rhs", vr)};
     // the clamped side stands at x = 0, where its displacement vanishes whatever rdisp_f was left at by another problem
     s.data.push_back({"clamped side", nullptr, [](ParameterizedProblem &p) { return p.vector_bdr_ptr[3]; }, [](const P &, const vector<double> &, double, int d) { return vector<double>(d, 0.); }, -1});
     v.push_back(s); }
   { Spec s; s.name = "linelast_frame_wind"; s.par = {{"lambda", 3846153846.0}, {"mu", 769230769.0}, {"qwind_f", 500}, {"density", 78.5}, {"g", 9.81}}; s.battr = b5; s.btype = [](const P &) { return vector<int>{N, N, N, D, N}; };
     s.data = {lam, mu, vbdr(0, [](const P &p, const vector<double> &, double, int d) { vector<double> y(d, 0.); y[0] = p.at("qwind_f"); return y; }), nb(1), nb(2),
               vbdr(3, [](const P &, const vector<double> &, double, int d) { return vector<double>(d, 0.); }), nb(4), vnone("initial guess", gv),
               vrhs([last](const P &p, const vector<double> &x, double, int d) { return last(x, d, -p.at("density") * p.at("g")); })}; v.push_back(s); }
   {
      Spec s; s.name = "linelast_cwtrain"; s.battr = b5; s.btype = [](const P &) { return vector<int>{N, N, N, D, N}; };
      for (string k : {"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "b_fx", "b_fy"}) s.par.push_back({k, 0});
      for (string k : {"lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy", "bx", "by"}) { s.par.push_back({k, 0}); s.vals[k] = {0.49, 0.5, 1}; }
      for (string k : {"xu", "xf", "yu", "yf", "bxf", "byf"}) { s.par.push_back({k + "_amp", 1}); s.par.push_back({k + "_freq", 1}); s.par.push_back({k + "_offset", 0}); }
      s.par.push_back({"lambda", 1}); s.par.push_back({"mu", 1});
      auto load = [](string side, string cx, string cy, string wx, string wy) { VW w = [=](const P &p, const vector<double> &x, double, int d) { vector<double> y(d, 0.);
         if (p.at(side + "x") >= 0.5) y[0] = p.at(cx) + p.at(wx + "_amp") * sin(PI * p.at(wx + "_freq") * (x[0] / 3 + 2 * p.at(wx + "_offset")));
         if (p.at(side + "y") >= 0.5) y[1] = p.at(cy) + p.at(wy + "_amp") * sin(PI * p.at(wy + "_freq") * (x[1] / 3 + 2 * p.at(wy + "_offset")));
         return y; }; return w; };
      s.data = {lam, mu, vbdr(0, load("d", "d_fx", "d_fy", "xf", "yf")), vbdr(1, load("r", "r_fx", "r_fy", "xf", "yf")), vbdr(2, load("u", "u_fx", "u_fy", "xf", "yf")), vbdr(3, load("l", "l_ux", "l_uy", "xu", "yu")), nb(4),
                vrhs(load("b", "b_fx", "b_fy", "bxf", "byf")), vnone("initial guess", gv)};
      v.push_back(s);
   }
   return v;
}

static const vector<vector<double>> pts = {{0.3, 0.8, -0.4}, {-1.1, 0.25, 2.3}};
static const double times[2] = {0.0, 1.37};
// further points: a grid around and beyond the unit box, and both sides of the positions given by the parameters
static vector<vector<double>> more(const P &cur)
{
   vector<vector<double>> v = pts; const double g[5] = {-0.35, 0.13, 0.45, 0.95, 1.6}; int k = 0; for (double a : g) for (double b : g) v.push_back({a, b, g[(k++ * 3 + 1) % 5] * 0.9 + 0.04});
   for (auto &n : {"y0", "y1", "L"}) if (cur.count(n)) for (double e : {-0.3, -4e-3, 4e-3}) for (int d = 0; d < 2; d++) { vector<double> x = {0.37, 0.62, -0.2}; x[d] = cur.at(n) + e; v.push_back(x); }
   return v;
}

// all data of the problem at all points, and its boundary types
static void verify(const Spec &s, ParameterizedProblem &p, const P &cur, const string &after, bool types, bool deep)
{
   for (auto &f : s.data) if (!f.want)
      vc::check(f.vf(p) == NULL, after + ": " + f.label + " is not defined for this problem");
   for (int dim : s.dims)
   {
      if (s.flow) { ff::flow_problem::del_u = 0.3; ff::flow_problem::x0.SetSize(dim); for (int d = 0; d < dim; d++) ff::flow_problem::x0(d) = 0.2 - 0.7 * d; }
      const auto P_ = deep ? more(cur) : pts;
      for (size_t q = 0; q < P_.size(); q++)
      {
         vector<double> x(P_[q].begin(), P_[q].begin() + dim); const double t = times[q % 2] * (q < 2 ? 1 : 0.4 + 0.3 * (q % 5));
         for (auto &f : s.data) if (f.want)
         {
            if (f.fixed == -1) x[0] = 0;
            const int n = f.fixed > 0 ? f.fixed : dim; auto w = f.want(cur, x, t, n); Vector xv(x.data(), dim); auto x0 = x;
            for (int rep = 0; rep < (deep ? 2 : 1); rep++)
            {
               vector<double> got(n);
               if (f.sf) { auto g = f.sf(p); vc::check(g != NULL, after + ": no function for " + f.label); got[0] = g(xv, t); }
               else
               {
                  auto g = f.vf(p); vc::check(g != NULL, after + ": no function for " + f.label);
                  vector<double> mem(n + 2, rep ? 7.5 : numeric_limits<double>::quiet_NaN()); mem[0] = mem[n + 1] = 42; Vector y(mem.data() + 1, n);
                  g(xv, t, y);
                  vc::check(y.Size() == n, after + ": result of " + f.label + " has " + S(y.Size()) + " components of " + S(n));
                  for (int i = 0; i < n; i++) got[i] = y(i);
                  vc::check(mem[0] == 42 && mem[n + 1] == 42, after + ": " + f.label + " wrote outside of its result");
                  if (y.GetData() == mem.data() + 1) for (int i = 0; i < n; i++) vc::check(got[i] == mem[i + 1], "result");
               }
               for (int i = 0; i < n; i++) vc::near(got[i], w[i], after + ": " + f.label + " component " + S(i) + " of " + S(n) + " at point " + S(q) + (rep ? " (again)" : ""), 0, 1e-10);
            }
            vc::check(x == x0, f.label + " changed the position"); if (f.fixed == -1) x[0] = P_[q][0];
         }
      }
   }
   if (cur.count("nu")) vc::eq(ff::flow_problem::nu, cur.at("nu"), after + ": nu");
   if (!types) return;
   auto same = [&](ParameterizedProblem &q, const vector<int> &a, const vector<int> &b, const string &l) {
      vector<int> ga, gb; for (int i = 0; i < q.battr.Size(); i++) ga.push_back(q.battr[i]); for (int i = 0; i < q.bdr_type.Size(); i++) gb.push_back(typ(q.bdr_type[i]));
      vc::eq(vc::str(ga), vc::str(a), after + ": boundary attributes" + l); vc::eq(vc::str(gb), vc::str(b), after + ": boundary types" + l); };
   same(p, s.battr(cur), s.btype(cur), "");
   if (s.adv)
   {
      vc::check(ff::advdiff_problem::flow_problem != NULL, "flow problem of the advection problem");
      auto b = s.btype(cur); b[4] = Z; same(*ff::advdiff_problem::flow_problem, s.battr(cur), b, " of the flow problem");
      vc::check(ff::advdiff_problem::flow_problem->vector_bdr_ptr.Size() == 5, "flow data");
      for (int i = 0; i < 5; i++) vc::check(ff::advdiff_problem::flow_problem->vector_bdr_ptr[i] == p.vector_bdr_ptr[i], "flow data of the flow problem");
   }
}
static void configure(const string &name, const string &extra = "") { config = InputParser(); config.dict_ = YAML::Load("{parameterized_problem: {name: " + name + "}" + extra + "}"); }
static unique_ptr<ParameterizedProblem> make(const Spec &s) { configure(s.name); unique_ptr<ParameterizedProblem> p(InitParameterizedProblem()); return p; }
static vector<double> values(const Spec &s, const string &k) { auto it = s.vals.find(k); return it == s.vals.end() ? vector<double>{0.0, -1.3, 0.7} : it->second; }
// an irregular setting of everything
static P irregular(const Spec &s, int which)
{
   P m; int i = 0; for (auto &p : s.par) { i++; auto it = s.vals.find(p.first); m[p.first] = it != s.vals.end() ? it->second[(i + which) % it->second.size()] : (which ? -1 : 1) * (0.37 + 0.083 * i) + (which && i % 3 == 0 ? 2.1 : 0); }
   return m;
}
static void setAll(const Spec &s, ParameterizedProblem &p, const P &m)
{
   Array<int> idx; Vector v(s.par.size()); int i = 0;
   for (auto &q : m) { idx.Append(p.GetParamIndex(q.first)); v(i++) = q.second; }
   p.SetParams(idx, v);
}
struct Op { string k; double v; };
static const char *ways[] = {"name,name", "name,index", "index,name", "index,index", "batch"};
static void apply(ParameterizedProblem &p, const Op &o, bool byIndex)
{
   if (!byIndex) p.SetParams(o.k, o.v);
   else { Array<int> i(1); i[0] = p.GetParamIndex(o.k); Vector v(1); v(0) = o.v; p.SetParams(i, v); }
   X.transitions++;
}

void vc_main()
{
   config = InputParser(); auto all = specs();
   for (auto &s : all)
   {
      // names, indices, defaults
      X.run(s.name + " parameters", [&]() {
         auto p = make(s); vc::check(p != nullptr, "constructed"); vc::eq(p->GetProblemName(), s.name, "name");
         vc::eq(p->GetNumParams(), (int) s.par.size(), "number of parameters");
         set<int> idx; for (auto &q : s.par) { int i = p->GetParamIndex(q.first); vc::check(i >= 0 && i < p->GetNumParams(), q.first + " has index " + S(i)); idx.insert(i); }
         vc::eq(idx.size(), s.par.size(), "different indices");
         P cur(s.par.begin(), s.par.end()); verify(s, *p, cur, "at first", s.typeAtStart, true);
         for (int w = 0; w < 2; w++) { cur = irregular(s, w); setAll(s, *p, cur); verify(s, *p, cur, "all set", true, true); }
         auto p2 = make(s); cur = P(s.par.begin(), s.par.end()); verify(s, *p2, cur, "constructed again", s.typeAtStart, true);
         setAll(s, *p2, cur); verify(s, *p2, cur, "set to the defaults", true, true);
         // the defaults again after everything was changed, each showing once the switches are on
         for (int w = 0; w < 2; w++) for (int k = 0; k < 3; k++)
         {
            setAll(s, *p2, irregular(s, w)); auto p3 = make(s); cur = P(s.par.begin(), s.par.end()); bool any = false;
            for (auto &q : s.par) if (s.vals.count(q.first)) { any = true; cur[q.first] = values(s, q.first)[k % values(s, q.first).size()]; p3->SetParams(q.first, cur[q.first]); X.transitions++; }
            verify(s, *p3, cur, any ? "constructed again, switches on" : "constructed again after all was set", any || s.typeAtStart, true);
         }
         for (string bad : {"nope", "", "K", "k_"}) { int st = vc::in_child([&]() { p2->SetParams(bad, 1.); }); vc::check(!vc::child_ok(st), "unknown parameter '" + bad + "' accepted"); }
         int st = vc::in_child([&]() { p2->GetParamIndex("nope"); }); vc::check(!vc::child_ok(st), "index of an unknown parameter");
      });
      // from the single-run section: all subsets of up to two, and all
      X.run(s.name + " single run", [&]() {
         auto p = make(s); P base = irregular(s, 0);
         auto one = [&](const vector<Op> &o) { setAll(s, *p, base); P cur = base; string y = ", single_run: {" + s.name + ": {"; for (auto &q : o) { char b[64]; snprintf(b, sizeof b, "%.17g", q.v); y += (&q == &o[0] ? "" : ", ") + q.k + ": " + b; cur[q.k] = q.v; }
            configure(s.name, y + "}, other: {" + s.par[0].first + ": 99}}"); p->SetSingleRun(); X.transitions++; verify(s, *p, cur, "single run of " + S(o.size()), true, false); };
         for (auto &a : s.par) for (double va : values(s, a.first)) { one({{a.first, va}}); }
         for (auto &a : s.par) for (auto &b : s.par) if (a.first != b.first) one({{a.first, values(s, a.first)[1]}, {b.first, values(s, b.first)[2]}});
         vector<Op> o; for (auto &q : irregular(s, 1)) o.push_back({q.first, q.second}); one(o);
         configure(s.name, ", single_run: {other: {k: 1}}"); int st = vc::in_child([&]() { p->SetSingleRun(); }); vc::check(!vc::child_ok(st), "single run without its section accepted");
         configure(s.name, ", single_run: {" + s.name + ": {nope: 1}}"); st = vc::in_child([&]() { p->SetSingleRun(); }); vc::check(!vc::child_ok(st), "single run with an unknown parameter accepted");
      });
      // histories
      vector<Op> ops; for (auto &q : s.par) for (double v : values(s, q.first)) ops.push_back({q.first, v});
      for (int start = 0; start < 3; start++) for (auto &q : s.par)
         X.run(s.name + " start" + S(start) + " first " + q.first, [&]() {
            auto p = make(s); P base = start == 2 ? P(s.par.begin(), s.par.end()) : irregular(s, start); vc::Hash h; h.add(s.name).add(start).add(q.first);
            for (double v : values(s, q.first))
            {
               Op a{q.first, v};
               for (int byi = 0; byi < 2; byi++) { setAll(s, *p, base); apply(*p, a, byi); P cur = base; cur[a.k] = a.v; verify(s, *p, cur, a.k + "=" + S(a.v), true, true); }
               for (auto &b : ops) for (int w = 0; w < 5; w++)
               {
                  setAll(s, *p, base); P cur = base; cur[a.k] = a.v; cur[b.k] = b.v;
                  if (w < 4) { apply(*p, a, w / 2); apply(*p, b, w % 2); }
                  else { Array<int> i(2); i[0] = p->GetParamIndex(a.k); i[1] = p->GetParamIndex(b.k); Vector vv(2); vv(0) = a.v; vv(1) = b.v; p->SetParams(i, vv); X.transitions++; }
                  verify(s, *p, cur, a.k + "=" + S(a.v) + " then " + b.k + "=" + S(b.v) + " (" + ways[w] + ")", true, false);
                  h.add(cur[b.k]); X.outcome(h.h);
                  if (w == 0 && X.thorough && ops.size() < 80) for (auto &c : ops)
                  {
                     P c3 = cur; c3[c.k] = c.v; setAll(s, *p, base); apply(*p, a, 0); apply(*p, b, 1); apply(*p, c, 0);
                     verify(s, *p, c3, a.k + "=" + S(a.v) + " then " + b.k + "=" + S(b.v) + " then " + c.k + "=" + S(c.v), true, false);
                  }
               }
            }
         });
      // one problem after another, in both ways of overlapping
      for (auto &t : all) X.run(s.name + " then " + t.name, [&]() {
         for (int overlap = 0; overlap < 2; overlap++)
         {
            auto p = make(s); setAll(s, *p, irregular(s, 1)); unique_ptr<ParameterizedProblem> keep;
            if (overlap) keep = move(p); else p.reset();
            auto q = make(t); P cur(t.par.begin(), t.par.end()); verify(t, *q, cur, t.name + " after " + s.name, t.typeAtStart, true);
            cur = irregular(t, 0); setAll(t, *q, cur); verify(t, *q, cur, t.name + " after " + s.name + ", all set", true, true); X.transitions += 3;
         }
      });
   }
   X.run("unknown problem", [&]() {
      for (string n : {"nope", "poisson", "Poisson0", "linelast", "poisson0 "})
      { int st = vc::in_child([&]() { config = InputParser(); config.dict_["parameterized_problem"]["name"] = n; InitParameterizedProblem(); }); vc::check(!vc::child_ok(st), "unknown problem '" + n + "' accepted"); }
      int st = vc::in_child([&]() { config = InputParser(); config.dict_ = YAML::Load("{a: 1}"); InitParameterizedProblem(); }); vc::check(!vc::child_ok(st), "configuration without a problem accepted");
   });
}
