// C08: residuals of the nonlinear terms are the stated forms, and Jacobians are the derivatives of the residuals.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "nlref.hpp"
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace nlref; using topo::QUAD; using topo::TRI; using topo::HEX; using topo::TET;

static string id(const char *what, const NTerm &t, const Site &s) { return string(what) + " of " + t.name + " on " + mname(s.mode); }
static void note(const NTerm &t, const Vector &y) { vc::Hash h; h.add(t.name); for (int i = 0; i < y.Size(); i++) h.add(y(i)); X.outcome(h.h); }

// the derivative of what the code computes as residual. Forms that are quadratic in the state: central differences are
// exact for any step. Lax-Friedrichs: fourth order differences with a small step, away from ties of the two speeds.
static void differences(Site &s, Made &M, const Vector &x, const DenseMatrix &G, const string &what, bool quadratic)
{
   const int n = s.size(); DenseMatrix D(n); Vector y[4], z(x); const int step = max(1, n / 24);
   for (int j = 0; j < n; j += step)
   {
      double h = quadratic ? 1.0 : 1e-3; double at[4] = {h, -h, 2 * h, -2 * h}; for (int k = 0; k < (quadratic ? 2 : 4); k++) { z(j) = x(j) + at[k]; s.vec(M, z, y[k]); } z(j) = x(j);
      double sc = 1; for (int i = 0; i < n; i++) sc = max(sc, fabs(G(i, j)));
      for (int i = 0; i < n; i++) { double d = quadratic ? (y[0](i) - y[1](i)) / (2 * h) : (8 * (y[0](i) - y[1](i)) - (y[2](i) - y[3](i))) / (12 * h); if (!(fabs(d - G(i, j)) <= (quadratic ? 1e-9 : 1e-6) * sc)) vc::fail(what + ": entry (" + S(i) + "," + S(j) + ") is " + S(G(i, j)) + ", the residual changes by " + S(d)); }
      X.transitions += 2;
   }
   X.checks++;
}

// residual and Jacobian at a state, against the formula
static void exact(Site &s, Made &M, int st, int order, bool setRule)
{
   const IntegrationRule &ir = s.rule(order); M.nl->SetIntRule(setRule ? &ir : NULL); const int n = s.size(); Vector x(n), y, R; DenseMatrix G, J; stateOf(x, s.n1, st); Vector x0(x);
   s.ref(M, ir, x, R, J); s.vec(M, x, y); nearV(y, R, id("residual", M.t, s) + " at state " + stname(st)); s.grad(M, x, G); nearM(G, J, id("Jacobian", M.t, s) + " at state " + stname(st));
   x0 -= x; vc::eq(x0.Normlinf(), 0.0, "the state was changed"); note(M.t, y);
   if (M.t.form == 4 && setRule && st < 4) { Made C(M.t, s.d, s.mode, &ir); Vector y2; DenseMatrix G2; s.vec(C, x, y2); nearV(y2, R, id("residual with the rule given at construction", M.t, s)); s.grad(C, x, G2); nearM(G2, J, id("Jacobian with the rule given at construction", M.t, s)); }
   if (st < 2) { Vector y2; s.vec(M, x, y2); nearV(y2, y, "residual evaluated again", 1e-14); }
}

void vc_main()
{
   config = InputParser(); config.dict_ = YAML::Load("{mesh: {type: submesh}, domain-decomposition: {type: interior_penalty}}");
   const bool T = X.thorough; const vector<NTerm> dt = domainTerms(false), ft = faceTerms(false); const vector<int> kinds = {SEG1, QUAD, TRI, HEX, TET};
   // ---- elements, interior faces, boundary faces and interfaces of two boxes: kinds, orders, shapes, local vertex orders, every term, every state
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) { if (k == SEG1 && mode == INTF) continue;
      Mesh b0 = boxOf(k, 2); const int R = topo::rotations(b0.GetElementBaseGeometry(0)).size(), cnt = Site::count(k, mode); const bool big = kdim(k) == 3;
      for (int p1 = 1; p1 <= (big && !T ? 2 : 3); p1++) for (int p2 = 1; p2 <= (mode == FACE || mode == INTF ? (big && !T ? 2 : 3) : 1); p2++) for (int bend = 0; bend < (k == SEG1 ? 3 : 4); bend++)
         for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < (mode == FACE || mode == INTF ? R : 1); r2++) {
            if (big && !T && (r1 * 5 + r2 * 3 + bend + p1) % (mode == ELEM ? 1 : mode == BDR ? 2 : 12)) continue; if (big && T && (mode == FACE || mode == INTF) && (r1 * 5 + r2 * 3 + bend + p1) % 2) continue; if (!big && !T && (mode == FACE || mode == INTF) && p1 * p2 > 3 && (r1 + r2 + bend) % 2) continue; if (big && p1 * p2 > 4 && (r1 + r2) % 5) continue;
            // 3D: one of the elements or faces per case, going round; 2D: all of them
            X.run(string(kname(k)) + " " + mname(mode) + " orders " + S(p1) + "," + S(p2) + " shape " + S(bend) + " vertex orders " + S(r1) + "," + S(r2), [=]() {
               int w0 = big ? (r1 + 7 * r2 + bend) % cnt : 0, w1 = big ? w0 + 1 : cnt;
               for (int w = w0; w < w1; w++) { Site s(k, mode, p1, p2, bend, {r1, r2}, w); int pm = max(p1, mode == FACE || mode == INTF ? p2 : p1), c = 0;
                  for (auto &t : mode == ELEM ? dt : ft) { if (t.ud && mode != BDR && t.q != 2) continue; Made M(t, s.d, mode); c++;
                     for (int st = 0; st < NSTATE; st++) { if (mode == BDR || mode == ELEM) { if (st == 4 || st == 5) continue; } if (big && (st + c) % 3 != w % 3) continue; exact(s, M, st, max(2, 3 * pm), true); } } } }); } }
   // ---- higher orders, unequal orders, and elements that are small or large
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) { if (k == SEG1 && mode == INTF) continue; const bool big = kdim(k) == 3, two = mode == FACE || mode == INTF; const int cnt = Site::count(k, mode), top = k == SEG1 ? 7 : big ? 4 : 6;
      for (int p1 = 1; p1 <= top; p1++) for (int p2 = 1; p2 <= (two ? top : 1); p2++) for (int bend : {0, 2, 3, 4, 5}) { if (k == SEG1 && bend > 2) continue; const bool high = max(p1, p2) > (big ? 2 : 3); if (!high && bend < 4) continue; if (two && abs(p1 - p2) > 1 && min(p1, p2) > 1) continue; if (big && !T && (p1 + p2 + bend) % (p1 > 2 || p2 > 2 ? 3 : 2)) continue;
         X.run(string("orders ") + kname(k) + " " + mname(mode) + " " + S(p1) + "," + S(p2) + " shape " + S(bend), [=]() {
            for (int w = 0; w < cnt; w++) { if (w % (big ? 4 : 2) != (p1 + bend) % (big ? 4 : 2) && cnt > 1 && (cnt > 2 || high)) continue; Site s(k, mode, p1, p2, bend, {w + p1, w + bend + 1}, w); int pm = max(p1, two ? p2 : p1), c = w;
               for (auto &t : mode == ELEM ? dt : ft) { if (t.ud && mode != BDR && t.q != 2) continue; c++; if (big && high && c % 3 != p1 % 3) continue; Made M(t, s.d, mode); for (int st = 2; st < NSTATE; st++) { if (!two && (st == 4 || st == 5)) continue; if ((st + c) % (big ? 4 : 2)) continue; exact(s, M, st, big && high ? pm + 2 : 3 * pm, true); } } } }); } }
   // ---- default quadrature: exact on affine elements for constant coefficients
   for (int k : kinds) for (int bend = 0; bend < 2; bend++) for (int p = 1; p <= (kdim(k) == 3 && !T ? 2 : 4); p++) X.run(string("default quadrature on elements ") + kname(k) + " shape " + S(bend) + " order " + S(p), [=]() {
      Mesh b0 = boxOf(k, 2); int ne = b0.GetNE(); for (int e = 0; e < ne; e++) { if (kdim(k) == 3 && e % 3) continue; Site s(k, ELEM, p, p, k == SEG1 ? bend : bend, {e, e + 1}, e); for (auto &t : dt) { if (t.q > 1) continue; if (t.vq) continue; Made M(t, s.d, ELEM); for (int st : {0, 2, 3}) exact(s, M, st, 3 * p, false); } } });
   // faces: the rule of order 1.5(2p-1) integrates a state of lower order exactly
   for (int k : kinds) for (int mode : {FACE, BDR, INTF}) for (int bend = 0; bend < 2; bend++) for (int p = 1; p <= (kdim(k) == 3 ? 3 : 4); p++) { if (k == SEG1 && mode == INTF) continue; X.run(string("default quadrature on ") + mname(mode) + " " + kname(k) + " shape " + S(bend) + " order " + S(p), [=]() {
      int cnt = Site::count(k, mode); for (int w = 0; w < cnt; w++) { if (kdim(k) == 3 && w % 3) continue; Site s(k, mode, p, p, bend, {w, w + 2}, w);
         for (auto &t : ft) { if (t.q != 1 || t.ud) continue; Made M(t, s.d, mode); M.nl->SetIntRule(NULL); const int deg = p >= 3 ? 1 : 0; // p=3: 8 >= 3 + 2, p=4: 11 >= 4 + 2
            Vector x(s.size()), y, R; DenseMatrix J, G; for (int sd = 0; sd < (s.two() ? 2 : 1); sd++) { const FiniteElement *f = sd ? s.f2 : s.f1; Mesh *mm = sd ? s.m2 : s.m1; int e = sd ? s.e2 : s.e1; ElementTransformation *tr = mm->GetElementTransformation(e); for (int i = 0; i < f->GetDof(); i++) { Vector z; tr->Transform(f->GetNodes().IntPoint(i), z); for (int a = 0; a < s.d; a++) { double v = 0.7 - 0.4 * a + 0.9 * sd * (a + 1); if (deg && t.form == 3) for (int q = 0; q < s.d; q++) v += (0.2 * (q + 1) - 0.3 * a * q) * z(q); x((sd ? s.n1 : 0) + a * f->GetDof() + i) = v; } } }
            s.ref(M, s.rule(3 * p), x, R, J); s.vec(M, x, y); nearV(y, R, id("residual", t, s)); if (t.form == 4 && !deg) { s.grad(M, x, G); } } } }); }
   // ---- the Jacobian is the derivative of the residual the code computes, with the default quadrature (which need not be exact), everywhere
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) for (int p1 = 1; p1 <= 3; p1++) for (int bend = 0; bend < (k == SEG1 ? 3 : 4); bend++) { if (k == SEG1 && mode == INTF) continue; X.run(string("differences ") + kname(k) + " " + mname(mode) + " order " + S(p1) + " shape " + S(bend), [=]() {
      int cnt = Site::count(k, mode), c = 0; for (int w = 0; w < cnt; w++) { if (kdim(k) == 3 && w != (bend + p1) % cnt) continue; Site s(k, mode, p1, 1 + (p1 + bend) % 3, bend, {w + bend, w + p1}, w);
         for (auto &t : mode == ELEM ? dt : ft) { if (t.q == 3 || (t.ud && mode != BDR)) continue; Made M(t, s.d, mode); const bool quad = t.form != 4 || (mode == BDR && !t.ud); c++;
            for (int st = 2; st < NSTATE; st++) { if ((st + c) % (T || kdim(k) < 3 ? 2 : 6)) continue; if (s.d == 1 && t.form == 4) continue; Vector x(s.size()); stateOf(x, s.n1, st); if (!quad && (st == 4 || st == 5)) for (int i = 0; i < x.Size(); i++) x(i) += (st == 4) == (i < s.n1) ? 0.01 : 0.5; DenseMatrix G; M.nl->SetIntRule(NULL); s.grad(M, x, G);
               // where the speeds of the two sides tie, the flux has a kink: differences are only taken where no quadrature point is near one
               if (!quad) { bool near_ = false; const IntegrationRule &ir = s.rule((int) ceil(1.5 * (2 * max(s.f1->GetOrder(), s.two() ? s.f2->GetOrder() : 0) - 1))); for (int q = 0; q < ir.GetNPoints(); q++) { FP p = s.point(ir.IntPoint(q)); double v[2] = {0, 0}; for (int sd = 0; sd < 2; sd++) { Vector u(s.d); u = 0.0; if (sd < p.ns) { int n = p.s[sd].N.Size(); for (int a = 0; a < s.d; a++) for (int i = 0; i < n; i++) u(a) += p.s[sd].N(i) * x((sd ? s.n1 : 0) + a * n + i); } else fv(p.x, u); v[sd] = u.Norml2(); } if (fabs(v[0] - v[1]) < 0.05 || min(v[0], v[1]) < 0.02) near_ = true; } if (near_) continue; }
               differences(s, M, x, G, id("Jacobian", t, s) + " at state " + stname(st), quad); } } } }); }
   // ---- nothing remembered: every sequence of evaluations through one object gives what a new object gives
   struct Conf { int k, mode, p1, p2; }; const vector<Conf> cf = {{QUAD, FACE, 1, 2}, {QUAD, BDR, 2, 1}, {QUAD, INTF, 2, 1}, {TRI, FACE, 1, 1}, {TRI, BDR, 1, 1}, {HEX, FACE, 1, 1}, {TET, INTF, 1, 1}, {HEX, BDR, 1, 1}, {SEG1, FACE, 2, 1}, {SEG1, BDR, 1, 1}}; const vector<Conf> ce = {{QUAD, ELEM, 1, 1}, {QUAD, ELEM, 3, 1}, {TRI, ELEM, 2, 1}, {HEX, ELEM, 1, 1}, {TET, ELEM, 2, 1}, {SEG1, ELEM, 2, 1}};
   // operations: (site, residual or Jacobian, state)
   for (int face = 0; face < 2; face++) for (auto &t : face ? ft : dt) { if (t.q == 3) continue; auto &cc = face ? cf : ce; const int n = cc.size(), len = 3;
      // "operations" are explored as a tree: after each prefix the last evaluation is compared
      for (int a0 = 0; a0 < 2 * n; a0++) for (int a1 = 0; a1 < 2 * n; a1++) X.run("history " + t.name + " " + S(a0) + "," + S(a1), [=]() {
         vector<unique_ptr<Site>> st; vector<pair<Vector, DenseMatrix>> want; auto okc = [&](int c) { return !(t.form == 3 && (cc[c].mode == INTF)) && !((t.ud || t.vq) && kdim(cc[c].k) != kdim(cc[a1 / 2].k)) && !(t.ud && cc[c].mode != BDR && kdim(cc[c].k) == 1); };
         if (!okc(a0 / 2) || !okc(a1 / 2)) return; const int d = kdim(cc[a1 / 2].k);
         for (int c = 0; c < n; c++) { st.emplace_back(new Site(cc[c].k, cc[c].mode, cc[c].p1, cc[c].p2, 2 * (cc[c].k != SEG1), {1, 2}, 0)); want.emplace_back(); if (!okc(c)) continue; Site &s = *st.back(); Vector x(s.size()); stateOf(x, s.n1, 2 + c % 6); Made F(t, d, s.mode); s.vec(F, x, want.back().first); Made F2(t, d, s.mode); s.grad(F2, x, want.back().second); }
         for (int a2 = 0; a2 < 2 * n; a2++) { if (!okc(a2 / 2)) continue; if (!T && (a0 + a1 + a2) % 2 && face) continue; Made M(t, d, FACE); int ops[len] = {a0, a1, a2}; for (int i = 0; i < len; i++) { int c = ops[i] / 2; Site &s = *st[c]; Vector x(s.size()), y; DenseMatrix G; stateOf(x, s.n1, 2 + c % 6); if (ops[i] % 2) { s.grad(M, x, G); nearM(G, want[c].second, "Jacobian after other evaluations", 1e-13); } else { s.vec(M, x, y); nearV(y, want[c].first, "residual after other evaluations", 1e-13); } X.transitions++; } } }); }
   // ---- whole forms: domain + interior faces + boundary faces on a mesh, both orderings of the unknowns, through NonlinearForm
   for (int k : {QUAD, TRI, HEX, TET}) for (int p = 1; p <= (kdim(k) == 3 ? 1 : 3); p++) for (int ord = 0; ord < 2; ord++) for (int bend = 0; bend < 4; bend++) for (int set = 0; set < 3; set++) for (int marker = 0; marker < 3; marker++) X.run(string("form ") + kname(k) + " order " + S(p) + " ordering " + S(ord) + " shape " + S(bend) + " terms " + S(set) + " boundaries " + S(marker), [=]() {
      const int nx = marker == 0 && bend < 2 && kdim(k) < 3 ? 5 : 2; Mesh b = topo::box((topo::Kind) k, nx, kdim(k) == 3 ? 1 : nx - nx / 3, 1); Mesh m = topo::rebuild(b, {}, {0, 1, 2, 3, 1}); distort(m, bend); const int d = m.Dimension(); DG_FECollection fec(p, d); FiniteElementSpace fes(&m, &fec, d, ord); NonlinearForm nf(&fes); const NTerm tdom = {"", false, false, 2, set == 0 ? 0 : set == 1 ? 1 : 2, set == 1}, tface = {"", true, false, 2, set == 0 ? 3 : 4, false}, tb = {"", true, set == 2, 2, set == 0 ? 3 : 4, false};
      Made D(tdom, d, ELEM), Fc(tface, d, FACE), B(tb, d, BDR); const int o = 3 * p; const IntegrationRule &ie = IntRules.Get(m.GetElementBaseGeometry(0), o), &iff = IntRules.Get(faceGeom(k), o); D.nl->SetIntRule(&ie); Fc.nl->SetIntRule(&iff); B.nl->SetIntRule(&iff);
      Array<int> mk(m.bdr_attributes.Max()); mk = marker == 0 ? 1 : 0; for (int i = 0; i < mk.Size(); i++) if (marker == 1 && i % 2) mk[i] = 1; nf.AddDomainIntegrator(D.nl.release()); nf.AddInteriorFaceIntegrator(Fc.nl.release()); nf.AddBdrFaceIntegrator(B.nl.release(), mk);
      const int N = fes.GetVSize(); Vector x(N), y(N), R(N), z; irregular(x, 4 + k); R = 0.0; DenseMatrix J(N), G; J = 0.0;
      auto addTo = [&](const Array<int> &vd, const Vector &r, const DenseMatrix &j) { for (int a = 0; a < vd.Size(); a++) { R(vd[a]) += r(a); for (int c = 0; c < vd.Size(); c++) J(vd[a], vd[c]) += j(a, c); } };
      for (int e = 0; e < m.GetNE(); e++) { Array<int> vd; fes.GetElementVDofs(e, vd); Vector xe; x.GetSubVector(vd, xe); Vector r(vd.Size()); DenseMatrix j(vd.Size()); r = 0.0; j = 0.0; for (int q = 0; q < ie.GetNPoints(); q++) domainPoint(m, e, *fes.GetFE(e), ie.IntPoint(q), ie.IntPoint(q).weight, D.dom(), xe, r, j); addTo(vd, r, j); }
      map<int, int> battr; for (int be = 0; be < m.GetNBE(); be++) battr[m.GetBdrElementEdgeIndex(be)] = m.GetBdrAttribute(be);
      for (int f = 0; f < m.GetNumFaces(); f++) { int e1, e2; m.GetFaceElements(f, &e1, &e2); if (e2 < 0 && !mk[battr.at(f) - 1]) continue; Array<int> vd, v2; fes.GetElementVDofs(e1, vd); if (e2 >= 0) { fes.GetElementVDofs(e2, v2); vd.Append(v2); } Vector xe; x.GetSubVector(vd, xe); Vector r(vd.Size()); DenseMatrix j(vd.Size()); r = 0.0; j = 0.0; for (int q = 0; q < iff.GetNPoints(); q++) { FP pt = facePoint(m, f, iff.IntPoint(q), fes.GetFE(e1), e2 >= 0 ? fes.GetFE(e2) : NULL); fluxPoint(pt, pt.ds, e2 >= 0 ? Fc.flux(false) : B.flux(true), xe, r, &j); } addTo(vd, r, j); }
      nf.Mult(x, y); nearV(y, R, "residual of the form"); Operator &g = nf.GetGradient(x); G.SetSize(N); for (int c = 0; c < N; c++) { Vector e(N), col(N); e = 0.0; e(c) = 1; g.Mult(e, col); G.SetCol(c, col); } nearM(G, J, "Jacobian of the form"); nf.Mult(x, z = y); vc::Hash h; for (int i = 0; i < N; i++) h.add(y(i)); X.outcome(h.h); });
}
