// C11: block smoothers against a dense reference iteration. All block partitions, zero-block patterns, sweep
// types and iteration counts within bounds; all short histories of SetOperator / Mult.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "block_smoother.hpp"
#include <memory>
using namespace std; using namespace mfem; using vc::X; using vc::S;
typedef vector<vector<double>> M;

static double hv(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u ^ (b + 17) * 40503u ^ (c + 5) * 69069u; h ^= h >> 13; h *= 2246822519u; h ^= h >> 15; return (int(h % 2001) - 1000) / 500.0; }
struct Sys { Array<int> off; unique_ptr<BlockMatrix> b; M d; vector<int> sz; int n; };
// pat: bit (i*nb+j) set = block present (diagonals always are); sub: pattern inside of the blocks (bit k%13 unset = entry absent)
static shared_ptr<Sys> make(const vector<int> &sz, unsigned pat, int seed)
{
   auto s = make_shared<Sys>(); s->sz = sz; int nb = sz.size(); s->off.SetSize(nb + 1); s->off[0] = 0; for (int i = 0; i < nb; i++) s->off[i + 1] = s->off[i] + sz[i];
   s->n = s->off[nb]; s->d.assign(s->n, vector<double>(s->n, 0)); s->b.reset(new BlockMatrix(s->off)); s->b->owns_blocks = 1;
   for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
   {
      if (i != j && !(pat >> (i * nb + j) & 1)) continue;
      SparseMatrix *m = new SparseMatrix(sz[i], sz[j]);
      for (int r = 0; r < sz[i]; r++) for (int c = 0; c < sz[j]; c++)
      {
         double v = hv(seed, s->off[i] + r, s->off[j] + c); if (i == j && r == c) v += 4 + r; if (i != j && (r + 2 * c + seed) % 3 == 1) continue;
         if (i == j && r != c && seed % 3 == 2) continue;   // diagonal diagonal blocks too
         m->Set(r, c, v); s->d[s->off[i] + r][s->off[j] + c] = v;
      }
      m->Finalize(); s->b->SetBlock(i, j, m);
   }
   return s;
}
static vector<double> solve(M a, vector<double> r) { int n = r.size(); for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabs(a[i][k]) > fabs(a[p][k])) p = i; swap(a[k], a[p]); swap(r[k], r[p]); for (int i = k + 1; i < n; i++) { double f = a[i][k] / a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f * a[k][j]; r[i] -= f * r[k]; } } for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) r[k] -= a[k][j] * r[j]; r[k] /= a[k][k]; } return r; }
static void update(const Sys &s, int i, const vector<double> &x, vector<double> &y)
{
   int o = s.off[i], z = s.sz[i]; M a(z, vector<double>(z)); vector<double> r(z);
   for (int p = 0; p < z; p++) { r[p] = x[o + p]; for (int q = 0; q < s.n; q++) if (q < o || q >= o + z) r[p] -= s.d[o + p][q] * y[q]; for (int q = 0; q < z; q++) a[p][q] = s.d[o + p][o + q]; }
   r = solve(a, r); for (int p = 0; p < z; p++) y[o + p] = r[p];
}
static vector<double> refGS(const Sys &s, int type, int it, const vector<double> &x, vector<double> y)
{
   for (int k = 0; k < it; k++) { if (type != 2) for (int i = 0; i < (int) s.sz.size(); i++) update(s, i, x, y); if (type != 1) for (int i = (int) s.sz.size() - 1; i >= 0; i--) update(s, i, x, y); }
   return y;
}
static vector<double> refJ(const Sys &s, const vector<double> &x) { vector<double> y(s.n, 0.0), z; vector<double> o(s.n); for (int i = 0; i < (int) s.sz.size(); i++) { z.assign(s.n, 0.0); update(s, i, x, z); for (int p = s.off[i]; p < s.off[i + 1]; p++) o[p] = z[p]; } return o; }
static vector<double> vec(int n, int seed) { vector<double> v(n); for (int i = 0; i < n; i++) v[i] = hv(seed, i, 99) + 0.25; return v; }
static Vector toV(const vector<double> &v) { Vector o(v.size()); for (size_t i = 0; i < v.size(); i++) o[i] = v[i]; return o; }
static void cmp(const Vector &g, const vector<double> &w, const string &m) { vc::eq(g.Size(), (int) w.size(), m + " size"); double sc = 0; for (double v : w) sc = max(sc, fabs(v)); for (size_t i = 0; i < w.size(); i++) vc::near(g[i], w[i], m + " entry " + S(i), sc); }
static vector<double> mul(const Sys &s, const vector<double> &x) { vector<double> y(s.n, 0.0); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) y[i] += s.d[i][j] * x[j]; return y; }

static void one(const vector<int> &sz, unsigned pat, int seed)
{
   X.run("blocks " + vc::str(sz) + " pattern " + S(pat) + " seed " + S(seed), [=]() {
      auto s = make(sz, pat, seed); auto x = vec(s->n, seed + 3), y0 = vec(s->n, seed + 8); Vector vx = toV(x); const Vector vx0(vx);
      for (int type = 0; type < 3; type++) for (int it = 1; it <= 3; it++) for (int mode = 0; mode < 2; mode++)
      {
         BlockGSSmoother g(*s->b, type, it); g.iterative_mode = mode; vc::eq(g.Height(), s->n, "height"); vc::eq(g.Width(), s->n, "width");
         auto w = refGS(*s, type, it, x, mode ? y0 : vector<double>(s->n, 0.0));
         Vector y = toV(y0); g.Mult(vx, y); cmp(y, w, "Gauss-Seidel type " + S(type) + " iterations " + S(it) + (mode ? " iterative" : ""));
         y = toV(y0); g.Mult(vx, y); cmp(y, w, "second application"); X.transitions += 2;
         cmp(vx, vector<double>(vx0.GetData(), vx0.GetData() + s->n), "right-hand side changed");
         // the exact solution is a fixed point
         if (mode) { auto b = mul(*s, y0); Vector vb = toV(b); y = toV(y0); g.Mult(vb, y); cmp(y, y0, "fixed point"); X.transitions++; }
         vc::Hash h; for (double v : w) h.add(v); X.outcome(h.h);
      }
      BlockDSmoother j(*s->b); j.iterative_mode = false; Vector y = toV(y0); j.Mult(vx, y); cmp(y, refJ(*s, x), "Jacobi"); y = toV(y0); j.Mult(vx, y); cmp(y, refJ(*s, x), "Jacobi again"); X.transitions += 2;
      // single sweeps called directly
      BlockGSSmoother g(*s->b); y = toV(y0); g.BlockGaussSeidelForw(vx, y); cmp(y, refGS(*s, 1, 1, x, y0), "forward sweep"); g.BlockGaussSeidelBack(vx, y); cmp(y, refGS(*s, 2, 1, x, refGS(*s, 1, 1, x, y0)), "backward sweep after forward");
      // the operator itself is left alone
      M d2 = s->d; for (int a = 0; a < s->n; a++) { Vector e(s->n), c(s->n); e = 0.0; e[a] = 1; s->b->Mult(e, c); for (int r = 0; r < s->n; r++) vc::eq(c[r], s->d[r][a], "the operator was changed"); }
   });
}

static void big(int nb, int kind, int shape)
{
   X.run("many blocks " + S(nb) + " pattern " + S(kind) + " sizes " + S(shape), [=]() {
      vector<int> sz; for (int i = 0; i < nb; i++) sz.push_back(shape == 0 ? 1 : shape == 1 ? 1 + i % 3 : shape == 2 ? 1 + (nb - i) / 2 : (i % 4 == 1 ? 9 : 2));
      auto s = make(sz, 0xffffffffu, 3); // make() holds patterns of few blocks only: drop blocks here
      auto s2 = make_shared<Sys>(); s2->sz = sz; s2->n = s->n; s2->off = s->off; s2->d.assign(s->n, vector<double>(s->n, 0)); s2->b.reset(new BlockMatrix(s2->off)); s2->b->owns_blocks = 1;
      for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
      {
         bool in = i == j || kind == 0 || (kind == 1 && abs(i - j) == 1) || (kind == 2 && (i == 0 || j == 0)) || (kind == 3 && j < i) || (kind == 4 && j > i) || (kind == 5 && (j == (i + 1) % nb)) || (kind == 6 && (i * 7 + j * 3) % 4 == 1) || (kind == 7 && (i == nb - 1 || j == nb - 1)); if (!in) continue;
         SparseMatrix *m = new SparseMatrix(sz[i], sz[j]); const double sc = i == j ? 1 : 2.0 / s->n;
         for (int r = 0; r < sz[i]; r++) for (int c = 0; c < sz[j]; c++) { double v = sc * hv(nb, s->off[i] + r, s->off[j] + c); if (i == j && r == c) v += 12 + r; if (i != j && (r + 2 * c) % 3 == 1) continue; m->Set(r, c, v); s2->d[s->off[i] + r][s->off[j] + c] = v; }
         m->Finalize(); s2->b->SetBlock(i, j, m);
      }
      auto x = vec(s2->n, 3), y0 = vec(s2->n, 8);
      for (int type = 0; type < 3; type++) for (int it : {1, 2, 4, 9}) for (int mode = 0; mode < 2; mode++)
      { BlockGSSmoother g(*s2->b, type, it); g.iterative_mode = mode; auto w = refGS(*s2, type, it, x, mode ? y0 : vector<double>(s2->n, 0.0)); for (int rep = 0; rep < 2; rep++) { Vector y = toV(y0); g.Mult(toV(x), y); cmp(y, w, "Gauss-Seidel type " + S(type) + " iterations " + S(it) + (mode ? " iterative" : "")); X.transitions++; } vc::Hash h; for (double v : w) h.add(v); X.outcome(h.h); }
      BlockDSmoother j(*s2->b); j.iterative_mode = false; for (int rep = 0; rep < 2; rep++) { Vector y = toV(y0); j.Mult(toV(x), y); cmp(y, refJ(*s2, x), "Jacobi"); X.transitions++; }
   });
}

void vc_main()
{
   // partitions into blocks
   const int MX = 3;
   for (int nb = 1; nb <= 3; nb++) vc::product(vector<int>(nb, MX), [&](const vector<int> &z) {
      vector<int> sz; for (int v : z) sz.push_back(v + 1);
      const unsigned np = 1u << (nb * nb);
      for (unsigned pat = 0; pat < np; pat++)
      {
         bool canon = true; for (int i = 0; i < nb; i++) if (!(pat >> (i * nb + i) & 1)) canon = false;
         if (!canon) continue;
         for (int seed = 0; seed < (X.thorough ? 6 : 2); seed++) one(sz, pat, seed);
      }
   });
   for (unsigned pat = 0; pat < 65536; pat++) { if ((pat & 0x8421) != 0x8421) continue; if (X.thorough || __builtin_popcount(pat * 2654435761u >> 16) % 4 == 0) one({2, 1, 3, 2}, pat, pat % 5); }
   one({4, 5, 6, 7, 3}, 0x1ffffff, 1); one({1, 1, 1, 1, 1, 1}, 0xffffffffu, 1);
   // many blocks of unequal sizes, nine sweeps: full, banded, arrow, one-sided, cyclic and irregular patterns
   for (int nb = 2; nb <= (X.thorough ? 16 : 11); nb++) for (int kind = 0; kind < 8; kind++) for (int shape = 0; shape < 4; shape++) big(nb, kind, shape);
   // the values of an operator change and it is set again (same object, same address); or it is destroyed and another built
   for (int kind = 0; kind < 4; kind++) for (int way = 0; way < 3; way++) for (int a = 0; a < 5; a++) for (int b2 = 0; b2 < 5; b2++) for (int gap = 0; gap < 3; gap++)
      X.run("changed operator kind " + S(kind) + " way " + S(way) + " " + S(a) + "," + S(b2) + " applications between " + S(gap), [=]() {
         const int type = kind % 3; auto s = make({2, 1, 3}, 0x1ff, a), s2 = make({2, 1, 3}, 0x1ff, b2); unique_ptr<BlockSmoother> sm; if (kind == 3) sm.reset(new BlockDSmoother(*s->b, 0, 1)); else sm.reset(new BlockGSSmoother(*s->b, type, 2)); sm->iterative_mode = false;
         auto apply = [&](const Sys &q, const string &m) { auto x = vec(q.n, a + 3 * b2); Vector y(q.n); y = 7.0; sm->Mult(toV(x), y); cmp(y, kind == 3 ? refJ(q, x) : refGS(q, type, 2, x, vector<double>(q.n, 0.0)), m); X.transitions++; };
         for (int g = 0; g < gap; g++) apply(*s, "before");
         if (way == 0)   // all blocks replaced inside of the same block matrix
         { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { delete &s->b->GetBlock(i, j); s->b->SetBlock(i, j, new SparseMatrix(s2->b->GetBlock(i, j))); } s->d = s2->d; }
         else if (way == 1)   // the numbers of the diagonal blocks changed in place
         { for (int i = 0; i < 3; i++) { SparseMatrix &m = s->b->GetBlock(i, i); for (int k = 0; k < m.NumNonZeroElems(); k++) m.GetData()[k] *= 1.5 + i; for (int r = s->off[i]; r < s->off[i + 1]; r++) for (int c = s->off[i]; c < s->off[i + 1]; c++) s->d[r][c] *= 1.5 + i; } }
         else { s = make({3, 1, 2}, 0x1ff, b2); }
         sm->SetOperator(*s->b); apply(*s, "after the operator changed"); apply(*s, "again"); vc::Hash h; h.add(kind); h.add(a); h.add(b2); X.outcome(h.h);
      });
   // histories: construct (default or with an operator), then operators replaced and smoothers applied in any order
   vector<shared_ptr<Sys>> sys = {make({2, 1}, 15, 0), make({2, 1}, 15, 1), make({1, 2, 2}, 0x1ff, 3), make({3}, 1, 4)};
   const int D = X.thorough ? 6 : 4;
   for (int kind = 0; kind < 4; kind++) for (int init = -1; init < 4; init++) for (int len = 1; len <= D; len++) vc::product(vector<int>(len, 5), [&](const vector<int> &ops) {
      // op 0..3: set operator; 4: apply
      if (ops.back() != 4) return; if (init < 0 && ops[0] == 4) return;
      X.run("history kind " + S(kind) + " init " + S(init) + " ops " + vc::str(ops), [=]() {
         unique_ptr<BlockSmoother> b; const int type = kind % 3;
         if (kind == 3) b.reset(init < 0 ? new BlockDSmoother(0, 1) : new BlockDSmoother(*sys[init]->b, 0, 1)); else b.reset(init < 0 ? new BlockGSSmoother(type, 2) : new BlockGSSmoother(*sys[init]->b, type, 2));
         b->iterative_mode = false; int cur = init;
         for (int o : ops)
         {
            X.transitions++;
            if (o < 4) { b->SetOperator(*sys[o]->b); cur = o; vc::eq(b->Height(), sys[o]->n, "height"); vc::eq(b->Width(), sys[o]->n, "width"); continue; }
            const Sys &s = *sys[cur]; auto x = vec(s.n, cur); Vector y(s.n); y = 7.0; b->Mult(toV(x), y);
            cmp(y, kind == 3 ? refJ(s, x) : refGS(s, type, 2, x, vector<double>(s.n, 0.0)), "result with operator " + S(cur));
         }
         vc::Hash h; h.add(kind); h.add(cur); X.outcome(h.h);
      });
   });
   // unsupported Jacobi variants stop instead of returning something else
   for (int type = 0; type < 3; type++) for (int it = 1; it <= 2; it++) for (int mode = 0; mode < 2; mode++)
   {
      X.run("jacobi variant " + S(type) + S(it) + S(mode), [=]() {
         auto s = make({2, 1}, 15, 0); auto x = vec(3, 1), y0 = vec(3, 2);
         int st = vc::in_child([&]() { BlockDSmoother j(*s->b, type, it); j.iterative_mode = mode; Vector y = toV(y0); j.Mult(toV(x), y);
            auto w = refJ(*s, x); if (type == 0 && (it > 1 || mode)) { // a plain Jacobi iteration would also be right
               vector<double> cur = mode ? y0 : vector<double>(3, 0.0); for (int k = 0; k < it; k++) { auto r = mul(*s, cur); for (int i = 0; i < 3; i++) r[i] = x[i] - r[i]; auto dlt = refJ(*s, r); for (int i = 0; i < 3; i++) cur[i] += dlt[i]; } w = cur; }
            for (int i = 0; i < 3; i++) if (!(fabs(y[i] - w[i]) < 1e-9)) _exit(3); });
         vc::check(!(WIFEXITED(st) && WEXITSTATUS(st) == 3), "an unsupported variant returned a wrong result"); });
   }
}
