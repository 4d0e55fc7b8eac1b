// C02: everything written to a file comes back exactly. All small shapes/patterns of every storable kind of
// object, and all ordered triples of objects in one file with re-opening, any reading order, used containers.
#define VC_MAIN
#include "vc.hpp"
#include "hdf5_utils.hpp"
#include "hyperreduction_integ.hpp"
#include <memory>
using namespace std; using namespace mfem;
using vc::X; using vc::S;

static double val(int s) { static const double t[] = {1.0, -2.5, 1.0 / 3.0, 1e-300, -7.25e17, 0.1, 3.0, -1e-9, 42.0, 5e8}; return t[s % 10] * (1 + s / 10); }
static int ival(int s) { static const int t[] = {0, 1, -1, 2147483647, -2147483647 - 1, 17, -40000, 9}; return t[s % 8]; }

struct Obj
{
   virtual ~Obj() {}
   virtual string id() const = 0;
   virtual void write(hid_t f, const string &n) = 0;
   virtual void read(hid_t f, const string &n, int dirty) = 0;   // reads and compares
};
typedef shared_ptr<Obj> P;

static void cmp(const SparseMatrix *g, const SparseMatrix &w, const string &m)
{
   vc::check(g != NULL, m + ": no matrix"); vc::check(g->Finalized(), m + ": not finalized");
   vc::eq(g->Height(), w.Height(), m + " height"); vc::eq(g->Width(), w.Width(), m + " width");
   vc::eq(g->NumNonZeroElems(), w.NumNonZeroElems(), m + " entries");
   for (int i = 0; i < w.Height(); i++)
   {
      vc::eq(const_cast<SparseMatrix *>(g)->RowSize(i), const_cast<SparseMatrix &>(w).RowSize(i), m + " row size");
      for (int j = 0; j < w.Width(); j++) { double a = 0, b = 0;
         for (int k = g->GetI()[i]; k < g->GetI()[i + 1]; k++) if (g->GetJ()[k] == j) a += g->GetData()[k];
         for (int k = w.GetI()[i]; k < w.GetI()[i + 1]; k++) if (w.GetJ()[k] == j) b += w.GetData()[k];
         vc::eq(a, b, m + " entry " + S(i) + "," + S(j)); }
   }
   Vector x(w.Width()), y(w.Height()), z(w.Height()); x = 1.5; w.Mult(x, y); g->Mult(x, z); for (int i = 0; i < w.Height(); i++) vc::check(z[i] == y[i] || (std::isnan(z[i]) && std::isnan(y[i])), m + " product");
}
static SparseMatrix *sparse(int h, int w, unsigned pat, int seed)
{
   SparseMatrix *m = new SparseMatrix(h, w);
   for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (pat >> (i * w + j) & 1) m->Set(i, j, val(seed + i * w + j));
   m->Finalize(); return m;
}
static SparseMatrix *dirtySparse() { return sparse(2, 2, 15, 3); }

template <class T> static T used(const T &v) { return v + T(1) == v ? T(7) : v + T(1); } template <> bool used(const bool &v) { return !v; } template <> int used(const int &v) { return v == 5 ? 6 : 5; } template <> string used(const string &v) { return v + "earlier content"; } template <> BasisTag used(const BasisTag &v) { return BasisTag("earlier", "content"); }
template <class T> struct Attr : Obj { T v; string d; Attr(T x, string dd) : v(x), d(dd) {}
   string id() const { return "attr:" + d; }
   void write(hid_t f, const string &n) { hdf5_utils::WriteAttribute(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { T g{}; if (dirty) g = used(v); hdf5_utils::ReadAttribute(f, n, g); vc::check(g == v, "attribute " + d + " changed"); } };
template <class T> T elem(int s); template <> int elem<int>(int s) { return ival(s); } template <> double elem<double>(int s) { return val(s); } template <> bool elem<bool>(int s) { return (s * s / 3) % 2; }
template <class T> struct Arr : Obj { Array<T> v; string d; int seed; Arr(int n, int s, string dd) : v(n), d(dd), seed(s) { for (int i = 0; i < n; i++) v[i] = elem<T>(s + i); }
   string id() const { return "array<" + d + ">:" + S(v.Size()) + "/" + S(seed); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { Array<T> g(dirty * 3); if (dirty) g = elem<T>(5); hdf5_utils::ReadDataset(f, n, g);
      vc::eq(g.Size(), v.Size(), id() + " size"); for (int i = 0; i < v.Size(); i++) vc::check(g[i] == v[i], id() + " entry " + S(i));
      hsize_t *dims = NULL; int nd = hdf5_utils::GetDatasetSize(f, n, dims); vc::eq(nd, 1, "rank"); vc::eq((int) dims[0], v.Size(), "stored size"); delete[] dims; } };
template <class T> struct Arr2 : Obj { Array2D<T> v; string d; Arr2(int n, int m, int s, string dd) : v(n, m), d(dd) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = elem<T>(s + i * m + j); }
   string id() const { return "array2d<" + d + ">:" + S(v.NumRows()) + "x" + S(v.NumCols()); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { Array2D<T> g(dirty == 2 ? v.NumCols() : dirty * 2, dirty == 2 ? v.NumRows() : dirty * 4); hdf5_utils::ReadDataset(f, n, g);
      vc::eq(g.NumRows(), v.NumRows(), id() + " rows"); vc::eq(g.NumCols(), v.NumCols(), id() + " cols");
      for (int i = 0; i < v.NumRows(); i++) for (int j = 0; j < v.NumCols(); j++) vc::check(g(i, j) == v(i, j), id() + " entry " + S(i) + "," + S(j)); } };
struct Vec : Obj { Vector v; Vec(int n, int s) : v(n) { for (int i = 0; i < n; i++) v[i] = val(s + i); }
   string id() const { return "vector:" + S(v.Size()); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { Vector g(dirty * 7); g = 9.0; hdf5_utils::ReadDataset(f, n, g); vc::eq(g.Size(), v.Size(), id()); for (int i = 0; i < v.Size(); i++) vc::eq(g[i], v[i], id() + " entry " + S(i)); } };
struct Dm : Obj { DenseMatrix v; Dm(int n, int m, int s) : v(n, m) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = val(s + i * m + j); }
   string id() const { return "dense:" + S(v.NumRows()) + "x" + S(v.NumCols()); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { DenseMatrix g(dirty == 2 ? v.NumCols() : dirty * 2, dirty == 2 ? v.NumRows() : dirty * 5); g = 9.0; hdf5_utils::ReadDataset(f, n, g); vc::eq(g.NumRows(), v.NumRows(), id() + " rows"); vc::eq(g.NumCols(), v.NumCols(), id() + " cols");
      for (int i = 0; i < v.NumRows(); i++) for (int j = 0; j < v.NumCols(); j++) vc::eq(g(i, j), v(i, j), id() + " entry " + S(i) + "," + S(j)); } };
struct Dt : Obj { DenseTensor v; Dt(int n, int m, int l, int s) : v(n, m, l) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < l; k++) v(i, j, k) = val(s + (i * m + j) * l + k); }
   string id() const { return "tensor:" + S(v.SizeI()) + "x" + S(v.SizeJ()) + "x" + S(v.SizeK()); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { DenseTensor g(dirty == 2 ? v.SizeK() : dirty * 2, dirty == 2 ? v.SizeI() : dirty, dirty == 2 ? v.SizeJ() : dirty * 3); hdf5_utils::ReadDataset(f, n, g); vc::eq(g.SizeI(), v.SizeI(), id()); vc::eq(g.SizeJ(), v.SizeJ(), id()); vc::eq(g.SizeK(), v.SizeK(), id());
      for (int i = 0; i < v.SizeI(); i++) for (int j = 0; j < v.SizeJ(); j++) for (int k = 0; k < v.SizeK(); k++) vc::eq(g(i, j, k), v(i, j, k), id() + " entry"); } };
struct Sp : Obj { unique_ptr<SparseMatrix> v; string d; Sp(int h, int w, unsigned pat, int s) : v(sparse(h, w, pat, s)), d(S(h) + "x" + S(w) + ":" + S(pat)) {}
   string id() const { return "sparse:" + d; }
   void write(hid_t f, const string &n) { hdf5_utils::WriteSparseMatrix(f, n, v.get()); }
   void read(hid_t f, const string &n, int) { unique_ptr<SparseMatrix> g(hdf5_utils::ReadSparseMatrix(f, n)); cmp(g.get(), *v, id()); } };
// large sparse: full, scattered (with empty rows), banded; columns of a row in the order they were added
struct LSp : Obj { unique_ptr<SparseMatrix> v; string d; LSp(int h, int w, int kind) : v(new SparseMatrix(h, w)), d(S(h) + "x" + S(w) + "/" + S(kind)) {
      for (int i = 0; i < h; i++) for (int q = 0; q < w; q++) { const int j = w - 1 - q; if (kind == 0 || (kind == 1 && (i * 31 + j * 17) % 23 == 4 && i % 3) || (kind == 2 && abs(i - j) < 2)) v->Set(i, j, val(i * 3 + j)); } v->Finalize(1, kind != 1 && h <= w); }   // filling empty rows puts an entry on the diagonal, which tall matrices lack
   string id() const { return "large sparse:" + d; }
   void write(hid_t f, const string &n) { hdf5_utils::WriteSparseMatrix(f, n, v.get()); }
   void read(hid_t f, const string &n, int) { unique_ptr<SparseMatrix> g(hdf5_utils::ReadSparseMatrix(f, n)); cmp(g.get(), *v, id()); } };
// values at the ends of the number range, in every kind of array
struct Spec : Obj { Vector v; DenseMatrix m; Spec() : v(12), m(3, 4) { const double t[12] = {0.0, -0.0, INFINITY, -INFINITY, 4.9406564584124654e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, NAN, 1 + 2.220446049250313e-16, 9007199254740993.0, 0.1}; for (int i = 0; i < 12; i++) { v[i] = t[i]; m(i % 3, i / 3) = t[11 - i]; } }
   string id() const { return "unusual values"; }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n + "v", v); hdf5_utils::WriteDataset(f, n + "m", m); for (int i = 0; i < 12; i++) hdf5_utils::WriteAttribute(f, n + "a" + S(i), v[i]); }
   void read(hid_t f, const string &n, int) { Vector g; DenseMatrix h; hdf5_utils::ReadDataset(f, n + "v", g); hdf5_utils::ReadDataset(f, n + "m", h); vc::eq(g.Size(), 12, "size"); for (int i = 0; i < 12; i++) { vc::check(!memcmp(&g[i], &v[i], 8), "value " + S(i)); vc::check(!memcmp(&h(i % 3, i / 3), &m(i % 3, i / 3), 8), "matrix value " + S(i)); double a = 1; hdf5_utils::ReadAttribute(f, n + "a" + S(i), a); vc::check(!memcmp(&a, &v[i], 8), "attribute value " + S(i)); } } };
// block patterns: base 3 per block; 0 absent, 1 present without entries, 2 with entries
struct Bm : Obj { Array<int> off; unique_ptr<BlockMatrix> v; int n; string d;
   Bm(vector<int> sz, long pat, int s) : n(sz.size()), d(vc::str(sz) + ":" + S(pat)) {
      off.SetSize(n + 1); off[0] = 0; for (int i = 0; i < n; i++) off[i + 1] = off[i] + sz[i];
      v.reset(new BlockMatrix(off)); v->owns_blocks = true; const bool mixed = pat < 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++, pat /= 3) { if (mixed) pat = (i * 7 + j * 4 + i * j) % 3; if (pat % 3 == 1) v->SetBlock(i, j, sparse(sz[i], sz[j], 0, 0)); if (pat % 3 == 2) v->SetBlock(i, j, sparse(sz[i], sz[j], 0x2DB6DB6D | 1, s + i * 3 + j)); } }
   string id() const { return "blockmatrix:" + d; }
   void write(hid_t f, const string &nm) { hdf5_utils::WriteBlockMatrix(f, nm, v.get()); }
   void read(hid_t f, const string &nm, int) { unique_ptr<BlockMatrix> g(hdf5_utils::ReadBlockMatrix(f, nm, off));
      vc::eq(g->NumRowBlocks(), n, id()); vc::eq(g->NumColBlocks(), n, id());
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool z = v->IsZeroBlock(i, j) || v->GetBlock(i, j).NumNonZeroElems() == 0, gz = g->IsZeroBlock(i, j) || g->GetBlock(i, j).NumNonZeroElems() == 0;
         vc::eq(gz, z, id() + " empty block " + S(i) + "," + S(j)); if (!z) cmp(&g->GetBlock(i, j), v->GetBlock(i, j), id() + " block " + S(i) + "," + S(j)); }
      // as an operator too
      Vector x(off[n]), y(off[n]), yy(off[n]); for (int i = 0; i < off[n]; i++) x[i] = i + 1.5; v->Mult(x, y); g->Mult(x, yy); for (int i = 0; i < off[n]; i++) vc::eq(yy[i], y[i], id() + " product"); } };
struct Mb : Obj { MatrixBlocks v; string d; Mb(int r, int c, long pat, int s) : v(r, c), d(S(r) + "x" + S(c) + ":" + S(pat)) { const bool mixed = pat < 0;
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++, pat /= 3) { if (mixed) pat = (i * 7 + j * 4 + i * j) % 3; if (pat % 3 == 1) v(i, j) = sparse(i + 1, j + 2, 0, 0); if (pat % 3 == 2) v(i, j) = sparse(i + 1, j + 2, 0x2DB6DB6D | 1, s + i * c + j); } }
   string id() const { return "matrixblocks:" + d; }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, v); }
   void read(hid_t f, const string &n, int dirty) { MatrixBlocks g(dirty == 2 ? v.ncols : dirty, dirty == 2 ? v.nrows : dirty * 2); for (int i = 0; i < g.nrows; i++) for (int j = 0; j < g.ncols; j++) g(i, j) = dirtySparse();
      hdf5_utils::ReadDataset(f, n, g); vc::eq(g.nrows, v.nrows, id() + " rows"); vc::eq(g.ncols, v.ncols, id() + " cols"); vc::eq(g.blocks.NumRows(), v.nrows, id() + " rows"); vc::eq(g.blocks.NumCols(), v.ncols, id() + " cols");
      for (int i = 0; i < v.nrows; i++) for (int j = 0; j < v.ncols; j++) { bool z = !v(i, j) || v(i, j)->NumNonZeroElems() == 0; bool gz = !g(i, j) || g(i, j)->NumNonZeroElems() == 0;
         vc::eq(gz, z, id() + " empty block " + S(i) + "," + S(j)); if (!z) cmp(g(i, j), *v(i, j), id() + " block " + S(i) + "," + S(j)); } } };
static Array<SampleInfo> samples(int n, int s) { Array<SampleInfo> a(n); for (int i = 0; i < n; i++) { a[i].el = 100 + 7 * i + s; a[i].qp = (i * 5 + s) % 4; a[i].qw = val(i + s); } return a; }
struct Si : Obj { Array<SampleInfo> v; IntegratorType t; Si(int n, int s, int tt) : v(samples(n, s)), t((IntegratorType) tt) {}
   string id() const { return "samples:" + S(v.Size()) + "/" + S((int) t); }
   void write(hid_t f, const string &n) { hdf5_utils::WriteDataset(f, n, t, v); }
   void read(hid_t f, const string &n, int dirty) { Array<SampleInfo> g(dirty * 3); hdf5_utils::ReadDataset(f, n, t, g); vc::eq(g.Size(), v.Size(), id()); for (int i = 0; i < v.Size(); i++) { vc::eq(g[i].el, v[i].el, id() + " el"); vc::eq(g[i].qp, v[i].qp, id() + " qp"); vc::eq(g[i].qw, v[i].qw, id() + " qw"); } } };
struct Eq : Obj { Array<SampleInfo> v; IntegratorType t; Eq(int n, int s, int tt) : v(samples(n, s)), t((IntegratorType) tt) {}
   string id() const { return "eqp:" + S(v.Size()) + "/" + S((int) t); }
   void write(hid_t f, const string &n) { EQPElement e(v); vc::eq(e.Size(), v.Size(), "eqp size"); e.Save(f, n, t); }
   void read(hid_t f, const string &n, int dirty) { EQPElement g(samples(dirty * 3, 1)); g.Load(f, n, t); vc::eq(g.Size(), v.Size(), id()); for (int i = 0; i < v.Size(); i++) { auto &q = g.GetSample(i)->info; vc::eq(q.el, v[i].el, id() + " el"); vc::eq(q.qp, v[i].qp, id() + " qp"); vc::eq(q.qw, v[i].qw, id() + " qw"); }
      // a sample list and an empirical quadrature share one representation
      Array<SampleInfo> h; hdf5_utils::ReadDataset(f, n, t, h); vc::eq(h.Size(), v.Size(), id()); for (int i = 0; i < v.Size(); i++) vc::eq(h[i].el, v[i].el, id() + " el"); } };

static hid_t fopen_(const string &f, int mode)
{
   hid_t h = mode == 0 ? H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) : H5Fopen(f.c_str(), mode == 1 ? H5F_ACC_RDWR : H5F_ACC_RDONLY, H5P_DEFAULT);
   vc::check(h >= 0, mode == 0 ? "the file cannot be rewritten (something still holds it)" : "the file cannot be opened");
   return h;
}
static void fclose_(hid_t h) { vc::check(H5Fclose(h) >= 0, "close failed"); }

static void alone(P o)
{
   X.run("alone " + o->id(), [o]() {
      string f = vc::tmpfile("a.h5");
      for (int dirty = 0; dirty < 3; dirty++) for (int grp = 0; grp < 2; grp++)
      {
         hid_t h = fopen_(f, 0), g = grp ? H5Gcreate2(h, "grp", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT) : h;
         o->write(g, "x"); if (grp) H5Gclose(g); fclose_(h); X.transitions++;
         h = fopen_(f, 2); g = grp ? H5Gopen2(h, "grp", H5P_DEFAULT) : h;
         o->read(g, "x", dirty); o->read(g, "x", (dirty + 1) % 3); if (grp) H5Gclose(g); fclose_(h); X.transitions += 2;
      }
      vc::Hash hh; hh.add(o->id()); X.outcome(hh.h);
      unlink(f.c_str());
   });
}


void vc_main()
{
   H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
   const int N = X.thorough ? 6 : 4;
   // --- every shape and pattern on its own
   for (int s = 0; s < 8; s++) alone(P(new Attr<int>(ival(s), "int" + S(s))));
   for (int s = 0; s < 20; s++) alone(P(new Attr<double>(val(s), "double" + S(s))));
   alone(P(new Attr<bool>(false, "bool0"))); alone(P(new Attr<bool>(true, "bool1")));
   vector<string> strs = {"", "a", "some/path_%05d.h5", "a name with spaces", "exactly15chars_", "exactly16chars__", string(200, 'z')};
   for (auto &s : strs) { alone(P(new Attr<string>(s, "string'" + s + "'"))); for (auto &t : strs) alone(P(new Attr<BasisTag>(BasisTag(s, t), "tag'" + s + "','" + t + "'"))); }
   for (int n = 0; n <= 2 * N; n++) for (int s = 0; s < 8; s++) { alone(P(new Arr<int>(n, s, "int"))); alone(P(new Arr<double>(n, s, "double"))); alone(P(new Arr<bool>(n, s, "bool"))); }
   for (int n = 1; n <= N; n++) for (int m = 1; m <= N; m++) { alone(P(new Arr2<int>(n, m, n, "int"))); alone(P(new Arr2<double>(n, m, m, "double"))); alone(P(new Arr2<bool>(n, m, n, "bool"))); alone(P(new Dm(n, m, n))); for (int l = 1; l <= N; l++) alone(P(new Dt(n, m, l, l))); }
   for (int n = 1; n <= 3 * N; n++) alone(P(new Vec(n, n)));
   for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) { if (h * w > (X.thorough ? 9 : 6)) continue; for (unsigned p = 0; p < (1u << (h * w)); p++) alone(P(new Sp(h, w, p, h + w))); }
   for (int n = 1; n <= 2; n++) { long np = n == 1 ? 3 : 81; vc::product(vector<int>(n, 2), [&](const vector<int> &z) { vector<int> sz; for (int x : z) sz.push_back(x + 1); for (long p = 0; p < np; p++) alone(P(new Bm(sz, p, (int) p))); }); }
   for (long p = 0; p < 19683; p += (X.thorough ? 1 : 41)) alone(P(new Bm({2, 1, 3}, p, (int) p)));
   for (int r = 1; r <= 2; r++) for (int c = 1; c <= 2; c++) { long np = 1; for (int k = 0; k < r * c; k++) np *= 3; for (long p = 0; p < np; p++) alone(P(new Mb(r, c, p, (int) p))); }
   for (long p = 0; p < 729; p += (X.thorough ? 1 : 7)) { alone(P(new Mb(2, 3, p, (int) p))); alone(P(new Mb(3, 2, p, (int) p))); }
   for (int n = 0; n <= 2 * N; n++) for (int t = 0; t < 4; t++) { alone(P(new Si(n, n, t))); alone(P(new Eq(n, n + 1, t))); }

   // --- large objects and unusual values
   for (int n : {31, 64, 100, 255, 256, 257, 1000, 1025, 4099, 70001}) { alone(P(new Arr<int>(n, n % 7, "int"))); alone(P(new Arr<double>(n, n % 7, "double"))); alone(P(new Arr<bool>(n, n % 7, "bool"))); alone(P(new Vec(n, n % 5))); if (n < 5000) for (int t = 0; t < 4; t++) { alone(P(new Si(n, n % 9, t))); alone(P(new Eq(n, n % 9, t))); } }
   for (auto &q : vector<array<int, 2>>{{{1, 300}}, {{300, 1}}, {{33, 65}}, {{65, 33}}, {{17, 257}}, {{128, 128}}}) { alone(P(new Arr2<int>(q[0], q[1], 1, "int"))); alone(P(new Arr2<double>(q[0], q[1], 2, "double"))); alone(P(new Arr2<bool>(q[0], q[1], 3, "bool"))); alone(P(new Dm(q[0], q[1], 4))); alone(P(new Dt(q[0], 3, q[1], 5))); alone(P(new Dt(2, q[0], q[1], 6))); alone(P(new LSp(q[0], q[1], 0))); alone(P(new LSp(q[0], q[1], 1))); alone(P(new LSp(q[0], q[1], 2))); }
   for (auto &q : vector<array<int, 3>>{{{12, 7, 30}}, {{1, 40, 2}}, {{33, 1, 9}}}) alone(P(new Dt(q[0], q[1], q[2], 3)));
   for (int n : {255, 256, 257, 1023, 5000}) { string t; for (int i = 0; i < n; i++) t += (char) ('!' + (i * 7) % 90); alone(P(new Attr<string>(t, "string of " + S(n)))); alone(P(new Attr<BasisTag>(BasisTag(t, t.substr(n / 2)), "tag of " + S(n)))); }
   alone(P(new Spec())); for (int r : {5, 1, 7}) for (int c : {1, 6, 4}) for (long p : {0L, 1L, 2L, 200560490130L, 998877665544332211L}) alone(P(new Mb(r, c, p, 2)));
   for (int n : {11, 12, 21}) { alone(P(new Mb(n, n, -1, n))); alone(P(new Mb(n, 2, -1, n))); alone(P(new Mb(1, n, -1, n))); vector<int> sz; for (int i = 0; i < n; i++) sz.push_back(1 + i % 2); alone(P(new Bm(sz, -1, n))); }
   for (int n : {5, 8}) for (long p : {2L, 1334567L, 998877665544332211L}) { vector<int> sz; for (int i = 0; i < n; i++) sz.push_back(1 + i % 3); alone(P(new Bm(sz, p, 1))); }

   // --- histories: ordered triples of objects; the second and third are added after re-opening
   vector<P> z = {P(new Attr<int>(-5, "int")), P(new Attr<double>(1.0 / 3, "double")), P(new Attr<bool>(true, "bool")), P(new Attr<string>("hello world", "string")), P(new Attr<BasisTag>(BasisTag("comp", "vel"), "tag")),
                  P(new Arr<int>(3, 1, "int")), P(new Arr<int>(0, 1, "int")), P(new Arr<double>(2, 1, "double")), P(new Arr<bool>(5, 1, "bool")), P(new Arr2<int>(2, 3, 1, "int")), P(new Arr2<bool>(3, 2, 1, "bool")), P(new Vec(4, 2)), P(new Dm(2, 3, 2)), P(new Dt(2, 3, 4, 1)),
                  P(new Sp(2, 3, 0x2b, 1)), P(new Bm({1, 2}, 2 + 3 * 0 + 9 * 2 + 27 * 1, 1)), P(new Mb(2, 2, 2 + 9 * 2, 1)), P(new Si(3, 1, 1)), P(new Eq(2, 1, 3)), P(new Mb(1, 1, 2, 4))};
   const int K = (int) z.size();
   static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
   for (int a = 0; a < K; a++) for (int b = 0; b < K; b++)
      X.run("triples " + z[a]->id() + " | " + z[b]->id() + " | *", [&, a, b]() {
         string f = vc::tmpfile("t.h5");
         for (int c = 0; c < K; c++)
         {
            const int q[3] = {a, b, c}; const int pm = (a * 7 + b * 3 + c) % 6;
            hid_t h = fopen_(f, 0); z[a]->write(h, "o0"); fclose_(h);
            h = fopen_(f, 1); z[b]->write(h, "o1"); z[a]->read(h, "o0", 1); z[c]->write(h, "o2"); fclose_(h);
            h = fopen_(f, 2);
            for (int k = 0; k < 3; k++) { int i = perm[X.thorough ? k % 6 : pm][k]; z[q[i]]->read(h, "o" + S(i), k % 2); }
            if (X.thorough) for (int p = 0; p < 6; p++) for (int k = 0; k < 3; k++) { int i = perm[p][k]; z[q[i]]->read(h, "o" + S(i), k % 2); }
            fclose_(h);
            X.states++; X.transitions += 7;
            vc::Hash hh; hh.add(z[a]->id()).add(z[b]->id()).add(z[c]->id()); X.outcome(hh.h);
         }
         unlink(f.c_str());
      });
   // --- names: existence queries, and a missing name is never answered with made-up data
   for (int a = 0; a < K; a++)
      X.run("missing " + z[a]->id(), [&, a]() {
         string f = vc::tmpfile("m.h5");
         hid_t h = fopen_(f, 0); z[a]->write(h, "o0"); Array<int> one(1); one = 3; hdf5_utils::WriteDataset(h, "d", one);
         hid_t g = H5Gcreate2(h, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(g);
         vc::check(hdf5_utils::pathExists(h, "d") && hdf5_utils::pathExists(h, "g") && !hdf5_utils::pathExists(h, "nothing"), "existence of names");
         int st = vc::in_child([&]() { try { z[a]->read(h, "absent", 0); } catch (...) { _exit(1); } });
         vc::check(!vc::child_ok(st), "reading an absent name of kind " + z[a]->id() + " succeeded");
         fclose_(h); unlink(f.c_str());
      });
}
