// Minimal, serial, header-only stand-in for the libROM API that scaleupROM uses.
// libROM is not installed in the sandbox, so the ROM half of the repository is compiled against
// this file. It implements the documented behaviour of the calls the repository makes (POD by SVD,
// snapshot/basis files in HDF5, non-negative least squares) in the plainest possible way.
#ifndef VERIF_LIBROM_SHIM
#define VERIF_LIBROM_SHIM
#include <mpi.h>
#include "hdf5.h"
#include <functional>
#include <vector>
#include <string>
#include <memory>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <iostream>
#include <fstream>

extern "C" void dgesvd_(const char*, const char*, const int*, const int*, double*, const int*, double*,
                        double*, const int*, double*, const int*, double*, const int*, int*);
extern "C" void dgels_(const char*, const int*, const int*, const int*, double*, const int*, double*,
                       const int*, double*, const int*, int*);

namespace CAROM
{

inline void shim_fail(const char *what) { std::fprintf(stderr, "CAROM shim: %s\n", what); std::abort(); }

class Vector
{
   std::vector<double> d; bool dist = false;
public:
   Vector() {}
   Vector(int dim, bool distributed) : d(dim, 0.0), dist(distributed) {}
   Vector(double *v, int dim, bool distributed, bool = true) : d(v, v + dim), dist(distributed) {}
   int dim() const { return (int) d.size(); }
   bool distributed() const { return dist; }
   void setSize(int n) { d.assign(n, 0.0); }
   double &item(int i) { if (i < 0 || i >= dim()) shim_fail("Vector index"); return d[i]; }
   const double &item(int i) const { if (i < 0 || i >= dim()) shim_fail("Vector index"); return d[i]; }
   double &operator()(int i) { return item(i); }
   const double &operator()(int i) const { return item(i); }
   double *getData() { return d.data(); }
   const double *getData() const { return d.data(); }
   double norm() const { double s = 0; for (double x : d) s += x * x; return std::sqrt(s); }
   Vector &operator-=(const Vector &o)
   { if (o.dim() != dim()) shim_fail("Vector -= size"); for (int i = 0; i < dim(); i++) d[i] -= o.d[i]; return *this; }
};

class Matrix
{
   std::vector<double> a; int r = 0, c = 0; bool dist = false;
public:
   Matrix() {}
   Matrix(int rows, int cols, bool distributed, bool = false) : a((size_t) rows * cols, 0.0), r(rows), c(cols), dist(distributed) {}
   int numRows() const { return r; }
   int numColumns() const { return c; }
   bool distributed() const { return dist; }
   void setSize(int rows, int cols) { r = rows; c = cols; a.assign((size_t) rows * cols, 0.0); }
   double &item(int i, int j) { if (i < 0 || j < 0 || i >= r || j >= c) shim_fail("Matrix index"); return a[(size_t) i * c + j]; }
   const double &item(int i, int j) const { if (i < 0 || j < 0 || i >= r || j >= c) shim_fail("Matrix index"); return a[(size_t) i * c + j]; }
   double &operator()(int i, int j) { return item(i, j); }
   const double &operator()(int i, int j) const { return item(i, j); }
   double *getData() const { return const_cast<double *>(a.data()); }
   void gather() { dist = false; }
   void distribute(int) { dist = true; }
   void transposeMult(const Matrix &o, Matrix &out) const
   {
      if (o.r != r) shim_fail("transposeMult size");
      out.setSize(c, o.c);
      for (int i = 0; i < c; i++) for (int j = 0; j < o.c; j++)
      { double s = 0; for (int k = 0; k < r; k++) s += item(k, i) * o.item(k, j); out.item(i, j) = s; }
   }
   void transposeMult(const Vector &o, Vector &out) const
   {
      if (o.dim() != r) shim_fail("transposeMult size");
      out.setSize(c);
      for (int i = 0; i < c; i++) { double s = 0; for (int k = 0; k < r; k++) s += item(k, i) * o(k); out(i) = s; }
   }
};

inline int split_dimension(const int dim, const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int n = 1, k = 0; MPI_Comm_size(comm, &n); MPI_Comm_rank(comm, &k);
   return dim / n + (k < dim % n ? 1 : 0);
}
inline int get_global_offsets(const int local, std::vector<int> &offsets, const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int n = 1; MPI_Comm_size(comm, &n);
   std::vector<int> l(n); int mine = local;
   MPI_Allgather(&mine, 1, MPI_INT, l.data(), 1, MPI_INT, comm);
   offsets.assign(n + 1, 0);
   for (int i = 0; i < n; i++) offsets[i + 1] = offsets[i] + l[i];
   return offsets[n];
}

class Database { public: enum class formats { HDF5, CSV, HDF5_MPIO }; };

class HDFDatabase : public Database
{
   hid_t f = -1;
   template <class T> void put(const std::string &key, const T *data, int n, hid_t t)
   {
      hsize_t dims[1] = {(hsize_t) n};
      hid_t s = H5Screate_simple(1, dims, NULL);
      hid_t d = H5Dcreate2(f, key.c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (d < 0) shim_fail("dataset create");
      if (n) H5Dwrite(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
      H5Dclose(d); H5Sclose(s);
   }
   int size(const std::string &key)
   {
      hid_t d = H5Dopen2(f, key.c_str(), H5P_DEFAULT); if (d < 0) shim_fail("dataset open");
      hid_t s = H5Dget_space(d); int n = (int) H5Sget_simple_extent_npoints(s);
      H5Sclose(s); H5Dclose(d); return n;
   }
   template <class T> void get(const std::string &key, T *data, int n, hid_t t)
   {
      if (size(key) != n) shim_fail("dataset size");
      hid_t d = H5Dopen2(f, key.c_str(), H5P_DEFAULT);
      if (n) H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
      H5Dclose(d);
   }
public:
   bool create(const std::string &file, const MPI_Comm = MPI_COMM_NULL)
   { f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); return f >= 0; }
   bool open(const std::string &file, const std::string &type, const MPI_Comm = MPI_COMM_NULL)
   { f = H5Fopen(file.c_str(), type == "r" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT); return f >= 0; }
   bool close() { bool ok = f >= 0 && H5Fclose(f) >= 0; f = -1; return ok; }
   void putIntegerArray(const std::string &k, const int *d, int n, const bool = false) { put(k, d, n, H5T_NATIVE_INT); }
   void putDoubleArray(const std::string &k, const double *d, int n, const bool = false) { put(k, d, n, H5T_NATIVE_DOUBLE); }
   void getIntegerArray(const std::string &k, int *d, int n, const bool = false) { get(k, d, n, H5T_NATIVE_INT); }
   void getDoubleArray(const std::string &k, double *d, int n, const bool = false) { get(k, d, n, H5T_NATIVE_DOUBLE); }
   int getDoubleArraySize(const std::string &k) { return size(k); }
};

namespace shim
{
inline std::string file_of(const std::string &base) { return base + ".000000"; }
inline void write(const std::string &base, const std::string &kind, const Matrix &m, const Vector *sv)
{
   HDFDatabase db; if (!db.create(file_of(base))) shim_fail("create file");
   int r = m.numRows(), c = m.numColumns();
   db.putIntegerArray(kind + "_num_rows", &r, 1);
   db.putIntegerArray(kind + "_num_cols", &c, 1);
   db.putDoubleArray(kind, m.getData(), r * c);
   if (sv) { int n = sv->dim(); db.putIntegerArray("singular_value_size", &n, 1); db.putDoubleArray("singular_value", sv->getData(), n); }
   db.close();
}
inline Matrix read(const std::string &base, const std::string &kind)
{
   HDFDatabase db; if (!db.open(file_of(base), "r")) shim_fail("open file");
   int r, c;
   db.getIntegerArray(kind + "_num_rows", &r, 1);
   db.getIntegerArray(kind + "_num_cols", &c, 1);
   Matrix m(r, c, true);
   db.getDoubleArray(kind, m.getData(), r * c);
   db.close();
   return m;
}
}

class Options
{
public:
   int dim, max_num_samples, num_intervals; bool update_right_SV;
   bool static_svd_preserve_snapshot = false;
   int max_basis_dimension = -1; double singular_value_tol = 0;
   Options(int d, int samples, int intervals = 1, bool update = false, bool = false)
      : dim(d), max_num_samples(samples), num_intervals(intervals), update_right_SV(update) {}
};

class BasisGenerator
{
   Options opt; std::string base;
   std::vector<std::vector<double> > samples;
   std::shared_ptr<Matrix> snaps, basis; std::shared_ptr<Vector> sv;
   void snapshot()
   {
      snaps = std::make_shared<Matrix>(opt.dim, (int) samples.size(), true);
      for (int j = 0; j < (int) samples.size(); j++) for (int i = 0; i < opt.dim; i++) snaps->item(i, j) = samples[j][i];
   }
   void svd()
   {
      const int m = opt.dim, n = (int) samples.size(), k = std::min(m, n);
      std::vector<double> A((size_t) m * n), U((size_t) m * k), S(k), VT((size_t) k * n), w(1);
      for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A[(size_t) j * m + i] = samples[j][i];
      int info, lw = -1;
      dgesvd_("S", "S", &m, &n, A.data(), &m, S.data(), U.data(), &m, VT.data(), &k, w.data(), &lw, &info);
      lw = (int) w[0]; w.resize(lw);
      dgesvd_("S", "S", &m, &n, A.data(), &m, S.data(), U.data(), &m, VT.data(), &k, w.data(), &lw, &info);
      if (info) shim_fail("dgesvd");
      basis = std::make_shared<Matrix>(m, k, true); sv = std::make_shared<Vector>(k, false);
      for (int j = 0; j < k; j++) { sv->item(j) = S[j]; for (int i = 0; i < m; i++) basis->item(i, j) = U[(size_t) j * m + i]; }
   }
public:
   BasisGenerator(Options o, bool incremental, const std::string &name = "", Database::formats = Database::formats::HDF5)
      : opt(o), base(name) { if (incremental) shim_fail("incremental SVD is not provided"); }
   bool takeSample(double *u)
   {
      if ((int) samples.size() >= opt.max_num_samples) return false;
      double s = 0; for (int i = 0; i < opt.dim; i++) s += u[i] * u[i];
      if (s == 0.0) return false;   // libROM rejects a zero sample
      samples.push_back(std::vector<double>(u, u + opt.dim)); return true;
   }
   int getNumSamples() const { return (int) samples.size(); }
   void writeSnapshot() { snapshot(); shim::write(base + "_snapshot", "snapshot_matrix", *snaps, NULL); }
   void loadSamples(const std::string &file, const std::string &kind = "snapshot", int cutoff = (int) 1e9,
                    Database::formats = Database::formats::HDF5)
   {
      if (kind != "snapshot") shim_fail("loadSamples kind");
      Matrix m = shim::read(file, "snapshot_matrix");
      if (m.numRows() != opt.dim) shim_fail("loadSamples dimension");
      const int n = std::min(m.numColumns(), cutoff);
      std::vector<double> u(opt.dim);
      for (int j = 0; j < n; j++)
      { for (int i = 0; i < opt.dim; i++) u[i] = m.item(i, j); takeSample(u.data()); }
   }
   void endSamples(const std::string & = "basis") { svd(); shim::write(base, "spatial_basis", *basis, sv.get()); }
   std::shared_ptr<const Matrix> getSpatialBasis() { svd(); return basis; }
   std::shared_ptr<const Vector> getSingularValues() { svd(); return sv; }
   std::shared_ptr<const Matrix> getSnapshotMatrix() { snapshot(); return snaps; }
};

class BasisReader
{
   std::string base;
public:
   BasisReader(const std::string &name, Database::formats = Database::formats::HDF5, const int = -1) : base(name) {}
   std::unique_ptr<Matrix> getSpatialBasis()
   { return std::unique_ptr<Matrix>(new Matrix(shim::read(base, "spatial_basis"))); }
   std::unique_ptr<Matrix> getSpatialBasis(int n)
   {
      Matrix m = shim::read(base, "spatial_basis");
      if (n > m.numColumns()) shim_fail("more basis vectors requested than there are");
      std::unique_ptr<Matrix> o(new Matrix(m.numRows(), n, true));
      for (int i = 0; i < m.numRows(); i++) for (int j = 0; j < n; j++) o->item(i, j) = m.item(i, j);
      return o;
   }
};

enum class NNLS_termination { LINF, L2 };

// a harness may supply the weights instead
namespace shim { inline std::function<void(Vector &)> &weights() { static std::function<void(Vector &)> f; return f; } }
// Lawson-Hanson; stops once lb <= Gt^T x <= ub (every entry, or in the l2 norm of the half widths).
class NNLSSolver
{
   double tol; NNLS_termination crit;
public:
   NNLSSolver(double const_tol = 1e-14, unsigned = 0, unsigned = 0, int = 0, double = 1e-4, double = 1e-14,
              unsigned = 100000, unsigned = 100000, const NNLS_termination criterion = NNLS_termination::LINF)
      : tol(const_tol), crit(criterion) {}
   void solve_parallel_with_scalapack(const Matrix &Gt, const Vector &lb, const Vector &ub, Vector &x)
   {
      const int n = Gt.numRows(), m = Gt.numColumns();
      std::vector<double> b(m), hw(m), res(m);
      double l2 = 0;
      for (int i = 0; i < m; i++) { b[i] = 0.5 * (lb(i) + ub(i)); hw[i] = 0.5 * (ub(i) - lb(i)); l2 += hw[i] * hw[i]; }
      l2 = std::sqrt(l2);
      x.setSize(n);
      if (shim::weights()) { shim::weights()(x); return; }
      std::vector<char> P(n, 0), bad(n, 0);
      auto residual = [&]() { for (int i = 0; i < m; i++) { double s = b[i]; for (int k = 0; k < n; k++) if (x(k) != 0) s -= Gt(k, i) * x(k); res[i] = s; } };
      auto done = [&]() {
         if (crit == NNLS_termination::L2) { double s = 0; for (double r : res) s += r * r; return std::sqrt(s) <= std::max(l2, 0.0); }
         for (int i = 0; i < m; i++) if (std::fabs(res[i]) > hw[i]) return false;
         return true; };
      auto ls = [&](std::vector<int> &idx) {
         const int k = (int) idx.size(); int ld = std::max(m, k), one = 1, info, lw = -1;
         std::vector<double> A((size_t) m * k), z(ld, 0.0), w(1);
         for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) A[(size_t) j * m + i] = Gt(idx[j], i);
         for (int i = 0; i < m; i++) z[i] = b[i];
         dgels_("N", &m, &k, &one, A.data(), &m, z.data(), &ld, w.data(), &lw, &info);
         lw = (int) w[0]; w.resize(lw);
         dgels_("N", &m, &k, &one, A.data(), &m, z.data(), &ld, w.data(), &lw, &info);
         if (info) z.assign(ld, 0.0/0.0);
         return z; };
      residual();
      for (int outer = 0; outer < 20 * (n + 1) && !done(); outer++)
      {
         int best = -1; double wmax = 0;
         for (int k = 0; k < n; k++) if (!P[k] && !bad[k])
         { double s = 0; for (int i = 0; i < m; i++) s += Gt(k, i) * res[i]; if (s > wmax) { wmax = s; best = k; } }
         if (best < 0) break;
         P[best] = 1;
         bool progress = true;
         for (int inner = 0; inner < 10 * (n + 1); inner++)
         {
            std::vector<int> idx; for (int k = 0; k < n; k++) if (P[k]) idx.push_back(k);
            if ((int) idx.size() > m) { P[best] = 0; bad[best] = 1; progress = false; break; }
            std::vector<double> z = ls(idx);
            bool fin = true; for (size_t j = 0; j < idx.size(); j++) if (!std::isfinite(z[j])) fin = false;
            if (!fin) { P[best] = 0; bad[best] = 1; progress = false; break; }
            double alpha = 1; 
            for (size_t j = 0; j < idx.size(); j++) if (z[j] <= 0)
            { double xk = x(idx[j]); double al = xk / (xk - z[j]); if (!std::isfinite(al)) al = 0; alpha = std::min(alpha, al); }
            bool allpos = true; for (size_t j = 0; j < idx.size(); j++) if (z[j] <= 0) allpos = false;
            if (allpos) { for (size_t j = 0; j < idx.size(); j++) x(idx[j]) = z[j]; break; }
            for (size_t j = 0; j < idx.size(); j++)
            { x(idx[j]) += alpha * (z[j] - x(idx[j])); if (x(idx[j]) <= 1e-14) { x(idx[j]) = 0; P[idx[j]] = 0; if (idx[j] == best) { bad[best] = 1; progress = false; } } }
            bool any = false; for (int k = 0; k < n; k++) any |= P[k];
            if (!any) break;
         }
         if (progress) std::fill(bad.begin(), bad.end(), 0);
         residual();
      }
   }
};

} // namespace CAROM
#endif
