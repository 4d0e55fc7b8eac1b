// C13: a collection of reduced operators saved and loaded gives back every block of every member, matched by name.
#define VC_MAIN
#include "comp.hpp"
#include "rom_element_collection.hpp"
#include "dgref.hpp"

// ---- one block: 0 missing, 1 without entries, 2 diagonal, 3 full, 4 irregular pattern with entries that are zero
static SparseMatrix *block(int kind, long seed)
{
   if (kind == 0) return NULL; const int h = 1 + (seed % 4), w = kind == 2 ? h : 1 + (seed / 4) % 5; SparseMatrix *m = new SparseMatrix(h, w);
   for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { double v = dgref::irr(seed * 31 + i * 7 + j) * (i == 1 ? 1e12 : i == 2 ? 1e-11 : 1); if (kind == 1 || (kind == 2 && i != j) || (kind == 4 && (i + 2 * j + seed) % 3 == 0)) continue; m->Set(i, w - 1 - j, kind == 4 && (i + j) % 4 == 1 ? 0.0 : v); }
   m->Finalize(0); return m;
}
static string show(const SparseMatrix *m)
{
   ostringstream o; if (!m || m->NumNonZeroElems() == 0) return "none"; o.precision(17); o << m->Height() << "x" << m->Width(); map<pair<int, int>, double> e; const int *I = m->GetI(), *J = m->GetJ(); const double *D = m->GetData(); for (int i = 0; i < m->Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) e[{i, J[k]}] += D[k];
   for (auto &x : e) if (x.second != 0) o << " (" << x.first.first << "," << x.first.second << ")" << x.second; return o.str();
}
static long seedOf(const string &k, int content) { vc::Hash h; h.add(k); h.add(content); return (long) ((h.h >> 20) % 1000003); }
// kind of block number n (counted over all blocks of all members) of a content
typedef function<int(int n, const string &key)> Kinds;
typedef map<string, string> Content;   // key of a block -> what it holds

// names of the members, by component name and boundary attribute, not by position
struct Coll
{
   Setup s; unique_ptr<ComponentTopologyHandler> th; vector<unique_ptr<DG_FECollection>> fec; vector<unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> fes; unique_ptr<ROMLinearElement> el; int nvar; bool sep;
   Coll(const Setup &s_, int nvar_, bool sep_, ComponentTopologyHandler *) = delete;
   Coll(const Setup &s_, int nvar_, bool sep_) : s(s_), nvar(nvar_), sep(sep_)
   {
      dir = vc::tmpfile("e"); mkdir(dir.c_str(), 0700); writeGlobal(s, dir + "/global.h5", dir + "/bdr.h5"); config.dict_ = yaml(s, false, false); th.reset(new ComponentTopologyHandler);
      for (int c = 0; c < th->GetNumComponents(); c++) for (int v = 0; v < nvar; v++) { Mesh *m = th->GetComponentMesh(c); fec.emplace_back(new DG_FECollection(v % 2, m->Dimension())); own.emplace_back(new FiniteElementSpace(m, fec.back().get(), v + 1)); fes.Append(own.back().get()); }
      el.reset(new ROMLinearElement(th.get(), fes, sep));
   }
   void members(const function<void(const string &, MatrixBlocks *)> &f)
   {
      auto &E = *el; vc::eq(E.comp.Size(), (int) s.names.size(), "number of component members"); vc::eq(E.mass.Size(), (int) s.names.size(), "number of mass members"); vc::eq(E.bdr.Size(), (int) s.names.size(), "number of boundary members"); vc::eq(E.port.Size(), (int) s.refs.size(), "number of port members");
      for (size_t c = 0; c < s.names.size(); c++) { f("domain " + s.names[c], E.comp[c]); f("mass " + s.names[c], E.mass[c]); Mesh *m = th->GetComponentMesh(c); vc::eq(E.bdr[c]->Size(), m->bdr_attributes.Size(), "number of boundaries"); for (int b = 0; b < E.bdr[c]->Size(); b++) f("boundary " + s.names[c] + " " + S(m->bdr_attributes[b]), (*E.bdr[c])[b]); }
      for (int p = 0; p < E.port.Size(); p++) { int c1, c2, a1, a2; th->GetRefPortInfo(p, c1, c2, a1, a2); f("port " + s.names[c1] + " " + S(a1) + " " + s.names[c2] + " " + S(a2), E.port[p]); }
   }
   int count() { int n = 0; members([&](const string &, MatrixBlocks *m) { n += m->nrows * m->ncols; }); return n; }
   void fill(const Kinds &k, int content, Content &out_)
   {
      int n = 0; members([&](const string &key, MatrixBlocks *m) { const int r = m->nrows, c = m->ncols, bs = sep ? nvar : 1, want = key[0] == 'p' ? 2 * bs : bs; vc::check(r == want && c == want, "blocks of member " + key); m->SetSize(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { string b = key + " " + S(i) + "," + S(j); (*m)(i, j) = block(k(n++, b), seedOf(b, content)); out_[b] = show((*m)(i, j)); } });
   }
   void compare(const Content &want, const string &what)
   {
      int n = 0; members([&](const string &key, MatrixBlocks *m) { const int bs = sep ? nvar : 1, w = key[0] == 'p' ? 2 * bs : bs; vc::check(m->nrows == w && m->ncols == w && m->blocks.NumRows() == w && m->blocks.NumCols() == w, what + ": blocks of member " + key); for (int i = 0; i < w; i++) for (int j = 0; j < w; j++) { string b = key + " " + S(i) + "," + S(j), got = show((*m)(i, j)); auto it = want.find(b); vc::check(it != want.end(), "harness: block " + b); if (got != it->second) vc::fail(what + ": block " + b + " is " + got + " instead of " + it->second); n++; } });
      X.checks += n; X.transitions += n; vc::eq((int) H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR), 0, "files or groups left open");
   }
};
static void clean() { string c = "rm -rf ./" + vc::tmpfile("e"); int r = system(c.c_str()); (void) r; }
static void guarded(const function<void()> &f) { try { f(); } catch (...) { clean(); throw; } clean(); }
static void note(const Content &c) { vc::Hash h; for (auto &x : c) { h.add(x.first); h.add(x.second); } X.outcome(h.h); }

// ---- configurations: which components, in which order they and the ports are listed
struct Conf { const char *n; Kind k; vector<array<int, 3>> cells; vector<int> asg; };
static vector<Conf> confs()
{
   return {{"one mesh", QUAD, {{{0, 0, 0}}}, {0}}, {"one component twice", QUAD, {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 0}}, {"two components", TRI, {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}}, {"two components four meshes", QUAD, {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 1, 1, 0}},
           {"three components", QUAD, {{{1, 1, 0}}, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}}, {2, 0, 1, 2}}, {"two components 3D", HEX, {{{0, 0, 0}}, {{0, 1, 0}}, {{1, 0, 0}}}, {0, 1, 1}}, {"three components 3D", TET, {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 0, 1}}}, {1, 2, 0}}, {"part of two components four meshes", QUAD, {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}}, {"part of three components", QUAD, {{{1, 0, 0}}, {{2, 0, 0}}}, {1, 2}}};
}
static const char *cname(int c) { return c == 0 ? "square" : c == 1 ? "other comp" : "z3"; }
// perm: order in which the global configuration lists the components; ports: bit 0 reverses the order of the ports
static Setup setupOf(const Conf &c, const vector<int> &perm, int ports, int numbering, int source)
{
   auto sc = [=](int q) { return !numbering ? 0 : numbering >= 5 ? 5 - (q % 2) * (numbering - 5) : (numbering + q) % 5; }; Setup s; map<int, int> ix; set<int> u(c.asg.begin(), c.asg.end()); vector<int> used(u.begin(), u.end()); vector<int> scheme; for (int q : perm) { ix[used[q]] = s.names.size(); s.names.push_back(cname(used[q])); const int d = dimOf(c.k); s.files.push_back(meshFile(c.k, d == 2 ? 1 + used[q] % 2 * 0 : 1, 1, 1, {0, used[q]}, 0, 1, sc(used[q]))); scheme.push_back(sc(used[q])); }
   for (size_t m = 0; m < c.cells.size(); m++) place(s, ix[c.asg[m]], c.cells[m], 0); s.source = source; connect(s, dimOf(c.k), c.cells, 0, 1, {}); if (numbering) renumber(s, scheme); if (ports & 1) { reverse(s.refs.begin(), s.refs.end()); for (size_t i = 0; i < s.refs.size(); i++) s.yamlOrder.push_back(s.refs.size() - 1 - i); } return s;
}

void vc_main()
{
   config = InputParser(); const auto cf = confs(); const bool T = X.thorough; const string f = vc::tmpfile("rom.h5"), f2 = vc::tmpfile("rom2.h5");
   auto roundTrip = [=](Coll &a, Coll &b, const Kinds &k, int content) { Content want, junk; a.fill(k, content, want); if (content % 2) b.fill([](int n, const string &) { return 1 + n % 4; }, 91, junk); a.el->Save(f); a.compare(want, "after saving"); b.el->Load(f); b.compare(want, "loaded"); a.compare(want, "after loading elsewhere"); note(want); };
   // ---- every pattern of blocks, small collections
   struct Small { int c, nvar; bool sep; int kinds; }; vector<Small> sm = {{0, 1, false, 3}, {0, 1, true, T ? 5 : 3}, {1, 2, false, 2}};
   for (auto &q : sm) { const int lead = q.kinds; for (int k0 = 0; k0 < lead; k0++) for (int k1 = 0; k1 < lead; k1++) for (int k2 = 0; k2 < lead; k2++) X.run("patterns " + S(q.c) + " variables " + S(q.nvar) + " separate " + S(q.sep) + " " + S(k0) + S(k1) + S(k2), [=]() { guarded([&]() {
      Coll a(setupOf(cf[q.c], {0}, 0, 0, 0), q.nvar, q.sep), b(setupOf(cf[q.c], {0}, 0, 0, 0), q.nvar, q.sep); int n = a.count(); vector<int> rest(n - 3, q.kinds); int c = 0;
      vc::product(rest, [&](const vector<int> &r) { roundTrip(a, b, [&](int i, const string &) { int v = i == 0 ? k0 : i == 1 ? k1 : i == 2 ? k2 : r[i - 3]; return q.kinds == 5 ? v : v == 0 ? 0 : q.kinds == 2 ? 3 + (i + c) % 2 : v == 1 ? 4 - (c % 2) : 1 + (i + c) % 2; }, c++); }); }); }); }
   // several variables: every pattern of one member, the others full; ports with few blocks present or few missing
   for (int mem = 0; mem < 3; mem++) for (int k0 = 0; k0 < 5; k0++) for (int k1 = 0; k1 < 5; k1++) X.run("patterns of member " + S(mem) + " " + S(k0) + S(k1), [=]() { guarded([&]() { Coll a(setupOf(cf[0], {0}, 0, 0, 0), 2, true), b(setupOf(cf[0], {0}, 0, 0, 0), 2, true); int c = 0; vc::product({5, 5}, [&](const vector<int> &r) { roundTrip(a, b, [&](int i, const string &) { int j = i - 4 * mem; return j == 0 ? k0 : j == 1 ? k1 : j == 2 ? r[0] : j == 3 ? r[1] : 2 + i % 3; }, c++); }); }); });
   for (int inv = 0; inv < 2; inv++) for (int b0 = 0; b0 < 16; b0++) X.run("ports of two variables, " + string(inv ? "missing " : "present ") + S(b0), [=]() { guarded([&]() { Coll a(setupOf(cf[1], {0}, 0, 0, 0), 2, true), b(setupOf(cf[1], {0}, 0, 0, 0), 2, true); int c = 0; for (int b1 = b0; b1 < 16; b1++) for (int b2 = b1; b2 < 16; b2++) { int first = a.count() - 16; roundTrip(a, b, [&](int i, const string &) { int j = i - first; if (j < 0) return (i + c) % 5; bool in = j == b0 || j == b1 || j == b2; return in != (bool) inv ? 3 : 0; }, c++); } }); });
   // ---- configurations x variables x order of components and ports in the loading configuration
   for (size_t ci = 0; ci < cf.size(); ci++) for (int nvar = 1; nvar <= 3; nvar++) for (int sep = 0; sep < 2; sep++) for (int num = 0; num < (T ? 5 : 3); num++) for (int src = 0; src < 3; src++) X.run(string("orders ") + cf[ci].n + " variables " + S(nvar) + " separate " + S(sep) + " numbering " + S(num) + " source " + S(src), [=]() { guarded([&]() {
      const auto &C = cf[ci]; set<int> u(C.asg.begin(), C.asg.end()); vector<int> p(u.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; vector<vector<int>> perms; do perms.push_back(p); while (next_permutation(p.begin(), p.end())); int c = 0;
      for (auto &p1 : perms) for (auto &p2 : perms) for (int o = 0; o < 4; o++) { if (!T && perms.size() > 2 && (o + num + src + (int) ((&p1 - &perms[0]) * 3 + (&p2 - &perms[0]))) % 4) continue; Coll a(setupOf(C, p1, o & 1, num, src), nvar, sep), b(setupOf(C, p2, o >> 1, num, src), nvar, sep); for (int k = 0; k < 2; k++) { roundTrip(a, b, [&](int n, const string &key) { return k ? (int) (seedOf(key, 5) % 5) : 2 + n % 3; }, c++); } } }); });
   // boundary numbers of several digits: ports whose names are alike
   vector<Conf> digits = {{"one component four meshes", QUAD, {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 0, 0, 0}}, cf[3], cf[4], cf[6], {"one component in a corner", HEX, {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}, {0, 0, 0, 0}}};
   for (size_t ci = 0; ci < digits.size(); ci++) for (int nvar = 1; nvar <= 2; nvar++) for (int sep = 0; sep < 2; sep++) for (int num = 5; num < 7; num++) for (int o = 0; o < 4; o++) X.run(string("digits ") + digits[ci].n + " variables " + S(nvar) + " separate " + S(sep) + " numbering " + S(num) + " order " + S(o), [=]() { guarded([&]() {
      const auto &C = digits[ci]; set<int> u(C.asg.begin(), C.asg.end()); vector<int> p(u.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; do { Coll a(setupOf(C, p, o & 1, num, 0), nvar, sep), b(setupOf(C, p, o >> 1, num, 0), nvar, sep); for (int k = 0; k < 2; k++) roundTrip(a, b, [&](int n, const string &key) { return k ? (int) (seedOf(key, 5) % 5) : 3; }, k); } while (next_permutation(p.begin(), p.end())); }); });
   // ---- a collection of a larger set of components and ports gives the operators of the components and ports in use
   for (auto &pr : vector<pair<int, int>>{{3, 7}, {4, 8}}) for (int nvar = 1; nvar <= 2; nvar++) for (int sep = 0; sep < 2; sep++) for (int num = 0; num < 5; num++) for (int o = 0; o < 4; o++) X.run("larger collection " + S(pr.first) + " variables " + S(nvar) + " separate " + S(sep) + " numbering " + S(num) + " order " + S(o), [=]() { guarded([&]() {
      const auto &A = cf[pr.first], &B = cf[pr.second]; set<int> ua(A.asg.begin(), A.asg.end()), ub(B.asg.begin(), B.asg.end()); vector<int> pa(ua.size()), pb(ub.size()); for (size_t i = 0; i < pa.size(); i++) pa[i] = i; for (size_t i = 0; i < pb.size(); i++) pb[i] = o & 2 ? pb.size() - 1 - i : i; do { Coll a(setupOf(A, pa, o & 1, num, 0), nvar, sep), b(setupOf(B, pb, o >> 1, num, 0), nvar, sep); for (int c = 0; c < 2; c++) roundTrip(a, b, [&](int n, const string &key) { return c ? (int) (seedOf(key, 6) % 5) : 3; }, c); } while (next_permutation(pa.begin(), pa.end())); }); });
   // ---- histories: every sequence of filling, saving to one of two files and loading, on one collection and on two that share the files
   const int depth = T ? 6 : 5; const char *on[] = {"fill", "fill another", "save", "save to the second file", "load", "load the second file"};
   for (int two = 0; two < 2; two++) for (int o0 = 0; o0 < 4; o0++) for (int o1 = 0; o1 < 6; o1++) X.run(string("history ") + S(two) + ": " + on[o0] + ", " + on[o1], [=]() { guarded([&]() {
      unique_ptr<Coll> c[2]; for (int i = 0; i <= two; i++) c[i].reset(new Coll(setupOf(cf[2], i ? vector<int>{1, 0} : vector<int>{0, 1}, i, 0, 0), 1, false)); if (!two) c[0].reset(new Coll(setupOf(cf[0], {0}, 0, 0, 0), 1, true));
      vc::product(vector<int>(depth - 2 - two, 6), [&](const vector<int> &r) { vector<int> ops = {o0, o1}; ops.insert(ops.end(), r.begin(), r.end()); unlink(f.c_str()); unlink(f2.c_str()); Content held[2], disk[2]; bool have[2] = {false, false}; for (int i = 0; i <= two; i++) c[i]->fill([](int n, const string &) { return n % 5; }, 3, held[i]); int step = 0; string done_;
         for (int op : ops) for (int i = 0; i <= two; i++) { if (two && (step++ + (int) ops.size()) % 2 != i) continue; int fi = op % 2; const string &fn = fi ? f2 : f; if (op < 2) { held[i].clear(); c[i]->fill([&](int n, const string &key) { return op ? (n % 2 ? 0 : 3) : (int) (seedOf(key, 8) % 5); }, 10 + op, held[i]); } else if (op < 4) { c[i]->el->Save(fn); disk[fi] = held[i]; have[fi] = true; } else { if (!have[fi]) continue; c[i]->el->Load(fn); held[i] = disk[fi]; } done_ += string(" ") + on[op]; for (int j = 0; j <= two; j++) c[j]->compare(held[j], "after" + done_); } note(held[0]); }); }); });
}
