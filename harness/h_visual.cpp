// C22: files for viewing. What is written for ParaView is read back, and compared point by point with the solution files,
// the states of the run, the reduced bases and the differences of the two solutions; sampled quadrature points likewise.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "rom.hpp"
#include <dirent.h>

// ---- reader of what MFEM writes
struct Vtu { vector<array<double, 3>> pts; vector<vector<int>> cells; map<string, vector<vector<double>>> f; };
static string slurp(const string &file) { ifstream i(file, ios::binary); vc::check(i.good(), "no file " + file); stringstream s; s << i.rdbuf(); return s.str(); }
static string attrOf(const string &tag, const string &key) { size_t p = tag.find(" " + key + "=\""); if (p == string::npos) return ""; p += key.size() + 3; return tag.substr(p, tag.find('"', p) - p); }
static vector<unsigned char> unbase64(const string &s)
{
   vector<unsigned char> o; int acc = 0, bits = 0; for (char c : s) { int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (v < 0) continue; acc = (acc << 6 | v) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; o.push_back(acc >> bits & 255); } } return o;
}
static vector<double> data(const string &type, const string &format, const string &body)
{
   vector<double> o; if (format == "ascii") { istringstream i(body); double x; while (i >> x) o.push_back(x); return o; }
   size_t b = body.find_first_not_of(" \n\t"); vc::check(b != string::npos, "empty data"); auto h = unbase64(body.substr(b, 8)); uint32_t n; memcpy(&n, h.data(), 4); auto d = unbase64(body.substr(b + 8)); vc::eq(d.size(), (size_t) n, "length of the data");
   const int w = type == "Float64" ? 8 : type == "Int32" || type == "Float32" ? 4 : 1; for (size_t i = 0; i + w <= d.size(); i += w) { if (type == "Float64") { double x; memcpy(&x, &d[i], 8); o.push_back(x); } else if (type == "Float32") { float x; memcpy(&x, &d[i], 4); o.push_back(x); } else if (w == 4) { int32_t x; memcpy(&x, &d[i], 4); o.push_back(x); } else o.push_back(d[i]); } return o;
}
static Vtu readVtu(const string &file)
{
   const string s = slurp(file); Vtu r; vector<double> conn, offs; bool inPoints = false, inCells = false, inData = false;
   for (size_t p = s.find('<'); p != string::npos; p = s.find('<', p + 1))
   {
      size_t e = s.find('>', p); string tag = s.substr(p, e - p + 1); if (tag.find("<Points") == 0) inPoints = true; if (tag.find("</Points") == 0) inPoints = false; if (tag.find("<Cells") == 0) inCells = true; if (tag.find("</Cells") == 0) inCells = false; if (tag.find("<PointData") == 0) inData = true; if (tag.find("</PointData") == 0) inData = false;
      if (tag.find("<DataArray") != 0) continue; string body = s.substr(e + 1, s.find('<', e + 1) - e - 1); auto v = data(attrOf(tag, "type"), attrOf(tag, "format"), body); const string nm = attrOf(tag, "Name");
      if (inPoints) for (size_t i = 0; i + 2 < v.size(); i += 3) r.pts.push_back({{v[i], v[i + 1], v[i + 2]}});
      else if (inCells) { if (nm == "connectivity") conn = v; if (nm == "offsets") offs = v; }
      else if (inData) { int nc = max(1, atoi(attrOf(tag, "NumberOfComponents").c_str())); vc::check(!r.f.count(nm), "field twice: " + nm); auto &q = r.f[nm]; for (size_t i = 0; i + nc <= v.size(); i += nc) q.push_back(vector<double>(v.begin() + i, v.begin() + i + nc)); }
   }
   size_t b = 0; for (double o : offs) { r.cells.push_back(vector<int>(conn.begin() + b, conn.begin() + (size_t) o)); b = (size_t) o; } vc::check(b == conn.size() && b > 0, "cells of " + file); return r;
}
static set<string> entries(const string &d) { set<string> r; DIR *p = opendir(d.c_str()); if (!p) return r; while (dirent *e = readdir(p)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(p); return r; }
static set<int> cycles(const string &coll) { set<int> r; for (auto &e : entries(coll)) if (e.find("Cycle") == 0) r.insert(atoi(e.c_str() + 5)); return r; }
static Vtu cycleFile(const string &coll, int cycle) { string d; for (auto &e : entries(coll)) if (e.find("Cycle") == 0 && atoi(e.c_str() + 5) == cycle) d = coll + "/" + e; vc::check(d.size(), coll + ": no cycle " + S(cycle)); return readVtu(d + "/proc000000.vtu"); }
static void removeTree(const string &d) { string c = "rm -rf ./" + d + " ./" + d + ".pvd"; int r = system(c.c_str()); (void) r; }
// entries of the list of a collection: cycle -> times
static multimap<int, double> listOf(const string &coll)
{
   const string base = coll.substr(coll.rfind('/') + 1), s = slurp(coll + "/" + base + ".pvd"); multimap<int, double> r; for (size_t p = s.find("<DataSet"); p != string::npos; p = s.find("<DataSet", p + 1)) { string tag = s.substr(p, s.find('>', p) - p + 1), f = attrOf(tag, "file"); vc::check(access((coll + "/" + f).c_str(), F_OK) == 0, coll + " lists a file which is not there: " + f); r.insert({atoi(f.c_str() + f.find("Cycle") + 5), atof(attrOf(tag, "timestep").c_str())}); } return r;
}

// ---- what should be there: functions on the subdomain meshes
struct Ref { vector<Mesh *> mesh; map<string, vector<GridFunction *>> f; };   // field -> function of every subdomain
static vector<double> valueAt(GridFunction &g, int e, const IntegrationPoint &ip) { Vector v; if (g.FESpace()->GetVDim() == 1) return {g.GetValue(e, ip)}; g.GetVectorValue(e, ip, v); return vector<double>(v.GetData(), v.GetData() + v.Size()); }
static bool inside(Mesh &m, int e, const array<double, 3> &p, IntegrationPoint &ip)
{
   const int d = m.Dimension(); ElementTransformation *T = m.GetElementTransformation(e); Vector x(d), y(d); for (int k = 0; k < d; k++) x(k) = p[k]; InverseElementTransformation inv(T); inv.SetPhysicalRelTol(1e-13); inv.SetReferenceTol(1e-12); const int st = inv.Transform(x, ip); if (st != InverseElementTransformation::Inside && !Geometry::CheckPoint(m.GetElementBaseGeometry(e), ip, 1e-7)) return false; T->Transform(ip, y); for (int k = 0; k < d; k++) if (fabs(y(k) - x(k)) > 1e-7) return false; return true;
}
// only: the subdomain the file is for, or -1 for all of them. Points shared by subdomains may have the value of either (shared)
static void compare(const Vtu &v, const Ref &R, int only, bool shared, const string &what, bool absolute = false, vc::Hash *H = NULL)
{
   vector<array<int, 2>> els; for (size_t m = 0; m < R.mesh.size(); m++) if (only < 0 || only == (int) m) for (int e = 0; e < R.mesh[m]->GetNE(); e++) els.push_back({{(int) m, e}}); set<array<int, 2>> used; const int d = R.mesh[0]->Dimension();
   vc::eq(v.cells.size(), els.size(), what + ": number of cells"); set<string> names; for (auto &f : v.f) names.insert(f.first); for (auto &f : R.f) vc::check(names.count(f.first), what + ": field " + f.first + " is missing"); vc::eq(names.size(), R.f.size(), what + ": number of fields");
   double top = 1e-3; for (auto &f : R.f) for (size_t m = 0; m < R.mesh.size(); m++) top = max(top, f.second[m]->Normlinf());
   for (auto &c : v.cells)
   {
      array<int, 2> me = {{-1, -1}}; vector<IntegrationPoint> ips(c.size());
      for (auto &q : els) { bool all = true; for (size_t i = 0; i < c.size() && all; i++) all = inside(*R.mesh[q[0]], q[1], v.pts[c[i]], ips[i]); if (all) { me = q; break; } }
      vc::check(me[0] >= 0, what + ": a cell is not an element of the mesh"); vc::check(used.insert(me).second, what + ": an element is there twice");
      // the whole element
      { Array<int> vs; R.mesh[me[0]]->GetElementVertices(me[1], vs); for (int i = 0; i < vs.Size(); i++) { Geometry::Type G = R.mesh[me[0]]->GetElementBaseGeometry(me[1]); const IntegrationPoint &ip = Geometries.GetVertices(G)->IntPoint(i); Vector x; R.mesh[me[0]]->GetElementTransformation(me[1])->Transform(ip, x); bool got = false; for (int k : c) { double e = 0; for (int q = 0; q < d; q++) e = max(e, fabs(v.pts[k][q] - x(q))); got |= e < 1e-7; } vc::check(got, what + ": a corner of an element is missing"); } }
      for (auto &f : R.f) for (size_t i = 0; i < c.size(); i++)
      {
         auto &got = v.f.at(f.first).at(c[i]); auto want = valueAt(*f.second[me[0]], me[1], ips[i]); vc::check(got.size() >= want.size(), what + ": components of " + f.first); for (size_t k = want.size(); k < got.size(); k++) vc::check(got[k] == 0, what + ": extra component of " + f.first);
         auto close = [&](const vector<double> &w) { for (size_t k = 0; k < w.size(); k++) { const double g = absolute ? fabs(got[k]) : got[k], x = absolute ? fabs(w[k]) : w[k]; if (!(fabs(g - x) <= 1e-8 * top)) return false; } return true; }; X.checks++;
         bool ok = close(want); if (!ok && shared) for (auto &q : els) { IntegrationPoint ip; if (q[0] != me[0] && inside(*R.mesh[q[0]], q[1], v.pts[c[i]], ip) && close(valueAt(*f.second[q[0]], q[1], ip))) ok = true; }
         if (!ok) { ostringstream o; o.precision(12); o << what << ": " << f.first << " at (" << v.pts[c[i]][0] << "," << v.pts[c[i]][1] << "," << v.pts[c[i]][2] << ") of subdomain " << me[0] << ": got"; for (double g : got) o << " " << g; o << ", expected"; for (double g : want) o << " " << g; vc::fail(o.str()); }
         if (H) H->add(lround(got[0] * 1e4));
      }
   }
}
// the solver's spaces with functions of our own
struct Fields
{
   vector<unique_ptr<FiniteElementSpace>> fs; vector<unique_ptr<GridFunction>> fn; Full &F;
   Fields(Full &F_) : F(F_) {}
   Ref of(const vector<pair<string, Vector>> &u, bool flow)   // suffix of the names -> vector of the size of the solution
   {
      Ref R; for (int m = 0; m < F.K; m++) R.mesh.push_back(F.s->meshes[m]);
      for (auto &q : u) for (int v = 0; v < F.nv; v++) for (int m = 0; m < F.K; m++) { FiniteElementSpace *fe = F.s->fes[m * F.nv + v]; fn.emplace_back(new GridFunction(fe)); vc::eq(fe->GetVSize(), F.off[m * F.nv + v + 1] - F.off[m * F.nv + v], "size of a block"); for (int i = 0; i < fe->GetVSize(); i++) (*fn.back())(i) = q.second(F.off[m * F.nv + v] + i); R.f[varName(v) + q.first].push_back(fn.back().get()); }
      if (flow) for (int m = 0; m < F.K; m++) { fs.emplace_back(new FiniteElementSpace(F.s->meshes[m], F.s->fec[0], DIM)); fn.emplace_back(new GridFunction(fs.back().get())); VectorFunctionCoefficient q(DIM, [](const Vector &x, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = 0.8 * gen(x, 5, k); }); fn.back()->ProjectCoefficient(q); R.f["flow"].push_back(fn.back().get()); }
      return R;
   }
};

struct View { bool unified = false, error = false; int offset = 0, freq = 1, ti = 99; string name() const { string s = unified ? "unified" : "offset " + S(offset) + " frequency " + S(freq); if (error) s += " error"; if (ti != 99) s += " every " + S(ti); return s; } bool has(int m) const { return m >= offset && m % freq == 0; } };
static void setView(const View &v) { YAML::Node y; y["enabled"] = true; y["unified_paraview"] = v.unified; if (!v.unified && (v.offset || v.freq > 1)) { y["domain_offset"] = v.offset; y["domain_frequency"] = v.freq; } if (v.error) y["visualize_error"] = true; if (v.ti != 99) y["time_interval"] = v.ti; y["file_path"]["directory"] = dir; y["file_path"]["prefix"] = "pv"; config.dict_["visualization"] = y; }
static void noView() { YAML::Node y; y["enabled"] = false; config.dict_["visualization"] = y; }
// collections that were written, and their subdomains
static vector<pair<string, int>> collections(const View &v, int K, const string &prefix, const string &what)
{
   vector<pair<string, int>> r; if (v.unified) r.push_back({prefix, -1}); else for (int m = 0; m < K; m++) if (v.has(m)) r.push_back({prefix + "_" + S(m), m});
   set<string> want; for (auto &q : r) want.insert(q.first); const string d = prefix.substr(0, prefix.rfind('/')), base = prefix.substr(prefix.rfind('/') + 1); for (auto &e : entries(d)) if (e.find(base) == 0) { struct stat st; if (stat((d + "/" + e).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) vc::check(want.count(d + "/" + e), what + ": should not be there: " + e); } for (auto &w : want) vc::check(entries(w).size(), what + ": not written: " + w); return r;
}
static void clearViews(int K, const string &prefix) { removeTree(prefix); for (int m = 0; m < K; m++) removeTree(prefix + "_" + S(m)); }
static vector<View> views(int K, bool comp, bool error)
{
   vector<View> r; if (!comp) { View v; v.unified = true; v.error = error; r.push_back(v); } for (int o = 0; o < K; o++) for (int f = 1; f <= K; f++) { View v; v.offset = o; v.freq = f; v.error = error; r.push_back(v); } return r;
}
static Vector solutionFile(const string &f) { Vector v; readSolution(f, v); return v; }
static Vector minus_(const Vector &a, const Vector &b) { Vector r(a); r -= b; return r; }
static bool sharedPoints(Full &F) { return !F.s->full_dg; }

struct Case { Geo g; Opt o; bool unsteady = false, rom = false, sep = false; };
static string id(const Case &c) { return c.g.id + ": " + (c.unsteady ? "unsteady" : pname[c.o.ph]) + " order " + S(c.o.order) + (c.o.dg ? " dg" : "") + (c.rom ? c.sep ? " reduced separate" : " reduced" : ""); }

// no view of the whole domain: components, or shared points whose values reach into the points shown of a neighbour (velocities
// of degree three shown with quadratic elements)
static bool wide(const Case &c) { return c.g.comp || (!c.o.dg && c.o.order > 1 && (c.unsteady || c.o.ph >= STOKES)); }
// the program sol2paraview: the state of a file
extern "C" int vc_prog_sol2paraview(int, char **);
static bool inProgram = false;
extern "C" { int __real_MPI_Init(int *, char ***); int __wrap_MPI_Init(int *a, char ***b) { return inProgram ? MPI_SUCCESS : __real_MPI_Init(a, b); } int __real_MPI_Finalize(); int __wrap_MPI_Finalize() { return inProgram ? MPI_SUCCESS : __real_MPI_Finalize(); } }
static void fromFile(const Case &c, Full &F, Fields &Q)
{
   if (PH == ADVDIFF) return;   // shows the flow, which is not in the file
   Vector u(F.off.back()); for (int i = 0; i < u.Size(); i++) u(i) = sin(2.3 * i) + 0.2 * (i % 5); { hid_t f = H5Fcreate((dir + "/any.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(f, "solution", u); H5Fclose(f); }
   for (int rom = 0; rom < 2; rom++) for (auto &v : views(F.K, wide(c), false))
   {
      setView(v); clearViews(F.K, dir + "/pv"); YAML::Node n = YAML::Clone(config.dict_); n["sol2paraview"]["solution_file"] = dir + "/any.h5"; n["main"]["solver"] = solverName[PH]; n["main"]["use_rom"] = (bool) rom; { ofstream o(dir + "/sol2.yml"); o << n << endl; } const string what = "sol2paraview " + v.name();
      const int st = vc::in_child([&]() { string in = dir + "/sol2.yml"; char *a[] = {(char *) "sol2paraview", (char *) "-i", &in[0], NULL}; inProgram = true; config = InputParser(); int r = vc_prog_sol2paraview(3, a); fflush(NULL); _exit(r); }); X.transitions++; vc::check(vc::child_ok(st), what + ": fails (status " + S(st) + ")"); Ref R = Q.of({{"", u}}, false); vc::Hash h; h.add(what);
      for (auto &q : collections(v, F.K, dir + "/pv", what)) { auto cs = cycles(q.first); vc::eq((int) cs.size(), 1, what + ": number of states"); compare(cycleFile(q.first, *cs.begin()), R, q.second, v.unified && sharedPoints(F), what, false, &h); } X.outcome(h.h);
   }
   if (PH == POISSON)
   {
      // the example of the main program
      PoissonSolver s; noView(); s.InitVariables(); s.AddBCFunction(function<double(const Vector &, double)>([](const Vector &x, double) { return 0.1 - 0.1 * (x(1) - 1.0) * (x(1) - 1.0); }), 2); s.AddBCFunction(function<double(const Vector &, double)>([](const Vector &x, double) { return -0.1 + 0.1 * (x(1) - 1.0) * (x(1) - 1.0); }), 4); s.AddRHSFunction(1.0); s.BuildOperators(); s.SetupBCOperators(); s.Assemble(); vc::check(s.Solve(), "the example did not converge");
      View v; setView(v); clearViews(F.K, dir + "/pv"); RunExample(); X.transitions++; Ref R = Q.of({{"", *s.U}}, false); for (auto &q : collections(v, F.K, dir + "/pv", "example")) { auto cs = cycles(q.first); vc::eq((int) cs.size(), 1, "example: number of states"); compare(cycleFile(q.first, *cs.begin()), R, q.second, false, "example", false, NULL); }
   }
   noView();
}
// every choice of subdomains, steady
static void single(const Case &c, Full &F, Fields &Q)
{
   for (auto &v : views(F.K, wide(c), false))
   {
      setView(v); clearViews(F.K, dir + "/pv"); unlink((dir + "/solution.h5").c_str()); SingleRun(MPI_COMM_WORLD, ""); X.transitions++; Vector u = solutionFile(dir + "/solution.h5"); Ref R = Q.of({{"", u}}, PH == ADVDIFF); vc::Hash h; h.add(v.name());
      for (auto &q : collections(v, F.K, dir + "/pv", v.name())) { auto cs = cycles(q.first); vc::eq((int) cs.size(), 1, v.name() + ": number of states"); vc::eq((int) listOf(q.first).size(), 1, v.name() + ": states listed"); compare(cycleFile(q.first, *cs.begin()), R, q.second, v.unified && sharedPoints(F), v.name(), false, &h); } X.outcome(h.h);
   }
   noView(); fromFile(c, F, Q);
}
// histories of states given to one solver: with and without step and time
static void histories(const Case &c, Full &F, Fields &Q)
{
   const int len = X.thorough ? 4 : 3; vector<View> vs; if (!wide(c)) { View v; v.unified = true; vs.push_back(v); } { View v; vs.push_back(v); v.offset = F.K - 1; vs.push_back(v); v.offset = 0; v.freq = F.K; if (F.K > 1) vs.push_back(v); }
   for (auto &v : vs) vc::product(vector<int>(len, 3), [&](const vector<int> &ops) {
      // operations: 0 without a step, 1 with the next step, 2 with the same step again
      setView(v); clearViews(F.K, dir + "/pv"); unique_ptr<MultiBlockSolver> s(make(PH)); s->InitVariables(); s->InitVisualization(); VcProblem p; p.SetSingleRun(); s->SetParameterizedProblem(&p); const string what = v.name() + " history " + vc::str(ops);
      int step = -1; const int none = 0; double t = 0; map<int, pair<Vector, double>> want; set<int> stepped; int n = 0;
      for (int op : ops) { Vector w(F.off.back()); for (int i = 0; i < w.Size(); i++) (*s->U)(i) = w(i) = sin(1.7 * i + 3.1 * n) + n; n++; if (op) { if (op == 1 || step < 0) { step += op == 1 ? 2 : 1; t = 0.25 * step; } s->SaveVisualization(step, t); want[step] = {w, t}; } else { s->SaveVisualization(); want[step < 0 ? none : step] = {w, t}; } X.transitions++; }
      vc::Hash h; h.add(what);
      for (auto &q : collections(v, F.K, dir + "/pv", what))
      {
         auto cs = cycles(q.first); vc::eq(cs.size(), want.size(), what + ": number of states"); auto L = listOf(q.first); for (auto &l : L) vc::check(cs.count(l.first), what + ": list"); for (int k : cs) vc::check(L.count(k), what + ": cycle " + S(k) + " is not listed");
         for (auto &w : want) { int k = w.first; vc::check(cs.count(k), what + ": no cycle " + S(k)); Ref R = Q.of({{"", w.second.first}}, PH == ADVDIFF); compare(cycleFile(q.first, k), R, q.second, v.unified && sharedPoints(F), what + " cycle " + S(k), false, &h); if (w.second.second > 0) for (auto l = L.lower_bound(k); l != L.upper_bound(k); ++l) vc::near(l->second, w.second.second, what + ": time of cycle " + S(k), 1, 1e-6); }
      }
      X.outcome(h.h);
   });
   noView();
}
static void sampling(const Case &c, Full &F, Fields &Q)
{
   if (c.unsteady) { config.dict_["sample_generation"]["time-integration"]["sample_interval"] = 1; config.dict_["time-integration"]["number_of_timesteps"] = 2; }
   for (int unified = 0; unified < (wide(c) ? 1 : 2); unified++)
   {
      View v; v.unified = unified; setView(v); config.dict_["visualization"]["file_path"]["prefix"] = "view"; config.dict_["sample_generation"]["file_path"]["offset"] = 3; GenerateSamples(MPI_COMM_WORLD); X.transitions++;
      for (int i = 0; i < 4; i++) { const string what = "sample " + S(i); Vector u = solutionFile(dir + "/sample" + S(3 + i) + "_solution.h5"); Ref R = Q.of({{"", u}}, PH == ADVDIFF); vc::Hash h; for (auto &q : collections(v, F.K, dir + "/sample" + S(3 + i) + "_view", what)) { auto cs = cycles(q.first); vc::eq((int) cs.size(), c.unsteady ? 3 : 1, what + ": states"); compare(cycleFile(q.first, *cs.rbegin()), R, q.second, v.unified && sharedPoints(F), what, false, &h); } X.outcome(h.h); clearViews(F.K, dir + "/sample" + S(3 + i) + "_view"); }
   }
   noView(); config.dict_["sample_generation"]["file_path"]["offset"] = 0;
}
// runs in time: every interval, restarted anywhere
static void inTime(const Case &c, Full &F, Fields &Q)
{
   const int N = 3; auto fileOf = [&](int n) { char b[32]; snprintf(b, sizeof b, "_%08d.h5", n); return dir + "/solution" + b; }; const double dt = 0.05; YAML::Node ti = config.dict_["time-integration"]; ti["timestep_size"] = dt; config.dict_["save_solution"]["restart_interval"] = 1; noView(); ti["number_of_timesteps"] = N; SingleRun(MPI_COMM_WORLD, ""); vector<Vector> u; for (int n = 0; n <= N; n++) { u.push_back(solutionFile(fileOf(n))); rename(fileOf(n).c_str(), (dir + "/keep" + S(n) + ".h5").c_str()); }
   for (int unified = 0; unified < (wide(c) ? 1 : 2); unified++) for (int sel = 0; sel < (unified ? 1 : 3); sel++) for (int every = 0; every <= N + 1; every++) for (int nt = 0; nt <= N; nt++) for (int from = -1; from <= nt; from++)
   {
      if (from == 0 || (sel && from > 0)) continue; View v; v.unified = unified; v.ti = every; if (sel == 1) v.offset = F.K - 1; if (sel == 2) v.freq = F.K; const string what = v.name() + " steps " + S(from < 0 ? 0 : from) + "-" + S(nt);
      setView(v); clearViews(F.K, dir + "/pv"); ti["number_of_timesteps"] = nt; config.dict_["solver"]["use_restart"] = from >= 0; if (from >= 0) config.dict_["solver"]["restart_file"] = dir + "/keep" + S(from) + ".h5"; SingleRun(MPI_COMM_WORLD, ""); X.transitions++; config.dict_["solver"]["use_restart"] = false;
      const int first = max(from, 0); set<int> want = {first, nt}; for (int n = first + 1; n <= nt; n++) if (every && n % every == 0) want.insert(n); vc::Hash h; h.add(what);
      for (auto &q : collections(v, F.K, dir + "/pv", what))
      {
         auto cs = cycles(q.first); for (int k : want) vc::check(cs.count(k), what + ": step " + S(k) + " is missing"); for (int k : cs) vc::check(want.count(k), what + ": step " + S(k) + " should not be there"); auto L = listOf(q.first); for (int k : want) { vc::check(L.count(k), what + ": step " + S(k) + " is not listed"); for (auto l = L.lower_bound(k); l != L.upper_bound(k); ++l) vc::near(l->second, k * dt, what + ": time of step " + S(k), 1, 1e-6); }
         for (int k : want) { Ref R = Q.of({{"", u[k]}}, false); compare(cycleFile(q.first, k), R, q.second, v.unified && sharedPoints(F), what + " step " + S(k), false, &h); }
      }
      X.outcome(h.h);
   }
   noView(); config.dict_["save_solution"]["restart_interval"] = 0;
}
// bases, reduced solutions and their errors, sampled quadrature points
static void reduced(const Case &c, Full &F, Fields &Q)
{
   const bool sep = c.sep, eqp = c.g.comp && PH >= NSBASE; noView(); config.dict_["main"]["use_rom"] = false; GenerateSamples(MPI_COMM_WORLD); X.transitions++; map<string, int> rank;
   for (size_t k = 0; k < F.comp.size(); k++) for (int v = 0; v < (sep ? F.nv : 1); v++) { const string t = bname(F, k, v, sep); auto M = CAROM::shim::read(dir + "/s_sample_" + t + "_snapshot", "snapshot_matrix"); vector<double> a; for (int j = 0; j < M.numColumns(); j++) for (int i = 0; i < M.numRows(); i++) a.push_back(M.item(i, j)); auto s = singular(a, M.numRows(), M.numColumns()); int r = 0; while (r < (int) s.size() && s[r] > 1e-8 * s[0]) r++; rank[t] = max(1, min(r, k % 2 ? 2 : 3) - (v ? 1 : 0)); }
   config.dict_["main"]["use_rom"] = true; config.dict_["basis"]["prefix"] = dir + "/b"; YAML::Node tags; for (auto &t : rank) { YAML::Node q; q["name"] = t.first; q["number_of_basis"] = t.second; tags.push_back(q); } config.dict_["basis"]["tags"] = tags; config.dict_["basis"]["visualization"]["enabled"] = true; config.dict_["basis"]["visualization"]["prefix"] = dir + "/bv";
   YAML::Node m = config.dict_["model_reduction"]; m["separate_variable_basis"] = sep; m["save_operator"]["prefix"] = dir + "/rom"; m["linear_solver_type"] = "direct"; m["linear_system_type"] = "us"; m["ordering"] = "domain"; config.dict_["sample_collection"]["mode"] = PH == NSLF ? "port" : "basis"; if (PH >= NSBASE) { m["nonlinear_handling"] = eqp ? "eqp" : "tensor"; m["eqp"]["relative_tolerance"] = 1e-3; m["eqp"]["precompute"] = false; }
   m["save_operator"]["level"] = eqp ? "component" : "global"; TrainROM(MPI_COMM_WORLD); if (eqp) TrainEQP(MPI_COMM_WORLD); BuildROM(MPI_COMM_WORLD); X.transitions += 2; const bool sup = sep && F.nv == 2;
   // every vector of every basis is shown on its component
   {
      Fields P(F); map<int, map<string, Vector>> byComp; set<string> dirs; for (auto &e : entries(dir)) if (e.find("bv") == 0 && e.find(".") == string::npos) dirs.insert(e);
      vector<int> first(F.comp.size(), -1); for (int q = F.K - 1; q >= 0; q--) first[F.type[q]] = q;
      int shown = 0, want = 0; for (size_t k = 0; k < F.comp.size(); k++)
      {
         // fields expected of this component: variable v, vector j
         map<string, pair<int, Vector>> fs; for (int v = 0; v < F.nv; v++)
         {
            const string t = bname(F, k, v, sep); DenseMatrix B = loadBasis(dir + "/b_" + t, rank[t]); int lo = 0; const int mm = first[k]; if (!sep) lo = F.off[mm * F.nv + v] - F.off[mm * F.nv]; const int n = F.off[mm * F.nv + v + 1] - F.off[mm * F.nv + v]; int j = 0; auto add = [&](const DenseMatrix &D, int w) { for (int q = 0; q < w; q++) { Vector x(n); for (int i = 0; i < n; i++) x(i) = D(lo + i, q); fs[varName(v) + "_basis_" + S(j++)] = {v, x}; } }; add(B, B.Width());
            if (sup && v == 0) { DenseMatrix sp; hid_t f = H5Fopen((dir + "/b_" + F.comp[k] + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); hdf5_utils::ReadDataset(f, "supremizer_basis", sp); H5Fclose(f); add(sp, rank[bname(F, k, 1, true)]); }
         }
         want++; const string coll = dir + "/bv_" + S(k); vc::check(entries(coll).size(), "basis of component " + S(k) + " is not shown"); shown++;
         // a component that is placed: the mesh shown may be that of any of its subdomains
         auto cs = cycles(coll); vc::eq((int) cs.size(), 1, "states of a basis"); Vtu vt = cycleFile(coll, *cs.begin()); string err; bool ok = false;
         for (int mm = 0; mm < F.K && !ok; mm++) if (F.type[mm] == (int) k)
         {
            Ref R; R.mesh = {F.s->meshes[mm]}; for (auto &q : fs) { P.fn.emplace_back(new GridFunction(F.s->fes[mm * F.nv + q.second.first])); (*P.fn.back()) = 0.0; for (int i = 0; i < q.second.second.Size(); i++) (*P.fn.back())(i) = q.second.second(i); R.f[q.first] = {P.fn.back().get()}; }
            try { vc::Hash h; compare(vt, R, 0, false, "basis of component " + S(k), false, &h); X.outcome(h.h); ok = true; } catch (vc::Failure &e) { if (err.empty()) err = e.msg; }
         }
         vc::check(ok, err);
      }
      vc::eq((int) dirs.size(), want, "number of bases shown"); (void) shown;
   }
   config.dict_["basis"]["visualization"]["enabled"] = false;
   // sampled points
   if (eqp && PH >= NSBASE)
   {
      config.dict_["model_reduction"]["eqp"]["save_coords"] = dir + "/coords.h5"; PrintEQPCoords(MPI_COMM_WORLD); X.transitions++; hid_t f = H5Fopen((dir + "/coords.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f >= 0, "no coordinates"); hid_t g = H5Gopen2(f, "components", H5P_DEFAULT); hid_t f2 = H5Fopen((dir + "/rom.eqp.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f2 >= 0, "no sampled points"); hid_t g2 = H5Gopen2(f2, "components", H5P_DEFAULT); int nc = -1; hdf5_utils::ReadAttribute(g, "number_of_components", nc); vc::eq(nc, (int) F.comp.size(), "components with coordinates");
      unique_ptr<MultiBlockSolver> s(make(PH)); config.dict_["main"]["use_rom"] = true; s->InitVariables(); s->InitROMHandler(); VcProblem p; p.SetSingleRun(); s->SetParameterizedProblem(&p); s->BuildRHSOperators(); s->LoadReducedBasis(); s->AllocateROMNlinElems(); auto *t = dynamic_cast<SteadyNSSolver *>(s.get());
      for (int k = 0; k < nc; k++)
      {
         Array<int> el, qp; hid_t h = H5Gopen2(g2, (F.comp[k] + "_integ0").c_str(), H5P_DEFAULT); hdf5_utils::ReadDataset(h, "elem", el); hdf5_utils::ReadDataset(h, "quad-pt", qp); H5Gclose(h); DenseMatrix xy; h = H5Gopen2(g, (F.comp[k] + "_integ0").c_str(), H5P_DEFAULT); hdf5_utils::ReadDataset(h, "coords", xy); H5Gclose(h); vc::check(el.Size() > 0, "no points were sampled"); vc::eq(xy.Height(), el.Size(), "number of coordinates"); vc::eq(xy.Width(), 3, "length of coordinates");
         const IntegrationRule *ir = t->comp_eqps[k]->dnfi[0]->GetIntegrationRule(); Mesh *cm = s->topol_handler->GetComponentMesh(k); vc::Hash hh; for (int i = 0; i < el.Size(); i++) { Vector x(3); cm->GetElementTransformation(el[i])->Transform(ir->IntPoint(qp[i]), x); for (int q = 0; q < DIM; q++) { vc::near(xy(i, q), x(q), "coordinate of sampled point " + S(i) + " of " + F.comp[k], 1, 1e-10); hh.add(xy(i, q)); } for (int q = DIM; q < 3; q++) vc::eq(xy(i, q), 0.0, "unused coordinate"); } X.outcome(hh.h);
      }
      H5Gclose(g); H5Fclose(f); H5Gclose(g2); H5Fclose(f2);
   }
   // reduced solutions, and their errors for every way to get the full-order solution
   { setParams(1.2, 0.3); config.dict_["main"]["use_rom"] = false; SingleRun(MPI_COMM_WORLD, ""); } Vector fom = solutionFile(dir + "/solution.h5"); rename((dir + "/solution.h5").c_str(), (dir + "/fom.h5").c_str()); config.dict_["main"]["use_rom"] = true; YAML::Node cs = m["compare_solution"];
   for (int load = 0; load < 3; load++) for (auto &v : views(F.K, wide(c), load > 0))
   {
      if (load < 2 && v.offset && v.freq > 1) continue; if (PH >= NSBASE) { config.dict_["solver"]["use_restart"] = true; config.dict_["solver"]["restart_file"] = dir + "/fom.h5"; }
      setView(v); clearViews(F.K, dir + "/pv"); cs["enabled"] = load > 0; cs["load_solution"] = load == 2; cs["fom_solution_file"] = dir + "/fom.h5"; unlink((dir + "/solution.h5").c_str()); SingleRun(MPI_COMM_WORLD, ""); X.transitions++; config.dict_["solver"]["use_restart"] = false; Vector u = solutionFile(dir + "/solution.h5"); const string what = string("reduced ") + (load == 1 ? "compared " : load ? "compared with file " : "") + v.name(); Vector full = fom; vc::Hash h; h.add(what);
      double diff = minus_(u, full).Normlinf(), tp = full.Normlinf(); if (load == 1 && PH >= NSBASE) { /* the full-order solution is computed again, to the tolerance of its solver */ }
      for (auto &q : collections(v, F.K, dir + "/pv", what))
      {
         auto cyc = cycles(q.first); vc::eq((int) cyc.size(), 1, what + ": states"); Vtu vt = cycleFile(q.first, *cyc.begin()); Ref R = Q.of({{"", u}}, PH == ADVDIFF); Vtu a = vt, b; b.pts = vt.pts; b.cells = vt.cells; if (load) for (int w = 0; w < F.nv; w++) { const string n = varName(w) + "_abs_error"; vc::check(a.f.count(n), what + ": field " + n + " is missing"); b.f[n] = a.f[n]; a.f.erase(n); }
         compare(a, R, q.second, v.unified && sharedPoints(F), what, false, &h); if (!load) continue; Ref E = Q.of({{"_abs_error", minus_(u, full)}}, false); // scale of the comparison: that of the solutions
         for (auto &f : E.f) for (auto *gf : f.second) { (void) gf; } compare(b, E, q.second, v.unified && sharedPoints(F), what, true, &h);
      }
      h.add(lround(1e6 * diff / max(1e-3, tp))); X.outcome(h.h);
   }
   noView(); cs["enabled"] = false; config.dict_["main"]["use_rom"] = false;
}
static void all(const Case &c)
{
   UNST = c.unsteady; IC = 0; PH = c.unsteady ? NSLF : c.o.ph; DIM = dimOf(c.g.k); BC = c.o.bc; POLY = false; FAR = DIM == 2 ? 2 : 3; BATTR.clear(); for (int s = 1; s <= 2 * DIM; s++) BATTR.push_back(s); pnu = PH >= NSBASE ? 1.7 : 0.7; if (c.unsteady) { IC = 1; pnu = 0.9; }
   YAML::Node y = base(c.o, NULL); y["navier-stokes"]["zeta"] = 0.4; y["stokes"]["nu"] = pnu; y["adv-diff"]["peclet_number"] = 1.5; y["main"]["solver"] = c.unsteady ? "unsteady-ns" : solverName[PH]; y["main"]["use_rom"] = false; y["parameterized_problem"]["name"] = "vc"; y["save_solution"]["enabled"] = true; y["save_solution"]["file_path"]["prefix"] = "solution"; y["model_reduction"]["separate_variable_basis"] = c.sep; if (c.unsteady) { y["time-integration"]["timestep_size"] = 0.05; y["time-integration"]["number_of_timesteps"] = 2; y["navier-stokes"]["operator-type"] = "lf"; }
   with(c.g, y, [&]() {
      config.dict_["save_solution"]["file_path"]["directory"] = dir; config.dict_["sample_generation"]["maximum_number_of_snapshots"] = 100; config.dict_["sample_generation"]["report_frequency"] = 1000; config.dict_["sample_generation"]["file_path"]["directory"] = dir; config.dict_["sample_generation"]["file_path"]["prefix"] = "s"; setParams(1.0, 0.5);
      YAML::Node pr; for (string k : {"a", "b"}) { YAML::Node q; q["key"] = "single_run/vc/" + k; q["type"] = "double"; q["sample_size"] = 2; q["minimum"] = k == "a" ? 1.0 : -0.5; q["maximum"] = k == "a" ? 1.75 : 0.75; pr.push_back(q); } config.dict_["sample_generation"]["parameters"] = pr;
      Full F(false); Fields Q(F);
      if (c.unsteady) { inTime(c, F, Q); sampling(c, F, Q); }
      else if (c.rom) reduced(c, F, Q);
      else { single(c, F, Q); histories(c, F, Q); sampling(c, F, Q); }
   });
   UNST = false;
}
void vc_main()
{
   { int q = open("/dev/null", O_WRONLY); dup2(q, 1); }
   const bool T = X.thorough; vector<Geo> gs; auto sub = [&](Kind k, int nx, int ny, int nz, const vector<int> &attr, const vector<int> &rot, int shear, const string &n) { Geo g; g.k = k; g.n[0] = nx; g.n[1] = ny; g.n[2] = nz; g.attr = attr; g.rot = rot; g.shear = shear; g.id = string("mesh ") + name(k) + " " + n; gs.push_back(g); };
   sub(QUAD, 2, 2, 1, {1, 2, 2, 1}, {0, 1, 2, 3}, 0, "1221"); sub(QUAD, 3, 2, 1, {1, 2, 3, 1, 2, 3}, {0, 0, 0, 0, 0, 0}, 1, "columns"); sub(TRI, 2, 1, 1, {1, 2, 2, 1}, {0, 1, 2, 0}, 0, "four"); sub(QUAD, 2, 1, 1, {1, 1}, {0, 0}, 0, "undivided"); sub(HEX, 2, 1, 1, {1, 2}, {0, 5}, 0, "two"); sub(TET, 1, 1, 1, {1, 2, 1, 2, 1, 2}, {0}, 0, "six");
   auto comp = [&](Kind k, const vector<array<int, 3>> &cells, const vector<int> &of, const string &n) { Geo g; g.comp = true; g.k = k; g.cells = cells; g.of = of; g.gmode = 0; g.ne = dimOf(k) == 2 ? 2 : 1; g.rot = {0, 0, 0, 0}; g.id = string("components ") + name(k) + " " + n; gs.push_back(g); };
   const vector<array<int, 3>> two = {{{0, 0, 0}}, {{1, 0, 0}}}, quad = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, row = {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}};
   comp(QUAD, two, {0, 1}, "ab"); comp(TRI, quad, {0, 1, 1, 0}, "abba"); comp(QUAD, row, {1, 0, 0}, "baa"); comp(HEX, two, {0, 1}, "ab");
   for (auto &g : gs) for (int ph = 0; ph <= NPHYS; ph++) for (int ord = 1; ord <= 3; ord++) for (int dg = 0; dg < 2; dg++) for (int rom = 0; rom < 2; rom++) for (int sep = 0; sep <= rom; sep++)
   {
      const bool un = ph == NPHYS; const int d = dimOf(g.k); if (ph == ADVDIFF && dg) continue; if (d == 3 && (ord > 1 || ph >= STOKES)) continue; if (un && rom) continue; if (ord == 3 && (ph >= STOKES || (!dg && !g.comp) || g.k == TRI || rom)) continue; if (ord == 2 && !T && (ph >= NSBASE || g.k == TRI)) continue; if (ph == NSLF && rom && (!g.comp || dg)) continue; if (rom && !un && ord > 1 && !T) continue; if (g.n[0] * g.n[1] > 4 && ph >= STOKES && !T) continue;
      Case c; c.g = g; c.o = {un ? NSLF : (Phys) ph, ord, (bool) dg, 0, ph >= NSLF ? 2 : 1, 0}; c.unsteady = un; c.rom = rom; c.sep = sep; X.run(id(c), [=]() { all(c); });
   }
}
