// C23: the main program as its users run it (an input file, options on the command line, files in a directory). Explicit-state
// exploration: from every reachable content of the directory, every stage is run; the model says which stages can be run,
// which files each may write, and that what they contain depends only on the configuration and on the files the stage reads,
// however the directory came about. Reduced and full-order results are compared with solutions computed here.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "vc.hpp"
#include "rom.hpp"
#include <dirent.h>
#include <utime.h>
extern "C" int vc_prog_main(int, char **);
// the program runs in a child of this process: MPI is there already
static bool inProgram = false;
extern "C" { int __real_MPI_Init(int *, char ***); int __wrap_MPI_Init(int *a, char ***b) { return inProgram ? MPI_SUCCESS : __real_MPI_Init(a, b); } int __real_MPI_Finalize(); int __wrap_MPI_Finalize() { return inProgram ? MPI_SUCCESS : __real_MPI_Finalize(); } }

// what the random draws give, when a case says so: attempt k has the parameter (k+1)/8 and the larger or smaller integer
static vector<int> script; static size_t attempt = 0; static bool scripted = false;
double real_random() __asm__("__real__Z13UniformRandomv"); int real_random2(const int &, const int &) __asm__("__real__Z13UniformRandomRKiS0_");
extern "C" { double __wrap__Z13UniformRandomv() { return scripted ? (attempt + 1) / 8.0 : real_random(); } int __wrap__Z13UniformRandomRKiS0_(const int &lo, const int &hi) { if (!scripted) return real_random2(lo, hi); ofstream(dir + "/drawn") << attempt + 1; const size_t k = attempt++; return k >= script.size() || script[k] ? hi : lo; } }

typedef map<string, string> Opts;
// ---- contents of files
struct Content { map<string, vector<double>> num; string text; };
static string slurp(const string &f) { ifstream i(f, ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
static herr_t attrOf(hid_t o, const char *n, const H5A_info_t *, void *p)
{
   auto *x = (pair<Content *, string> *) p; hid_t a = H5Aopen(o, n, H5P_DEFAULT), t = H5Aget_type(a), s = H5Aget_space(a); hssize_t k = H5Sget_simple_extent_npoints(s); H5T_class_t c = H5Tget_class(t); vector<double> v(max<hssize_t>(k, 0)); if ((c == H5T_INTEGER || c == H5T_FLOAT) && k > 0) H5Aread(a, H5T_NATIVE_DOUBLE, v.data()); else if (c == H5T_STRING && k > 0 && !H5Tis_variable_str(t)) { vector<char> b(H5Tget_size(t) * k); H5Aread(a, t, b.data()); v.assign(b.begin(), find(b.begin(), b.end(), 0)); } x->first->num[x->second + "@" + n] = v; H5Sclose(s); H5Tclose(t); H5Aclose(a); return 0;
}
static herr_t objectOf(hid_t o, const char *n, const H5O_info_t *i, void *p)
{
   auto *c = (Content *) p; pair<Content *, string> x(c, n); hid_t q = H5Oopen(o, n, H5P_DEFAULT); if (i->type == H5O_TYPE_DATASET) { hid_t s = H5Dget_space(q), t = H5Dget_type(q); hssize_t k = H5Sget_simple_extent_npoints(s); H5T_class_t cl = H5Tget_class(t); vector<double> v(max<hssize_t>(k, 0)); if (k > 0 && (cl == H5T_INTEGER || cl == H5T_FLOAT)) H5Dread(q, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); c->num[n] = v; H5Tclose(t); H5Sclose(s); } hsize_t z = 0; H5Aiterate(q, H5_INDEX_NAME, H5_ITER_INC, &z, attrOf, &x); H5Oclose(q); return 0;
}
static Content content(const string &f)
{
   Content c; string b = slurp(f); if (b.size() > 4 && b.substr(1, 3) == "HDF") { hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(h >= 0, "cannot read " + f); H5Ovisit(h, H5_INDEX_NAME, H5_ITER_INC, objectOf, &c); H5Fclose(h); return c; }
   istringstream i(b); string w; while (i >> w) { char *e; double d = strtod(w.c_str(), &e); if (*e) c.text += w + " "; else c.num[""].push_back(d); } return c;
}
static void same(const Content &got, const Content &want, const string &what)
{
   vc::eq(got.text, want.text, what); vc::eq(got.num.size(), want.num.size(), what + ": number of data sets"); for (auto &w : want.num) { auto g = got.num.find(w.first); vc::check(g != got.num.end(), what + ": " + w.first + " is missing"); vc::eq(g->second.size(), w.second.size(), what + ": size of " + w.first); double top = 1; for (double x : w.second) top = max(top, fabs(x)); for (size_t k = 0; k < w.second.size(); k++) vc::near(g->second[k], w.second[k], what + ": " + w.first + " entry " + S(k), top, 1e-7); }
}
static map<string, string> listing(const string &d) { map<string, string> r; DIR *q = opendir(d.c_str()); if (!q) return r; while (auto *e = readdir(q)) if (e->d_name[0] != '.') r[e->d_name] = slurp(d + "/" + e->d_name); closedir(q); return r; }
static void restore(const string &d, const map<string, string> &f) { for (auto &x : listing(d)) unlink((d + "/" + x.first).c_str()); for (auto &x : f) { { ofstream o(d + "/" + x.first, ios::binary); o << x.second; } struct utimbuf t = {1, 1}; utime((d + "/" + x.first).c_str(), &t); } }
static bool written(const string &f) { struct stat s; return stat(f.c_str(), &s) == 0 && s.st_mtime != 1; }   // since restore()

// ---- running the program: the options in the input file, or on the command line
static int program(const Opts &o, bool inFile, const string &out, const string &rawForced = "", const string &input = "", bool verbose = false)
{
   const string in = dir + "/in.yml"; YAML::Node n = YAML::Clone(config.dict_); string forced; for (auto &x : o) if (inFile) { InputParser p; p.dict_ = n; p.SetOption(x.first, YAML::Load(x.second)); } else forced += (forced.size() ? ":" : "") + x.first + "=" + x.second; { ofstream f(in); f << n << endl; }
   forced += rawForced; vector<string> a = {"main", "-i", input.size() ? input : in}; if (forced.size()) { a.push_back("-f"); a.push_back(forced); } if (out.size()) { a.push_back("-o"); a.push_back(out); }
   X.transitions++; return vc::in_child([&]() { vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(NULL); inProgram = true; config = InputParser(); int r = vc_prog_main(a.size(), v.data()); fflush(NULL); _exit(r); }, 60);
}

struct Cfg { Geo g; Phys ph; bool sep; bool eqp; bool dg; int bc; };
struct Sampling { vector<double> a, b; };   // values of the parameters
struct Act { string name; Opts o; vector<string> needs; string makes; int kind = 0; int sampling = -1; int par = -1; };   // kind 0 makes files, 1 full-order run, 2 reduced run
typedef map<string, string> State;   // what is there, and of which samples
static string str(const State &s) { string r; for (auto &x : s) r += x.first + "=" + x.second + " "; return r; }

static YAML::Node samplingNode(const Sampling &s) { YAML::Node pr; for (string k : {"a", "b"}) { auto &v = k == "a" ? s.a : s.b; YAML::Node q; q["key"] = "single_run/vc/" + k; q["type"] = "double"; q["sample_size"] = (int) v.size(); q["minimum"] = v[0]; q["maximum"] = v.back(); pr.push_back(q); } return pr; }

static void explore(const Cfg &c)
{
   PH = c.ph; DIM = dimOf(c.g.k); BC = c.bc; POLY = PH >= STOKES && !BC; FAR = 2; BATTR.clear(); for (int s = 1; s <= 2 * DIM; s++) BATTR.push_back(s); pnu = PH >= NSBASE ? 1.7 : 0.7; const bool ns = PH >= NSBASE; X.case_seconds = 600; alarm(600);
   Opt op = {c.ph, 1, c.dg, 0, c.bc, 0}; for (int q = 0; q < 2; q++) { Problem P(ns ? STOKES : PH, c.g.k, 1, 0, q, c.g.X()); PU[q] = P.u; PF[q] = P.f; }
   YAML::Node y = base(op, NULL); y["navier-stokes"]["zeta"] = 0.4; y["stokes"]["nu"] = pnu; y["adv-diff"]["peclet_number"] = 1.5; if (!ns) { y["solver"]["relative_tolerance"] = 1e-14; y["solver"]["absolute_tolerance"] = 1e-14; y["solver"]["max_iter"] = 20000; }
   with(c.g, y, [&]() {
      const string w = dir + "/w"; mkdir(w.c_str(), 0700); YAML::Node d = config.dict_; const Sampling sa = ns ? Sampling{{1.0}, {-0.5}} : Sampling{{1.0, 1.75}, {-0.5}}, sb = ns ? Sampling{{1.2}, {0.3}} : Sampling{{0.6}, {-1.0, 0.5, 2.0}};
      d["main"]["solver"] = solverName[PH]; d["main"]["use_rom"] = true; d["model_reduction"]["separate_variable_basis"] = c.sep; d["model_reduction"]["linear_solver_type"] = "direct"; d["model_reduction"]["linear_system_type"] = "us"; d["model_reduction"]["nonlinear_handling"] = ns ? (c.eqp ? "eqp" : "tensor") : "none"; d["model_reduction"]["eqp"]["relative_tolerance"] = 1e-11; d["model_reduction"]["save_operator"]["prefix"] = w + "/rom"; d["model_reduction"]["save_linear_system"]["enabled"] = true; d["model_reduction"]["save_linear_system"]["prefix"] = w + "/sys";
      d["sample_generation"]["maximum_number_of_snapshots"] = 100; d["sample_generation"]["report_frequency"] = 1000; d["sample_generation"]["file_path"]["directory"] = w; d["sample_generation"]["file_path"]["prefix"] = "s"; d["save_solution"]["enabled"] = true; d["save_solution"]["file_path"]["directory"] = w; d["save_solution"]["file_path"]["prefix"] = "solution"; d["sample_collection"]["mode"] = "basis";
      d["parameterized_problem"]["name"] = "vc"; setParams(9, 9); d["sample_generation"]["parameters"] = samplingNode(sa); d["basis"]["prefix"] = w + "/b"; int most = 1; if (c.g.comp) for (int k = 0; k < 2; k++) most = max<int>(most, count(c.g.of.begin(), c.g.of.end(), k)); d["basis"]["number_of_basis"] = (ns ? 1 : 2) * most; d["basis"]["svd"]["save_spectrum"] = true;
      // reference solutions, not by the program
      const vector<array<double, 2>> pars = {{{1.0, -0.5}}, {{ns ? 1.2 : -0.3, ns ? 0.3 : 2.2}}}; vector<Vector> ref; map<array<double, 2>, Vector> exact; auto fom = [&](double a, double b) { array<double, 2> k = {{a, b}}; if (!exact.count(k)) { YAML::Node keep = YAML::Clone(d); setParams(a, b); Full F(true); exact[k] = F.u; config.dict_ = keep; d = config.dict_; } return exact[k]; }; for (auto &p : pars) ref.push_back(fom(p[0], p[1]));
      vector<string> comps; { YAML::Node keep = YAML::Clone(d); Full F(false); comps = F.comp; config.dict_ = keep; d = config.dict_; }
      // ---- what can be done
      vector<Act> acts; auto add = [&](const string &n, const string &mode, const Opts &o, const vector<string> &needs, const string &makes, int kind, int sampling, int par) { Act a; a.name = n; a.o = o; a.o["main/mode"] = mode; a.needs = needs; a.makes = makes; a.kind = kind; a.sampling = sampling; a.par = par; if (par >= 0) { a.o["single_run/vc/a"] = S(pars[par][0]); a.o["single_run/vc/b"] = S(pars[par][1]); } acts.push_back(a); };
      const bool comp = c.g.comp && PH != ADVDIFF, glob = !c.eqp; const string level = "model_reduction/save_operator/level", pre = "model_reduction/save_operator/prefix";
      for (int s = 0; s < 2; s++) { auto &q = s ? sb : sa; Opts o = {{"main/use_rom", "false"}}; YAML::Emitter e; e.SetMapFormat(YAML::Flow); e.SetSeqFormat(YAML::Flow); (void) q; add(s ? "samples B" : "samples A", "sample_generation", o, {}, "S", 0, s, -1); }
      add("train_rom", "train_rom", {}, {"S"}, "B", 0, -1, -1); if (glob) add("build_rom global", "build_rom", {{level, "global"}, {pre, w + "/romg"}, {"single_run/vc/a", "0.7"}}, {"B"}, "G", 0, -1, -1);
      if (comp) add("build_rom component", "build_rom", {{level, "component"}, {pre, w + "/romc"}}, {"B"}, "C", 0, -1, -1); if (c.eqp) add("train_eqp", "train_eqp", {{level, "component"}, {pre, w + "/romc"}}, {"S", "B"}, "E", 0, -1, -1);
      add("print_eqp", "print_eqp", {{level, "component"}, {pre, w + "/romc"}, {"model_reduction/eqp/save_coords", w + "/coords.h5"}}, ns ? vector<string>{"B", "E"} : vector<string>(), "", 0, -1, -1);
      add("aux_train_rom", "aux_train_rom", {}, c.sep && nvOf[PH] == 2 ? vector<string>{"B"} : vector<string>{}, "", 0, -1, -1); add("build_rom none", "build_rom", {{level, "none"}}, {"B"}, "", 0, -1, -1);
      for (int p = 0; p < 2; p++) { add("full-order run " + S(p), "single_run", {{"main/use_rom", "false"}}, {}, "", 1, -1, p); if (glob) { add("reduced run " + S(p), "single_run", {{level, "none"}}, {"B"}, "", 2, -1, p); add("reduced run global " + S(p), "single_run", {{level, "global"}, {pre, w + "/romg"}}, {"B", "G"}, "", 2, -1, p); } if (comp) add("reduced run component " + S(p), "single_run", {{level, "component"}, {pre, w + "/romc"}}, c.eqp ? vector<string>{"B", "C", "E"} : vector<string>{"B", "C"}, "", 2, -1, p); }
      map<string, map<string, Content>> want; map<State, map<string, string>> seen; vector<State> queue = {State()}; seen[State()] = {}; long runs = 0;
      auto solution = [&](const string &f, const Vector &u, const string &what) { Vector g; readSolution(f, g); vc::eq(g.Size(), u.Size(), what + ": size"); double top = 1; for (int i = 0; i < u.Size(); i++) top = max(top, fabs(u(i))); for (int i = 0; i < u.Size(); i++) vc::near(g(i), u(i), what + ": value " + S(i), top, 1e-5); };
      for (size_t q = 0; q < queue.size(); q++) for (auto &a : acts)
      {
         const State s = queue[q]; restore(w, seen[s]); const string what = "[" + ::str(s) + "] " + a.name; bool able = true, stale = false; string of; for (auto &n : a.needs) { if (!s.count(n)) { able = false; continue; } const string v = s.at(n); if (of.size() && v != of) stale = true; of = v; } if (able && stale) continue;   // of other samples: nothing is promised
         // aux_train_rom writes again what train_rom wrote beside the bases
         auto before = listing(w); if (a.name == "aux_train_rom" && able) for (auto &x : before) if (x.first.size() > 7 && x.first.substr(x.first.size() - 7) == "_sup.h5") unlink((w + "/" + x.first).c_str());
         if (a.sampling >= 0) d["sample_generation"]["parameters"] = samplingNode(a.sampling ? sb : sa); const string out = a.kind ? dir + "/out.h5" : ""; unlink((dir + "/out.h5").c_str()); const int st = program(a.o, (runs++ + q) % 2, out); auto after = listing(w); vc::Hash h; h.add(a.name).add((int) able).add(::str(s)); X.outcome(h.h);
         if (!able) { vc::check(!vc::child_ok(st), what + ": succeeds without what it needs"); vc::check(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), what + ": does not finish"); vc::check(after == before, what + ": fails, and changes files"); for (auto &x : after) vc::check(!written(w + "/" + x.first), what + ": fails, and writes " + x.first); vc::check(access((dir + "/out.h5").c_str(), F_OK), what + ": fails, and reports results"); continue; }
         vc::check(vc::child_ok(st), what + ": fails (status " + S(st) + ")");
         // files: those the stage writes have the content this stage gives with these inputs, all others are as before
         const string term = a.name + " of " + of; const bool first = !want.count(term); map<string, Content> got; for (auto &x : after) { if (written(w + "/" + x.first)) got[x.first] = content(w + "/" + x.first); else vc::check(before.count(x.first) && before[x.first] == x.second, what + ": changes " + x.first); }
         for (auto &x : before) vc::check(after.count(x.first), what + ": removes " + x.first);
         auto allowed = [&](const string &f) { auto starts = [&](const string &p) { return f.compare(0, p.size(), p) == 0; }; if (a.sampling >= 0) return starts("s_") || starts("sample"); if (a.name == "train_rom") return starts("b_"); if (a.name == "aux_train_rom") return starts("b_"); if (a.name == "print_eqp") return f == "coords.h5"; if (a.makes == "G") return starts("romg"); if (a.makes == "C" || a.makes == "E") return starts("romc"); if (a.kind) return starts("solution") || (a.kind == 2 && starts("sys")); return false; };
         for (auto &g : got) vc::check(allowed(g.first), what + ": writes " + g.first);
         if (first) want[term] = got; else { for (auto &x : want[term]) { vc::check(got.count(x.first), what + ": does not write " + x.first); same(got[x.first], x.second, what + ": " + x.first); } for (auto &g : got) vc::check(want[term].count(g.first), what + ": also writes " + g.first); }
         if (a.name == "print_eqp") vc::eq((int) got.size(), (int) c.eqp, what + ": coordinates written");
         if (a.name == "aux_train_rom") for (auto &x : before) { ofstream(dir + "/before", ios::binary) << x.second; same(content(w + "/" + x.first), content(dir + "/before"), what + ": " + x.first + " as written by train_rom"); }
         if (a.sampling >= 0) { int k = 0; auto &sm = a.sampling ? sb : sa; for (double pa1 : sm.a) for (double pb1 : sm.b) { solution(w + "/sample" + S(k) + "_solution.h5", fom(pa1, pb1), what + ": sample " + S(k)); k++; } }
         if (a.kind == 1 || (a.kind == 2 && (!ns || a.par == (of == "B")))) solution(w + "/solution.h5", ref[a.par], what + ": solution");
         if (a.kind) { Content o = content(dir + "/out.h5"); for (string k : {"rom_assemble", "rom_solve", "fom_assemble", "fom_solve"}) { vc::check(o.num.count(k) && o.num[k].size() == 1, what + ": output " + k); vc::check((o.num[k][0] >= 0) == ((k[0] == 'r') == (a.kind == 2)), what + ": output " + k + " is " + S(o.num[k][0])); } vc::eq((int) o.num["rel_error"].size(), nvOf[PH], what + ": output rel_error"); for (double x : o.num["rel_error"]) vc::eq(x, -1.0, what + ": output rel_error"); }
         State t = s; if (a.sampling >= 0) t["S"] = a.sampling ? "B" : "A"; else if (a.makes.size()) t[a.makes] = of; if (!seen.count(t) && a.kind == 0) { for (auto &x : listing(w)) seen[t][x.first] = x.second; queue.push_back(t); }
      }
      // ---- comparison asked for: also the full-order solution, the error, and both in reduced coordinates
      { restore(w, {}); d["sample_generation"]["parameters"] = samplingNode(sa); auto go = [&](const char *n, const Opts &more, const string &out) { for (auto &a : acts) if (a.name == n) { Opts o = a.o; for (auto &x : more) o[x.first] = x.second; vc::check(vc::child_ok(program(o, false, out)), string("comparison: ") + n + " fails"); return; } vc::fail("no such stage"); };
        go("samples A", {}, ""); go("train_rom", {}, ""); if (comp) go("build_rom component", {}, ""); if (c.eqp) go("train_eqp", {}, ""); const char *n = c.eqp ? "reduced run component 0" : "reduced run 0"; unlink("rom_reduced_sol.txt"); unlink("fom_reduced_sol.txt");
        const string cs = "model_reduction/compare_solution/"; go(n, {{cs + "enabled", "true"}, {cs + "save_reduced_solution", "true"}}, dir + "/out.h5"); Content o = content(dir + "/out.h5"); for (string k : {"rom_assemble", "rom_solve", "fom_assemble", "fom_solve"}) vc::check(o.num[k].size() == 1 && o.num[k][0] >= 0, "comparison: output " + k); for (double x : o.num["rel_error"]) vc::near(x, 0.0, "comparison: relative error", 1, 1e-5); Content r = content("rom_reduced_sol.txt"), f = content("fom_reduced_sol.txt"), x = content(w + "/sys_sol.txt"); vc::check(r.num[""].size() > 0, "reduced solution not written"); same(r, x, "comparison: reduced solution");
        vc::eq(f.num[""].size(), r.num[""].size(), "comparison: size of the projected full-order solution"); double top = 1; for (double v : r.num[""]) top = max(top, fabs(v)); for (size_t k = 0; k < r.num[""].size(); k++) vc::near(f.num[""][k], r.num[""][k], "comparison: projected full-order solution, entry " + S(k), top, 1e-4); unlink("rom_reduced_sol.txt"); unlink("fom_reduced_sol.txt"); solution(w + "/solution.h5", ref[0], "comparison: solution"); }
      // ---- comparison with solutions in files, that are multiples of the reduced solution
      {
         const char *n = c.eqp ? "reduced run component 0" : "reduced run 0"; const string cs = "model_reduction/compare_solution/", file = dir + "/fom.h5"; Opts o0; for (auto &a : acts) if (a.name == n) o0 = a.o; Vector r0; readSolution(w + "/solution.h5", r0); YAML::Node keep = YAML::Clone(d); vector<int> off; { Full F(false); off = F.off; } config.dict_ = keep; d = config.dict_; Content red = content(w + "/sys_sol.txt");
         auto put = [&](const vector<double> &fac, int more) { Vector v(r0.Size() + more); v = 0.0; for (size_t b = 0; b + 1 < off.size(); b++) for (int i = off[b]; i < off[b + 1]; i++) if (i < v.Size()) v(i) = fac[b % fac.size()] * r0(i); unlink(file.c_str()); hid_t h = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h, "solution", v); H5Fclose(h); };
         auto with0 = [&](bool savered) { Opts o = o0; o[cs + "enabled"] = "true"; o[cs + "load_solution"] = "true"; o[cs + "fom_solution_file"] = file; o[cs + "save_reduced_solution"] = savered ? "true" : "false"; return o; };
         vector<vector<double>> facs = {{2.0}, {-0.5}}; if (nvOf[PH] == 2) { facs.push_back({2.0, 5.0}); facs.push_back({4.0, 1.25}); } for (auto &fac : facs) for (int f = 0; f < 2; f++)
         {
            const string what = "comparison with a file of " + S(fac[0]) + (fac.size() > 1 ? ", " + S(fac[1]) : "") + " times the solution"; put(fac, 0); const string before = slurp(file); unlink((dir + "/out.h5").c_str()); unlink("fom_reduced_sol.txt"); unlink((w + "/solution.h5").c_str()); vc::check(vc::child_ok(program(with0(f), f, dir + "/out.h5")), what + ": fails"); Content o = content(dir + "/out.h5"); double most = -2; for (int v = 0; v < nvOf[PH]; v++) { const double q = fac[v % fac.size()], e = fabs(1 / q - 1); vc::near(o.num["rel_error"][v], e, what + ": relative error of variable " + S(v), 1, 1e-9); most = max(most, e); } for (string k : {"fom_assemble", "fom_solve"}) vc::eq(o.num[k][0], -1.0, what + ": output " + k); vc::check(o.num["rom_solve"][0] >= 0, what + ": output rom_solve"); vc::check(slurp(file) == before, what + ": changes the file");
            Vector z; readSolution(w + "/solution.h5", z); vc::eq(z.Size(), r0.Size(), what + ": size of the solution"); for (int i = 0; i < z.Size(); i++) vc::near(z(i), r0(i), what + ": saved solution, value " + S(i), max(1.0, r0.Normlinf()), 1e-9); vc::check((access("fom_reduced_sol.txt", F_OK) == 0) == (bool) f, what + ": reduced solution"); if (f && fac.size() == 1) { Content q = content("fom_reduced_sol.txt"); vc::eq(q.num[""].size(), red.num[""].size(), what + ": size of the projected solution"); double top = 1; for (double x : red.num[""]) top = max(top, fabs(x)); for (size_t k = 0; k < q.num[""].size(); k++) vc::near(q.num[""][k], fac[0] * red.num[""][k], what + ": projected solution, entry " + S(k), top, 1e-6); }
            // what the stage returns
            const string ret = dir + "/ret"; unlink(ret.c_str()); YAML::Node k2 = YAML::Clone(d); config.dict_ = YAML::Clone(d); for (auto &x : with0(false)) config.SetOption(x.first, YAML::Load(x.second)); int st = vc::in_child([&]() { double e = SingleRun(MPI_COMM_WORLD, ""); { ofstream q(ret); q.precision(17); q << e; } fflush(NULL); _exit(0); }, 60); config.dict_ = k2; d = config.dict_; X.transitions++; vc::check(vc::child_ok(st), what + ": fails when called"); vc::near(atof(slurp(ret).c_str()), most, what + ": error returned", 1, 1e-9);
         }
         for (int more : {-1, 1}) { put({2.0}, more); unlink((dir + "/out.h5").c_str()); vc::check(!vc::child_ok(program(with0(false), false, dir + "/out.h5")), "comparison with a file of another size succeeds"); vc::check(access((dir + "/out.h5").c_str(), F_OK), "comparison with a file of another size reports results"); } unlink(file.c_str()); vc::check(!vc::child_ok(program(with0(false), false, dir + "/out.h5")), "comparison with a missing file succeeds"); unlink("rom_reduced_sol.txt"); unlink("fom_reduced_sol.txt");
      }
      // ---- samples of several runs: every way of listing their files gives the same bases, and they represent all samples
      {
         restore(w, {}); auto optOf = [&](const char *n) { for (auto &a : acts) if (a.name == n) return a.o; vc::fail("no such stage"); return Opts(); }; const vector<Sampling> parts = ns ? vector<Sampling>{{{pars[0][0]}, {pars[0][1]}}, {{pars[1][0]}, {pars[1][1]}}} : vector<Sampling>{{{0.9}, {0.0}}, {{0.0}, {1.3}}, {{0.5}, {-0.7}}}; const int np = parts.size();
         YAML::Node keepP = YAML::Clone(d["sample_generation"]["parameters"]); const int keepN = d["basis"]["number_of_basis"].as<int>(); d["basis"]["number_of_basis"] = 2 * most; for (int k = 0; k < np; k++) { d["sample_generation"]["parameters"] = samplingNode(parts[k]); Opts o = optOf("samples A"); o["sample_generation/file_path/prefix"] = "p" + S(k + 1); vc::check(vc::child_ok(program(o, k % 2, "")), "part " + S(k) + ": fails"); } d["sample_generation"]["parameters"] = keepP; const auto base0 = listing(w);
         vector<string> tags; for (auto &cn : comps) { if (c.sep) for (int v = 0; v < nvOf[PH]; v++) tags.push_back(cn + "_" + varName(v)); else tags.push_back(cn); }
         auto seq = [&](int from, int to) { YAML::Node q; q["type"] = "filename"; q["minimum"] = from; q["maximum"] = to; return q; }; map<string, Content> want; string wantOf; vector<int> rank;
         auto train = [&](const string &what, bool ok) { restore(w, base0); YAML::Node k2 = YAML::Clone(d); int st = program(optOf("train_rom"), false, ""); vc::check(vc::child_ok(st) == ok, what + (ok ? ": fails" : ": no error")); auto now = listing(w); map<string, Content> got; for (auto &x : now) { if (written(w + "/" + x.first)) { vc::check(x.first.compare(0, 2, "b_") == 0, what + ": writes " + x.first); got[x.first] = content(w + "/" + x.first); } else vc::check(base0.count(x.first) && base0.at(x.first) == x.second, what + ": changes " + x.first); } if (ok) { if (want.empty()) { want = got; wantOf = what; vc::check(want.size() > 0, what + ": no bases"); } else { vc::eq(got.size(), want.size(), what + ": number of files"); for (auto &x : want) { vc::check(got.count(x.first), what + ": does not write " + x.first); same(got[x.first], x.second, what + " and " + wantOf + ": " + x.first); } } } d = k2; config.dict_ = d; return got; };
         for (int way = 0; way < 6; way++)
         {
            YAML::Node k2 = YAML::Clone(d); const bool port = way >= 3; const int nlist = way % 3 == 0 ? np : way % 3 == 1 ? 0 : 1; auto fill = [&](YAML::Node q, const string &list, const string &form, const string &tail) { if (nlist) { YAML::Node l; for (int k = 0; k < nlist; k++) l.push_back(w + "/p" + S(k + 1) + "_sample" + tail); q[list] = l; } if (nlist < np) { YAML::Node s = seq(nlist + 1, np); s["format"] = w + "/p%d_sample" + tail; q[form] = s; } };
            if (port) { d["sample_collection"]["mode"] = "port"; fill(d["sample_collection"], "port_files", "port_fileformat", ".port.h5"); } else { YAML::Node l; { YAML::Node q; q["name"] = "other"; q["number_of_basis"] = 1; l.push_back(q); } for (auto it = tags.rbegin(); it != tags.rend(); ++it) { YAML::Node q; q["name"] = *it; fill(q, "snapshot_files", "snapshot_format", "_" + *it + "_snapshot"); l.push_back(q); } d["basis"]["tags"] = l; }
            const string what = string("samples of ") + S(np) + " runs by " + (port ? "port" : "basis") + (nlist ? ", list" : "") + (nlist < np ? ", numbers" : ""); train(what, true);
            if (way == 0 || way == 5) for (int p = 0; p < 2; p++) if (!c.eqp) { const string n = "reduced run " + S(p); vc::check(vc::child_ok(program(optOf(n.c_str()), false, "")), what + ": " + n + " fails"); solution(w + "/solution.h5", ref[p], what + ": " + n); } d = k2; config.dict_ = d;
         }
         // without a list, the files of the configured run; none of them is there under another name, nor with an unknown way
         want.clear(); d["basis"]["number_of_basis"] = most; for (int port = 0; port < 2; port++) { d["sample_collection"]["mode"] = port ? "port" : "basis"; const string keep = d["sample_generation"]["file_path"]["prefix"].as<string>(); train(string("no samples, by ") + (port ? "port" : "basis"), false); d["sample_generation"]["file_path"]["prefix"] = "p2"; train(string("samples of the second run by ") + (port ? "port" : "basis"), true); d["sample_generation"]["file_path"]["prefix"] = keep; } d["sample_collection"]["mode"] = "ports"; train("unknown way", false); d["sample_collection"]["mode"] = "basis"; d["basis"]["number_of_basis"] = keepN;
      }
      // ---- runs that do not converge: a grid of samples is given up, a random sample is drawn again
      if (!ns)
      {
         const Opts gen = {{"main/mode", "sample_generation"}, {"main/use_rom", "false"}}; auto par = [&](bool grid) { YAML::Node pr, q, r; q["key"] = "single_run/vc/a"; q["type"] = "double"; q["minimum"] = 0.0; q["maximum"] = 1.0; q["sample_size"] = grid ? 1 : 2; pr.push_back(q); r["key"] = "solver/max_iter"; r["type"] = "integer"; r["minimum"] = 1; r["maximum"] = 20000; r["sample_size"] = 2; pr.push_back(r); return pr; }; YAML::Node k2 = YAML::Clone(d); d["single_run"]["vc"]["b"] = 0.75; d["solver"]["direct_solve"] = false; d["solver"]["use_amg"] = false; d["solver"]["relative_tolerance"] = 1e-11; d["solver"]["absolute_tolerance"] = 1e-12; d["sample_generation"]["parameters"] = par(true);
         restore(w, {}); vc::check(!vc::child_ok(program(gen, true, "")), "grid of samples with one that does not converge: no error");
         d["sample_generation"]["parameters"] = par(false); vector<vector<int>> outcomes; for (int len = 2; len <= 4; len++) for (int m = 0; m < 1 << (len - 1); m++) { vector<int> o; int s = 1; for (int k = 0; k < len - 1; k++) { o.push_back(m >> k & 1); s += m >> k & 1; } o.push_back(1); if (s == 2 || (s == 3 && X.thorough)) outcomes.push_back(o); }
         for (auto &o : outcomes)
         {
            int n = 0; string what = "random samples, converging"; for (int x : o) { n += x; what += x ? " yes" : " no"; } d["sample_generation"]["random_sample_generator"]["number_of_samples"] = n; restore(w, {}); unlink((dir + "/drawn").c_str()); script = o; attempt = 0; scripted = true; Opts og = gen; og["sample_generation/type"] = "random"; int st = program(og, true, ""); scripted = false; vc::check(vc::child_ok(st), what + ": fails"); if (access((dir + "/drawn").c_str(), F_OK)) continue; vc::eq(atoi(slurp(dir + "/drawn").c_str()), (int) o.size(), what + ": attempts");
            int k = 0; for (size_t t = 0; t < o.size(); t++) if (o[t]) { solution(w + "/sample" + S(k) + "_solution.h5", fom((t + 1) / 8.0, 0.75), what + ": sample " + S(k)); k++; } vc::check(access((w + "/sample" + S(n) + "_solution.h5").c_str(), F_OK), what + ": more samples than asked for");
            int files = 0; for (auto &x : listing(w)) if (x.first.find("_snapshot") != string::npos) { auto M = CAROM::shim::read(w + "/" + x.first.substr(0, x.first.size() - 7), "snapshot_matrix"); files++; vc::check(M.numColumns() > 0 && M.numColumns() % n == 0, what + ": " + S(M.numColumns()) + " columns in " + x.first); } vc::check(files > 0, what + ": no snapshots");
         }
         config.dict_ = k2; d = config.dict_;
      }
      // ---- what cannot be done; the empty directory stays as it is
      restore(w, {}); auto refuses = [&](const string &what, int st) { vc::check(!vc::child_ok(st) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), what + ": no error"); vc::check(listing(w).empty(), what + ": writes files"); };
      for (int f = 0; f < 2; f++) { refuses("unknown stage", program({{"main/mode", "sample_generations"}}, f, "")); refuses("unknown solver", program({{"main/mode", "single_run"}, {"main/solver", "poisson1"}, {"main/use_rom", "false"}}, f, "")); refuses("unknown sampling", program({{"main/mode", "sample_generation"}, {"sample_generation/type", "some"}, {"main/use_rom", "false"}}, f, "")); refuses("build_rom without reduced model", program({{"main/mode", "build_rom"}, {"main/use_rom", "false"}}, f, "")); refuses("train_eqp without eqp", program({{"main/mode", "train_eqp"}, {"model_reduction/nonlinear_handling", "none"}}, f, "")); }
      refuses("option without value", program({{"main/mode", "single_run"}, {"main/use_rom", "false"}}, true, "", "main/solver")); refuses("option with two values", program({{"main/mode", "single_run"}, {"main/use_rom", "false"}}, true, "", "main/solver=poisson=stokes"));
      // ---- parameters chosen at random: some point of the ranges
      if (!ns && PH != ELAST)
      {
         Vector u1 = fom(1, 0), u2 = fom(0, 1); YAML::Node pr = samplingNode(Sampling{{0.4, 1.9}, {-0.8, 0.6}}); d["sample_generation"]["parameters"] = pr; d["sample_generation"]["random_sample_generator"]["number_of_samples"] = 3;
         auto inside = [&](const string &f, const string &what) { Vector g; readSolution(f, g); double a11 = u1 * u1, a12 = u1 * u2, a22 = u2 * u2, b1 = u1 * g, b2 = u2 * g, det = a11 * a22 - a12 * a12, a = (b1 * a22 - b2 * a12) / det, b = (b2 * a11 - b1 * a12) / det; vc::check(a > 0.4 - 1e-6 && a < 1.9 + 1e-6 && b > -0.8 - 1e-6 && b < 0.6 + 1e-6, what + ": parameters " + S(a) + ", " + S(b)); Vector z(u1); z *= a; z.Add(b, u2); for (int i = 0; i < z.Size(); i++) vc::near(g(i), z(i), what + ": value " + S(i), max(1.0, z.Normlinf()), 1e-6); return make_pair(a, b); };
         vc::check(vc::child_ok(program({{"main/mode", "single_run"}, {"main/use_rom", "false"}, {"single_run/choose_from_random_sample", "true"}}, false, "")), "random single run fails"); inside(w + "/solution.h5", "random single run");
         restore(w, {}); vc::check(vc::child_ok(program({{"main/mode", "sample_generation"}, {"main/use_rom", "false"}, {"sample_generation/type", "random"}}, false, "")), "random samples fail"); set<pair<long, long>> ps; for (int k = 0; k < 3; k++) { auto p = inside(w + "/sample" + S(k) + "_solution.h5", "random sample " + S(k)); ps.insert({lround(p.first * 1e6), lround(p.second * 1e6)}); } vc::eq((int) ps.size(), 3, "different random samples"); vc::check(access((w + "/sample3_solution.h5").c_str(), F_OK), "more random samples than asked for");
      }
   });
   X.case_seconds = 240;
}

void vc_main()
{
   { int q = open("/dev/null", O_WRONLY); dup2(q, 1); } const bool T = X.thorough; vector<Geo> gs; auto sub = [&](Kind k, int nx, int ny, const vector<int> &attr, const string &n) { Geo g; g.k = k; g.n[0] = nx; g.n[1] = ny; g.attr = attr; g.rot = {0, 1, 2, 0}; g.id = string("mesh ") + name(k) + " " + n; gs.push_back(g); };
   sub(QUAD, 2, 1, {1, 2}, "two"); sub(TRI, 1, 1, {2, 1}, "two"); sub(QUAD, 2, 2, {1, 2, 2, 1}, "1221");
   auto comp = [&](Kind k, const vector<array<int, 3>> &cells, const vector<int> &of, const string &n) { Geo g; g.comp = true; g.k = k; g.cells = cells; g.of = of; g.gmode = 0; g.ne = 2; g.rot = {0, 0, 0, 0}; g.both = false; g.id = string("components ") + name(k) + " " + n; for (int o : of) if (o) g.both = true; gs.push_back(g); };
   comp(QUAD, {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}, "ab"); comp(QUAD, {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}}, {0, 0, 0}, "aaa"); comp(TRI, {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}, "ab");
   for (auto &g : gs) for (int ph = 0; ph < NSLF; ph++) for (int sep = 0; sep < 2; sep++) for (int eqp = 0; eqp < 2; eqp++)
   {
      if (eqp && (ph != NSBASE || !g.comp)) continue; if (!T && sep && ph < STOKES) continue; Cfg c = {g, (Phys) ph, (bool) sep, (bool) eqp, ph == POISSON || ph == ELAST, ph >= STOKES ? 2 : ph == ELAST ? 1 : 2}; if (!T && ((g.id == "mesh quad 1221" && ph >= STOKES) || (g.k == TRI && ph >= STOKES && !sep))) continue;
      X.run(g.id + ": " + pname[ph] + (sep ? " separate" : "") + (eqp ? " eqp" : ""), [=]() { explore(c); });
   }
}
