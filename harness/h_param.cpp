// C03: sampled parameters. All ranges/sizes/indices of a grid, all orders of setting, all draws of a controlled random source.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "parameter.hpp"
#include "etc.hpp"
#include <memory>
#include <algorithm>
using namespace std; using vc::X; using vc::S;

// controlled random source: parameter.o's references to the uniform generator come here (ld --wrap)
static bool ctl = false; static double draw01 = 0; static int drawk = 0; static int ndraw = 0; static int dmin, dmax;
extern "C" __attribute__((weak)) double __real__Z13UniformRandomv();
extern "C" __attribute__((weak)) int __real__Z13UniformRandomRKiS0_(const int &, const int &);
extern "C" double __wrap__Z13UniformRandomv() { if (!ctl) return __real__Z13UniformRandomv(); ndraw++; return draw01; }
extern "C" int __wrap__Z13UniformRandomRKiS0_(const int &a, const int &b) { if (!ctl) return __real__Z13UniformRandomRKiS0_(a, b); ndraw++; dmin = a; dmax = b; return a + min(drawk, b - a); }

static YAML::Node opt(const string &type, const string &mn, const string &mx, int logs, const string &fmt)
{
   YAML::Node n; n["key"] = "ignored"; n["type"] = type;
   if (mn.size()) n["minimum"] = mn; if (mx.size()) n["maximum"] = mx; if (logs >= 0) n["log_scale"] = (logs == 1); if (fmt.size()) n["format"] = fmt;
   return n;
}
static map<string, string> flat(const YAML::Node &n, const string &pre = "")
{
   map<string, string> o;
   if (n.IsMap()) for (auto it = n.begin(); it != n.end(); ++it) { auto s = flat(it->second, pre + "/" + it->first.as<string>()); o.insert(s.begin(), s.end()); }
   else if (n.IsDefined() && !n.IsNull()) o[pre] = YAML::Dump(n);
   return o;
}
static InputParser fresh() { InputParser p; p.dict_ = YAML::Load("{test: {other: 3, sub: {z: 1.5}}, unrelated: [1, 2], k0: old}"); return p; }
// exactly the option at key may differ between the two
static void onlyKey(const map<string, string> &a, const map<string, string> &b, const string &key)
{
   map<string, string> x = a, y = b; x.erase("/" + key); y.erase("/" + key);
   vc::check(x == y, "options other than " + key + " changed"); vc::check(b.count("/" + key), "option " + key + " was not set");
}
static const vector<string> keys = {"k0", "test/k", "test/sub/k", "new/deep/path/k"};

static double dwant(double a, double b, bool lg, int n, int i)
{
   if (n == 1) return a;
   double f = double(i) / (n - 1);
   return lg ? copysign(exp(log(fabs(a)) * (1 - f) + log(fabs(b)) * f), a) : a * (1 - f) + b * f;
}

void vc_main()
{
   config = InputParser();
   const int NS = X.thorough ? 24 : 9;
   vector<string> dv = {"-3.5", "-1", "0", "0.001", "1.0", "2.5", "128.0", "1e6"};
   for (int logs = -1; logs < 2; logs++) for (auto &a : dv) for (auto &b : dv)
   {
      const double A = stod(a), B = stod(b); if (logs == 1 && !(A * B > 0)) continue;
      for (int n = 1; n <= NS; n++)
         X.run("double " + a + ".." + b + " log" + S(logs) + " n" + S(n), [=]() {
            for (auto &key : keys)
            {
               DoubleParam p(key, opt("double", a, b, logs, "")); vc::eq(p.GetKey(), key, "key"); p.SetSize(n); vc::eq((int) p.GetSize(), n, "size");
               InputParser c = fresh(); auto before = flat(c.dict_);
               // ascending, then descending: no dependence on the previous index
               for (int q = 0; q < 2 * n; q++)
               {
                  int i = q < n ? q : 2 * n - 1 - q;
                  p.SetParam(i, c); X.transitions++;
                  vc::near(c.GetRequiredOption<double>(key), dwant(A, B, logs == 1, n, i), "sample " + S(i), max(fabs(A), fabs(B)) * 1e-3, 1e-10);
                  onlyKey(before, flat(c.dict_), key);
               }
               vc::Hash h; h.add(A).add(B).add(logs).add(n); X.outcome(h.h);
            }
            // outside of 0..n-1 there is no sample
            DoubleParam p("k", opt("double", a, b, logs, "")); p.SetSize(n);
            for (int i : {-1, n, n + 1}) { int st = vc::in_child([&]() { InputParser c = fresh(); p.SetParam(i, c); }); vc::check(!vc::child_ok(st), "sample index " + S(i) + " of " + S(n) + " accepted"); }
         });
      // draws
      X.run("double draw " + a + ".." + b + " log" + S(logs), [=]() {
         DoubleParam p("test/k", opt("double", a, b, logs, ""));
         InputParser c = fresh(); auto before = flat(c.dict_);
         const double lo = min(A, B), hi = max(A, B), eps = 1e-9 * max(1.0, max(fabs(A), fabs(B)));
         ctl = true; ndraw = 0; vector<double> got, want; const int M = 16;
         for (int k = 0; k <= M; k++)
         {
            draw01 = double(k) / M; p.SetRandomParam(c); X.transitions++; onlyKey(before, flat(c.dict_), "test/k");
            double v = c.GetRequiredOption<double>("test/k"); got.push_back(v); want.push_back(dwant(A, B, logs == 1, M + 1, k));
            vc::check(v >= lo - eps && v <= hi + eps, "draw outside the range: " + S(v));
         }
         ctl = false;
         if (ndraw == M + 1)   // one draw per value: the draw maps onto the whole range
         {
            sort(got.begin(), got.end()); sort(want.begin(), want.end());
            for (int k = 0; k <= M; k++) vc::near(got[k], want[k], "draws " + S(k) + "/" + S(M) + " do not cover the range evenly", eps * 1e8, 1e-9);
         }
         for (int k = 0; k < 200; k++) { p.SetRandomParam(c); double v = c.GetRequiredOption<double>("test/k"); vc::check(v >= lo - eps && v <= hi + eps, "draw outside the range: " + S(v)); }
      });
   }
   vector<int> iv = {-7, -1, 0, 1, 2, 5, 12, 100};
   vector<string> fmts = {"testfile.%08d.h5", "%d", "dir/a%03d_b", "no_number", "x%+d", string(300, 'q') + "%d"};
   auto fmt = [](const string &f, int v) { vector<char> b(2000); snprintf(b.data(), b.size(), f.c_str(), v); return string(b.data()); };
   for (int a : iv) for (int b : iv)
   {
      for (int n = 1; n <= NS + 5; n++)
      {
         auto want = [=](int i) { return n == 1 ? a : a + i * ((b - a) / (n - 1)); };
         X.run("integer " + S(a) + ".." + S(b) + " n" + S(n), [=]() {
            for (auto &key : keys)
            {
               IntegerParam p(key, opt("integer", S(a), S(b), -1, "")); p.SetSize(n); vc::eq((int) p.GetSize(), n, "size");
               InputParser c = fresh(); auto before = flat(c.dict_);
               for (int q = 0; q < 2 * n; q++)
               {
                  int i = q < n ? q : 2 * n - 1 - q; p.SetParam(i, c); X.transitions++;
                  vc::eq(c.GetRequiredOption<int>(key), want(i), "sample " + S(i)); onlyKey(before, flat(c.dict_), key);
               }
               for (auto &f : fmts)
               {
                  FilenameParam fp(key, opt("filename", S(a), S(b), -1, f)); fp.SetSize(n); InputParser d = fresh(); auto bef = flat(d.dict_);
                  for (int q = 0; q < 2 * n; q++) { int i = q < n ? q : 2 * n - 1 - q; fp.SetParam(i, d); X.transitions++; vc::eq(d.GetRequiredOption<string>(key), fmt(f, want(i)), "file of sample " + S(i)); onlyKey(bef, flat(d.dict_), key); }
               }
               vc::Hash h; h.add(a).add(b).add(n).add(key); X.outcome(h.h);
            }
            IntegerParam p("k", opt("integer", S(a), S(b), -1, "")); p.SetSize(n);
            for (int i : {-1, n}) { int st = vc::in_child([&]() { InputParser c = fresh(); p.SetParam(i, c); }); vc::check(!vc::child_ok(st), "sample index " + S(i) + " of " + S(n) + " accepted"); }
         });
      }
      if (b < a) continue;   // no draws, no list of files
      X.run("integer draw " + S(a) + ".." + S(b), [=]() {
         for (auto &f : fmts)
         {
            IntegerParam p("test/k", opt("integer", S(a), S(b), -1, "")); FilenameParam q("test/f", opt("filename", S(a), S(b), -1, f));
            InputParser c = fresh(); set<int> seen; set<string> files; int before = ndraw = 0; ctl = true;
            for (int k = 0; k <= b - a; k++)
            {
               drawk = k; p.SetRandomParam(c); int v = c.GetRequiredOption<int>("test/k"); vc::check(v >= a && v <= b, "integer draw " + S(v) + " outside"); seen.insert(v);
               q.SetRandomParam(c); files.insert(c.GetRequiredOption<string>("test/f")); X.transitions += 2;
               if (ndraw > before) { vc::eq(dmin, a, "lower end of the draw"); vc::eq(dmax, b, "upper end of the draw"); }
            }
            ctl = false;
            set<string> all; for (int k = a; k <= b; k++) all.insert(fmt(f, k));
            if (ndraw == 2 * (b - a + 1)) { vc::eq((int) seen.size(), b - a + 1, "values reachable by a draw"); vc::check(files == all, "files reachable by a draw"); }
            for (int k = 0; k < 200; k++) { p.SetRandomParam(c); int v = c.GetRequiredOption<int>("test/k"); vc::check(v >= a && v <= b, "integer draw outside"); q.SetRandomParam(c); vc::check(all.count(c.GetRequiredOption<string>("test/f")), "file draw outside"); }
            vector<string> fs = {"kept"}; q.ParseFilenames(fs); vc::eq((int) fs.size(), b - a + 2, "number of files of the range"); vc::eq(fs[0], string("kept"), "files already listed");
            for (int k = a; k <= b; k++) vc::eq(fs[k - a + 1], fmt(f, k), "file " + S(k));
         }
      });
   }
   // several parameters in one configuration, all interleavings of setting them
   const int D = X.thorough ? 7 : 5;
   for (int len = 1; len <= D; len++) vc::product(vector<int>(len, 4), [&](const vector<int> &seq) {
      X.run("several " + vc::str(seq), [=]() {
         vector<unique_ptr<Parameter>> p; p.emplace_back(new DoubleParam("test/a", opt("double", "1.0", "2.0", 0, ""))); p.emplace_back(new DoubleParam("test/b", opt("double", "1", "64", 1, "")));
         p.emplace_back(new IntegerParam("test/c", opt("integer", "2", "8", -1, ""))); p.emplace_back(new FilenameParam("test/d/f", opt("filename", "0", "9", -1, "f%02d")));
         InputParser c = fresh(); for (auto &q : p) q->SetSize(4); vector<int> cur(4, -1);
         for (size_t k = 0; k < seq.size(); k++) { int i = (k * 3 + seq[k]) % 4; p[seq[k]]->SetParam(i, c); cur[seq[k]] = i; X.transitions++; }
         for (int q = 0; q < 4; q++)
         {
            const double a = c.GetOption<double>("test/a", -9); const double b = c.GetOption<double>("test/b", -9); const int d = c.GetOption<int>("test/c", -9); const string f = c.GetOption<string>("test/d/f", "none");
            vc::near(a, cur[0] < 0 ? -9 : 1 + cur[0] / 3.0, "first"); vc::near(b, cur[1] < 0 ? -9 : pow(4.0, cur[1]), "second"); vc::eq(d, cur[2] < 0 ? -9 : 2 + 2 * cur[2], "third"); vc::eq(f, cur[3] < 0 ? string("none") : fmt("f%02d", 3 * cur[3]), "fourth");
         }
         vc::Hash h; for (int v : cur) h.add(v); X.outcome(h.h);
      });
   });
   // required entries
   for (int miss = 0; miss < 5; miss++) X.run("missing " + S(miss), [=]() {
      int st = vc::in_child([=]() { if (miss == 0) DoubleParam p("k", opt("double", "", "1", 0, "")); if (miss == 1) DoubleParam p("k", opt("double", "1", "", 0, "")); if (miss == 2) IntegerParam p("k", opt("integer", "", "1", 0, "")); if (miss == 3) IntegerParam p("k", opt("integer", "1", "", 0, "")); if (miss == 4) FilenameParam p("k", opt("filename", "1", "2", 0, "")); });
      vc::check(!vc::child_ok(st), "an incomplete parameter was accepted"); });
   // no size, no sample
   X.run("unsized", [=]() { int st = vc::in_child([=]() { DoubleParam p("k", opt("double", "1", "2", 0, "")); InputParser c = fresh(); p.SetParam(0, c); }); vc::check(!vc::child_ok(st), "a parameter without a size was sampled"); });
}
