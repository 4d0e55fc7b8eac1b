// C01: configuration store. All operation sequences up to a depth, against a tree model.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "input_parser.hpp"
#include <fstream>
#include <iostream>
#include <set>
using namespace std;
using vc::X; using vc::S;

// ---- MPI as seen by the parser: a transcript of broadcasts, recorded as rank 0 and replayed as rank r ----
static int sim_init = 0, sim_rank = 0; static size_t bpos = 0;
static vector<string> bcasts; static bool bcast_bad = false;
extern "C" int MPI_Initialized(int *f) { *f = sim_init; return 0; }
extern "C" int MPI_Finalized(int *f) { *f = 0; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm, int *r) { *r = sim_rank; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int *r) { *r = 2; return 0; }
extern "C" int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm)
{
   size_t bytes = (size_t) n * (t == MPI_INT ? sizeof(int) : t == MPI_CHAR ? 1 : t == MPI_DOUBLE ? 8 : 1);
   if (root != 0) { bcast_bad = true; return 0; }
   if (sim_rank == 0) bcasts.push_back(string((char *) b, bytes));
   else
   {
      if (bpos >= bcasts.size() || bcasts[bpos].size() != bytes) { bcast_bad = true; bpos++; return 0; }
      memcpy(b, bcasts[bpos].data(), bcasts[bpos].size()); bpos++;
   }
   return 0;
}

// ---- model: a tree of string scalars ----
struct Node { bool scalar = false; string v; map<string, Node> kids; };
static vector<string> split(const string &p) { vector<string> o; string s; istringstream i(p); while (getline(i, s, '/')) o.push_back(s); return o; }
// 0 absent, 1 present, 2 below a scalar (outside the model)
static int find(Node &root, const string &p, Node *&out)
{
   Node *n = &root;
   for (auto &k : split(p)) { if (n->scalar) return 2; auto it = n->kids.find(k); if (it == n->kids.end()) return 0; n = &it->second; }
   out = n; return 1;
}
static bool mset(Node &root, const string &p, const string &v)
{
   Node *n = &root;
   for (auto &k : split(p)) { if (n->scalar) return false; n = &n->kids[k]; }
   n->scalar = true; n->v = v; n->kids.clear(); return true;
}
static void collect(const Node &n, const string &pre, map<string, string> &o)
{ if (n.scalar) { o[pre] = n.v; return; } for (auto &k : n.kids) collect(k.second, pre.empty() ? k.first : pre + "/" + k.first, o); }
static void collect(const YAML::Node &n, const string &pre, map<string, string> &o)
{
   if (n.IsScalar()) { o[pre] = n.as<string>(); return; }
   if (n.IsMap()) for (auto it = n.begin(); it != n.end(); ++it) collect(it->second, pre.empty() ? it->first.as<string>() : pre + "/" + it->first.as<string>(), o);
   else if (n.IsSequence()) { ostringstream s; s << "["; for (size_t k = 0; k < n.size(); k++) s << (k ? "," : "") << n[k].as<string>(); s << "]"; o[pre] = s.str(); }
}

static const vector<string> paths = {"a", "b", "a/b", "a/c", "b/a/c", "b/a/d", "c/a"};

static void observe(InputParser &p, Node &m, const string &where)
{
   map<string, string> want, got;
   collect(m, "", want); collect(p.dict_, "", got);
   ostringstream a, b; for (auto &x : want) a << x.first << "=" << x.second << ";"; for (auto &x : got) b << x.first << "=" << x.second << ";";
   vc::eq(b.str(), a.str(), where + ": contents");
   for (auto &q : paths)
   {
      Node *n = NULL; int r = find(m, q, n);
      if (r == 2) continue;
      vc::eq((bool) p.FindNode(q), r == 1, where + ": existence of " + q);
      if (r == 0)
      {
         vc::eq(p.GetOption<int>(q, -77), -77, where + ": fallback of " + q);
         vc::eq(p.GetOption<string>(q, "fb"), string("fb"), where + ": fallback of " + q);
      }
      else if (n->scalar)
      {
         vc::eq(p.GetOption<string>(q, "fb"), n->v, where + ": value of " + q);
         vc::eq(p.GetRequiredOption<string>(q), n->v, where + ": required value of " + q);
         if (isdigit(n->v[0])) vc::eq(p.GetOption<int>(q, -77), atoi(n->v.c_str()), where + ": int value of " + q);
      }
      else
      {
         // the same question asked through the sub-dictionary
         YAML::Node sub = p.FindNode(q);
         for (auto &k : n->kids) if (k.second.scalar)
            vc::eq(p.GetOptionFromDict<string>(k.first, "fb", sub), k.second.v, where + ": value of " + k.first + " in " + q);
      }
   }
   // looking things up must not have created anything
   map<string, string> got2; collect(p.dict_, "", got2);
   vc::check(got == got2, where + ": look-ups changed the contents");
   vc::Hash h; for (auto &x : got) h.add(x.first).add(x.second); X.outcome(h.h);
}

struct Op { int kind; string path, val; };
static vector<Op> ops()
{
   vector<Op> o;
   for (auto &p : paths) { o.push_back({0, p, "1"}); }
   o.push_back({0, "a/b", "2"}); o.push_back({0, "b", "x"}); o.push_back({1, "b/a", "3"}); o.push_back({2, "a/c", "4"});
   o.push_back({3, "b/a/c", ""}); o.push_back({4, "a", ""});
   return o;
}
static bool apply(const Op &o, InputParser &p, Node &m)
{
   X.transitions++;
   Node *n = NULL;
   if (o.kind == 0) { Node c = m; if (!mset(c, o.path, o.val)) return false; m = c;
      if (isdigit(o.val[0])) p.SetOption<int>(o.path, atoi(o.val.c_str())); else p.SetOption<string>(o.path, o.val); }
   else if (o.kind == 1)
   {  // set through a sub-dictionary handle: SetOptionInDict("d", v, node(b/a))
      if (find(m, o.path, n) != 1 || n->scalar) return false;
      mset(*n, "d", o.val); p.SetOptionInDict<string>("d", o.val, p.FindNode(o.path)); }
   else if (o.kind == 2)
   {  // a handle taken earlier stays bound to the store
      if (find(m, o.path, n) != 1 || !n->scalar) return false;
      YAML::Node h = p.FindNode(o.path); p.SetOption<string>(o.path, o.val); n->v = o.val;
      vc::eq(h.as<string>(), o.val, "a handle of an overwritten option"); }
   else if (o.kind == 3) { if (find(m, o.path, n) == 2) return false; (void) (bool) p.FindNode(o.path); (void) p.GetOption<double>(o.path, 0.5); }
   else if (o.kind == 4)
   {  // save, change, restore (what sampling does with the whole configuration)
      YAML::Node keep = YAML::Clone(p.dict_);
      Node c = m; if (!mset(c, "b", "9")) return false;
      p.SetOption<int>("b", 9); observe(p, c, "after a temporary change"); p.dict_ = keep; }
   return true;
}

static void sequences()
{
   auto O = ops(); const int n = (int) O.size();
   const vector<string> docs = {"{}", "a: 5\n", "a:\n  b: 6\n  c: 7\nb: {a: {c: 8}}\n"};
   const int depth = X.thorough ? 5 : 4;
   for (size_t d = 0; d < docs.size(); d++)
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
         X.run("seq doc=" + S(d) + " ops=" + S(i) + "," + S(j) + ",*", [&, d, i, j]() {
            // every sequence with this prefix, up to the depth
            std::function<void(vector<int>)> rec = [&](vector<int> seq) {
               InputParser p; p.dict_ = YAML::Load(docs[d]); Node m;
               if (d == 1) mset(m, "a", "5");
               if (d == 2) { mset(m, "a/b", "6"); mset(m, "a/c", "7"); mset(m, "b/a/c", "8"); }
               string w = "doc " + S(d) + " ops " + vc::str(seq);
               for (int k : seq) if (!apply(O[k], p, m)) return;
               observe(p, m, w); X.states++;
               if ((int) seq.size() < depth) for (int k = 0; k < n; k++) { auto s = seq; s.push_back(k); rec(s); }
            };
            rec({i, j});
         });
}

static void types()
{
   const vector<double> dv = {0.0, -0.0, 1.0 / 3.0, -2.5e-17, 1.7976931348623157e308, 4.9406564584124654e-324, 0.1, -123456789.123456789, 3.0, 6.02e23};
   for (double v : dv) for (auto &p : paths)
      X.run("type double " + S(v) + " " + p, [=]() { InputParser c; c.dict_ = YAML::Load("{}"); c.SetOption<double>(p, v); vc::eq(c.GetOption<double>(p, -1), v, "double " + p); vc::eq(c.GetRequiredOption<double>(p), v, "double"); });
   for (int v : {0, -1, 7, 2147483647, -2147483647 - 1}) for (auto &p : paths)
      X.run("type int " + S(v) + " " + p, [=]() { InputParser c; c.dict_ = YAML::Load("{}"); c.SetOption<int>(p, v); vc::eq(c.GetOption<int>(p, 5), v, "int " + p); vc::eq(c.GetOption<double>(p, 5), (double) v, "int as double"); });
   for (bool v : {false, true}) X.run("type bool " + S(v), [=]() { InputParser c; c.dict_ = YAML::Load("{}"); c.SetOption<bool>("a/b", v); vc::eq(c.GetOption<bool>("a/b", !v), v, "bool"); vc::eq(c.GetOption<bool>("a/c", !v), !v, "bool fallback"); });
   for (const char *s : {"", "x", "with space", "path/with.dots_%d", "true", "1e3", ": odd # text", "multi\nline"})
      X.run(string("type string ") + s, [=]() { InputParser c; c.dict_ = YAML::Load("{}"); c.SetOption<string>("a/b", s); vc::eq(c.GetOption<string>("a/b", "zz"), string(s), "string"); });
   // sequences of every length up to 3 over a small alphabet, through YAML text and through the store
   for (int n = 0; n <= 3; n++) vc::product(vector<int>(n, 3), [&](const vector<int> &e) {
      X.run("type list " + S(n) + ":" + vc::str(e), [=]() {
         InputParser c; string t = "["; for (int k = 0; k < n; k++) t += (k ? "," : "") + S(e[k] * 5 - 4); t += "]";
         c.dict_ = YAML::Load("l: " + t);
         Array<int> ai = c.GetRequiredOption<Array<int>>("l"); Vector v = c.GetRequiredOption<Vector>("l"); auto vs = c.GetRequiredOption<vector<string>>("l");
         vc::eq(ai.Size(), n, "size"); vc::eq(v.Size(), n, "size"); vc::eq((int) vs.size(), n, "size");
         for (int k = 0; k < n; k++) { vc::eq(ai[k], e[k] * 5 - 4, "entry"); vc::eq(v[k], e[k] * 5.0 - 4, "entry"); vc::eq(vs[k], S(e[k] * 5 - 4), "entry"); }
         if (n > 0)
         {
            c.SetOption<Array<int>>("m/i", ai); c.SetOption<Vector>("m/v", v); c.SetOption<vector<string>>("m/s", vs);
            Array<int> a2 = c.GetRequiredOption<Array<int>>("m/i"); Vector v2 = c.GetRequiredOption<Vector>("m/v"); auto s2 = c.GetRequiredOption<vector<string>>("m/s");
            vc::eq(a2.Size(), n, "size"); vc::eq(v2.Size(), n, "size"); vc::eq((int) s2.size(), n, "size");
            for (int k = 0; k < n; k++) { vc::eq(a2[k], ai[k], "entry"); vc::eq(v2[k], v[k], "entry"); vc::eq(s2[k], vs[k], "entry"); }
         }
      }); });
}

static void forced()
{
   // every override string of up to 3 (thorough: 4) assignments; later ones win; anything malformed is refused
   struct A { string k, v; bool ok; };
   const vector<A> as = {{"a", "1", 1}, {"a/b", "2", 1}, {"b/a/c", "x", 1}, {"b/a/c", "2.5", 1}, {"a/b", "[1,2]", 1}, {"c", "word", 1},
                         {"bad", "", 0}, {"k=v", "w", 0}, {"novalue=", "", 0}};
   auto text = [&](int i) { const A &a = as[i]; if (i == 6) return string("bad"); if (i == 8) return string("novalue="); return a.k + "=" + a.v; };
   const string doc = "b: {a: {c: old, d: keep}, e: 3}\nz: [4, 5]\n";
   for (int n = 0; n <= (X.thorough ? 4 : 3); n++) vc::product(vector<int>(n, (int) as.size()), [&](const vector<int> &e) {
      X.run("forced " + vc::str(e), [=, &as]() {
         string f = vc::tmpfile("doc.yml"); { ofstream o(f); o << doc; }
         string s; bool ok = true; Node m; mset(m, "b/a/c", "old"); mset(m, "b/a/d", "keep"); mset(m, "b/e", "3"); mset(m, "z", "[4,5]");
         for (int k = 0; k < n; k++) { s += (k ? ":" : "") + text(e[k]); }
         bool skip = false;
         for (int k = 0; k < n && ok; k++) { if (!as[e[k]].ok) ok = false; else if (!mset(m, as[e[k]].k, as[e[k]].v)) { skip = true; break; } }
         for (int mode = 0; mode < 2; mode++)   // serial start, and under MPI as rank 0 and as rank 1
         {
            sim_init = mode; sim_rank = 0; bcasts.clear(); bpos = 0; bcast_bad = false;
            auto body = [&]() {
               for (int r = 0; r < (mode ? 2 : 1); r++)
               {
                  sim_rank = r; bpos = 0;
                  InputParser p(f, s);
                  vc::check(!bcast_bad, "ranks disagree about a broadcast");
                  map<string, string> w, g; collect(m, "", w); collect(p.dict_, "", g);
                  ostringstream a, b; for (auto &x : w) a << x.first << "=" << x.second << ";"; for (auto &x : g) b << x.first << "=" << x.second << ";";
                  vc::eq(b.str(), a.str(), "contents after '" + s + "' mode " + S(mode) + " rank " + S(r));
                  vc::Hash h; h.add(b.str()); X.outcome(h.h);
               } };
            if (skip) continue;
            if (ok) body();
            else
            {
               int st = vc::in_child([&]() { InputParser p(f, s); });
               vc::check(!vc::child_ok(st), "malformed override string '" + s + "' was accepted");
            }
            X.transitions += n;
         }
         sim_init = 0; sim_rank = 0; unlink(f.c_str());
      }); });
}

static void required()
{
   for (auto &p : paths) for (int have = 0; have < 4; have++)
      X.run("required " + p + " have=" + S(have), [=]() {
         InputParser c; c.dict_ = YAML::Load("{}");
         if (have & 1) c.SetOption<int>("zz/y", 3);
         if (have & 2) c.SetOption<int>(p, 3);
         if (have & 2) { vc::eq(c.GetRequiredOption<int>(p), 3, "required " + p); }
         else { int st = vc::in_child([&]() { volatile int v = c.GetRequiredOption<int>(p); (void) v; }); vc::check(!vc::child_ok(st), "a missing required option " + p + " went unnoticed"); }
      });
}

static void lookups()
{
   // lists of records: the first record whose key matches wins; otherwise the default
   const vector<string> rec = {"{}", "{name: x}", "{name: y, v: 2}", "{name: x, v: 3}", "{other: x, v: 4}", "{name: y}", "{sub: {k: x}, name: z, v: 5}"};
   const vector<string> nm = {"", "x", "y", "x", "", "y", "z"}; const vector<int> val = {-1, -1, 2, 3, -1, -1, 5};
   for (int n = 0; n <= (X.thorough ? 5 : 3); n++) vc::product(vector<int>(n, (int) rec.size()), [&](const vector<int> &e) {
      X.run("lookup " + vc::str(e), [=]() {
         string t = "["; for (int k = 0; k < n; k++) t += (k ? "," : "") + rec[e[k]]; t += "]";
         InputParser c; c.dict_ = YAML::Load("list: " + t);
         for (const char *q : {"x", "y", "z", "w"})
         {
            int hit = -1; for (int k = 0; k < n && hit < 0; k++) if (nm[e[k]] == q) hit = k;
            YAML::Node r = c.LookUpFromDict<string>("name", q, c.FindNode("list"));
            vc::eq((bool) r, hit >= 0, "found " + string(q) + " in " + t);
            if (hit >= 0) { vc::eq(c.GetOptionFromDict<int>("v", -1, r), val[e[hit]], "record of " + string(q) + " in " + t); vc::eq(c.GetOptionFromDict<string>("name", "?", r), string(q), "name"); }
            int got = c.LookUpFromDict<string, int>("name", q, "v", -9, c.FindNode("list"));
            vc::eq(got, (hit >= 0 && val[e[hit]] >= 0) ? val[e[hit]] : -9, "value for " + string(q) + " in " + t);
            X.transitions += 2;
         }
         int s = -9; for (int k = 0; k < n && s < 0; k++) if (e[k] == 6) s = 5;
         vc::eq(c.LookUpFromDict<string, int>("sub/k", "x", "v", -9, c.FindNode("list")), s, "nested key in " + t);
         vc::eq(c.LookUpFromDict<string, int>("name", "x", "v", -9, c.FindNode("nolist")), -9, "no list");
         vc::check(!c.LookUpFromDict<string>("name", "x", c.FindNode("nolist")), "no list");
      }); });
}

// documents of every length around the sizes at which a string or a buffer changes its representation, read
// serially and as each of the processes of a parallel start
static void lengths()
{
   vector<int> L; for (int k = 0; k <= 300; k++) L.push_back(k);
   for (int c : {511, 1023, 4095, 4096, 8191, 16384, 65536}) for (int d = -2; d <= 2; d++) L.push_back(c + d);
   if (X.thorough) for (int k = 301; k <= 9000; k++) L.push_back(k);
   for (int n : L) for (int kind = 0; kind < 3; kind++)
      X.run("length " + S(n) + " kind=" + S(kind), [=]() {
         // kind 0: one long value; 1: many short entries; 2: entries and a final comment without line end
         string t; Node m;
         if (kind == 0) { if (n >= 4) { string v; for (int k = 0; k < n - 3; k++) v += char('a' + k % 26); t = "a: " + v; mset(m, "a", v); } else t = string(n, '#'); }
         else
         {
            int k = 0;
            while (true) { string e = "k" + S(k) + ": {v: " + S(7 * k) + "}\n"; if ((int) (t.size() + e.size()) > n) break; t += e; mset(m, "k" + S(k) + "/v", S(7 * k)); k++; }
            if (kind == 1) t += string(n - t.size(), '\n'); else t += string(n - t.size(), '#');
         }
         vc::eq((int) t.size(), n, "oracle: length");
         string f = vc::tmpfile("doc.yml"); { ofstream o(f, ios::binary); o << t; }
         map<string, string> w; collect(m, "", w);
         for (int mode = 0; mode < 2; mode++)
         {
            sim_init = mode; sim_rank = 0; bcasts.clear(); bcast_bad = false;
            for (int r = 0; r < (mode ? 3 : 1); r++)
            {
               sim_rank = r; bpos = 0; InputParser p(f, n % 3 ? "" : "zz/y=3");
               if (n % 3 == 0 && !w.count("zz/y")) w["zz/y"] = "3";
               vc::check(!bcast_bad, "process " + S(r) + " takes part in a different broadcast than the root");
               if (r) vc::eq(bpos, bcasts.size(), "process " + S(r) + ": broadcasts taken part in");
               map<string, string> g; collect(p.dict_, "", g);
               if (g != w) { ostringstream a, b; for (auto &x : w) a << x.first << "=" << x.second << ";"; for (auto &x : g) b << x.first << "=" << x.second << ";";
                  vc::eq(b.str().substr(0, 400), a.str().substr(0, 400), "contents, mode " + S(mode) + " process " + S(r)); vc::check(false, "contents, mode " + S(mode) + " process " + S(r)); }
               X.transitions++;
            }
         }
         sim_init = 0; sim_rank = 0; unlink(f.c_str());
      });
}

// deep paths: every pair of paths over two names up to a depth, and long chains that part at every level
static void deep()
{
   const int top = X.thorough ? 6 : 5;
   vector<string> all;
   for (int d = 1; d <= top; d++) for (int bits = 0; bits < (1 << d); bits++) { string p; for (int k = 0; k < d; k++) p += string(k ? "/" : "") + ((bits >> k) & 1 ? "b" : "a"); all.push_back(p); }
   for (size_t i = 0; i < all.size(); i++)
      X.run("deep pair first=" + all[i], [=, &all]() {
         for (auto &q : all)
         {
            InputParser p; p.dict_ = YAML::Load("{}"); Node m;
            mset(m, all[i], "1"); p.SetOption<int>(all[i], 1);
            Node c = m; if (!mset(c, q, "2")) continue;
            m = c; p.SetOption<int>(q, 2);
            for (auto &r : all)
            {
               Node *n = NULL; int e = find(m, r, n); if (e == 2) continue;
               vc::eq((bool) p.FindNode(r), e == 1, all[i] + " then " + q + ": existence of " + r);
               if (e == 0) vc::eq(p.GetOption<int>(r, -7), -7, all[i] + " then " + q + ": fallback of " + r);
               else if (n->scalar) vc::eq(p.GetOption<int>(r, -7), atoi(n->v.c_str()), all[i] + " then " + q + ": value of " + r);
            }
            map<string, string> w, g; collect(m, "", w); collect(p.dict_, "", g);
            vc::check(w == g, all[i] + " then " + q + ": contents"); X.transitions++; X.states++;
         }
      });
   for (int d = 1; d <= 14; d++) for (int part = 0; part < d; part++) for (int len : {1, 2, 15, 16, 40, 300})
      X.run("deep chain d=" + S(d) + " part=" + S(part) + " name length=" + S(len), [=]() {
         auto name = [&](int k, bool other) { return string(len, char('a' + k)) + (other ? "_x" : ""); };
         string p1, p2; for (int k = 0; k < d; k++) { p1 += (k ? "/" : "") + name(k, false); p2 += (k ? "/" : "") + name(k, k >= part); }
         InputParser p; p.dict_ = YAML::Load("{}");
         p.SetOption<int>(p1, 11); p.SetOption<string>(p2, "other value"); p.SetOption<double>(p1, 1.25);
         vc::eq(p.GetOption<double>(p1, 0.0), 1.25, p1); vc::eq(p.GetRequiredOption<string>(p2), string("other value"), p2);
         vc::check(!p.FindNode(p1 + "_y"), "a longer name than was set");
         map<string, string> g; collect(p.dict_, "", g); vc::eq(g.size(), (size_t) 2, "options");
      });
}

// override strings of many assignments, with every type of value, to distinct and to repeated keys
static void overrides()
{
   const vector<string> vals = {"0", "-3", "2147483647", "1.5", "-1e-3", "2.5e17", "true", "false", "word", "two words", "[1,2,3]", "[0.5,-2]", "[]", "../dir/file.h5", "a.b%05d", "yes"};
   for (int n = 0; n <= (X.thorough ? 60 : 24); n++) for (int keys : {1, 2, 3, 7, 100}) for (int mode = 0; mode < 2; mode++)
      X.run("overrides n=" + S(n) + " keys=" + S(keys) + " mode=" + S(mode), [=]() {
         string f = vc::tmpfile("doc.yml"); { ofstream o(f); o << "s: {k0: {v: was}}\nlast: [7]\n"; }
         string t; map<string, string> w; w["s/k0/v"] = "was";
         for (int i = 0; i < n; i++) { string key = "s/k" + S(i % keys) + "/v"; string v = vals[(i * 5 + n) % vals.size()]; t += (i ? ":" : "") + key + "=" + v; w[key] = v; }
         sim_init = mode; sim_rank = 0; bcasts.clear(); bcast_bad = false;
         for (int r = 0; r < (mode ? 2 : 1); r++)
         {
            sim_rank = r; bpos = 0; InputParser p(f, t); vc::check(!bcast_bad, "broadcasts differ");
            for (auto &x : w)
            {
               const string &v = x.second;
               if (v[0] == '[')
               {
                  Vector got = p.GetRequiredOption<Vector>(x.first); vector<double> e; string u = v.substr(1, v.size() - 2); istringstream is(u); string y; while (getline(is, y, ',')) e.push_back(atof(y.c_str()));
                  vc::eq(got.Size(), (int) e.size(), x.first + ": entries"); for (size_t k = 0; k < e.size(); k++) vc::eq(got[k], e[k], x.first + ": entry " + S(k));
                  continue;
               }
               vc::eq(p.GetOption<string>(x.first, "?"), v, x.first + " of '" + t + "'");
               char *end; double dv = strtod(v.c_str(), &end); if (!*end) vc::eq(p.GetOption<double>(x.first, 99.0), dv, x.first + " as a number");
               if (v == "true" || v == "yes") vc::eq(p.GetOption<bool>(x.first, false), true, x.first); if (v == "false") vc::eq(p.GetOption<bool>(x.first, true), false, x.first);
            }
            vc::eq((int) p.FindNode("s").size(), (int) set<int>([&] { set<int> q = {0}; for (int i = 0; i < n; i++) q.insert(i % keys); return q; }()).size(), "options present");
            vc::eq(p.GetRequiredOption<vector<string>>("last")[0], string("7"), "an option that was not overridden");
            X.transitions += n;
         }
         sim_init = 0; sim_rank = 0; unlink(f.c_str());
      });
   const vector<string> bad = {"x", "x=", "a==1", "a=1=2", "a=1:x", "x:a=1", "a=1::b=2", ":a=1", "a=1:b", "a=1:b=2:c=3:d=4:e", "a=1:b=2=3:c=4"};
   for (auto &b : bad) X.run("overrides bad " + b, [=]() {
      string f = vc::tmpfile("doc.yml"); { ofstream o(f); o << "s: 1\n"; }
      int st = vc::in_child([&]() { InputParser p(f, b); });
      vc::check(!vc::child_ok(st), "malformed override string '" + b + "' was accepted"); unlink(f.c_str()); });
}

// long lists of values and of records
static void longlists()
{
   for (int n = 0; n <= (X.thorough ? 300 : 70); n++)
      X.run("long lists n=" + S(n), [=]() {
         InputParser c; c.dict_ = YAML::Load("{}"); Array<int> ai(n); Vector v(n); vector<string> vs; Array<double> ad(n);
         for (int k = 0; k < n; k++) { ai[k] = k * 37 - 50; v[k] = sin(k + 1.0) * pow(10.0, k % 40 - 20); ad[k] = 1.0 / (k + 3); vs.push_back("s" + S(k * k)); }
         if (n) { c.SetOption<Array<int>>("m/i", ai); c.SetOption<Vector>("m/v", v); c.SetOption<vector<string>>("m/s", vs); c.SetOption<Array<double>>("m/d", ad);
            Array<int> a2 = c.GetRequiredOption<Array<int>>("m/i"); Vector v2 = c.GetOption<Vector>("m/v", Vector()); auto s2 = c.GetRequiredOption<vector<string>>("m/s"); Array<double> d2 = c.GetRequiredOption<Array<double>>("m/d");
            vc::eq(a2.Size(), n, "size"); vc::eq(v2.Size(), n, "size"); vc::eq((int) s2.size(), n, "size"); vc::eq(d2.Size(), n, "size");
            for (int k = 0; k < n; k++) { vc::eq(a2[k], ai[k], "int " + S(k)); vc::eq(v2[k], v[k], "number " + S(k)); vc::eq(s2[k], vs[k], "string " + S(k)); vc::eq(d2[k], ad[k], "double " + S(k)); } }
         // records: the key sits in record k; look every one of them up
         string t; for (int k = 0; k < n; k++) t += "  - {name: r" + S(k % 20) + ", v: " + S(100 + k) + (k % 3 ? "" : ", w: {x: " + S(k) + "}") + "}\n";
         c.dict_ = YAML::Load(n ? "list:\n" + t : string("list: []"));
         for (int k = 0; k < 22; k++)
         {
            const bool has = k < n && k < 20; YAML::Node r = c.LookUpFromDict<string>("name", "r" + S(k), c.FindNode("list"));
            vc::eq((bool) r, has, "record r" + S(k)); if (has) vc::eq(c.GetOptionFromDict<int>("v", -1, r), 100 + k, "record r" + S(k));
            vc::eq(c.LookUpFromDict<string, int>("name", "r" + S(k), "v", -5, c.FindNode("list")), has ? 100 + k : -5, "value of r" + S(k));
            vc::eq(c.LookUpFromDict<string, int>("name", "r" + S(k), "w/x", -5, c.FindNode("list")), has && k % 3 == 0 ? k : -5, "nested value of r" + S(k));
            vc::eq(c.LookUpFromDict<int, int>("v", 100 + k, "v", -5, c.FindNode("list")), k < n ? 100 + k : -5, "by number " + S(k));
         }
         X.transitions += 80;
      });
}

void vc_main() { lengths(); deep(); overrides(); longlists(); sequences(); types(); forced(); required(); lookups(); }
