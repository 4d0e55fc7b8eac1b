// C06: global configurations assembled from components and ports. Enumerates arrangements, component assignments,
// rotations, port orders and directions, sources of the port descriptions, local vertex orders; geometric oracle.
#define VC_MAIN
#include "comp.hpp"

static void examine(const Setup &s, ComponentTopologyHandler &th)
{
   const int N = s.places.size(); vector<unique_ptr<Mesh>> ref;
   for (auto &f : s.files) { ref.emplace_back(new Mesh(f.c_str())); for (int k = 0; k < s.refine; k++) ref.back()->UniformRefinement(); }
   const int dim = ref[0]->Dimension();
   vc::eq(th.GetNumSubdomains(), N, "number of subdomains"); vc::eq(th.GetNumComponents(), (int) s.names.size(), "number of components"); vc::eq(th.GetNumPorts(), (int) s.ports.size(), "number of ports"); vc::eq(th.GetNumRefPorts(), (int) s.refs.size(), "number of reference ports"); vc::check(th.GetType() == COMPONENT, "type");
   Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td); vc::eq(ms.Size(), N, "exported meshes"); vc::eq(td.numSub, N, "exported number"); vc::eq(td.dim, dim, "exported dimension");
   set<int> gb; for (auto &b : s.bdrs) gb.insert(b.g); set<int> got(td.global_bdr_attributes->begin(), td.global_bdr_attributes->end()); vc::check(gb == got && (int) got.size() == td.global_bdr_attributes->Size(), "global boundary attributes");
   vector<int> cnt(s.names.size(), 0);
   for (int m = 0; m < N; m++)
   {
      int c = s.places[m].comp; vc::check(ms[m] == th.GetMesh(m), "exported mesh"); vc::eq(th.GetMeshType(m), c, "component of mesh " + S(m)); vc::eq(th.GetComponentIndexOfMesh(m), cnt[c]++, "index of mesh " + S(m) + " in its component");
      vc::eq(ms[m]->GetNE(), ref[c]->GetNE(), "elements of mesh " + S(m)); vc::eq(ms[m]->GetNBE(), ref[c]->GetNBE(), "boundary elements of mesh " + S(m));
      int co[4] = {1, 0, -1, 0}, q = ((s.places[m].quarter % 4) + 4) % 4, C = co[q], Sn = co[(q + 3) % 4];
      for (int e = 0; e < ref[c]->GetNE(); e++)
      {
         const IntegrationRule &ir = IntRules.Get(ref[c]->GetElementBaseGeometry(e), 2); vc::eq(ms[m]->GetAttribute(e), ref[c]->GetAttribute(e), "element attribute");
         for (int k = 0; k < ir.GetNPoints(); k++) { Vector x, y; ref[c]->GetElementTransformation(e)->Transform(ir.IntPoint(k), x); ms[m]->GetElementTransformation(e)->Transform(ir.IntPoint(k), y); P3 w = {0, 0, 0}; if (dim == 2) { w[0] = C * x(0) - Sn * x(1) + s.places[m].t[0]; w[1] = Sn * x(0) + C * x(1) + s.places[m].t[1]; } else for (int d = 0; d < 3; d++) w[d] = x(d) + s.places[m].t[d]; vc::check(dist(w, toP(y)) < 1e-9, "mesh " + S(m) + " is not where it was placed: " + topo::str(toP(y)) + " instead of " + topo::str(w)); }
      }
   }
   for (size_t c = 0; c < s.names.size(); c++) { vc::eq(th.GetComponentName(c), s.names[c], "name of component"); vc::eq(th.GetNumSubdomains(c), cnt[c], "meshes of component"); vc::eq(th.GetComponentMesh(c)->GetNE(), ref[c]->GetNE(), "component mesh elements"); for (int b = 0; b < ref[c]->GetNBE(); b++) vc::eq(th.GetComponentMesh(c)->GetBdrAttribute(b), ref[c]->GetBdrAttribute(b), "component mesh boundary attribute"); }
   for (size_t r = 0; r < s.refs.size(); r++) { int c1, c2, a1, a2; th.GetRefPortInfo(r, c1, c2, a1, a2); vc::eq(s.names[c1], s.refs[r].c1, "component 1 of reference port"); vc::eq(s.names[c2], s.refs[r].c2, "component 2 of reference port"); vc::eq(a1, s.refs[r].a1, "attribute 1"); vc::eq(a2, s.refs[r].a2, "attribute 2"); th.GetComponentPair(r, c1, c2); vc::eq(s.names[c1] + s.names[c2], s.refs[r].c1 + s.refs[r].c2, "component pair"); }
   // boundary attributes expected on every mesh: ports and global boundary
   vector<map<int, int>> c2g(N); set<int> pattr; set<pair<int, int>> used; map<pair<int, int>, int> paired;
   for (auto &b : s.bdrs) c2g[b.m][b.a] = b.g;
   for (size_t p = 0; p < s.ports.size(); p++)
   {
      const PortInfo *pi = th.GetPortInfo(p); const Port &P = s.ports[p];
      vc::check(pi->Mesh1 == P.m1 && pi->Mesh2 == P.m2 && pi->Attr1 == P.a1 && pi->Attr2 == P.a2, "description of port " + S(p)); vc::eq(s.refs[th.GetPortType(p)].name, P.ref, "type of port " + S(p));
      vc::check(pattr.insert(pi->PortAttr).second, "two ports with one attribute"); vc::check(!gb.count(pi->PortAttr), "a port has a global boundary attribute"); for (auto &rm : ref) vc::check(rm->bdr_attributes.Find(pi->PortAttr) < 0, "a port has the attribute of a component boundary");
      c2g[P.m1][P.a1] = pi->PortAttr; c2g[P.m2][P.a2] = pi->PortAttr;
      Array<InterfaceInfo> *ii = th.GetInterfaceInfos(p); vc::check(th.GetRefInterfaceInfos(th.GetPortType(p)) == ii, "interfaces of reference port"); int n1 = 0, n2 = 0;
      for (int b = 0; b < ms[P.m1]->GetNBE(); b++) n1 += ref[s.places[P.m1].comp]->GetBdrAttribute(b) == P.a1; for (int b = 0; b < ms[P.m2]->GetNBE(); b++) n2 += ref[s.places[P.m2].comp]->GetBdrAttribute(b) == P.a2;
      vc::eq(ii->Size(), n1, "number of joined faces of port " + S(p)); vc::eq(n1, n2, "faces on the two sides");
      for (int i = 0; i < ii->Size(); i++)
      {
         InterfaceInfo &f = (*ii)[i]; vc::check(f.BE1 >= 0 && f.BE1 < ms[P.m1]->GetNBE() && f.BE2 >= 0 && f.BE2 < ms[P.m2]->GetNBE(), "boundary element numbers");
         vc::eq(ref[s.places[P.m1].comp]->GetBdrAttribute(f.BE1), P.a1, "component attribute of a joined face (side 1)"); vc::eq(ref[s.places[P.m2].comp]->GetBdrAttribute(f.BE2), P.a2, "component attribute of a joined face (side 2)");
         vc::check(paired.insert({{P.m1, f.BE1}, p}).second && paired.insert({{P.m2, f.BE2}, p}).second, "a boundary element is joined twice");
         P3 a = bdrCentre(*ms[P.m1], f.BE1), b = bdrCentre(*ms[P.m2], f.BE2); for (int d = 0; d < 3; d++) b[d] += P.shift[d]; vc::check(dist(a, b) < 1e-8, "port " + S(p) + " joins faces at " + topo::str(a) + " and " + topo::str(b));
      }
      checkTransformations(th, p, P.shift); X.transitions += ii->Size();
   }
   for (int m = 0; m < N; m++)
   {
      set<int> u; const Array<int> &cb = ref[s.places[m].comp]->bdr_attributes;
      for (int b = 0; b < ms[m]->GetNBE(); b++) { int want = c2g[m].at(ref[s.places[m].comp]->GetBdrAttribute(b)); vc::eq(ms[m]->GetBdrAttribute(b), want, "boundary attribute of mesh " + S(m) + " element " + S(b)); u.insert(want); vc::eq((int) paired.count({m, b}), (int) pattr.count(want), "joined faces are exactly those with a port attribute"); }
      set<int> l(ms[m]->bdr_attributes.begin(), ms[m]->bdr_attributes.end()); vc::check(l == u && (int) l.size() == ms[m]->bdr_attributes.Size(), "listed boundary attributes of mesh " + S(m));
      Array<int> *mp = th.GetBdrAttrComponentToGlobalMap(m); vc::eq(mp->Size(), cb.Size(), "size of the boundary map"); for (int k = 0; k < cb.Size(); k++) vc::eq((*mp)[k], c2g[m].at(cb[k]), "boundary map of mesh " + S(m));
   }
   // completeness against geometry: two boundary faces of different meshes at the same place are joined
   map<Key, vector<pair<int, int>>> at; for (int m = 0; m < N; m++) for (int b = 0; b < ms[m]->GetNBE(); b++) at[key(bdrCentre(*ms[m], b))].push_back({m, b});
   for (auto &k : at) if (k.second.size() > 1) { vc::eq((int) k.second.size(), 2, "faces at one place"); vc::check(paired.count(k.second[0]) && paired.count(k.second[1]) && paired[k.second[0]] == paired[k.second[1]], "coinciding faces are not joined"); }
   vc::eq((int) H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR), 0, "files or groups left open");
}

static void run(const Setup &s)
{
   dir = vc::tmpfile("d"); mkdir(dir.c_str(), 0700);
   auto clean = [&]() { string c = "rm -rf ./" + dir; int r = system(c.c_str()); (void) r; };
   try
   {
      writeGlobal(s, dir + "/global.h5", dir + "/bdr.h5");
      if (s.source < 3) { config.dict_ = yaml(s, false, false); ComponentTopologyHandler th; examine(s, th); }
      else
      {  // write the ports to files, then read them; then again with a configuration that lists the ports in reverse
         config.dict_ = yaml(s, true, true); { ComponentTopologyHandler th; examine(s, th); }
         for (auto &r : s.refs) { struct stat st; vc::check(stat((dir + "/" + r.name + ".h5").c_str(), &st) == 0, "port file " + r.name + " was not written"); }
         Setup t = s; t.yamlOrder.clear(); for (int i = (int) s.refs.size() - 1; i >= 0; i--) t.yamlOrder.push_back(i);
         // the second time only name and file are given
         config.dict_ = yaml(t, false, true); YAML::Node ps = config.dict_["mesh"]["component-wise"]["ports"]; YAML::Node q; for (size_t i = 0; i < ps.size(); i++) { if (ps[i]["name"].as<string>() == "unused") continue; YAML::Node n; n["file"] = ps[i]["file"].as<string>(); n["name"] = ps[i]["name"].as<string>(); q.push_back(n); q.push_back(n); } if (s.refs.size()) config.dict_["mesh"]["component-wise"]["ports"] = q;
         ComponentTopologyHandler *a = new ComponentTopologyHandler; examine(s, *a);
         config.dict_ = yaml(s, false, false); { ComponentTopologyHandler b; for (size_t r = 0; r < s.refs.size(); r++) { auto *x = a->GetPortData(r), *y = b.GetPortData(r); vc::check(x->Component1 == y->Component1 && x->Component2 == y->Component2 && x->Attr1 == y->Attr1 && x->Attr2 == y->Attr2, "port read from a file"); vc::check(x->vtx2to1 == y->vtx2to1, "vertex map read from a file"); vc::eq(x->be_pairs.NumRows(), y->be_pairs.NumRows(), "pairs read from a file"); for (int i = 0; i < x->be_pairs.NumRows(); i++) for (int j = 0; j < 2; j++) vc::eq(x->be_pairs(i, j), y->be_pairs(i, j), "pair read from a file"); } }
         delete a;
         if (s.refs.size())
         {  // all the ports in one file, in reverse, beside a port that the configuration does not have; then two overlapping files
            auto pack = [&](const string &out, const vector<int> &which, int other) {
               hid_t f = H5Fcreate(out.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(f, "number_of_ports", (int) which.size() + (other >= 0)); int k = 0;
               auto put = [&](int r, const char *nm) { hid_t in = H5Fopen((dir + "/" + s.refs[r].name + ".h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); H5Ocopy(in, "0", f, S(k).c_str(), H5P_DEFAULT, H5P_DEFAULT); H5Fclose(in); if (nm) { hid_t g = H5Gopen2(f, S(k).c_str(), H5P_DEFAULT); H5Adelete(g, "name"); hdf5_utils::WriteAttribute(g, "name", string(nm)); H5Gclose(g); } k++; };
               for (size_t i = 0; i < which.size(); i++) { if ((int) i == other) put(0, "elsewhere"); put(which[i], NULL); } if (other == (int) which.size()) put(0, "elsewhere"); H5Fclose(f); };
            vector<int> rev; for (int i = (int) s.refs.size() - 1; i >= 0; i--) rev.push_back(i);
            for (int form = 0; form < 3; form++)
            {
               const int n = rev.size(); vector<string> fl;
               if (form < 2) { pack(dir + "/all.h5", rev, form ? n / 2 : n); fl = {"all.h5"}; }
               else { pack(dir + "/one.h5", vector<int>(rev.begin(), rev.begin() + (n + 1) / 2), 0); pack(dir + "/two.h5", vector<int>(rev.begin() + n / 2, rev.end()), -1); fl = {"one.h5", "two.h5"}; if (n / 2 == n) fl = {"one.h5"}; }
               YAML::Node l; for (auto &x : fl) { YAML::Node e; e["name"] = "ports of " + x; e["file"] = dir + "/" + x; l.push_back(e); }
               config.dict_ = yaml(s, false, true); config.dict_["mesh"]["component-wise"]["ports"] = l; ComponentTopologyHandler th; examine(s, th);
            }
         }
      }
   }
   catch (...) { clean(); throw; }
   clean();
   vc::Hash h; for (auto &p : s.ports) { h.add(p.m1); h.add(p.m2); h.add(p.a1); h.add(p.a2); } for (auto &p : s.places) { h.add(p.comp); h.add(p.quarter); } X.outcome(h.h);
}

void vc_main()
{
   config = InputParser();
   struct Grid { const char *n; vector<array<int, 3>> c; };
   vector<Grid> g2 = {{"1", {{{0, 0, 0}}}}, {"2x1", {{{0, 0, 0}}, {{1, 0, 0}}}}, {"1x2", {{{0, 0, 0}}, {{0, 1, 0}}}}, {"3x1", {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}}}, {"L", {{{1, 1, 0}}, {{0, 0, 0}}, {{1, 0, 0}}}}, {"2x2", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}}, {"2x2 shuffled", {{{1, 1, 0}}, {{0, 1, 0}}, {{1, 0, 0}}, {{0, 0, 0}}}}, {"T", {{{1, 0, 0}}, {{0, 0, 0}}, {{2, 0, 0}}, {{1, 1, 0}}}}, {"gap", {{{0, 0, 0}}, {{2, 0, 0}}, {{2, 1, 0}}}}};
   // 1. component assignments x sources of ports x separate boundary file x boundary numbering
   for (Kind k : {QUAD, TRI}) for (auto &g : g2) vc::product(vector<int>(g.c.size(), g.c.size() > 3 && !X.thorough ? 2 : 3), [&](const vector<int> &asg) {
      for (int src = 0; src < 4; src++) for (int gm = 0; gm < 4; gm++) { int sep = (src + gm) % 2; if (!X.thorough && g.c.size() > 3 && (src + gm + asg[0] + asg[1]) % 4) continue;
      X.run(string("assign ") + name(k) + " " + g.n + " " + vc::str(asg) + " source " + S(src) + " boundary " + S(gm), [=]() {
         set<int> u(asg.begin(), asg.end()); map<int, int> ix; Setup s; for (int c : u) { ix[c] = s.names.size(); s.names.push_back(c == 0 ? "square" : c == 1 ? "other comp" : "z3"); s.files.push_back(meshFile(k, 2, 2, 1, c == 0 ? vector<int>{0} : c == 1 ? vector<int>{1, 0, 3, 2, 2, 1} : vector<int>{2}, c == 2, c == 1 ? 1 : 1)); }
         for (size_t m = 0; m < g.c.size(); m++) place(s, ix[asg[m]], g.c[m], 0); s.source = src; s.sepBdr = sep; s.verbose = (gm == 3); if (src == 2) s.extraComp = {"not used"}; for (int i = (int) u.size() - 1; i >= 0; i--) s.compOrder.push_back(i);
         connect(s, 2, g.c, 0, gm, {}); for (int i = (int) s.refs.size() - 1; i >= 0; i--) s.yamlOrder.push_back(i); run(s); }); } });
   // 2. all rotations of up to 3 meshes
   for (size_t gi : {1, 2, 4}) { auto g = g2[gi]; for (Kind k : {QUAD, TRI}) vc::product(vector<int>(g.c.size(), 4), [&](const vector<int> &q) { for (int same = 0; same < 2; same++) { if (k == TRI && !same) continue;
      X.run(string("rotate ") + name(k) + " " + g.n + " quarters " + vc::str(q) + " same " + S(same), [=]() { Setup s; s.names = {"a"}; s.files = {meshFile(k, 2, 2, 1, {0, 1, 2, 3})}; if (!same) { s.names.push_back("b"); s.files.push_back(meshFile(k, 2, 2, 1, {3, 0})); } for (size_t m = 0; m < g.c.size(); m++) place(s, same ? 0 : m % 2, g.c[m], q[m] - (m == 1 ? 4 : 0)); connect(s, 2, g.c, q[0], 1, {}); s.source = q[0] % 3; run(s); }); } }); }
   // 2b. larger arrangements, rotations and components mixed
   for (int W : {3, 5}) for (int H : {1, 2, 3}) { if (W * H < 5 || W * H > 10) continue; for (int q0 = 0; q0 < 4; q0++) for (int st = 0; st < 4; st++) for (int nc = 1; nc <= 3; nc++)
      X.run("large " + S(W) + "x" + S(H) + " first " + S(q0) + " step " + S(st) + " components " + S(nc), [=]() { vector<array<int, 3>> c; for (int i = 0; i < W * H; i++) { int j = (i * 4 + st) % (W * H); if (W * H == 10) j = (i * 3 + st) % 10; if (W * H == 6) j = (i * 5 + st) % 6; c.push_back({{j % W, j / W, 0}}); }
         if (set<array<int, 3>>(c.begin(), c.end()).size() != c.size()) throw runtime_error("harness: cells repeat");
         Setup s; for (int k = 0; k < nc; k++) { s.names.push_back("part" + S(k)); s.files.push_back(meshFile(QUAD, 2, 2, 1, {k, 3 - k, 1})); } for (size_t m = 0; m < c.size(); m++) place(s, (m * 2 + m / 3) % nc, c[m], (q0 + (int) m * st + (int) m / 4) % 4); s.source = (q0 + st) % 4; s.sepBdr = st % 2; connect(s, 2, c, q0 * 37 + st * 5, (q0 + nc) % 4, {}); run(s); }); }
   // 3. all orders and directions of ports
   { auto g = g2[5]; vector<int> perm = {0, 1, 2, 3}; int pc = 0; do { for (int flip = 0; flip < 16; flip++) { if (!X.thorough && (pc * 7 + flip) % 3) continue; X.run("ports order " + vc::str(perm) + " flip " + S(flip), [=]() { Setup s; s.names = {"a", "b"}; s.files = {meshFile(QUAD, 2, 1, 1, {0}), meshFile(QUAD, 2, 1, 1, {2, 1})}; place(s, 0, g.c[0], 0); place(s, 1, g.c[1], 0); place(s, 1, g.c[2], 0); place(s, 0, g.c[3], 0); connect(s, 2, g.c, flip, 0, perm); s.source = flip % 4; run(s); }); } pc++; } while (next_permutation(perm.begin(), perm.end())); }
   // 4. local vertex orders, 2D and 3D
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int d = 0; d < dimOf(k); d++)
   {
      auto G = k == QUAD ? Geometry::SQUARE : k == TRI ? Geometry::TRIANGLE : k == HEX ? Geometry::CUBE : Geometry::TETRAHEDRON; int R = rotations(G).size();
      for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < R; r2++) X.run(string("orientation ") + name(k) + " dir " + S(d) + " " + S(r1) + "," + S(r2), [=]() { array<int, 3> a = {{0, 0, 0}}, b = {{0, 0, 0}}; b[d] = 1; Setup s; s.names = {"a", "b"}; s.files = {meshFile(k, 1, 1, 1, {r1}), meshFile(k, 1, 1, 1, {r2})}; place(s, 0, a, 0); place(s, 1, b, 0); connect(s, dimOf(k), {a, b}, (r1 + r2) % 2, 0, {}); run(s); });
   }
   // 5. 3D arrangements
   vector<Grid> g3 = {{"1", {{{0, 0, 0}}}}, {"2x1x1", {{{0, 0, 0}}, {{1, 0, 0}}}}, {"1x2x1", {{{0, 1, 0}}, {{0, 0, 0}}}}, {"1x1x2", {{{0, 0, 0}}, {{0, 0, 1}}}}, {"corner", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}}, {"2x2x1", {{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}}}, {"2x2x2", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}, {{0, 0, 1}}, {{1, 0, 1}}, {{0, 1, 1}}, {{1, 1, 1}}}}};
   for (Kind k : {HEX, TET}) for (auto &g : g3) for (int src = 0; src < 4; src++) for (int gm = 0; gm < 3; gm++) for (int ref = 0; ref < 2; ref++) for (int n = 1; n <= 2; n++) { if (k == TET && ref) continue; if (ref && g.c.size() > 4 && !X.thorough) continue; for (int flip : {0, 5}) X.run(string("3d ") + name(k) + S(n) + " " + g.n + " source " + S(src) + " boundary " + S(gm) + " refine " + S(ref) + " flip " + S(flip), [=]() { Setup s; s.names = {"cube"}; s.files = {meshFile(k, n, 1, n, {0})}; bool two = g.c.size() > 1 && flip; if (two) { s.names.push_back("cube2"); s.files.push_back(meshFile(k, n, 1, n, k == HEX ? vector<int>{5, 11} : vector<int>{3}, 1)); } for (size_t m = 0; m < g.c.size(); m++) place(s, two ? m % 2 : 0, g.c[m], 0); s.refine = ref; s.source = src; s.sepBdr = gm == 1; connect(s, 3, g.c, flip, gm, {}); run(s); }); }
   // 6. refinement and curvature in 2D, periodic connections
   // curved components (order 2 and 3), local vertex orders, both directions of the ports, two and three dimensions
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int order = 2; order <= 3; order++) for (size_t gi = 1; gi < (dimOf(k) == 2 ? g2.size() : g3.size()); gi++) for (int flip = 0; flip < 6; flip++) for (int r1 = 0; r1 < 4; r1++) { if (dimOf(k) == 3 && !X.thorough && (order + flip + r1 + gi) % 2) continue; if (k == TET && g3[gi].c.size() > 2) continue;
      X.run(string("curved ") + name(k) + " order " + S(order) + " " + (dimOf(k) == 2 ? g2[gi].n : g3[gi].n) + " flip " + S(flip) + " turn " + S(r1), [=]() { auto &g = dimOf(k) == 2 ? g2[gi] : g3[gi]; const int n = k == QUAD ? 2 : dimOf(k) == 2 ? 1 + r1 % 2 : 1; Setup s; s.names = {"a", "b"}; s.files = {meshFile(k, n, n, 1, {r1, 0, 3}, 0, 10 + order), meshFile(k, n, n, 1, {1, r1 + 2}, 1, 10 + order)}; for (size_t m = 0; m < g.c.size(); m++) place(s, (m + flip) % 2, g.c[m], 0); connect(s, dimOf(k), g.c, flip, flip % 3, {}); s.source = flip % 4; run(s); }); }
   for (int ref = 0; ref < 3; ref++) for (int curv = 1; curv <= 3; curv++) for (size_t gi = 0; gi < g2.size(); gi++) for (int flip : {0, 3}) X.run("refine " + S(ref) + " curvature " + S(curv) + " " + g2[gi].n + " flip " + S(flip), [=]() { auto &g = g2[gi]; Setup s; s.names = {"a"}; s.files = {meshFile(QUAD, 2, 2, 1, {0, 3}, 0, curv)}; for (size_t m = 0; m < g.c.size(); m++) place(s, 0, g.c[m], 0); s.refine = ref; connect(s, 2, g.c, flip, 1, {}); run(s); });
   for (int per = 1; per < 3; per++) for (int nx = 2; nx <= 3; nx++) for (int flip = 0; flip < 8; flip++) for (int src = 0; src < 4; src++) X.run("periodic " + S(per) + " " + S(nx) + " flip " + S(flip) + " source " + S(src), [=]() { vector<array<int, 3>> c; for (int i = 0; i < nx; i++) c.push_back(per == 1 ? array<int, 3>{{i, 0, 0}} : array<int, 3>{{0, i, 0}}); Setup s; s.names = {"a", "b"}; s.files = {meshFile(QUAD, 2, 2, 1, {0, 3}), meshFile(QUAD, 2, 2, 1, {1})}; for (size_t m = 0; m < c.size(); m++) place(s, m % 2, c[m], 0); array<int, 3> P = {{per == 1 ? nx : 0, per == 2 ? nx : 0, 0}}; s.source = src; connect(s, 2, c, flip, 0, {}, P); run(s); });
   // 7. components that number their boundaries differently
   for (size_t gi : {1, 2, 4, 5, 7}) for (int sa = 0; sa < 5; sa++) for (int sb = 0; sb < 5; sb++) for (int src = 0; src < 4; src++) for (int gm = 0; gm < 4; gm++) for (int flip : {0, 3, 5}) { if (!X.thorough && (src + gm + flip + sa) % 2) continue; X.run(string("numbering ") + g2[gi].n + " " + S(sa) + "," + S(sb) + " source " + S(src) + " boundary " + S(gm) + " flip " + S(flip), [=]() {
      auto &g = g2[gi]; Setup s; s.names = {"a", "b"}; s.files = {meshFile(QUAD, 2, 2, 1, {0, 3}, 0, 1, sa), meshFile(QUAD, 2, 2, 1, {1}, 1, 1, sb)}; for (size_t m = 0; m < g.c.size(); m++) place(s, (m + 1) % 2, g.c[m], 0); s.source = src; s.sepBdr = gm % 2; connect(s, 2, g.c, flip, gm, {}); renumber(s, {sa, sb}); run(s); }); }
   for (Kind k : {HEX, TET}) for (size_t gi : {1, 2, 3, 4}) for (int sa = 0; sa < 5; sa++) for (int sb = 0; sb < 5; sb++) X.run(string("numbering ") + name(k) + " " + g3[gi].n + " " + S(sa) + "," + S(sb), [=]() {
      auto &g = g3[gi]; Setup s; s.names = {"a", "b"}; s.files = {meshFile(k, 1, 1, 1, {0, 3}, 0, 1, sa), meshFile(k, 1, 1, 1, {1}, 1, 1, sb)}; for (size_t m = 0; m < g.c.size(); m++) place(s, m % 2, g.c[m], 0); s.source = sa % 4; connect(s, 3, g.c, sb, 1, {}); renumber(s, {sa, sb}); run(s); });
}
