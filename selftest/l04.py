S = "src/algebra/sparseMat.h"
M = "src/mesh.h"
MC = "src/mesh.cpp"
LA = "src/linear_algebra.cpp"
LOCK = "        mutex.lock();\n        value += val;\n        mutex.unlock();\n"
MUT = [
    (S, LOCK, "        value += val;\n"),
    (S, LOCK, "        mutex.lock();\n        double tmp = value + val;\n        mutex.unlock();\n        value = tmp;\n"),
    (S, LOCK, "        mutex.lock();\n        if (val == 0) return;\n        value += val;\n        mutex.unlock();\n"),
    (S, "std::mutex& mutex = row.mutex;", "std::mutex& mutex = rows[j].mutex;"),
    (S, LOCK, "        double old = value;\n        mutex.lock();\n        value = old + val;\n        mutex.unlock();\n"),
    (M, "        std::for_each(EXEC_POL, node.begin(), node.end(),\n                      [&r](Nodes::Node &nod) { nod.setBasis(r); });",
     "        int count = 0;\n        std::for_each(EXEC_POL, node.begin(), node.end(),\n                      [&r, &count](Nodes::Node &nod) { nod.setBasis(r); count++; });"),
    (M, "[&r](Nodes::Node &nod) { nod.setBasis(r); });", "[](Nodes::Node &nod) { nod.setBasis(rand()); });"),
    [("src/solver.cpp", "    for (const int idx : msh->magTet)\n        {", "    std::for_each(EXEC_POL, msh->magTet.begin(), msh->magTet.end(), [this](const int idx)\n        {"),
     ("src/solver.cpp", "        buildVect<Tetra::N>(my_elem.ind, Le);\n        }\n", "        buildVect<Tetra::N>(my_elem.ind, Le);\n        });\n")],
    (MC, "magTet.end(),0.0,std::plus<>(),", "magTet.end(),0.0,std::minus<>(),"),
    (M, "{ return std::min(a, b); }", "{ return a - b; }"),
    ("src/tetra.cpp", "    Eigen::Matrix<double,3*N,3*N> AE;\n", "    static Eigen::Matrix<double,3*N,3*N> AE;\n"),
    ("src/tetra.cpp", "    Eigen::Matrix<double,DIM,N> BE;\n", "    thread_local int dummy = 0; (void) dummy;\n    static Eigen::Matrix<double,DIM,N> BE;\n"),
    (LA, "                      { tet.integrales(paramTet[tet.idxPrm], t_prm, calc_Hext, idx_dir, DW_vz); }",
     "                      {\n                      tet.integrales(paramTet[tet.idxPrm], t_prm, calc_Hext, idx_dir, DW_vz);\n                      if (tet.idx > 0) { tet.Kp += msh->tet[tet.idx - 1].Kp; }\n                      }"),
    ("src/fmm_demag.h", "std::for_each(msh.magTet.begin(),msh.magTet.end(),[this, &msh, &getter, &nsrc]", "std::for_each(EXEC_POL, msh.magTet.begin(),msh.magTet.end(),[this, &msh, &getter, &nsrc]"),
    ("src/fmm_demag.h", "std::for_each(msh.magTri.begin(),msh.magTri.end(),[this, &msh, &getter, &nsrc]", "std::for_each(EXEC_POL, msh.magTri.begin(),msh.magTri.end(),[this, &msh, &getter, &nsrc]"),
    (S, "            double val = 0;\n", "            static double val;\n            val = 0;\n"),
    ("src/spinAccumulationSolver.cpp", "{ H += calc_Hst(t, prefactor, s); };", "{ t.da *= 1.0; static int calls; calls++; H += calc_Hst(t, prefactor, s); };"),
    (LA, "[this](Triangle::Tri &tri)\n                  {\n                  // the contribution to Lp computed in integrales is due to surface anisotropy\n                  if ((msh->isMagnetic(tri)) && (paramTri[tri.idxPrm].Ks != 0))\n                      { tri.integrales(paramTri[tri.idxPrm]); }",
     "[this](Triangle::Tri &tri)\n                  {\n                  if ((msh->isMagnetic(tri)) && (paramTri[tri.idxPrm].Ks != 0))\n                      { tri.integrales(paramTri[tri.idxPrm]); msh->c += msh->l; }"),
]
OK = [
    (S, LOCK, "        std::lock_guard<std::mutex> guard(mutex);\n        value += val;\n"),
    (S, LOCK, "        {\n        std::unique_lock<std::mutex> guard(row.mutex);\n        value += val;\n        }\n"),
    (S, "        double& value = row[j];\n", "        auto it = std::lower_bound(row.indices.begin(), row.indices.end(), j);\n        double& value = row.values[it - row.indices.begin()];\n"),
    (S, "        std::mutex& mutex = row.mutex;\n        double& value = row[j];\n" + LOCK, "        row.mutex.lock();\n        row[j] += val;\n        row.mutex.unlock();\n"),
    (M, "        std::for_each(EXEC_POL, node.begin(), node.end(),\n                      [&r](Nodes::Node &nod) { nod.setBasis(r); });", "        for (Nodes::Node &nod : node) { nod.setBasis(r); }"),
    (M, "{ return std::min(a, b); }", "{ return a < b ? a : b; }"),
    (M, "                    return m1.dot(m2);", "                    double s = 0;\n                    for (int k = 0; k < 3; k++) s += m1[k] * m2[k];\n                    return s;"),
    ("src/tetra.cpp", "    Eigen::Matrix<double,3*N,3*N> AE;\n    AE.setZero();\n", "    Eigen::Matrix<double,3*N,3*N> AE = Eigen::Matrix<double,3*N,3*N>::Zero();\n"),
    (LA, "                  if (msh->isMagnetic(tet))\n                      { tet.integrales(", "                  if (!msh->isMagnetic(tet)) return;\n                      { tet.integrales("),
    (S, "            double val = 0;\n            for (size_t k = 0; k < row.indices.size(); ++k)\n                val += row.values[k] * X[row.indices[k]];\n            return val;",
     "            double val = 0;\n            size_t k = 0;\n            while (k < row.indices.size())\n                { const int col = row.indices[k]; val += row.values[k] * X[col]; k++; }\n            return val;"),
    (S, LOCK, "        if (val == 0) return;\n" + LOCK),
    (MC, "                double val(0);\n                const Tetra::Tet &te = tet[idxElem];", "                const Tetra::Tet &te = tet[idxElem];\n                double val(0);"),
]
