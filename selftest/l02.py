S = "src/solver.cpp"
P = "src/spinAccumulationSolver.cpp"
MUT = [
    (S, "    K.clear();\n", ""),
    (S, "    std::fill(L_rhs.begin(), L_rhs.end(), 0);\n", ""),
    (S, "    K.clear();\n", "    if (verbose) K.clear();\n"),
    (S, "std::fill(L_rhs.begin(), L_rhs.end(), 0);", "std::fill(L_rhs.begin() + 1, L_rhs.end(), 0);"),
    (P, "    K.clear();\n", ""),
    (P, "    std::fill(L_rhs.begin(), L_rhs.end(), 0.0);\n", ""),
    ("src/algebra/sparseMat.h", "for (double& value: row.values)\n                value = 0;", "for (size_t k = 1; k < row.values.size(); ++k)\n                row.values[k] = 0;"),
    ("src/algebra/sparseMat.h", "                value = 0;", "                if (value < 0) value = 0;"),
    ("src/electrostatSolver.cpp", "    bool has_converged = solve();\n", "    bool has_converged = solve();\n    if (!has_converged) { has_converged = solve(); }\n"),
    (S, "    std::fill(L_rhs.begin(), L_rhs.end(), 0);\n    for (const int idx : msh->magTet)\n        {", "    for (const int idx : msh->magTet)\n        {\n        std::fill(L_rhs.begin(), L_rhs.end(), 0);"),
    (S, "std::fill(L_rhs.begin(), L_rhs.end(), 0);", "std::fill(Xw.begin(), Xw.end(), 0);"),
]
MUT.pop(9)
OK = [
    (S, "std::fill(L_rhs.begin(), L_rhs.end(), 0);", "for (double &z : L_rhs) z = 0;"),
    (S, "std::fill(L_rhs.begin(), L_rhs.end(), 0);", "L_rhs.assign(L_rhs.size(), 0.0);"),
    (S, "std::fill(L_rhs.begin(), L_rhs.end(), 0);", "for (size_t i = 0; i < L_rhs.size(); i++) L_rhs[i] = 0.0;"),
    ("src/algebra/sparseMat.h", "for (double& value: row.values)\n                value = 0;", "std::fill(row.values.begin(), row.values.end(), 0.0);"),
    ("src/algebra/sparseMat.h", "for (double& value: row.values)\n                value = 0;", "for (size_t k = 0; k < row.values.size(); ++k)\n                row.values[k] = 0;"),
    ("src/algebra/sparseMat.h", "value += val;", "value = value + val;"),
    ("src/electrostatSolver.cpp", "    bool has_converged = solve();\n", "    const bool done = solve();\n    bool has_converged = done;\n"),
]
