I = "src/algebra/iter.h"
B = "src/algebra/bicg.h"
C = "src/algebra/cg.h"
S = "src/solver.cpp"
P = "src/spinAccumulationSolver.cpp"
W = "src/electrostatSolver.cpp"
MUT = [
    (I, "if (nit >= maxiter)", "if (nit > 2*maxiter)"),
    (I, "cv = (res <= rhsn * resmax);", "cv = !(res > rhsn * resmax) || nit == 0;"),
    (I, "cv = (res <= rhsn * resmax);", "cv = (res <= resmax);"),
    (I, "cv = (res <= rhsn * resmax);", "cv = (res <= 10 * rhsn * resmax);"),
    (B, "        ++iter;\n", ""),
    (C, "            iter.status = CANNOT_CONVERGE;\n            break;", "            break;"),
    (C, "            iter.status = CANNOT_CONVERGE;\n            break;", "            iter.status = CONVERGED;\n            break;"),
    (B, "else if ((iter.status == ITER_OVERFLOW)||(iter.status == CANNOT_CONVERGE))\n            {break;}", ""),
    (C, "            && (iter.status != ITER_OVERFLOW)\n", ""),
    (S, "    if ((iter.status == algebra::ITER_OVERFLOW)\n            || (iter.status == algebra::CANNOT_CONVERGE)", "    if ((iter.status == algebra::CANNOT_CONVERGE)"),
    (S, "            || (iter.status == algebra::CANNOT_CONVERGE)", ""),
    (P, "{ s[i].setZero(); }", "{ s[i][IDX_X] = 0.0; }"),
    (P, "for(int i = 0; i < NOD; i++)\n            { s[i]", "for(int i = 1; i < NOD; i++)\n            { s[i]"),
    (P, "        for(int i = 0; i < NOD; i++)\n            { s[i].setZero(); }\n", ""),
    (P, "                exit(1);\n", "                exit(0);\n"),
    (W, "        { exit(1); }", "        { std::cerr << \"failed\\n\"; }"),
    (S, "        return true;\n", "        return false;\n"),
    (I, "        status = UNDEFINED;\n        }\n\n    /** return a string", "        }\n\n    /** return a string"),
    ("src/time_integration.cpp", "bool err = linAlg.solve(t_prm);", "linAlg.solve(t_prm); bool err = false;"),
    (B, "            if((rho_2 == 0)||(omega == 0))\n                {\n                iter.status = CANNOT_CONVERGE;\n                break;", "            if((rho_2 == 0)||(omega == 0))\n                {\n                iter.status = CANNOT_CONVERGE;\n                continue;"),
]
OK = [
    (I, "if (nit >= maxiter)", "if (!(nit < maxiter))"),
    (I, "        nit++;\n", "        nit = nit + 1;\n"),
    (I, "cv = (res <= rhsn * resmax);", "const T limit = resmax * rhsn; cv = limit >= res;"),
    (S, "    if ((iter.status == algebra::ITER_OVERFLOW)\n            || (iter.status == algebra::CANNOT_CONVERGE)\n", "    const bool failed = (iter.status == algebra::ITER_OVERFLOW)\n            || (iter.status == algebra::CANNOT_CONVERGE);\n    if (failed\n"),
    (S, "    if ((iter.status == algebra::ITER_OVERFLOW)\n            || (iter.status == algebra::CANNOT_CONVERGE)\n", "    if ((iter.status != algebra::CONVERGED)\n"),
    (P, "        for(int i = 0; i < NOD; i++)\n            { s[i].setZero(); }", "        for (auto &v : s) { v = Eigen::Vector3d::Zero(); }"),
    (B, "        if (iter.finished(norm(s)))\n            {\n            scaled_add(phat, alpha, x); // x += alpha * phat\n            break;\n            }\n        else if ((iter.status == ITER_OVERFLOW)||(iter.status == CANNOT_CONVERGE))\n            {break;}",
        "        const bool done = iter.finished(norm(s));\n        if (done)\n            scaled_add(phat, alpha, x);\n        if (done || iter.status == ITER_OVERFLOW || iter.status == CANNOT_CONVERGE)\n            break;"),
    (I, "        if (std::isnan(res))\n            { status = CANNOT_CONVERGE; }\n        else\n            {\n            cv = (res <= rhsn * resmax);\n            if(cv)\n                { status = CONVERGED; }\n            }\n        return cv;",
        "        if (std::isnan(res)) { status = CANNOT_CONVERGE; return false; }\n        if (!(res <= rhsn * resmax)) return false;\n        status = CONVERGED;\n        return true;"),
    (W, "        { exit(1); }", "        { std::cerr << \"failed\\n\"; SYSTEM_ERROR; }"),
]
