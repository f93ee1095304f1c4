T = "src/time_integration.cpp"
H = "src/time_integration.h"
S = "src/solver.cpp"
N = "src/node.h"
MUT = [
    (T, "            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());\n            if (settings.recenter)", "            if (settings.recenter)"),
    (T, "                stats.bad_dt.add(t_prm.get_dt());\n                continue;\n", "                stats.bad_dt.add(t_prm.get_dt());\n                if (flag < 3) continue;\n"),
    (T, "            if (dumax > settings.DUMAX)\n                {\n                flag++;\n                continue;\n                }\n", "            if (dumax > settings.DUMAX)\n                {\n                flag++;\n                if (flag < 10) continue;\n                }\n"),
    (T, "            if (dumax > settings.DUMAX)", "            if (dumax > 2*settings.DUMAX)"),
    (T, "            double dumax = t_prm.get_dt() * vmax;", "            double dumax = t_prm.DTMIN * vmax;"),
    (T, "                t_prm.set_t(t_target);\n            else\n                t_prm.inc_t();\n", "                t_prm.set_t(t_target);\n            t_prm.inc_t();\n"),
    (T, "            if (last_step)\n                t_prm.set_t(t_target);\n            else\n                t_prm.inc_t();\n", "            t_prm.set_t(t_target);\n"),
    (T, "            nt++;\n            flag = 0;\n", "            nt++;\n            t_prm.set_dt(t_prm.get_dt()*1.1);\n            flag = 0;\n"),
    (T, "            linAlg.base_projection();\n            if(settings.getFieldType()", "            if (nt == 0) linAlg.base_projection();\n            if(settings.getFieldType()"),
    (T, "            bool err = linAlg.solve(t_prm);", "            linAlg.base_projection();\n            bool err = linAlg.solve(t_prm);"),
    (T, "Hext = settings.getField(t_prm.get_t());", "Hext = settings.getField(t_target);"),
    (T, "double amp_field_time = settings.getFieldTime(t_prm.get_t());", "double amp_field_time = settings.getFieldTime(t_prm.get_t() + t_prm.get_dt());"),
    (H, "inline void inc_t() { t += dt; }", "inline void inc_t() { t += DTMIN; }"),
    (H, "        prefactor = (1. + t_tilde * abs(log( t_tilde)));\n        }", "        }"),
    (S, "    const double dt = t_prm.get_dt();", "    const double dt = t_prm.DTMIN;"),
    (S, "            if (v2 > v2max)\n                { v2max = v2; }\n            msh->updateNode(i, vp, vq, dt);", "            if (v2 > v2max && i % 2)\n                { v2max = v2; }\n            msh->updateNode(i, vp, vq, dt);"),
    (S, "            double v2 = Nodes::sq(vp) + Nodes::sq(vq);", "            double v2 = Nodes::sq(vp) + Nodes::sq(vp);"),
    (S, "            if (v2 > v2max)\n                { v2max = v2; }", "            v2max = v2;"),
    ("src/save.cpp", "node[j].d[Nodes::CURRENT]", "node[j].d[Nodes::NEXT]"),
    ("src/fem.h", "        myFMM.calc_demag(msh);\n", "        if (t == 0) myFMM.calc_demag(msh);\n"),
    ("src/fem.h", "        energy(t, settings);\n        evolution();", "        energy(t, settings);\n        if (Etot <= Etot0) evolution();"),
    ("src/fem.h", "        energy(t, settings);\n", "        energy(0., settings);\n"),
    (T, "        saver(settings, t_prm, fout, nt_output++, spinAcc_solver.s);\n", "        if (step_nb > 0) saver(settings, t_prm, fout, nt_output++, spinAcc_solver.s);\n"),
    (T, "                stepper.set_soft_limit(t_prm.get_dt() / 2);\n", "                stepper.set_soft_limit(t_prm.get_dt() / 2);\n                msh.evolution();\n"),
]
OK = [
    (S, "    double v2max(0.0);\n    const double dt = t_prm.get_dt();\n", "    double v2max(0.0);\n    const double dt = t_prm.get_dt();\n    for (int i = 0; i < NOD; i++)\n        if (msh->magNode[i])\n            v2max = std::max(v2max, Nodes::sq(Xw[2*i]) + Nodes::sq(Xw[2*i+1]));\n"),
    (T, "            if (last_step)\n                t_prm.set_t(t_target);\n            else\n                t_prm.inc_t();\n", "            const double t_new = last_step ? t_target : t_prm.get_t() + t_prm.get_dt();\n            t_prm.set_t(t_new);\n"),
    (T, "            if (dumax > settings.DUMAX)\n", "            if (!(dumax <= settings.DUMAX))\n"),
    (T, "            if (dumax > settings.DUMAX)\n", "            if (settings.DUMAX < dumax)\n"),
    (T, "            if (err)\n                {\n                flag++;\n", "            if (err)\n                {\n                flag += 1;\n"),
    (S, "            if (v2 > v2max)\n                { v2max = v2; }\n", "            v2max = std::max(v2max, v2);\n"),
    (S, "            if (v2 > v2max)\n                { v2max = v2; }\n            msh->updateNode(i, vp, vq, dt); //gamma0 multiplication handled in updateNode\n", "            msh->updateNode(i, vp, vq, dt);\n            v2max = v2 > v2max ? v2 : v2max;\n"),
    (N, "        d[NEXT].u = d[CURRENT].u + dt * d[NEXT].v;\n        d[NEXT].u.normalize();\n", "        d[NEXT].u = (d[CURRENT].u + dt * d[NEXT].v).normalized();\n"),
    (N, "    inline void evolution(void) { d[step::CURRENT] = d[step::NEXT]; }", "    inline void evolution(void)\n        {\n        const dataNode &src = d[step::NEXT];\n        dataNode &dst = d[step::CURRENT];\n        dst.u = src.u;\n        dst.v = src.v;\n        dst.phi = src.phi;\n        dst.phiv = src.phiv;\n        }"),
    [(T, "            linAlg.base_projection();\n            if(settings.getFieldType() == RtoR3)\n                {\n                Eigen::Vector3d Hext = settings.getField(t_prm.get_t());\n                linAlg.prepareElements(Hext, t_prm);\n                }\n            else if(settings.getFieldType() == R4toR3)\n                {\n                double amp_field_time = settings.getFieldTime(t_prm.get_t());\n                linAlg.prepareElements(amp_field_time,t_prm);\n                }\n\n            bool err = linAlg.solve(t_prm);\n",
      "            bool err = attempt(settings, linAlg, t_prm);\n"),
     (T, "int Fem::time_integration(", "static bool attempt(Settings &settings, LinAlgebra &linAlg, timing &t_prm)\n    {\n    linAlg.base_projection();\n    const double t = t_prm.get_t();\n    switch (settings.getFieldType())\n        {\n        case RtoR3: linAlg.prepareElements(settings.getField(t), t_prm); break;\n        case R4toR3: linAlg.prepareElements(settings.getFieldTime(t), t_prm); break;\n        default: break;\n        }\n    return linAlg.solve(t_prm);\n    }\n\nint Fem::time_integration(")],
    (T, "        while (t_prm.get_t() < t_target)\n            {\n", "        for (;;)\n            {\n            if (t_prm.get_t() >= t_target) break;\n"),
    ("src/fem.h", "        energy(t, settings);\n        evolution();", "        evolution();\n        energy(t, settings);"),
    (T, "            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());\n            if (settings.recenter)", "            const double now = t_prm.get_t();\n            compute_all(settings, spinAcc_solver, myFMM, now);\n            if (settings.recenter)"),
    (T, "            nt++;\n            flag = 0;\n", "            flag = 0;\n            ++nt;\n"),
]
