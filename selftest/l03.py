H = "src/solver.h"
S = "src/solver.cpp"
N = "src/node.h"
M = "src/mesh.h"
MUT = [
    (H, "Ke(di * N + ie,dj * N + je)", "Ke(dj * N + ie,di * N + je)"),
    (H, "Ke(di * N + ie,dj * N + je)", "Ke(DIM_PROBLEM*ie + di, DIM_PROBLEM*je + dj)"),
    (H, "K.add(DIM_PROBLEM * i_ + di, DIM_PROBLEM * j_ + dj,", "K.add(DIM_PROBLEM * j_ + di, DIM_PROBLEM * i_ + dj,"),
    (H, "for (int je = 0; je < N; je++)", "for (int je = ie; je < N; je++)"),
    (H, "L_rhs[DIM_PROBLEM*i_+di] += Le[di*N+ie];", "L_rhs[DIM_PROBLEM*i_+di] = Le[di*N+ie];"),
    (H, "L_rhs[DIM_PROBLEM*i_+di] += Le[di*N+ie];", "L_rhs[DIM_PROBLEM*i_+di] += Le[ie*DIM_PROBLEM+di];"),
    (S, "double vq = Xw[2*i+1];", "double vq = Xw[2*i];"),
    (S, "msh->updateNode(i, vp, vq, dt);", "msh->updateNode(i, vq, vp, dt);"),
    (M, "make_evol(vp*gamma0, vq*gamma0, dt);", "make_evol(vp*gamma0, vq, dt);"),
    (N, "d[NEXT].u = d[CURRENT].u + dt * d[NEXT].v;", "d[NEXT].u = d[NEXT].u + dt * d[NEXT].v;"),
    (N, "d[NEXT].u = d[CURRENT].u + dt * d[NEXT].v;", "d[NEXT].u = d[CURRENT].u + dt * d[CURRENT].v;"),
    (N, "d[NEXT].v = vp * ep + vq * eq;", "d[NEXT].v = vp * ep - vq * eq;"),
    (N, "        d[NEXT].u.normalize();\n", ""),
    (S, "algebra::bicg_dir<double>(iter, K, Xw, L_rhs, lvd);", "algebra::bicg_dir<double>(iter, K, L_rhs, Xw, lvd);"),
]
OK = [
    (H, '''                    for (int di = 0; di < DIM_PROBLEM; di++)
                        {
                        for (int dj = 0; dj < DIM_PROBLEM; dj++)
                            {
                            K.add(DIM_PROBLEM * i_ + di, DIM_PROBLEM * j_ + dj,
                                    Ke(di * N + ie,dj * N + je));
''', '''                    for (int dj = 0; dj < DIM_PROBLEM; dj++)
                        {
                        for (int di = 0; di < DIM_PROBLEM; di++)
                            {
                            const int row = i_*DIM_PROBLEM + di, col = dj + DIM_PROBLEM * j_;
                            K.add(row, col, Ke(ie + N*di,dj * N + je));
'''),
    (S, '''            double vp = Xw[2*i  ];
            double vq = Xw[2*i+1];
''', '''            const int k = i*DIM_PB_MAG;
            double vp = Xw[k];
            double vq = Xw[k+1];
'''),
    (N, '''        d[NEXT].u = d[CURRENT].u + dt * d[NEXT].v;
        d[NEXT].u.normalize();
''', '''        const Eigen::Vector3d w = d[CURRENT].u + dt * d[NEXT].v;
        d[NEXT].u = w.normalized();
'''),
    (N, "        d[NEXT].u.normalize();\n", "        d[NEXT].u /= d[NEXT].u.norm();\n"),
    (M, "node[i].make_evol(vp*gamma0, vq*gamma0, dt);", "Nodes::Node &n = node[i]; n.make_evol(gamma0*vp, gamma0*vq, dt);"),
    (N, "d[NEXT].v = vp * ep + vq * eq;", "for (int k = 0; k < 3; k++) { d[NEXT].v(k) = vp * ep(k) + vq * eq[k]; }"),
    (H, "for (int di = 0; di < DIM_PROBLEM; di++)\n                    { L_rhs[DIM_PROBLEM*i_+di] += Le[di*N+ie]; }", "int di = 0;\n                while (di < DIM_PROBLEM)\n                    { L_rhs[DIM_PROBLEM*i_+di] += Le[di*N+ie]; di++; }"),
]
