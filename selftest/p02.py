T = "src/tetra.cpp"
S = "src/triangle.cpp"
L = "src/linear_algebra.cpp"
EL = "src/element.h"
TH = "src/tetra.h"
MUT = [
    (T, "const double Abis = 2.0 * param.A / (mu0*Ms);", "const double Abis = param.A / (mu0*Ms);"),
    (T, "interpolation_field(Nodes::get_phi<CURRENT>, Hd);", "interpolation_field(Nodes::get_phi<NEXT>, Hd);"),
    (T, "interpolation_field(Nodes::get_phiv<CURRENT>, Hv);", "interpolation_field(Nodes::get_phi<CURRENT>, Hv);"),
    (T, "H += H_aniso + (s_dt / gamma0) * Hv;", "H += H_aniso + s_dt * Hv;"),
    (T, "H += H_aniso + (s_dt / gamma0) * Hv;", "H += H_aniso;"),
    (T, "double Kbis = 2.0 * param.K/(mu0*Ms);", "double Kbis = 2.0 * param.K/Ms;"),
    (T, "calc_aniso_cub(param.ex, param.ey, param.ez,", "calc_aniso_cub(param.ex, param.ez, param.ez,"),
    (T, "calc_aniso_uniax(param.uk, Kbis, s_dt/gamma0, U, V, H_aniso);", "calc_aniso_uniax(param.uk, Kbis, s_dt, U, V, H_aniso);"),
    (T, "AE.block<N,N>(0,2*N).diagonal() += diag;", "AE.block<N,N>(0,2*N).diagonal() -= diag;"),
    (T, "diag = a_w.cwiseProduct(calcOffDiagBlock(IDX_Y));", "diag = a_w.cwiseProduct(calcOffDiagBlock(IDX_X));"),
    (T, "get_u(Nodes::CURRENT)[idx]", "get_u(Nodes::NEXT)[idx]"),
    (T, "lumping(a_eff, prm_t.prefactor * s_dt * Abis, AE);", "lumping(a_eff, s_dt * Abis, AE);"),
    (T, "result *= c*weight.sum();", "result *= c*weight[0];") if False else (T, "result *= c*weight.sum();", "result *= c;"),
    (T, "Perm.indices() = {4, 5, 6, 7, 0, 1, 2, 3};", "Perm.indices() = {0, 1, 2, 3, 4, 5, 6, 7};"),
    (T, "Perm.indices() = {4, 5, 6, 7, 0, 1, 2, 3};", "Perm.indices() = {4, 5, 6, 7, 0, 1, 3, 2};"),
    (T, "Lp = Perm * P * BE.reshaped<Eigen::RowMajor>();", "Lp = Perm * P * BE.reshaped();"),
    (T, "Lp = Perm * P * BE.reshaped<Eigen::RowMajor>();", "Lp = P * BE.reshaped<Eigen::RowMajor>();"),
    (T, "BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) );", "BE.col(i) += ai_w*(H.col(npi));"),
    (T, "    Heff += Hst;\n", "    Heff += Hst;\n    H += Hst;\n"),
    (T, "+ da(i,2)*dUdz.col(npi));// exchange", "+ da(i,2)*dUdy.col(npi));// exchange"),
    (T, "a_eff(npi) = alpha + reduced_dt / 2. * h;", "a_eff(npi) = alpha + reduced_dt * h;"),
    (T, "alpha / (1. - reduced_dt / (2. * alpha) * h)", "alpha / (1. + reduced_dt / (2. * alpha) * h)"),
    (T, "if (h < -M)", "if (h < M)"),
    (T, "return Kbis * (U.transpose() * uk).array().square();", "return Kbis * (U.transpose() * uk).array();"),
    (L, "Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> H = A_Hext * sp_H;", "Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> H = sp_H;"),
    (EL, "P.template block<N,N>(N,N).diagonal() = tempo.row(Nodes::IDX_Y);", "P.template block<N,N>(N,N).diagonal() = tempo.row(Nodes::IDX_Z);"),
    (EL, "tempo.col(i) = getNode(i).eq; }", "tempo.col(i) = getNode(i).ep; }"),
    (S, "interpolation(Nodes::get_u<CURRENT>, u);", "interpolation(Nodes::get_u<NEXT>, u);"),
    (S, "Perm.indices() = {3, 4, 5, 0, 1, 2};", "Perm.indices() = {0, 1, 2, 3, 4, 5};"),
    (S, "2.0*params.Ks / (mu0*dMs)", "2.0*params.Ks / dMs"),
    (S, "params.uk.dot(u.col(npi));", "params.uk.dot(u.col(0));") if False else (S, "BE(k,i) += _prefactor*a[i][npi]*params.uk(k);", "BE(k,i) += _prefactor*a[i][npi]*u(k,npi);"),
    (TH, "X.col(j) -= (scalar_nod[i] * da.row(i));", "X.col(j) += (scalar_nod[i] * da.row(i));"),
    (T, "(s_dt/gamma0)*V.col(npi); // spin", "s_dt*V.col(npi); // spin"),
    (T, "const double s_dt = THETA * dt * gamma0;", "const double s_dt = dt * gamma0 / 4;"),
    (T, "Kp = Perm * P * AE * P.transpose();", "Kp = P * AE * P.transpose();"),
]
OK = [
    (T, "BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE", "BE.col(i) += ai_w*H.col(npi);\n            BE.col(i) += ai_w*Hst.col(npi);"),
    (T, '''            BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                    + da(i,2)*dUdz.col(npi));// exchange
''', '''            for (int k = 0; k < DIM; k++)
                BE(k,i) -= w*Abis*(da(i,0)*dUdx(k,npi) + da(i,1)*dUdy(k,npi) + da(i,2)*dUdz(k,npi));
'''),
    (T, "H += H_aniso + (s_dt / gamma0) * Hv;", "H += THETA * dt * Hv; H += H_aniso;"),
    (T, "const double Abis = 2.0 * param.A / (mu0*Ms);", "const double Js = mu0*Ms; const double Abis = param.A / Js * 2.0;"),
    (T, '''    AE.block<N,N>(0,0) += exch_block;
    AE.block<N,N>(N,N) += exch_block;
    AE.block<N,N>(2*N,2*N) += exch_block;
''', '''    for (int k = 0; k < DIM; k++)
        AE.block<N,N>(k*N,k*N) += exch_block;
'''),
    (T, "Lp = Perm * P * BE.reshaped<Eigen::RowMajor>();", "Eigen::Matrix<double,3*N,1> be = BE.reshaped<Eigen::RowMajor>();\n    Lp = Perm * (P * be);"),
    (T, "Kp = Perm * P * AE * P.transpose();", "Kp = Perm * (P * (AE * P.transpose()));"),
    (T, "uHeff += (U.cwiseProduct(Heff)).colwise().sum();", "for (int npi = 0; npi < NPI; npi++) { uHeff[npi] += U.col(npi).dot(Heff.col(npi)); }"),
    (S, '''            for(int k = 0;k<DIM;k++)
                {
                BE(k,i) += _prefactor*a[i][npi]*params.uk(k);
                }
''', '''            BE.col(i) += _prefactor*a[i][npi]*params.uk;
'''),
    (T, '''            if (h > M)
                a_eff(npi) = alpha + reduced_dt / 2. * M;
            else
                a_eff(npi) = alpha + reduced_dt / 2. * h;''', '''            a_eff(npi) = alpha + reduced_dt / 2. * std::min(h, M);'''),
    (T, '''            if (h > M)
                a_eff(npi) = alpha + reduced_dt / 2. * M;
            else
                a_eff(npi) = alpha + reduced_dt / 2. * h;''', '''            const double hh = (h > M) ? M : h;
            a_eff(npi) = alpha + 0.5 * gamma0 * dt * hh;'''),
    (T, "if(param.K != 0)\n        {\n        double Kbis", "if(fabs(param.K) > 0)\n        {\n        double Kbis"),
    (L, '''                      H.colwise() = Hext;  // set all columns of H to Hext
''', '''                      for (int i = 0; i < Tetra::NPI; i++) { H.col(i) = Hext; }
'''),
    (L, '''                  if (msh->isMagnetic(tet))
                      { tet.integrales(paramTet[tet.idxPrm], t_prm, calc_Hext, idx_dir, DW_vz); }
''', '''                  if (!msh->isMagnetic(tet)) return;
                  const Tetra::prm &p = paramTet[tet.idxPrm];
                  tet.integrales(p, t_prm, calc_Hext, idx_dir, DW_vz);
'''),
    (T, '''    for(int npi = 0;npi<NPI;npi++)
        { H_aniso.col(npi) += (Kbis * uk.dot( U.col(npi) + s_dt * V.col(npi))) * uk; }
    return Kbis''', '''    Eigen::Matrix<double,DIM,NPI> W = U + s_dt*V;
    H_aniso += Kbis * uk * (uk.transpose() * W);
    return Kbis'''),
    (T, "    H += H_aniso + (s_dt / gamma0) * Hv;\n    \n", "    const double theta_dt = s_dt / gamma0;\n    H = H + H_aniso + theta_dt * Hv;\n"),
]
