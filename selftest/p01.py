E = "src/energy.cpp"
T = "src/tetra.cpp"
S = "src/triangle.cpp"
TH = "src/tetra.h"
MUT = [
    (E, "get_u<NEXT>, u, dudx", "get_u<CURRENT>, u, dudx"),
    (E, "fa.interpolation(Nodes::get_phi<NEXT>, phi);", "fa.interpolation(Nodes::get_phi<CURRENT>, phi);"),
    (E, "std::fill(E.begin(),E.end(),0);", "E[DEMAG] = E[EXCHANGE] = E[ANISOTROPY] = 0;"),
    (E, "E[ANISOTROPY] += te.cubic", "E[ANISOTROPY] = te.cubic"),
    (E, "if (param.K3 != 0.0)", "if (param.K != 0.0 && param.K3 != 0.0)"),
    (E, "if (param.Ks != 0.0)", "if (param.Ks > 0.0)"),
    (E, "E[DEMAG] += fa.demagEnergy(u, phi);", "if (param.Ks != 0.0) { E[DEMAG] += fa.demagEnergy(u, phi); }"),
    (E, "E[ANISOTROPY] += fa.aniso", "E[DEMAG] += fa.aniso"),
    (E, "Etot = std::reduce(E.begin(),E.end());//sum of all terms", "Etot = E[EXCHANGE] + E[ANISOTROPY] + E[DEMAG];"),
    (T, "return -0.5*mu0*param.Ms*weight.dot(dens);", "return -mu0*param.Ms*weight.dot(dens);"),
    (T, "(dudx(0,npi) + dudy(1,npi) + dudz(2,npi)) * phi[npi]", "(dudx(0,npi) + dudy(1,npi) + dudz(1,npi)) * phi[npi]"),
    (T, "return -mu0*param.Ms*fieldAmp*weight.dot(dens);", "return -mu0*param.Ms*weight.dot(dens);"),
    (T, "+ dudz.colwise().squaredNorm();\n    return param.A", "+ dudy.colwise().squaredNorm();\n    return param.A"),
    (T, "return param.A * weight.dot(dens);", "return 2.0 * param.A * weight.dot(dens);"),
    (T, "sq(al2 * al0);", "sq(al2 * al1);"),
    (T, "double al1 = m.dot(param.ey);", "double al1 = m.dot(param.ex);"),
    (S, "return 0.5*mu0*dMs*dens.dot(weight);", "return 0.5*mu0*fabs(dMs)*dens.dot(weight);"),
    (S, "return -param.Ks*weight.dot(dens);", "return param.Ks*weight.dot(dens);"),
    (TH, "Tz = vec_nod * (da.col(Nodes::IDX_Z)).replicate(1,NPI);", "Tz = vec_nod * (da.col(Nodes::IDX_Y)).replicate(1,NPI);"),
    (T, '''    for (int npi = 0; npi < NPI; npi++)
        { dens[npi] = sq( param.uk.dot( u.col(npi) )); }''', '''    dens.setZero();
    for (int npi = 0; npi < NPI-1; npi++)
        { dens[npi] = sq( param.uk.dot( u.col(npi) )); }'''),
]
OK = [
    (E, "Etot = std::reduce(E.begin(),E.end());//sum of all terms", "Etot = 0; for (const double x : E) { Etot += x; }"),
    (E, "Etot = std::reduce(E.begin(),E.end());//sum of all terms", "Etot = E[EXCHANGE] + E[ANISOTROPY] + E[DEMAG] + E[ZEEMAN];"),
    (E, "Etot = std::reduce(E.begin(),E.end());//sum of all terms", "Etot = std::accumulate(E.begin(),E.end(), 0.0);"),
    (E, "std::fill(E.begin(),E.end(),0);", "E.fill(0.0);"),
    (E, "std::fill(E.begin(),E.end(),0);", "for (int i = 0; i < NB_ENERGY_TERMS; i++) { E[i] = 0.0; }"),
    (E, "std::fill(E.begin(),E.end(),0);", "for (double &x : E) { x = 0.0; }"),
    (E, '''                      if (param.K != 0.0)
                          { E[ANISOTROPY] += te.uniaxialAnisotropyEnergy(param, u); }
''', '''                      E[ANISOTROPY] += te.uniaxialAnisotropyEnergy(param, u);
'''),
    [(E, '''    std::for_each(msh.magTri.begin(), msh.magTri.end(),
                  [this, &settings](const int idxElem)
                      {''', '''    for (const int idxElem : msh.magTri)
                      {'''), (E, '''                      E[DEMAG] += fa.demagEnergy(u, phi);
                      });''', '''                      E[DEMAG] += fa.demagEnergy(u, phi);
                      }''')],
    (T, '''    Eigen::Matrix<double,NPI,1> dens = u.transpose() * Hext;

    return -mu0*param.Ms*weight.dot(dens);''', '''    double s = 0;
    for (int npi = 0; npi < NPI; npi++)
        { s += weight[npi]*(Hext.x()*u(0,npi) + Hext.y()*u(1,npi) + Hext.z()*u(2,npi)); }
    return -mu0*param.Ms*s;'''),
    (T, "dens[npi] = sq(al0 * al1) + sq(al1 * al2) + sq(al2 * al0);", "const double a = al0*al0, b = al1*al1, c = al2*al2;\n        dens[npi] = a*b + c*(a + b);"),
    (S, "return 0.5*mu0*dMs*dens.dot(weight);", "double r = 0; for (int i = 0; i < NPI; i++) { r += dens[i]*weight[i]; } return mu0*dMs*r/2;"),
    (S, "(u.transpose()*n).cwiseProduct(phi);\n    return 0.5", "((u.transpose()*n).array()*phi.array()).matrix();\n    return 0.5"),
    (T, "dens[npi] = sq( param.uk.dot( u.col(npi) ));", "const double c = u.col(npi).dot(param.uk); dens(npi) = c*c;"),
    (T, "return param.A * weight.dot(dens);", "const double total = weight.dot(dens); return total * param.A;"),
    (E, "E[ANISOTROPY] += te.cubicAnisotropyEnergy(param, u); }", "const double e3 = te.cubicAnisotropyEnergy(param, u); E[ANISOTROPY] = E[ANISOTROPY] + e3; }"),
    (T, '''    for (int npi = 0; npi < NPI; npi++)
        { dens[npi] = sq( param.uk.dot( u.col(npi) )); }
    return -param.K*weight.dot(dens);''', '''    int npi = 0;
    while (npi < NPI)
        { dens[npi] = sq( param.uk.dot( u.col(npi) )); npi++; }
    return -param.K*weight.dot(dens);'''),
]
