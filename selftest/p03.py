D = "src/fmm_demag.h"
T = "src/tetra.cpp"
S = "src/triangle.cpp"
N = "src/node.h"
MUT = [
    (D, "demag(Nodes::get_v<Nodes::NEXT>, Nodes::set_phiv, msh);", "demag(Nodes::get_v<Nodes::CURRENT>, Nodes::set_phiv, msh);"),
    (D, "demag(Nodes::get_v<Nodes::NEXT>, Nodes::set_phiv, msh);", "demag(Nodes::get_u<Nodes::NEXT>, Nodes::set_phiv, msh);"),
    (D, "demag(Nodes::get_v<Nodes::NEXT>, Nodes::set_phiv, msh);", "demag(Nodes::get_v<Nodes::NEXT>, Nodes::set_phi, msh);"),
    (D, "(potentials[idxPart] * norm + corr[indexPartOrig]) / (4 * M_PI)", "(potentials[idxPart] + corr[indexPartOrig]) / (4 * M_PI)"),
    (D, "(potentials[idxPart] * norm + corr[indexPartOrig]) / (4 * M_PI)", "(potentials[idxPart] * norm + corr[idxPart]) / (4 * M_PI)"),
    (D, "srcDen[indexes[idxPart] - nbMagNodes]", "srcDen[idxPart]"),
    (D, '''        tree.forEachCell([](CellClass *cell) { cell->resetToInitialState(); });
''', ''),
    (D, '''                    std::fill_n(leaf->getTargets()->getPotentials(),
                                leaf->getTargets()->getNbParticles(), 0);
''', ''),
    (D, '''        insertCharges<Tetra::Tet, Tetra::NPI>(msh.tet, msh.magTet, idxPart, msh.c);
        insertCharges<Triangle::Tri, Triangle::NPI>(msh.tri, msh.magTri, idxPart, msh.c);
''', '''        insertCharges<Triangle::Tri, Triangle::NPI>(msh.tri, msh.magTri, idxPart, msh.c);
        insertCharges<Tetra::Tet, Tetra::NPI>(msh.tet, msh.magTet, idxPart, msh.c);
'''),
    (T, "return -Ms*weight*dud_sum;", "return Ms*weight*dud_sum;"),
    (T, "+ (vec_nod.row(IDX_Z)).dot( da.col(IDX_Z) );", "+ (vec_nod.row(IDX_Z)).dot( da.col(IDX_Y) );"),
    (S, "result = dMs*weight.cwiseProduct( _u.transpose()*n );", "result = -dMs*weight.cwiseProduct( _u.transpose()*n );"),
    (S, "corr[i_] -= localCharges(j)/d_ij;", "corr[i_] += localCharges(j)/d_ij;"),
    (S, "corr[i_] += potential(getter, i);", "corr[i_] = potential(getter, i);"),
    (S, "const int i_ = ind[i];\n        const Eigen::Vector3d &p_i_ = getNode(i).p;", "const int i_ = ind[i];\n        const Eigen::Vector3d &p_i_ = getNode((i+1)%N).p;"),
    (D, "        std::fill(corr.begin(),corr.end(),0);\n", ""),
    (D, "f.correctionCharges(getter,result,corr);", "if (prmTriangle[f.idxPrm].Ks != 0) f.correctionCharges(getter,result,corr);"),
    (N, "inline void set_phiv(Node &n, const double val) { n.d[NEXT].phiv = val; }", "inline void set_phiv(Node &n, const double val) { n.d[CURRENT].phiv = val; }"),
    (D, "                nsrc += Triangle::NPI;\n", "                nsrc += Triangle::NPI;\n") if False else (D, "t.charges(prmTetra[t.idxPrm].Ms, getter);", "t.charges(prmTetra[t.idxPrm].A, getter);"),
]
OK = [
    (T, '''    double dud_sum = (vec_nod.row(IDX_X)).dot( da.col(IDX_X) )
                   + (vec_nod.row(IDX_Y)).dot( da.col(IDX_Y) )
                   + (vec_nod.row(IDX_Z)).dot( da.col(IDX_Z) );
''', '''    double dud_sum = 0;
    for (int k = 0; k < Nodes::DIM; k++)
        { dud_sum += vec_nod.row(k).dot( da.col(k) ); }
'''),
    (S, "result = dMs*weight.cwiseProduct( _u.transpose()*n );", "for (int j = 0; j < NPI; j++) { result[j] = weight[j]*dMs*n.dot(_u.col(j)); }"),
    (S, "double d_ij= (p_i_ - gauss.col(j)).norm();\n            corr[i_] -= localCharges(j)/d_ij;", "const double d_ij= (gauss.col(j) - p_i_).norm();\n            corr[i_] += -localCharges(j)/d_ij;"),
    (D, "(potentials[idxPart] * norm + corr[indexPartOrig]) / (4 * M_PI)", "norm*potentials[idxPart]/(4 * M_PI) + corr[indexPartOrig]/(4*M_PI)"),
    (D, '''                        const int indexPartOrig = indexes[idxPart];
                        msh.set(indexPartOrig, setter,
                                (potentials[idxPart] * norm + corr[indexPartOrig]) / (4 * M_PI));
''', '''                        const int k = indexes[idxPart];
                        const double val = (potentials[idxPart] * norm + corr[k]) / (4 * M_PI);
                        msh.set(k, setter, val);
'''),
    (D, '''        std::for_each(msh.magTri.begin(),msh.magTri.end(),[this, &msh, &getter, &nsrc](const int idx)
                {
                Triangle::Tri &f = msh.tri[idx];
                Eigen::Matrix<double,Triangle::NPI,1> result = f.charges(f.dMs, getter);
                for(int i=0;i<Triangle::NPI;i++)
                    { srcDen[nsrc+i] = result(i); }
                nsrc += Triangle::NPI;
                f.correctionCharges(getter,result,corr);
                });
''', '''        for (const int idx : msh.magTri)
                {
                Triangle::Tri &f = msh.tri[idx];
                Eigen::Matrix<double,Triangle::NPI,1> result = f.charges(f.dMs, getter);
                for(int i=0;i<Triangle::NPI;i++)
                    { srcDen[nsrc++] = result(i); }
                f.correctionCharges(getter,result,corr);
                }
'''),
    (D, '''                      for (int j = 0; j < NPI; j++, idx++)
                          {
                          double x = norm*(gauss(0,j) - c.x());
                          double y = norm*(gauss(1,j) - c.y());
                          double z = norm*(gauss(2,j) - c.z());
                          tree.insert(FPoint<FReal>(x,y,z), FParticleType::FParticleTypeSource,
                                  idx, 0.0);
                          }
''', '''                      for (int j = 0; j < NPI; j++)
                          {
                          const Eigen::Vector3d p = norm*(gauss.col(j) - c);
                          tree.insert(FPoint<FReal>(p.x(),p.y(),p.z()), FParticleType::FParticleTypeSource, idx, 0.0);
                          ++idx;
                          }
'''),
    (D, "        std::fill(corr.begin(),corr.end(),0);\n", "        corr.assign(corr.size(), 0.0);\n"),
    (D, "for(int i=0;i<Tetra::NPI;i++)\n                    { srcDen[nsrc+i] = result(i); }", "int i = 0;\n                while (i < Tetra::NPI)\n                    { srcDen[nsrc+i] = result(i); i++; }"),
]
