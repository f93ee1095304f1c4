M = "src/mesh.cpp"
H = "src/mesh.h"
MUT = [
    (M, "extSpaceField.resize(tet.size());", "extSpaceField.resize(magTet.size());"),
    (H, "magTet.push_back(te.idx);", "magTet.push_back(te.idxPrm);"),
    (H, "{ magNode[te.ind[i]] = true; }", "{ magNode[te.idx] = true; }"),
    (M, "const Tetra::Tet &te = tet[idxElem];\n                                       if (te.idxPrm != region", "const Tetra::Tet &te = tet[magTet[idxElem]];\n                                       if (te.idxPrm != region"),
    (H, "volumeRegions[te.idxPrm].push_back(te.idx);", "volumeRegions[te.idx].push_back(te.idxPrm);"),
    ("src/solver.cpp", "    for (const int idx : msh->magTri)\n        {\n        Triangle::Tri &my_elem = msh->tri[idx];", "    for (size_t k = 0; k < msh->magTri.size(); k++)\n        {\n        Triangle::Tri &my_elem = msh->tri[k];"),
    (M, "tetrahedron.ind[3] = node_index[tetrahedron.ind[3]];", "tetrahedron.ind[3] = node_index[tetrahedron.idx];"),
    (H, "settings.paramTetra[te.idxPrm].volume += vol_tet;", "settings.paramTetra[te.idx].volume += vol_tet;"),
    ("src/linear_algebra.cpp", "tri.integrales(paramTri[tri.idxPrm]);", "tri.integrales(paramTri[tri.ind[0]]);"),
    ("src/energy.cpp", "msh.tri[", "msh.tri[msh.magTri["),
]
MUT.pop()
OK = [
    ("src/solver.cpp", "    for (const int idx : msh->magTri)\n        {\n        Triangle::Tri &my_elem = msh->tri[idx];", "    for (size_t k = 0; k < msh->magTri.size(); k++)\n        {\n        Triangle::Tri &my_elem = msh->tri[msh->magTri[k]];"),
    (H, "{ magNode[te.ind[i]] = true; }", "{ const int n = te.ind[i]; magNode[n] = true; }"),
    (H, "volumeRegions[te.idxPrm].push_back(te.idx);", "std::vector<int> &list = volumeRegions[te.idxPrm]; list.push_back(te.idx);"),
    (H, "        for(unsigned int i=0;i<tri.size();i++)\n", "        const unsigned int nbTri = tri.size();\n        for(unsigned int i=0;i<nbTri;i++)\n"),
    (M, "extSpaceField.resize(tet.size());", "extSpaceField.resize(getNbTets());"),
]
