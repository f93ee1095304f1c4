M = "src/mesh.cpp"
H = "src/mesh.h"
R = "src/read.cpp"
U = "src/meshUtils.h"
MUT = [
    (M, "if (nbSurfTri > 1)", "if (nbSurfTri > 2)"),
    (M, "else if (nbTetraFaces > 2)", "else if (nbTetraFaces > 3)"),
    (M, "else if (nbTetraFaces == 0)", "else if (nbTetraFaces < 0)"),
    (M, "else if (nbTetraFaces == 2 && nbSurfTri == 1 && pairIdVolRegs.first == pairIdVolRegs.second)", "else if (nbTetraFaces == 2 && nbSurfTri == 1 && pairIdVolRegs.first == idSurfReg)"),
    (M, "else if (nbTetraFaces == 2 && nbSurfTri == 1 && pairIdVolRegs.first == pairIdVolRegs.second)", "else if (nbTetraFaces == 2 && nbSurfTri == 2 && pairIdVolRegs.first == pairIdVolRegs.second)"),
    (M, "for (size_t up = 1; up <= allTriCtnr.size(); up++)", "for (size_t up = 1; up < allTriCtnr.size(); up++)"),
    (M, "                { return false; }\n\n            low = up;", "                { std::cerr << \"bad\\n\"; }\n\n            low = up;"),
    (H, "if (!controlTriangles())\n            { exit(1); }", "if (!controlTriangles())\n            { std::cerr << \"bad mesh\\n\"; }"),
    (H, "if (!controlTriangles())\n            { exit(1); }", "if (!controlTriangles())\n            { exit(0); }"),
    (M, "BasicTri({ind[2], ind[0], ind[3]}, region)", "BasicTri({ind[2], ind[0], ind[1]}, region)"),
    (M, "BasicTri({ind[2], ind[0], ind[3]}, region)", "BasicTri({ind[0], ind[2], ind[3]}, region)"),
    (M, "if (tet.empty())", "if (tet.empty() && tri.empty())"),
    (R, "if (j >= node.size())", "if (j > node.size())"),
    (R, "msh_available = msh_available && (elemTypes[0] == TYP_ELEM_TETRAEDRON);", "msh_available = msh_available || (elemTypes[0] == TYP_ELEM_TETRAEDRON);"),
    (R, "            || (elemTypes.size() == 1 && elemTypes[0] == TYP_ELEM_TRIANGLE);", "            || (elemTypes.size() >= 1 && elemTypes[0] == TYP_ELEM_TRIANGLE);"),
    (R, "if (!(o_2D && o_3D))", "if (!(o_2D || o_3D))"),
    (U, "existRegions = false;", "existRegions = existRegions && false;\n                existRegions = true;"),
    (M, "if (nbSurfTri == 0 && (nbTetraFaces == 1 ||\n            (nbTetraFaces == 2 && pairIdCurVolRegs.first != pairIdCurVolRegs.second)))", "if (nbSurfTri == 0 && nbTetraFaces == 1)"),
    (M, "if (nbSurfTri == 0 && (nbTetraFaces == 1 ||", "if (nbSurfTri <= 1 && (nbTetraFaces == 1 ||"),
    (M, "            nbSurfTri++;\n", "            if (idCurSurfReg > 0) nbSurfTri++;\n"),
]
OK = [
    (M, "    if (assertNoErrInTriangle(nbSurfTri, nbTetraFaces, pairIdCurVolRegs, idCurSurfReg))\n        { return true; }\n    else\n        { return false; }", "    return assertNoErrInTriangle(nbSurfTri, nbTetraFaces, pairIdCurVolRegs, idCurSurfReg);"),
    (M, "else if (nbTetraFaces > 2)", "else if (nbTetraFaces >= 3)"),
    (M, "    for (size_t i = low; i < up; i++)\n        {\n        if (allTriCtnr[i].isSurfaceElement)", "    for (size_t i = low; i < up; ++i)\n        {\n        const BasicTri &cur = allTriCtnr[i];\n        if (cur.isSurfaceElement)"),
    (R, "if (j >= node.size())", "if (!(j < node.size()))"),
    (R, "    bool o_2D = checkNamedObjects<Triangle::prm>(settings.paramTriangle,DIM_OBJ_2D);\n    bool o_3D = checkNamedObjects<Tetra::prm>(settings.paramTetra,DIM_OBJ_3D);\n    if (!(o_2D && o_3D))", "    const bool o_3D = checkNamedObjects<Tetra::prm>(settings.paramTetra,DIM_OBJ_3D);\n    const bool o_2D = checkNamedObjects<Triangle::prm>(settings.paramTriangle,DIM_OBJ_2D);\n    if (!o_2D || !o_3D)"),
    (H, "        if (!controlTriangles())\n            { exit(1); }", "        const bool good = controlTriangles();\n        if (!good)\n            exit(EXIT_FAILURE);"),
    (M, "            if (!diffTriHandler(low, up, allTriCtnr, indNodTriToAdd, regsTriToAdd))\n                { return false; }\n\n            low = up;", "            const bool good = diffTriHandler(low, up, allTriCtnr, indNodTriToAdd, regsTriToAdd);\n            if (good)\n                { low = up; }\n            else\n                { return false; }"),
    (U, "    std::for_each(v_prm.begin(),v_prm.end(),[&existRegions,&o_names](const auto &p)\n        {", "    for (const auto &p : v_prm)\n        {"), 
    (M, "    for (size_t up = 1; up <= allTriCtnr.size(); up++)\n", "    size_t up = 0;\n    while (++up <= allTriCtnr.size())\n"),
]
OK[7] = [OK[7], (U, "            } \n        } );\n    return existRegions;", "            }\n        }\n    return existRegions;")]
