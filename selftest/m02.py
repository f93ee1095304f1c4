M = "src/mesh.cpp"
H = "src/mesh.h"
MUT = [
    (M, "node_index[permutation[i]] = i;", "node_index[i] = permutation[i];"),
    (M, "node[i] = node_copy[permutation[i]];", "node[permutation[i]] = node_copy[i];"),
    (M, "                      triangle.ind[2] = node_index[triangle.ind[2]];\n", ""),
    (M, "tetrahedron.ind[3] = node_index[tetrahedron.ind[3]];", "tetrahedron.ind[3] = node_index[tetrahedron.ind[2]];"),
    (M, "std::vector<Nodes::Node> node_copy(node);", "std::vector<Nodes::Node> &node_copy(node);"),
    (M, "    std::for_each(tri.begin(), tri.end(),\n                  [this](Triangle::Tri &triangle)", "    std::for_each(tri.begin() + 1, tri.end(),\n                  [this](Triangle::Tri &triangle)"),
    (H, "        sortNodes(long_axis);\n\n        totalMagVol = 0;", "        totalMagVol = 0;"),
    [(H, "        sortNodes(long_axis);\n", ""), (H, "        if(settings.getFieldType() == R4toR3)\n", "        sortNodes(long_axis);\n        if(settings.getFieldType() == R4toR3)\n")],
    (M, "    for (size_t i = 0; i < node.size(); i++)\n        node[i] = node_copy", "    for (size_t i = 1; i < node.size(); i++)\n        node[i] = node_copy"),
    (M, "std::iota(permutation.begin(), permutation.end(), 0);", "std::iota(permutation.begin(), permutation.end(), 1);"),
    (M, "                      tetrahedron.ind[3] = node_index[tetrahedron.ind[3]];\n", "                      tetrahedron.ind[3] = node_index[tetrahedron.ind[3]];\n                      if (tetrahedron.idxPrm == 0) tetrahedron.ind[0] = node_index[tetrahedron.ind[0]];\n"),
]
MUT.pop(6)
OK = [
    (M, "                      triangle.ind[0] = node_index[triangle.ind[0]];\n                      triangle.ind[1] = node_index[triangle.ind[1]];\n                      triangle.ind[2] = node_index[triangle.ind[2]];\n",
        "                      for (int k = 0; k < Triangle::N; k++) { triangle.ind[k] = node_index[triangle.ind[k]]; }\n"),
    (M, "                      triangle.ind[0] = node_index[triangle.ind[0]];\n                      triangle.ind[1] = node_index[triangle.ind[1]];\n                      triangle.ind[2] = node_index[triangle.ind[2]];\n",
        "                      for (int &k : triangle.ind) { k = node_index[k]; }\n"),
    (M, "        node[i] = node_copy[permutation[i]];", "        { const int from = permutation[i]; node[i] = node_copy[from]; }"),
    (M, "    for (size_t i = 0; i < node.size(); i++)\n        node_index[permutation[i]] = i;\n", "    size_t i = 0;\n    while (i < node.size())\n        {\n        node_index[permutation[i]] = i;\n        i++;\n        }\n"),
    (M, "        node[i] = node_copy[permutation[i]];", "        node[node_index[i]] = node_copy[i];"),
    (M, "    std::for_each(tri.begin(), tri.end(),\n                  [this](Triangle::Tri &triangle)\n                  {\n                      triangle.ind[0] = node_index[triangle.ind[0]];\n                      triangle.ind[1] = node_index[triangle.ind[1]];\n                      triangle.ind[2] = node_index[triangle.ind[2]];\n                  });",
        "    for (Triangle::Tri &triangle : tri)\n        {\n        const int a = triangle.ind[0], b = triangle.ind[1], c = triangle.ind[2];\n        triangle.ind[0] = node_index[a];\n        triangle.ind[1] = node_index[b];\n        triangle.ind[2] = node_index[c];\n        }"),
]
