R = "src/read.cpp"
S = "src/save.cpp"
MUT = [
    (S, "const int j = node_index[i];", "const int j = i;"),
    (S, "node[j].d[Nodes::CURRENT]", "node[j].d[Nodes::NEXT]"),
    (S, "<< '\\t' << dn.phi;", "<< '\\t' << dn.phiv;"),
    (S, "<< '\\t' << dn.phi;", "<< dn.phi;"),
    (S, "dn.u.format(outputSolFmt) << '\\t' << dn.phi", "dn.phi << '\\t' << dn.u.format(outputSolFmt)"),
    (S, 'Eigen::DontAlignCols, "\\t", "\\t",', 'Eigen::DontAlignCols, "\\t", "",'),
    (S, "fout << i << '\\t'", "fout << j << '\\t'"),
    (S, "unsigned int i = 0; i < node.size(); i++", "unsigned int i = 1; i < node.size(); i++"),
    (S, " << std::setprecision(precision)", ""),
    (S, '''        std::cerr << "cannot open file " << fileName << "\\n";
        SYSTEM_ERROR;''', '''        std::cerr << "cannot open file " << fileName << "\\n";'''),
    (R, "toDouble(mx), toDouble(my), toDouble(mz)", "toDouble(mx), toDouble(mz), toDouble(my)"),
    (R, "node[node_index[i]].d[Nodes::NEXT]", "node[i].d[Nodes::NEXT]"),
    (R, "node[node_index[i]].d[Nodes::NEXT]", "node[node_index[i]].d[Nodes::CURRENT]"),
    (R, "if (i != i_)", "if (i < i_)"),
    (R, "if (i != i_)", "if (i != i_ && VERBOSE)"),
    (R, "        if (fin.fail())", "        if (fin.eof() && VERBOSE)"),
    (R, "        fin.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');  // skip optional columns\n", ""),
    (R, "        dn.phi = toDouble(phi);\n", ""),
    (R, "        dn.phi = toDouble(phi);\n", "        dn.phi = 0;\n"),
    (R, "if (!flag_t)", "if (!flag_t && VERBOSE)"),
    (R, "idx + tags::sol::time.length() ", "idx + tags::sol::columns.length() "),
    (R, "str.find(tags::sol::time)", "str.find(tags::sol::rw_time)"),
    [(R, "str.find(tags::sol::time)", "str.find(tags::sol::rw_time)"), (R, "tags::sol::time.length()", "tags::sol::rw_time.length()")],
    ("src/settings.cpp", "ss << tags::sol::time << ' ' << std::scientific << t", "ss << tags::sol::rw_time << ' ' << std::scientific << t"),
    ("src/settings.cpp", "ss << tags::sol::time << ' ' << std::scientific << t", "ss << tags::sol::time << ' ' << std::scientific << tf"),
    ("src/tags.h", 'time = "## time:"', 'time = "# time:"') if False else ("src/settings.cpp", "ss << tags::sol::time << ' '", "ss << tags::evol::rw_time << ' '"),
    ("src/fem.h", "t_prm.set_t(msh.readSol(mySets.verbose, mySets.restoreFileName));", "msh.readSol(mySets.verbose, mySets.restoreFileName);"),
    [(R, "std::string mx, my, mz, phi;", "double mx, my, mz; std::string phi;"), (R, "Eigen::Vector3d(toDouble(mx), toDouble(my), toDouble(mz))", "Eigen::Vector3d(mx, my, mz)")],
]
OK = [
    (S, None, "\n// comment\n"),
    (S, "dn.u.format(outputSolFmt) << '\\t' << dn.phi", "dn.u.x() << '\\t' << dn.u.y() << '\\t' << dn.u.z() << '\\t' << dn.phi"),
    (S, '''        const dataNode &dn = node[j].d[Nodes::CURRENT];
        fout << i << '\\t' << dn.u.format(outputSolFmt) << '\\t' << dn.phi;''', '''        const Eigen::Vector3d m = node[j].d[Nodes::CURRENT].u;
        const double phi = node[j].d[Nodes::CURRENT].phi;
        fout << i;
        fout << ' ' << m(0) << ' ' << m(1) << ' ' << m(2) << ' ' << phi;'''),
    (S, 'fout << "\\n";\n        }\n    fout.close', 'fout << std::endl;\n        }\n    fout.close'),
    (S, "    if (fout.fail())\n        {\n        std::cerr << \"cannot open file \"", "    if (!fout)\n        {\n        std::cerr << \"cannot open file \""),
    (S, "fout << metadata << std::scientific << std::setprecision(precision);", "fout << metadata;\n    fout.precision(precision);\n    fout << std::scientific;"),
    (R, '''        fin >> i_ >> mx >> my >> mz >> phi;
        if (fin.fail())''', '''        if (!(fin >> i_ >> mx >> my >> mz >> phi))'''),
    [(R, '''        fin >> i_ >> mx >> my >> mz >> phi;
        if (fin.fail())''', '''        std::string line;
        std::getline(fin, line);
        std::istringstream iss(line);
        iss >> i_ >> mx >> my >> mz >> phi;
        if (iss.fail())'''), (R, "        fin.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');  // skip optional columns\n", ""), (R, "#include <limits>", "#include <limits>\n#include <sstream>")],
    (R, "        dn.u = Eigen::Vector3d(toDouble(mx), toDouble(my), toDouble(mz));", "        dn.u << toDouble(mx), toDouble(my), toDouble(mz);"),
    (R, "        dn.u = Eigen::Vector3d(toDouble(mx), toDouble(my), toDouble(mz));", "        dn.u.x() = toDouble(mx);\n        dn.u.y() = toDouble(my);\n        dn.u.z() = std::stod(mz);"),
    (R, "        Nodes::dataNode &dn = node[node_index[i]].d[Nodes::NEXT];", "        const int k = node_index[i];\n        Nodes::Node &n = node[k];\n        Nodes::dataNode &dn = n.d[Nodes::NEXT];"),
    (R, '''        if (i != i_)
            {
            std::cerr << "error: mesh node index mismatch between mesh and input .sol file\\n";
            fin.close();
            SYSTEM_ERROR;
            }
''', '''        const bool same = (i_ == i);
        if (!same)
            {
            std::cerr << "error: mesh node index mismatch between mesh and input .sol file\\n";
            SYSTEM_ERROR;
            }
'''),
    (R, "std::string mx, my, mz, phi;", "std::string phi, mz, my, mx;"),
    ("src/fem.h", "t_prm.set_t(msh.readSol(mySets.verbose, mySets.restoreFileName));", "const double t0 = msh.readSol(mySets.verbose, mySets.restoreFileName);\n            t_prm.set_t(t0);"),
    ("src/settings.cpp", "ss << tags::sol::time << ' ' << std::scientific << t << \"\\n\";", "ss << std::scientific;\n    ss << tags::sol::time;\n    ss << ' ' << t << '\\n';"),
    [(S, "fout << i << '\\t' << dn.u.format(outputSolFmt) << '\\t' << dn.phi;", "writeRow(fout, i, dn, outputSolFmt);"),
     (S, "void Mesh::mesh::savesol(", "static void writeRow(std::ofstream &fout, unsigned int i, const dataNode &dn, const Eigen::IOFormat &fmt)\n    {\n    fout << i << '\\t' << dn.u.format(fmt) << '\\t' << dn.phi;\n    }\n\nvoid Mesh::mesh::savesol(")],
    (S, '''    for (unsigned int i = 0; i < node.size(); i++)
        {
        const int j''', '''    unsigned int i = 0;
    while (i < node.size())
        {
        const int j''') if False else (S, "for (unsigned int i = 0; i < node.size(); i++)\n        {\n        const int j", "const size_t nb = node.size();\n    for (size_t i = 0; i != nb; ++i)\n        {\n        const int j"),
]
