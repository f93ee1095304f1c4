F = "src/settings.cpp"
MUT = [
    (F, '"      ey: " << str(it->ey)', '"      ey: " << str(it->ex)'),
    (F, 'assign(p.lsd, volume["l_sd"]);', 'assign(p.lsd, volume["l_sf"]);'),
    (F, '"      l_sf: " << it->lsf', '"      lsf: " << it->lsf'),
    (F, 'std::cout << "  tolerance: " << TOL << "\\n";', ''),
    (F, 'if (it->K3 != 0)', 'if (it->K3 > 0)'),
    (F, 'if (it->Ks != 0)', 'if (it->Ks == 0)'),
    (F, 'case IDX_X: std::cout << "X\\n"; break;', 'case IDX_X: std::cout << "Y\\n"; break;'),
    (F, "case 'Y': recentering_direction = IDX_Y; break;", "case 'Y': recentering_direction = IDX_Z; break;"),
    (F, 'v.x(),v.y(),v.z()', 'v.x(),v.z(),v.y()'),
    (F, 'node[0].as<double>(), node[1].as<double>(), node[2].as<double>()', 'node[0].as<double>(), node[2].as<double>(), node[1].as<double>()'),
    (F, 'x ? "true" : "false"', 'x ? "false" : "true"'),
    (F, '"  evol_time_step: "', '"evol_time_step: "'),
    (F, 'sMy = magnetization[1].as<std::string>();', 'sMy = magnetization[0].as<std::string>();'),
    (F, '''                restoreFileName.clear();
                mag_parser''', '''                mag_parser'''),
    (F, '"      Ms: " << it->Ms', '"      Ms: " << it->A'),
    (F, '''    if (isnan(initial_time))
        { std::cout << '\\n'; }
    else
        { std::cout << ' ' << initial_time << '\\n'; }''', '''    std::cout << ' ' << initial_time << '\\n';'''),
    (F, 'if (field_type == R4toR3)\n        { std::cout', 'if (field_type == RtoR3)\n        { std::cout'),
    (F, '            field_parser.set_function(sB);\n            field_type = RtoR3;', '            field_parser.set_function(sB);'),
    (F, '"  max(dt): " << dt_max', '"  max(dt): " << dt_min'),
    (F, 'assign(dt_min, time_integration["min(dt)"]);', 'assign(dt_min, time_integration["max(dt)"]);'),
    (F, '"    " << it->regName << ":\\n";\n        std::cout << "      Ae', '"   " << it->regName << ":\\n";\n        std::cout << "  Ae'),
    (F, 'std::cout << "      sigma: " << it->sigma << "\\n";', 'if (it->sigma != 0)\n            std::cout << "      sigma: " << it->sigma << "\\n";'),
]
OK = [
    (F, 'for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)\n        { std::cout << "    - " << *it << "\\n"; }', 'for (const auto &c : evol_columns)\n        { std::cout << "    - " << c << std::endl; }'),
    [(F, 'void Settings::toYaml()', '''template <typename T>
static void entry(const char *key, const T &val)
    { std::cout << "      " << key << ": " << val << "\\n"; }

void Settings::toYaml()'''), (F, 'std::cout << "      Ae: " << it->A << "\\n";', 'entry("Ae", it->A);'), (F, 'std::cout << "      Ms: " << it->Ms << "\\n";', 'entry("Ms", it->Ms);'),
     (F, 'std::cout << "      uk: " << str(it->uk) << "\\n"; }', 'entry("uk", str(it->uk)); }')],
    (F, '''    char buffer[100];
    std::sprintf(buffer,"[%g, %g, %g]",v.x(),v.y(),v.z());
    return std::string(buffer);''', '''    std::ostringstream ss;
    ss << '[' << v.x() << ", " << v.y() << ", " << v.z() << ']';
    return ss.str();'''),
    (F, '''    char buffer[100];
    std::sprintf(buffer,"[%g, %g, %g]",v.x(),v.y(),v.z());
    return std::string(buffer);''', '''    char buffer[100];
    std::snprintf(buffer, sizeof(buffer), "[%g, %g, %g]", v[0], v[1], v[2]);
    return buffer;'''),
    (F, '''        if (it->regName == "__default__")  // skip
            { continue; }
        std::cout << "    " << it->regName << ":\\n";
        std::cout << "      suppress''', '''        const Triangle::prm &p = *it;
        if (p.regName == "__default__") continue;
        std::cout << "    " << p.regName << ":\\n";
        std::cout << "      suppress'''),
    (F, '''        switch (recentering_direction)
            {
            case IDX_UNDEF: std::cout << "UNDEF\\n"; break;
            case IDX_X: std::cout << "X\\n"; break;
            case IDX_Y: std::cout << "Y\\n"; break;
            case IDX_Z: std::cout << "Z\\n"; break;
            }''', '''        if (recentering_direction == IDX_X)
            std::cout << "X\\n";
        else if (recentering_direction == IDX_Y)
            std::cout << "Y\\n";
        else
            std::cout << "Z\\n";'''),
    (F, '''    std::cout << "initial_time:";
    if (isnan(initial_time))
        { std::cout << '\\n'; }
    else
        { std::cout << ' ' << initial_time << '\\n'; }''', '''    std::cout << "initial_time:";
    if (!isnan(initial_time))
        { std::cout << ' ' << initial_time; }
    std::cout << '\\n';'''),
    [(F, 'void Settings::toYaml()\n    {\n', 'void Settings::toYaml()\n    {\n    std::ostream &out = std::cout;\n'), (F, 'std::cout << "outputs:\\n";', 'out << "outputs:\\n";'), (F, 'std::cout << "  max(du): "', 'out << "  max(du): "')],
    (F, 'std::cout << "  max(du): " << DUMAX << "\\n";\n    std::cout << "  min(dt): " << dt_min << "\\n";', 'std::cout << "  min(dt): " << dt_min << "\\n" << "  max(du): " << DUMAX << "\\n";'),
    (F, '''    if (!sM.empty())
        { std::cout << str(sM) << "\\n"; }
    else if (restoreFileName.empty())
        { std::cout << "[\\"" << sMx << "\\", \\"" << sMy << "\\", \\"" << sMz << "\\"]\\n"; }
    else
        { std::cout << restoreFileName << "\\n"; }''', '''    if (sM != "")
        { std::cout << str(sM) << "\\n"; }
    else if (!restoreFileName.empty())
        { std::cout << restoreFileName << "\\n"; }
    else
        { std::cout << "[\\"" << sMx << "\\", \\"" << sMy << "\\", \\"" << sMz << "\\"]\\n"; }'''),
    (F, '''        var = { node[0].as<double>(), node[1].as<double>(), node[2].as<double>() };''', '''        for (int i = 0; i < 3; i++)
            { var[i] = node[i].as<double>(); }'''),
    (F, '''        sMx = magnetization''', '''        (void) DIM; sMx = magnetization'''),
    (F, 'restoreFileName = s_mag;\n                sM.clear();', 'restoreFileName = s_mag;\n                sM = "";'),
]
