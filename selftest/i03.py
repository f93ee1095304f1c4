S = "src/save.cpp"
MUT = [
    (S, "fout << nt << sep;", "fout << nt + 1 << sep;"),
    (S, "fout << t_prm.get_dt() << sep;", "fout << t_prm.get_t() << sep;"),
    (S, "fout << vmax * t_prm.get_dt() << sep;", "fout << vmax << sep;"),
    (S, "msh.avg(Nodes::get_u_comp, IDX_Y, region)", "msh.avg(Nodes::get_u_comp, IDX_Z, region)"),
    (S, "msh.avg(Nodes::get_v_comp, IDX_Y, region)", "msh.avg(Nodes::get_u_comp, IDX_Y, region)"),
    (S, "msh.avg(Nodes::get_v_comp, IDX_Z, region)", "msh.avg(Nodes::get_v_comp, IDX_Z, -1)"),
    (S, "msh.thiele(region)", "msh.thiele(-1)"),
    (S, "fout << E[DEMAG] << sep;", "fout << E[ZEEMAN] << sep;"),
    (S, "fout << Etot << sep;", "fout << Etot0 << sep;"),
    (S, "fout << applied_field.y() << sep;", "fout << applied_field.x() << sep;"),
    (S, "settings.getField(t_prm.get_t())", "settings.getField(t_prm.get_t() + t_prm.get_dt())"),
    (S, "col_name[1] <= 'z'", "col_name[1] < 'z'"),
    (S, 'sep = "\\t";', 'sep = " ";'),
    (S, "if (i == settings.evol_columns.size() - 1)", "if (i != settings.evol_columns.size() - 1)"),
    (S, "fout << E[EXCHANGE] << sep;", "fout << E[EXCHANGE];"),
    (S, 'keyVal == "E_tot"', 'keyVal == "Etot"'),
    (S, '''            std::cerr << "Error: invalid column name '" << keyVal << "'\\n";
            SYSTEM_ERROR''', '''            std::cerr << "Error: invalid column name '" << keyVal << "'\\n";'''),
    (S, "col_name.substr(0, colon_pos);", "col_name.substr(colon_pos + 1);"),
    (S, '''                std::cerr << "Error: no region named '" << region_name << "'\\n";
                SYSTEM_ERROR''', '''                std::cerr << "Error: no region named '" << region_name << "'\\n";'''),
    (S, "if (save_period && (nt % save_period) == 0)", "if (save_period && (nt % save_period) != 0)"),
    (S, "if (save_period && (nt % save_period) == 0)", "if (save_period && nt > 0 && (nt % save_period) == 0)"),
    (S, "if (save_period && (nt % save_period) == 0)", "if (save_period)"),
    (S, '"_iter" + std::to_string(nt) + ".sol"', '"_iter" + std::to_string(save_period) + ".sol"'),
    ("src/energy.cpp", "E[DEMAG] += fa.demagEnergy(u, phi);", "E[ANISOTROPY] += fa.demagEnergy(u, phi);"),
    (S, 'keyVal == "Hz"', 'keyVal == "Hy"'),
    (S, "(region == -1) ? col_name : col_name.substr(colon_pos + 1)", "col_name"),
]
OK = [
    (S, None, "\n// x\n"),
    (S, '''        std::string sep;
        if (i == settings.evol_columns.size() - 1)
            {
            sep = "\\n";
            }
        else
            {
            sep = "\\t";
            }
''', '''        const char *sep = (i + 1 == settings.evol_columns.size()) ? "\\n" : "\\t";
'''),
    (S, "fout << vmax * t_prm.get_dt() << sep;", "const double dm = t_prm.get_dt() * vmax;\n            fout << dm << sep;"),
    (S, "bool field_needed = std::any_of(settings.evol_columns.begin(), settings.evol_columns.end(),\n        [](const std::string &col_name)\n        { return col_name[0] == 'H' && col_name[1] >= 'x' && col_name[1] <= 'z'; });",
     "bool field_needed = std::any_of(settings.evol_columns.begin(), settings.evol_columns.end(),\n        [](const std::string &col_name)\n        { return col_name == \"Hx\" || col_name == \"Hy\" || col_name == \"Hz\"; });"),
    (S, '''    Eigen::Vector3d applied_field(NAN, NAN, NAN);
    if (field_needed)
        { applied_field = settings.getField(t_prm.get_t()); }''', '''    (void) field_needed;
    const Eigen::Vector3d applied_field = settings.getField(t_prm.get_t());'''),
    (S, "if (save_period && (nt % save_period) == 0)", "if (save_period > 0 && !(nt % save_period))"),
    (S, "if (save_period && (nt % save_period) == 0)", "const bool save_now = save_period != 0 && nt % save_period == 0;\n    if (save_now)"),
    (S, '''            int region = -1;''', '''            int region = -1;''') if False else (S, "else if (keyVal == \"t\")", "else if (\"t\" == keyVal)"),
    [(S, '''        if (keyVal == "iter")
            {
            fout << nt << sep;
            }
        else if (keyVal == "t")
            {
            fout << t_prm.get_t() << sep;
            }
        else if''', '''        if (keyVal == "t")
            {
            fout << t_prm.get_t();
            fout << sep;
            }
        else if (keyVal == "iter")
            {
            fout << nt << sep;
            }
        else if''')],
    [(S, '''        const std::string &keyVal = (region == -1) ? col_name : col_name.substr(colon_pos + 1);
''', '''        std::string keyVal = col_name;
        if (region != -1)
            { keyVal = col_name.substr(colon_pos + 1); }
''')],
    [(S, '''            fout << E[EXCHANGE] << sep;''', '''            const double e = E[EXCHANGE];
            fout << e << sep;''')],
    [(S, "void Fem::saver(", '''static void write(std::ofstream &fout, const double value, const std::string &sep)
    { fout << value << sep; }

void Fem::saver('''), (S, "fout << E[DEMAG] << sep;", "write(fout, E[DEMAG], sep);"), (S, "fout << Etot << sep;", "write(fout, Etot, sep);"), (S, "fout << applied_field.x() << sep;", "write(fout, applied_field(0), sep);")],
    ("src/energy.cpp", "E[DEMAG] += fa.demagEnergy(u, phi);", "const double ed = fa.demagEnergy(u, phi);\n                      E[DEMAG] = E[DEMAG] + ed;"),
    (S, "for (unsigned int i = 0; i < settings.evol_columns.size(); i++)\n        {\n        const std::string &col_name = settings.evol_columns[i];", "const std::vector<std::string> &columns = settings.evol_columns;\n    for (unsigned int i = 0; i < columns.size(); i++)\n        {\n        const std::string &col_name = columns[i];"),
    [(S, "for (unsigned int i = 0; i < settings.evol_columns.size(); i++)\n        {\n        const std::string &col_name = settings.evol_columns[i];", "unsigned int i = 0;\n    for (const std::string &col_name : settings.evol_columns)\n        {"), (S, "    fout << std::flush;", "    fout.flush();"), (S, '''            std::cerr << "Error: invalid column name '" << keyVal << "'\\n";
            SYSTEM_ERROR
            }
''', '''            std::cerr << "Error: invalid column name '" << keyVal << "'\\n";
            SYSTEM_ERROR
            }
        i++;
''')],
]
