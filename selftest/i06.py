F = "src/settings.cpp"
MUT = [
    (F, 'assign(NORMALIZE, p.ez, volume', 'assign(!NORMALIZE, p.ez, volume'),
    (F, 'if(_NORMALIZE) var.normalize();', 'if(!_NORMALIZE) var.normalize();'),
    (F, '''        if (!outputs.IsMap())
            { error("outputs should be a map."); }''', ""),
    (F, 'if (!columns.IsSequence())', 'if (columns.IsMap())'),
    (F, '_scale <= 0)', '_scale < 0)'),
    (F, 'if (has_Ms && has_Js)', 'if (has_Ms != has_Js && has_Ms && has_Js)'),
    (F, '{ has_Js = true; p.Ms = Js / mu0; }', '{ p.Ms = Js / mu0; }'),
    (F, 'if (!isnan(p.jn) && !isnan(p.V))', 'if (isnan(p.jn) && !isnan(p.V))'),
    (F, "direction[0] > 'Z')", "direction[0] > 'z')"),
    (F, 'direction.length() != 1 ||', 'direction.length() > 2 ||'),
    (F, 'if (mag_config_every.Scalar() == "true")', 'if (mag_config_every.Scalar() == "yes")'),
    (F, 'if (field_space && field_time)', 'if (field_space || field_time)'),
    (F, 'if (node.size() != 3) error("vectors should have three components.");', 'if (node.size() < 3) error("vectors should have three components.");'),
    (F, 'if (magnetization.size() != DIM)', 'if (magnetization.size() > DIM)'),
    (F, '''        if (!node.IsSequence()) error("vectors should be YAML sequences.");
''', '''        if (!node.IsSequence()) return false;
'''),
    (F, '    exit(1);', '    exit(0);'),
    (F, '''        else
            { error("initial_magnetization should be a file name or a vector of expressions."); }
''', ''),
    (F, '''            if (!metadata.IsMap())
                { error("outputs.metadata should be a map."); }
''', '''            if (metadata.IsScalar())
                { error("outputs.metadata should be a map."); }
'''),
    (F, '''            if (!volumes.IsMap())
                { error("mesh.volume_regions should be a map."); }
''', ''),
    (F, 'if (surfaces && !surfaces.IsNull())', 'if (surfaces && surfaces.IsMap())'),
    (F, 'if (field.size() != DIM)', 'if (field.size() < 2)'),
]
OK = [
    (F, 'if(_NORMALIZE) var.normalize();', 'if(_NORMALIZE) { var = var.normalized(); }'),
    (F, 'if (mesh && !mesh.IsNull())', 'if (mesh.IsDefined() && !mesh.IsNull())'),
    (F, '_scale <= 0)', '!(_scale > 0))'),
    [(F, '''        if (assign(_scale, mesh["length_unit"]) && _scale <= 0)
            { error("mesh.length_unit should be positive."); }''', '''        if (assign(_scale, mesh["length_unit"]))
            {
            if (0 >= _scale)
                { error("mesh.length_unit should be positive."); }
            }''')],
    [(F, '''// Stringify a boolean
''', '''static void requireMap(const YAML::Node &n, const char *message)
    {
    if (!n.IsMap()) error(message);
    }

// Stringify a boolean
'''), (F, '''        if (!outputs.IsMap())
            { error("outputs should be a map."); }''', '''        requireMap(outputs, "outputs should be a map.");'''),
     (F, '''            if (!volumes.IsMap())
                { error("mesh.volume_regions should be a map."); }
''', '''            requireMap(volumes, "mesh.volume_regions should be a map.");
''')],
    (F, '''        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
            { error("recentering.direction should be X, Y or Z."); }''', '''        if (direction != "X" && direction != "Y" && direction != "Z")
            { error("recentering.direction should be X, Y or Z."); }'''),
    (F, '''            for (auto it = volumes.begin(); it != volumes.end(); ++it)
                {
                bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                std::string name = it->first.as<std::string>();
                YAML::Node volume = it->second;
''', '''            for (const auto &entry : volumes)
                {
                bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                const std::string name = entry.first.as<std::string>();
                const YAML::Node volume = entry.second;
'''),
    (F, '''                if (assign(p.Ms, volume["Ms"]))
                    { has_Ms = true; }
                double Js;
                if (assign(Js, volume["Js"]))
                    { has_Js = true; p.Ms = Js / mu0; }
''', '''                has_Ms = assign(p.Ms, volume["Ms"]);
                double Js;
                has_Js = assign(Js, volume["Js"]);
                if (has_Js) p.Ms = Js / mu0;
'''),
    (F, '''    if (node.IsScalar())
        {
        var = node.as<T>();
        return true;
        }
    return false;''', '''    if (!node.IsScalar())
        return false;
    var = node.as<T>();
    return true;'''),
    (F, '''        switch (direction[0])
            {
            case 'X': recentering_direction = IDX_X; break;
            case 'Y': recentering_direction = IDX_Y; break;
            case 'Z': recentering_direction = IDX_Z; break;
            }''', '''        if (direction[0] == 'X')
            recentering_direction = IDX_X;
        else if (direction[0] == 'Y')
            recentering_direction = IDX_Y;
        else
            recentering_direction = IDX_Z;'''),
    (F, '''    std::cerr << "CONFIGURATION ERROR: " << message << "\\n";
    exit(1);''', '''    std::cerr << "CONFIGURATION ERROR: " << message << "\\n";
    exit(EXIT_FAILURE);'''),
]
