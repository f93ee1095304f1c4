F = "src/expression_parser.cpp"
MUT = [
    (F, "    double result = duk_get_number(ctx, -1);\n    duk_pop(ctx);  // -> [ f ]\n", "    double result = duk_get_number(ctx, -1);\n"),
    (F, "duk_push_number(ctx, arg.x());  // -> [ f f arg.x ]\n    duk_push_number(ctx, arg.y());", "duk_push_number(ctx, arg.y());  // -> [ f f arg.x ]\n    duk_push_number(ctx, arg.x());"),
    (F, "    return compute_vector(4);", "    return compute_vector(3);"),
    (F, "double y = get_vector_component(1);", "double y = get_vector_component(2);"),
    (F, "    duk_int_t err = duk_pcall(ctx, argument_count);  // [ f f args... ] -> [ f v ]\n    die_if_error(err);", "    duk_pcall(ctx, argument_count);"),
    (F, "if (err == DUK_ERR_NONE) return;", "if (err != DUK_ERR_ERROR) return;"),
    (F, "    if (!success)\n", "    if (!success && idx == 0)\n"),
    (F, "+ expr_x + \"), (\" + expr_y + \"), (\"\n                 + expr_z", "+ expr_x + \"), (\" + expr_z + \"), (\"\n                 + expr_y"),
    (F, "duk_put_prop_index(ctx, -2, i);", "if (i < 8) duk_put_prop_index(ctx, -2, i);"),
    (F, "    duk_dup(ctx, -1);                   // -> [ f f ]\n", ""),
    ("src/settings.cpp", 'set_expressions("t", sBx', 'set_expressions("x,y,z", sBx'),
    (F, "    duk_set_top(ctx, 0);  // clear the stack\n", ""),
    (F, "return [(\" + expr_x + \")", "return [\" + expr_x + \""),
]
OK = [
    (F, "    double x = get_vector_component(0);\n    double y = get_vector_component(1);\n    double z = get_vector_component(2);\n    duk_pop(ctx);  // -> [ f ]\n    return Eigen::Vector3d(x, y, z);",
     "    Eigen::Vector3d r;\n    for (int i = 0; i < 3; i++) r(i) = get_vector_component(i);\n    duk_pop(ctx);\n    return r;"),
    (F, "    duk_push_number(ctx, arg.x());  // -> [ f f arg.x ]\n    duk_push_number(ctx, arg.y());  // -> [ f f arg.x arg.y ]\n    duk_push_number(ctx, arg.z());  // -> [ f f arg.x arg.y arg.z ]\n",
     "    for (int k = 0; k < 3; ++k) duk_push_number(ctx, arg[k]);\n"),
    (F, "if (err == DUK_ERR_NONE) return;\n    std::cerr << \"Script \" << duk_safe_to_string(ctx, -1) << '\\n';\n    exit(EXIT_FAILURE);",
     "if (err != DUK_ERR_NONE)\n        {\n        std::cerr << \"Script \" << duk_safe_to_string(ctx, -1) << '\\n';\n        exit(EXIT_FAILURE);\n        }"),
    (F, "    set_function(\"function(\" + parameters + \") { return [(\" + expr_x + \"), (\" + expr_y + \"), (\"\n                 + expr_z + \")]; }\");",
     "    std::string body = \"[(\" + expr_x + \"), (\";\n    body += expr_y;\n    body += \"), (\" + expr_z + \")]\";\n    set_function(\"function(\" + parameters + \") { return \" + body + \"; }\");"),
    (F, "for (size_t i = 0; i < regions.size(); ++i)\n        {\n        duk_push_string(ctx, regions[i].c_str());  // -> [ f f x y z [] \"reg_name\" ]\n        duk_put_prop_index(ctx, -2, i);            // -> [ f f x y z [\"reg_name\"] ]\n        }",
     "duk_uarridx_t i = 0;\n    for (const auto &r : regions)\n        {\n        duk_push_string(ctx, r.c_str());\n        duk_put_prop_index(ctx, -2, i++);\n        }"),
    (F, "double ExpressionParser::get_scalar(const double arg) const\n    {\n    duk_dup(ctx, -1);                   // -> [ f f ]\n    duk_push_number(ctx, arg);",
     "static void prep(duk_context *c, const double a)\n    {\n    duk_dup(c, -1);\n    duk_push_number(c, a);\n    }\n\ndouble ExpressionParser::get_scalar(const double arg) const\n    {\n    prep(ctx, arg);"),
]
