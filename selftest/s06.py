T = "src/time_integration.cpp"
H = "src/time_integration.h"
MUT = [
    (T, "double step = std::min(stride, soft_max);", "double step = soft_max;"),
    (T, "double step = std::min(stride, soft_max);", "double step = std::max(std::min(stride, soft_max), hard_min);"),
    (T, "std::min(step * 1.1, hard_max)", "step * 1.1"),
    (T, "std::min(step * 1.1, hard_max)", "std::min(step * 1.1, stride)"),
    (T, "soft_max = std::min(soft_max, max);", "soft_max = max;"),
    (T, "stepper.set_soft_limit(t_prm.get_dt() / 2);", "stepper.set_soft_limit(t_prm.get_dt());"),
    (T, "stepper.set_soft_limit(t_prm.get_dt() / 2);", "if (flag < 5) stepper.set_soft_limit(t_prm.get_dt() / 2);"),
    (T, "(settings.DUMAX / vmax) * 0.95", "(settings.DUMAX / vmax) * 1.05"),
    (T, "            stepper.set_soft_limit((settings.DUMAX / vmax) * 0.95);\n            if (dumax", "            if (dumax"),
    (T, "                status = 1;\n                goto bailout;", "                goto bailout;"),
    (T, "            if (t_prm.is_dt_TooSmall())", "            if (t_prm.is_dt_TooSmall() && flag)"),
    (H, "return (dt < DTMIN);", "return (dt < 0.1*DTMIN);"),
    (T, "stepper(t_prm.get_dt(), t_prm.DTMIN, t_prm.DTMAX)", "stepper(t_prm.get_dt(), t_prm.DTMAX, t_prm.DTMIN)"),
    (T, "hard_max(max * (1 + FLT_EPSILON))", "hard_max(max * 2)"),
    (T, "t_prm.set_dt(stepper(t_target - t_prm.get_t()));", "t_prm.set_dt(stepper(t_target));"),
    (T, "            if (dumax > settings.DUMAX)\n                {\n                flag++;\n", "            if (dumax > settings.DUMAX)\n                {\n                flag++;\n                stepper.set_soft_limit(t_prm.DTMAX);\n                stepper = TimeStepper(t_prm.get_dt(), t_prm.DTMIN, t_prm.DTMAX);\n"),
][:-1]
OK = [
    (T, "        double step = std::min(stride, soft_max);\n", "        double step = stride < soft_max ? stride : soft_max;\n"),
    (T, "        double step = std::min(stride, soft_max);\n", "        double step = stride;\n        if (soft_max < step) step = soft_max;\n"),
    (T, "void set_soft_limit(const double max) { soft_max = std::min(soft_max, max); }", "void set_soft_limit(const double max) { if (max < soft_max) soft_max = max; }"),
    (T, "stepper.set_soft_limit(t_prm.get_dt() / 2);", "stepper.set_soft_limit(0.5 * t_prm.get_dt());"),
    (T, "stepper.set_soft_limit((settings.DUMAX / vmax) * 0.95);", "stepper.set_soft_limit(0.95 * settings.DUMAX / vmax);"),
    (T, "t_prm.set_dt(stepper(t_target - t_prm.get_t()));", "const double remaining = t_target - t_prm.get_t();\n            t_prm.set_dt(stepper(remaining));"),
    (T, "            if (t_prm.is_dt_TooSmall())\n                {\n                std::cout << \"\\n**ABORTED**: dt < DTMIN\\n\";\n                status = 1;\n                goto bailout;\n                }\n", "            if (t_prm.get_dt() < t_prm.DTMIN)\n                {\n                std::cout << \"\\n**ABORTED**: dt < DTMIN\\n\";\n                fout.close();\n                print_stats(stats);\n                return 1;\n                }\n"),
    (T, "            if (step > stride - 2 * hard_min && step < stride)\n", "            if (step < stride && step > stride - 2 * hard_min)\n"),
][:-1] + [(T, "        if (step > stride - 2 * hard_min && step < stride)\n", "        const double threshold = stride - 2 * hard_min;\n        if (step < stride && threshold < step)\n")]
