SEEDS = []


def seed(**k):
    SEEDS.append(k)


seed(id="L01-stale-status", property="L01",
     edits=[("src/algebra/iter.h", "        written = false;\n        status = UNDEFINED;\n", "        written = false;\n")],
     needs="a solve that fails (iteration limit or breakdown) followed by another solve with the same monitor",
     breaks="the status of a failed solve survives the reset of the monitor: the next, perfectly solvable system is reported as failed after one half step",
     demo=r'''#include <iostream>
#include "algebra/algebra.h"
#include "algebra/bicg.h"
int main()
    {
    const int N = 40;
    algebra::MatrixShape shape(N);
    for (int i = 0; i < N; i++) { shape[i].insert(i); if (i) shape[i].insert(i-1); if (i < N-1) shape[i].insert(i+1); }
    algebra::SparseMatrix A(shape), D(shape);
    for (int i = 0; i < N; i++)
        { A.add(i, i, 2.0); if (i) A.add(i, i-1, -1.0); if (i < N-1) A.add(i, i+1, -1.0); D.add(i, i, 4.0); if (i) D.add(i, i-1, 1.0); }
    std::vector<double> b(N, 1.0), x(N, 0.0);
    std::vector<int> ld{0};
    algebra::iteration<double> it("demo", 1e-8, false, 5);
    algebra::bicg_dir<double>(it, A, x, b, ld);
    if (it.status != algebra::ITER_OVERFLOW) { std::cout << "first solve should hit the limit\n"; return 2; }
    // the same easy system with a fresh monitor converges ...
    algebra::iteration<double> fresh("fresh", 1e-2, false, 5);
    std::fill(x.begin(), x.end(), 0.0);
    algebra::bicg_dir<double>(fresh, D, x, b, ld);
    // ... so it has to converge with a reset one
    algebra::iteration<double> again("again", 1e-2, false, 5);
    std::fill(x.begin(), x.end(), 0.0);
    algebra::bicg_dir<double>(again, A, x, b, ld);
    again.reset();
    std::fill(x.begin(), x.end(), 0.0);
    algebra::bicg_dir<double>(again, D, x, b, ld);
    std::cout << fresh.infos() << "\n" << again.infos() << "\n";
    return fresh.status == again.status ? 0 : 1;
    }
''')

seed(id="L02-leftover-coefficients", property="L02",
     edits=[("src/algebra/sparseMat.h", "            for (double& value: row.values)\n                value = 0;",
             "            for (double& value: row.values)\n                if (value > 0 || value < 0)\n                    { value = 0; }")],
     needs="an assembly that produced a NaN coefficient (for instance from a rejected step), followed by another assembly",
     breaks="clearing the matrix skips NaN coefficients, so every later assembly of the same object is spoiled by the earlier one",
     demo=r'''#include <iostream>
#include <cmath>
#include "algebra/algebra.h"
int main()
    {
    algebra::MatrixShape shape(3);
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) shape[i].insert(j);
    algebra::SparseMatrix A(shape);
    std::vector<double> x{1, 1, 1}, y1(3), y2(3);
    auto assemble = [&] (double c) { A.clear(); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) A.add(i, j, c + i + j); };
    assemble(1);
    algebra::mult(A, x, y1);
    assemble(NAN);
    assemble(1);
    algebra::mult(A, x, y2);
    for (int i = 0; i < 3; i++) if (y1[i] != y2[i]) { std::cout << "row " << i << ": " << y1[i] << " then " << y2[i] << "\n"; return 1; }
    return 0;
    }
''')

seed(id="X01-stack-leak", property="X01",
     edits=[("src/expression_parser.cpp", "    double result = duk_get_number(ctx, -1);\n    duk_pop(ctx);  // -> [ f ]\n    return result;",
             "    double result = duk_get_number(ctx, -1);\n    if (!(result == result)) { return result; }\n    duk_pop(ctx);  // -> [ f ]\n    return result;")],
     needs="a scalar expression that yields NaN once (for instance 0/0 at t=0), and is evaluated again",
     breaks="when the result is NaN its slot stays on the interpreter stack, so the next evaluation calls the NaN instead of the function",
     src=["expression_parser.cpp"], libs="-lduktape",
     demo=r'''#include <iostream>
#include "expression_parser.h"
int main()
    {
    ExpressionParser p;
    p.set_function("function(t) { return Math.sin(t)/t; }");
    for (int i = 0; i < 3; i++)
        {
        p.get_scalar(0.0);
        double v = p.get_scalar(1.0);
        if (!(v > 0.84 && v < 0.85)) { std::cout << "got " << v << "\n"; return 1; }
        }
    return 0;
    }
''')

FG = r'''#!/bin/bash
# run in /repo after the build; builds the program (with a stand-in for the fast multipole library, whose field is zero) in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$repo/src" "$t/src" && cd "$t/src" || exit 2
[ -f config.h ] || exit 2
[ -f default-settings.o ] || ld -r -b binary -o default-settings.o default-settings.yml
ls *.cpp | xargs -P 8 -I{} g++ -std=c++17 -w -O0 -DTBB_SUPPRESS_DEPRECATED_MESSAGES -I . -I "$here/scalfmm" -I /usr/include/eigen3 -c {} -o {}.o || exit 2
g++ -o "$t/feellgood" *.cpp.o default-settings.o -lann -lyaml-cpp -lduktape -ltbb -lgmsh -lgomp || exit 2
cd "$t" && mkdir out || exit 2
'''

YML = r'''cat > a.yml <<EOF
outputs:
  directory: out
  file_basename: a
  evol_time_step: %(step)s
  final_time: %(tf)s
  evol_columns: [%(cols)s]
  mag_config_every: %(every)s
mesh:
  filename: $repo/examples/ellipsoid.msh
  length_unit: 1e-9
  volume_regions:
    ellipsoid_volume:
      Ms: 8e5
      alpha_LLG: 0.05
  surface_regions:
    ellipsoid_surface: {}
initial_magnetization: %(m0)s
Bext: %(B)s
demagnetizing_field_solver:
  nb_threads: 1
time_integration:
  max(du): %(du)s
  min(dt): %(dtmin)s
  max(dt): %(dtmax)s
EOF
'''


def yml(**k):
    d = dict(step="1e-12", tf="5e-12", cols="t, <Mz>", every="false", m0="[1, 0, 0]", B='["0", "0", "1"]', du="0.02", dtmax="5e-12", dtmin="1e-17")
    d.update(k)
    return YML % d


seed(id="S02-stale-last-step", property="S02", fmm=True,
     edits=[("src/time_integration.cpp", "            t_prm.set_dt(stepper(t_target - t_prm.get_t()));\n            bool last_step = (t_prm.get_dt() == t_target - t_prm.get_t());\n",
             "            bool last_step = (t_prm.get_dt() == t_target - t_prm.get_t());\n            t_prm.set_dt(stepper(t_target - t_prm.get_t()));\n            last_step = last_step || (t_prm.get_dt() == t_target - t_prm.get_t());\n")],
     needs="a step that would reach an output instant is rejected and tried again with a smaller time step",
     breaks="the retry is still taken for the step that reaches the output instant, so the time jumps to it although the magnetisation only moved by the smaller step",
     sh=FG + yml(step="3e-13", tf="2e-12", B='["0", "0", "0.6"]', dtmin="2e-14") + r'''timeout 200 ./feellgood -v --seed 1 a.yml > log 2>&1 || { tail -3 log; exit 2; }
grep '^evol step' log | python3 -c '
import re, sys
at = {}
for l in sys.stdin:
    n, t, dt = re.search(r", step = (\d+), t = ([^,]+), dt = (\S+)", l).groups()
    at[int(n)] = (float(t), float(dt))
assert len(at) > 5
for n in sorted(at)[:-1]:
    t, dt = at[n]
    if abs(at[n + 1][0] - (t + dt)) > 1e-4 * dt + 1e-5 * t:
        print("step", n, "of length", dt, "moved the time from", t, "to", at[n + 1][0])
        sys.exit(1)
'
''')

seed(id="S06-growth-after-limit", property="S06", fmm=True,
     edits=[("src/time_integration.cpp", "soft_max = std::max(soft_max, std::min(step * 1.1, hard_max));", "soft_max = std::max(soft_max, std::min(step, hard_max) * 1.1);")],
     needs="a quiet simulation with output instants further apart than the maximum time step, so that the step grows up to the maximum",
     breaks="the limit of the step is multiplied after it is compared with the maximum, so steps 10 % larger than max(dt) are taken",
     sh=FG + yml(step="1e-11", tf="4e-11", m0="[0, 0, 1]", dtmax="5e-13") + r'''timeout 200 ./feellgood -v --seed 1 a.yml > log 2>&1 || { tail -3 log; exit 2; }
grep '^evol step' log | python3 -c '
import re, sys
dts = [float(re.search(r", dt = (\S+)", l).group(1)) for l in sys.stdin]
assert len(dts) > 10
m = max(dts)
print("largest step", m)
sys.exit(1 if m > 5e-13 * (1 + 1e-4) else 0)
'
''')

seed(id="L04-read-outside-lock", property="L04",
     edits=[("src/algebra/sparseMat.h", "        mutex.lock();\n        value += val;\n        mutex.unlock();", "        const double sum = value + val;\n        mutex.lock();\n        value = sum;\n        mutex.unlock();")],
     needs="two threads adding to the same coefficient of the matrix at the same time (elements that share nodes)",
     breaks="the old value is read before the mutex is taken, so one of two simultaneous contributions is lost",
     libs="-ltbb -pthread",
     demo=r'''#include <iostream>
#include <thread>
#include <vector>
#include "algebra/algebra.h"
int main()
    {
    algebra::MatrixShape shape(1);
    shape[0].insert(0);
    const int T = 4, N = 1000000;
    for (int trial = 0; trial < 20; trial++)
        {
        algebra::SparseMatrix A(shape);
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&A] { for (int i = 0; i < N; i++) A.add(0, 0, 1.0); });
        for (auto &t : th) t.join();
        std::vector<double> x{1}, y{0};
        algebra::mult(A, x, y);
        if (y[0] != double(T) * N) { std::cout << "sum " << y[0] << " instead of " << T * N << "\n"; return 1; }
        }
    return 0;
    }
''')

SETS = r'''#!/bin/bash
# run in /repo after the build; reads and prints settings with a small program linked with the settings class
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r src "$t/src" && cd "$t/src" || exit 2
[ -f config.h ] || exit 2
ld -r -b binary -o default-settings.o default-settings.yml || exit 2
cat > demo_main.cpp <<'EOC'
#include "settings.h"
int main(int argc, char **argv)
    {
    Settings s;
    for (int i = 1; i < argc; i++) if (!s.read(argv[i])) return 3;
    s.toYaml();
    return 0;
    }
EOC
g++ -std=c++17 -w -O0 -DTBB_SUPPRESS_DEPRECATED_MESSAGES -I . -I /usr/include/eigen3 demo_main.cpp settings.cpp expression_parser.cpp chronometer.cpp tags.cpp default-settings.o -o "$t/pr" -lyaml-cpp -lduktape -ltbb || exit 2
cd "$t" || exit 2
'''

seed(id="I01-negative-constant", property="I01",
     edits=[("src/settings.cpp", "        if (it->K3 != 0)\n", "        if (it->K3 > 0)\n")],
     needs="a region with a negative cubic anisotropy constant and axes other than the default ones, printed and read back",
     breaks="the axes of the cubic anisotropy are left out of the print-out when the constant is negative",
     sh=SETS + r'''cat > a.yml <<EOF
mesh:
  filename: a.msh
  volume_regions:
    one: {K3: 4e4, ex: [0, 1, 0], ey: [0, 0, 1], ez: [1, 0, 0]}
    two: {K3: -4e4, ex: [0, 1, 0], ey: [0, 0, 1], ez: [1, 0, 0]}
EOF
./pr a.yml > b.yml || exit 2
./pr b.yml > c.yml || exit 1
[ "$(grep -c 'e[xyz]: ' b.yml)" = 6 ] || { echo "axes missing from the print-out"; exit 1; }
diff b.yml c.yml
''')

seed(id="I06-two-surface-conditions", property="I06",
     edits=[("src/settings.cpp", "                if (!isnan(p.jn) && !isnan(p.V))\n", "                if (p.jn * p.V != 0 && !isnan(p.jn * p.V))\n")],
     needs="a surface region with both a current density and a potential, one of which is zero",
     breaks="a surface region with V: 0 and a current density is accepted, although the two boundary conditions exclude each other",
     sh=SETS + r'''for jv in "1e9 1.5" "1e9 0" "0 1.5" "0 0"; do
set -- $jv
printf 'mesh:\n  filename: a.msh\n  surface_regions:\n    s: {jn: %s, V: %s}\n' $1 $2 > a.yml
if ./pr a.yml > out.txt 2> err.txt; then echo "jn: $1 with V: $2 is accepted"; exit 1; fi
done
printf 'mesh:\n  filename: a.msh\n  surface_regions:\n    s: {jn: 1e9}\n    r: {V: 0}\n' > a.yml
./pr a.yml > out.txt || { echo "good settings refused"; exit 1; }
exit 0
''')

seed(id="I05-time-digits", property="I05", fmm=True,
     edits=[("src/settings.cpp", "ss << tags::sol::time << ' ' << std::scientific << t <<", "ss << tags::sol::time << ' ' << std::fixed << t <<")],
     needs="a simulation restarted from a saved magnetisation: its clock has to go on from the time in the file",
     breaks="the time is written in fixed notation, so that every time below half a microsecond is saved, and restored, as zero",
     sh=FG + yml(step="1e-12", tf="2e-12", every="1", m0="[1, 0, 0]", B='["0", "0", "0.1"]') + r'''timeout 200 ./feellgood --seed 1 a.yml > log 2>&1 || { tail -3 log; exit 2; }
[ -f out/a_iter2.sol ] || exit 2
sed -e 's/^initial_magnetization: .*/initial_magnetization: out\/a_iter2.sol/' -e 's/final_time: 2e-12/final_time: 4e-12/' -e 's/file_basename: a/file_basename: b/' a.yml > b.yml
timeout 200 ./feellgood --seed 1 b.yml > log 2>&1 || { tail -3 log; exit 2; }
python3 - <<EOF
import sys
t = [float(l.split()[0]) for l in open("out/b.evol") if not l.startswith("#")]
print("restarted at", t[0])
sys.exit(0 if abs(t[0] - 2e-12) < 1e-16 and abs(t[-1] - 4e-12) < 1e-16 else 1)
EOF
''')

seed(id="I03-field-alone", property="I03", fmm=True,
     edits=[("src/save.cpp", "col_name[1] >= 'x' && col_name[1] <= 'z'", "col_name[1] >= 'x' && col_name[1] < 'z'")],
     needs="a list of columns with Hz but neither Hx nor Hy",
     breaks="the applied field is not evaluated for the column Hz alone: the column is full of nan",
     sh=FG + yml(step="1e-12", tf="2e-12", cols="t, Hz", B='["0", "0", "0.1"]') + r'''timeout 200 ./feellgood --seed 1 a.yml > log 2>&1 || { tail -3 log; exit 2; }
sed 's/evol_columns: .*/evol_columns: [t, Hx, Hy, Hz]/; s/file_basename: a/file_basename: b/' a.yml > b.yml
timeout 200 ./feellgood --seed 1 b.yml > log 2>&1 || { tail -3 log; exit 2; }
grep -v '^#' out/a.evol | awk '{print $2}' > one
grep -v '^#' out/b.evol | awk '{print $4}' > two
[ "$(wc -l < one)" -ge 3 ] || exit 2
diff one two
''')
