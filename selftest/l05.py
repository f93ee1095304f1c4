B = "src/algebra/bicg.h"
C = "src/algebra/cg.h"
import re
t = open("/repo/src/algebra/bicg.h").read()


def nth(old, new, n, s=None, f=B):
    """replace the n-th occurrence"""
    s = s if s is not None else t
    i = -1
    for _ in range(n):
        i = s.index(old, i + 1)
    # unique context
    j = i
    while s.count(s[j:i + len(old)]) > 1:
        j -= 1
    return (f, s[j:i + len(old)], s[j:i] + new)


MUT = [
    (B, "            scaled_add(phat, alpha, x); // x += alpha * phat\n", "            scaled_add(p, alpha, x);\n"),
    nth("            scaled_add(phat, alpha, x); // x += alpha * phat\n", "", 2),
    nth("scaled_add(shat, omega, x);", "scaled_add(shat, alpha, x);", 2),
    nth("scaled_add(shat, omega, x);", "scaled_add(shat, alpha, x);", 3),
    nth("sub(t, r);", "add(t, r);", 1),
    nth("        applyMask(ld,v);\n", "", 1),
    nth("        applyMask(ld,t);\n", "", 2),
    nth("    applyMask(ld,r);\n", "", 1),
    nth("    sub(v, b);      // b -= A xd; so b = rhs - A xd\n", "    add(v, b);\n", 1),
    nth("    add(xd, x);                // x += xd\n", "", 1),
    nth("    applyMask(ld,diag_precond);\n", "", 1),
    nth("r.assign(s.begin(), s.end());", "r.assign(p.begin(), p.end());", 1),
    nth("        if (iter.finished(norm(s)))", "        if (iter.finished(norm(t)))", 1),
    (C, "scaled_add(q, -a, r);", "scaled_add(z, -a, r);"),
    (C, "scaled_add(p, +a, x);", "scaled_add(p, -a, x);"),
    (C, "        applyMask(ld,q);\n", ""),
    (C, "    iter.set_rhsnorm(norm(b));", "    iter.set_rhsnorm(norm(x));"),
    (C, "    sub(v_temp,r);                        // r -= v_temp; so r = b - A x;\n", ""),
    nth("            scaled_add(phat, alpha, x); // x += alpha * phat\n            break;", "            break;", 3),
]
OK = [
    nth("        scaled_add(phat, alpha, x);    // x += alpha * phat;\n        scaled_add(shat, omega, x);    // x += omega * shat;\n", "        scaled_add(shat, omega, x);\n        scaled_add(phat, alpha, x);\n", 1),
    nth("        scaled(omega, t);              // t *= omega\n        r.assign(s.begin(), s.end());  // r = s\n        sub(t, r);                     // r -= t; so r = s - omega t\n", "        r = s;\n        scaled_add(t, -omega, r);\n", 1),
    (C, "        T a=rho/q_dot_p;\n        scaled_add(p, +a, x);             // add(scaled(p, +a), x);\n        scaled_add(q, -a, r);             // add(scaled(q, -a), r);\n", "        const T a=-rho/q_dot_p;\n        scaled_add(q, a, r);\n        scaled_add(p, -a, x);\n"),
    [(C, "        scaled_add(p, +a, x);             // add(scaled(p, +a), x);\n        scaled_add(q, -a, r);             // add(scaled(q, -a), r);\n", "        advance(p, q, a, x, r);\n"),
     (C, "namespace algebra\n{\n", "namespace algebra\n{\ntemplate<typename T>\nvoid advance(const std::vector<T> &p, const std::vector<T> &q, const T a, std::vector<T> &x, std::vector<T> &r)\n    {\n    scaled_add(p, a, x);\n    scaled_add(q, -a, r);\n    }\n")],
    (C, "        scaled_add(p, +a, x);             // add(scaled(p, +a), x);\n", "        for (size_t i = 0; i < x.size(); ++i)\n            x[i] += a * p[i];\n"),
    (C, "    r.assign(b.begin(),b.end());          // r = b;\n", "    std::copy(b.begin(), b.end(), r.begin());\n"),
    nth("            beta = rho_1 / rho_2;\n            beta *=  alpha / omega;\n", "            beta = (rho_1 * alpha) / (rho_2 * omega);\n", 1),
]
