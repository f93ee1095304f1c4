// Instantiates the library's solver templates that the program itself does not use today, so that they are analysed too.
#include "algebra/algebra.h"
#include "algebra/cg.h"
#include "algebra/bicg.h"

void fgverif_instantiate(algebra::iteration<double> &it, algebra::SparseMatrix &A, std::vector<double> &x,
                         const std::vector<double> &b, const std::vector<double> &xd, const std::vector<int> &ld)
    {
    algebra::cg<double>(it, A, x, b);
    algebra::cg_dir<double>(it, A, x, b, xd, ld);
    algebra::bicg<double>(it, A, x, b);
    algebra::bicg_dir<double>(it, A, x, b, xd, ld);
    algebra::bicg_dir<double>(it, A, x, b, ld);
    }
