From 4b180947456dc3b43ac60be8547a0d3a1b19d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 01/10] fix: spin accumulation: clear the system before each
 assembly

solve() is called at every time step on the same object; matrix and right hand
side kept accumulating the systems of all the previous steps.
---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..a326b8a 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0.0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From 2144685966e20dbe7b2209b1a534dc0f7ded91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:04 +0000
Subject: [PATCH 02/10] fix: mesh: index the space dependent applied field by
 tetrahedron, as its readers do

---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..c6b5c6f 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size()); // indexed by Tet::idx
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 4783a68c67cf44010be5e640dddf84acefd41ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:47 +0000
Subject: [PATCH 03/10] fix: time integration: compute the energies of a step
 at the time of that step

compute_all() was called with the time of the beginning of the step, so that
with a time dependent applied field the Zeeman energy was evaluated with the
new magnetization but the field of the previous time.
---
 src/time_integration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..ed51925 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -228,7 +228,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 continue;
                 }
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
             flag = 0;
 
@@ -238,6 +237,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             else
                 t_prm.inc_t();
 
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
-- 
2.43.0


From 93f5063c2d11b24698e406a28e0cba7d93d4f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:47 +0000
Subject: [PATCH 04/10] fix: savesol: save the accepted magnetization

After a step rejected for being too large, d[NEXT] holds the rejected trial
magnetization, and this is what a signal received then saved as the state at
the current time. d[CURRENT] is the state the simulation goes on from.
---
 src/save.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.cpp b/src/save.cpp
index fc3a06a..d78581c 100644
--- a/src/save.cpp
+++ b/src/save.cpp
@@ -176,7 +176,7 @@ void Mesh::mesh::savesol(const int precision, const std::string& fileName,
     for (unsigned int i = 0; i < node.size(); i++)
         {
         const int j = node_index[i];
-        const dataNode &dn = node[j].d[Nodes::NEXT];
+        const dataNode &dn = node[j].d[Nodes::CURRENT];
         fout << i << '\t' << dn.u.format(outputSolFmt) << '\t' << dn.phi;
         if (withSpinAcc)
             { fout << '\t' << s[j].format(outputSolFmt); }
-- 
2.43.0


From 37296ef5912de3773b08e8cd1f4dab8c7c024ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 05/10] fix: settings: print the current density under the key
 it is read from

---
 src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..d3e004c 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -206,7 +206,7 @@ void Settings::toYaml()
         std::cout << "      Ks: " << it->Ks << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
-- 
2.43.0


From ca6840a48633075eaea71195752e765ab3bca38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 06/10] fix: settings: print undefined spin polarization
 vectors as null, not as NaN

---
 src/settings.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index d3e004c..923d8a4 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -218,8 +218,16 @@ void Settings::toYaml()
             { std::cout << ' ' << it->V << '\n'; }
         if (spin_acc)
             {
-            std::cout << "      uP: " << str(it->uP) << "\n";
-            std::cout << "      s: " << str(it->s) << "\n";
+            std::cout << "      uP:";
+            if (isnan(it->uP.norm()))
+                { std::cout << "\n"; }
+            else
+                { std::cout << ' ' << str(it->uP) << "\n"; }
+            std::cout << "      s:";
+            if (isnan(it->s.norm()))
+                { std::cout << "\n"; }
+            else
+                { std::cout << ' ' << str(it->s) << "\n"; }
             }
         }
     std::cout << "initial_magnetization: ";
-- 
2.43.0


From 1a1b52ff07f09f8a94524141eb2da21d43550c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 07/10] fix: settings: a form of initial_magnetization or Bext
 replaces the forms read earlier

---
 src/settings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 923d8a4..639ea8e 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -466,10 +466,14 @@ void Settings::read(YAML::Node yaml)
             {
             std::string s_mag = magnetization.as<std::string>();
             if (s_mag.find("function") == std::string::npos || s_mag.find('{') == std::string::npos)
-                { restoreFileName = s_mag; }
+                {
+                restoreFileName = s_mag;
+                sM.clear();
+                }
             else
                 {
                 sM = s_mag;
+                restoreFileName.clear();
                 mag_parser.set_function(sM);
                 }
             }
@@ -480,6 +484,8 @@ void Settings::read(YAML::Node yaml)
             sMx = magnetization[0].as<std::string>();
             sMy = magnetization[1].as<std::string>();
             sMz = magnetization[2].as<std::string>();
+            sM.clear();
+            restoreFileName.clear();
             mag_parser.set_expressions("x,y,z", sMx, sMy, sMz);
             }
         else
@@ -520,6 +526,7 @@ void Settings::read(YAML::Node yaml)
             sBx = field[0].as<std::string>();
             sBy = field[1].as<std::string>();
             sBz = field[2].as<std::string>();
+            sB.clear();
             field_parser.set_expressions("t", sBx, sBy, sBz);
             field_type = RtoR3;
             }
-- 
2.43.0


From 62e3ac11d65e73ab01b7580ba8e1d20c86f61265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:47 +0000
Subject: [PATCH 08/10] fix: readSol: read back everything savesol writes,
 refuse truncated files

The values at non-magnetic nodes are written as "nan", which operator>> does
not parse, and the spin accumulation columns were not skipped: such files were
refused as having the wrong node indices. A file truncated within its last
line was accepted, with an undefined value.
---
 src/read.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..83ac2f6 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -1,5 +1,7 @@
 #include <fstream>
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 #include <gmsh.h>
 
 #include "settings.h"
@@ -196,6 +198,19 @@ void mesh::readTriangles()
         } );// end for_each on entities
     }
 
+/** convert a field of a .sol file to a number, "nan" included */
+static double toDouble(const std::string &field)
+    {
+    char *end;
+    const double value = std::strtod(field.c_str(), &end);
+    if (*end != '\0')
+        {
+        std::cerr << "error: '" << field << "' is not a number in input .sol file\n";
+        SYSTEM_ERROR;
+        }
+    return value;
+    }
+
 double mesh::readSol(bool VERBOSE, const std::string& fileName)
     {
     double t(0);
@@ -231,17 +246,25 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
         unsigned int i_;
-        int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
+        std::string mx, my, mz, phi;
+        // Numbers are read as strings: operator>> cannot parse "nan" (value at non-magnetic nodes).
+        fin >> i_ >> mx >> my >> mz >> phi;
+        if (fin.fail())
+            {
+            std::cerr << "error: input .sol file " << fileName << " is truncated or malformed\n";
+            SYSTEM_ERROR;
+            }
         if (i != i_)
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
             fin.close();
             SYSTEM_ERROR;
             }
+        Nodes::dataNode &dn = node[node_index[i]].d[Nodes::NEXT];
+        dn.u = Eigen::Vector3d(toDouble(mx), toDouble(my), toDouble(mz));
+        dn.phi = toDouble(phi);
+        fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');  // skip optional columns
         }
     fin.close();
 
-- 
2.43.0


From fd9e4ae6308f7e6923ec232137ea622a3306bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:51 +0000
Subject: [PATCH 09/10] fix: surface anisotropy field of a triangle: divide by
 mu0

The field derived from the surface anisotropy energy -Ks (u.uk)^2 is
2 Ks/(mu0 dMs) (u.uk) uk, like 2 K/(mu0 Ms) (u.uk) uk in Tet::integrales();
the factor 1/mu0 was missing, so the field was about 8e5 times too small
against the energy reported.
---
 src/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..d4113ac 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,7 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    double Kbis = 2.0*params.Ks / (mu0*dMs);
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From 202b4e15b1ffa770de86274b95d16bec723ac089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:51 +0000
Subject: [PATCH 10/10] fix: second order spin accumulation term: V already
 includes gamma0

V is a rate of change in 1/s, as in the anisotropy terms and the initial guess,
and s_dt includes gamma0: the product had gamma0 twice.
---
 src/tetra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..02f98fd 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -298,7 +298,7 @@ void Tet::integrales(Tetra::prm const &param, timing const &prm_t,
             BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                     + da(i,2)*dUdz.col(npi));// exchange
             BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE
-            BE.col(i) -= ai_w*scal_Hst_u*s_dt*V.col(npi); // spin acc second order contrib
+            BE.col(i) -= ai_w*scal_Hst_u*(s_dt/gamma0)*V.col(npi); // spin acc second order contrib
             }
         }
 
-- 
2.43.0

