From 6b19a793ef6cd85881e0334e71b99e21dc5099b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 001/102] fix: INI parameter with a whitespace-only value is an
 empty value, not a string of blanks

---
 src/utils_config.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils_config.cpp b/src/utils_config.cpp
index eccdc6d..fb7be4e 100644
--- a/src/utils_config.cpp
+++ b/src/utils_config.cpp
@@ -36,8 +36,7 @@ void KeyValueMap::add(const char* line)
         if(indx!=std::string::npos && indx+1<key.size())  // and remove trailing spaces (before '=')
             key.erase(indx+1);
         indx = buffer.find_first_not_of(" \t\n\r");       // remove leading spaces after '='
-        if(indx!=std::string::npos && indx>0)
-            buffer.erase(0, indx);
+        buffer.erase(0, indx);                            // (if there is nothing else, the value is empty)
         indx = buffer.find_last_not_of(" \t\n\r");        // and trailing spaces at the end of the line
         if(indx!=std::string::npos && indx+1<buffer.size())
             buffer.erase(indx+1);
-- 
2.43.0


From e4ab0cfd547fba238eb4b2b53f1451cba545da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 002/102] fix: INI file: unnamed section created after named
 ones must not merge into the preceding section when saved

---
 src/utils_config.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils_config.cpp b/src/utils_config.cpp
index fb7be4e..def9146 100644
--- a/src/utils_config.cpp
+++ b/src/utils_config.cpp
@@ -299,9 +299,9 @@ KeyValueMap& ConfigFile::findSection(const std::string& sec)
     for(unsigned int is=0; is<sections.size(); is++)
         if(stringsEqual(sections[is].first, sec))
             return sections[is].second;
-    // not found -- add new section
-    sections.push_back(std::pair<std::string, KeyValueMap>(sec, KeyValueMap()));
-    return sections.back().second;
+    // not found -- add new section (the unnamed one must come first: it has no header in the file)
+    return sections.insert(sec.empty() ? sections.begin() : sections.end(),
+        std::pair<std::string, KeyValueMap>(sec, KeyValueMap()))->second;
 }
     
 const KeyValueMap& ConfigFile::findSection(const std::string& sec) const
-- 
2.43.0


From 60e03f918a54654afab8a750808b218254875c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 003/102] fix: per-thread random generators must not share
 state words between adjacent threads

---
 src/math_random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_random.cpp b/src/math_random.cpp
index 485192e..ad08333 100644
--- a/src/math_random.cpp
+++ b/src/math_random.cpp
@@ -123,7 +123,7 @@ double random(PRNGState* state)
     if(state == NULL) {
         // use a thread-local state vector
 #ifdef _OPENMP
-        state = &randgen.state[std::min(omp_get_thread_num(), randgen.maxThreads-1)];
+        state = &randgen.state[std::min(omp_get_thread_num(), randgen.maxThreads-1) * 2];
 #else
         state = &randgen.state[0];
 #endif
-- 
2.43.0


From 5a4aeafa557b3eb30e4cbdefb730b581e1c627fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 004/102] fix: TargetLOSVD out-of-bounds flag could be lost
 when set concurrently by several threads

---
 src/galaxymodel_losvd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index a7b1701..8399ee9 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -210,7 +210,8 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
     for(int i = 0; i < (int)numApertures; i++) {
         bool apOutOfBounds = math::computeBsplineIntegralsOverPolygon(
             params.apertures[i], bsplx, bsply, &apertureMatrix(i, 0));
-        outOfBounds |= apOutOfBounds;
+        if(apOutOfBounds)
+            outOfBounds = true;
     }
     if(outOfBounds)
         throw std::invalid_argument("TargetLOSVD: datacube does not cover all apertures");
-- 
2.43.0


From 666ed50bca35c6b19b469f053626e83979e3aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 005/102] fix: exceptions must not escape from OpenMP loops
 (JeansAxi, TargetLOSVD/KinemShell, velocity assignment, Raga)

---
 src/galaxymodel_jeans.cpp           | 168 ++++++++++++++++------------
 src/galaxymodel_losvd.cpp           | 124 ++++++++++++--------
 src/galaxymodel_velocitysampler.cpp | 162 ++++++++++++++++-----------
 src/raga_core.cpp                   |  60 +++++++---
 4 files changed, 317 insertions(+), 197 deletions(-)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index 8e7236d..e9b50f1 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -131,33 +131,45 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // perform the integration in z direction at each point of the radial grid
     const int GLORDER = 6;  // order of Gauss-Legendre integration
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
-        double R = gridR[iR];
-        double result = 0.;
-        // sum up integrals over the segments of the grid in z, starting from the outermost one
-        // (from the last point to infinity)
-        for(int iz=gridzsize-1; iz>=0; iz--) {
-            for(int k=0; k<GLORDER; k++) {
-                double z, w;  // z-coordinate of the k-th point in the quadrature rule and its weight
-                if(iz<gridzsize-1) {
-                    z = gridz[iz] + (gridz[iz+1]-gridz[iz]) * glnodes[k];
-                    w = (gridz[iz+1]-gridz[iz]) * glweights[k];
-                } else {  // scaling transformation on the last segment: z = zmax/t, 0<t<1
-                    z = gridz[gridzsize-1] / glnodes[k];
-                    w = gridz[gridzsize-1] / pow_2(glnodes[k]) * glweights[k];
+        try{
+            double R = gridR[iR];
+            double result = 0.;
+            // sum up integrals over the segments of the grid in z, starting from the outermost one
+            // (from the last point to infinity)
+            for(int iz=gridzsize-1; iz>=0; iz--) {
+                for(int k=0; k<GLORDER; k++) {
+                    double z, w;  // z-coordinate of the k-th point in the quadrature rule and its weight
+                    if(iz<gridzsize-1) {
+                        z = gridz[iz] + (gridz[iz+1]-gridz[iz]) * glnodes[k];
+                        w = (gridz[iz+1]-gridz[iz]) * glweights[k];
+                    } else {  // scaling transformation on the last segment: z = zmax/t, 0<t<1
+                        z = gridz[gridzsize-1] / glnodes[k];
+                        w = gridz[gridzsize-1] / pow_2(glnodes[k]) * glweights[k];
+                    }
+                    double rho = axiDens.density(coord::PosCyl(R, z, 0));
+                    coord::GradCyl grad;
+                    axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
+                    result += rho * grad.dz * w;
                 }
-                double rho = axiDens.density(coord::PosCyl(R, z, 0));
-                coord::GradCyl grad;
-                axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
-                result += rho * grad.dz * w;
+                rhosigmaz2(iR, iz) = result;
+                rhoval(iR, iz)     = axiDens.density(coord::PosCyl(R, gridz[iz], 0));
             }
-            rhosigmaz2(iR, iz) = result;
-            rhoval(iR, iz)     = axiDens.density(coord::PosCyl(R, gridz[iz], 0));
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in JeansAxi: "+errorMessage);
 
 #else
 
@@ -186,68 +198,80 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // this will represent the integral of r.h.s.
     const math::BsplineInterpolator1d<3> fint(gridfemz);
 
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
-        double R = gridR[iR];
-        std::vector<double> pointrho(femzsize), pointrhs(femzsize);
-        // collect values of two functions at integration points
-        for(int kz=0; kz<femzsize; kz++) {
-            double z     = femzpoints[kz];
-            double rho   = axiDens.density(coord::PosCyl(R, z, 0));
-            coord::GradCyl grad;
-            axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
-            pointrho[kz] = rho;
-            pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
-        }
-        // construct FEM representations of both rho and  rhs = -rho dPhi/dt
-        std::vector<double> projrhs = femz.computeProjVector(pointrhs);
-        std::vector<double> projrho = femz.computeProjVector(pointrho);
-        std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
-        std::vector<double> amplrho = math::solveBand(mat, projrho);
-        // integrate the B-spline representation of r.h.s. to obtain the amplitudes
-        // of B-spline representation of  E = rho sigma_z^2
-        std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
-        // and subtract the last element (the boundary condition is that E(infinity)=0)
-        const double maxamplE = fabs(amplE.back()) * 1e-12;
-        for(int iz=0; iz<(int)amplE.size(); iz++) {
-            amplE[iz] -= amplE.back();
-            // also zero out the elements of negligible magnitude -
-            // this will trigger extrapolation at large radii later on
-            if(fabs(amplE[iz]) < maxamplE)
-                amplE[iz] = 0.;
-        }
+        try{
+            double R = gridR[iR];
+            std::vector<double> pointrho(femzsize), pointrhs(femzsize);
+            // collect values of two functions at integration points
+            for(int kz=0; kz<femzsize; kz++) {
+                double z     = femzpoints[kz];
+                double rho   = axiDens.density(coord::PosCyl(R, z, 0));
+                coord::GradCyl grad;
+                axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
+                pointrho[kz] = rho;
+                pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
+            }
+            // construct FEM representations of both rho and  rhs = -rho dPhi/dt
+            std::vector<double> projrhs = femz.computeProjVector(pointrhs);
+            std::vector<double> projrho = femz.computeProjVector(pointrho);
+            std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
+            std::vector<double> amplrho = math::solveBand(mat, projrho);
+            // integrate the B-spline representation of r.h.s. to obtain the amplitudes
+            // of B-spline representation of  E = rho sigma_z^2
+            std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
+            // and subtract the last element (the boundary condition is that E(infinity)=0)
+            const double maxamplE = fabs(amplE.back()) * 1e-12;
+            for(int iz=0; iz<(int)amplE.size(); iz++) {
+                amplE[iz] -= amplE.back();
+                // also zero out the elements of negligible magnitude -
+                // this will trigger extrapolation at large radii later on
+                if(fabs(amplE[iz]) < maxamplE)
+                    amplE[iz] = 0.;
+            }
 
-        // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
-        // potential approximation), then the entire high-z tail of the solution is unreliable;
-        // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
-        // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
-        int iz = 0;
-        for(; iz<gridzsize; iz++) {
-            // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
-            rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
-            rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
-            // check if things get wrong
-            if(iz>2 &&
-                (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
-                // assume that the next-to-last point was still ok (the last one might be already wrong),
-                // and restart in the regime of extrapolation
-                iz -= 1;
-                break;
+            // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
+            // potential approximation), then the entire high-z tail of the solution is unreliable;
+            // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
+            // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
+            int iz = 0;
+            for(; iz<gridzsize; iz++) {
+                // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
+                rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
+                rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
+                // check if things get wrong
+                if(iz>2 &&
+                    (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
+                    // assume that the next-to-last point was still ok (the last one might be already wrong),
+                    // and restart in the regime of extrapolation
+                    iz -= 1;
+                    break;
+                }
+            }
+            // check if we haven't processed all points in the normal interpolation regime
+            // and need to extrapolate points starting from iz
+            // (so that iz-1 is the index of the last reliable point)
+            for(int ez=iz; ez<gridzsize; ez++) {
+                // extrapolate to high z as power laws
+                const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
+                rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
+                // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
+                rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
             }
         }
-        // check if we haven't processed all points in the normal interpolation regime
-        // and need to extrapolate points starting from iz
-        // (so that iz-1 is the index of the last reliable point)
-        for(int ez=iz; ez<gridzsize; ez++) {
-            // extrapolate to high z as power laws
-            const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
-            rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
-            // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
-            rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in JeansAxi: "+errorMessage);
 #endif
 
     for(int iz=0; iz<gridzsize; iz++) {
diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 8399ee9..5654e31 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -463,30 +463,42 @@ void TargetLOSVD<N>::computeDFProjection(const GalaxyModel& model, StorageNumT*
     double* cubedata = datacube.data();
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
-        nx = bsplx.numValues(), nv = bsplv.numValues();
-        // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
-        double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
-        double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
-        std::vector<double> result(fnc.numValues());
-        computeProjection(model, fnc, Xlim, Ylim, orientation,
-            &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
-        // add the computed integrals to the output array
+        try{
+            const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
+            nx = bsplx.numValues(), nv = bsplv.numValues();
+            // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
+            double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
+            double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
+            std::vector<double> result(fnc.numValues());
+            computeProjection(model, fnc, Xlim, Ylim, orientation,
+                &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int ky=0; ky<=N; ky++)
-                for(int kx=0; kx<=N; kx++)
-                    for(int iv=0; iv<nv; iv++)
-                        cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
-                            result[ (ky * (N+1) + kx) * nv + iv ];
+            {
+                for(int ky=0; ky<=N; ky++)
+                    for(int kx=0; kx<=N; kx++)
+                        for(int iv=0; iv<nv; iv++)
+                            cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
+                                result[ (ky * (N+1) + kx) * nv + iv ];
+            }
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in TargetLOSVD: "+errorMessage);
 
     // 2nd stage: convert the collected datacube into the output array of LOSVDs in each aperture
     finalizeDatacube(datacube, output);
@@ -501,35 +513,47 @@ std::vector<double> TargetLOSVD<N>::computeDensityProjection(const potential::Ba
     std::vector<double> pixelMasses(bsplx.numValues() * bsply.numValues());
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
-        // integration in a 3d slab: X, Y are projected coords in the image plane
-        // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
-        double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
-        double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
-        double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
-        // compute the integrals
-        math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
-        // get the offset of the B-spline values in the output array
-        double dummy[N+1];
-        int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
-            indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
-        assert(indx == ix && indy == iy &&
-            ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
-        const int nx = bsplx.numValues();
-        // add the computed integrals to the output array
+        try{
+            int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
+            // integration in a 3d slab: X, Y are projected coords in the image plane
+            // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
+            double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
+            double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
+            double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
+            // compute the integrals
+            math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
+            // get the offset of the B-spline values in the output array
+            double dummy[N+1];
+            int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
+                indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
+            assert(indx == ix && indy == iy &&
+                ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
+            const int nx = bsplx.numValues();
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int kx=0; kx<=N; kx++)
-                for(int ky=0; ky<=N; ky++)
-                    pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            {
+                for(int kx=0; kx<=N; kx++)
+                    for(int ky=0; ky<=N; ky++)
+                        pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            }
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in TargetLOSVD: "+errorMessage);
 
     // 2nd stage: convert these projections to the aperture masses (simultaneously convolving with PSF)
     std::vector<double> result(apertureConvolutionMatrix.rows());
@@ -584,24 +608,36 @@ void TargetKinemShell<N>::computeDFProjection(const GalaxyModel& model, StorageN
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
     math::Matrix<double> datacube = newDatacube();
     const int size = (bspl.xvalues().size()-1) * GLORDER;
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int n=0; n<size; n++) {
-        int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
-        double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
-        double dens;
-        coord::Vel2Car vel2;
-        computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
-        double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
+        try{
+            int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
+            double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
+            double dens;
+            coord::Vel2Car vel2;
+            computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
+            double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
-            bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            {
+                bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
+                bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            }
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in TargetKinemShell: "+errorMessage);
     finalizeDatacube(datacube, output);
 }
 
diff --git a/src/galaxymodel_velocitysampler.cpp b/src/galaxymodel_velocitysampler.cpp
index a72a020..aaa90f0 100644
--- a/src/galaxymodel_velocitysampler.cpp
+++ b/src/galaxymodel_velocitysampler.cpp
@@ -22,28 +22,40 @@ particles::ParticleArrayCar assignVelocityEdd(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        double Phi = pot.value(point);
-        double v;
-        int numAttempts = 0;  // prevent a lockup in troubled cases
-        do {
-            v = sphModel.sampleVelocity(Phi, &state);
-        } while(Phi + 0.5*v*v >= 0 && ++numAttempts<100);
-        if(numAttempts>=100)  // something went wrong
-            v = 0;
-        double vec[3], sinphi, cosphi;
-        math::getRandomUnitVector(vec, &state);
-        math::sincos(point.phi, sinphi, cosphi);
-        result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
-            point.R * cosphi, point.R * sinphi, point.z,
-            v * vec[0], v * vec[1], v * vec[2]),
-            pointCoords.mass(i));
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            double Phi = pot.value(point);
+            double v;
+            int numAttempts = 0;  // prevent a lockup in troubled cases
+            do {
+                v = sphModel.sampleVelocity(Phi, &state);
+            } while(Phi + 0.5*v*v >= 0 && ++numAttempts<100);
+            if(numAttempts>=100)  // something went wrong
+                v = 0;
+            double vec[3], sinphi, cosphi;
+            math::getRandomUnitVector(vec, &state);
+            math::sincos(point.phi, sinphi, cosphi);
+            result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
+                point.R * cosphi, point.R * sinphi, point.z,
+                v * vec[0], v * vec[1], v * vec[2]),
+                pointCoords.mass(i));
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
+        }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in assignVelocityEdd: "+errorMessage);
     return result;
 }
 
@@ -55,36 +67,48 @@ particles::ParticleArrayCar assignVelocityJeansSph(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        double r = hypot(point.R, point.z);
-        double sigma_r = jeansSphModel.value(r);
-        double sigma_t = sigma_r * sqrt(2-2*beta);  // vel.disp. in two tangential directions combined
-        double Phi = pot.value(point);
-        double vr, vt;
-        int numAttempts = 0;
-        do {
-            math::getNormalRandomNumbers(vr, vt, &state);
-            vr *= sigma_r;
-            vt *= sigma_t;
-        } while(Phi + 0.5 * (vr*vr + vt*vt) > 0 && ++numAttempts<100);
-        double sinphi, cosphi;
-        math::sincos(point.phi, sinphi, cosphi);
-        double xyz[3] = { point.R * cosphi, point.R * sinphi, point.z };
-        double vper[3];
-        math::getRandomPerpendicularVector(xyz, vper, &state);
-        if(r==0) r=1.;  // avoid indeterminacy
-        result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
-            xyz[0], xyz[1], xyz[2],
-            vr * xyz[0] / r + vt * vper[0],
-            vr * xyz[1] / r + vt * vper[1],
-            vr * xyz[2] / r + vt * vper[2]),
-            pointCoords.mass(i));
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            double r = hypot(point.R, point.z);
+            double sigma_r = jeansSphModel.value(r);
+            double sigma_t = sigma_r * sqrt(2-2*beta);  // vel.disp. in two tangential directions combined
+            double Phi = pot.value(point);
+            double vr, vt;
+            int numAttempts = 0;
+            do {
+                math::getNormalRandomNumbers(vr, vt, &state);
+                vr *= sigma_r;
+                vt *= sigma_t;
+            } while(Phi + 0.5 * (vr*vr + vt*vt) > 0 && ++numAttempts<100);
+            double sinphi, cosphi;
+            math::sincos(point.phi, sinphi, cosphi);
+            double xyz[3] = { point.R * cosphi, point.R * sinphi, point.z };
+            double vper[3];
+            math::getRandomPerpendicularVector(xyz, vper, &state);
+            if(r==0) r=1.;  // avoid indeterminacy
+            result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
+                xyz[0], xyz[1], xyz[2],
+                vr * xyz[0] / r + vt * vper[0],
+                vr * xyz[1] / r + vt * vper[1],
+                vr * xyz[2] / r + vt * vper[2]),
+                pointCoords.mass(i));
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
+        }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in assignVelocityJeansSph: "+errorMessage);
     return result;
 }
 
@@ -96,32 +120,44 @@ particles::ParticleArrayCar assignVelocityJeansAxi(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        coord::VelCyl  vel;
-        coord::Vel2Cyl vel2;
-        jeansAxiModel.moments(point, vel, vel2);
-        double sigma_z   = sqrt(vel2.vz2);
-        double sigma_R   = sqrt(vel2.vR2);
-        double sigma_phi = sqrt(fmax(0., vel2.vphi2 - pow_2(vel.vphi)));
-        double Phi = pot.value(point);
-        double vR, vz, vphi, sphi, devnull;
-        int numAttempts = 0;
-        do {
-            math::getNormalRandomNumbers(sphi, /*ignored - need only one number here*/ devnull, &state);  
-            vphi = vel.vphi + sphi * sigma_phi;
-            math::getNormalRandomNumbers(vR, vz, &state);
-            vR *= sigma_R;
-            vz *= sigma_z;
-        } while(Phi + 0.5 * (vR*vR + vz*vz + vphi*vphi) > 0 && ++numAttempts<100);
-        result[i] = particles::ParticleArrayCar::ElemType(
-            toPosVelCar(coord::PosVelCyl(point, coord::VelCyl(vR, vz, vphi))),
-            pointCoords.mass(i));
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            coord::VelCyl  vel;
+            coord::Vel2Cyl vel2;
+            jeansAxiModel.moments(point, vel, vel2);
+            double sigma_z   = sqrt(vel2.vz2);
+            double sigma_R   = sqrt(vel2.vR2);
+            double sigma_phi = sqrt(fmax(0., vel2.vphi2 - pow_2(vel.vphi)));
+            double Phi = pot.value(point);
+            double vR, vz, vphi, sphi, devnull;
+            int numAttempts = 0;
+            do {
+                math::getNormalRandomNumbers(sphi, /*ignored - need only one number here*/ devnull, &state);  
+                vphi = vel.vphi + sphi * sigma_phi;
+                math::getNormalRandomNumbers(vR, vz, &state);
+                vR *= sigma_R;
+                vz *= sigma_z;
+            } while(Phi + 0.5 * (vR*vR + vz*vz + vphi*vphi) > 0 && ++numAttempts<100);
+            result[i] = particles::ParticleArrayCar::ElemType(
+                toPosVelCar(coord::PosVelCyl(point, coord::VelCyl(vR, vz, vphi))),
+                pointCoords.mass(i));
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
+        }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in assignVelocityJeansAxi: "+errorMessage);
     return result;
 }
 
diff --git a/src/raga_core.cpp b/src/raga_core.cpp
index 565c96d..8b1919e 100644
--- a/src/raga_core.cpp
+++ b/src/raga_core.cpp
@@ -36,16 +36,28 @@ void computeTotalEnergyModel(
     }
     // add energies of all particles
     ptrdiff_t nbody = particles.size();
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static) reduction(+:Etot,Esum)
 #endif
     for(ptrdiff_t ip=0; ip<nbody; ip++) {
-        const coord::PosVelCar& point = particles.point(ip);
-        double Epot = pot.value(point, time) + bh.potential(point, time);
-        double Ekin = (pow_2(point.vx) + pow_2(point.vy) + pow_2(point.vz)) * 0.5;
-        Etot += particles.mass(ip) * (Ekin+Epot*0.5);
-        Esum += particles.mass(ip) * (Ekin+Epot);
+        try{
+            const coord::PosVelCar& point = particles.point(ip);
+            double Epot = pot.value(point, time) + bh.potential(point, time);
+            double Ekin = (pow_2(point.vx) + pow_2(point.vy) + pow_2(point.vz)) * 0.5;
+            Etot += particles.mass(ip) * (Ekin+Epot*0.5);
+            Esum += particles.mass(ip) * (Ekin+Epot);
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
+        }
     }
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in Raga: "+errorMessage);
     resultEtot = Etot;
     resultEsum = Esum;
 }
@@ -131,25 +143,37 @@ void RagaCore::doEpisode(double episodeLength)
         potential::PtrPotential(new potential::Composite(potComponents)) :
         ptrPot;
 
+    std::string errorMessage;  // store the error text in case of an exception in the OpenMP block
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic,1)
 #endif
     for(ptrdiff_t ip=0; ip<nbody; ip++) {
-        ptrdiff_t index = particleOrder[ip].second;
-        if(particles.mass(index) != 0) {   // run only non-zero-mass particles
-            orbit::OrbitIntegrator<coord::Car> orbint(*ptrTotalPot, /*Omega*/0, orbitIntParams);
-            for(int task=0; task<numtasks; task++)
-                tasks[task]->createRuntimeFnc(orbint, index);
-            orbint.init(particles.point(index));
-            coord::PosVelCar endposvel = orbint.run(episodeLength);
-            particles[index].first = particles::ParticleAux(
-                /* replace the initial position/velocity with that at the end of the episode */
-                endposvel,
-                /* keep the original extended particle attributes */
-                particles.point(index).stellarMass,
-                particles.point(index).stellarRadius);
+        try{
+            ptrdiff_t index = particleOrder[ip].second;
+            if(particles.mass(index) != 0) {   // run only non-zero-mass particles
+                orbit::OrbitIntegrator<coord::Car> orbint(*ptrTotalPot, /*Omega*/0, orbitIntParams);
+                for(int task=0; task<numtasks; task++)
+                    tasks[task]->createRuntimeFnc(orbint, index);
+                orbint.init(particles.point(index));
+                coord::PosVelCar endposvel = orbint.run(episodeLength);
+                particles[index].first = particles::ParticleAux(
+                    /* replace the initial position/velocity with that at the end of the episode */
+                    endposvel,
+                    /* keep the original extended particle attributes */
+                    particles.point(index).stellarMass,
+                    particles.point(index).stellarRadius);
+            }
+        }
+        // guard against possible exceptions, since they must not leave the OpenMP parallel section
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = e.what();
         }
     }   // end parallel for
+    if(!errorMessage.empty())
+        throw std::runtime_error("Error in Raga: "+errorMessage);
 
     utils::msg(utils::VL_MESSAGE, "Raga",
         utils::toString(nbody) + " particles, " +
-- 
2.43.0


From fdaf817354e8cc13cd745de93397166a2acdeee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 006/102] fix: serialise the assignment of error messages in
 OpenMP loops

---
 src/actions_spherical.cpp   |  6 ++++++
 src/actions_staeckel.cpp    |  6 ++++++
 src/galaxymodel_base.cpp    |  3 +++
 src/interface_python.cpp    | 18 ++++++++++++++++++
 src/math_sample.cpp         |  3 +++
 src/potential_cylspline.cpp |  6 ++++++
 src/potential_multipole.cpp |  9 +++++++++
 src/potential_utils.cpp     |  3 +++
 8 files changed, 54 insertions(+)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 45ccb13..2461850 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -394,6 +394,9 @@ math::QuinticSpline2d createActionInterpolator(const potential::Interpolator2d&
             // derivative w.r.t. X will be obtained from 1d spline after all W values are computed
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
@@ -507,6 +510,9 @@ math::QuinticSpline2d createEnergyInterpolator(const potential::Interpolator2d&
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index ccaa2f8..1b62a42 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -725,6 +725,9 @@ void createGridFocalDistance(
             grid2dR(iE, iL) = Rsh / Rc;
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -874,6 +877,9 @@ ActionFinderAxisymFudge::ActionFinderAxisymFudge(
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 5439d05..57979bd 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -40,6 +40,9 @@ void computeDensityParallel(const potential::BaseDensity& density,
             values[i] = density.density(pos[i]);
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 72ee59c..7bd04ee 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1256,6 +1256,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -1271,6 +1274,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -6189,6 +6195,9 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -6409,6 +6418,9 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 }
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
@@ -6462,6 +6474,9 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                         static_cast<galaxymodel::StorageNumT>(dstrow[m]);
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
@@ -7857,6 +7872,9 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 // performing any necessary procedures before going out of scope
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index bd59fdd..e7434cb 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -300,6 +300,9 @@ void Sampler::evalFncLoop(PointEnum firstPointIndex, PointEnum lastPointIndex)
         }
         // guard against possible exceptions, since they must not leave the OpenMP parallel section
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             badValueOccured = true;
         }
diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 4035940..7a4ae77 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -415,6 +415,9 @@ void computePotentialCoefsFromDensity(const BaseDensity &dens,
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -536,6 +539,9 @@ void computePotentialCoefsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 720179e..dbe8d4e 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -305,6 +305,9 @@ void computeSphericalHarmonicsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
@@ -889,6 +892,9 @@ void computeDensityCoefsFromParticles(
                 coefs[nonzeroCoefs[h]][k] = splc(gridLogRadii[k]) * coefs[0][k];
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -2097,6 +2103,9 @@ void computePotentialCoefsBSE(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index efbe0e9..5b75e72 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -1123,6 +1123,9 @@ Interpolator2d::Interpolator2d(const BasePotential& potential) :
             gridW1dY(iE, sizeL-1) = gridW2dY(iE, sizeL-1) = -2*Om2kap2;
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
-- 
2.43.0


From 38f86bd47c816b5b1c7c1418c20192353dd2eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 007/102] fix: a failed evaluation of the distribution function
 overran the stack buffer instead of zeroing the values

---
 src/galaxymodel_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 57979bd..0a183d7 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -279,7 +279,7 @@ public:
         }
         catch(std::exception& e) {
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
-            std::fill(sf, df + npoints * dflen, 0);  // quietly replace output with zeroes
+            std::fill(df, df + nselected * dflen, 0);  // quietly replace output with zeroes
         }
 
         // 5. perform actual calculation of output values for each [valid and selected] input point
-- 
2.43.0


From 64ffc9dac3db3152700697684fbb30b3a05f8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 008/102] fix: pp() printed one character too few at the
 maximum width

---
 src/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index abeb365..de82f55 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -379,7 +379,7 @@ std::string pp(double num, unsigned int width)
 
     // decimal exponent
     int expon = (int)floor(log10(num));
-    char buf[MAXWIDTH+1];
+    char buf[MAXWIDTH+2];
 
     // now we have three possibilities:
     // 1) exponential notation:  2.34e5 or 6e-7 - at least one digit before the 'e' symbol
@@ -388,7 +388,7 @@ std::string pp(double num, unsigned int width)
 
     // try to print the number x>=1 in fixed-point format
     if(expon >= 0 && expon <= (int)width-1) {
-        int len = snprintf(buf, MAXWIDTH, "%-#.*f", std::max<int>(width-2-expon, 0), num);
+        int len = snprintf(buf, sizeof(buf), "%-#.*f", std::max<int>(width-2-expon, 0), num);
         if(len == (int)width+1 && buf[width] == '.') {
             // exceeds the required width, but the final decimal point may be removed
             buf[width] = '\0';
@@ -401,7 +401,7 @@ std::string pp(double num, unsigned int width)
         // otherwise we may have encountered the situation of rounding up
         // a number such as 9.x to 10. or 99.x to 100. and exceeding the width:
         // in this case a fixed-point format is still preferable to exponential, so try it
-        len = snprintf(buf, MAXWIDTH, "%-#.*f", std::max<int>(width-3-expon, 0), num);
+        len = snprintf(buf, sizeof(buf), "%-#.*f", std::max<int>(width-3-expon, 0), num);
         if(len == (int)width) {
             result += buf;
             return result;
@@ -422,7 +422,7 @@ std::string pp(double num, unsigned int width)
     // try to print the number x<1 in fixed-point format if the expected precision is no less than
     // in the exponential format, or in the special case of a number 0.5<=x<1 rounded up to 1.
     if(expon < 0 && (dig_lt1 >= dig_exp || (num>=0.5 && width<=2))) {
-        int len = snprintf(buf, MAXWIDTH, "%-#.*f", std::max<int>(width-2, 0), num);
+        int len = snprintf(buf, sizeof(buf), "%-#.*f", std::max<int>(width-2, 0), num);
         if(len > (int)width) {
             buf[width] = '\0';
             len--;
@@ -437,7 +437,7 @@ std::string pp(double num, unsigned int width)
         num /= math::pow(10., expon);
         if(num<1 || !isFinite(num))  // it might be <1 due to roundoff error
             num = 1.;
-        int len = snprintf(buf, MAXWIDTH, "%-#.*f", std::max<int>(width-2-len_exp, 0), num);
+        int len = snprintf(buf, sizeof(buf), "%-#.*f", std::max<int>(width-2-len_exp, 0), num);
         if(len >= 2 && buf[0] == '1' && buf[1] == '0') {
             // a number 9.x is rounded up to 10, so we should replace it with 1. and increase the exponent
             expon++;
-- 
2.43.0


From 8937a40d402a7fff7962f5fc8568ef51c65092a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 009/102] fix: sign of mixed second derivatives in the
 ProlSph=>Cyl coordinate conversion

---
 src/coord.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coord.cpp b/src/coord.cpp
index 8132a76..37014fc 100644
--- a/src/coord.cpp
+++ b/src/coord.cpp
@@ -282,10 +282,10 @@ PosCyl toPosDeriv(const PosProlSph& p, PosDerivT<ProlSph, Cyl>* deriv, PosDeriv2
     if(deriv2!=NULL) {
         deriv2->d2Rdlambda2   = -0.25*R / pow_2(lminusd);
         deriv2->d2Rdnu2       = -0.25*R / pow_2(nminusd);
-        deriv2->d2Rdlambdadnu = -0.25*R / (lminusd * nminusd * sign);
+        deriv2->d2Rdlambdadnu =  0.25*R / (lminusd * nminusd * sign);
         deriv2->d2zdlambda2   = -0.25*z / pow_2(p.lambda);
         deriv2->d2zdnu2       = -0.25*z / pow_2(p.nu);
-        deriv2->d2zdlambdadnu = -0.25*z / (p.lambda * p.nu);
+        deriv2->d2zdlambdadnu =  0.25*z / (p.lambda * p.nu);
     }
     return PosCyl(R, z, p.phi);
 }
-- 
2.43.0


From dc5be93065c4c5a01a4c122cdf8d050da864d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 010/102] fix: an exception raised in the integrand could be
 lost when quadratures run in parallel or are nested

---
 src/math_core.cpp     | 42 ++++++++++++++++++++++++++++++++----------
 src/math_linalg.cpp   |  3 +++
 src/math_specfunc.cpp |  3 +++
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 7fdad13..29e15f4 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -37,6 +37,12 @@ static const int MAX_INTEGR_POINTS = 1000;
 
 // ------ error handling ------ //
 
+// these variables are separate for each thread, since the routines may be used in parallel loops
+extern std::string exceptionText;
+extern bool exceptionFlag;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionText, exceptionFlag)
+#endif
 /// stores the exception text to be propagated through external C code that does not support exceptions
 std::string exceptionText;
 /// when an exception occurs, this flag is set and the text is stored in exceptionText
@@ -48,8 +54,7 @@ bool exceptionFlag = false;
     if(exceptionFlag) throw std::runtime_error(exceptionText); \
 }
 
-/// callback function invoked by GSL in case of error; stores the error text in a global variable
-/// (not thread-safe! assumed that these events don't occur often)
+/// callback function invoked by GSL in case of error; stores the error text in a thread-local variable
 static void GSLerrorHandler(const char *reason, const char* file, int line, int gsl_errno)
 {
     if( // list error codes that are non-critical and don't need to be reported
@@ -85,17 +90,27 @@ std::terminate_handler terminate_handler = std::set_terminate(my_terminate_handl
 
 // ------ math primitives -------- //
 
+/// parameters passed to the wrapper function: the user-defined function and the record of its failure
+/// (separate for each call of a GSL routine, since these calls may be nested or run in parallel)
+struct FunctionWrapperParam {
+    const IFunction& fnc;
+    bool failed;
+    std::string errorText;
+    explicit FunctionWrapperParam(const IFunction& _fnc) : fnc(_fnc), failed(false) {}
+};
+
 /// wrapper for a user-defined function to provide to GSL
 /// (any exception arising in the C++ code should not propagate back to the C code in GSL,
-/// and are instead stored in a global variable, which is unfortunately not thread-safe)
+/// and are instead stored in the parameters of the wrapper)
 double functionWrapper(double x, void* param)
 {
+    FunctionWrapperParam& p = *static_cast<FunctionWrapperParam*>(param);
     try{
-        return static_cast<IFunction*>(param)->value(x);
+        return p.fnc.value(x);
     }
     catch(std::exception& e){
-        exceptionFlag = true;
-        exceptionText = e.what();
+        p.failed = true;
+        p.errorText = e.what();
         return NAN;
     }
 }
@@ -1041,8 +1056,9 @@ double findMin(const IFunction& fnc, double xlower, double xupper, double xinit,
 
     // use the GSL minimizer with a known initial point
     gsl_function F;
+    FunctionWrapperParam param(fnc);
     F.function = &functionWrapper;
-    F.params = const_cast<IFunction*>(&fnc);
+    F.params = &param;
     gsl_min_fminimizer *minser = gsl_min_fminimizer_alloc(gsl_min_fminimizer_brent);
     double xroot = NAN;
     gsl_min_fminimizer_set_with_values(minser, &F, xinit, yinit, xlower, ylower, xupper, yupper);
@@ -1051,7 +1067,7 @@ double findMin(const IFunction& fnc, double xlower, double xupper, double xinit,
     while(iter < MAXITER && fabs(xlower-xupper) > abstoler) {
         iter++;
         gsl_min_fminimizer_iterate(minser);
-        if(exceptionFlag) {
+        if(exceptionFlag || param.failed) {
             xroot = NAN;
             break;
         }
@@ -1072,12 +1088,15 @@ double integrate(const IFunction& fnc, double x1, double x2, double reltoler,
     if(x1==x2)
         return 0;
     gsl_function F;
+    FunctionWrapperParam param(fnc);
     F.function = functionWrapper;
-    F.params = const_cast<IFunction*>(&fnc);
+    F.params = &param;
     double result, dummy;
     size_t neval;
     CALL_FUNCTION_OR_THROW(
     gsl_integration_qng(&F, x1, x2, 0, reltoler, &result, error!=NULL ? error : &dummy, &neval))
+    if(param.failed)
+        throw std::runtime_error(param.errorText);
     if(numEval!=NULL)
         *numEval = neval;
     return result;
@@ -1092,14 +1111,17 @@ double integrateAdaptive(const IFunction& fnc, double x1, double x2, double relt
     // when x1>x2, but apparently it does not work correctly in that case, so we treat it manually
     bool flipSign = swapIfNeeded(x1, x2);
     gsl_function F;
+    FunctionWrapperParam param(fnc);
     F.function = functionWrapper;
-    F.params = const_cast<IFunction*>(&fnc);
+    F.params = &param;
     double result, dummy;
     size_t neval;
     gsl_integration_cquad_workspace* ws=gsl_integration_cquad_workspace_alloc(MAX_INTEGR_POINTS);
     CALL_FUNCTION_OR_THROW(
     gsl_integration_cquad(&F, x1, x2, 0, reltoler, ws, &result, error!=NULL ? error : &dummy, &neval))
     gsl_integration_cquad_workspace_free(ws);
+    if(param.failed)
+        throw std::runtime_error(param.errorText);
     if(numEval!=NULL)
         *numEval = neval;
     return flipSign ? -result : result;
diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 243ce96..d2ac69b 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -908,6 +908,9 @@ inline NumT* xnew(size_t size) {
 // if any GSL function triggers an error, it will be stored in these variables (defined in math_core.cpp)
 extern bool exceptionFlag;
 extern std::string exceptionText;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionText, exceptionFlag)
+#endif
 
 #define CALL_FUNCTION_OR_THROW(x) { \
     exceptionFlag = false; \
diff --git a/src/math_specfunc.cpp b/src/math_specfunc.cpp
index f787da0..39aa965 100644
--- a/src/math_specfunc.cpp
+++ b/src/math_specfunc.cpp
@@ -20,6 +20,9 @@ namespace math {
 
 // if any GSL function triggers an error, it will be stored in this variable (defined in math_core.cpp)
 extern bool exceptionFlag;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionFlag)
+#endif
 
 // call a GSL function and return NAN in case of an error;
 // the error message is recorded in math::exceptionText and may be later examined by the caller
-- 
2.43.0


From ac55c70ceee2be90a1c1dce28a24e2301f4ee2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 011/102] fix: solveQuartic missed all real roots when the
 first root of the resolvent was unsuitable

---
 src/math_core.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 29e15f4..4835e8e 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -763,13 +763,20 @@ int solveQuartic(double a4, double a3, double a2, double a1, double a0, /*output
         double errw = fmax(absc / fabs(derc), absw) * DBL_EPSILON * 2;
         double errm2z2 = errw * fmax(1, 0.5 * absw);
         if(errm2z2 <= minerr) {
-            minerr = errm2z2;
             double m2 = 0.25 * a[3] * a[3] - a[2] + result[p];
             double z2 = 0.25 * pow_2(result[p]) - a[0];
-            if(m2 >= 0 && z2 >= 0) {
+            // tolerate slightly negative values (i.e. zero within roundoff error),
+            // unless there is another root for which both quantities are strictly nonnegative
+            bool nonneg = m2 >= 0 && z2 >= 0;
+            if(nonneg || (minerr == INFINITY &&
+                m2 >= -100*DBL_EPSILON * (0.25 * a[3] * a[3] + fabs(a[2]) + absw) &&
+                z2 >= -100*DBL_EPSILON * (0.25 * absw * absw + fabs(a[0])) ) )
+            {
+                if(nonneg)
+                    minerr = errm2z2;
                 w = result[p];
-                m = sqrt(m2);
-                z = sqrt(z2);  // z = (0.25 * a[3] * w - 0.5 * a[1]) / m;
+                m = sqrt(fmax(m2, 0));
+                z = sqrt(fmax(z2, 0));  // z = (0.25 * a[3] * w - 0.5 * a[1]) / m;
             }
         }
     }
-- 
2.43.0


From 6e1fc21d1dbb29dba5a6b359353f4037ddd53662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 012/102] fix: findRoot returned a non-root midpoint if both
 endpoints are roots; findMin returned NaN for a narrow interval and accepted
 infinite endpoints

---
 src/math_core.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 4835e8e..fe391b4 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -881,8 +881,8 @@ double findRoot(const IFunction& fnc,
 
     if((fa < 0.0 && fb < 0.0) || (fa > 0.0 && fb > 0.0) || !isFinite(fa+fb))
         return NAN;   // endpoints do not bracket root
-    if(fa==0)
-        return (fb==0) ? 0.5 * (a+b) : a;
+    if(fa==0)   // if both endpoints are roots, prefer the midpoint, provided that it is also a root
+        return (fb==0 && fnc(0.5 * (a+b)) == 0) ? 0.5 * (a+b) : a;
     if(fb==0)
         return b;
     /*  b  is the current estimate of the root,
@@ -1027,6 +1027,8 @@ double findMin(const IFunction& fnc, double xlower, double xupper, double xinit,
 {
     if(reltoler<=0)
         throw std::invalid_argument("findMin: relative tolerance must be positive");
+    if(!isFinite(xlower+xupper))
+        throw std::invalid_argument("findMin: endpoints must be finite");
     swapIfNeeded(xlower, xupper);
     double ylower = fnc(xlower);
     double yupper = fnc(xupper);
@@ -1067,7 +1069,7 @@ double findMin(const IFunction& fnc, double xlower, double xupper, double xinit,
     F.function = &functionWrapper;
     F.params = &param;
     gsl_min_fminimizer *minser = gsl_min_fminimizer_alloc(gsl_min_fminimizer_brent);
-    double xroot = NAN;
+    double xroot = xinit;
     gsl_min_fminimizer_set_with_values(minser, &F, xinit, yinit, xlower, ylower, xupper, yupper);
     iter=0;
     exceptionFlag = false;
-- 
2.43.0


From bcf2ac9d51af9e22eb8d395bc982aa75b36f8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 013/102] fix: hermiteDerivs produced NaN for equally spaced
 nodes

---
 src/math_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index fe391b4..fd75aa2 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -620,7 +620,7 @@ void hermiteDerivs(double x0, double x1, double x2, double f0, double f1, double
     der5   = (f01122- f00112)/ dx20 * 120;
     // start unwinding back
     der4   = (f01122+ f00112) * 12 - sx20 * der5 * 0.3;
-    der3   =  f0112 * 6 - sx20 * (der4 + der5 * (sx20 + dx10*dx21/sx20) * 0.2) * 0.25;
+    der3   =  f0112 * 6 - sx20 * der4 * 0.25 - der5 * (pow_2(sx20) + dx10 * dx21) * 0.05;
     der2   =  f011  + f112 - f0112 * sx20 - dx10 * dx21 * (der4 + der5 * sx20 * 0.2) / 12;
 
     // alternative expression:
-- 
2.43.0


From 8cb66b2db7c44c6f2dba38d62d210c7f37b0df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 014/102] fix: endpoint values of ScalingSemiInf and ScalingQui

---
 src/math_core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index fd75aa2..dccfbf1 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -277,7 +277,7 @@ template<> double scale(const ScalingSemiInf& scaling, double u) {
     if(scaling.u0 == 0)  // transform u to log(u) and then use the scaling on a doubly-infinite interval
         return scale(ScalingInf(), std::signbit(scaling.u0) ? -log(-u) : log(u));
     double l = log(u / scaling.u0);  // expected to be >=0, but this must be ensured by the calling code
-    return l / (1+l);
+    return l==INFINITY ? 1 : l / (1+l);
 }
 
 template<> double unscale(const ScalingSemiInf& scaling, double s, double* duds) {
@@ -382,6 +382,8 @@ template<> double scale(const ScalingQui& scaling, double u) {
     double v = (u - scaling.uleft) / (scaling.uright - scaling.uleft);
     // consider only the lower half of the symmetric transformation
     double w = v<=0.5 ? v : 1-v;
+    if(w==0)  // exactly at either boundary
+        return v;
     // initial guess, accurate to ~1%
     double s = fastcbrt( w * (sqrt(w * (1.54 * w + 0.067)) - w + 0.1) );
     // two iterations of the Halley method to reach machine accuracy
-- 
2.43.0


From 361845ed29595f5973951e973332cd3288e22a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 015/102] fix: binSearch returned the wrong bin for a value
 slightly below the last interior node

---
 src/math_core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index dccfbf1..56113a2 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -224,8 +224,8 @@ ptrdiff_t binSearch(const NumT x, const NumT arr[], size_t size)
     // first guess the likely location in the case that the input grid is equally-spaced
     ptrdiff_t index = static_cast<ptrdiff_t>( (x-arr[0]) / (arr[size-1]-arr[0]) * (size-1) );
     ptrdiff_t indhi = size-1;
-    if(index==static_cast<ptrdiff_t>(size)-1)
-        return size-2;     // special case -- we are exactly at the end of array, return the previous node
+    if(index>=static_cast<ptrdiff_t>(size)-1)
+        index = size-2;    // special case -- we are at the end of array (or very close to it)
     if(x>=arr[index]) {
         if(x<arr[index+1])
             return index;  // guess correct, exiting
-- 
2.43.0


From fae0eff23348d331539c0b36a35df47646388d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 016/102] fix: fcmp had the wrong sign when the first argument
 is zero, and ignored NaN when the other is zero

---
 src/math_core.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 56113a2..f930792 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -117,14 +117,14 @@ double functionWrapper(double x, void* param)
 
 int fcmp(double x, double y, double eps)
 {
-    if(x==0)
-        return y<-eps ? -1 : y>eps ? +1 : 0;
-    if(y==0)
-        return x<-eps ? -1 : x>eps ? +1 : 0;
     if(x!=x)
         return -2;
     if(y!=y)
         return +2;
+    if(x==0)
+        return y<-eps ? +1 : y>eps ? -1 : 0;
+    if(y==0)
+        return x<-eps ? -1 : x>eps ? +1 : 0;
     return gsl_fcmp(x, y, eps);
 }
 
-- 
2.43.0


From ab44ab49bcd5caa004ccefb22335ac14f146e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 017/102] fix: PerfectEllipsoid left the azimuthal second
 derivatives uninitialized

---
 src/potential_perfect_ellipsoid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/potential_perfect_ellipsoid.cpp b/src/potential_perfect_ellipsoid.cpp
index 4fa0d86..c16cd77 100644
--- a/src/potential_perfect_ellipsoid.cpp
+++ b/src/potential_perfect_ellipsoid.cpp
@@ -134,6 +134,7 @@ void PerfectEllipsoid::evalAxi(const coord::PosAxi& pos,
         deriv2->drho2   = Phi * d2Mdrho2_over_M   + norm * M * (2 * dlnMdrho * dGrho + d2Grho);
         deriv2->dnu2    = Phi * d2Mdnu2_over_M    + norm * M * (2 * dlnMdnu  * dGnu  + d2Gnu);
         deriv2->drhodnu = Phi * d2Mdrhodnu_over_M + norm * M * (dlnMdrho * dGnu + dlnMdnu * dGrho);
+        deriv2->dphi2   = deriv2->drhodphi = deriv2->dnudphi = 0;
     }
 }
 
-- 
2.43.0


From 9faaa296ed8a942d1ebe3359b708576b93574241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 018/102] fix: sign of the second derivatives of the
 KeplerBinary potential

---
 src/potential_analytic.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/potential_analytic.cpp b/src/potential_analytic.cpp
index 315eab2..4540b65 100644
--- a/src/potential_analytic.cpp
+++ b/src/potential_analytic.cpp
@@ -210,12 +210,12 @@ void KeplerBinary::evalCar(const coord::PosCar &pos,
             deriv->dz += z * minvr * invr2;
         }
         if(deriv2) {
-            deriv2->dx2  += minvr * invr2 * (3 * pow_2(x) * invr2 - 1);
-            deriv2->dy2  += minvr * invr2 * (3 * pow_2(y) * invr2 - 1);
-            deriv2->dz2  += minvr * invr2 * (3 * pow_2(z) * invr2 - 1);
-            deriv2->dxdy += minvr * pow_2(invr2) * 3 * x * y;
-            deriv2->dydz += minvr * pow_2(invr2) * 3 * y * z;
-            deriv2->dxdz += minvr * pow_2(invr2) * 3 * x * z;
+            deriv2->dx2  += minvr * invr2 * (1 - 3 * pow_2(x) * invr2);
+            deriv2->dy2  += minvr * invr2 * (1 - 3 * pow_2(y) * invr2);
+            deriv2->dz2  += minvr * invr2 * (1 - 3 * pow_2(z) * invr2);
+            deriv2->dxdy -= minvr * pow_2(invr2) * 3 * x * y;
+            deriv2->dydz -= minvr * pow_2(invr2) * 3 * y * z;
+            deriv2->dxdz -= minvr * pow_2(invr2) * 3 * x * z;
         }
     }
 }
-- 
2.43.0


From 47b2881401c30ef8a355141827febc520eb4fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 019/102] fix: BasisSet with lmax=0 crashed when only the
 second derivatives were requested

---
 src/potential_multipole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index dbe8d4e..4fe6091 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -2319,11 +2319,11 @@ void BasisSet::evalSph(const coord::PosSph &pos,
     if(ind.lmax == 0) {   // fast track in the spherical case
         if(potential)
             *potential = Phi_lm[0];
-        if(needGrad) {
+        if(grad) {
             grad->dr = dPhi_lm[0];
             grad->dtheta = grad->dphi = 0;
         }
-        if(needHess) {
+        if(hess) {
             hess->dr2 = d2Phi_lm[0];
             hess->dtheta2 = hess->dphi2 = hess->drdtheta = hess->drdphi = hess->dthetadphi = 0;
         }
-- 
2.43.0


From 5127621695ba92c0adb166a5ac0bd3282dcfaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 020/102] fix: spurious mixed second derivative in cartesian
 coordinates on the z axis

---
 src/coord.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coord.cpp b/src/coord.cpp
index 37014fc..260b7d3 100644
--- a/src/coord.cpp
+++ b/src/coord.cpp
@@ -708,6 +708,8 @@ HessCar toHess(const GradCyl& srcGrad, const HessCyl& srcHess,
         (srcHess.dR2   *deriv.dRdy + srcHess.dRdphi*deriv.dphidy) * deriv.dRdx +
         (srcHess.dRdphi*deriv.dRdy + srcHess.dphi2 *deriv.dphidy) * deriv.dphidx +
         srcGrad.dR*deriv2.d2Rdxdy  + srcGrad.dphi*deriv2.d2phidxdy;
+    if(deriv.dRdx==1. && deriv.dRdy==1.)  // degenerate case R=0: no mixed derivative on the symmetry axis
+        dest.dxdy = 0;
     dest.dy2 =
         (srcHess.dR2   *deriv.dRdy + srcHess.dRdphi*deriv.dphidy) * deriv.dRdy +
         (srcHess.dRdphi*deriv.dRdy + srcHess.dphi2 *deriv.dphidy) * deriv.dphidy +
-- 
2.43.0


From 9091199cc7260388b14cb84498ca05fbc8f037c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 021/102] fix: force and its derivatives in cartesian
 coordinates on the z axis for potentials evaluated in curvilinear coordinates

---
 src/potential_base.cpp | 36 ++++++++++++++++++++++++++++++++++++
 src/potential_base.h   | 16 ++++++++++++++--
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index 2598c7f..a74fa1a 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -90,6 +90,42 @@ double BasePotential::densitySph(const coord::PosSph &pos, double time) const
     return result / (4*M_PI);
 }
 
+void BasePotential::evalCarOnAxis(const double z,
+    double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const
+{
+    coord::GradCyl gradx, grady;
+    coord::HessCyl hessx, hessy, hessd, hesse;
+    evalCyl(coord::PosCyl(0, z, 0), potential, &gradx, deriv2 ? &hessx : NULL, time);
+    if(isZRotSymmetric(*this)) {  // no dependence on phi
+        if(deriv) {
+            deriv->dx = deriv->dy = 0;
+            deriv->dz = gradx.dz;
+        }
+        if(deriv2) {
+            deriv2->dx2  = deriv2->dy2  = hessx.dR2;
+            deriv2->dz2  = hessx.dz2;
+            deriv2->dxdy = deriv2->dxdz = deriv2->dydz = 0;
+        }
+        return;
+    }
+    evalCyl(coord::PosCyl(0, z, 0.5*M_PI), NULL, &grady, deriv2 ? &hessy : NULL, time);
+    if(deriv) {
+        deriv->dx = gradx.dR;
+        deriv->dy = grady.dR;
+        deriv->dz = gradx.dz;
+    }
+    if(deriv2) {
+        evalCyl(coord::PosCyl(0, z, 0.25*M_PI), NULL, NULL, &hessd, time);
+        evalCyl(coord::PosCyl(0, z, 0.75*M_PI), NULL, NULL, &hesse, time);
+        deriv2->dx2  = hessx.dR2;
+        deriv2->dy2  = hessy.dR2;
+        deriv2->dz2  = hessx.dz2;
+        deriv2->dxdy = 0.5 * (hessd.dR2 - hesse.dR2);
+        deriv2->dxdz = hessx.dRdz;
+        deriv2->dydz = hessy.dRdz;
+    }
+}
+
 // ---------- Integration of density by volume ---------- //
 
 // scaling transformation for integration over volume
diff --git a/src/potential_base.h b/src/potential_base.h
index be401ab..388cb4c 100644
--- a/src/potential_base.h
+++ b/src/potential_base.h
@@ -193,6 +193,12 @@ protected:
     virtual double densityCar(const coord::PosCar &pos, double time) const;
     virtual double densityCyl(const coord::PosCyl &pos, double time) const;
     virtual double densitySph(const coord::PosSph &pos, double time) const;
+
+    /** Evaluate the potential and its derivatives in cartesian coordinates at a point on the z axis,
+        where the transformation from curvilinear coordinates is degenerate: the derivatives by x and y
+        are obtained from the radial derivatives along several azimuthal directions (via evalCyl). */
+    void evalCarOnAxis(const double z,
+        double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const;
 };  // class BasePotential
 
 ///@}
@@ -239,7 +245,10 @@ class BasePotentialCyl: public BasePotential, coord::IScalarFunction<coord::Cyl>
     /** evaluate potential and up to two its derivatives in cartesian coordinates. */
     virtual void evalCar(const coord::PosCar &pos,
         double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const {
-        coord::evalAndConvert<coord::Cyl, coord::Car>(*this, pos, potential, deriv, deriv2, time);
+        if(pos.x==0 && pos.y==0 && pos.z!=0 && (deriv || deriv2))
+            evalCarOnAxis(pos.z, potential, deriv, deriv2, time);
+        else
+            coord::evalAndConvert<coord::Cyl, coord::Car>(*this, pos, potential, deriv, deriv2, time);
     }
 
     /** evaluate potential and up to two its derivatives in spherical coordinates. */
@@ -270,7 +279,10 @@ class BasePotentialSph: public BasePotential, coord::IScalarFunction<coord::Sph>
     /** evaluate potential and up to two its derivatives in cartesian coordinates. */
     virtual void evalCar(const coord::PosCar &pos,
         double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const {
-        coord::evalAndConvert<coord::Sph, coord::Car>(*this, pos, potential, deriv, deriv2, time);
+        if(pos.x==0 && pos.y==0 && pos.z!=0 && (deriv || deriv2))
+            evalCarOnAxis(pos.z, potential, deriv, deriv2, time);
+        else
+            coord::evalAndConvert<coord::Sph, coord::Car>(*this, pos, potential, deriv, deriv2, time);
     }
 
     /** evaluate potential and up to two its derivatives in cylindrical coordinates. */
-- 
2.43.0


From 636376be83fd0bf064d5a007365d8fe877a4a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 022/102] fix: density of non-axisymmetric potentials in
 cylindrical coordinates close to the z axis

---
 src/potential_base.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index a74fa1a..ec06811 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -58,6 +58,12 @@ double BasePotential::densityCyl(const coord::PosCyl &pos, double time) const
     if(pos.R <= fabs(pos.z) * SQRT_DBL_EPSILON) {  // close to or exactly on the z axis
         derivR_over_R = deriv2.dR2;
         deriv2phi_over_R2 = 0;
+        if(!isZRotSymmetric(*this)) {
+            // the second radial derivative depends on phi: need it in the perpendicular direction too
+            coord::HessCyl deriv2p;
+            eval(coord::PosCyl(pos.R, pos.z, pos.phi + 0.5*M_PI), NULL, (coord::GradCyl*)NULL, &deriv2p, time);
+            derivR_over_R = deriv2p.dR2;
+        }
     }
     double result = (deriv2.dR2 + derivR_over_R + deriv2.dz2 + deriv2phi_over_R2);
     if(!(fabs(result) > EPSREL_DENSITY_DER * (fabs(deriv2.dR2) + fabs(derivR_over_R) +
-- 
2.43.0


From 7addc728f743d9d9d6fa4fa15675eb180e40d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 023/102] fix: density of non-axisymmetric potentials in
 spherical coordinates on the z axis

---
 src/potential_base.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index ec06811..006c28a 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -82,7 +82,15 @@ double BasePotential::densitySph(const coord::PosSph &pos, double time) const
     double derivr_over_r = deriv.dr / pos.r;
     double derivtheta_cottheta = deriv.dtheta * costheta / sintheta;
     if(sintheta==0)
+    {
         derivtheta_cottheta = deriv2.dtheta2;
+        if(!isZRotSymmetric(*this)) {
+            // the second derivative by theta depends on phi: need it in the perpendicular direction too
+            coord::HessSph deriv2p;
+            eval(coord::PosSph(pos.r, pos.theta, pos.phi + 0.5*M_PI), NULL, (coord::GradSph*)NULL, &deriv2p, time);
+            derivtheta_cottheta = deriv2p.dtheta2;
+        }
+    }
     double angular_part = (deriv2.dtheta2 + derivtheta_cottheta + 
         (sintheta!=0 ? deriv2.dphi2 / pow_2(sintheta) : 0) ) / pow_2(pos.r);
     if(pos.r==0) {
-- 
2.43.0


From f3da63bcf9ce34f1c45841a5d2ffc52a4110ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 024/102] fix: array overrun when integrating an interpolator
 times a function over an interval not starting in the first segment

---
 src/math_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index a7e2ea4..f038196 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -793,7 +793,7 @@ double integratePiecewise(const BaseInterpolator1d& S, const IFunctionIntegral&
         double t1 = CONV ? x-xval[i+1] : std::max(x1, xval[i]);
         double t2 = CONV ? x-xval[i]   : std::min(x2, xval[i+1]);
         I0[i-i1] = F.integrate(t1, t2, 0);
-        sum += I0[i];
+        sum += I0[i-i1];
     }
 
     double result = 0;
-- 
2.43.0


From 9dbff3d1626aae7118ab7bf09070266ce09576ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 025/102] fix: BsplineInterpolator1d::eval wrote past a local
 array and returned zeros

---
 src/math_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index f038196..4c25e6d 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -1889,7 +1889,8 @@ void BsplineInterpolator1d<N>::eval(const double* x, double values[]) const
     if(ind<0 || ind>=size-1)
         return;
     double bspl[N+1];
-    bsplineValues<N>(*x, ind, &xval[0], size, bspl+ind);
+    bsplineValues<N>(*x, ind, &xval[0], size, bspl);
+    std::copy(bspl, bspl+N+1, values+ind);
 }
 
 template<int N>
-- 
2.43.0


From 13675d0581d3b4b7d45810af4b28aeaef7ed9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 026/102] fix: segments where the integral of a sign-changing
 function vanishes were ignored when integrating its product with an
 interpolator

---
 src/math_spline.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 4c25e6d..8f54bcf 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -798,7 +798,18 @@ double integratePiecewise(const BaseInterpolator1d& S, const IFunctionIntegral&
 
     double result = 0;
     for(int i=i1; i<i2; i++) {
-        if(fabs(I0[i-i1]) < fabs(sum) * DBL_EPSILON)  // ignore the contribution of this segment
+        // compute the integrals of F(t) times each monomial term on this segment
+        double t1 = CONV ? x-xval[i+1] : std::max(x1, xval[i]);
+        double t2 = CONV ? x-xval[i]   : std::min(x2, xval[i+1]);
+        double In[N+1], tmax = std::max(fabs(t1), fabs(t2));
+        bool negligible = true;
+        for(int n=0; n<=N; n++) {
+            In[n] = n==0 ? I0[i-i1] : F.integrate(t1, t2, n);
+            negligible &= fabs(In[n]) < fabs(sum) * pow(tmax, n) * DBL_EPSILON;
+        }
+        // ignore the contribution of this segment if all these integrals are negligible
+        // (even if F is not small, its integral may be zero when it changes sign)
+        if(negligible)
             continue;
         // decompose the interpolator S into N+1 monomials in t on the interval y1..y2,
         // where t=y if CONV=false or t=x-y if CONV=true.
@@ -812,13 +823,9 @@ double integratePiecewise(const BaseInterpolator1d& S, const IFunctionIntegral&
         }
         // (2) determine the coefficients c_n in front of each monomial t^n
         vandermonde<N>(t, v, c);
-        // (3) for each monomial, compute the integral  c_n F(t) t^n,
-        // reusing the cached values for n=0
-        double t1 = CONV ? x-y2 : std::max(x1, y1), t2 = CONV ? x-y1 : std::min(x2, y2);
-        for(int n=0; n<=N; n++) {
-            double In = n==0 ? I0[i-i1] : F.integrate(t1, t2, n);
-            result += In * c[n];
-        }
+        // (3) sum up the integrals  c_n F(t) t^n  for all monomials
+        for(int n=0; n<=N; n++)
+            result += In[n] * c[n];
     }
     return flipSign ? -result : result;
 }
-- 
2.43.0


From adacbdadf5b880dd92fb99c00243d0480027d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 027/102] fix: extrema of a piecewise-linear interpolator did
 not include the right endpoint at an interior grid node

---
 src/math_spline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 8f54bcf..5fef1f2 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -1110,6 +1110,8 @@ std::vector<double> findExtremaBspline(
     int i2 = binSearch(x2, &xval.front(), size);
     assert(i1 >= 0 && i2 <= (int)size-2);  // ampl.size() is size-1 (for N=0) or size (for N=1)
     result.push_back(x1);
+    if(N==1 && i2>i1 && x2==xval[i2])
+        i2--;   // the right endpoint coincides with a grid node, which is considered separately below
     for(int i=i1+1; i<=i2; i++) {
         double thisVal = ampl[i], prevVal = ampl[i-1];
         double nextVal = N==0 && i==(int)size-2 ? thisVal : ampl[i+1];
-- 
2.43.0


From 1f53aa2839975e96662154e0b840150ab9885a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 028/102] fix: wrong roots of a cubic equation with a very
 small leading coefficient

---
 src/math_core.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index f930792..0774d3a 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -694,6 +694,34 @@ int solveCubic(double a3, double a2, double a1, double a0, /*output*/ double res
 {
     if(a3==0)
         return solveQuadratic(a2, a1, a0, result);
+    const double a[4] = {a0, a1, a2, a3};
+    // if the leading coefficient is small, then one of the roots is much larger than the other two,
+    // which would be poorly determined by the general expressions below: in this case, first find
+    // the largest root, then factor it out and solve the remaining quadratic equation
+    if(fabs(a3 * a1) < 1e-4 * pow_2(a2) && fabs(pow_2(a3) * a0) < 1e-6 * fabs(pow_3(a2))) {
+        double root = -a2 / a3;
+        if(!isFinite(root))
+            return solveQuadratic(a2, a1, a0, result);
+        if(fabs(root) < 1e100)
+            root = polishRoot<3>(a, root);
+        // remaining quadratic equation: b2 x^2 + b1 x + a0 = 0
+        double b2 = -a3 * root, b1 = a1 + a0 / root;
+        int nroots = solveQuadratic(b2, b1, a0, result);
+        if(nroots==0 && pow_2(b1) >= 4*a0*b2 * (1 - 4*DBL_EPSILON))
+            result[nroots++] = -0.5 * b1 / b2;  // double root within roundoff error
+        for(int p=0; p<nroots; p++)
+            result[p] = polishRoot<3>(a, result[p]);
+        if(nroots==2)
+            swapIfNeeded(result[0], result[1]);
+        // the largest root is either to the left or to the right of the others
+        if(root < 0) {
+            for(int p=nroots; p>0; p--)
+                result[p] = result[p-1];
+            result[0] = root;
+        } else
+            result[nroots] = root;
+        return nroots+1;
+    }
     // first reduce the equation to a depressed cubic: t^3 + 3 Q t - 2 R = 0
     double inva3 = 1 / a3;
     double s = -1./3 * a2 * inva3;
@@ -725,7 +753,6 @@ int solveCubic(double a3, double a2, double a1, double a0, /*output*/ double res
     }
 
     // polish the roots
-    double a[4] = {a0, a1, a2, a3};
     for(int p=0; p<nroots; p++)
         result[p] = polishRoot<3>(a, result[p]);
 
-- 
2.43.0


From a793a6ab813ed5212f060a1a121522b9c341403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 029/102] fix: endpoint derivatives of a clamped cubic spline
 were ignored for symmetric input values

---
 src/math_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 5fef1f2..cfb0ad1 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -454,7 +454,8 @@ std::vector<double> constructCubicSpline(const std::vector<double>& xval,
 
     // check if the input nodes and values are symmetric w.r.t. grid center -
     // if yes, make the derivatives exactly antisymmetric too
-    bool symmetric = true;
+    // (not applicable if the prescribed derivatives at the endpoints are not antisymmetric)
+    bool symmetric = (!isFinite(derivLeft) && !isFinite(derivRight)) || derivLeft == -derivRight;
     for(size_t i=0; symmetric && i<(numPoints+1)/2; i++)
         symmetric &= xval[i] == -xval[numPoints-1-i] && fval[i] == fval[numPoints-1-i];
     if(symmetric) {
-- 
2.43.0


From 416d04706fadf9fa8d48b49abec475581a8a8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 030/102] fix: createNonuniformGrid did not work for two nodes

---
 src/math_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index cfb0ad1..0081d03 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -4291,7 +4291,7 @@ std::vector<double> createNonuniformGrid(unsigned int nnodes, double xmin, doubl
     }
     // solve for A:  ratio = (exp(A*nnodes)-1)/(exp(A)-1)
     A = findRoot(GridSpacingFinder(ratio, nnodes),
-        /*Amin*/ log(1-1/ratio), /*Amax*/ log(ratio)/(nnodes-2), /*accuracy*/ 1e-6);
+        /*Amin*/ log(1-1/ratio), /*Amax*/ log(ratio)/(nnodes>2 ? nnodes-2 : 1), /*accuracy*/ 1e-6);
     B = xmin / (exp(A)-1);
     for(unsigned int i=0; i<nnodes; i++)
         grid[i+indexstart] = B*(exp(A*(i+1))-1);
-- 
2.43.0


From 966a841891b1f73f36031824414cd919d31ef96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 031/102] fix: roots or extrema of interpolators located at
 grid nodes could be lost due to roundoff errors

---
 src/math_spline.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 0081d03..39af76e 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -396,7 +396,7 @@ inline bool swapIfNeeded(double& x1, double& x2)
 
 inline bool isLarger(double x1, double x2, double eps=10*DBL_EPSILON)
 {
-    return x1 >= x2 + std::max(fabs(x1), fabs(x2)) * eps;
+    return x1 > x2 + std::max(fabs(x1), fabs(x2)) * eps;
 }
 
 inline void fillVals(double* x0, double* x1, double* x2, double* x3=NULL,
@@ -970,8 +970,16 @@ std::vector<double> findRoots(
         double roots[5];
         int nroots = rootFnc(i, roots);
         assert(nroots <= 4);
-        for(int k=0; k<nroots; k++)
+        // a root coinciding with one of the segment boundaries could appear slightly outside due to
+        // roundoff errors (possibly for both adjacent segments), and should not be lost
+        double tol = 10*DBL_EPSILON * std::max(fabs(xval[i]), fabs(xval[i+1]));
+        for(int k=0; k<nroots; k++) {
             roots[k] += xval[i];
+            if(roots[k] < t1 && roots[k] >= t1-tol)
+                roots[k] = t1;
+            else if(roots[k] > t2 && roots[k] <= t2+tol)
+                roots[k] = t2;
+        }
         // in the case of searching for extrema, add the right boundary x2 of the entire interval
         // as one of the points to be considered as extrema
         if(EXTREMA && i==i2)
-- 
2.43.0


From 661195961a7d32852c022a5a58054b583017bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 032/102] fix: second derivatives of m=0 spherical harmonics
 were inaccurate close to the poles

---
 src/math_sphharm.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/math_sphharm.cpp b/src/math_sphharm.cpp
index 11ffe0c..96c5e05 100644
--- a/src/math_sphharm.cpp
+++ b/src/math_sphharm.cpp
@@ -86,6 +86,9 @@ void sphHarmArray(const unsigned int lmax, const unsigned int m, const double ta
     // m==1 and st<<1, since we need another recurrent relation for computing 2nd derivative -
     // the usual formula suffers from cancellation
     double d2Plm1 = st, d2Plm2 = 0, d2Plm = 12 * ct * st;
+    // derivative of the Legendre polynomial w.r.t. cos(theta), computed by a recurrent relation and
+    // used in the special case m==0, again to avoid cancellation in the 2nd derivative when st<<1
+    double dPl = 0;
     // threshold in sin(theta) for applying asymptotic expressions for derivatives
     const double EPS = 1e-8;
 
@@ -95,12 +98,14 @@ void sphHarmArray(const unsigned int lmax, const unsigned int m, const double ta
             Plm = (ct * (2*l-1) * Plm1 - (l+m-1) * Plm2) / (l-m);  // use recurrence for the rest
         prefact *= sqrt( (2*l+1.) / (2*l-1.) * (l-m) / (l+m) );
         resultArray[ind] = Plm * prefact;
+        if(m==0)
+            dPl = ct * dPl + l * Plm1;
         if(derivArray) {
             double dPlm = 0;
-            if(st >= EPS || (m>2 && st>0))
+            if(m==0)
+                dPlm = -st * dPl;
+            else if(st >= EPS || (m>2 && st>0))
                 dPlm = (l * ct * Plm - (l+m) * Plm1) / st;
-            else if(m==0)
-                dPlm = -l*(l+1)/2 * st * (ct>0 || l%2==1 ? 1 : -1);
             else if(m==1)
                 dPlm = -l*(l+1)/2 * (ct>0 || l%2==0 ? 1 : -1);
             else if(m==2)
@@ -108,10 +113,10 @@ void sphHarmArray(const unsigned int lmax, const unsigned int m, const double ta
             derivArray[ind] = prefact * dPlm;
         }
         if(deriv2Array!=NULL) {
-            if(st >= EPS || (m>2 && st>0))
+            if(m==0)
+                deriv2Array[ind] = (ct * dPl - l*(l+1) * Plm) * prefact;
+            else if(st >= EPS || (m>2 && st>0))
                 deriv2Array[ind] = ct * derivArray[ind] / (-st) - (l*(l+1)-pow_2(m/st)) * resultArray[ind];
-            else if(m==0)
-                deriv2Array[ind] = -l*(l+1)/2 * prefact * (ct>0 || l%2==0 ? 1 : -1);
             else if(m==1) {
                 if(l>(int)m+1) {
                     double twodPlm1 = -l*(l-1) * (ct>0 || l%2==1 ? 1 : -1);
-- 
2.43.0


From be7a8e256c00ef73f1d8b603c94c7ba51355eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 033/102] fix: wrong elements of a band matrix with a bandwidth
 comparable to its size

---
 src/math_linalg.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index d2ac69b..03051e5 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -172,6 +172,8 @@ NumT& BandMatrix<NumT>::operator() (size_t row, size_t col)
 template<typename NumT>
 size_t BandMatrix<NumT>::size() const
 {
+    if(band >= rows())
+        return rows() * rows();
     return rows() * (2*band+1) - band*(band+1);
 }
 
@@ -183,7 +185,19 @@ NumT BandMatrix<NumT>::elem(size_t index, size_t &row, size_t &col) const
         width = 2*band+1,                           // width of one normal row
         total = nRows * width - band * (band+1),    // total number of nonzero elements
         nclip = pow_2(band) + band * (band+1) / 2;  // number of elements in clipped areas
-    if(index < nclip) {
+    if(width > nRows) {
+        // some rows may be clipped on both edges
+        size_t offset = index;
+        for(row = 0; row < nRows; row++) {
+            size_t left = row > band ? row-band : 0, right = std::min(nRows-1, row+band);
+            if(offset <= right-left) {
+                col = left + offset;
+                return data[row * width + col+band-row];
+            }
+            offset -= right-left+1;
+        }
+        matrixRangeCheck(false /*index out of range*/);
+    } else if(index < nclip) {
         // first few rows have clipped left edge
         row = 0;
         col = index;
-- 
2.43.0


From b18aa5d975aff7c6ee0e8e0dd46dd50ff37f6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 034/102] fix: out-of-range access to elements of a sparse
 matrix did not throw the documented exception

---
 src/math_linalg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 03051e5..2a22b1d 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -522,6 +522,7 @@ SparseMatrix<NumT>::~SparseMatrix()
 template<typename NumT>
 NumT SparseMatrix<NumT>::at(size_t row, size_t col) const
 {
+    matrixRangeCheck(row < rows() && col < cols());
     return mat(*this).coeff(row, col);
 }
 
-- 
2.43.0


From 39946363ef59eb243453095de0bf02ca0817491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 035/102] fix: out-of-range indices in the list of matrix
 elements caused memory corruption instead of an exception

---
 src/math_linalg.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 2a22b1d..b3ca325 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -441,8 +441,13 @@ Matrix<NumT>::Matrix(size_t nRows, size_t nCols, const std::vector<Triplet>& val
     impl(new typename Type<Matrix<NumT> >::T(nRows, nCols))
 {
     mat(*this).fill(0);
-    for(size_t k=0; k<values.size(); k++)
+    for(size_t k=0; k<values.size(); k++) {
+        if(values[k].i >= nRows || values[k].j >= nCols) {
+            delete &(mat(*this));
+            throw std::out_of_range("Matrix: triplet index out of range");
+        }
         mat(*this)(values[k].i, values[k].j) = static_cast<NumT>(values[k].v);
+    }
 }
 
 template<typename NumT>
@@ -493,6 +498,11 @@ SparseMatrix<NumT>::SparseMatrix(size_t nRows, size_t nCols, const std::vector<T
     IMatrix<NumT>(nRows, nCols),
     impl(new typename Type<SparseMatrix<NumT> >::T(nRows, nCols))
 {
+    for(size_t k=0; k<values.size(); k++)
+        if(values[k].i >= nRows || values[k].j >= nCols) {
+            delete &(mat(*this));
+            throw std::out_of_range("SparseMatrix: triplet index out of range");
+        }
     mat(*this).setFromTriplets(values.begin(), values.end());
 }
 
-- 
2.43.0


From a80190b430de990ce99c5accf0c8daf4d77fef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 036/102] fix: copying an empty matrix decomposition object
 crashed

---
 src/math_linalg.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index b3ca325..e0c3cbd 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -788,7 +788,7 @@ LUDecomp::LUDecomp(const LUDecomp& src) :
 {
     if(sparse)  // copy constructor not supported by Eigen
         throw std::runtime_error("Cannot copy Sparse LUDecomp");
-    else
+    else if(src.impl)
         impl = new LUDecompImpl(*static_cast<const LUDecompImpl*>(src.impl));
 }
 
@@ -827,7 +827,7 @@ CholeskyDecomp::CholeskyDecomp(const Matrix<double>& M) :
 CholeskyDecomp::~CholeskyDecomp() { delete static_cast<const CholeskyDecompImpl*>(impl); }
 
 CholeskyDecomp::CholeskyDecomp(const CholeskyDecomp& src) :
-    impl(new CholeskyDecompImpl(*static_cast<const CholeskyDecompImpl*>(src.impl))) {}
+    impl(src.impl ? new CholeskyDecompImpl(*static_cast<const CholeskyDecompImpl*>(src.impl)) : NULL) {}
 
 Matrix<double> CholeskyDecomp::L() const { 
     if(!impl)
@@ -855,7 +855,7 @@ QRDecomp::QRDecomp(const Matrix<double>& M) :
 QRDecomp::~QRDecomp() { delete static_cast<QRDecompImpl*>(impl); }
 
 QRDecomp::QRDecomp(const QRDecomp& src) :
-    impl(new QRDecompImpl(*static_cast<const QRDecompImpl*>(src.impl))) {}
+    impl(src.impl ? new QRDecompImpl(*static_cast<const QRDecompImpl*>(src.impl)) : NULL) {}
 
 void QRDecomp::QR(Matrix<double>& Q, Matrix<double>& R) const
 {
@@ -888,7 +888,7 @@ SVDecomp::SVDecomp(const Matrix<double>& M) :
 SVDecomp::~SVDecomp() { delete static_cast<SVDecompImpl*>(impl); }
 
 SVDecomp::SVDecomp(const SVDecomp& src) :
-    impl(new SVDecompImpl(*static_cast<const SVDecompImpl*>(src.impl))) {}
+    impl(src.impl ? new SVDecompImpl(*static_cast<const SVDecompImpl*>(src.impl)) : NULL) {}
 
 Matrix<double> SVDecomp::U() const { 
     if(!impl)
@@ -1614,7 +1614,7 @@ QRDecomp::QRDecomp(const Matrix<double>& M) :
 QRDecomp::~QRDecomp() { delete static_cast<QRDecompImpl*>(impl); }
 
 QRDecomp::QRDecomp(const QRDecomp& src) :
-    impl(new QRDecompImpl(*static_cast<const QRDecompImpl*>(src.impl))) {}
+    impl(src.impl ? new QRDecompImpl(*static_cast<const QRDecompImpl*>(src.impl)) : NULL) {}
 
 void QRDecomp::QR(Matrix<double>& Q, Matrix<double>& R) const
 {
@@ -1678,7 +1678,7 @@ SVDecomp::SVDecomp(const Matrix<double>& M) :
 SVDecomp::~SVDecomp() { delete static_cast<SVDecompImpl*>(impl); }
 
 SVDecomp::SVDecomp(const SVDecomp& src) :
-    impl(new SVDecompImpl(*static_cast<const SVDecompImpl*>(src.impl))) {}
+    impl(src.impl ? new SVDecompImpl(*static_cast<const SVDecompImpl*>(src.impl)) : NULL) {}
 
 Matrix<double> SVDecomp::U() const { return static_cast<const SVDecompImpl*>(impl)->U; }
 
-- 
2.43.0


From 302aef3f255a5e9098185b354b544cb1e2d4bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 037/102] fix: report failed or incomplete writes of a text
 snapshot that occur when flushing the file

---
 src/particles_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index b1d4d4a..3d16c53 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -88,6 +88,7 @@ void writeSnapshotText(
     strm << formatHeader<ParticleT>();
     for(size_t indx=0; indx<points.size(); indx++)
         strm << formatParticle<ParticleT>(points[indx], conv);
+    strm.close();   // flush the remaining data to disk before checking for errors
     if(!strm.good())
         throw std::runtime_error("writeSnapshotText: cannot write to file "+fileName);
 }
-- 
2.43.0


From ad464e2504c439b64f11aa639086fb92bae5a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 038/102] fix: report failed or incomplete writes of a NEMO
 snapshot that occur when flushing the file

---
 src/particles_io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index 3d16c53..a0aecb4 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -213,6 +213,9 @@ public:
 
     /// check if any i/o errors occured
     bool ok() const { return snap.good(); }
+
+    /// flush the remaining data to disk and close the file; return false if this failed
+    bool close() { snap.close(); return snap.good(); }
 };
 
 template<> char NemoSnapshotWriter::typeLetter<int>()   { return 'i'; }
@@ -304,7 +307,7 @@ void writeSnapshotNEMO(
         snapshotWriter.writeParticles(points, conv);
         snapshotWriter.endLevel();
         snapshotWriter.endLevel();
-        result = snapshotWriter.ok();
+        result = snapshotWriter.close();
     }
     if(!result)
         throw std::runtime_error("writeSnapshotNEMO: cannot write to file "+fileName);
-- 
2.43.0


From 7647eaf0a0f69d9e28de660f7a61b168f36f3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 039/102] fix: turn all lines of a multi-line header of a text
 snapshot into comments

---
 src/particles_io.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index a0aecb4..73b6811 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -82,7 +82,12 @@ void writeSnapshotText(
     if(!strm) 
         throw std::runtime_error("writeSnapshotText: cannot write to file "+fileName);
     if(!header.empty())
-        strm << "#" << header << "\n";
+    {
+        strm << "#";
+        for(size_t i=0; i<header.size(); i++)  // each line of a multi-line header is a comment
+            strm << header[i] << (header[i]=='\n' ? "#" : "");
+        strm << "\n";
+    }
     if(isFinite(time))
         strm << "#time: " << time / conv.timeUnit << "\n";
     strm << formatHeader<ParticleT>();
-- 
2.43.0


From 7449314011aa6db728146756e5cb9ad078fee0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 040/102] fix: do not use uninitialized memory to determine the
 format of an empty snapshot file

---
 src/particles_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index 73b6811..d4675f2 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -444,7 +444,7 @@ ParticleArrayAux readSnapshot(
     std::ifstream strm(fileName.c_str(), std::ios::in);
     if(!strm)
         throw std::runtime_error("readSnapshot: cannot read from "+fileName);
-    char buffer[8];
+    char buffer[8] = {0};
     strm.read(buffer, 8);
     strm.close();
     if( (buffer[0]==-110 &&  // NEMO signature: open block of a particular type
-- 
2.43.0


From c3fd237c4b4ee68f259469b26bae33028682e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 041/102] fix: do not lose the last particle of a text snapshot
 without a final newline

---
 src/particles_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index d4675f2..5b08c69 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -109,7 +109,7 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
     ParticleArrayAux points;
     std::string buffer;
     std::vector<std::string> fields;
-    while(std::getline(strm, buffer) && !strm.eof())
+    while(std::getline(strm, buffer))
     {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
-- 
2.43.0


From 91329d6ca581518692163f83f4168c14291f2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 042/102] fix: report read errors in a text snapshot instead of
 returning a part of the particles

---
 src/particles_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index 5b08c69..7491d4e 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -133,6 +133,8 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
             stellarRadius),
             particleMass);
     }
+    if(strm.bad())
+        throw std::runtime_error("readSnapshotText: error while reading from file "+fileName);
     return points;
 }
 
-- 
2.43.0


From cfc596dc7aebd8a88a238d1475dc845296348ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 043/102] fix: raise an error when a line in a text snapshot is
 malformed or incomplete, instead of skipping it or using wrong values

---
 src/particles_io.cpp | 48 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index 7491d4e..f7941f0 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -4,6 +4,7 @@
 #endif
 #include <fstream>
 #include <cassert>
+#include <cstdlib>
 #include <stdexcept>
 #include "utils.h"
 
@@ -98,6 +99,14 @@ void writeSnapshotText(
         throw std::runtime_error("writeSnapshotText: cannot write to file "+fileName);
 }
 
+/// parse a string that should contain exactly one floating-point number; return false if it does not
+inline bool parseNumber(const std::string& str, double& value)
+{
+    char* end;
+    value = strtod(str.c_str(), &end);
+    return end != str.c_str() && *end == '\0';
+}
+
 ParticleArrayAux readSnapshotText(const std::string& fileName, const units::ExternalUnits& conv)
 {
     std::ifstream strm(fileName.c_str(), std::ios::in);
@@ -109,26 +118,41 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
     ParticleArrayAux points;
     std::string buffer;
     std::vector<std::string> fields;
+    size_t numColumns = 0;  // number of columns in the data (same for all lines)
     while(std::getline(strm, buffer))
     {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
-        fields = utils::splitString(buffer, "#;, \t");
-        size_t numFields = fields.size();
-        if(numFields < 4 ||
+        // the rest of the line after the # symbol is a comment; \r may be present in DOS-style files
+        fields = utils::splitString(buffer.substr(0, buffer.find('#')), ";, \t\r");
+        if(fields.empty())
+            continue;
+        // a line that does not start with a number is considered to be a header and is ignored
+        double values[9] = {0};
+        if(!parseNumber(fields[0], values[0]) &&
             !((fields[0][0]>='0' && fields[0][0]<='9') || fields[0][0]=='-' || fields[0][0]=='+'))
             continue;
+        // all other lines must have the same number of columns and contain valid numbers
+        size_t numFields = fields.size();
+        if(numColumns == 0)
+            numColumns = numFields;
+        bool valid = numFields >= 4 && numFields == numColumns;
+        for(size_t i=0; valid && i<9 && i<numFields; i++)
+            valid &= parseNumber(fields[i], values[i]);
+        if(!valid)
+            throw std::runtime_error(
+                "readSnapshotText: invalid line in file "+fileName+": \""+buffer+"\"");
         bool haveVel = numFields >= 7;
-        double particleMass = utils::toDouble(fields[haveVel ? 6 : 3])  * conv.massUnit;
-        double stellarMass  = numFields>=8 ? utils::toDouble(fields[7]) * conv.massUnit : particleMass;
-        double stellarRadius= numFields>=9 ? utils::toDouble(fields[8]) * conv.lengthUnit : 0;
+        double particleMass = values[haveVel ? 6 : 3] * conv.massUnit;
+        double stellarMass  = numFields>=8 ? values[7] * conv.massUnit : particleMass;
+        double stellarRadius= numFields>=9 ? values[8] * conv.lengthUnit : 0;
         points.add(ParticleAux(coord::PosVelCar(
-            utils::toDouble(fields[0]) * conv.lengthUnit,
-            utils::toDouble(fields[1]) * conv.lengthUnit,
-            utils::toDouble(fields[2]) * conv.lengthUnit,
-            haveVel ? utils::toDouble(fields[3]) * conv.velocityUnit : 0,
-            haveVel ? utils::toDouble(fields[4]) * conv.velocityUnit : 0,
-            haveVel ? utils::toDouble(fields[5]) * conv.velocityUnit : 0),
+            values[0] * conv.lengthUnit,
+            values[1] * conv.lengthUnit,
+            values[2] * conv.lengthUnit,
+            haveVel ? values[3] * conv.velocityUnit : 0,
+            haveVel ? values[4] * conv.velocityUnit : 0,
+            haveVel ? values[5] * conv.velocityUnit : 0),
             stellarMass,
             stellarRadius),
             particleMass);
-- 
2.43.0


From 8a94a09e304eb01733e4302f4474f8e5e37dea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 044/102] fix: apply modifiers to a density loaded from another
 INI file

---
 src/potential_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 8fa40da..e85966b 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1607,7 +1607,9 @@ PtrDensity createDensity(
     if(!param.file.empty()) {
         if(param.potentialType != PT_UNKNOWN)
             throw std::invalid_argument("createDensity: cannot provide both type and file");
-        return readDensity(param.file, converter);
+        PtrDensity dens = readDensity(param.file, converter);
+        applyModifiers(dens, param);
+        return dens;
     }
 
     PtrDensity result;
-- 
2.43.0


From 250e0328d755a60b9b9e4e73348fe3d24e87c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 045/102] fix: do not lose the last line of a file with a
 time-dependent modifier if it has no final newline

---
 src/potential_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index e85966b..944b17a 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1138,7 +1138,7 @@ static void readTimeDependentArray(
     if(!strm)
         throw std::runtime_error(errorTimeDependentArray(K, str));
     std::string buffer;
-    while(std::getline(strm, buffer) && !strm.eof()) {
+    while(std::getline(strm, buffer)) {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
         fields = utils::splitString(buffer, ";, \t");
-- 
2.43.0


From e696bb11e25d4325bb608c7f586c952e8da98325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 046/102] fix: report a failure to write a density or potential
 file if the data could not be flushed to disk

---
 src/potential_factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 944b17a..4cf3de7 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1974,6 +1974,7 @@ bool writeDensity(const std::string& fileName, const BaseDensity& dens,
     int counter = 0;
     if(strm.good())
         writeAnyDensityOrPotential(strm, &dens, converter, counter);
+    strm.close();  // flush the remaining data and check that it was written successfully
     return strm.good();
 }
 
-- 
2.43.0


From 8a1f255feae36c2178bea6ba474f6999c62976b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 047/102] fix: do not drop m=1 terms in spherical-harmonic
 expansions with lmax=2 and reflection symmetry about z and y

---
 src/potential_multipole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 4fe6091..8a46e55 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -697,7 +697,8 @@ void sphHarmTransformInverseDeriv(
     const double C_lm[], const double dC_lm[], const double d2C_lm[],
     double *val, coord::GradSph *grad, coord::HessSph *hess)
 {
-    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2) {  // an optimized special case
+    // an optimized special case (not applicable if there are nonzero terms with m=1)
+    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2 && ind.lmin(1)>ind.lmax) {
         sphHarmTransformInverseDeriv2(ind, pos, C_lm, dC_lm, d2C_lm, val, grad, hess);
         return;
     }
-- 
2.43.0


From da54e60ad15c3cf30260b2b202821ab0c062deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 048/102] fix: allow to export a BasisSet potential with nmax=0

---
 src/potential_factory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 4cf3de7..88825e7 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -869,7 +869,10 @@ void writePotentialBasisSet(std::ostream& strm, const BasisSet& pot,
     strm << "r0="   << utils::toString(r0, 15) << "\n";
     strm << "symmetry=" << getSymmetryNameByType(pot.symmetry()) << "\n";
     strm << "Coefficients\n#Phi\n";
-    writeSphericalHarmonics(strm, math::createUniformGrid(coefs[0].size(), 0, coefs[0].size()-1), coefs);
+    std::vector<double> indices(coefs[0].size());  // consecutive indices of radial functions (possibly only one)
+    for(unsigned int n=0; n<indices.size(); n++)
+        indices[n] = n;
+    writeSphericalHarmonics(strm, indices, coefs);
 }
 
 void writePotentialMultipole(std::ostream& strm, const Multipole& pot,
-- 
2.43.0


From 4737786e5281358fe4717e1c8200172d2e0ddd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 049/102] fix: do not access non-existing derivatives when
 constructing CylSpline from a density without derivatives

---
 src/potential_cylspline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 7a4ae77..88cad34 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -986,7 +986,11 @@ shared_ptr<const CylSpline> CylSpline::create(
 
     std::vector< math::Matrix<double> > coefs[3]; // Phi, dPhidR, dPhidz
     computePotentialCoefsFromDensity(*dens, mmax, gridR, gridz, useDerivs, /*output*/coefs);
-    restrictFourierCoefs<3>(mmax, symExp, coefs, gridz);  // enforce z-reflection symmetry if needed
+    // enforce z-reflection symmetry if needed
+    if(useDerivs)
+        restrictFourierCoefs<3>(mmax, symExp, coefs, gridz);
+    else  // the arrays of derivatives are empty
+        restrictFourierCoefs<1>(mmax, symExp, coefs, gridz);
     return shared_ptr<const CylSpline>(new CylSpline(gridR, gridz, coefs[0], coefs[1], coefs[2]));
 }
 
-- 
2.43.0


From 16c7d362a644927d74167824c1bfb9e033b106df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 050/102] fix: correct derivatives of a composite potential in
 cartesian coordinates on the z axis

---
 src/potential_composite.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/potential_composite.cpp b/src/potential_composite.cpp
index 6a058f0..a32f407 100644
--- a/src/potential_composite.cpp
+++ b/src/potential_composite.cpp
@@ -308,6 +308,14 @@ Composite::Composite(const std::vector<PtrPotential>& _components) :
 void Composite::evalCar(const coord::PosCar &pos,
     double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const
 {
+    if(pos.x==0 && pos.y==0 && (deriv || deriv2)) {
+        // the transformation from curvilinear coordinates is degenerate on the z axis,
+        // so evaluate all components directly in cartesian coordinates (they treat this case separately)
+        evalComponents<coord::Cyl, coord::Sph>(components,
+            std::vector<char>(components.size(), CoordT<coord::Car>::id),
+            pos, potential, deriv, deriv2, time);
+        return;
+    }
     evalComponents<coord::Cyl, coord::Sph>(
         components, componentTypes, pos, potential, deriv, deriv2, time);
 }
-- 
2.43.0


From 0cedf2c64e913b50ddfa07c43bc84057d78418f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 051/102] fix: keep non-spherical terms in the power-law
 extrapolation of a CylSpline potential

---
 src/potential_multipole.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 8a46e55..06e73c2 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -109,6 +109,18 @@ inline math::SphHarmIndices getIndicesFromCoefs(
     return getIndicesFromCoefs<2>(A);
 }
 
+/// same for two arrays of amplitudes (one value for each term): a term is present if either is non-zero
+inline math::SphHarmIndices getIndicesFromCoefs(
+    const std::vector<double> &C1, const std::vector<double> &C2)
+{
+    if(C1.size() != C2.size())
+        throw std::invalid_argument("Error in SphHarmIndices: invalid size of input arrays");
+    std::vector<double> D(C1.size());
+    for(unsigned int c=0; c<D.size(); c++)
+        D[c] = fabs(C1[c]) + fabs(C2[c]);
+    return math::getIndicesFromCoefs(D);
+}
+
 // resize the array(s) of coefficients down to the requested order and eliminate all-zero terms.
 // \tparam  K  is the number of arrays (one for density, two for potential and its radial derivative);
 // \param[in]  lmax  is the maximum order of angular expansion in cos(theta);
@@ -1458,7 +1470,7 @@ PowerLawMultipole::PowerLawMultipole(double _r0, bool _inner,
     const std::vector<double>& _S,
     const std::vector<double>& _U,
     const std::vector<double>& _W) :
-    ind(math::getIndicesFromCoefs(_U)), r0sq(_r0*_r0), inner(_inner), S(_S), U(_U), W(_W) 
+    ind(getIndicesFromCoefs(_U, _W)), r0sq(_r0*_r0), inner(_inner), S(_S), U(_U), W(_W) 
 {
     // safeguard against errors in slope determination -
     // ensure that all harmonics with l>0 do not asymptotically overtake the principal one (l=0).
-- 
2.43.0


From bd89fef7e3f989df83afde9862a2ff5e7de21dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 052/102] fix: compute Rcirc, Tcirc, Rmax for many points in
 potentials that cannot be interpolated instead of aborting

---
 src/interface_python.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 7bd04ee..ad70981 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -3077,6 +3077,23 @@ PyObject* Potential_projectedEval(PyObject* self, PyObject* args, PyObject* name
     return FncPotentialProjectedEval(args, namedArgs, *((PotentialObject*)self)->pot).run(/*chunk*/64);
 }
 
+/// construct a potential interpolator if the number of points is large enough to justify its cost;
+/// return NULL if this is not the case, or if this potential is not suitable for the interpolator
+shared_ptr<const potential::Interpolator> createPotentialInterpolator(
+    npy_intp numPoints, const potential::BasePotential& pot)
+{
+    if(numPoints >= 256) {
+        try{
+            return shared_ptr<const potential::Interpolator>(new potential::Interpolator(pot));
+        }
+        catch(std::exception& e) {
+            FILTERMSG(utils::VL_VERBOSE, "Potential", std::string(
+                "Cannot use interpolation, falling back to slower computation: ") + e.what());
+        }
+    }
+    return shared_ptr<const potential::Interpolator>();
+}
+
 /// compute the radius of a circular orbit as a function of energy or Lz;
 /// optimization: if the input array is greater than a certain threshold,
 /// construct a potential interpolator for faster root-finding, augmenting it with a polishing step
@@ -3089,7 +3106,7 @@ public:
     shared_ptr<const potential::Interpolator> interp;
     FncPotentialRcirc(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
-        interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        interp(createPotentialInterpolator(numPoints, pot))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
@@ -3156,7 +3173,7 @@ public:
     FncPotentialTcirc(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length - two choices*/ 1, 6, /*custom error message*/
             "Input must be a 1d array of energy values or a 2d Nx6 array of position/velocity values"),
-        pot(_pot), axipot(pot), interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        pot(_pot), axipot(pot), interp(createPotentialInterpolator(numPoints, pot))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
@@ -3199,7 +3216,7 @@ public:
     shared_ptr<const potential::Interpolator> interp;
     FncPotentialRmax(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
-        interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        interp(createPotentialInterpolator(numPoints, pot))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
-- 
2.43.0


From c2afebc3a0634062134a6688636abcadbd8f5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 053/102] fix: store DF derivatives at the correct place in the
 output array for more than 1024 points

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index ad70981..3f091f3 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -4167,7 +4167,7 @@ public:
         for(npy_intp i=0; i<npoints; i++)
             act[i] = convertActions(&inputBuffer[(i + indexStart) * 3]);
         df.evalmany(npoints, act, /*separate*/false, &outputBuffer[0][indexStart],
-            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart]) : NULL);
+            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart*3]) : NULL);
         for(npy_intp indexPoint=indexStart; indexPoint<indexEnd; indexPoint++)
             outputBuffer[0][indexPoint] /=  // DF dimension: M L^-3 V^-3
                 conv->massUnit / pow_3(conv->velocityUnit * conv->lengthUnit);
-- 
2.43.0


From 914bf2e45cbc8b21b0b6d73b53b22a971718847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 054/102] fix: convolution of a spline with a zero-width kernel
 at a single point gives the same result as for an array

---
 src/interface_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 3f091f3..c920fc4 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6768,7 +6768,9 @@ PyObject* Spline_value(SplineObject* self, PyObject* args, PyObject* namedArgs)
             double sigma = PyFloat_AsDouble(conv_obj);
             if(PyErr_Occurred())
                 return NULL;
-            return PyFloat_FromDouble(self->spl->convolve(x, math::Gaussian(sigma)));
+            return PyFloat_FromDouble(sigma==0 ?
+                (x>=xmin && x<=xmax ? self->spl->value(x) : 0) :
+                self->spl->convolve(x, math::Gaussian(sigma)));
         }
         if(extrapolate_obj!=NULL && (x<xmin || x>xmax)) {
             Py_INCREF(extrapolate_obj);
-- 
2.43.0


From 330af893db2b3a729aff5389abb9dd4b2659be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 055/102] fix: accept an empty array of times or angles for an
 empty array of points

---
 src/interface_python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index c920fc4..0389989 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -681,6 +681,8 @@ public:
                     result.resize(size);
                     for(npy_intp i=0; i<size; i++)
                         result[i] = pyArrayElem<double>(arr, i);
+                    if(size==0)  // correct empty input: no points (result should not be empty)
+                        result.push_back(defaultValue);
                 }
             }
             Py_XDECREF(arr);
-- 
2.43.0


From 1a8515d7b63738213fae66ad20439e24cda07de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 056/102] fix: continue orbit integration in a subsequent run()
 from the end time of the previous one

---
 src/orbit.cpp | 8 +++++++-
 src/orbit.h   | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index 122d984..d658404 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -51,7 +51,10 @@ bool RuntimeTrajectory::processTimestep(const double tbegin, const double tend)
 coord::PosVelCar BaseOrbitIntegrator::run(const double totalTime)
 {
     if(totalTime==0 || !isFinite(totalTime))  // don't bother
-        return getSol(solver->getTime());
+        return getSol(lastTime == lastTime ? lastTime : solver->getTime());
+    // if continuing the integration after a previous run, start precisely from its end time
+    if(lastTime == lastTime && lastTime != solver->getTime())
+        init(getSol(lastTime), lastTime);
     size_t numSteps = 0;
     double sign = totalTime>0 ? +1 : -1;   // integrate forward (+1) or backward (-1) in time
     double currentTime = solver->getTime(), endTime = totalTime + currentTime;
@@ -64,6 +67,7 @@ coord::PosVelCar BaseOrbitIntegrator::run(const double totalTime)
         }
         double prevTime = currentTime;
         currentTime = fmin(solver->getTime()*sign, endTime*sign) * sign;
+        lastTime = currentTime;  // may be reset if any of the runtime functions calls init()
         bool contin = true;
         for(size_t i=0; contin && i<fncs.size(); i++)
             contin &= fncs[i]->processTimestep(prevTime, currentTime);
@@ -79,6 +83,7 @@ void OrbitIntegrator<CoordT>::init(const coord::PosVelCar& ic, double time)
     double posvel[6];
     coord::toPosVel<coord::Car, CoordT>(ic).unpack_to(posvel);
     solver->init(posvel, time);
+    lastTime = NAN;
 }
 
 // a different implementation for the cartesian case, where the integration is performed
@@ -100,6 +105,7 @@ void OrbitIntegrator<coord::Car>::init(const coord::PosVelCar& ic, double time)
     else
         ic.unpack_to(posvel);
     solver->init(posvel, time);
+    lastTime = NAN;
 }
 
 template<>
diff --git a/src/orbit.h b/src/orbit.h
index c50a444..aaf76cb 100644
--- a/src/orbit.h
+++ b/src/orbit.h
@@ -159,6 +159,9 @@ class BaseOrbitIntegrator: public math::IOdeSystemHermite {
     const size_t maxNumSteps;        ///< maximum allowed number of integration steps
     std::vector<PtrRuntimeFnc> fncs; ///< list of runtime functions attached to the given orbit
 protected:
+    /// end time of the previous run (the solver itself usually steps beyond it), or NAN if init() was called since
+    double lastTime;
+
     shared_ptr<math::BaseOdeSolver> solver; ///< the actual ODE integrator
 public:
     /// gravitational potential in which the orbit is computed (accessible to runtime functions)
@@ -171,7 +174,7 @@ public:
     BaseOrbitIntegrator(const potential::BasePotential& _potential, double _Omega,
         const OrbitIntParams& params)
     :
-        maxNumSteps(params.maxNumSteps),
+        maxNumSteps(params.maxNumSteps), lastTime(NAN),
         potential(_potential), Omega(_Omega)
     {
         if(params.useHermite)
-- 
2.43.0


From 027e2b07636434f06c3e6ba2aeb2bf75c849e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 057/102] fix: correct the highest-order term in the
 interpolated derivative of the 4-th order Gauss-Legendre ODE solver

---
 src/math_ode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_ode.cpp b/src/math_ode.cpp
index bc275c7..3bb6254 100644
--- a/src/math_ode.cpp
+++ b/src/math_ode.cpp
@@ -730,7 +730,7 @@ double Ode2SolverGL4<NDIM>::getSol(double t, unsigned int i) const
     if(i == d)  // d-th component of x(t)
         return (*x) + T * ((*xdot) + T * ((*p) + T * ((*q) + T * ((*r) + T * (*s)))));
     else        // d-th component of dx(t)/dt
-        return (*xdot) + T * (2 * (*p) + T * (3 * (*q) + T * 4 * ((*r) + T * 5 * (*s))));
+        return (*xdot) + T * (2 * (*p) + T * (3 * (*q) + T * (4 * (*r) + T * 5 * (*s))));
 }
 
 template<int NDIM>
-- 
2.43.0


From 0ab658f499b51a0aef86ec7a98cf6aceee13e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 058/102] fix: make the interpolated solution of the Hermite
 ODE solver continuous at the end of the timestep and valid after
 initialization

---
 src/math_ode.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math_ode.cpp b/src/math_ode.cpp
index 3bb6254..7adf8c7 100644
--- a/src/math_ode.cpp
+++ b/src/math_ode.cpp
@@ -482,12 +482,18 @@ double OdeSolverHermite::doStep(double dt)
 
 double OdeSolverHermite::getSol(double t, unsigned int ind) const
 {
+    if(ind >= (unsigned int)NDIM)
+        throw std::out_of_range("OdeSolverHermite: element index out of range");
+    if(t == time)  // return the current state, which is also valid before the first step is taken
+        return state[ind + NDIM*2];
     size_t numVar = NDIM/2;  // dimension of either coordinate or momentum vector
     size_t i = ind % numVar;
     double deltat = t - timePrev;
     if(ind < numVar) {  // interpolate position
+        // the coefficient of the last term (deltat/6 instead of deltat/5) is chosen in such a way that
+        // the interpolant matches the corrected position at the end of the timestep
         return state[i+0*numVar] + deltat * (state[i+numVar] + deltat/2*(state[i+2*numVar] +
-            deltat/3*(state[i+3*numVar] + deltat/4*(state[i+8*numVar] + deltat/5*state[i+9*numVar]))));
+            deltat/3*(state[i+3*numVar] + deltat/4*(state[i+8*numVar] + deltat/6*state[i+9*numVar]))));
     } else {  // interpolate velocity
         return state[i+1*numVar] + deltat*(state[i+2*numVar] + deltat/2*(state[i+3*numVar] +
             deltat/3*(state[i+8*numVar] + deltat/4*state[i+9*numVar])));
-- 
2.43.0


From 9299d05dfd4cabe8a712a4f1cc0e899419450961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 059/102] fix: apply the same step rejection criterion in
 backward integration by the Hermite ODE solver

---
 src/math_ode.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math_ode.cpp b/src/math_ode.cpp
index 7adf8c7..f250690 100644
--- a/src/math_ode.cpp
+++ b/src/math_ode.cpp
@@ -439,12 +439,11 @@ double OdeSolverHermite::doStep(double dt)
     odeSystem.eval(time, oldpos, /*output*/ oldacc, oldjrk);
     // use the previously estimated timestep if no overriding value is provided
     double sign = std::signbit(dt) ? -1 : +1;
-    double timeStep = dt!=0 ? dt : nextTimeStep*sign;
-    nextTimeStep = timeStep;
+    nextTimeStep = dt!=0 ? fabs(dt) : nextTimeStep;
     int nreject = dt==0 ? 0 : 999;  // if dt is provided, do not attempt to reduce it
 
     do {
-        dt = nextTimeStep;
+        dt = nextTimeStep * sign;
         // predict the coordinates/velocities at the end of timestep
         for(int i=0; i<numVar; i++) {
             newpos[i] = oldpos[i] + dt * (oldvel[i] + 0.5 * dt * (oldacc[i] + 1./3 * dt * oldjrk[i]));
@@ -465,7 +464,7 @@ double OdeSolverHermite::doStep(double dt)
         // compute new timestep using Aarseth's magic criterion
         nextTimeStep = accRel * sqrt((sqrt(sumasq * sumssq) + sumjsq) / (sqrt(sumjsq * sumcsq) + sumssq));
         // repeat if new estimate of timestep was substantially less than the actually used one
-    } while(nextTimeStep < dt * 0.5 && ++nreject < 3);
+    } while(nextTimeStep < fabs(dt) * 0.5 && ++nreject < 3);
 
     // compute corrected positions/velocities at the end of timestep
     for(int i=0; i<numVar; i++) {
-- 
2.43.0


From 82df304c8b4695def961131ed4837f24e1fc6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 060/102] fix: support fixed variables and infinite lower
 limits in linearOptimizationSolve

---
 src/math_optimization.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index f12a807..3890dec 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -210,10 +210,12 @@ std::vector<double> linearOptimizationSolve(const IMatrix<NumT>& A,
         glp_set_row_bnds(problem, c+1, GLP_FX, rhs[c], rhs[c]);
     for(size_t v=0; v<numVariables; v++) {
         double xminval = xmin.empty()? 0 : xmin[v];
-        if(!xmax.empty() && isFinite(xmax[v]))
-            glp_set_col_bnds(problem, v+1, GLP_DB, xminval, xmax[v]);
-        else
-            glp_set_col_bnds(problem, v+1, GLP_LO, xminval, 0 /*ignored*/);
+        double xmaxval = xmax.empty()? INFINITY : xmax[v];
+        glp_set_col_bnds(problem, v+1,
+            xminval == xmaxval  ?  GLP_FX :   // fixed variable
+            xminval ==-INFINITY ? (xmaxval == INFINITY ? GLP_FR : GLP_UP) :  // no lower limit
+            xmaxval == INFINITY ?  GLP_LO : GLP_DB,
+            xminval, xmaxval);
         if(!L.empty() && L[v]!=0)
             glp_set_obj_coef(problem, v+1, L[v]);
     }
-- 
2.43.0


From b9e53c63d1bf5ef94d8d91aeff7068cc26d648d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 061/102] fix: treat zero constraint penalty in
 linearOptimizationSolveApprox as a constraint that may be violated at no cost

---
 src/math_optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index 3890dec..aa731fa 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -779,7 +779,7 @@ std::vector<double> linearOptimizationSolveApprox(
         if(!(consPenaltyLin[c]>=0))
             throw std::invalid_argument(
                 "linearOptimizationSolveApprox: constraint penalties must be non-negative");
-        if(consPenaltyLin[c]>0 && consPenaltyLin[c]<INFINITY) {
+        if(consPenaltyLin[c]<INFINITY) {
             rowAug.push_back(c);
             rowAug.push_back(c);
             valAug.push_back(1);
-- 
2.43.0


From 24d23e50667b63a7b0ec87e3d1bd7d90b47a4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 062/102] fix: accept zero penalties and reject negative ones
 in quadraticOptimizationSolveApprox, as documented

---
 src/math_optimization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index aa731fa..a882450 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -853,15 +853,15 @@ std::vector<double> quadraticOptimizationSolveApprox(
             xminAug.push_back(0);
             xminAug.push_back(0);
             havePenLin = true;
-        } else if(penQuad>0) {
-            // if only quadratic penalty is provided, add one slack variable
+        } else if(penLin>=0 && penQuad>=0) {
+            // if only quadratic penalty is provided (or both are zero), add one slack variable
             // without any inequality constraints (i.e. -infinity)
             rowAug.push_back(c);
             valAug.push_back(1);
             Laug.push_back(0);
             Qaug.push_back(penQuad);
             xminAug.push_back(-INFINITY);
-        } else if(!(penLin>0) || !(penQuad>0))
+        } else
             throw std::invalid_argument("quadraticOptimizationSolveApprox: "
                 "constraint penalties must be nonnegative (possibly infinite)");
     }
-- 
2.43.0


From 3be195d34435195985c0639e2d2bff6b659bad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 063/102] fix: remove the trailing blanks from strings passed
 from Fortran

---
 src/interface_fortran.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interface_fortran.cpp b/src/interface_fortran.cpp
index 107d4fb..cd54a2b 100644
--- a/src/interface_fortran.cpp
+++ b/src/interface_fortran.cpp
@@ -102,9 +102,10 @@ private:
 /// convert FORTRAN string to C++ string
 static std::string stdstr(char* fortranString, long len)
 {
-    std::string str(len, '\0');
-    memcpy(&(str[0]), fortranString, len);
-    return str;
+    // strings of fixed length are padded with blanks
+    while(len>0 && fortranString[len-1] == ' ')
+        len--;
+    return std::string(fortranString, len);
 }
 
 /// *smart* pointers that should exist until the end of the program
-- 
2.43.0


From e84254bd1c8ff40b6ec7d7365145779ba412f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 064/102] fix: compute second derivatives of a potential
 defined by a Fortran routine

---
 src/interface_fortran.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/interface_fortran.cpp b/src/interface_fortran.cpp
index cd54a2b..b14ec82 100644
--- a/src/interface_fortran.cpp
+++ b/src/interface_fortran.cpp
@@ -21,6 +21,7 @@ should be stored in a placeholder variable of type CHAR*8, which is passed
 as the first argument to all functions in this module.
 See the FORTRAN example for more details.
 */
+#include <cmath>
 #include <cstring>
 #include "potential_factory.h"
 #include "utils_config.h"
@@ -84,9 +85,10 @@ private:
     virtual std::string name() const { return "PotentialWrapper"; };
     virtual coord::SymmetryType symmetry() const { return sym; }
     virtual void evalCar(const coord::PosCar &pos,
-        double* potential, coord::GradCar* deriv, coord::HessCar*, double /*time*/) const
+        double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double /*time*/) const
     {
-        double x[3] = {pos.x, pos.y, pos.z};
+        const double x0[3] = {pos.x, pos.y, pos.z};
+        double x[3] = {x0[0], x0[1], x0[2]};
         double f[3];
         double p=pot(x, f);  // call the FORTRAN routine
         if(potential)
@@ -96,6 +98,25 @@ private:
             deriv->dy = -f[1];
             deriv->dz = -f[2];
         }
+        if(deriv2) {  // estimate second derivatives from finite differences of the force
+            double hess[3][3], r = sqrt(pos.x*pos.x + pos.y*pos.y + pos.z*pos.z),
+                eps = fmax(r * 5e-4 /* ~DBL_EPSILON^(1/5) */, 1e-8);
+            for(int d=0; d<3; d++) {
+                double y[3] = {pos.x, pos.y, pos.z}, fm2[3], fm1[3], fp1[3], fp2[3];
+                y[d] = x0[d] - 2*eps;  pot(y, fm2);
+                y[d] = x0[d] -   eps;  pot(y, fm1);
+                y[d] = x0[d] +   eps;  pot(y, fp1);
+                y[d] = x0[d] + 2*eps;  pot(y, fp2);
+                for(int k=0; k<3; k++)
+                    hess[d][k] = -(8 * (fp1[k] - fm1[k]) - (fp2[k] - fm2[k])) / (12*eps);
+            }
+            deriv2->dx2  = hess[0][0];
+            deriv2->dy2  = hess[1][1];
+            deriv2->dz2  = hess[2][2];
+            deriv2->dxdy = (hess[0][1] + hess[1][0]) / 2;
+            deriv2->dydz = (hess[1][2] + hess[2][1]) / 2;
+            deriv2->dxdz = (hess[0][2] + hess[2][0]) / 2;
+        }
     }
 };
 
-- 
2.43.0


From 341bd3b713c4635070dba63717cc8116e2cab276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 065/102] fix: try the simplex method when the interior-point
 method fails in linearOptimizationSolve

---
 src/math_optimization.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index a882450..882e678 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -242,7 +242,14 @@ std::vector<double> linearOptimizationSolve(const IMatrix<NumT>& A,
 
     // solve the problem using the interior-point method
     int status = glp_interior(problem, NULL);
-    if(glp_ipt_status(problem) != GLP_OPT) status=1;  // infeasible
+    bool simplex = status!=0 || glp_ipt_status(problem) != GLP_OPT;
+    if(simplex) {
+        // the interior-point method may fail if the feasible region has no interior,
+        // so the verdict about infeasible problems is delegated to the simplex method
+        status = glp_simplex(problem, NULL);
+        if(status==0 && glp_get_status(problem) != GLP_OPT) status=1;  // infeasible or unbounded
+        if(status==GLP_EBOUND) status=1;  // contradictory limits
+    }
 
     // retrieve the solution
     std::vector<double> result(numVariables);
@@ -250,7 +257,8 @@ std::vector<double> linearOptimizationSolve(const IMatrix<NumT>& A,
         double vmin = xmin.empty() ? 0 : xmin[v];
         double vmax = xmax.empty() ? INFINITY : xmax[v];
         // correct possible roundoff errors that may lead to the value being outside the limits
-        result[v] = clip(glp_ipt_col_prim(problem, v+1), vmin, vmax);
+        result[v] = clip(simplex ?
+            glp_get_col_prim(problem, v+1) : glp_ipt_col_prim(problem, v+1), vmin, vmax);
     }
     glp_delete_prob(problem);
 
-- 
2.43.0


From 6ca98ce944b750b457277c3f07836ce76834c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 066/102] fix: check the sizes of arrays of limits in
 quadraticOptimizationSolveApprox

---
 src/math_optimization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index 882e678..9f872cc 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -824,6 +824,8 @@ std::vector<double> quadraticOptimizationSolveApprox(
         (!consPenaltyLin.empty()  && consPenaltyLin. size()!=numConstraints) ||
         (!consPenaltyQuad.empty() && consPenaltyQuad.size()!=numConstraints) ||
         (!L.empty() && L.size()!=numVariables) ||
+        (!xmin.empty() && xmin.size()!=numVariables) ||
+        (!xmax.empty() && xmax.size()!=numVariables) ||
         (Q.rows()>0 && Q.rows()!=numVariables) || (Q.rows()!=Q.cols()) )
         throw std::invalid_argument("quadraticOptimizationSolveApprox: invalid size of input arrays");
 
-- 
2.43.0


From 14d2c92bfb367526af1cefaa51bf39b613dcaf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 067/102] fix: do not accept an interior-point solution that
 violates the constraints in linearOptimizationSolve

---
 src/math_optimization.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index 9f872cc..15714b9 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -243,6 +243,18 @@ std::vector<double> linearOptimizationSolve(const IMatrix<NumT>& A,
     // solve the problem using the interior-point method
     int status = glp_interior(problem, NULL);
     bool simplex = status!=0 || glp_ipt_status(problem) != GLP_OPT;
+    if(!simplex) {
+        // the solution may run away along an unbounded direction and violate the constraints by roundoff
+        std::vector<double> residual(rhs.begin(), rhs.end()), roundoff(numConstraints);
+        for(size_t i=0, c, v; i<A.size(); i++) {
+            double val = A.elem(i, c, v);
+            val *= glp_ipt_col_prim(problem, v+1);
+            residual[c] -= val;
+            roundoff[c] += fabs(val) * DBL_EPSILON;
+        }
+        for(size_t c=0; c<numConstraints; c++)
+            simplex |= !(fabs(residual[c]) + roundoff[c] <= 1e-6 * fmax(1, fabs(rhs[c])));
+    }
     if(simplex) {
         // the interior-point method may fail if the feasible region has no interior,
         // so the verdict about infeasible problems is delegated to the simplex method
-- 
2.43.0


From 1cb6373f81b70053029b33f51f9c82bdb9535b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 068/102] fix: check both linear and quadratic penalties in
 quadraticOptimizationSolveApprox

---
 src/math_optimization.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/math_optimization.cpp b/src/math_optimization.cpp
index 15714b9..7addcf9 100644
--- a/src/math_optimization.cpp
+++ b/src/math_optimization.cpp
@@ -857,6 +857,9 @@ std::vector<double> quadraticOptimizationSolveApprox(
     for(size_t c=0; c<numConstraints; c++) {
         NumT penLin  = consPenaltyLin .empty() ? 0 : consPenaltyLin [c];
         NumT penQuad = consPenaltyQuad.empty() ? 0 : consPenaltyQuad[c];
+        if(!(penLin>=0 && penQuad>=0))
+            throw std::invalid_argument("quadraticOptimizationSolveApprox: "
+                "constraint penalties must be nonnegative (possibly infinite)");
         if(penLin==INFINITY || penQuad==INFINITY) {
             // this constraint must be satisfied exactly
             rowExact.push_back(c);
@@ -875,7 +878,7 @@ std::vector<double> quadraticOptimizationSolveApprox(
             xminAug.push_back(0);
             xminAug.push_back(0);
             havePenLin = true;
-        } else if(penLin>=0 && penQuad>=0) {
+        } else {
             // if only quadratic penalty is provided (or both are zero), add one slack variable
             // without any inequality constraints (i.e. -infinity)
             rowAug.push_back(c);
@@ -883,9 +886,7 @@ std::vector<double> quadraticOptimizationSolveApprox(
             Laug.push_back(0);
             Qaug.push_back(penQuad);
             xminAug.push_back(-INFINITY);
-        } else
-            throw std::invalid_argument("quadraticOptimizationSolveApprox: "
-                "constraint penalties must be nonnegative (possibly infinite)");
+        }
     }
     std::vector<NumT> xmaxAug(xmax);
     if(!xmax.empty()) {
-- 
2.43.0


From 1750f367b1cc9b9ba8bbe0dc89a3f9dd86fb584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 069/102] fix: report an invalid particle passed to a Target
 instead of terminating the program

---
 src/interface_python.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 0389989..7e5ed3b 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6191,9 +6191,18 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
 #pragma omp for schedule(static)
 #endif
             for(int i=0; i<(int)particles.size(); i++) {
-                double xv[6];
-                particles.point(i).unpack_to(xv);
-                self->target->addPoint(xv, particles.mass(i), datacube.data());
+                // an exception must not leave the work-shared loop
+                try{
+                    double xv[6];
+                    particles.point(i).unpack_to(xv);
+                    self->target->addPoint(xv, particles.mass(i), datacube.data());
+                }
+                catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                    errorMessage = ex.what();
+                }
             }
             self->target->finalizeDatacube(datacube, &tmpresult[0]);
             // now sum up the thread-local intermediate matrices elementwise,
-- 
2.43.0


From aeca4a7685231e09de995fddf50e2e25ad9bfeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 070/102] fix: check the middle node when testing the symmetry
 of LOSVD grids

---
 src/galaxymodel_losvd.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 5654e31..7a3d047 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -194,11 +194,12 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
     // check if input grids are reflection-symmetric:
     // if yes, will symmetrize the datacube after it has been fully assembled (often somewhat faster),
     // if not, will add the symmetric counterpart to each input point
-    for(unsigned int i=0, size=bsplx.xvalues().size(); i<size/2; i++)
+    // (the middle node of a grid with an odd number of nodes must be at zero)
+    for(unsigned int i=0, size=bsplx.xvalues().size(); i<(size+1)/2; i++)
         symmetricGrids &= math::fcmp(bsplx.xvalues()[i], -bsplx.xvalues()[size-1-i], 1e-12) == 0;
-    for(unsigned int i=0, size=bsply.xvalues().size(); i<size/2; i++)
+    for(unsigned int i=0, size=bsply.xvalues().size(); i<(size+1)/2; i++)
         symmetricGrids &= math::fcmp(bsply.xvalues()[i], -bsply.xvalues()[size-1-i], 1e-12) == 0;
-    for(unsigned int i=0, size=bsplv.xvalues().size(); i<size/2; i++)
+    for(unsigned int i=0, size=bsplv.xvalues().size(); i<(size+1)/2; i++)
         symmetricGrids &= math::fcmp(bsplv.xvalues()[i], -bsplv.xvalues()[size-1-i], 1e-12) == 0;
 
     // construct the spatial rebinning matrix
-- 
2.43.0


From 13f9c14660127670ad57d65470df38bd0d9bf3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 071/102] fix: avoid NaN in TargetKinemShell for a point at
 origin

---
 src/galaxymodel_losvd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 7a3d047..54ecbdb 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -595,7 +595,7 @@ template<int N>
 void TargetKinemShell<N>::addPoint(const double point[6], double mult, double output[]) const
 {
     double r2  = pow_2(point[0]) + pow_2(point[1]) + pow_2(point[2]), r = sqrt(r2);
-    double vr2 = pow_2(point[0] * point[3] + point[1] * point[4] + point[2] * point[5]) / r2;
+    double vr2 = pow_2(point[0] * point[3] + point[1] * point[4] + point[2] * point[5]) / (r2>0 ? r2 : 1);
     double vt2 = pow_2(point[3]) + pow_2(point[4]) + pow_2(point[5]) - vr2;
     bspl.addPoint(&r, mult * vr2, output);
     bspl.addPoint(&r, mult * vt2, output + bspl.numValues());
-- 
2.43.0


From 050ea455ff9e5a5919161330fb73a4da7829d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 072/102] fix: stop the iteration over a Target object at its
 last element

---
 src/galaxymodel_losvd.cpp | 2 ++
 src/interface_python.cpp  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 54ecbdb..485579a 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -588,6 +588,8 @@ template class TargetLOSVD<3>;
 template<int N>
 std::string TargetKinemShell<N>::coefName(unsigned int index) const
 {
+    if(index >= numCoefs())
+        throw std::out_of_range("TargetKinemShell: index out of range");
     return (index < bspl.numValues() ? "Vr[" : "Vt[") + utils::toString(index % bspl.numValues()) + "]";
 }
 
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 7e5ed3b..617f564 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6245,6 +6245,10 @@ PyObject* Target_name(PyObject* self)
 
 PyObject* Target_elem(TargetObject* self, Py_ssize_t index)
 {
+    if(index < 0 || index >= (Py_ssize_t)self->target->numCoefs()) {
+        PyErr_SetString(PyExc_IndexError, "Target index out of range");
+        return NULL;
+    }
     try{
         return Py_BuildValue("s", self->target->coefName(index).c_str());
     }
-- 
2.43.0


From 2f595da15ac182c29e20ff35c3849233d75b2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:46 +0000
Subject: [PATCH 073/102] fix: reject a scalar argument matrix of ghMoments
 instead of crashing

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 617f564..7283aae 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6377,7 +6377,7 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     npy_intp numApertures = -1;
     if(mat_arr && (PyArray_NDIM(mat_arr) == 1 || PyArray_NDIM(mat_arr) == 2))
         numApertures = PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1) / numBasisFnc;
-    if(!mat_arr || numApertures * numBasisFnc != PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1)) {
+    if(numApertures < 0 || numApertures * numBasisFnc != PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1)) {
         Py_XDECREF(mat_arr);
         PyErr_SetString(PyExc_ValueError, ("Argument 'matrix' should be a 1d array "
             "of length numApertures * numBasisFnc (the latter is " + utils::toString(numBasisFnc) +
-- 
2.43.0


From 1af3f0166a1428334062eeaaf9a419f12c114035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 074/102] fix: do not fail in the spherical action finder for
 NaN peri/apocenter radii

---
 src/actions_spherical.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 2461850..5102d53 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -32,7 +32,7 @@ static const unsigned int INTEGR_ORDER = 8;
     of pericenter to apocenter radii (R1/R2).
     The heuristic recipe below keeps the accuracy at a nearly constant level down to R1/R2=0.001 */
 inline unsigned int integrOrder(double R1overR2) {
-    if(R1overR2==0)
+    if(!(R1overR2>0))   // also if R1, R2 could not be determined and are NAN, as will be the result
         return math::MAX_GL_ORDER;
     return std::min<int>(math::MAX_GL_ORDER, INTEGR_ORDER - 4/M_LN2 * log(R1overR2));
 }
@@ -602,7 +602,7 @@ void evalSpherical(const potential::BasePotential& pot, const coord::PosVelCyl&
         act->Jz = L==0 ? 0 : Lx2plusLy2 / (L + fabs(Lz));  // a roundoff-safe way of computing L - |Lz|
         act->Jphi = Lz;
     }
-    if(E>=0) {
+    if(!(E<0)) {   // also when E is NAN
         if(ang)
             ang->thetar = ang->thetaz = ang->thetaphi = NAN;
         if(freqout)
@@ -668,7 +668,7 @@ void ActionFinderSpherical::eval(const coord::PosVelCyl& point,
         act->Jphi = Lz;
     }
     if(ang) {
-        if(E>=0)
+        if(!(E<0))   // also when E is NAN
             ang->thetar = ang->thetaz = ang->thetaphi = NAN;
         else {
             pot.findPlanarOrbitExtent(E, L, R1, R2);
-- 
2.43.0


From dd99b603d4c6b0bcd13b1095efd686783a39bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 075/102] fix: frequencies and angles of nearly circular orbits
 in evalSpherical

---
 src/actions_spherical.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 5102d53..e422398 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -38,6 +38,13 @@ inline unsigned int integrOrder(double R1overR2) {
 }
 
 
+/// check if the orbit is so close to a circular one that the integrals of (inverse) radial velocity
+/// are dominated by roundoff errors, and should be replaced by the epicyclic approximation
+inline bool isCircular(double R1, double R2)
+{
+    return R2 <= R1 * (1 + 1e-4);
+}
+
 /// return scaledE and optionally dE/d(scaledE) as functions of E and invPhi0 = 1/Phi(0)
 inline double scaleE(const double E, const double invPhi0, /*output*/ double* dEdscaledE=NULL)
 {
@@ -274,9 +281,16 @@ Angles computeAngles(const coord::PosVelCyl& point,
     double psi = atan2(point.z * L,  -point.R * vtheta * r);
     double chi = atan2(point.z * point.vphi, -vtheta * r);
     Angles ang;
-    ang.thetar = integr<MODE_OMEGAR>(potential, E, L, R1, R2, r) * Omegar;
-    double thr = ang.thetar;
-    double thz = integr<MODE_OMEGAZ>(potential, E, L, R1, R2, r);
+    double thr, thz;
+    if(isCircular(R1, R2)) {
+        // integrals of (inverse) radial velocity are unreliable, use the epicyclic approximation
+        thr = R1==R2 ? 0 : acos(math::clip((R1+R2-2*r) / (R2-R1), -1., 1.));
+        thz = thr * Omegaz / Omegar;
+    } else {
+        thr = math::clip(integr<MODE_OMEGAR>(potential, E, L, R1, R2, r) * Omegar, 0., M_PI);
+        thz = integr<MODE_OMEGAZ>(potential, E, L, R1, R2, r);
+    }
+    ang.thetar = thr;
     if(point.R * point.vR + point.z * point.vz < 0) {
         // v_r<0 - we're on the second half of radial period
         ang.thetar = 2*M_PI - ang.thetar;
@@ -617,11 +631,12 @@ void evalSpherical(const potential::BasePotential& pot, const coord::PosVelCyl&
     // if angles are requested, frequencies need to be computed as well
     if(ang || freqout) {
         Frequencies freq;
-        if(R2 > R1 * (1 + 1e-8)) {  // normal case
+        if(!isCircular(R1, R2)) {  // normal case
             freq.Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
             freq.Omegaz = freq.Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
         } else {  // degenerate case of a purely circular orbit
-            epicycleFreqs(pot, point.R, freq.Omegar, freq.Omegaz, /*ignored*/ freq.Omegaphi);
+            R1 = R2 = 0.5 * (R1+R2);
+            epicycleFreqs(pot, R1, freq.Omegar, freq.Omegaz, /*ignored*/ freq.Omegaphi);
         }
         freq.Omegaphi = freq.Omegaz * math::sign(point.vphi);
         if(freqout)  // freak out only if requested
-- 
2.43.0


From 7fabe33bed9fd6644d50530dd097668f13af649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 076/102] fix: avoid NaN in the angles of a point at the
 pericentre in spherical action finders

---
 src/actions_spherical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index e422398..ba31015 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -119,7 +119,9 @@ public:
         double vr  = sqrt(vr2);
         if(mode==MODE_JR)     return vr;
         if(mode==MODE_OMEGAR) return 1/vr;
-        if(mode==MODE_OMEGAZ) return L/(r*r*vr) - 1/(sqrt(pow_2(r/R1)-1)*r);
+        double r2R1m1 = pow_2(r/R1)-1;
+        if(!(r2R1m1>0))       return 0;   // r equals R1 to within roundoff error
+        if(mode==MODE_OMEGAZ) return L/(r*r*vr) - 1/(sqrt(r2R1m1)*r);
         // in the latter case, a singular term with analytic antiderivative
         // is subtracted from the integrand
         assert(!"Invalid mode in action integrand");
-- 
2.43.0


From 87432c214a07ae5648494432529c5a30a688e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 077/102] fix: mapSpherical for circular orbits and for invalid
 actions

---
 src/actions_spherical.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index ba31015..773da72 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -327,10 +327,14 @@ coord::PosVelCyl mapPointFromActionAngles(const ActionAngles &aa,
     double thr = math::wrapAngle(aa.thetar);
     if(thr>M_PI)
         thr   -= 2*M_PI;  // follow the convention that -pi < thr <= pi
-    double r   = RadiusFromPhaseFinder(potential, E, L, R1, R2, fabs(thr)/Omegar).findRoot();
+    bool circular = isCircular(R1, R2);
+    double r   = circular ?
+        0.5 * (R1+R2 - (R2-R1) * cos(thr)) :   // epicyclic approximation
+        RadiusFromPhaseFinder(potential, E, L, R1, R2, fabs(thr)/Omegar).findRoot();
     double vr  = math::sign(thr) * sqrt(fmax(0, 2 * (E - potential(r)) - (L>0 ? pow_2(L/r) : 0) ));
     // find other auxiliary angles
-    double thz = math::sign(thr) * integr<MODE_OMEGAZ>(potential, E, L, R1, R2, r);
+    double thz = circular ? thr * Omegaz / Omegar :
+        math::sign(thr) * integr<MODE_OMEGAZ>(potential, E, L, R1, R2, r);
     double psi = aa.thetaz + thz - thr * Omegaz / Omegar;
     double sinpsi, cospsi;
     math::sincos(psi, sinpsi, cospsi);
@@ -590,14 +594,23 @@ coord::PosVelCyl mapSpherical(
 {
     if(!isSpherical(pot))
         throw std::invalid_argument("mapSpherical: potential must be spherically symmetric");
+    if(!(aa.Jr>=0 && aa.Jz>=0 && isFinite(aa.Jr + aa.Jz + aa.Jphi))) {
+        if(freqout)
+            freqout->Omegar = freqout->Omegaz = freqout->Omegaphi = NAN;
+        return coord::PosVelCyl(NAN, NAN, NAN, NAN, NAN, NAN);
+    }
     double E = computeHamiltonianSpherical(pot, aa);
     double L = aa.Jz + fabs(aa.Jphi);  // total angular momentum
     double R1, R2;
     findPlanarOrbitExtent(pot, E, L, R1, R2);
     Frequencies freq;
     potential::Sphericalized<potential::BasePotential> sphPot(pot);
-    freq.Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
-    freq.Omegaz = freq.Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
+    if(!isCircular(R1, R2)) {  // normal case
+        freq.Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
+        freq.Omegaz = freq.Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
+    } else {  // degenerate case of a purely circular orbit
+        epicycleFreqs(pot, 0.5 * (R1+R2), freq.Omegar, freq.Omegaz, /*ignored*/ freq.Omegaphi);
+    }
     freq.Omegaphi = freq.Omegaz * math::sign(aa.Jphi);
     if(freqout)  // freak out only if requested
         *freqout = freq;
@@ -740,7 +753,7 @@ double ActionFinderSpherical::E(const Actions& acts) const
 
 coord::PosVelCyl ActionFinderSpherical::map(const ActionAngles& aa, Frequencies* freq) const
 {
-    if(aa.Jr<0 || aa.Jz<0) {
+    if(!(aa.Jr>=0 && aa.Jz>=0 && isFinite(aa.Jr + aa.Jz + aa.Jphi))) {
         if(freq)
             freq->Omegar = freq->Omegaz = freq->Omegaphi = NAN;
         return coord::PosVelCyl(NAN, NAN, NAN, NAN, NAN, NAN);
-- 
2.43.0


From 3fe83f160f69a3e55f45be4fe2fdd827c5104361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 078/102] fix: energy of orbits with a vanishingly small radial
 action in computeHamiltonianSpherical

---
 src/actions_spherical.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 773da72..9ab6f83 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -585,6 +585,8 @@ double computeHamiltonianSpherical(const potential::BasePotential& potential, co
         math::ScaledFnc<math::ScalingInf>(scaling, fnc),
         /*lower limit is Elow, which translates to*/ math::scale(scaling, scaleE(Elow, invPhi0)),
         /*upper limit on scaledE is infinity, which corresponds to*/ 1, ACCURACY_JR);
+    if(zroot!=zroot)   // the root-finder failed because Jr is too small to be distinguished from zero
+        return Elow;
     return unscaleE(math::unscale(scaling, zroot), invPhi0);
 }
 
-- 
2.43.0


From 7ff88d074ba9a1589ced6effa0f2407efc54315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 079/102] fix: inverse action-angle maps for purely radial
 orbits

---
 src/actions_isochrone.cpp | 15 ++++++++-------
 src/actions_spherical.cpp |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index f32b6a8..1ab6218 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -64,7 +64,8 @@ coord::PosVelCyl mapIsochrone(
     double absJphi  = signJphi * aa.Jphi;
     double L    = aa.Jz + absJphi;
     double L1   = sqrt(L*L + 4*M*b);
-    double LL1  = 0.5 + 0.5 * L/L1;
+    double LoL1 = L1>0 ? L/L1 : 1;
+    double LL1  = 0.5 + 0.5 * LoL1;
     double J0   = aa.Jr + 0.5 * (L + L1);  // combined magnitude of actions
     double j0invsq = M*b / pow_2(J0);
     // x1,x2 are roots of equation  x^2 - 2*(x-1)*M*b/J0^2 + (L/J0)^2-1 = 0:
@@ -80,24 +81,24 @@ coord::PosVelCyl mapIsochrone(
     double ra = 1 - ecc * coseta;   // Kepler problem:  r / a = 1 - e cos(eta)
     double tanhalfeta = coseta==-1 ? INFINITY : sineta / (1 + coseta);
     double thetar   = aa.thetar - (eta>M_PI ? 2*M_PI : 0);
-    double psi1     = atan(fac1 * tanhalfeta);
-    double psi2     = atan(fac2 * tanhalfeta);
-    double psi      = aa.thetaz - LL1 * thetar + psi1 + psi2 * L/L1;
+    double psi1     = tanhalfeta==0 ? 0 : atan(fac1 * tanhalfeta);
+    double psi2     = tanhalfeta==0 ? 0 : atan(fac2 * tanhalfeta);
+    double psi      = aa.thetaz - LL1 * thetar + psi1 + psi2 * LoL1;
     math::sincos(psi, sinpsi, cospsi);
     double chi      = aa.Jz != 0 ? atan2(absJphi * sinpsi, L * cospsi) : psi;
-    double sini     = sqrt(1 - pow_2(aa.Jphi / L)); // inclination angle of the orbital plane
+    double sini     = L>0 ? sqrt(1 - pow_2(aa.Jphi / L)) : 1; // inclination angle of the orbital plane
     double costheta = sini * sinpsi;                // z/r
     double sintheta = sqrt(1 - pow_2(costheta));    // R/r is always non-negative
     double r        = sqrt(fmax(0, pow_2(ra * J0*J0/M) - b*b));
     double vr       = J0 * ecc * sineta / r;
-    double vtheta   = -L * sini * cospsi / (r * sintheta);
+    double vtheta   = L>0 ? -L * sini * cospsi / (r * sintheta) : 0;
     coord::PosVelCyl point;
     point.R    = r * sintheta;
     point.z    = r * costheta;
     point.phi  = math::wrapAngle(aa.thetaphi + (chi-aa.thetaz) * signJphi);
     point.vR   = vr * sintheta + vtheta * costheta;
     point.vz   = vr * costheta - vtheta * sintheta;
-    point.vphi = aa.Jphi / point.R;
+    point.vphi = aa.Jphi != 0 ? aa.Jphi / point.R : 0;
     if(freq) {
         freq->Omegar   = pow_2(M) / pow_3(J0);
         freq->Omegaz   = freq->Omegar * LL1;
diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 9ab6f83..36fcff0 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -339,11 +339,11 @@ coord::PosVelCyl mapPointFromActionAngles(const ActionAngles &aa,
     double sinpsi, cospsi;
     math::sincos(psi, sinpsi, cospsi);
     double chi      = aa.Jz != 0 ? atan2(fabs(aa.Jphi) * sinpsi, L * cospsi) : psi;
-    double sini     = sqrt(1 - pow_2(aa.Jphi / L)); // inclination angle of the orbital plane
+    double sini     = L>0 ? sqrt(1 - pow_2(aa.Jphi / L)) : 1; // inclination angle of the orbital plane
     double costheta = sini * sinpsi;                // z/r
     double sintheta = sqrt(1 - pow_2(costheta));    // R/r is always non-negative
     double R        = r * sintheta;
-    double vtheta   = L * sini * cospsi / R;
+    double vtheta   = L>0 ? L * sini * cospsi / R : 0;
     // finally, output position/velocity
     return coord::PosVelCyl(R,
         r * costheta,  // z
-- 
2.43.0


From 88077c228522f57ce5814843c382e7e84a95f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 080/102] fix: mapIsochrone at the apocentre when the eccentric
 anomaly exceeds pi by roundoff

---
 src/actions_isochrone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index 1ab6218..8582bb5 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -79,7 +79,7 @@ coord::PosVelCyl mapIsochrone(
     double sineta, coseta, sinpsi, cospsi;
     math::sincos(eta, sineta, coseta);
     double ra = 1 - ecc * coseta;   // Kepler problem:  r / a = 1 - e cos(eta)
-    double tanhalfeta = coseta==-1 ? INFINITY : sineta / (1 + coseta);
+    double tanhalfeta = coseta==-1 ? (eta>M_PI ? -INFINITY : INFINITY) : sineta / (1 + coseta);
     double thetar   = aa.thetar - (eta>M_PI ? 2*M_PI : 0);
     double psi1     = tanhalfeta==0 ? 0 : atan(fac1 * tanhalfeta);
     double psi2     = tanhalfeta==0 ? 0 : atan(fac2 * tanhalfeta);
-- 
2.43.0


From 4f061fd92dde48e390bcfe699e027f2d710458c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 081/102] fix: angles of circular orbits in evalIsochrone

---
 src/actions_isochrone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index 8582bb5..c142acc 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -24,7 +24,7 @@ void evalIsochrone(
     }
     if(ang) {
         double j0invsq = M*b / pow_2(J0);
-        double ecc  = sqrt(pow_2(1-j0invsq) - pow_2(L/J0));
+        double ecc  = sqrt(fmax(0, pow_2(1-j0invsq) - pow_2(L/J0)));
         double fac1 = (1 + ecc - j0invsq) * J0 / L;
         double fac2 = (1 + ecc + j0invsq) * J0 / L1;
         // below are quantities that depend on position along the orbit
@@ -33,7 +33,7 @@ void evalIsochrone(
         double psi  = atan2(pointCyl.z * L,  -pointCyl.R * point.vtheta * point.r);
         double chi  = atan2(pointCyl.z * point.vphi, -point.vtheta * point.r);
         double eta  = atan2(k1, k2);                         // eccentric anomaly
-        double sineta     = k1 / sqrt(k1*k1 + k2*k2);        // sin(eta)
+        double sineta     = k1==0 ? k1 : k1 / sqrt(k1*k1 + k2*k2);  // sin(eta)
         double tanhalfeta = eta==0 ? 0 : -k2/k1 + 1/sineta;  // tan(eta/2)
         ang->thetar   = math::wrapAngle(eta - sineta * ecc );
         ang->thetaz   = math::wrapAngle(psi + 0.5 * (1 + L/L1) * (ang->thetar - (eta<0 ? 2*M_PI : 0))
-- 
2.43.0


From ba5600888c17594c129fd04c1bef6dd3019c7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 082/102] fix: frequencies of radial Kepler orbits and NaN
 arguments in evalIsochrone

---
 src/actions_isochrone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index c142acc..ea92147 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -20,7 +20,7 @@ void evalIsochrone(
     if(act) {
         act->Jphi = Lz;
         act->Jz   = pointCyl.z==0 && pointCyl.vz==0 ? 0 : fmax(0, L - fabs(Lz));
-        act->Jr   = E>=0 ? NAN : fmax(0, J0 - 0.5 * (L + L1));   // note: possible loss of precision!
+        act->Jr   = !(E<0) ? NAN : fmax(0, J0 - 0.5 * (L + L1));   // note: possible loss of precision!
     }
     if(ang) {
         double j0invsq = M*b / pow_2(J0);
@@ -46,7 +46,7 @@ void evalIsochrone(
     }
     if(freq) {
         freq->Omegar   = pow_2(M) / pow_3(J0);
-        freq->Omegaz   = freq->Omegar * 0.5 * (1 + L/L1);
+        freq->Omegaz   = freq->Omegar * 0.5 * (1 + (L1>0 ? L/L1 : 1));
         freq->Omegaphi = math::sign(Lz) * freq->Omegaz;
     }
 }
-- 
2.43.0


From 6a4f57435f9d8fd89322f1209f6b47d5e418b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 083/102] fix: angles and frequencies in axisymmetric action
 finders for Lz=0 and for planar orbits

---
 src/actions_staeckel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index 1b62a42..f64e89b 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -519,9 +519,11 @@ AxisymActionDerivatives computeActionDerivatives(
     // the following integral is split into the analytically computed singular part
     // and the remaining regular part integrated numerically
     double delta_minus_nu_max = fnc.point.coordsys.Delta2 - lim.nu_max;
-    double singpart = 2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
+    double singpart = lim.nu_max==0 ? 0 :
+        2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
         atan(sqrt(lim.nu_max / delta_minus_nu_max));
-    der.dJzdLz = -fnc.Lz * (math::integrateGL(transf_n, 0, 1, lim.integrOrder) + singpart) / (2*M_PI);
+    der.dJzdLz = fnc.Lz==0 ? 0 :
+        -fnc.Lz * (math::integrateGL(transf_n, 0, 1, lim.integrOrder) + singpart) / (2*M_PI);
     return der;
 }
 
@@ -590,9 +592,10 @@ AxisymGenFuncDerivatives computeGenFuncDerivatives(
     // the integral over nu is split into the analytically computed singular part
     // and the remaining regular part integrated numerically
     double delta_minus_nu_max = fnc.point.coordsys.Delta2 - lim.nu_max;
-    double singpart = 2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
+    double singpart = lim.nu_max==0 ? 0 :
+        2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
         (atan(sqrt( lim.nu_max / delta_minus_nu_max)) -
-         atan(sqrt((lim.nu_max - fabs(fnc.point.nu)) / delta_minus_nu_max)));
+         atan(sqrt(fmax(lim.nu_max - fabs(fnc.point.nu), 0) / delta_minus_nu_max)));
     der.dSdLz = fnc.Lz==0 ? 0 : fnc.point.phi +
         signldot * -fnc.Lz *  math::integrateGL(transf_l, 0, yl, lim.integrOrder) / 4
       + signndot * -fnc.Lz * (math::integrateGL(transf_n, 0, yn, lim.integrOrder) + singpart) / 4;
-- 
2.43.0


From da5f825331ba260a4a09489f272aa73b0a6de1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 084/102] fix: hemisphere of points with z=0 or vz=0 in the
 angles of axisymmetric action finders

---
 src/actions_staeckel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index f64e89b..219ea66 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -641,11 +641,13 @@ Angles computeAngles(const AxisymIntDerivatives& derI, const AxisymGenFuncDeriva
     on the angles (assuming that the actions are constant); in principle, this may be used
     to skip the computation of the matrix of integral derivatives (not presently implemented).
     \param[in]  fnc  is the instance of `AxisymFunctionStaeckel` or `AxisymFunctionFudge`.
+    \param[in]  vzNegative  is the sign of vertical velocity, which cannot be inferred from
+    the transformed coordinates if the point lies exactly in the z=0 plane.
     \param[out] act  if not NULL, store actions in this variable.
     \param[out] ang  if not NULL, store angles in this variable.
     \param[out] freq if not NULL, store frequencies in this variable.
 */
-void evalAxisym(const AxisymFunctionBase& fnc,
+void evalAxisym(const AxisymFunctionBase& fnc, bool vzNegative,
     Actions* act, Angles* ang, Frequencies* freq)
 {
     if(!isFinite(fnc.E+fnc.I3+fnc.Lz) || fnc.E>=0) {
@@ -666,7 +668,8 @@ void evalAxisym(const AxisymFunctionBase& fnc,
             *freq = derI;
         if(ang) {
             AxisymGenFuncDerivatives derS = computeGenFuncDerivatives(fnc, lim);
-            bool addPiToThetaZ = fnc.point.nudot<0 && fnc.Lz!=0;
+            bool addPiToThetaZ = fnc.Lz!=0 && (fnc.point.nu==0 ? vzNegative :
+                fnc.point.nudot<0 || (fnc.point.nudot==0 && fnc.point.nu<0));
             *ang = computeAngles(derI, derS, addPiToThetaZ);
         }
     }
@@ -680,7 +683,7 @@ void evalAxisymStaeckel(
     const potential::OblatePerfectEllipsoid& potential, const coord::PosVelCyl& point,
     Actions* act, Angles* ang, Frequencies* freq)
 {
-    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), act, ang, freq);
+    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), point.vz<0, act, ang, freq);
 }
 
 void evalAxisymFudge(
@@ -692,7 +695,7 @@ void evalAxisymFudge(
     if(focalDistance<=0)
         focalDistance = fmax(point.R, 1.) * 1e-4;   // this is a temporary workaround!
     evalAxisym(findIntegralsOfMotionAxisymFudge(potential, point, coord::ProlSph(focalDistance)),
-        act, ang, freq);
+        point.vz<0, act, ang, freq);
 }
 
 
-- 
2.43.0


From 403f8076206840e81502200f71a6f0ae63309bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 085/102] fix: value of QuasiSpherical DF for orbits outside
 the Osipkov-Merritt boundary is zero, not NAN

---
 src/df_spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/df_spherical.cpp b/src/df_spherical.cpp
index 62468f4..3aeeb08 100644
--- a/src/df_spherical.cpp
+++ b/src/df_spherical.cpp
@@ -605,7 +605,7 @@ void QuasiSphericalCOM::evalDeriv(const ClassicalIntegrals& ints,
         deriv->dbyLz = 0;
     }
     // check for invalid range - this shouldn't happen in normal circumstances, so be picky here
-    if(ints.L<0 || fabs(ints.Lz)>ints.L || P<0)
+    if(ints.L<0 || fabs(ints.Lz)>ints.L || (Q<0 && P<0))
         *value = NAN;
 }
 
-- 
2.43.0


From bf99e6ef9c0b6a65d37086fae5295ce031ed39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 086/102] fix: central value of DoublePowerLaw DF with a core

---
 src/df_halo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index ddb922b..8f0d20c 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -102,9 +102,10 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
     if(par.Jcutoff>0)   // exponential cutoff at large J
         *value *= exp(-gJcz);
     if(par.Jcore>0) {   // central core of nearly-constant f(J) at small J
-        if(h==0)
-            *value = par.norm / pow_3(2*M_PI * par.J0);
-        *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
+        if(h > par.Jcore * 1e-100)
+            *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
+        else    // limiting value at J=0
+            *value  = par.norm / pow_3(2*M_PI * par.J0) * math::pow(par.J0 / par.Jcore, par.slopeIn);
     }
     // add the odd part if necessary
     double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
-- 
2.43.0


From 772245d467b5b8849e01cf6c67c45d7a22fa4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 087/102] fix: rotating DoublePowerLaw DF for Jphi0=0, and its
 derivatives for the maximum rotation

---
 src/df_halo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index 8f0d20c..fab1630 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -108,7 +108,9 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
             *value  = par.norm / pow_3(2*M_PI * par.J0) * math::pow(par.J0 / par.Jcore, par.slopeIn);
     }
     // add the odd part if necessary
-    double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
+    double valueEven = *value;
+    double rot = par.rotFrac==0 || par.Jphi0==INFINITY ? 0 :
+        par.rotFrac * (par.Jphi0==0 ? math::sign(J.Jphi) : tanh(J.Jphi / par.Jphi0));
     *value *= (1+rot);
 
     if(deriv) {
@@ -122,7 +124,7 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
         deriv->dbyJz   = *value * (par.coefJzIn * dlogHdh + par.coefJzOut * dlogGdg);
         deriv->dbyJphi = *value * (  coefJphiIn * dlogHdh +   coefJphiOut * dlogGdg);
         if(par.Jphi0!=0 && par.rotFrac!=0)
-            deriv->dbyJphi += *value * par.rotFrac * (1 - pow_2(rot / par.rotFrac)) / (1+rot) / par.Jphi0;
+            deriv->dbyJphi += valueEven * par.rotFrac / par.Jphi0 / pow_2(cosh(J.Jphi / par.Jphi0));
     }
 }
 
-- 
2.43.0


From 6ca4cb75cbe2b649cb44dbbc1fb42e9cd43c19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 088/102] fix: derivatives of Exponential DF at the points
 where it vanishes

---
 src/df_disk.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/df_disk.cpp b/src/df_disk.cpp
index 918d68a..ea7255a 100644
--- a/src/df_disk.cpp
+++ b/src/df_disk.cpp
@@ -121,7 +121,14 @@ void Exponential::evalDeriv(const actions::Actions &J,
         math::qexp(-argJr  , -par.qJr) *
         math::qexp(-argJz  , -par.qJz);
 
-    if(deriv) {
+    if(deriv && (Jden==0 || Jvel==0)) {
+        // a point with Jsum=0 where the DF, which is proportional to Jden * Jvel^2, vanishes linearly or faster
+        double dbyJsum = 1. / TWO_PI_CUBE * par.norm / pow_2(par.Jr0 * par.Jz0 * par.Jphi0) * Jvel * Jvel *
+            math::qexp(-argJr, -par.qJr) * math::qexp(-argJz, -par.qJz);
+        deriv->dbyJr   = dbyJsum * par.coefJr;
+        deriv->dbyJz   = dbyJsum * par.coefJz;
+        deriv->dbyJphi = dbyJsum * coefJphi;
+    } else if(deriv) {
         double common = Jsum * (
             (1 - argJphi/ (1 + par.qJphi*argJphi)) / pow_2(Jden) +
             (1 - argJr  / (1 + par.qJr * argJr  )  +
-- 
2.43.0


From 18674f99456d1b13748bb54c1b640ff4fa6d8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 089/102] fix: energy and DF value for zero actions in
 spherical action finder and QuasiSpherical DF

---
 src/actions_spherical.cpp | 2 +-
 src/df_spherical.cpp      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 36fcff0..9deae91 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -722,7 +722,7 @@ double ActionFinderSpherical::E(const Actions& acts) const
 #ifdef INTERPOLATE_ENERGY
     double scaledE, der,
     Jtot = acts.Jr + L,
-    Lrel = L/Jtot,
+    Lrel = Jtot>0 ? L/Jtot : 0,
     logJ = log(Jtot),
     logJeval = math::clip(logJ, intE.xmin(), intE.xmax());  // make sure it's within the 2d grid
     if(logJ != logJeval) {
diff --git a/src/df_spherical.cpp b/src/df_spherical.cpp
index 3aeeb08..5cf8d23 100644
--- a/src/df_spherical.cpp
+++ b/src/df_spherical.cpp
@@ -5,6 +5,7 @@
 #include "math_fit.h"
 #include "utils.h"
 #include <cmath>
+#include <cfloat>
 #include <cassert>
 #include <stdexcept>
 #include <algorithm>
@@ -594,7 +595,7 @@ void QuasiSphericalCOM::evalDeriv(const ClassicalIntegrals& ints,
     if(Q>=0)
         *value = 0;  // DF is zero for Q>=0, which may happen even for a valid combination of E and L
     else
-        df.evalDeriv(P, value, deriv ? &dfdP : NULL);
+        df.evalDeriv(P==0 ? DBL_MIN : P, value, deriv ? &dfdP : NULL);  // use the limiting value at E=Phi(0)
     // note that we don't (and cannot) check that L <= Lcirc(E)
     double Lpow = math::pow(ints.L, -2*beta0);
     *value *= Lpow;
-- 
2.43.0


From 9327c536d7ef8538aedb2e0336c98ae51163270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 090/102] fix: file=... argument of an analytic potential is
 rejected, not silently ignored

---
 src/potential_factory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 88825e7..8dc1ca1 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1715,6 +1715,11 @@ PtrPotential createPotential(
         if(kvmap[i].contains("mmax"))
             bunch.galpot_mmax = std::max<int>(bunch.galpot_mmax, kvmap[i].getInt("mmax"));
 
+        // analytic models are entirely specified by their parameters and do not need any file
+        if(!param.file.empty() && !(param.potentialType == PT_UNKNOWN || (param.potentialType &
+            (PT_BASISSET | PT_MULTIPOLE | PT_CYLSPLINE | PT_UNIFORMACCELERATION | PT_EVOLVING))))
+            throw std::invalid_argument("createPotential: cannot provide both type and file");
+
         // Several alternatives are possible, depending on the "type=..." and "file=..." params:
         switch(param.potentialType) {
         // 1. if a file=... is provided without type=..., then it must refer to another INI file
-- 
2.43.0


From 119a0ba0ab2492c71dc31b5eb1e55b2b5114a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 091/102] fix: reject invalid eccentricity or mass ratio of
 KeplerBinary

---
 src/potential_factory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 8dc1ca1..36fa41e 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -549,6 +549,10 @@ SersicParam parseSersicParam(const AllParam& param)
 /// pick up the parameters for KeplerBinary potential
 KeplerBinaryParams parseKeplerBinaryParam(const AllParam& param)
 {
+    if(!(param.binary_ecc >= 0 && param.binary_ecc <= 1))
+        throw std::invalid_argument("KeplerBinary: eccentricity must be between 0 and 1");
+    if(!(param.binary_q >= 0 && param.binary_sma >= 0))
+        throw std::invalid_argument("KeplerBinary: mass ratio and semimajor axis must be non-negative");
     return KeplerBinaryParams(param.mass, param.binary_q, param.binary_sma, param.binary_ecc,
         param.binary_phase);
 }
-- 
2.43.0


From 0d88bf6808d9d2edbb0963fea4076400d6f7d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 092/102] fix: reject unbound potentials as the source density
 for a potential expansion

---
 src/potential_factory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 36fa41e..3d60a41 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1417,6 +1417,8 @@ PtrPotential createPotentialExpansion(const AllParam& param, const utils::KeyVal
 
     // option 3: analytic density or potential model
     if(haveSource && !haveFile && !haveCoefs) {
+        if(param.densityType & (PT_LOG | PT_HARMONIC | PT_KEPLERBINARY))
+            throw std::invalid_argument("Cannot use this model as the source density for a potential expansion");
         // create a temporary density or potential model to serve as the source for potential expansion
         AllParam srcpar(param);
         srcpar.potentialType = param.densityType;
-- 
2.43.0


From 9e28ca268fa81296eacadb17f4fa2772c044a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 093/102] fix: mass parameter of a DF is not silently ignored

---
 src/df_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/df_factory.cpp b/src/df_factory.cpp
index 7030294..09eee1f 100644
--- a/src/df_factory.cpp
+++ b/src/df_factory.cpp
@@ -227,7 +227,7 @@ PtrDistributionFunction createDistributionFunction(
             throw std::invalid_argument("Need an instance of potential to initialize "+type+" DF");
         potential::Interpolator pot_interp(*potential);
         QuasiIsothermalParam par = parseQuasiIsothermalParam(kvmap, converter, keys);
-        if(mass>0) {
+        if(massProvided) {
             if(kvmap.contains("Sigma0"))
                 throw std::runtime_error("Parameters 'mass' and 'Sigma0' are mutually exclusive");
             par.Sigma0 = 1.0;
@@ -239,6 +239,8 @@ PtrDistributionFunction createDistributionFunction(
         if(potential == NULL)
             throw std::invalid_argument("Need an instance of potential and optionally density "
                 "to initialize "+type+" DF");
+        if(massProvided)
+            throw std::runtime_error("Parameter 'mass' is not allowed for "+type+" DF");
         if(density == NULL)
             density = potential;
         double beta0 = 0, r_a = INFINITY;
-- 
2.43.0


From c2d56a9160f8e728f77481d389b431e314cb40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 094/102] fix: readGalaxyPotential loses the last line without
 newline and silently accepts truncated files

---
 src/potential_factory.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 3d60a41..f54ca02 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1939,11 +1939,12 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
     std::vector<utils::KeyValueMap> kvmap;
     std::string buffer;
     std::vector<std::string> fields;
-    bool ok = std::getline(strm, buffer).good();
+    bool ok = !std::getline(strm, buffer).fail();
     fields  = utils::splitString(buffer, "# \t");
-    int num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    int num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
         if(fields.size() >= 5)
             kvmap.push_back(utils::KeyValueMap(
@@ -1955,13 +1956,14 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 " modulationAmplitude="+fields[4]));
         else ok=false;
     }
-    ok &= std::getline(strm, buffer).good();
+    ok &= !std::getline(strm, buffer).fail();
     fields = utils::splitString(buffer, "# \t");
-    num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
-        if(fields.size() >= 5)
+        if(fields.size() >= 6)
             kvmap.push_back(utils::KeyValueMap(
                 std::string("type=") + SpheroidDensity::myName() +
                 " densityNorm="      + fields[0]+
@@ -1972,6 +1974,8 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 (utils::toDouble(fields[5])!=0 ? " outerCutoffRadius=" + fields[5] : "") ));
         else ok=false;
     }
+    if(!ok)
+        throw std::runtime_error("Error reading GalPot parameters from file "+filename);
     return createPotential(kvmap, conv);
 }
 
-- 
2.43.0


From 82adf669b09fa1021617f19ea5433728cf9838dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 095/102] fix: SelfConsistentModel.components setter leaks the
 previous list and crashes when the attribute is deleted

---
 src/interface_python.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 7283aae..6e50a49 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -5660,12 +5660,14 @@ PyObject* SelfConsistentModel_getComponents(SelfConsistentModelObject* self, voi
 
 int SelfConsistentModel_setComponents(SelfConsistentModelObject* self, PyObject* comp_obj, void*)
 {
-    if(!PyList_Check(comp_obj)) {
+    if(comp_obj==NULL || !PyList_Check(comp_obj)) {  // NULL means an attempt to delete the attribute
         PyErr_SetString(PyExc_TypeError, "SelfConsistentModel.components must be a list");
         return -1;
     }
+    PyObject* old_components = self->components;
+    Py_INCREF(comp_obj);
     self->components = comp_obj;
-    Py_INCREF(self->components);
+    Py_XDECREF(old_components);
     return 0;
 }
 
-- 
2.43.0


From a2e5dced686877347bce2a4541cbc3eca232bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 096/102] fix: Target(type='LOSVD') leaks the array of PSF
 parameters

---
 src/interface_python.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 6e50a49..dbc165a 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6037,6 +6037,7 @@ int Target_init(TargetObject* self, PyObject* args, PyObject* namedArgs)
                         params.spatialPSF.push_back(galaxymodel::GaussianPSF(
                             pyArrayElem<double>(psf_arr, k, 0) * conv->lengthUnit,
                             pyArrayElem<double>(psf_arr, k, 1)));
+                    Py_DECREF(psf_arr);
                 }
             }  // otherwise no PSF is assigned at all
             params.velocityPSF = toDouble(nargs.pop("velpsf"), 0.) * conv->velocityUnit;
-- 
2.43.0


From 47cd867a307a2eecff0f6e49b36645fe717c0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:44 +0000
Subject: [PATCH 097/102] fix: a Target applied to a GalaxyModel ignores the
 selection function of the model

---
 src/interface_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index dbc165a..3691052 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6145,12 +6145,14 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
         // otherwise we may have a GalaxyModel object as input
         if(PyObject_IsInstance(arg, (PyObject*) &GalaxyModelType)) {
             std::vector<galaxymodel::StorageNumT> result(self->target->numCoefs());
+            PtrSelectionFunction selfnc = getSelectionFunction(((GalaxyModelObject*)arg)->sf_obj);
             {   // same remark here
                 PyReleaseGIL unlock;
                 self->target->computeDFProjection(galaxymodel::GalaxyModel(
                     *((GalaxyModelObject*)arg)->pot_obj->pot,
                     *((GalaxyModelObject*)arg)->af_obj->af,
-                    *((GalaxyModelObject*)arg)->df_obj->df),
+                    *((GalaxyModelObject*)arg)->df_obj->df,
+                    *selfnc),
                     &result[0]);
             }
             math::blas_dmul(1./self->unitDFProjection, result);
-- 
2.43.0


From 0df6e71283b718ca606c3fc6e11650689803dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:44 +0000
Subject: [PATCH 098/102] fix: deviation vectors of an orbit may lack the last
 of the output times due to roundoff

---
 src/orbit_variational.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/orbit_variational.cpp b/src/orbit_variational.cpp
index 02891a2..a0a32d2 100644
--- a/src/orbit_variational.cpp
+++ b/src/orbit_variational.cpp
@@ -164,9 +164,10 @@ bool RuntimeVariational::processTimestep(double tbegin, double tend)
     // 2. if needed, store the deviation vector(s) at regular intervals of time
     if(outputDeviationVectors && samplingInterval > 0 && samplingInterval < INFINITY) {
         double sign = tend>=tbegin ? +1 : -1;  // integrating forward or backward in time
-        ptrdiff_t ibegin = static_cast<ptrdiff_t>(sign * (tbegin-t0) / samplingInterval);
-        ptrdiff_t iend   = static_cast<ptrdiff_t>(sign * (tend-t0)   / samplingInterval * (1 + ROUNDOFF));
-        double dtroundoff = ROUNDOFF * fmax(fabs(tend), fabs(tbegin));
+        // same rules for choosing the output times as in RuntimeTrajectory
+        double dtroundoff = ROUNDOFF * fmax(fmax(fabs(tend), fabs(tbegin)), fabs(t0));
+        ptrdiff_t ibegin = static_cast<ptrdiff_t>((sign * (tbegin-t0) - dtroundoff) / samplingInterval);
+        ptrdiff_t iend   = static_cast<ptrdiff_t>((sign * (tend-t0)   + dtroundoff) / samplingInterval);
         for(ptrdiff_t iout=std::max<ptrdiff_t>(ibegin, 1); iout<=iend; iout++) {
             double tout = sign * samplingInterval * iout + t0;
             if(sign * tout >= sign * tbegin - dtroundoff && sign * tout <= sign * tend + dtroundoff)
-- 
2.43.0


From 42b59e79f050f231abe1bdd0cb91629f93abfc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:16 +0000
Subject: [PATCH 099/102] fix: Raga: capture radii of the black holes assign
 the mass ratio of the binary to the right case (single / binary)

---
 src/raga_losscone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raga_losscone.cpp b/src/raga_losscone.cpp
index 79030ba..4de49b9 100644
--- a/src/raga_losscone.cpp
+++ b/src/raga_losscone.cpp
@@ -122,8 +122,8 @@ RagaTaskLosscone::RagaTaskLosscone(
 
 void RagaTaskLosscone::createRuntimeFnc(orbit::BaseOrbitIntegrator& orbint, unsigned int particleIndex)
 {
-    double Mbh0 = bh.sma==0 ? bh.mass / (1 + bh.q) : bh.mass;
-    double Mbh1 = bh.sma==0 ? bh.mass / (1 + bh.q) * bh.q : 0;
+    double Mbh0 = bh.sma>0 ? bh.mass / (1 + bh.q) : bh.mass;
+    double Mbh1 = bh.sma>0 ? bh.mass / (1 + bh.q) * bh.q : 0;
     double captureRadius[2] = {
         fmax(8 * Mbh0 / pow_2(params.speedOfLight),
             particles.point(particleIndex).stellarRadius *
-- 
2.43.0


From a9a04b2c5904db86683f9c4f21347137bc739898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:16 +0000
Subject: [PATCH 100/102] fix: Raga: mass ratio of the binary accounts for the
 fraction of captured mass that is added to the black holes

---
 src/raga_losscone.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raga_losscone.cpp b/src/raga_losscone.cpp
index 4de49b9..5d467b5 100644
--- a/src/raga_losscone.cpp
+++ b/src/raga_losscone.cpp
@@ -195,13 +195,15 @@ void RagaTaskLosscone::finishEpisode()
             " particles, total mass=" + utils::toString(capturedMass[0]) +
             (numBH>1 ? "+" + utils::toString(capturedMass[1]) : ""));
 
-        // add the mass of captured particles to the mass(es) of the black hole(s)
+        // add a fraction of the mass of captured particles to the mass(es) of the black hole(s)
+        capturedMass[0] *= params.captureMassFraction;
+        capturedMass[1] *= params.captureMassFraction;
         if(numBH>1) {  // adjust the mass ratio of the binary
             bh.q =
                 (bh.mass * bh.q + capturedMass[1] * (1 + bh.q)) /
                 (bh.mass        + capturedMass[0] * (1 + bh.q));
         }
-        bh.mass += (capturedMass[0] + capturedMass[1]) * params.captureMassFraction;
+        bh.mass += capturedMass[0] + capturedMass[1];
         totalNumCaptured += sortedCaptures.size();
     }
 }
-- 
2.43.0


From a6d8b8ec12a731fe1748efeb58195664fd85c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:16 +0000
Subject: [PATCH 101/102] fix: Raga: the last sample of a trajectory is not
 lost when its time exceeds the end of the episode by a rounding error

---
 src/raga_potential.cpp  | 6 ++++--
 src/raga_relaxation.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/raga_potential.cpp b/src/raga_potential.cpp
index 0a25da8..d8e0b4c 100644
--- a/src/raga_potential.cpp
+++ b/src/raga_potential.cpp
@@ -4,6 +4,7 @@
 #include "utils.h"
 #include "math_core.h"
 #include <cmath>
+#include <algorithm>
 
 namespace raga {
 
@@ -11,9 +12,10 @@ bool RuntimePotential::processTimestep(double tbegin, double tend)
 {
     double t;
     while(t = outputTimestep * (outputIter - outputFirst + 1),
-        t>tbegin && t<=tend && outputIter != outputLast)
+        // allow for a rounding error in the time of the last sample
+        t>tbegin && t<=tend*(1+1e-14) && outputIter != outputLast)
     {
-        (outputIter++)->first = toPosCyl(orbint.getSol(t));
+        (outputIter++)->first = toPosCyl(orbint.getSol(std::min(t, tend)));
     }
     return true;
 }
diff --git a/src/raga_relaxation.cpp b/src/raga_relaxation.cpp
index ada782b..44252a4 100644
--- a/src/raga_relaxation.cpp
+++ b/src/raga_relaxation.cpp
@@ -7,6 +7,7 @@
 #include "utils.h"
 #include "math_core.h"
 #include "math_random.h"
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <fstream>
@@ -19,9 +20,10 @@ bool RuntimeRelaxation::processTimestep(double tbegin, double tend)
     // taken at regular intervals of time
     double timestep = tend-tbegin, tsamp;
     while(tsamp = outputTimestep * (outputIter - outputFirst + 1),
-        tsamp>tbegin && tsamp<=tend && outputIter != outputLast)
+        // allow for a rounding error in the time of the last sample
+        tsamp>tbegin && tsamp<=tend*(1+1e-14) && outputIter != outputLast)
     {
-        double E = totalEnergy(potentialSph, orbint.getSol(tsamp));
+        double E = totalEnergy(potentialSph, orbint.getSol(std::min(tsamp, tend)));
         *(outputIter++) = relaxationModel.phasevol(E);
     }
 
-- 
2.43.0


From f970350f38f1d1fb6c7bbf0d45549b6e3f125ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:16 +0000
Subject: [PATCH 102/102] fix: orbit: the final state is the one assigned by a
 runtime function during the last timestep, not an extrapolation of the
 previous one; Raga applies the last velocity perturbation in each episode

---
 src/orbit.cpp           | 3 ++-
 src/raga_relaxation.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index d658404..c643fa3 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -74,7 +74,8 @@ coord::PosVelCar BaseOrbitIntegrator::run(const double totalTime)
         if(!contin || currentTime*sign >= endTime*sign || ++numSteps >= maxNumSteps)
             break;
     }
-    return getSol(currentTime);
+    // if a runtime function has reinitialized the orbit during the last timestep, return this new state
+    return getSol(lastTime == lastTime ? currentTime : solver->getTime());
 }
 
 template<typename CoordT>
diff --git a/src/raga_relaxation.cpp b/src/raga_relaxation.cpp
index 44252a4..8c67e6e 100644
--- a/src/raga_relaxation.cpp
+++ b/src/raga_relaxation.cpp
@@ -84,7 +84,7 @@ bool RuntimeRelaxation::processTimestep(double tbegin, double tend)
             uper[d] * deltavper;
 
     // 2f. update the internal state of the orbit integrator with the new velocity
-    orbint.init(coord::PosVelCar(data));
+    orbint.init(coord::PosVelCar(data), tend);
     return true;  // integration may continue
 }
 
-- 
2.43.0

