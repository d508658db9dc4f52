From 3844b6a35b20e2a6309c68017c97d86a7f636b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 01/37] fix: arrival times within rounding of the window limits
 must not index outside the trace

---
 src/particle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..7aafb39 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -803,6 +803,7 @@ void ChargedParticle::integrateFieldTrace(
 	        {
 		        // observation bucket in which the step end falls
 		        int idx2 = round((ts2-t0)/dt);
+		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
@@ -829,8 +830,12 @@ void ChargedParticle::integrateFieldTrace(
 	        {
 		        // observation bucket in which the step start falls
 		        int idx1 = round((ts1-t0)/dt);
+		        // rounding errors must not carry the index across the window boundaries
+		        if (idx1<0) idx1=0;
+		        if (idx1>=nots) idx1=nots-1;
 		        // observation bucket in which the step end falls
 		        int idx2 = round((ts2-t0)/dt);
+		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
-- 
2.43.0


From e926d7ac3a6c24e36a7fb7058e0afe24f6697d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 02/37] fix: particle restored from a trajectory buffer without
 pre-allocation reports Npre=0 instead of an uninitialised value

---
 src/particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 7aafb39..8c91e21 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -141,6 +141,7 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
-- 
2.43.0


From 1d75307f408b6002711d427dcbc7ec30aada05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 03/37] fix: a refused tracking step must not be counted as a
 performed step

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..96d1181 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -123,7 +123,6 @@ void Beam::setupTracking(GeneralField *field)
 
 void Beam::doStep(GeneralField *field)
 {
-    NOTS++;
     switch (tracker)
     {
         case TRACKING_NONE:
@@ -134,6 +133,7 @@ void Beam::doStep(GeneralField *field)
             break;
         case TRACKING_VAY:
             StepVay(field);
+            NOTS++;
             break;
         default:
             throw(IOexception("Beam::doStep - unknown tracking method."));
-- 
2.43.0


From 3181b6e56183a052f92a5ae0b1e95add93ea279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 04/37] fix: Shift and Mirror must include the last point of
 the trajectory

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 8c91e21..33c1095 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -344,7 +344,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -367,7 +367,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From 3ed51eebcd31f13bf7aa21b3a3d4b899af279166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 05/37] fix: back-extrapolation of the retarded field must
 refer to the start time of the trajectory

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 33c1095..8c4fd69 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -649,8 +649,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
-            // t is always negative
-            double t0 = obs_time;
+            // relative to the start of the trajectory - t is always negative
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From 6a3e24811d7446ecf8e7a0e43c0c71a16a1ef7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 06/37] fix: SourceScreen keeps the recorded fields in the
 coordinate system of the file

The traces were rotated into the screen-local frame (ex,ey,normal) but the
radiated field, computed from positions in the file's coordinate system, was
never rotated back, so that any screen not having ex=x, ey=y radiated fields
pointing into wrong directions, and totalEnergy() mixed both frames.
---
 src/source_screen.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..63758a5 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -181,11 +181,10 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
     	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // the field components keep referring to the coordinate system used in the file
+    	    // (as do the cell positions and the normal)
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From 82f7a689140afc3a59797f1ced5e17a68089ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 07/37] fix: SourceScreen orthogonalizes dY with the unit
 vector of dX

dX had already been scaled back to its length when it was used for the
projection, so skew grids were not made orthogonal.
---
 src/source_screen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 63758a5..878adee 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -119,7 +119,7 @@ SourceScreen::SourceScreen(
     dX *= dx;
     dy = dY.norm();
     dY -= normal*dot(dY,normal);
-    dY -= dX*dot(dY,dX);
+    dY -= ex*dot(dY,ex);
     dY.normalize();
     ey = dY;
     dY *= dy;
-- 
2.43.0


From 591256bbe9ac3954de365e6b064fe160cc4a51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 08/37] fix: SourceScreen writes its debugging files from one
 node only

All MPI processes created the same files; the HDF5 file lock makes all but
one of them fail and abort the run.
---
 src/source_screen.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 878adee..fe5643e 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -219,8 +219,12 @@ SourceScreen::SourceScreen(
     // when we are done we write the field to files
     // for debugging purpose only
     //! @todo remove this
-    WriteField("SourceScreenTraces_DEBUG.h5", Traces);
-    WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    // only one node must write - otherwise the nodes compete for the same files
+    if (teufel::rank==0)
+    {
+        WriteField("SourceScreenTraces_DEBUG.h5", Traces);
+        WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    }
   
 }
 
-- 
2.43.0


From 7ab385c8c57e99f25fd21aa23ae9b4a6173bb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 09/37] fix: SourceScreen refuses a Screen dataset of
 unexpected shape

The dataset was read into a 4x3 buffer whatever its size.
---
 src/source_screen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index fe5643e..a786540 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -96,6 +96,12 @@ SourceScreen::SourceScreen(
         }
         
     // read the vectors
+    hid_t vspace = H5Dget_space(dataset);
+    hsize_t vdims[2];
+    if (H5Sget_simple_extent_ndims(vspace) != 2) throw(IOexception("SourceScreen - error reading dataset Screen - dimension != 2"));
+    H5Sget_simple_extent_dims(vspace, vdims, NULL);
+    if ((vdims[0] != 4) or (vdims[1] != 3)) throw(IOexception("SourceScreen - error reading dataset Screen - size != 4x3"));
+    H5Sclose(vspace);
     double* buf = new double[4*3];
     if (buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     status = H5Dread (dataset,
-- 
2.43.0


From 8e487947e4a3ae7a9c14199ec59edf5a153eed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 10/37] fix: FieldTrace::derivative refuses traces of less than
 two samples

It read beyond the end of the trace.
---
 src/fieldtrace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..4bada05 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -199,6 +199,7 @@ Vector FieldTrace::Poynting()
 
 FieldTrace* FieldTrace::derivative()
 {
+    if (N<2) throw(IOexception("FieldTrace::derivative() - at least two samples required."));
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
-- 
2.43.0


From fbd918532b58ba56de3396348c2f7a8de5405a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 11/37] fix: MeshedScreen::get_dt returns the time step
 unrounded

The time step of some ps was returned as the integer zero.
---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..4c50044 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 20831f79431cd0bf833c830013b6b7460da682d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 12/37] fix: MeshedScreen::init sets up local frames for
 screens facing the -y direction

Only meshes facing +y were treated separately. For normals along -y the
cross product with the y axis vanishes and the local frames became NaN.
---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..fa2e55e 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 4e09f3c38b28fe332868f71eb2be52a7e795a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 13/37] fix: MeshedScreen refuses files with inconsistent
 dataset sizes or triangle indices

The datasets were read into buffers sized by the Ncp, Np and Nt attributes
whatever their actual size, corrupting memory or leaving entries undefined,
and triangles could refer to points beyond the end of the list.
---
 src/mesh.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index fa2e55e..73bde1c 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,23 @@
 #include <omp.h>
 #include "hdf5.h"
 
+// Check that a dataset has exactly the given size before it is read into a buffer.
+static void check_size(hid_t dataset, std::string name, std::vector<hsize_t> size)
+{
+    hid_t dspace = H5Dget_space(dataset);
+    if (dspace<0) throw(IOexception("MeshedScreen - error reading dataset size"));
+    int ndims = H5Sget_simple_extent_ndims(dspace);
+    if (ndims!=(int)size.size()) throw(IOexception("MeshedScreen - wrong dimension of dataset"));
+    std::vector<hsize_t> dims(size.size());
+    H5Sget_simple_extent_dims(dspace, dims.data(), NULL);
+    H5Sclose(dspace);
+    if (dims!=size)
+    {
+        std::cout << "MeshedScreen - size mismatch of dataset " << name << std::endl;
+        throw(IOexception("MeshedScreen - wrong size of dataset"));
+    }
+}
+
 template <typename SourceT>
 MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 {
@@ -47,6 +64,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
+    check_size(dataset, "MeshCornerPoints", {(hsize_t)Ncp,3});
     Vector *pos = new Vector[Ncp];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -73,6 +91,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     // create and fill a buffer
+    check_size(dataset, "ObservationPosition", {(hsize_t)Np,3});
     pos = new Vector[Np];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -92,6 +111,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshTriangles"));
+    check_size(dataset, "MeshTriangles", {(hsize_t)Np,3});
     int* buf = new int[3*Np];
     if (buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -111,6 +131,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p1 = *bt++;
         tri.p2 = *bt++;
         tri.p3 = *bt++;
+        if ((tri.p1<0) || (tri.p1>=Ncp) || (tri.p2<0) || (tri.p2>=Ncp) || (tri.p3<0) || (tri.p3>=Ncp))
+            throw(IOexception("MeshedScreen - triangle refers to a non-existing corner point"));
         triangles[ip] = tri;
     }
     delete buf;
@@ -149,6 +171,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
+        check_size(dataset, "ObservationTime", {(hsize_t)Np});
         double* t0_buf = new double[Np];
         if (t0_buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
@@ -187,6 +210,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
+        check_size(dataset, "ElMagField", {(hsize_t)Np,(hsize_t)Nt,6});
         ElMagField* field = new ElMagField[Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
-- 
2.43.0


From 86ac1231df36c1a3e8cf83086d08aba040a70fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 14/37] fix: undulators and dipoles evaluate their definitions
 only once

InputParser::parseLattice has already evaluated the <calc> children before the
element constructor is called; evaluating them again applied self-referencing
definitions (x = x+1) twice and repeated all printouts.
---
 src/dipole.cpp    | 2 --
 src/undulator.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..9e27f41 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -47,7 +47,6 @@ HardEdgeDipole::HardEdgeDipole(Vector B, Vector p1, Vector n1, Vector p2, Vector
 HardEdgeDipole::HardEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::HardEdgeDipole - <B> not found."));
@@ -147,7 +146,6 @@ SoftEdgeDipole::SoftEdgeDipole(Vector B, Vector p1, Vector n1, double t1, Vector
 SoftEdgeDipole::SoftEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::SoftEdgeDipole - <B> not found."));
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..8322b5b 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -39,7 +39,6 @@ PlanarUndulator::PlanarUndulator(Vector pos) :
 PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::PlanarUndulator - undulator <position> not found."));
@@ -140,7 +139,6 @@ TransverseGradientUndulator::TransverseGradientUndulator(Vector pos) :
 TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::TransverseGradientUndulator - undulator <position> not found."));
-- 
2.43.0


From 9ac06ba347e97df2fbdb22112dea6bcbf99c179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 15/37] fix: accept calc definitions inside <correlations>

The definitions are evaluated by parseCalcChildren() but were then rejected
as an unknown type of correlation.
---
 src/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..627bddd 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -448,6 +448,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        // definitions have already been evaluated
+                        if (ctype == "calc") continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
@@ -545,6 +547,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        // definitions have already been evaluated
+                        if (ctype == "calc") continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
-- 
2.43.0


From ddafcca12543ce03a1d4c43639e48590db8589ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 16/37] fix: definitions inside <particle> and <bunch> are
 evaluated before the values using them

gamma, charge and cmr were evaluated before the <calc> children of the entry.
---
 src/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 627bddd..891978e 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -312,11 +312,11 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 parseCalc(entry);
             else if (type == "particle")
             {
+                parseCalcChildren(entry);
                 double gamma = parseDouble(entry.attribute("gamma"));
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
-                parseCalcChildren(entry);
                 double t0;
                 pugi::xml_node timenode = entry.child("time");
                 if (!timenode)
@@ -365,12 +365,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
             }
             else if (type == "bunch")
             {
+                parseCalcChildren(entry);
                 double gamma = parseDouble(entry.attribute("gamma"));
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
                 int NoP = entry.attribute("n").as_int(1);
-                parseCalcChildren(entry);
                 double t0 = 0.0;
                 double x, y, z;
                 double xrms = 0.0;
-- 
2.43.0


From 779b4824ee3e741f450c971c5d7612ad913e37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 17/37] fix: evaluate calc definitions inside <SDDS> beam
 entries

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 891978e..a7bf778 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -523,6 +523,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 pugi::xml_attribute sddsname = entry.attribute("file");
                 if (!sddsname)
                     throw(IOexception("InputParser::parseBeam - <SDDS> attribute file not found."));   
+                parseCalcChildren(entry);
                 // parse propagation  direction of the input beam
                 Vector dir = Vector(0.0, 0.0, 1.0);
                 pugi::xml_node dirnode = entry.child("dir");
-- 
2.43.0


From 6dea2985b582a67f385111f35f661c20a8b474c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 18/37] fix: FEL-1D interaction uses the time step of the beam

The delta_t expression was evaluated a second time, yielding a different time
step when a definition inside <tracking> changes a variable used in it.
---
 src/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index a7bf778..d0d2f1f 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -659,8 +659,8 @@ void InputParser::parseTracking(
             {
                 parseCalcChildren(child);
                 // the interaction object parses its own input, we provide a reference to the parser
-                // the timestep attribute has already been evaluated - thats necessary
-                FEL_1D* fel_interaction = new FEL_1D(parseDouble(timestep), child, this);
+                // the timestep attribute has already been evaluated (once) and set for the beam
+                FEL_1D* fel_interaction = new FEL_1D(beam->getTimeStep(), child, this);
                 interactions->push_back(fel_interaction);
             }
             else if (type == "watch")
-- 
2.43.0


From b7e8b41d86fb6a8e7d372d9a3e0d8a7e1e3fb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 19/37] fix: FEL_1D default constructor sets both field
 directions

e_x was assigned twice leaving e_y zero, i.e. a wave without magnetic field
polarized along y instead of x.
---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..5671abf 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From bfa8dfcc3561806444b9cef4f66ba298158450eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 20/37] fix: SourceScreen closes its debugging files

The attributes were never closed, which kept the files open. A second
<screen> source in the lattice could not create its files and the input
was rejected.
---
 src/source_screen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index a786540..a9afacd 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -355,6 +355,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -364,6 +365,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -373,6 +375,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -383,6 +386,7 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -392,6 +396,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -401,6 +406,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -410,6 +416,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -457,6 +464,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -465,6 +473,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -473,6 +482,7 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    H5Aclose (attr);
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From 8012a460b9dbc65fac33bd313b1e137c8bc5dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 21/37] fix: FEL_1D without a log defines its output interval

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 5671abf..d3ce4e4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -109,6 +109,7 @@ FEL_1D::FEL_1D(
         if (st) step_Output = st.as_int();
         createOutput = true;
     } else {
+        step_Output = 1;
         createOutput = false;
     }
     // read the optical mode definition
-- 
2.43.0


From fc5be0995a44485894b19838c444694264368236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 22/37] fix: FEL_1D records the field after the first step if
 requested

---
 src/fel1d.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index d3ce4e4..9e0966c 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -219,6 +219,13 @@ void FEL_1D::init(Beam *beam)
     head += prop*ds;
     previous_E = field_E;
     field_E = next_E;
+
+    // the first step is recorded like all others (no current density is considered)
+    if (0 == N_steps % step_Output)
+    {
+        field_storage.push_back(field_E);
+        J_storage.push_back(std::vector<double>(N_field, 0.0));
+    }
 }
 
 void FEL_1D::step(Beam *beam)
-- 
2.43.0


From cbedc18f9250bc5d70b8da4d93ac69f1401517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 23/37] fix: FEL_1D refuses grids of less than two cells and
 log steps below one

---
 src/fel1d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 9e0966c..635732c 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -59,6 +59,9 @@ FEL_1D::FEL_1D(
     if (!att)
         throw(IOexception("InputParser::FEL1D - attribute N not found."));
     N_field = parser->parseInt(att);
+    // the propagation algorithm needs at least two cells
+    if (N_field<2)
+        throw(IOexception("InputParser::FEL1D - N must be at least 2."));
     pugi::xml_node vec = node.child("position");
     if (!vec)
         throw(IOexception("InputParser::FEL1D - <position> not found."));
@@ -107,6 +110,8 @@ FEL_1D::FEL_1D(
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = st.as_int();
+        if (step_Output<1)
+            throw(IOexception("InputParser::FEL1D - <log> step must be positive."));
         createOutput = true;
     } else {
         step_Output = 1;
-- 
2.43.0


From e76b61afb24cdcae47cc9de8e822ca78ef5857e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 24/37] fix: watch-point SDDS file states the charge in C

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index 96d1181..d5e7b3d 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From be7f0e4f7d4b566c462e73f9347592c8d7f84293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 25/37] fix: bunches can be read from SDDS files with long
 names

---
 src/bunch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..2194f40 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -192,11 +192,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::vector<char> fn(filename, filename+strlen(filename)+1);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, fn.data() ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0


From 417dfcfa6e4d5b46483a3bee12ea7d2f2c025e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 26/37] fix: SDDS files with a wrong number of particles are
 not read as a bunch

---
 src/bunch.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 2194f40..c88eb70 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -228,6 +228,12 @@ Bunch::Bunch(const char *filename, Vector dir)
     // we only assign a local variable here, so NOP stays zero
     // just in case there may be further errors
     int file_NOP = *nopData;
+    // every particle must be present in the table
+    if (file_NOP != SDDS_RowCount(&SDDS_dataset))
+    {
+        std::cout << "number of particles does not match the number of rows read" << std::endl;
+        return;
+    };
 
     // the file value is the total charge [C] unsigned value
     char chName[] = "Charge";
-- 
2.43.0


From a7ed919024537597b55a632c3f0855b3ecc24226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 27/37] fix: count the fields of the lattice once when summing
 over the nodes

---
 src/teufel_hybrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..62f66d8 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,9 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // the complete lattice exists on every node - it must be counted just once
+            // when the fields of all nodes are summed up
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From ae6625cfb429a7c42359076f27acfb53f0995c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 28/37] fix: refuse logging intervals that are not positive
 instead of dividing by zero

---
 src/parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index d0d2f1f..669ce29 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -356,6 +356,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = st.as_int();
+                    if (step<1)
+                        throw(IOexception("InputParser::parseBeam - logging step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -486,9 +488,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     pugi::xml_attribute fn = lognode.attribute("file");
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
-                    //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = st.as_int();
+                    if (step<1)
+                        throw(IOexception("InputParser::parseBeam - logging step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -507,6 +510,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
                     if (st) step = st.as_int();
+                    if (step<1)
+                        throw(IOexception("InputParser::parseBeam - logging step must be positive."));
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
                     if (np) particles = np.as_int();
@@ -586,6 +591,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = st.as_int();
+                    if (step<1)
+                        throw(IOexception("InputParser::parseBeam - logging step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -606,9 +613,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 if (!filename)
                     throw(IOexception("InputParser::parseBeam - <probe> attribute file not found."));
                 probe->filename = filename.as_string();
-                probe->step = 1;
+                int step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = st.as_int();
+                if (st) step = st.as_int();
+                if (step<1)
+                    throw(IOexception("InputParser::parseBeam - <probe> step must be positive."));
+                probe->step = step;
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
                 if (nm) probe->number = nm.as_int();
-- 
2.43.0


From 91bdba162f79a9ef00eeebd6dfbae02a2e37e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 29/37] fix: propagate needs three arguments, print the usage
 otherwise

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..f9bcc0f 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From 7d085381111384832023cb6238e688f9ab7fe720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 30/37] fix: propagation from meshes with many triangles around
 a point overran fixed-size buffers

---
 src/propagate.cpp  | 6 +++---
 src/reflection.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index f9bcc0f..a1d82bc 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -152,8 +152,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +187,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..3709805 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -234,8 +234,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +269,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From 8e41aacc8420de07e3a29e2f4ceb87add4c08757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 31/37] fix: propagation dropped contributions of traces
 without radiation intensity

---
 src/propagate.cpp  | 9 +++++----
 src/reflection.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index a1d82bc..213416c 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -381,7 +381,6 @@ int main(int argc, char* argv[])
                 {
                     FieldTrace t1 = source->get_trace(isource);
                     t1.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -390,11 +389,12 @@ int main(int argc, char* argv[])
                     if (DEBUGLEVEL>=2) std::cout << "FieldTrace 1st term zero propagating from i(source)=" << isource;
                     if (DEBUGLEVEL>=2) std::cout << " to i(target)=" << index << std::endl;
                 }
+                // a trace without radiation intensity (e.g. of just one kind of field) still contributes
+                propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
                 try
                 {
                     FieldTrace t2 = *source_dA_dt[isource];
                     t2.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -403,12 +403,11 @@ int main(int argc, char* argv[])
                     if (DEBUGLEVEL>=2) std::cout << "FieldTrace 2nd term zero propagating from i(source)=" << isource;
                     if (DEBUGLEVEL>=2) std::cout << " to i(target)=" << index << std::endl;
                 }
+                propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 try
                 {
                     FieldTrace t3 = *source_dA_dn[isource];
                     t3.retard(R/SpeedOfLight, &component);
-                    //! @todo why is this term positive - should be negative
-                    propagated_trace += component * (1.0/R) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -417,6 +416,8 @@ int main(int argc, char* argv[])
                     if (DEBUGLEVEL>=2) std::cout << "FieldTrace 3rd term zero propagating from i(source)=" << isource;
                     if (DEBUGLEVEL>=2) std::cout << " to i(target)=" << index << std::endl;
                 }
+                //! @todo why is this term positive - should be negative
+                propagated_trace += component * (1.0/R) * dA;
             };
             
             target->set_trace(index, propagated_trace);
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 3709805..d5d44ce 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -492,7 +492,6 @@ int main(int argc, char* argv[])
                 try
                 {
                     t1.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -509,11 +508,12 @@ int main(int argc, char* argv[])
                         std::cout << " ... " << component.get_t0()+component.get_N()*component.get_dt() << std::endl;
                     }
                 }
+                // a trace without radiation intensity (e.g. of just one kind of field) still contributes
+                propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
                 try
                 {
                     FieldTrace t2 = *source_dA_dt[isource];
                     t2.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -522,12 +522,11 @@ int main(int argc, char* argv[])
                     if (DEBUGLEVEL>=2) std::cout << "FieldTrace 2nd term zero propagating from i(source)=" << isource;
                     if (DEBUGLEVEL>=2) std::cout << " to i(target)=" << index << std::endl;
                 }
+                propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 try
                 {
                     FieldTrace t3 = *source_dA_dn[isource];
                     t3.retard(R/SpeedOfLight, &component);
-                    //! @todo why is this term positive - should be negative
-                    propagated_trace += component * (1.0/R) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -536,6 +535,8 @@ int main(int argc, char* argv[])
                     if (DEBUGLEVEL>=2) std::cout << "FieldTrace 3rd term zero propagating from i(source)=" << isource;
                     if (DEBUGLEVEL>=2) std::cout << " to i(target)=" << index << std::endl;
                 }
+                //! @todo why is this term positive - should be negative
+                propagated_trace += component * (1.0/R) * dA;
             };
             
             target->set_trace(index, propagated_trace);
-- 
2.43.0


From 037555dc1f03dce2e445ba184055ffad56fa235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 32/37] fix: TeufelWatch reads the momenta of SDDS watch files
 from the columns px, py, pz

---
 scripts/plot_Watch.py | 9 +++------
 scripts/teufel.py     | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/scripts/plot_Watch.py b/scripts/plot_Watch.py
index 4b668a3..68bc631 100755
--- a/scripts/plot_Watch.py
+++ b/scripts/plot_Watch.py
@@ -96,14 +96,11 @@ if is_sdds:
     data.load(bunfile)
 
     x = np.array(data.getColumnData("x"))
-    xp = np.array(data.getColumnData("xp"))
     y = np.array(data.getColumnData("y"))
-    yp = np.array(data.getColumnData("yp"))
-    p = np.array(data.getColumnData("p"))
     z = np.array(data.getColumnData("z"))
-    bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
-    bgx = bgz*xp
-    bgy = bgz*yp
+    bgx = np.array(data.getColumnData("px"))
+    bgy = np.array(data.getColumnData("py"))
+    bgz = np.array(data.getColumnData("pz"))
     print(f'have read {x.shape} particles.')
 
 xmean = np.mean(x)
diff --git a/scripts/teufel.py b/scripts/teufel.py
index 53d9666..b7014dd 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -274,14 +274,11 @@ class TeufelWatch():
             data = sdds.SDDS(0)
             data.load(filename)
             watch.x = np.array(data.getColumnData("x"))
-            xp = np.array(data.getColumnData("xp"))
             watch.y = np.array(data.getColumnData("y"))
-            yp = np.array(data.getColumnData("yp"))
-            p = np.array(data.getColumnData("p"))
             watch.z = np.array(data.getColumnData("z"))
-            watch.bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
-            watch.bgx = bgz*xp
-            watch.bgy = bgz*yp
+            watch.bgx = np.array(data.getColumnData("px"))
+            watch.bgy = np.array(data.getColumnData("py"))
+            watch.bgz = np.array(data.getColumnData("pz"))
         watch.NOP = watch.x.shape[0]
         print(f'have read {watch.NOP} particles.')
         # compute more particle properties
-- 
2.43.0


From 305127edb79cd4c8400630421150c2948189758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 33/37] fix: InterpolateTrace accepts the time of the last
 sample

---
 scripts/MeshedFields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/MeshedFields.py b/scripts/MeshedFields.py
index 813f2c9..10bd751 100644
--- a/scripts/MeshedFields.py
+++ b/scripts/MeshedFields.py
@@ -392,7 +392,9 @@ def InterpolateTrace(trace,t0,dt,t):
     else:
         index = int(math.floor((t-t0)/dt))
         frac = (t-t0)/dt-index
-        field = trace[index]*(1.0-frac) + trace[index+1]*frac
+        field = trace[index]*(1.0-frac)
+        # there is no next sample at the very end of the trace
+        if index+1<NOTS: field = field + trace[index+1]*frac
     return field
     
 def ShowTrace(trace,t0,dt):
-- 
2.43.0


From f9628665298404f88e81fa0b486d521ccef2372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 34/37] fix: frequency axes of spectra have the spacing 1/(N
 dt)

---
 scripts/plot_MeshedField.py      | 2 +-
 scripts/plot_PointObservation.py | 2 +-
 scripts/plot_Screen_Cross.py     | 2 +-
 scripts/screen.py                | 4 ++--
 scripts/teufel.py                | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/plot_MeshedField.py b/scripts/plot_MeshedField.py
index 750b97a..5aafc75 100755
--- a/scripts/plot_MeshedField.py
+++ b/scripts/plot_MeshedField.py
@@ -61,7 +61,7 @@ print("total pulse energy = %.6g µJ" % (1e6*np.dot(area,Pz)))
 
 nf = screen.Nt
 fmax = 1.0/screen.dt
-f = np.linspace(0.0,fmax,nf)[:nf//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
 df=1.0/screen.dt/nf
 print()
 print("trace length = %d" % screen.Nt)
diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index 9e0e5a2..e496aba 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -103,7 +103,7 @@ for file in args.files:
     if args.spectrum:
         nf = nots
         fmax = 1.0/dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/dt/nf
         spectE = np.fft.fft(Ex)[:nf//2]
         spectB = np.fft.fft(By)[:nf//2]
diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 0692215..038afe6 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -78,7 +78,7 @@ Bz = BVec[:,2]
 nf = screen.nots
 dt = screen.dt
 fmax = 1.0/dt
-f = np.linspace(0.0,fmax,nf)[:nots//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nots//2]
 df=1.0/screen.dt/nf
 spectE = np.fft.fft(Ex)[:nots//2]
 # print spectE[:30]
diff --git a/scripts/screen.py b/scripts/screen.py
index ff0e537..0c2c557 100644
--- a/scripts/screen.py
+++ b/scripts/screen.py
@@ -190,7 +190,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -204,7 +204,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
diff --git a/scripts/teufel.py b/scripts/teufel.py
index b7014dd..2b33449 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -203,7 +203,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -217,7 +217,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
-- 
2.43.0


From 07dce79b2b56e31497ed5536192f801be0cf8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 35/37] fix: plot_PointObservation uses the time steps of the
 file

---
 scripts/plot_PointObservation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index e496aba..a9accff 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -57,7 +57,7 @@ for file in args.files:
         dt = data.getParameterValue("dt")
         nots = data.getParameterValue("NumberTimeSteps")
         print(r'%d steps starting at t0=%12.3g s step dt=%12.3g s' % (nots,t0,dt))
-        t = (np.linspace(t0, t0+nots*dt, num=nots)+0.5*dt)*1e9
+        t = np.linspace(t0, t0+(nots-1)*dt, num=nots)*1e9
     else:
         print("unable to read the timing")
         sys.exit()
-- 
2.43.0


From 91b873f9000bd0726ff2980bf3f061a59172125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 36/37] fix: a step ending far behind the observation window
 was not (or wrongly) deposited

---
 src/particle.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 8c4fd69..15a6a75 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -803,7 +803,9 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
+		        // (a step may end arbitrarily far behind the observation range)
+		        int idx2 = nots;
+		        if (ts2<tmax) idx2 = round((ts2-t0)/dt);
 		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        // handle all fully covered buckets
@@ -835,7 +837,9 @@ void ChargedParticle::integrateFieldTrace(
 		        if (idx1<0) idx1=0;
 		        if (idx1>=nots) idx1=nots-1;
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
+		        // (a step may end arbitrarily far behind the observation range)
+		        int idx2 = nots;
+		        if (ts2<tmax) idx2 = round((ts2-t0)/dt);
 		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        if (idx1==idx2)
-- 
2.43.0


From 11231e2d97d2b1b1b302e3262282326897673d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 37/37] fix: release arrays with delete[]

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 73bde1c..ec7a4a6 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -79,7 +79,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -106,7 +106,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -135,7 +135,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             throw(IOexception("MeshedScreen - triangle refers to a non-existing corner point"));
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -196,7 +196,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -230,7 +230,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -518,7 +518,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -576,7 +576,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -634,7 +634,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -693,7 +693,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -748,7 +748,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..609bb5b 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -483,7 +483,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -548,7 +548,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..df11b9e 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    if (particlesStored>0) delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index a9afacd..55dec11 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -197,7 +197,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -426,7 +426,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -492,7 +492,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0

