From 84d6f52b9c844ecad460b540ddc48ae366fb331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 1/2] fix: retire particles with NaN coordinates instead of
 indexing the grid with them

A NaN coordinate passed the domain test in Bucket::storeParticles, was
converted to int (undefined) and used as a cell index out of bounds.
---
 src/bucket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..60f5d92 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -37,12 +37,13 @@ void Bucket::storeParticles(Particles& particles) {
         if (p.type == ParticleType::Ghost)
             continue;
 
+        // the comparisons are written such that a NaN coordinate counts as out of domain
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From 0feef92107341caf918d929e4fc78aaa5905b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 2/2] fix: read densities of a VTU file only from the array
 named Density

Number Density and Number Density Ratio, which every exported VTU file
contains, also matched and were taken as the densities of the particles.
---
 src/particles_loader/vtu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..6b7399b 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -99,8 +99,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             }
         }
 
-        // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // Extract densities ("Number Density" and "Number Density Ratio" are other quantities)
+        if (line.find("Name=\"Density\"") != std::string::npos || line.find("Name='Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0

