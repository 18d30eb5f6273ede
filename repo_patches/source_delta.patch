From 74eaddd5d88327f604ffd01efe0cb069e6e53f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 001/224] fix: StringPattern: a final literal must match the
 end of the string

---
 Merlin++/StringPattern.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..3e97a82 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -83,7 +83,12 @@ bool StringPattern::Match(const std::string& s) const
 			return false;
 		}
 
-		if(allowFloat)
+		if(allowFloat && !wcterm.second && i + 1 == patterns.end())
+		{
+			// nothing may follow the last literal: it has to match the end of the string
+			return s.length() - n >= (*i).length() && s.compare(s.length() - (*i).length(), string::npos, *i) == 0;
+		}
+		else if(allowFloat)
 		{
 			n = s.find(*i, n);
 			if(n == string::npos)
-- 
2.43.0


From 7c644ee0857e7eab30245169f2e4ab82ba2b47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 002/224] fix: StringPattern: print all alternatives of an OR'd
 pattern

---
 Merlin++/StringPattern.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 3e97a82..c9ec07e 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -122,6 +122,12 @@ bool StringPattern::Match(const std::string& s) const
 
 ostream& operator <<(ostream& os, const StringPattern& pattern)
 {
+	if(!pattern.orpatterns.empty())
+	{
+		// alternatives have no wildcard structure of their own
+		return os << pattern.str;
+	}
+
 	if(pattern.wcterm.first)
 	{
 		os << StringPattern::wcchar;
-- 
2.43.0


From 48b32c7752fa1e1b4a56f3cf9e5b2b3d73875dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 003/224] fix: TFS reader: keep empty quoted strings

---
 Merlin++/DataTableTFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..3e38f0f 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false; // a quoted word may be empty
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,7 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
-- 
2.43.0


From a7039bc6ffb2b0fac40df33cbcf0a029e3d3c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 004/224] fix: TFS reader: report files without a '*' or '$'
 line as badly formatted

---
 Merlin++/DataTableTFS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 3e38f0f..cfbbd46 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -118,7 +118,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.size() == 0 || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -131,7 +131,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.size() == 0 || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From d60d9929a387b2c9a36295b963d8f9ee2c4b4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:51 +0000
Subject: [PATCH 005/224] fix: DataTable: subnormal numbers written to a table
 can be read back

---
 Merlin++/DataTable.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 514f9f0..7113ae2 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -5,10 +5,32 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <cmath>
+#include <cstdlib>
 #include "DataTable.h"
 #include <cassert>
 #include <iostream>
 
+/**
+ * As std::stod, but accepts subnormal values, which std::stod rejects as out of range
+ */
+static double str_to_double(const std::string &x)
+{
+	try
+	{
+		return std::stod(x);
+	}
+	catch(const std::out_of_range &)
+	{
+		double v = std::strtod(x.c_str(), nullptr);
+		if(std::fabs(v) > 1)
+		{
+			throw; // overflow
+		}
+		return v;
+	}
+}
+
 void DataTable::AddColumn(std::string col_name, char type)
 {
 	if(lookup.count(col_name))
@@ -170,7 +192,7 @@ void DataTable::SetWithStr(const std::string col_name, size_t i, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		Set_d(col_name, i, stod(x));
+		Set_d(col_name, i, str_to_double(x));
 		break;
 	case 'i':
 		Set_i(col_name, i, stoi(x));
@@ -302,7 +324,7 @@ void DataTable::HeaderSetWithStr(const std::string col_name, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		HeaderSet_d(col_name, stod(x));
+		HeaderSet_d(col_name, str_to_double(x));
 		break;
 	case 'i':
 		HeaderSet_i(col_name, stoi(x));
-- 
2.43.0


From 44c5bd66062a1b6738287dfa4f716a68d0a152f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:52 +0000
Subject: [PATCH 006/224] fix: rotations: do not drop the product of very small
 rotations

---
 Merlin++/AxisRotations.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Merlin++/AxisRotations.cpp b/Merlin++/AxisRotations.cpp
index 8367c0c..461d446 100644
--- a/Merlin++/AxisRotations.cpp
+++ b/Merlin++/AxisRotations.cpp
@@ -9,6 +9,7 @@
 #include "RotationMatrix.h"
 #include "GeneralRotation.h"
 #include "AxisRotations.h"
+#include "utils.h"
 
 double PureAxisRotation::angle() const
 {
@@ -38,13 +39,13 @@ Rot3Drep* RotationX::dot(const Rot3Drep& r) const
 Rot3Drep* RotationX::dotBy(const RotationX& rx) const
 {
 	double ncos = cosine() * rx.cosine() - sine() * rx.sine();
-	if(ncos == 1)
+	double nsin = sine() * rx.cosine() + cosine() * rx.sine();
+	if(ncos == 1 && fequal(nsin, 0.0))
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rx.cosine() + cosine() * rx.sine();
 		return new RotationX(ncos, nsin);
 	}
 }
@@ -124,13 +125,13 @@ Rot3Drep* RotationY::dotBy(const RotationX& rx) const
 Rot3Drep* RotationY::dotBy(const RotationY& ry) const
 {
 	double ncos = cosine() * ry.cosine() - sine() * ry.sine();
-	if(ncos == 1)
+	double nsin = sine() * ry.cosine() + cosine() * ry.sine();
+	if(ncos == 1 && fequal(nsin, 0.0))
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * ry.cosine() + cosine() * ry.sine();
 		return new RotationY(ncos, nsin);
 	}
 }
@@ -210,13 +211,13 @@ Rot3Drep* RotationZ::dotBy(const RotationY& ry) const
 Rot3Drep* RotationZ::dotBy(const RotationZ& rz) const
 {
 	double ncos = cosine() * rz.cosine() - sine() * rz.sine();
-	if(ncos == 1)
+	double nsin = sine() * rz.cosine() + cosine() * rz.sine();
+	if(ncos == 1 && fequal(nsin, 0.0))
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rz.cosine() + cosine() * rz.sine();
 		return new RotationZ(ncos, nsin);
 	}
 }
-- 
2.43.0


From 580d712faf2d3cf674950070183aa60be270a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:52 +0000
Subject: [PATCH 007/224] fix: rotations: a very small general rotation is not
 the identity

---
 Merlin++/GeneralRotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/GeneralRotation.cpp b/Merlin++/GeneralRotation.cpp
index 9278c79..73eb2ce 100644
--- a/Merlin++/GeneralRotation.cpp
+++ b/Merlin++/GeneralRotation.cpp
@@ -193,7 +193,7 @@ RotationType GeneralRotation::type() const
 
 bool GeneralRotation::isIdentity() const
 {
-	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0;
+	return isXrot() && isYrot() && isZrot();
 }
 
 bool GeneralRotation::isXrot() const
-- 
2.43.0


From 6e99527409a558105abe2f57716927ebb2436718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 008/224] fix: 2D rotation by pi is not the identity

---
 Merlin++/Transform2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 3a19520..45e36e5 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -76,7 +76,7 @@ public:
 	 */
 	bool isIdentity() const
 	{
-		return fequal(sina, 0.0);
+		return fequal(sina, 0.0) && cosa > 0;
 	}
 
 	/**
-- 
2.43.0


From 4177bcce594efdc4ba39b9f8fb5dc31e45220561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 009/224] fix: sequence geometry: invert a reversed transform
 within a single sub-frame

---
 Merlin++/SequenceFrame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..e299d5a 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -300,7 +300,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t1 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t1.inv() : t1;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From 40380eb61ff84139344ea31ed8181948bbdc0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 010/224] fix: sequence geometry: cache the total transform of
 sequences with origin at entrance or exit

---
 Merlin++/SequenceFrame.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index e299d5a..e60ff22 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -380,15 +380,15 @@ double SequenceGeometry::GetGeometryLength() const
 void SequenceGeometry::CalculateCachedTransforms()
 {
 	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	delete t_cache;
+	t_cache = nullptr;
+	const Transform3D total = GetTotalGeometryTransform(); // from the sub-frames
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -396,7 +396,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = total.inv();
 		break;
 	}
 
-- 
2.43.0


From 2a368fee990866cf6f347d7fbe90ddb935ea9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 011/224] fix: sequence geometry: locate the centre of a
 sequence inside a sub-frame correctly

---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index e60ff22..677538a 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -427,7 +427,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From d3922bf325fb03ff478999c3fe97ce73baa17d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 012/224] fix: sequence geometry: empty sequences have identity
 transforms

---
 Merlin++/SequenceFrame.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 677538a..7f8137f 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -435,7 +435,10 @@ void SequenceGeometry::CalculateCentreCT()
 		}
 	}
 
-	assert(fi != theFrameList->end());
+	if(fi == theFrameList->end())
+	{
+		return; // empty sequence: identity transforms
+	}
 	fi++;
 
 	for(; fi != theFrameList->end(); fi++)
-- 
2.43.0


From a3cabccc69048e64167fc670be7aab6da8740eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 013/224] fix: sequence geometry: tolerate rounding of
 positions at the sequence ends

---
 Merlin++/SequenceFrame.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 7f8137f..b99b02d 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -9,6 +9,7 @@
 #include "AcceleratorGeometry.h"
 #include "SequenceFrame.h"
 #include "deleters.h"
+#include <algorithm>
 
 using namespace std;
 
@@ -260,10 +261,14 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		s0 += len_t;
 	}
 
-	if(s < 0 || s > len_t || s0 < 0 || s0 > len_t)
+	// positions accumulate rounding errors
+	const double tol = 1.0e-12 * std::max(1.0, len_t);
+	if(s < -tol || s > len_t + tol || s0 < -tol || s0 > len_t + tol)
 	{
 		throw BeyondExtent();
 	}
+	s = std::min(std::max(s, 0.0), len_t);
+	s0 = std::min(std::max(s0, 0.0), len_t);
 
 	if(fequal(s0, 0) && fequal(s, len_t))
 	{
@@ -283,8 +288,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(fequal(s0, l) || s0 < l || *fi == theFrameList->back())
 		{
+			s0 = std::min(s0, l);
 			break;
 		}
 		s0 -= l;
@@ -298,8 +304,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	if(fequal(s, l) || s < l || *fi == theFrameList->back())
 	{
+		s = std::min(s, l);
 		Transform3D t1 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
 		return inv_t ? t1.inv() : t1;
 	}
@@ -311,8 +318,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(fequal(s, l) || s < l || *fi == theFrameList->back())
 		{
+			s = std::min(s, l);
 			break;
 		}
 		t = ((*fi)->GetTotalGeometryTransform()) * t;
-- 
2.43.0


From 97caf7019e6f1d0b7033dadd8c49b05620658d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 014/224] fix: copies of component and sequence frames keep
 their geometry

---
 Merlin++/ComponentFrame.h  | 4 ++++
 Merlin++/SequenceFrame.cpp | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..3c8823c 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,10 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	if(theComponent != nullptr)
+	{
+		SetGeometry(theComponent->GetGeometry());
+	}
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b99b02d..8d36e03 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -107,9 +107,11 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(&subFrames, rhs.itsSeqGeom->omode);
+	itsSeqGeom->len_t = rhs.itsSeqGeom->len_t;
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
+	itsSeqGeom->CalculateCachedTransforms();
 }
 
 SequenceFrame::~SequenceFrame()
-- 
2.43.0


From 4efc0d7033b0daf7f1264fd6fbe415b5d5b78d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 015/224] fix: arc geometry of zero curvature is a straight
 line

---
 Merlin++/ArcGeometry.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..5425881 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,8 +10,13 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double s, double h)
 {
+	if(h == 0)
+	{
+		return Transform3D::translation(0, 0, s);
+	}
+	const double phi = s * h;
 	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
@@ -20,16 +25,15 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	return MakeTransform(p == entrance ? -len / 2 : len / 2, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(len, h);
 }
-- 
2.43.0


From 9bec717b046bf001102a1f51df9ad19cf9739265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 016/224] fix: girders follow a change of either support

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..d488f7e 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -86,7 +86,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From a75393ed0155200278e30e7ad643e87eb4d12e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 017/224] fix: copied simple mounts have no second support

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index d488f7e..359ede5 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -17,7 +17,7 @@ SupportStructure::SupportStructure(const string& id, Type type) :
 }
 
 SupportStructure::SupportStructure(const SupportStructure& rhs) :
-	SequenceFrame(rhs)
+	SequenceFrame(rhs), sup2(nullptr)
 {
 	sup1 = new AcceleratorSupport();
 	if(rhs.sup2)
-- 
2.43.0


From d47373405065f82747f8e98fef896bddecbe0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 018/224] fix: magnet movers can be copied

---
 Merlin++/MagnetMover.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Merlin++/MagnetMover.cpp b/Merlin++/MagnetMover.cpp
index da935ca..72c18e9 100644
--- a/Merlin++/MagnetMover.cpp
+++ b/Merlin++/MagnetMover.cpp
@@ -14,9 +14,7 @@ const std::string& MagnetMover::GetType() const
 
 ModelElement* MagnetMover::Copy() const
 {
-	// Not sure what to do here!
-	assert(false);
-	return nullptr;
+	return new MagnetMover(*this);
 }
 
 Transform3D MagnetMover::GetLocalFrameTransform() const
-- 
2.43.0


From 0c9ea044229d58141bc5dd5ce1181526b87608f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 019/224] fix: do not ignore random errors smaller than 15 nm
 or nrad

---
 Merlin++/AcceleratorErrors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index ccd18af..24e607a 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -37,9 +37,9 @@ public:
 				frame->ClearLocalFrameTransform();
 			}
 
-			double ex = fequal(vx, 0.0) ? mx : RandomNG::normal(mx, vx);
-			double ey = fequal(vy, 0.0) ? my : RandomNG::normal(my, vy);
-			double ez = fequal(vz, 0.0) ? mz : RandomNG::normal(mz, vz);
+			double ex = vx == 0.0 ? mx : RandomNG::normal(mx, vx);
+			double ey = vy == 0.0 ? my : RandomNG::normal(my, vy);
+			double ez = vz == 0.0 ? mz : RandomNG::normal(mz, vz);
 			if(t)
 			{
 				frame->Translate(ex, ey, ez);
-- 
2.43.0


From c48852a7e2d3bb07981b7394cf63e05fcd660359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 020/224] fix: girders in bends: offset equal on both supports
 is in the entrance plane frame

---
 Merlin++/SupportStructure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 359ede5..2aba727 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -115,7 +115,9 @@ void SupportStructure::UpdateSupportTransform() const
 		// check to see if we have a simple translation
 		if(X1 == X2)
 		{
-			Ts = Transform3D::translation(X1.x, X1.y, X1.z);
+			// the offset is in the entrance plane frame
+			Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
+			Ts = Tin.inv() * Transform3D::translation(X1.x, X1.y, X1.z) * Tin;
 		}
 		else
 		{
-- 
2.43.0


From 801bebd5d0fad819fd19a5a901f4cf56723f75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 021/224] fix: AppendFrame: set beamline indexes and keep
 geometry patches of appended frames

---
 Merlin++/AcceleratorModelConstructor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From 74eb6bfe5c8ef827aed2abfb7ebea9f5bf2789b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 022/224] fix: ExtractComponents: models with geometry patches
 can be searched by name

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..d5237d6 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return pattern(frm->IsComponent() ? frm->GetComponent().GetQualifiedName() : frm->GetQualifiedName());
 	}
 
 };
-- 
2.43.0


From 0ed99d1f8e26fdb54eb65ca3ce2fc5b787c6b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 023/224] fix: GetBeamline: report a first index out of range

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index d5237d6..bdf3ce5 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -113,7 +113,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
-- 
2.43.0


From 5373b1096c3992eebe5ecca87977a9d86642bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 024/224] fix: GetBeamline: an element can be the occurrence of
 both patterns

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index bdf3ce5..d9b1731 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -143,7 +143,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
-- 
2.43.0


From c4c9b66c81b2c2bae40ea7dd378603aa07848e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 025/224] fix: InstallModelElement: valid insert position,
 beamline indexes and repository entries

---
 Merlin++/AcceleratorModel.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index d9b1731..20319b5 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -247,6 +247,10 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	for(current_cf = lattice.begin(); current_cf < lattice.end(); current_cf++)
 	{
+		if(!(*current_cf)->IsComponent())
+		{
+			continue; // geometry patches have no length
+		}
 		AcceleratorComponent* ac = &((*current_cf)->GetComponent());
 		s += ac->GetLength();
 		if(s > at)
@@ -293,10 +297,15 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	// replace the existing drift
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	lattice.insert(insert_marker, {c_drift1, c_element, c_drift2});
+	for(size_t n = 0; n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
 
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
-- 
2.43.0


From 88b321c814412d2b37be284d1317e728e8a38dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 026/224] fix: ElementRepository: uninitialised negation in
 searches, previous results are overwritten

---
 Merlin++/ElementRepository.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..f4d2a7a 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
@@ -57,6 +57,7 @@ size_t ElementRepository::Count(const std::string& id) const
 
 size_t ElementRepository::Find(const std::string& id, std::vector<ModelElement*>& elements)
 {
+	elements.clear();
 	remove_copy_if(theElements.begin(), theElements.end(),
 		back_inserter(elements), MatchID(id, true));
 	return elements.size();
-- 
2.43.0


From 5ec3d22340e9d836f886e1b52d6c23a74de0222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 027/224] fix: Beamline::Track follows reversed beamlines

---
 Merlin++/AcceleratorModel.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/AcceleratorModel.h b/Merlin++/AcceleratorModel.h
index b17df3e..0e967b1 100644
--- a/Merlin++/AcceleratorModel.h
+++ b/Merlin++/AcceleratorModel.h
@@ -102,6 +102,18 @@ public:
 			 * We make use of the TRK wrapper, to avoid the call to tobj's
 			 * copy constructor
 			 */
+			if(IsReversed())
+			{
+				for(BeamlineIterator i = first;; --i)
+				{
+					tobj(*i);
+					if(i == last)
+					{
+						break;
+					}
+				}
+				return tobj;
+			}
 			std::for_each(begin(), end(), TRK<T>(tobj));
 			return tobj;
 		}
-- 
2.43.0


From 9a1acee84a8d65dcf665f3506fa26cfbfc419b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 028/224] fix: ProcessStepManager::RemoveProcess: absent
 process, return value

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 2b15af476f85bed230f8cba9bc97f33434a95fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 029/224] fix: SimulationOutput flags are initialised

---
 Merlin++/TrackingSimulation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index 00c7abe..b7e9b62 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -38,9 +38,9 @@ public:
 	void AddIdentifier(const std::string& pattern, size_t nocc = 1);
 
 	// Public output flags
-	bool output_all;
-	bool output_initial;
-	bool output_final;
+	bool output_all = false;
+	bool output_initial = false;
+	bool output_final = false;
 
 protected:
 
-- 
2.43.0


From bbfd211c58207aaf37f4e83a2925c7e59895abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 030/224] fix: TrackingSimulation stepping follows geometry
 patches, rings and on-axis injection as Run does

---
 Merlin++/TrackingSimulation.cpp | 25 ++++++++++++++++++-------
 Merlin++/TrackingSimulation.h   |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..f026bbc 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -72,6 +72,7 @@ template<class I>
 ComponentFrame* TrackingSimulation::TStepper<I>::NextFrame()
 {
 	curr++;
+	atFirst = false;
 	return cFrame = curr == last ? nullptr : *curr;
 }
 
@@ -236,10 +237,9 @@ void TrackingSimulation::InitStepper(bool genNewBunch)
 	{
 		cstepper.reset(new BeamlineStepper(theBeamline.begin(), theBeamline.end()));
 	}
-	else
-	//		cstepper = new RingStepper(theRing,theRing);
+	else if(type == ring)
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
@@ -257,9 +257,9 @@ void TrackingSimulation::InitStepper(Bunch* aBunch)
 	{
 		cstepper.reset(new BeamlineStepper(theBeamline.begin(), theBeamline.end()));
 	}
-	else
+	else if(type == ring)
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
@@ -267,11 +267,22 @@ bool TrackingSimulation::StepComponent()
 {
 	assert(cstepper && cstepper->cFrame);
 	ComponentFrame* frame = cstepper->cFrame;
-	if(incX)
+	if(incX && !(injOnAxis && cstepper->atFirst))
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index b7e9b62..85bd13c 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -87,6 +87,7 @@ private:
 		}
 		virtual ComponentFrame* NextFrame() = 0;
 		ComponentFrame* cFrame;
+		bool atFirst = true;
 	};
 
 	/**
-- 
2.43.0


From a7a2e9765b81a35f9d48d4a5d96927c51ffc1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:55 +0000
Subject: [PATCH 031/224] fix: thin lens and symplectic bends: tilt as in the
 default integrators, with the pole faces inside it

---
 Merlin++/StdIntegrators.cpp        | 30 ++++++++--------
 Merlin++/SymplecticIntegrators.cpp | 56 ++++++++++++++----------------
 2 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..c36fdc5 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -181,15 +181,6 @@ void SectorBendCI::TrackStep(double ds)
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 
-	double tilt = (*currentComponent).GetGeometry().GetTilt();
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
@@ -234,13 +225,6 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(1, b1);
 	}
 
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	return;
 }
 
@@ -248,6 +232,13 @@ void SectorBendCI::TrackEntrance()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
+	if(tilt != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
 	if(pfi.entrance != nullptr)
 	{
 		ApplyPoleFaceRotation(h, *pfi.entrance);
@@ -258,10 +249,17 @@ void SectorBendCI::TrackExit()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
 	if(pfi.exit != nullptr)
 	{
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+	if(tilt != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..e59d753 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -726,6 +726,13 @@ void SectorBendCI::TrackEntrance()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
+	if(tilt != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
 	if(pfi.entrance != nullptr)
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
@@ -736,25 +743,23 @@ void SectorBendCI::TrackExit()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
 	if(pfi.exit != nullptr)
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
-}
-
-void SectorBendCI::TrackStep(double ds)
-{
-
-	double h = currentComponent->GetGeometry().GetCurvature();
-
-	double tilt = currentComponent->GetGeometry().GetTilt();
-
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
+}
+
+void SectorBendCI::TrackStep(double ds)
+{
+
+	double h = currentComponent->GetGeometry().GetCurvature();
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -830,19 +835,19 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
+}
 
+void SectorBendCI_ef::TrackEntrance()
+{
+	double h = (*currentComponent).GetGeometry().GetCurvature();
+	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
-}
-
-void SectorBendCI_ef::TrackEntrance()
-{
-	double h = (*currentComponent).GetGeometry().GetCurvature();
-	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
@@ -853,24 +858,22 @@ void SectorBendCI_ef::TrackExit()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
 	if(pfi.exit != nullptr)
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
-}
-
-void SectorBendCI_ef::TrackStep(double ds)
-{
-	double h = currentComponent->GetGeometry().GetCurvature();
-
-	double tilt = currentComponent->GetGeometry().GetTilt();
-
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
+}
+
+void SectorBendCI_ef::TrackStep(double ds)
+{
+	double h = currentComponent->GetGeometry().GetCurvature();
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -946,13 +949,6 @@ void SectorBendCI_ef::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
 }
 
 // 07.12.15 HR: Added thin multipole and MultipoleKick fixes
-- 
2.43.0


From c7672347f3db51afaa374a696193f9a5e1be0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:12 +0000
Subject: [PATCH 032/224] fix: bends with one, a shared or no pole face:
 entrance and exit faces are told apart

---
 Merlin++/SectorBend.cpp           |  1 +
 Merlin++/SectorBend.h             | 22 +++++++++++++++++-----
 Merlin++/TransportIntegrators.cpp |  2 +-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SectorBend.cpp b/Merlin++/SectorBend.cpp
index 189ed0d..13630c4 100644
--- a/Merlin++/SectorBend.cpp
+++ b/Merlin++/SectorBend.cpp
@@ -61,6 +61,7 @@ void SectorBend::RotateY180()
 	double h = GetGeometry().GetCurvature();
 	GetGeometry().SetCurvature(-h);
 	std::swap(pfInfo.entrance, pfInfo.exit);
+	pfInfo.SetTypes();
 }
 
 void SectorBend::PrepareTracker(ComponentTracker& aTracker)
diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..6360327 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,16 +99,28 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			SetTypes();
 		}
 
 		void SetInfo(PoleFace* e1)
 		{
 			Clear();
-			entrance = exit = e1;
-			entrance->type = 1;
-			exit->type = 0;
+			entrance = e1;
+			exit = e1 ? new PoleFace(*e1) : nullptr;
+			SetTypes();
+		}
+
+		// Mark the faces as entrance and exit (either can be absent)
+		void SetTypes()
+		{
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		/**
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..886a9bf 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -327,7 +327,7 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
+	double ent = pf ? pf->type : AtEntrance();
 
 	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
 	ApplyMapToBunch(*currentBunch, M);
-- 
2.43.0


From c40f9cf4d48a9ba84012be7eba01066e92e0f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:12 +0000
Subject: [PATCH 033/224] fix: combined function bend: missing part of the
 second order term T112

---
 Merlin++/BasicTransportMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..b72656d 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -400,7 +400,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
-- 
2.43.0


From 2f31a102bde5f55e18d620d3ef0c1225273c3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:12 +0000
Subject: [PATCH 034/224] fix: pole face rotation: gradient terms T233, T413
 and their charge sign

---
 Merlin++/BasicTransportMaps.cpp   | 8 ++++----
 Merlin++/TransportIntegrators.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index b72656d..6925d48 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -510,14 +510,14 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	if(entrance == true) // do entrance
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1);    //old
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)); //old
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1)); //old
 	}
 	else    //do exit
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1) - pow((h * a1), 2) * a1 * 0.5;
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1);   //old
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1);   //old
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
 	}
 
 	rtMap(1, 1) = 1;
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 886a9bf..49ec195 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -321,7 +321,7 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double brho = P0 / eV / SpeedOfLight;
 	const double h = (*currentComponent).GetGeometry().GetCurvature();
-	const double k = (*currentComponent).GetField().GetKn(1, brho).real();
+	const double k = currentBunch->GetChargeSign() * (*currentComponent).GetField().GetKn(1, brho).real();
 
 	double beta = _PFV(pf, rot);
 	double c = 0; // currently not implemented
-- 
2.43.0


From 3de338e10914cb514a79cc843b122ae30ade3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:25 +0000
Subject: [PATCH 035/224] fix: skew magnets: other multipoles are applied in
 the frame of the magnet

---
 Merlin++/TransportIntegrators.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 49ec195..741d4a2 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -397,7 +397,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the other multipoles are defined in the unrotated frame
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(1, b1);
@@ -434,7 +443,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b2 = field.GetCoefficient(2);
 			field.SetCoefficient(2, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the other multipoles are defined in the unrotated frame
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(2, b2);
-- 
2.43.0


From 0c932719bfb42118dcc5b7479ba1a1559774c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 036/224] fix: symplectic quadrupoles with other multipoles:
 kick once, in the magnet's frame, within the magnet's length

---
 Merlin++/SymplecticIntegrators.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index e59d753..b1d419e 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1005,15 +1005,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
 			M.Apply(currentBunch->GetParticles());
 			field.SetCoefficient(1, b1);
 		}
@@ -1022,15 +1014,11 @@ void RectMultipoleCI::TrackStep(double ds)
 	else
 	{
 		ApplyDriftMap(currentBunch, len);
-	}
-
-	if(splitMagnet)
-	{
-		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(1, Complex(0));
-		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
-		field.SetCoefficient(1, b1);
+		if(splitMagnet)
+		{
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
+			ApplyDriftMap(currentBunch, len);
+		}
 	}
 }
 
-- 
2.43.0


From a3e7207a8286a8843c14014de6f1dbf425b4bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 037/224] fix: thin lens integrators track zero length
 multipoles

---
 Merlin++/StdIntegrators.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index c36fdc5..a1b90c0 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -279,14 +279,21 @@ void RectMultipoleCI::TrackStep(double ds)
 	// including any dipole term.
 	using namespace TLAS;
 
-	CHK_ZERO(ds);
-
 	double P0 = currentBunch->GetReferenceMomentum();
 	double q = currentBunch->GetChargeSign();
 	double brho = P0 / eV / SpeedOfLight;
 
 	MultipoleField& field = currentComponent->GetField();
 
+	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
+	{
+		// treat field as integrated strength
+		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, 1.0, P0, q));
+		return;
+	}
+
+	CHK_ZERO(ds);
+
 	const Complex cK1 = q * field.GetKn(1, brho);
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
-- 
2.43.0


From 226c2de97b27ac27cf8af48c581f72380fbb7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 038/224] fix: very weak solenoids act as drifts; vertical term
 of the RMap solenoid

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 Merlin++/TransportRMaps.cpp  | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..1e5fdaa 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -161,8 +161,8 @@ void SolR(double l, double ks, RealMatrix& rs)
 
 	if(fequal(theta, 0.))
 	{
-		rs(0, 1) = 0;
-		rs(2, 3) = 0;
+		rs(0, 1) = l;
+		rs(2, 3) = l;
 	}
 	else
 	{
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..a1ee921 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -139,6 +139,11 @@ void SolR(double l, double ks, RMap& rs)
 		rs.AddTerm(1, 2) = 2. * sc / ks;
 		rs.AddTerm(3, 4) = 2. * sc / ks;
 	}
+	else
+	{
+		rs.AddTerm(1, 2) = l;
+		rs.AddTerm(3, 4) = l;
+	}
 
 	rs.AddTerm(1, 3) = sc;
 	rs.AddTerm(2, 4) = sc;
@@ -148,7 +153,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
-- 
2.43.0


From dbdff5ac08c253e9b1fd6378407d9a2d90732cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 039/224] fix: transverse RF kick is distributed along the
 cavity

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From b6ae640dca1bb9accdfe7c5b3066ef3add7e742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:59 +0000
Subject: [PATCH 040/224] fix: combined function bends off the matched
 momentum: gradient normalised as the map is used

---
 Merlin++/TransportIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 741d4a2..596b083 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -227,7 +227,7 @@ void SectorBendCI::TrackStep(double ds)
 	const double P0 = (*currentBunch).GetReferenceMomentum();
 	const double q = (*currentBunch).GetChargeSign();
 	const double Pref = (*currentComponent).GetMatchedMomentum(q);
-	const double brho = P0 / eV / SpeedOfLight;
+	const double brho = Pref / eV / SpeedOfLight; // the map is about the matched momentum
 	int np = field.HighestMultipole();
 
 	double mass = currentBunch->GetParticleMassMeV() * MeV;
-- 
2.43.0


From 93197b9fd7ad2efd90770e5c2a76609d543fd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:17 +0000
Subject: [PATCH 041/224] fix: standing wave cavities at zero crossing;
 focusing of the symplectic standing wave map

---
 Merlin++/SymplecticIntegrators.cpp | 4 ++--
 Merlin++/TransportMatrix.cpp       | 2 +-
 Merlin++/TransportRMaps.cpp        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index b1d419e..2496ac5 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -522,13 +522,13 @@ public:
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
 
-		double alpha = log(d0) / cosphi / rt8;
+		double alpha = log1p(VncosPhi) / cosphi / rt8;
 		double cosalpha = cos(alpha);
 		double sinalpha = sin(alpha);
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
 		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m21 = -(VncosPhi / d0) * (cosphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 1e5fdaa..7ba3123 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -454,7 +454,7 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	double alpha = log1p(g * length * cosPhi / E0) / cosPhi / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index a1ee921..a24d54c 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -269,7 +269,7 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	double alpha = log1p(g * length * cosPhi / E0) / cosPhi / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
@@ -378,7 +378,7 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, R2Map& R)
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	double alpha = log1p(g * length * cosPhi / E0) / cosPhi / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
-- 
2.43.0


From fdf45707fa45c07a2a39a729ffeafeabf7d05898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:17 +0000
Subject: [PATCH 042/224] fix: standing wave cavities: number of cells is not
 truncated by rounding

---
 Merlin++/StdIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index a1b90c0..4433444 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -358,7 +358,7 @@ void SWRFStructureCI::TrackStep(double ds)
 	double E0 = currentBunch->GetReferenceMomentum();
 
 	double lambdaOver2 = SpeedOfLight / f / 2;
-	int ncells = static_cast<int>(ds / lambdaOver2);
+	int ncells = static_cast<int>(ds / lambdaOver2 + 0.5);
 	assert(ncells * lambdaOver2 == ds);
 
 	RMtrx Rm(2);
-- 
2.43.0


From aa5583e858fe5f465fdfaa1c27a6c17910a685ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:28 +0000
Subject: [PATCH 043/224] fix: bends with a skew gradient only: use the pure
 bend map

---
 Merlin++/TransportIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 596b083..ce8fa66 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -244,7 +244,7 @@ void SectorBendCI::TrackStep(double ds)
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	// Construct the second-order map
-	RTMap* M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	RTMap* M = (K1.real() == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
 
 	if(fequal(P0, Pref, REL_ENGY_TOL))
 	{
-- 
2.43.0


From 1c0c88ed3670515f9da3a636062a6664d8c9e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 044/224] fix: klystrons in vector sum mode adjust their
 cavities

---
 Merlin++/Klystron.cpp | 25 +++++++++++++------------
 Merlin++/Klystron.h   |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..b1e726b 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -79,34 +79,32 @@ Klystron::Klystron(const string& aName, const vector<RFStructure*>& cavs, Mode m
 
 void Klystron::SetVoltage(double v)
 {
-	V_k = v;
-	AdjustCavities();
+	AdjustCavities(v, phi_k);
 }
 
 void Klystron::SetPhase(double phi)
 {
-	phi_k = phi;
-	AdjustCavities();
+	AdjustCavities(V_k, phi);
 }
 
 void Klystron::SetVoltagePhasor(const Complex& z)
 {
-	V_k = abs(z);
-	phi_k = arg(z);
-	AdjustCavities();
+	AdjustCavities(abs(z), arg(z));
 }
 
-void Klystron::AdjustCavities()
+void Klystron::AdjustCavities(double v, double phi)
 {
 	switch(kmode)
 	{
 	case balanced:
-		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(V_k / rf_cavs.size(), phi_k));
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
 		break;
 	case vector_sum:
-		AdjustVectorSum(V_k, phi_k);
+		AdjustVectorSum(v, phi);
 		break;
 	}
+	V_k = v;
+	phi_k = phi;
 }
 
 const string& Klystron::GetType() const
@@ -130,8 +128,11 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
+	if(V_k == 0) // nothing to scale: share equally
+	{
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
+		return;
+	}
 	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
 	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
-	V_k = v;
-	phi_k = phi;
 }
diff --git a/Merlin++/Klystron.h b/Merlin++/Klystron.h
index 31593f2..c77f4d6 100644
--- a/Merlin++/Klystron.h
+++ b/Merlin++/Klystron.h
@@ -88,7 +88,7 @@ protected:
 	double V_k;
 	double phi_k;
 
-	void AdjustCavities();
+	void AdjustCavities(double v, double phi);
 	void AdjustVectorSum(double v, double phi);
 	void AppendBeamlineIndexes(std::vector<size_t>&) const;
 };
-- 
2.43.0


From da293fc4cfd0b5eabb58f65a61f010e64ae9540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 045/224] fix: reading a coefficient of a multipole field does
 not change the field

---
 Merlin++/MultipoleField.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..767d4d5 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -164,12 +164,7 @@ Complex MultipoleField::GetComponent(size_t np, double r0) const
 
 Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
-	if(np + 1 > expansion.size())
-	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
-	}
-
-	return expansion[np] * pow(r0, np);
+	return np < expansion.size() ? expansion[np] * pow(r0, np) : Complex(0, 0);
 }
 
 void MultipoleField::SetCoefficient(size_t np, const Complex& b, double r0)
-- 
2.43.0


From d4f717589d27d34bc1f361aaee8e8f4cc584975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 046/224] fix: lowest multipole of a zero field does not read
 past the expansion

---
 Merlin++/MultipoleField.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..85d4e74 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -220,9 +220,11 @@ inline int MultipoleField::HighestMultipole() const
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
-		;
-	return n - 1;
+	while(n < expansion.size() && expansion[n] == Complex(0.0))
+	{
+		n++;
+	}
+	return n;
 }
 
 #endif
-- 
2.43.0


From 419579a59d8b6c90272986172be3e443e46d2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 047/224] fix: multipole fields constructed with zero
 components are not NaN

---
 Merlin++/MultipoleField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 767d4d5..770b187 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -34,7 +34,7 @@ MultipoleField::MultipoleField(int np, double bn, double an, double r0) :
 {
 	Complex z(bn, an);
 	B0 = abs(z);
-	expansion[np] = z / B0;
+	expansion[np] = B0 == 0 ? Complex(1, 0) : z / B0;
 	B0 /= pow(r0, np);
 }
 
-- 
2.43.0


From ddad68577289f9da776309fb1d7cc49fa68ad4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 048/224] fix: magnets set their primary pole number

---
 Merlin++/RectMultipole.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/RectMultipole.cpp b/Merlin++/RectMultipole.cpp
index 2e2d53a..10a3d6a 100644
--- a/Merlin++/RectMultipole.cpp
+++ b/Merlin++/RectMultipole.cpp
@@ -12,13 +12,13 @@ const int RectMultipole::ID = UniqueIndex();
 
 RectMultipole::RectMultipole(const string& id, double length, int npole, double b, double r0, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(length),
-		new MultipoleField(npole, b, r0, skew))
+		new MultipoleField(npole, b, r0, skew)), np(npole)
 {
 }
 
-RectMultipole::RectMultipole(const string& id, double len, int np, double b, bool skew) :
+RectMultipole::RectMultipole(const string& id, double len, int npole, double b, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(len),
-		new MultipoleField(np, b, skew))
+		new MultipoleField(npole, b, skew)), np(npole)
 {
 }
 
-- 
2.43.0


From 4398edec72746ad01012e57b59d8dbc88c0acd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 049/224] fix: setting one plane of a corrector winding keeps
 the other

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From c8c2831e01010dd5dcb463b3457d2f6ff8f61fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 050/224] fix: channels of elements with dots in their names
 can be found

---
 Merlin++/ChannelServer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..5900943 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -43,7 +43,12 @@ CHPath::CHPath(const string& cid)
 	int n1 = cid.find('.');
 	type = cid.substr(0, n1);
 
-	int n2 = cid.find('.', n1 + 1);
+	// element names can contain dots, keys cannot
+	int n2 = cid.rfind('.');
+	if(n2 == n1)
+	{
+		n2 = string::npos;
+	}
 	id = cid.substr(n1 + 1, n2 - n1 - 1);
 
 	key = cid.substr(n2 + 1);
-- 
2.43.0


From 024c959cb128ab570415ab8c9ac8c4e64f122c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 051/224] fix: channel patterns that match several element
 types: types without the channel are skipped

---
 Merlin++/ChannelServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 5900943..437da3a 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -115,7 +115,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue;
 			}
 		}
 
@@ -157,7 +157,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue;
 			}
 		}
 
-- 
2.43.0


From 082e178a2d7bedc546a5d41067f4e8a74e45c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 052/224] fix: read-only channels are not returned as null
 read/write channels

---
 Merlin++/ChannelServer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 437da3a..1a91ad6 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -165,9 +165,11 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
-			channels.push_back(ch);
-			count++;
+			if(ch) // skip read-only channels
+			{
+				channels.push_back(ch);
+				count++;
+			}
 		}
 	}
 
@@ -233,9 +235,11 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
-					channels.push_back(ch);
-					count++;
+					if(ch) // skip read-only channels
+					{
+						channels.push_back(ch);
+						count++;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 93c251f61db935b7db2430058d193f6aae8083a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 053/224] fix: channels of a BPM at the address of a deleted
 one receive its data

---
 Merlin++/BPMDataBufferServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BPMDataBufferServer.cpp b/Merlin++/BPMDataBufferServer.cpp
index 58ad0ca..0d8fb68 100644
--- a/Merlin++/BPMDataBufferServer.cpp
+++ b/Merlin++/BPMDataBufferServer.cpp
@@ -13,7 +13,15 @@ BPMDataBuffer* BPMDataBufferServer::GetDataBuffer(BPM* bpm, bool create)
 
 	if(b != dataBuffers.end())
 	{
-		return &(b->second);
+		BPMDataBuffer* buf = &(b->second);
+		if(!bpm->RemoveBuffer(buf))
+		{
+			// the buffer belonged to a BPM which was deleted
+			*buf = BPMDataBuffer();
+			buf->SetID(bpm->GetName());
+		}
+		bpm->AddBuffer(buf);
+		return buf;
 	}
 
 	if(!create)
-- 
2.43.0


From bf64233627c9d59d58fd60d0739e201cb5559c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 054/224] fix: setting the offset of one plane of a BPM keeps
 the other

---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0


From 7d0e3e179841866f03da862b0d8d0d2e43cddc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 055/224] fix: monitors are not reflected when constructed

---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From e386750a4900dfc9f407afd46b6d622c01a563b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 056/224] fix: rms width of the tilted plane of a profile
 monitor

---
 Merlin++/RMSProfileMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..c7c4b20 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -61,7 +61,8 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
 			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.urms.value = sqrt(cosu * cosu * profile.var(0) - 2 * cosu * sinu * profile.sig(0, 1)
+				+ sinu * sinu * profile.var(1));
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From e0467649ac3dbb221439837a90f186fb50a03844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 057/224] fix: monitors tracked in several steps measure once;
 measurement points at the end of the monitor

---
 Merlin++/StdIntegrators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4433444..e7dfe5b 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -394,8 +394,10 @@ void MonitorCI::TrackStep(double ds)
 	}
 	else
 	{
+		// measure once, in the step which reaches the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double tol = 1e-12 * len;
+		if(GetIntegratedLength() + ds > mpt - tol && (AtEntrance() || GetIntegratedLength() <= mpt - tol))
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(currentBunch->GetParticles(), s1);
-- 
2.43.0


From 7864cc162d6e40e5e649bf06dd71f2c4513a95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 058/224] fix: moments of bunches do not depend on the previous
 contents of the result

---
 Merlin++/ParticleBunch.cpp | 2 ++
 Merlin++/SMPBunch.cpp      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..9a9bc6f 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -227,6 +227,7 @@ double ParticleBunch::GetTotalCharge() const
 PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	for_each(begin(), end(), APSV1<PSmoments>(sigma, size()));
 	for_each(begin(), end(), PSVVAR1(sigma, size()));
 	return sigma;
@@ -235,6 +236,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma.Zero();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..343f219 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,8 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma.Zero();
+	sigma[0] = sigma[1] = 0;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From 3cf1e16e65438dffee5d03ffd101a83bad3217c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 059/224] fix: macroparticle bunches: adjusting the reference
 to the mean keeps the momenta and times of the slices

---
 Merlin++/SMPBunch.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 343f219..6366ae1 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -156,10 +156,11 @@ double SMPBunch::AdjustRefMomentumToMean()
 	{
 		dp0 += (cp->dp()) * (cp->Q());
 	}
-	double ddp = dp0 / Qt + 1.0;
+	dp0 /= Qt;
+	double ddp = dp0 + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() - dp0) / ddp;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -172,7 +173,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	IncrReferenceTime(-ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From 8582ff28a6af00adc6dffc22b8256c9e792e35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 060/224] fix: macroparticle bunches report that a
 transformation was applied

---
 Merlin++/SMPBunch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 6366ae1..a781b62 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -211,7 +211,7 @@ bool SMPBunch::ApplyTransformation(const Transform3D& t)
 		xf.Apply(*p);
 	}
 
-	return false;
+	return true;
 }
 
 void SMPBunch::AddParticle(const SliceMacroParticle& p, bool do_sort)
-- 
2.43.0


From f550ec7ae07eca4c7207e56820baaa9c7bb93541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 061/224] fix: setting the centroid of a bunch sets it exactly

---
 Merlin++/ParticleBunch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 9a9bc6f..4db1d33 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -390,6 +390,11 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		// the zeroth particle is not moved
+		x *= double(size()) / (size() - 1);
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From ca7ea8f645097f74cc6be02ee72b0536fb543708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 062/224] fix: initialise the id of particles

---
 Merlin++/PSvector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/PSvector.h b/Merlin++/PSvector.h
index ed4074b..49946c2 100644
--- a/Merlin++/PSvector.h
+++ b/Merlin++/PSvector.h
@@ -32,11 +32,13 @@ class PSvector
 {
 public:
 
-	PSvector()
+	PSvector() :
+		pid(0)
 	{
 	}
 
-	explicit PSvector(double x)
+	explicit PSvector(double x) :
+		pid(0)
 	{
 		std::fill(v, v + PS_LENGTH, x);
 	}
-- 
2.43.0


From bcbffb7c5302e5a770c05c7cfed86cd40f0d7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 063/224] fix: separate the last coordinate from the id when
 writing particles

---
 Merlin++/PSvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
-- 
2.43.0


From 37d336140d8270867268f68a26d2560e04b6013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 064/224] fix: bunches are generated with the momentum spread
 and length of the beam data

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 4db1d33..efb6837 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From 162d76d68a63cde354cc0a01156f9774fc403e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 065/224] fix: limits and orbit of bunch filters are
 initialised

---
 Merlin++/BunchFilter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/BunchFilter.h b/Merlin++/BunchFilter.h
index f0a8500..e4935b6 100644
--- a/Merlin++/BunchFilter.h
+++ b/Merlin++/BunchFilter.h
@@ -40,8 +40,8 @@ public:
 	void SetHorizontalOrbit(double);
 
 private:
-	double limit;
-	double orbit;
+	double limit = 0;
+	double orbit = 0;
 };
 
 class VerticalHaloParticleBunchFilter: public ParticleBunchFilter
@@ -57,7 +57,7 @@ public:
 	void SetVerticalLimit(double);
 
 private:
-	double limit;
+	double limit = 0;
 };
 
 }   //End particle tracking namespace
-- 
2.43.0


From 216dca24832a28642cb7ff78cc1366338557011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 066/224] fix: coupling of beams with a singular coupling block

---
 Merlin++/NormalTransform.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 0961fc9..7614061 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -28,10 +28,9 @@ RealMatrix CouplingMatrix(double a, double b, double c, double d)
 
 	if(detB2 == 0)
 	{
-		return C;
+		h = zeta = 1;
 	}
-
-	if(detB2 > 0)
+	else if(detB2 > 0)
 	{
 		detB = sqrt(detB2);
 		h = cos(detB);
-- 
2.43.0


From 6a41267453e9b342b45fe73e49f3a36a688cd361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 067/224] fix: coupling parameters of a sigma matrix are those
 that make it

---
 Merlin++/NormalTransform.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 7614061..9701890 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -192,18 +192,14 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 	if(C(0, 0) > 1.0)
 	{
 		double x = sqrt(C(0, 0) * C(0, 0) - 1);
-		z = x != 0 ? log(C(0, 0) + x) / x : 0;
+		z = x != 0 ? log(C(0, 0) + x) / x : 1;
 	}
 	else
 	{
-		double sinPhi = sqrt(1 - C(0, 0));
+		double sinPhi = sqrt(1 - C(0, 0) * C(0, 0));
 		double phi = atan2(sinPhi, C(0, 0));
-		z = sinPhi != 0 ? phi / sinPhi : 0;
+		z = sinPhi != 0 ? phi / sinPhi : 1;
 	}
-	t.c_xy = C(0, 2) * z;
-	t.c_xyp = C(0, 3) * z;
-	t.c_xpy = C(1, 2) * z;
-	t.c_xpyp = C(1, 3) * z;
 
 	t.emit_x = ProjectedEmittance(S, ps_X, ps_XP);
 	t.emit_y = ProjectedEmittance(S, ps_Y, ps_YP);
@@ -218,6 +214,22 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 	RealMatrix B = InverseBetaTransform(t.beta_x, t.beta_y, t.alpha_x, t.alpha_y);
 	RMap(B).Apply(S);
 
+	// The coupling parameters describe the coupling of the normalised beam:
+	// C removes it from the beam
+	for(int i = 0; i < 2; i++)
+	{
+		for(int j = 2; j < 4; j++)
+		{
+			C(i, j) = -C(i, j);
+			C(j, i) = -C(j, i);
+		}
+	}
+	C = B * C * BetaMatrix(t.beta_x, t.beta_y) * AlphaMatrix(t.alpha_x, t.alpha_y);
+	t.c_xy = C(0, 2) * z;
+	t.c_xyp = C(0, 3) * z;
+	t.c_xpy = -C(1, 2) * z;
+	t.c_xpyp = -C(1, 3) * z;
+
 	t.sig_z = S0.std(ps_CT);
 	t.sig_dp = S0.std(ps_DP);
 
-- 
2.43.0


From c866a10db5f2de49af14c20830f52abafb615e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 068/224] fix: beam parameters of uncoupled beams with equal
 emittances

---
 Merlin++/NormalTransform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 9701890..cb50553 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -153,6 +153,10 @@ RealMatrix DecoupleSigma(SigmaMatrix& S)
 
 	do
 	{
+		if(S(0, 2) == 0 && S(0, 3) == 0 && S(1, 2) == 0 && S(1, 3) == 0)
+		{
+			break; // not coupled
+		}
 		double d = S(2, 2) * S(3, 3) - S(2, 3) * S(2, 3) - (S(0, 0) * S(1, 1) - S(0, 1) * S(0, 1));
 		c(0) = (-S(0, 1) * S(0, 3) + S(0, 0) * S(1, 3) - S(0, 3) * S(2, 3) + S(0, 2) * S(3, 3)) / d;
 		c(1) = (S(0, 1) * S(0, 2) - S(0, 0) * S(1, 2) + S(0, 3) * S(2, 2) - S(0, 2) * S(2, 3)) / d;
-- 
2.43.0


From bc2fa67381765b146a07c2694c807f6aaf19b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 069/224] fix: sigma matrix of a beam: no left-over
 correlations; includes the mean ct

---
 Merlin++/NormalTransform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index cb50553..54af8f8 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -128,6 +128,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 {
 	RMap R(NormalTransform(t));
 	S.zero();
+	S.Zero();
 	S(0, 0) = t.emit_x;
 	S(1, 1) = t.emit_x;
 	S(2, 2) = t.emit_y;
@@ -140,6 +141,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 	S[1] = t.xp0;
 	S[2] = t.y0;
 	S[3] = t.yp0;
+	S[4] = t.ct0;
 
 	return S;
 }
-- 
2.43.0


From e73edf23b2f5744c5fc5e1dcc169be179f2770dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 070/224] fix: smoothing of binned bunches stays within the
 bins and the filter

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..be21fec 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -136,7 +136,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		fbins[n] = hbins[n] * a;
 		if(c)
 			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, size_t(n) + w + 1); m++)   // This needs to be checked!
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 7019854f1d5984ae4e58c53aa1237775d7d1cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 071/224] fix: binning a bunch does not fail on particles close
 to the end of the range

---
 Merlin++/ParticleBunchUtilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index be21fec..adbda8f 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -81,7 +81,8 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 
 	for(n = 0; n < nbins; n++)
 	{
-		z += dz;
+		// exactly zmax at the end
+		z = n + 1 < nbins ? zmin + (n + 1) * dz : zmax;
 		while(p != bunch.end() && p->ct() < z)
 		{
 			total++;
-- 
2.43.0


From f35e65af785ed4a5abd9ad0453ff9ec74495d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 072/224] fix: particles at the end of the range of a bunch
 distribution

---
 Merlin++/ParticleBunchUtilities.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index adbda8f..f7b4b7c 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -161,7 +161,8 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, double umax, double du,
 	vector<double>& bins, bool normalise, bool truncate)
 {
-	size_t nb = (umax - umin) / du;
+	// the last bin is cut short if the range is not a multiple of du
+	size_t nb = ceil((umax - umin) / du * (1 - 1e-12));
 	bins = vector<double>(nb, 0.0);
 	size_t np0 = bunch.size();
 
@@ -178,13 +179,13 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 			if(truncate)
 			{
 				p = bunch.erase(p);
-				p--;
+				continue;
 			}
 		}
 		else
 		{
-			size_t n = (uval - umin) / du;
-			assert(n < nb);
+			// umax belongs to the last bin
+			size_t n = min(size_t((uval - umin) / du), nb - 1);
 			bins[n]++;
 			total++;
 		}
-- 
2.43.0


From f9e04b28d5a012d5ae9a118909d93473d8afaa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 073/224] fix: declaration of the converter of macroparticle
 bunches matches its definition

---
 Merlin++/BunchConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BunchConverter.h b/Merlin++/BunchConverter.h
index b4be06d..25edc32 100644
--- a/Merlin++/BunchConverter.h
+++ b/Merlin++/BunchConverter.h
@@ -22,7 +22,7 @@
  * adjust==true: force means(ParticleBunch)=means(SMPBunch)
  *
  */
-ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, int N, bool adjust = true);
+ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, size_t N, bool adjust = true);
 
 /**
  * Given a ParticleBunch we construct a SMPBunch with n_ct x n_dp particles
-- 
2.43.0


From 525af44e0ce7a36aa32b419c92399fb03a4116b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 074/224] fix: converting macroparticle bunches does not read
 past the last slice

---
 Merlin++/SMPBunchConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunchConverter.cpp b/Merlin++/SMPBunchConverter.cpp
index bfab34c..62603d4 100644
--- a/Merlin++/SMPBunchConverter.cpp
+++ b/Merlin++/SMPBunchConverter.cpp
@@ -78,7 +78,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_ct.upper_bound(x.ct());
 			if(itPlus == set_ct.end())
 			{
-				sct = fabs(*--set_ct.rbegin() - x.ct()) / 2;
+				sct = fabs(*++set_ct.rbegin() - x.ct()) / 2;
 			}
 			else
 			{
@@ -95,7 +95,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_dp.upper_bound(x.dp());
 			if(itPlus == set_dp.end())
 			{
-				sdp = fabs(*--set_dp.rbegin() - x.dp()) / 2;
+				sdp = fabs(*++set_dp.rbegin() - x.dp()) / 2;
 			}
 			else
 			{
-- 
2.43.0


From 0e272f69c02a9baef1dc4c9701051f61ab0c6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 075/224] fix: multivariate normal distributions of zero width
 in some dimension

---
 Merlin++/MultiNormal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultiNormal.h b/Merlin++/MultiNormal.h
index 45bf2f7..aa5575f 100644
--- a/Merlin++/MultiNormal.h
+++ b/Merlin++/MultiNormal.h
@@ -146,7 +146,7 @@ void MultiNormal<N>::CholeskyDecomp()// uses Cholesky-Banachiewicz algorithm fro
 			} 
 			else
 			{
-				L(i,j)=(L(j,i)-stot)/L(j,j);
+				L(i,j)=L(j,j)!=0 ? (L(j,i)-stot)/L(j,j) : 0;
 			}
 		}
 	}
-- 
2.43.0


From 58f78e12f3e4047c658d1410e3c59deacf6f5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 076/224] fix: particles converted to macroparticles are put
 into the slice they lie in; keep reference time and mean

---
 Merlin++/ParticleBunchConverter.cpp | 34 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index e46c46d..865b3e2 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -11,11 +11,25 @@
 #include "SliceMacroParticle.h"
 #include "RandomNG.h"
 #include "utils.h"
+#include <algorithm>
 #include <vector>
 
 using namespace SMPTracking;
 using namespace ParticleTracking;
 
+namespace
+{
+// index of the bin in [lo,hi] that contains x, or -1
+int Bin(double x, double lo, double hi, int n)
+{
+	if(!(x >= lo && x <= hi))
+	{
+		return -1;
+	}
+	return hi > lo ? std::min(int((x - lo) / (hi - lo) * n), n - 1) : 0;
+}
+}
+
 // given an ParticleBunch we construct a SMPBunch with n_ct x n_dp particles
 // adjust==true: force means(ParticleBunch)=means(SMPBunch)
 // nSigZ,nSigDP number of sigmas to scann
@@ -35,8 +49,8 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 	double sig_z  = PSM.std(4);
 
 	// min,max is either min,max(PB) or n*sigmma
-	double min_ct(0), max_ct(0);
-	double min_dp(0), max_dp(0);
+	double min_ct(PB->begin()->ct()), max_ct(min_ct);
+	double min_dp(PB->begin()->dp()), max_dp(min_dp);
 	if(nSigZ == 0 || nSigDP == 0)
 		for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 		{
@@ -75,14 +89,12 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 
 	// a histogram to integrate
 	std::vector<std::vector<int> > h(n_ct, std::vector<int>(n_dp, 0));
-	double scale_ct = (n_ct - 1) / (max_ct - min_ct);
-	double scale_dp = (n_dp - 1) / (max_dp - min_dp);
 	for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 	{
-		int bin_ct = (ipb->ct() - min_ct) * scale_ct;
-		int bin_dp = (ipb->dp() - min_dp) * scale_dp;
+		int bin_ct = Bin(ipb->ct(), min_ct, max_ct, n_ct);
+		int bin_dp = Bin(ipb->dp(), min_dp, max_dp, n_dp);
 		// we assume a constant charge for all particles in a ParticleBunch !!
-		if(bin_ct >= 0 && bin_dp >= 0 && bin_ct < n_ct && bin_dp < n_dp)
+		if(bin_ct >= 0 && bin_dp >= 0)
 		{
 			h[bin_ct][bin_dp]++;
 		}
@@ -104,6 +116,14 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 		}
 	}
 
+	bunch->SetReferenceTime(PB->GetReferenceTime());
+	if(adjust && bunch->GetTotalCharge() != 0)
+	{
+		PSvector mean;
+		bunch->GetCentroid(mean);
+		bunch->AdjustCentroid(PSM - mean);
+	}
+
 	return bunch;
 
 }
-- 
2.43.0


From 8c402b3cbbf52e25734219d85e270f0c22476b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 077/224] fix: accessing the random generator before seeding
 seeds it

---
 Merlin++/RandomNG.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..2a18be7 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -121,6 +121,10 @@ double RandomNG::landau()
 
 std::mt19937_64& RandomNG::getGenerator()
 {
+	if(!generator)
+	{
+		not_seeded();
+	}
 	return *generator;
 }
 
-- 
2.43.0


From 636c1fd639952ff416e34c92b36f59aa0c45b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 078/224] fix: seeding and resetting the random generator
 applies to the local generators

---
 Merlin++/PhotonSpectrumGen.cpp | 2 +-
 Merlin++/RandomNG.cpp          | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..1833e8d 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	static auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 2a18be7..9fd56cb 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,10 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+	for(auto& local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
-- 
2.43.0


From ed58f33381593616fd59268582bab93cc875afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 079/224] fix: macroparticle bunches are constructed at the
 mean ct of the beam

---
 Merlin++/SMPBunchConstructor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunchConstructor.cpp b/Merlin++/SMPBunchConstructor.cpp
index 0712a4f..259316b 100644
--- a/Merlin++/SMPBunchConstructor.cpp
+++ b/Merlin++/SMPBunchConstructor.cpp
@@ -67,7 +67,7 @@ Bunch* SMPBunchConstructor::ConstructBunch(int) const
 	double dz = 2 * nSigZ * beamdat.sig_z / ns;
 	double ddp = 2 * nSigDP * beamdat.sig_dp / np;
 
-	double z = -nSigZ * beamdat.sig_z + dz / 2;
+	double z = beamdat.ct0 - nSigZ * beamdat.sig_z + dz / 2;
 	for(size_t nSlice = 0; nSlice < ns; nSlice++, z += dz)
 	{
 		double dp = -nSigDP * beamdat.sig_dp + ddp / 2.0;
-- 
2.43.0


From 98f3233681d6a744c48e9750ae854f31ee8bf9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 080/224] fix: beam parameters of uncoupled round beams with
 dispersion

---
 Merlin++/NormalTransform.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 54af8f8..72e9397 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include <cassert>
+#include <limits>
 #include "NormalTransform.h"
 #include "RMap.h"
 #include <fstream>
@@ -189,6 +190,18 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 		// Remove energy correlations
 		RMap D(DispersionMatrix(-t.Dx, -t.Dxp, -t.Dy, -t.Dyp));
 		D.Apply(S);
+
+		// What rounding left of dispersive x-y correlations is not coupling
+		for(int i = 0; i < 2; i++)
+		{
+			for(int j = 2; j < 4; j++)
+			{
+				if(fabs(S(i, j)) <= 8 * std::numeric_limits<double>::epsilon() * S0.std(i) * S0.std(j))
+				{
+					S(i, j) = 0;
+				}
+			}
+		}
 	}
 
 	// Remove the cross-plane coupling
-- 
2.43.0


From 9d2fb79f57e975de840391cf87a2aee65b9f3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 081/224] fix: interpolated apertures at repeated positions,
 beyond the last entry, and of rectangle and ellipse sizes

---
 Merlin++/InterpolatedApertures.cpp | 350 +++++------------------------
 Merlin++/InterpolatedApertures.h   |   6 +
 2 files changed, 61 insertions(+), 295 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..f0419d5 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -58,6 +58,36 @@ void InterpolatedAperture::ConvertToStruct(DataTable dt)
 	}
 }
 
+InterpolatedAperture::apStruct InterpolatedAperture::Interpolate(double z) const
+{
+	if(z < 0)
+	{
+		z = 0;
+	}
+
+	for(size_t n = 1; n < ApList.size(); n++)
+	{
+		if(ApList[n].s >= z)
+		{
+			const apStruct& apBack = ApList[n - 1];
+			const apStruct& apFront = ApList[n];
+			if(apFront.s == apBack.s)
+			{
+				return apFront;
+			}
+			double t = (z - apBack.s) / (apFront.s - apBack.s);
+			apStruct ap = apFront;
+			ap.s = z;
+			ap.ap1 = apBack.ap1 + t * (apFront.ap1 - apBack.ap1);
+			ap.ap2 = apBack.ap2 + t * (apFront.ap2 - apBack.ap2);
+			ap.ap3 = apBack.ap3 + t * (apFront.ap3 - apBack.ap3);
+			ap.ap4 = apBack.ap4 + t * (apFront.ap4 - apBack.ap4);
+			return ap;
+		}
+	}
+	return ApList.back();
+}
+
 InterpolatedRectEllipseAperture::InterpolatedRectEllipseAperture(DataTable dt) :
 	InterpolatedAperture(dt)
 {
@@ -81,68 +111,20 @@ string InterpolatedRectEllipseAperture::GetType()
 
 bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, double y, double z) const
 {
-	apStruct apFront;
-	apStruct apBack;
+	const apStruct ap = Interpolate(z);
 	double ax = fabs(x);
 	double ay = fabs(y);
 
-	if(z < 0)
-	{
-		z = 0;
-	}
-
-	for(size_t n = 1; n < ApList.size(); ++n)
-	{
-		if(ApList[n].s >= z)
-		{
-			apBack = ApList[n - 1];
-			apFront = ApList[n];
-			break;
-		}
-	}
-
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
-						 apBack.ap4});
-	if(ax + ay < minDim)
+	if(ax + ay < min({ap.ap1, ap.ap2, ap.ap3, ap.ap4}))
 	{
 		return true;
 	}
 
-	//We now have the aperture before and after the particle.
-	//It must now be calculated at the point where the particle is currently
-	//y = mx + c
-	//m = (y1 - y0) / (x1 - x0)
-
-	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
-	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
-	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
-
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
-
-	double rect_half_width = (g1 * z) + c1;
-	double rect_half_height = (g2 * z) + c2;
-	double ellipse_half_horizontal = (g3 * z) + c3;
-	double ellipse_half_vertical = (g4 * z) + c4;
-
-	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
-		* ellipse_half_vertical)) > 1)
-	{
-		return 0;
-	}
-	else if(fabs(x) > rect_half_width || fabs(y) > rect_half_height)
-	{
-		return 0;
-	}
-	else
+	if(((x * x) / (ap.ap3 * ap.ap3)) + ((y * y) / (ap.ap4 * ap.ap4)) > 1)
 	{
-		return 1;
+		return false;
 	}
+	return ax <= ap.ap1 && ay <= ap.ap2;
 }
 
 void InterpolatedRectEllipseAperture::printout(std::ostream& out) const
@@ -185,92 +167,13 @@ string InterpolatedCircularAperture::GetType()
 
 bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, double y, double z) const
 {
-	apStruct apFront;
-	apStruct apBack;
-	double ax = fabs(x);
-	double ay = fabs(y);
-
-	apFront.s = 0;
-	apFront.ap1 = 0;
-	apFront.ap2 = 0;
-	apFront.ap3 = 0;
-	apFront.ap4 = 0;
-
-	apBack.s = 0;
-	apBack.ap1 = 0;
-	apBack.ap2 = 0;
-	apBack.ap3 = 0;
-	apBack.ap4 = 0;
-
-	if(z < 0)
-	{
-		z = 0;
-	}
-
-	//The z coordinate is used to find the other aperture components
-	for(size_t n = 1; n < ApList.size(); n++)
-	{
-		if(ApList[n].s >= z)
-		{
-			apBack.s = ApList[n - 1].s;
-			apBack.ap1 = ApList[n - 1].ap1;
-
-			apFront.s = ApList[n].s;
-			apFront.ap1 = ApList[n].ap1;
-
-			double minDim = min({apFront.ap1, apBack.ap1});
-			if(ax + ay < minDim)
-			{
-				return true;
-			}
-
-			if(apFront.ap1 == 0 || apBack.ap1 == 0)
-			{
-				cout << z << endl;
-				cout << apFront.s << endl;
-				cout << apBack.s << endl;
-				cout << apFront.ap1 << endl;
-				cout << apBack.ap1 << endl;
-				cout << ApList[n].ap1 << endl;
-				cout << ApList[n - 1].ap1 << endl;
-				abort();
-			}
-
-			break;
-		}
-
-		if(n == (ApList.size() - 1))
-		{
-			cout << "No aperture found for InterpolatedCircularAperture at z = " << z << endl;
-			for(size_t m = 0; m < ApList.size(); m++)
-			{
-				cout << "Entry " << m << " - z = " << ApList[m].s << "\t" << ApList[m].ap1
-					 << endl;
-			}
-			abort();
-		}
-	}
-
-	//We now have the aperture before and after the particle.
-	//It must now be calculated at the point where the particle is currently.
-
-	//y = mx + c
-	//m = (y1 - y0) / (x1 - x0)
-	double delta_s = apFront.s - apBack.s;
-	double g = (apFront.ap1 - apBack.ap1) / delta_s;
-
-	//c = y - mx
-	double c = apFront.ap1 - (g * apFront.s);
-
-	//aper_3 = half horizontal axis ellipse (or radius if circle)
-	double r2 = pow((g * z) + c, 2);
-
-	if((x * x + y * y < r2) == 0)
+	const apStruct ap = Interpolate(z);
+	if(ap.ap1 == 0)
 	{
-		return false;
+		cout << "No aperture found for InterpolatedCircularAperture at z = " << z << endl;
+		abort();
 	}
-
-	return x * x + y * y < r2;
+	return x * x + y * y < ap.ap1 * ap.ap1;
 }
 
 InterpolatedEllipticalAperture::InterpolatedEllipticalAperture(DataTable dt) :
@@ -296,97 +199,13 @@ string InterpolatedEllipticalAperture::GetType()
 
 bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, double y, double z) const
 {
-	apStruct apFront;
-	apStruct apBack;
-	double ax = fabs(x);
-	double ay = fabs(y);
-
-	apFront.s = 0;
-	apFront.ap1 = 0;
-	apFront.ap2 = 0;
-	apFront.ap3 = 0;
-	apFront.ap4 = 0;
-
-	apBack.s = 0;
-	apBack.ap1 = 0;
-	apBack.ap2 = 0;
-	apBack.ap3 = 0;
-	apBack.ap4 = 0;
-
-	if(z < 0)
+	const apStruct ap = Interpolate(z);
+	if(ap.ap1 == 0 || ap.ap2 == 0)
 	{
-		z = 0;
-	}
-
-	//The z coordinate is used to find the other aperture components
-	for(size_t n = 1; n < ApList.size(); n++)
-	{
-		if(ApList[n].s >= z)
-		{
-			apBack.s = ApList[n - 1].s;
-			apBack.ap1 = ApList[n - 1].ap1;
-
-			apFront.s = ApList[n].s;
-			apFront.ap1 = ApList[n].ap1;
-
-			double minDim = min({apFront.ap1, apBack.ap1});
-			if(ax + ay < minDim)
-			{
-				return true;
-			}
-
-			if(apFront.ap1 == 0 || apBack.ap1 == 0)
-			{
-				cout << z << endl;
-				cout << apFront.s << endl;
-				cout << apBack.s << endl;
-				cout << apFront.ap1 << endl;
-				cout << apBack.ap1 << endl;
-				cout << ApList[n].ap1 << endl;
-				cout << ApList[n - 1].ap1 << endl;
-				abort();
-			}
-
-			break;
-		}
-
-		if(n == (ApList.size() - 1))
-		{
-			cout << "No aperture found for InterpolatedEllipticalAperture at z = " << z << endl;
-			for(size_t m = 0; m < ApList.size(); m++)
-			{
-				cout << "Entry " << m << " - z = " << ApList[m].s << "\t" << ApList[m].ap1
-					 << endl;
-			}
-			abort();
-		}
-	}
-
-	//We now have the aperture before and after the particle.
-	//It must now be calculated at the point where the particle is currently.
-
-	//y = mx + c
-	//m = (y1 - y0) / (x1 - x0)
-	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
-
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
-
-	double ellipse_half_horizontal = (g1 * z) + c1;
-	double ellipse_half_vertical = (g2 * z) + c2;
-
-	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
-		* ellipse_half_vertical)) > 1)
-	{
-		return 0;
-	}
-	else
-	{
-		return 1;
+		cout << "No aperture found for InterpolatedEllipticalAperture at z = " << z << endl;
+		abort();
 	}
+	return (x * x) / (ap.ap1 * ap.ap1) + (y * y) / (ap.ap2 * ap.ap2) <= 1;
 }
 
 InterpolatedOctagonalAperture::InterpolatedOctagonalAperture(DataTable dt) :
@@ -412,86 +231,27 @@ string InterpolatedOctagonalAperture::GetType()
 
 bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, double y, double z) const
 {
-	apStruct apFront;
-	apStruct apBack;
+	const apStruct ap = Interpolate(z);
+	double hw = ap.ap1;
+	double hh = ap.ap2;
 
-	apFront.s = 0;
-	apFront.ap1 = 0;
-	apFront.ap2 = 0;
-	apFront.ap3 = 0;
-	apFront.ap4 = 0;
-
-	apBack.s = 0;
-	apBack.ap1 = 0;
-	apBack.ap2 = 0;
-	apBack.ap3 = 0;
-	apBack.ap4 = 0;
-
-	if(z < 0)
-	{
-		z = 0;
-	}
-	//The z coordinate is used to find the other aperture components
-	for(size_t n = 1; n < ApList.size(); n++)
-	{
-		if(ApList[n].s >= z)
-		{
-			apBack = ApList[n - 1];
-			apFront = ApList[n];
-			break;
-		}
-	}
-	//We now have the aperture before and after the particle.
-	//It must now be calculated at the point where the particle is currently.
-
-	//y = mx + c
-	//m = (y1 - y0) / (x1 - x0)
-	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
-	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
-	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
-
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
-
-	double hw = (g1 * z) + c1;
-	double hh = (g2 * z) + c2;
-	double angle1 = (g3 * z) + c3;
-	double angle2 = (g4 * z) + c4;
-
-	double tana1 = tan(angle1);
-	double tana2 = tan(pi / 2 - angle2);
+	//Compute the tangents.
+	double tana1 = tan(ap.ap3);
+	double tana2 = tan(pi / 2 - ap.ap4);
 
+	//Make some constants.
 	double cc1 = (hh * tana2 - hw);
 	double cc2 = hw * tana1;
 	double cc3 = hh - cc2;
 
-	//This is just taken from trrun.f90 in MAD-X. - credit to: 2015-Feb-20  18:42:26  ghislain: added octagon shape
-
-	/*
-	       !*** case of octagon: test outer rectangle (ap1,ap2) then test cut corner.
-	       lost =  x .gt. ap1 .or. y .gt. ap2 .or. &
-	         (ap2*tan(pi/2 - ap4) - ap1)*(y - ap1*tan(ap3)) - (ap2 - ap1*tan(ap3))*(x - ap1) .lt. zero
-	 */
-	double fabsx = fabs(x);
-	double fabsy = fabs(y);
-
-	x = fabsx;
-	y = fabsy;
+	x = fabs(x);
+	y = fabs(y);
 
 	if(x >= hw || y >= hh)
 	{
 		return false;
 	}
-	if(cc1 * (y - cc2) - cc3 * (x - hw) <= 0)
-	{
-		return false;
-	}
-	return true;
+	return cc1 * (y - cc2) - cc3 * (x - hw) > 0;
 }
 
 Aperture* InterpolatorFactory::GetInstance(DataTable dt)
diff --git a/Merlin++/InterpolatedApertures.h b/Merlin++/InterpolatedApertures.h
index 53d60d5..985285f 100644
--- a/Merlin++/InterpolatedApertures.h
+++ b/Merlin++/InterpolatedApertures.h
@@ -70,6 +70,12 @@ public:
 	std::vector<apStruct> ApList;
 
 	void ConvertToStruct(DataTable);
+
+protected:
+	/**
+	 *  the entry at z: interpolated between the entries before and after it
+	 */
+	apStruct Interpolate(double z) const;
 };
 
 class InterpolatedRectEllipseAperture: public InterpolatedAperture
-- 
2.43.0


From 6e642238c1a60ecafd3d71bfd7d185eba7145107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 082/224] fix: collimators whose exit is narrower than the
 entrance stop what is outside of the jaws

---
 Merlin++/CollimatorAperture.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..79210aa 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -21,13 +21,6 @@ CollimatorAperture::CollimatorAperture(double w, double h, double t, double leng
 
 inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y, double z) const
 {
-	if(x_offset_entry == 0 && y_offset_entry == 0 && x_offset_exit == 0 && y_offset_exit == 0)
-	{
-		double ax = fabs(x);
-		double ay = fabs(y);
-		if(ax + ay < minDim)
-			return true;
-	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
 	double y_off = (z * (y_offset_entry - y_offset_exit) / CollimatorLength) - y_offset_entry;
 
-- 
2.43.0


From b7e5b79d80bd5e40b245b7e6e260c1f74addafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 083/224] fix: setting the entrance width and height of a
 collimator aperture

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 79210aa..73f4b50 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -36,11 +36,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From b0129cc764eb79cc1f5f685ba0dd597992c8292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 084/224] fix: apertures of elements beyond the last entry of
 the aperture table

---
 Merlin++/ApertureConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..f7d1f68 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -77,6 +77,12 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				return a.Get_d("S") < b;
 			});
 
+			if(this_ap == ApertureDataTable.end())
+			{
+				// beyond the last entry the next one is the first
+				this_ap = ApertureDataTable.begin();
+			}
+
 			aperture = ApertureFactory::GetInstance(*this_ap);
 			comp->SetAperture(aperture);
 			++noConfiguredApertures;
-- 
2.43.0


From 54cdff4995f21618a657ceeb4f1186f29d4c4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 085/224] fix: aperture entries from the other end of the ring
 are placed before or after the element

---
 Merlin++/ApertureConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index f7d1f68..c7d8d2d 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -118,6 +118,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set_d("S", 0, 0.0);
 				}
 				else
 				{
@@ -136,8 +137,11 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				}
 				if(this_ap == ApertureDataTable.end())
 				{
+					// the first entry, one turn on
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set_d("S", ThisElementAperture.Length() - 1, this_ap->Get_d("S") + last_ap->Get_d(
+							"S"));
 				}
 				else
 				{
-- 
2.43.0


From b62f5537f5e0ae70edd86fe0153bceceb624c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 086/224] fix: aperture entry just before the entrance of a
 drift is kept

---
 Merlin++/ApertureConfiguration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index c7d8d2d..f652b93 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -161,15 +161,15 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 					{
 						for(size_t row = 0; row < ThisElementAperture.Length(); ++row)
 						{
-							if(ThisElementAperture.Get_d("S", row) - Position < 0)
-							{
-								++negcount;
-							}
 							if(fequal(ThisElementAperture.Get_d("S", row) - Position, 0.0, 1e-7))
 							{
 								ThisElementAperture.Set("S", row, Position);
 								zeroentry = true;
 							}
+							else if(ThisElementAperture.Get_d("S", row) - Position < 0)
+							{
+								++negcount;
+							}
 						}
 					}
 					if(negcount != 0 && zeroentry == true)
-- 
2.43.0


From 2728da39dd987ef7c1ca3b22faf2fe1bbf30fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 087/224] fix: interpolation between different types of
 apertures

---
 Merlin++/ApertureConfiguration.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index f652b93..09b2825 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <string>
@@ -256,8 +257,11 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 							{
 								CleanElementAperture.Set("APER_1", row, CleanElementAperture.Get_d("APER_1", row));
 								CleanElementAperture.Set("APER_2", row, CleanElementAperture.Get_d("APER_2", row));
-								CleanElementAperture.Set("APER_3", row, CleanElementAperture.Get_d("APER_1", row));
-								CleanElementAperture.Set("APER_4", row, CleanElementAperture.Get_d("APER_2", row));
+								// the ellipse through the corners
+								CleanElementAperture.Set("APER_3", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_1",
+									row));
+								CleanElementAperture.Set("APER_4", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_2",
+									row));
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "OCTAGON")
 							{
@@ -276,6 +280,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<< endl;
 							exit(EXIT_FAILURE);
 						}
+						if(rectellipse)
+						{
+							CleanElementAperture.Set("APERTYPE", 0, "RECTELLIPSE");
+						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
 						++noConfiguredApertures;
-- 
2.43.0


From 92124d1b054f1e3dd40011e2c62d2e70083d4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 088/224] fix: collimator opening orthogonal to the collimation
 plane is in sigmas of that plane

---
 Merlin++/CollimatorDatabase.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..ccee767 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -216,7 +216,10 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							+ (beta_y * emittance_y * sin(collimator_aperture_tilt) * sin(collimator_aperture_tilt)));
 
 						double collimator_aperture_width_entrance = CollData[i].sigma_x * sigma_entrance * 2;
-						double collimator_aperture_height_entrance = CollData[i].sigma_y * sigma_entrance * 2;
+						double sigma_orthogonal_entrance = sqrt((beta_x * emittance_x * sin(collimator_aperture_tilt)
+							* sin(collimator_aperture_tilt))
+							+ (beta_y * emittance_y * cos(collimator_aperture_tilt) * cos(collimator_aperture_tilt)));
+						double collimator_aperture_height_entrance = CollData[i].sigma_y * sigma_orthogonal_entrance * 2;
 
 						//And the exit parameters
 						double sigma_exit = sqrt((beta_x_exit * emittance_x * cos(collimator_aperture_tilt) * cos(
@@ -225,7 +228,11 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 								collimator_aperture_tilt)));
 
 						double collimator_aperture_width_exit = CollData[i].sigma_x * sigma_exit * 2;
-						double collimator_aperture_height_exit = CollData[i].sigma_y * sigma_exit * 2;
+						double sigma_orthogonal_exit = sqrt((beta_x_exit * emittance_x * sin(collimator_aperture_tilt)
+							* sin(collimator_aperture_tilt))
+							+ (beta_y_exit * emittance_y * cos(collimator_aperture_tilt) * cos(
+								collimator_aperture_tilt)));
+						double collimator_aperture_height_exit = CollData[i].sigma_y * sigma_orthogonal_exit * 2;
 
 						//Get the length
 						double length = (CMapit->second)->GetLength();
-- 
2.43.0


From 9239fea9ec14c5bb322a482ef8cef366b9043cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 089/224] fix: parallel jaws of tilted collimators clear the
 beam envelope in the frame of the jaws

---
 Merlin++/CollimatorDatabase.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index ccee767..0e92de0 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -282,7 +282,6 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double gap_x_entrance = collimator_aperture_width_entrance / 2;
 							double x_rot = (x_orbit * cos(-collimator_aperture_tilt)) - (y_orbit * sin(
 									-collimator_aperture_tilt));
-							x_rot = x_orbit;
 							double x1 = x_rot + gap_x_entrance;
 							double x2 = x_rot - gap_x_entrance;
 
@@ -290,7 +289,6 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double gap_y_entrance = collimator_aperture_height_entrance / 2;
 							double y_rot = (x_orbit * sin(-collimator_aperture_tilt)) + (y_orbit * cos(
 									-collimator_aperture_tilt));
-							y_rot = y_orbit;
 							double y1 = y_rot + gap_y_entrance;
 							double y2 = y_rot - gap_y_entrance;
 
@@ -299,7 +297,6 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double gap_x_exit = collimator_aperture_width_exit / 2;
 							double x_rot_exit = (x_orbit_exit * cos(-collimator_aperture_tilt)) - (y_orbit_exit * sin(
 									-collimator_aperture_tilt));
-							x_rot_exit = x_orbit_exit;
 							double xx1 = x_rot_exit + gap_x_exit;
 							double xx2 = x_rot_exit - gap_x_exit;
 
@@ -307,7 +304,6 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double gap_y_exit = collimator_aperture_height_exit / 2;
 							double y_rot_exit = (x_orbit_exit * sin(-collimator_aperture_tilt)) + (y_orbit_exit * cos(
 									-collimator_aperture_tilt));
-							y_rot_exit = y_orbit_exit;
 							double yy1 = y_rot_exit + gap_y_exit;
 							double yy2 = y_rot_exit - gap_y_exit;
 
@@ -320,8 +316,11 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double x_size = (xj1 - xj2);
 							double y_size = (yj1 - yj2);
 
-							double x_pos = (xj1 + xj2) / 2;
-							double y_pos = (yj1 + yj2) / 2;
+							//The centre between the jaws, in the frame of the jaws and of the beam
+							double u_pos = (xj1 + xj2) / 2;
+							double v_pos = (yj1 + yj2) / 2;
+							double x_pos = u_pos * cos(collimator_aperture_tilt) - v_pos * sin(collimator_aperture_tilt);
+							double y_pos = u_pos * sin(collimator_aperture_tilt) + v_pos * cos(collimator_aperture_tilt);
 
 							if(CollData[i].name == "TCDQA.A4R6.B1")
 							{
-- 
2.43.0


From 25e599adfb93b12b7551afc90a0e019737183151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 090/224] fix: particles lost in the last bin of an element are
 reported as losses

---
 Merlin++/CollimateParticleProcess.cpp | 54 +++++++++++----------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..572cacb 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -365,18 +365,9 @@ void CollimateParticleProcess::DoCollimation()
 			//Prepare the tracker to use the current accelerator component
 			currentComponent->PrepareTracker(*LostParticleTracker);
 
-			//While we are still inside the component
-			while((LostParticleTracker->GetRemainingLength()) >= 0 && LostBunch->size() != 0)
+			//Up to where the losses were found
+			while(true)
 			{
-				double StepSize = bin_size;
-				//If the remaining length of component is less than the step size, set the step size to this value
-				if((LostParticleTracker->GetRemainingLength() - StepSize) < 0)
-				{
-					StepSize = LostParticleTracker->GetRemainingLength();
-				}
-
-				//Track the appropriate step length
-
 				double IntegratedLength = LostParticleTracker->GetIntegratedLength();
 				//Now loop over each particle in turn
 				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end();)
@@ -405,12 +396,9 @@ void CollimateParticleProcess::DoCollimation()
 						lost.push_back(*p);
 
 						//CollimationOutput loss
-						if(!is_collimator)
+						for(auto &OutIt : CollimationOutputVector)
 						{
-							for(auto &OutIt : CollimationOutputVector)
-							{
-								OutIt->Dispose(*currentComponent, IntegratedLength, (*p), ColParProTurn);
-							}
+							OutIt->Dispose(*currentComponent, IntegratedLength, (*p), ColParProTurn);
 						}
 						p = LostBunch->erase(p);
 					}
@@ -422,30 +410,30 @@ void CollimateParticleProcess::DoCollimation()
 				}
 
 				//Now move forward...
-				if((LostParticleTracker->GetRemainingLength()) > 0)
-				{
-					LostParticleTracker->TrackStep(StepSize);
-				}
-				if(LostParticleTracker->GetRemainingLength() == 0)
+				double StepSize = std::min(bin_size, s - IntegratedLength);
+				if(LostBunch->size() == 0 || StepSize <= 0 || fequal(StepSize, 0))
 				{
 					break;
 				}
+				LostParticleTracker->TrackStep(StepSize);
 			}
 
-			//If there is anything left - possible bug.
-			if(LostBunch->size() != 0)
+			//If there is anything left, it was lost where we are now
+			for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
 			{
-				std::cout << "POSSIBLE BUG: Leftovers: " << LostBunch->size() << "\t"
-						  << currentComponent->GetQualifiedName() << "\t"
-						  << LostParticleTracker->GetIntegratedLength() << "\t" << length << std::endl;
-				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
+				(*p).ct() += s;
+				if((*p).ct() < 0)
 				{
-					(*p).ct() += LostParticleTracker->GetIntegratedLength();
-					if((*p).ct() > length)
-					{
-						(*p).ct() = length;
-					}
-					lost.push_back(*p);
+					(*p).ct() = 0;
+				}
+				if((*p).ct() > length)
+				{
+					(*p).ct() = length;
+				}
+				lost.push_back(*p);
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, s, (*p), ColParProTurn);
 				}
 			}
 
-- 
2.43.0


From 913ea4826680f193791a005468114cbcada48dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 091/224] fix: particles lost in elements of zero length are
 reported as losses

---
 Merlin++/CollimateParticleProcess.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 572cacb..aa50ff3 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -439,11 +439,20 @@ void CollimateParticleProcess::DoCollimation()
 
 			//clean up the tracker
 			delete LostParticleTracker;
-			//and the "lost particle bunch"
-			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
-		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			//if the element has zero length all the losses have occurred at the same point anyway.
+			for(PSvectorArray::iterator p = lost.begin(); p != lost.end(); p++)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, s, (*p), ColParProTurn);
+				}
+			}
+		}
+		//and the "lost particle bunch"
+		delete LostBunch;
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 047dec9407ecd1b44b1c5998c759330d30af1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 092/224] fix: losses at more than one place in an element

---
 Merlin++/CollimateParticleProcess.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index aa50ff3..0f5240f 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -464,7 +464,24 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	//The input array keeps the particles that are left, there may be another check in this element
+	if(!is_collimator)
+	{
+		PSvectorArray Remaining;
+		vector<unsigned int>::const_iterator gone = LostParticlePositions.begin();
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(gone != LostParticlePositions.end() && *gone == n)
+			{
+				++gone;
+			}
+			else
+			{
+				Remaining.push_back(InputArray[n]);
+			}
+		}
+		InputArray.swap(Remaining);
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From d1e3ec4bb9e9b32052eba869be1c53107fd054d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 093/224] fix: last bin of collimators whose length is not a
 multiple of the bin size

---
 Merlin++/CollimateParticleProcess.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 0f5240f..811301e 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -204,6 +204,8 @@ void CollimateParticleProcess::DoCollimation()
 {
 	//The aperture of this element
 	const Aperture *ap = currentComponent->GetAperture();
+	//The step just made, the last one in a collimator may be shorter than the bins
+	double step = s - int_s;
 
 	// If there are no losses there is no need to go through the expensive
 	// process of copying all the particles to a new bunch. So check first
@@ -214,7 +216,7 @@ void CollimateParticleProcess::DoCollimation()
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - step * (*p).xp(), (*p).y() - step * (*p).yp(), s))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -261,8 +263,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= step * (*p).xp();
+			(*p).y() -= step * (*p).yp();
 			p++;
 		}
 	}
@@ -274,8 +276,8 @@ void CollimateParticleProcess::DoCollimation()
 
 //		if(is_collimator)
 //		{
-//			(*p).x() -= bin_size * (*p).xp();
-//			(*p).y() -= bin_size * (*p).yp();
+//			(*p).x() -= step * (*p).xp();
+//			(*p).y() -= step * (*p).yp();
 //		}
 		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), s))
 		{
@@ -315,8 +317,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += step * (*p).xp();
+				(*p).y() += step * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
-- 
2.43.0


From 38b4c084e9345d1394b6855bb631d2349983a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 094/224] fix: indexing particles in a list of the caller

---
 Merlin++/CollimateParticleProcess.cpp | 15 ++++++++++-----
 Merlin++/CollimateParticleProcess.h   |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 811301e..0e6bb4f 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,14 +52,14 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), own_index(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
+	if(own_index)
 	{
 		delete pindex;
 	}
@@ -177,22 +177,27 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		own_index = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(own_index)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
+		own_index = false;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
+	if(own_index)
 	{
 		delete pindex;
 	}
-
 	pindex = &anIndex;
+	own_index = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..dd4ab74 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -167,6 +167,7 @@ protected:
 	double lossThreshold;
 	size_t nstart;
 	std::list<size_t>* pindex;
+	bool own_index;
 
 	IDTBL idtbl;
 
-- 
2.43.0


From 35a89c600af4f0c5ba3607e9242bb659cb2b5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 095/224] fix: place of losses by scattering in collimators

---
 Merlin++/CollimateProtonProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..24c0d7a 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -177,7 +177,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +190,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 5a1f9ef697ab286273e501e0b5fdb4b23e296854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 096/224] fix: particles stopped by energy loss in a collimator
 are reported as losses

---
 Merlin++/CollimateProtonProcess.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 24c0d7a..5a7fb44 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,11 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
-- 
2.43.0


From 0d8c9e3c57be4d405692f702b52f7ac61928c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 097/224] fix: particles absorbed in collimators without
 scattering model are reported as losses

---
 Merlin++/CollimateParticleProcess.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index dd4ab74..803c4d6 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -222,8 +222,12 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
+	virtual ScatterOutcome DoScatter(Particle& p)
 	{
+		for(auto &OutIt : CollimationOutputVector)
+		{
+			OutIt->Dispose(*currentComponent, int_s, p, ColParProTurn);
+		}
 		return ScatterOutcome::absorbed;
 	}
 
-- 
2.43.0


From e0f8287cad0dad1dcfb728e8161e8df94f2f52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 098/224] fix: bins of collimators when other processes make
 smaller steps

---
 Merlin++/CollimateParticleProcess.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 0e6bb4f..59bada7 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -103,6 +103,7 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		currentComponent = &component;
 		s = 0;
+		int_s = 0;
 		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
@@ -147,8 +148,8 @@ void CollimateParticleProcess::DoProcess(double ds)
 	if(fequal(s, next_s))
 	{
 		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
 		DoCollimation();
+		int_s = s;
 		SetNextS();
 	}
 
@@ -162,14 +163,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
-- 
2.43.0


From 8165fc7db6ec6632a6dcb8b5554cc099772c4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 099/224] fix: the first loss of a loss map by elements or
 positions is counted once

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..5af22de 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -99,7 +99,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -122,7 +122,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From 14877c1eca4fe83f21e77105101bfb1e2c419a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 100/224] fix: finalising a loss map again after more losses

---
 Merlin++/LossMapCollimationOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index 5af22de..a187373 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -83,6 +83,7 @@ void LossMapCollimationOutput::Finalise()
 
 	std::cout << "CollimationOutput:: DeadParticles.size() = " << DeadParticles.size() << std::endl;
 
+	OutputLosses.clear();
 	int outit = 0;
 	int total = 0;
 
-- 
2.43.0


From 1bb9a70004b41f7f25a9c48869c2b8a31ef1e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 101/224] fix: losses in different elements of the same name
 and in elements at the same place

---
 Merlin++/CollimationOutput.h          | 7 ++++++-
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimationOutput.h b/Merlin++/CollimationOutput.h
index b28c79e..846efdd 100644
--- a/Merlin++/CollimationOutput.h
+++ b/Merlin++/CollimationOutput.h
@@ -125,7 +125,12 @@ struct LossData
 // Comparison function used to sort losses in order of s position
 inline bool Compare_LossData(const LossData &a, const LossData &b)
 {
-	return (a.s + a.position + a.interval) < (b.s + b.position + a.interval);
+	if(a.s + a.position != b.s + b.position)
+	{
+		return (a.s + a.position) < (b.s + b.position);
+	}
+	// elements of zero length at the same place
+	return a.ElementName < b.ElementName;
 }
 
 inline bool Merge_LossData(const LossData &a, const LossData &b)
diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a187373..e669c6b 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -100,7 +100,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			else if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName && it->s == OutputLosses[outit].s)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -146,7 +146,7 @@ void LossMapCollimationOutput::Finalise()
 				OutputLosses[outit].lost = 1;
 			}
 			// If in the same bin ++loss
-			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==
+			else if((it->ElementName == OutputLosses[outit].ElementName && it->s == OutputLosses[outit].s) && (it->interval ==
 				OutputLosses[outit].interval))
 			{
 				OutputLosses[outit].lost += 1;
-- 
2.43.0


From 6c9f01526d7a17c1ef4e538dfce7a448a88cb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 102/224] fix: header of the detailed collimation output names
 the columns that are written

---
 Merlin++/DetailedCollimationOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f446ea2..f501118 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -41,7 +41,7 @@ void DetailedCollimationOutput::Dispose(AcceleratorComponent& currcomponent, dou
 
 void DetailedCollimationOutput::Output(std::ostream* os)
 {
-	(*os) << "#name s pos x xp y yp type id location turn" << std::endl;
+	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
 		(*os) << std::setw(16) << std::left << its->ElementName;
-- 
2.43.0


From f046cd9e7eb342d3f656978b321a1884c28d6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 103/224] fix: columns of loss maps and detailed losses stay
 apart for long names and numbers

---
 Merlin++/DetailedCollimationOutput.cpp | 18 +++++++--------
 Merlin++/LossMapCollimationOutput.cpp  | 32 +++++++++++++-------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f501118..ecaec03 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -44,15 +44,15 @@ void DetailedCollimationOutput::Output(std::ostream* os)
 	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
-		(*os) << std::setw(16) << std::left << its->ElementName;
-		(*os) << std::setw(20) << std::left << its->s;
-		(*os) << std::setw(20) << std::left << its->position;
-		(*os) << std::setw(20) << std::left << its->p.x();
-		(*os) << std::setw(20) << std::left << its->p.xp();
-		(*os) << std::setw(20) << std::left << its->p.y();
-		(*os) << std::setw(20) << std::left << its->p.yp();
-		(*os) << std::setw(20) << std::left << its->p.id();
-		(*os) << std::setw(20) << std::left << its->turn;
+		(*os) << std::setw(16) << std::left << its->ElementName << " ";
+		(*os) << std::setw(20) << std::left << its->s << " ";
+		(*os) << std::setw(20) << std::left << its->position << " ";
+		(*os) << std::setw(20) << std::left << its->p.x() << " ";
+		(*os) << std::setw(20) << std::left << its->p.xp() << " ";
+		(*os) << std::setw(20) << std::left << its->p.y() << " ";
+		(*os) << std::setw(20) << std::left << its->p.yp() << " ";
+		(*os) << std::setw(20) << std::left << its->p.id() << " ";
+		(*os) << std::setw(20) << std::left << its->turn << " ";
 		(*os) << std::endl;
 	}
 }
diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index e669c6b..b78e906 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -179,11 +179,11 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::left << its->s;
-			(*os) << std::setw(16) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
-			(*os) << std::setw(16) << std::left << its->length;
+			(*os) << std::setw(34) << std::left << its->ElementName << " ";
+			(*os) << std::setw(34) << std::left << its->s << " ";
+			(*os) << std::setw(16) << std::left << its->lost << " ";
+			(*os) << std::setw(16) << std::left << its->temperature << " ";
+			(*os) << std::setw(16) << std::left << its->length << " ";
 			(*os) << std::endl;
 		}
 		break;
@@ -197,11 +197,11 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::left << its->s;
-			(*os) << std::setw(34) << std::left << its->position;
-			(*os) << std::setw(16) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
+			(*os) << std::setw(34) << std::left << its->ElementName << " ";
+			(*os) << std::setw(34) << std::left << its->s << " ";
+			(*os) << std::setw(34) << std::left << its->position << " ";
+			(*os) << std::setw(16) << std::left << its->lost << " ";
+			(*os) << std::setw(16) << std::left << its->temperature << " ";
 			(*os) << std::endl;
 
 		}
@@ -217,12 +217,12 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::setprecision(15) << std::left << its->s + its->interval;
-			(*os) << std::setw(16) << std::setprecision(4) << std::left << its->interval;
-			(*os) << std::setw(16) << std::setprecision(15) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
-			(*os) << std::setw(16) << std::left << its->length;
+			(*os) << std::setw(34) << std::left << its->ElementName << " ";
+			(*os) << std::setw(34) << std::setprecision(15) << std::left << its->s + its->interval << " ";
+			(*os) << std::setw(16) << std::setprecision(4) << std::left << its->interval << " ";
+			(*os) << std::setw(16) << std::setprecision(15) << std::left << its->lost << " ";
+			(*os) << std::setw(16) << std::left << its->temperature << " ";
+			(*os) << std::setw(16) << std::left << its->length << " ";
 			(*os) << std::endl;
 
 		}
-- 
2.43.0


From 90f0bf229ef6f2d71dfa09e1affcd89288c18a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 104/224] fix: destructor of loss maps is defined

---
 Merlin++/LossMapCollimationOutput.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LossMapCollimationOutput.h b/Merlin++/LossMapCollimationOutput.h
index 463b8ff..25d9db4 100644
--- a/Merlin++/LossMapCollimationOutput.h
+++ b/Merlin++/LossMapCollimationOutput.h
@@ -21,7 +21,9 @@ class LossMapCollimationOutput: public CollimationOutput
 public:
 
 	LossMapCollimationOutput(OutputType otype = tencm);
-	~LossMapCollimationOutput();
+	~LossMapCollimationOutput()
+	{
+	}
 
 	/**
 	 * Finalise will call any sorting algorithms and perform formatting for final output
-- 
2.43.0


From 3fe317d2e54ff7734afed87c4172064c7004afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 105/224] fix: losses in an element that starts at the place of
 elements of zero length

---
 Merlin++/LossMapCollimationOutput.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index b78e906..44aca4b 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -80,6 +80,13 @@ void LossMapCollimationOutput::Finalise()
 {
 	//First sort DeadParticles according to s
 	sort(DeadParticles.begin(), DeadParticles.end(), Compare_LossData);
+	if(otype != precise)
+	{
+		// keep the losses of an element together if there are other elements at its start
+		stable_sort(DeadParticles.begin(), DeadParticles.end(), [](const LossData &a, const LossData &b){
+				return a.s != b.s ? a.s < b.s : a.ElementName < b.ElementName;
+			});
+	}
 
 	std::cout << "CollimationOutput:: DeadParticles.size() = " << DeadParticles.size() << std::endl;
 
-- 
2.43.0


From 53af77317dd1105f6591d3cdd1f1b425f1c7fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 106/224] fix: subtracting a scalar from a vector added it

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..9962aac 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -474,7 +474,7 @@ template<class T>
 Vector<T> operator-(const Vector<T>& v, T s)
 {
 	Vector<T> rv(v);
-	return rv += s;
+	return rv -= s;
 }
 
 template<class T>
-- 
2.43.0


From 1d492246029d61737508f060c148ee887f339d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 107/224] fix: the product of matrices was refused unless it is
 square

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 9962aac..40a7f1d 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1463,7 +1463,7 @@ Matrix<T> operator*(T s, const Matrix<T>& A)
 template<class T>
 Matrix<T> operator*(const Matrix<T>& A, const Matrix<T> B)
 {
-	equal_dimension(A.dim(), swap(B.dim()));
+	equal_length(A.ncols(), B.nrows());
 	Matrix<T> C(A.nrows(), B.ncols(), T(0));
 	tblas3::tgemm(false, false, T(1), A, B, T(1), C);
 	return C;
-- 
2.43.0


From 68668def08a2d26c75a1a702d14f33e03d822b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 108/224] fix: printing a matrix that is not square threw a
 RangeError

---
 Merlin++/TMatrixLib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 40a7f1d..eb18c6b 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1484,9 +1484,9 @@ Vector<T> operator*(const Matrix<T>& M, const Vector<T> V)
 template<class T>
 std::ostream& operator<<(std::ostream& os, const Matrix<T>& M)
 {
-	for(size_t i = 0; i < M.ncols(); i++)
+	for(size_t i = 0; i < M.nrows(); i++)
 	{
-		for(size_t j = 0; j < M.nrows(); j++)
+		for(size_t j = 0; j < M.ncols(); j++)
 		{
 			os << M(i, j) << " ";
 		}
-- 
2.43.0


From fb848a33d07a0f44c22e96a66a936f976ee1d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 109/224] fix: LU decomposition wrote its pivots beyond an
 empty vector

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..ab9e5b8 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -35,7 +35,7 @@ public:
 	 * SingularMatrix() if the matrix is singular.
 	 */
 	explicit LUMatrix(const Matrix<T>& M) :
-		lud(M), indexes(), d(1)
+		lud(M), indexes(M.nrows()), d(1)
 	{
 		LUfactor(lud, indexes, d);
 	}
-- 
2.43.0


From 9129e23b5f32b44c18fbf045ff992d5ceb9df42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 110/224] fix: InvertMatrix did not compile

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index ab9e5b8..3bae1e3 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -361,7 +361,7 @@ Matrix<T>& InvertMatrix(Matrix<T>& m)
 	LUMatrix<T> lu(m);
 	for(int i = 0; i < m.ncols(); i++)
 	{
-		SubVector<T>& col = m.column(i);
+		SubVector<T> col = m.column(i);
 		col = T(0);
 		col[i] = T(1);
 		lu(col);
-- 
2.43.0


From e7a979a727d769327095b836af81ba508fea013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 111/224] fix: SVD did not converge or was wrong for matrices
 with a zero singular value

---
 Merlin++/TLASimp.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 3bae1e3..0c9eb48 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -565,19 +565,21 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
-					if(!fequal(fabs(f0) + F2, F2))
+					work[i] = f2 * work[i];
+					if(fequal(fabs(f0) + F2, F2))
 					{
-						F1 = V[i];
-						f3 = PYTHAG(f0, F1);
-						V[i] = f3;
-						f3 = 1.0 / f3;
-						f2 = F1 * f3;
-						f1 = (-f0 * f3);
-						Vector<T> Y = M.column(remember);
-						Vector<T> Z = M.column(i);
-						M.column(remember) = Y * f2 + Z * f1;
-						M.column(i) = Z * f2 - Y * f1;
+						break;
 					}
+					F1 = V[i];
+					f3 = PYTHAG(f0, F1);
+					V[i] = f3;
+					f3 = 1.0 / f3;
+					f2 = F1 * f3;
+					f1 = (-f0 * f3);
+					Vector<T> Y = M.column(remember);
+					Vector<T> Z = M.column(i);
+					M.column(remember) = Y * f2 + Z * f1;
+					M.column(i) = Z * f2 - Y * f1;
 				}
 			}
 			T q1 = V[k];
-- 
2.43.0


From e22265c6c74a935b4a9a3fad4e3a408468a439ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 112/224] fix: SVD lost precision for matrices of small
 elements

---
 Merlin++/TLASimp.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 0c9eb48..7d79a6b 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -400,7 +400,7 @@ inline T PYTHAG(T a, T b)
 		T c = b / a;
 		return a * sqrt(1 + c * c);
 	}
-	else if(!fequal(b, 0.0))
+	else if(b != 0.0)
 	{
 		T c = a / b;
 		return b * sqrt(1 + c * c);
@@ -436,7 +436,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i <= rmax)
 		{
 			F0 += M(R1, i).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(R1, i) /= F0;
 				f1 += M(R1, i).sumsquared();
@@ -463,7 +463,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		{
 			Range R2(i + 1, cmax);
 			F0 += M(i, R2).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(i, R2) /= F0;
 				f1 += M(i, R2).sumsquared();
@@ -492,7 +492,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i < cmax)
 		{
 			Range R2(i + 1, cmax);
-			if(!fequal(F1, 0.0))
+			if(F1 != 0.0)
 			{
 				S(R2, i) = (M(i, R2) / M[i][i + 1]) / F1;
 				for(int j = i + 1; j <= cmax; j++)
@@ -515,7 +515,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		F1 = V[i];
 		if(i < cmax)
 			M(i, R4) = 0;
-		if(!fequal(F1, 0.0))
+		if(F1 != 0.0)
 		{
 			F1 = 1.0 / F1;
 			if(i != cmax)
@@ -548,12 +548,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 			for(L = k; L >= 0; L--)
 			{
 				remember = L - 1;
-				if(fequal(fabs(work[L]) + F2, F2))
+				if(fabs(work[L]) + F2 == F2)
 				{
 					ok = false;
 					break;
 				}
-				if(fequal(fabs(V[L - 1]) + F2, F2))
+				if(fabs(V[L - 1]) + F2 == F2)
 				{
 					break;
 				}
@@ -566,7 +566,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				{
 					f0 = f1 * work[i];
 					work[i] = f2 * work[i];
-					if(fequal(fabs(f0) + F2, F2))
+					if(fabs(f0) + F2 == F2)
 					{
 						break;
 					}
@@ -621,7 +621,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				S.column(j + 1) = Z1 * f2 - X * f1;
 				q1 = PYTHAG(f0, f3);
 				V[j] = q1;
-				if(!fequal(q1, 0.0))
+				if(q1 != 0.0)
 				{
 					q1 = 1.0 / q1;
 					f2 = f0 * q1;
-- 
2.43.0


From e8c6e26e0b3611f87e65c9deef1df23be721be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 113/224] fix: a reversed range of a matrix or vector reached
 outside of it

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index eb18c6b..bf26274 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -133,7 +133,7 @@ inline void in_range(Subscript i, Dimension l)
 }
 inline void in_range(Range r, Dimension n)
 {
-	if((r.first >= n) || (r.second >= n))
+	if((r.first >= n) || (r.second >= n) || (r.second + 1 < r.first))
 	{
 		throw RangeError();
 	}
-- 
2.43.0


From d759c127c5b2181c29a62fd74bfd53594891ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 114/224] fix: assigning a range to one that overlaps it

---
 Merlin++/TMatrixLib.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index bf26274..88e0c0b 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -671,7 +671,8 @@ public:
 	SubVector<T>& operator=(const ConstSubVector<T>& sv)
 	{
 		equal_length(sl.size(), sv.sl.size());
-		array[sl] = sv.array[sv.sl];
+		const array_type values(sv.array[sv.sl]); // the ranges may overlap
+		array[sl] = values;
 		return *this;
 	}
 
-- 
2.43.0


From 9a83d5bcc111b1c6ac3119956478971c337e491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 115/224] fix: OPFormat::general did nothing

---
 Merlin++/OPFormat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/OPFormat.h b/Merlin++/OPFormat.h
index 534e056..02ea447 100644
--- a/Merlin++/OPFormat.h
+++ b/Merlin++/OPFormat.h
@@ -45,7 +45,7 @@ public:
 
 	OPFormat& general()
 	{
-		fmt &= ~(ios_base::scientific & ios_base::fixed);
+		fmt &= ~(ios_base::scientific | ios_base::fixed);
 		return *this;
 	}
 
-- 
2.43.0


From 9d8a8a5104f048b29151a7e5da9412b911cb9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 116/224] fix: text in a field of one character was not
 truncated

---
 Merlin++/OPFormat.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/OPFormat.cpp b/Merlin++/OPFormat.cpp
index 84c5dbb..1237165 100644
--- a/Merlin++/OPFormat.cpp
+++ b/Merlin++/OPFormat.cpp
@@ -43,8 +43,9 @@ template<>
 inline string truncate_str(const string& s, const string&, int n)
 {
 	// for strings, we add ellipses
-	string rv(s, 0, n - 2);
-	return rv += "..";
+	string rv(s, 0, n > 2 ? n - 2 : 0);
+	rv += "..";
+	return rv.substr(0, n);
 }
 
 template<class T>
-- 
2.43.0


From 30638f99c2b2dc6f5324cabc58c8266c20e8de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 117/224] fix: SVDMatrix of a matrix with fewer rows than
 columns

---
 Merlin++/TLASimp.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 7d79a6b..9c420f6 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -120,23 +120,21 @@ public:
 	Vector<T> operator()(const Vector<T>& rhs) const
 	{
 		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
+		Vector<T> y(u.nrows());
+		equal_length(rhs.size(), wts.size());
+		for(Subscript i = 0; i < rhs.size(); i++)
+		{
+			y(i) = rhs(i) * wts(i);
+		}
 		return SVDsolve(u, w, v, y, x);
 	}
 	Vector<T> operator()(const SubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return operator()(Vector<T>(rhs));
 	}
 	Vector<T> operator()(const ConstSubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return operator()(Vector<T>(rhs));
 	}
 	const std::vector<bool>& wflags() const
 	{
@@ -198,10 +196,10 @@ void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 		u.copy(M);
 	}
 
-	// adjust for weights: multiply each column vector by wts
-	for(Subscript ir = 0; ir < u.ncols(); ir++)
+	// adjust for weights: multiply each row of M by its weight
+	for(Subscript ir = 0; ir < M.nrows(); ir++)
 	{
-		u.column(ir) *= wts;
+		u.row(ir) *= wts(ir);
 	}
 
 	w.redim(u.ncols());
@@ -419,7 +417,7 @@ template<class T> inline T SIGN(T a, T b)
 template<class T>
 void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 {
-	assert(M.nrows() <= M.ncols());
+	assert(M.nrows() >= M.ncols());
 	const int rmax = M.nrows() - 1;
 	const int cmax = M.ncols() - 1;
 
-- 
2.43.0


From 7a82f53cd06afd40df1cb000d11ad22be1e58569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 118/224] fix: eigenvectors of a ring with beta = 1 or an
 exactly guessed eigenvalue

---
 Merlin++/LinearAlgebra.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..43c40e4 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -168,7 +168,22 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(SingularMatrix&)
+				{
+					// lambda is exactly an eigenvalue: the vector follows from a solution close to it
+					lambda *= 1 + 1.0e-14;
+					for(n = 0; n < 6; n++)
+					{
+						mp(n, n) = m(n, n) - lambda;
+					}
+					minv = mp;
+					Inverse(minv);
+					prox = 0;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
@@ -185,8 +200,8 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				Complex ydotb = 0.0;
 				for(n = 0; n < 6; n++)
 				{
-					ynorm += y(n) * y(n);
-					ydotb += y(n) * b(n);
+					ynorm += conj(y(n)) * y(n);
+					ydotb += conj(b(n)) * y(n);
 				}
 
 				b = y / sqrt(ynorm);
-- 
2.43.0


From 03248c7c73973f82f564fd8c024d8bd159f72331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 119/224] fix: Symplectify threw for matrices that are not 6x6

LatticeFunctionTable::MakeTMSymplectic uses it on 4x4 matrices for a ring
without longitudinal focusing.
---
 Merlin++/LinearAlgebra.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 43c40e4..1808a15 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -251,11 +251,12 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 
 void Symplectify(RealMatrix& a)
 {
-	IdentityMatrix Ident(6);
+	const int size = a.nrows();
+	IdentityMatrix Ident(size);
 	RealMatrix I(Ident);
 	RealMatrix s(Ident);
 
-	for(int n = 0; n < 3; n++)
+	for(int n = 0; n < size / 2; n++)
 	{
 		int m = 2 * n;
 		s(m, m) = s(m + 1, m + 1) = 0;
@@ -270,9 +271,9 @@ void Symplectify(RealMatrix& a)
 	RealMatrix Ima(I - a);
 	RealMatrix v(s * Ima * Ipa);
 
-	RealMatrix w(6);
-	for(int row = 0; row < 6; row++)
-		for(int col = 0; col < 6; col++)
+	RealMatrix w(size);
+	for(int row = 0; row < size; row++)
+		for(int col = 0; col < size; col++)
 		{
 			w(row, col) = (v(row, col) + v(col, row)) / 2;
 		}
-- 
2.43.0


From e613fa28a875ce8828789789bf89381a7f20e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 120/224] fix: reading a lattice function that is not in the
 table

Value(), Mean() and RMS() dereferenced the end of the list of functions.
---
 Merlin++/LatticeFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index b8abf98..f560217 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -632,7 +632,7 @@ vectorlfn::iterator LatticeFunctionTable::GetColumn(int i, int j, int k)
 		}
 	}
 
-	return lfnit;
+	throw MerlinException("LatticeFunctionTable: function is not in the table");
 }
 
 double LatticeFunctionTable::Mean(int i, int j, int k, int n1, int n2)
-- 
2.43.0


From fbb7d585801abde60477545522c61c3fdbedc37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 121/224] fix: rms dispersion took the dispersion at the start
 as zero

---
 Merlin++/Dispersion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..b319f61 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
-- 
2.43.0


From 55123162117713bf0e64869a4fd6640871ba0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 122/224] fix: dispersion table had the position of the start
 with the dispersion at the end of each element

---
 Merlin++/Dispersion.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index b319f61..472d9c6 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -79,14 +79,15 @@ void Dispersion::FindRMSDispersion(ostream* file)
 
 	do
 	{
+		dl = tracker.GetCurrentComponent().GetLength();
+		loop = tracker.StepComponent();
+		len += dl;
+
 		if(file)
 		{
 			*file << std::setw(14) << len;
 		}
 
-		dl = tracker.GetCurrentComponent().GetLength();
-		loop = tracker.StepComponent();
-
 		// This is a little clumsy, but is a direct result of not
 		// having random access for std::list!
 		ParticleBunch::const_iterator ip = tracker.GetTrackedBunch().begin();
@@ -109,8 +110,6 @@ void Dispersion::FindRMSDispersion(ostream* file)
 			*file << std::endl;
 		}
 
-		len += dl;
-
 	} while(loop);
 
 	DxRMS = sqrt(rmsD[0] / len);
-- 
2.43.0


From b9f6043a91aebc23da20a5e7e2d6ca9780ad2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 123/224] fix: phase advance to an element in which the phase
 wraps was one turn short

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..d643448 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,7 +146,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
 		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
 		{
-- 
2.43.0


From f1ce5f13b2aad95c1b838e5d025a4ae061edad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 124/224] fix: TransferMapBetween expanded about the closed
 orbit at the start of the ring

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index d643448..5a7a7cb 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -118,7 +118,7 @@ RealMatrix PhaseAdvance::TransferMapBetween(int n1, int n2)
 	tm.SetDelta(delta);
 	tm.ScaleBendPathLength(bendscale);
 
-	co.FindClosedOrbit(p2);
+	co.FindClosedOrbit(p2, n1);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: ClosedOrbit done" << endl;
 	tm.FindTM(M, p2, n1, n2);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: TransferMatrix done" << endl;
-- 
2.43.0


From f4f58b5dc8fc1c5e4e1d4e46b43bd7b30208deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 125/224] fix: betatron tunes were interpolated from the wrong
 bins of the spectrum

The spectrum is kept without its first bin but was indexed with the number
of the bin, so that the peak was taken for its right hand neighbour, and the
bin next to it was read from beyond the end for a tune near to one.
---
 Merlin++/BetatronTunes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index dfa7817..72c5dfb 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -118,6 +118,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 	FFT(data);
 	double peak_height = 0.0;
 	int peak_position = 0;
+	spectrum.push_back(sqrt(data[0] * data[0] + data[1] * data[1]));
 
 	// skip artifacts in first 2 bins
 	for(int i = 2; i < 2 * nvals; i += 2)
@@ -133,7 +134,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 
 	double norm = sqrt(double(nvals));
 	double centr_peak = spectrum[peak_position] / norm;
-	double right_peak = spectrum[peak_position + 1] / norm;
+	double right_peak = spectrum[(peak_position + 1) % nvals] / norm;
 
 	double peak_correction = nvals * asin(amp(centr_peak, right_peak, cos(twoPi / nvals))
 		* sin(twoPi / double(nvals))) / twoPi;
-- 
2.43.0


From f0fdfddab961093950c673a1e0fc8c925f49dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 126/224] fix: lattice files with an RBEND needed a K0L column

---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..a08d2e9 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -200,7 +200,7 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
 		MADinputrow.Set_s("KEYWORD", "COLLIMATOR");
-	if(keyword == "RBEND" && MADinputrow.Get_d("K0L"))
+	if(keyword == "RBEND" && MADinputrow.get_dt()->HasCol("K0L") && MADinputrow.Get_d("K0L"))
 		MADinputrow.Set_s("KEYWORD", "SBEND");
 	if(single_cell_rf && MADinputrow.Get_s("KEYWORD") == "RFCAVITY")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY_SingleCell");
-- 
2.43.0


From 80b409590b5e1d05eb91120d1e44e8ca5703516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 127/224] fix: TreatTypeAsDrift had no effect for types that
 stand for another one

---
 Merlin++/MADInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index a08d2e9..3f7c8b7 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -195,7 +195,10 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 {
 	string keyword = MADinputrow.Get_s("KEYWORD");
 	if(driftTypes.find(keyword) != driftTypes.end())
+	{
 		MADinputrow.Set_s("KEYWORD", "DRIFT");
+		return;
+	}
 	if(keyword == "LCAV")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
-- 
2.43.0


From 2ee5ef4e0c0d43dbbf53d2d26d0e06a4f075775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 128/224] fix: bends of zero angle in a lattice file tracked
 particles to NaN

---
 Merlin++/MADInterface.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 3f7c8b7..a6fbc7f 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -363,6 +363,13 @@ vector<AcceleratorComponent*> DriftComponent::GetInstance(DataTableRow& MADinput
 		return {};
 }
 
+// a bend that does not bend has no matched momentum, but acts as a drift or by its gradient
+static vector<AcceleratorComponent*> OffBend(DataTableRow& MADinputrow, double brho)
+{
+	return MADinputrow.Get_d("K1L") != 0 ? QuadrupoleComponent::GetInstance(MADinputrow, brho) :
+		   DriftComponent::GetInstance(MADinputrow, brho);
+}
+
 vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinputrow, double brho)
 {
 	const string& name = MADinputrow.Get_s("NAME");
@@ -370,6 +377,10 @@ vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinput
 	double angle = MADinputrow.Get_d("ANGLE");
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
+	if(angle == 0)
+	{
+		return OffBend(MADinputrow, brho);
+	}
 	double h = angle / length;
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
@@ -406,6 +417,10 @@ vector<AcceleratorComponent*> SBendComponent::GetInstance(DataTableRow& MADinput
 	}
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
+	if(angle == 0)
+	{
+		return OffBend(MADinputrow, brho);
+	}
 	double h = angle / length;
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
-- 
2.43.0


From b47fe5e0d80c8901834081285920cd88e6a59427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 129/224] fix: wire scanners in a lattice file had no length

Their length was given as the angle of the u plane.
---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index a6fbc7f..9a5e346 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -644,7 +644,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From fa6e93be83172c8aaebca3b2b5a8d280070ef83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 130/224] fix: constructing a model after a failed attempt used
 freed memory

---
 Merlin++/MADInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 9a5e346..0bd0c6a 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -108,6 +108,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
-- 
2.43.0


From 0584d4485a15512ed54994b7dfff237177df5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 131/224] fix: AppendModel dropped the model after each file

GetModel() then used a null pointer.
---
 Merlin++/MADInterface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 0bd0c6a..3821f77 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -185,9 +185,14 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	}
 
+	delete factory;
+	if(appendFlag)
+	{
+		return nullptr; // see GetModel()
+	}
+
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
-	delete factory;
 	modelconstr = nullptr;
 	return theModel;
 }
@@ -334,6 +339,7 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	appendFlag = false;
 	return theModel;
 }
 
-- 
2.43.0


From a97878cee3604457e62233633261cba456a68270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 132/224] fix: interpolation of points given as arrays had no
 points

---
 Merlin++/Interpolation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..d9f925f 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,8 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
 { // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From d841af0d28f638ace23f5dbf55054119cc69d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 133/224] fix: interpolation of higher order missed its end
 points and jumped at the others

---
 Merlin++/Interpolation.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index d9f925f..e08ed20 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -184,15 +184,12 @@ double ArbSpacedData::ValueAt(double x, double* err)
 			lastseenat += 1;
 		while(x < itsData[lastseenat].x)
 			lastseenat -= 1;
-		int lo = max(0, lastseenat - itsOrder);
+		// the two most central polynomials through both ends of the segment (only one next to the ends of the range)
+		int seg = min(lastseenat, n - 2);
 		int Qsize = Q.size();
-		int hi = min(lastseenat, Qsize - 1);
-		int iwant = max(0, lastseenat - (itsOrder + 1) / 2 - 1);
-		iwant = min(iwant, Qsize - 2);
-		// cout<<" lastseen lo hi iwant "<<lastseenat<<" "<<lo<<" "<<hi<<" "<<iwant<<endl;
-		//for(int i=lo;i<=hi;i++) cout<<i<<" "<<evaluatepoly(x,Q[i])<<endl;
-		double v1 = evaluatepoly(x, Q[iwant]);
-		double v2 = evaluatepoly(x, Q[iwant + 1]);
+		int iwant = seg - (itsOrder + 1) / 2;
+		double v1 = evaluatepoly(x, Q[min(max(0, iwant), Qsize - 1)]);
+		double v2 = evaluatepoly(x, Q[min(max(0, iwant + 1), Qsize - 1)]);
 		//cout<<" is "<<v1 <<" "<<v2<<endl;
 		if(err)
 			*err = abs(v1 - v2);  // give an error estimate iff one is asked for
-- 
2.43.0


From 34e672bf1444ea220f048feacdf6bc157e871eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 134/224] fix: interpolation at the last of equally spaced
 points read past the end

---
 Merlin++/Interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index e08ed20..ca61496 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -232,7 +232,7 @@ double EqualSpacedData::ValueAt(double x, double* err)
 	}
 	else
 	{
-		n = (x - xmin) / dx;
+		n = min(size_t((x - xmin) / dx), yvals.size() - 2);
 	}
 
 	double m = (yvals[n + 1] - yvals[n]) / dx;
-- 
2.43.0


From 77a9ed495fa3c6daf9e9518156926ed0a6ec8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 135/224] fix: histograms counted very large values in the
 first bin

---
 Merlin++/Histogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Histogram.cpp b/Merlin++/Histogram.cpp
index 814748b..4acf5ab 100644
--- a/Merlin++/Histogram.cpp
+++ b/Merlin++/Histogram.cpp
@@ -23,10 +23,10 @@ size_t Hist(const vector<double>& data, double x1, double x2, double dx, vector<
 		}
 		else
 		{
-			size_t i = (data[n] - x1) / dx;
+			double i = (data[n] - x1) / dx;
 			if(i < nbins)
 			{
-				hist[i] += 1.0;
+				hist[size_t(i)] += 1.0;
 			}
 			else
 			{
-- 
2.43.0


From 77fc0e81fd2fa0d0971439934f881da664b453c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:34 +0000
Subject: [PATCH 136/224] fix: copies of a material had no interaction length

---
 Merlin++/MaterialData.cpp       |  1 +
 Merlin++/MaterialProperties.cpp | 20 ++++++++++++++------
 Merlin++/MaterialProperties.h   |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index a8b2ebf..3548c92 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -58,6 +58,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
+	property["AC150K"]->Update();
 
 	MakeMixture("IT180", "W Ni Cu", 0.95, 0.35, 0.15, 18.06 * gram / cc);
 
diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..4e4b072 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -34,6 +34,7 @@ MaterialProperties::MaterialProperties(double p1, double p2, double p3, double p
 	X0 = p6;
 	density = p7;
 	Z = p8;
+	sigma_E = sigma_D = 0;
 	extra = new map<string, double>; // will be deleted by destructor
 	Update();
 }
@@ -53,6 +54,9 @@ MaterialProperties* MaterialProperties::EnergyScale(double E)
 
 MaterialProperties::MaterialProperties(const MaterialProperties& a)
 { //copy constructor
+	lambda = a.lambda;
+	sigma_E = a.sigma_E;
+	sigma_D = a.sigma_D;
 	density = a.density;
 	A = a.A;
 	sigma_T = a.sigma_T;
@@ -61,13 +65,16 @@ MaterialProperties::MaterialProperties(const MaterialProperties& a)
 	dEdx = a.dEdx;
 	X0 = a.X0;
 	Z = a.Z;
-	extra = new  map<string, double>(*a.extra); // deep copy. Deleted by dtor
+	extra = a.extra ? new map<string, double>(*a.extra) : nullptr; // deep copy. Deleted by dtor
 }
 
 MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 { // copy assignment
 	if(this != &a)
 	{ // beware of self-assignment
+		lambda = a.lambda;
+		sigma_E = a.sigma_E;
+		sigma_D = a.sigma_D;
 		density = a.density;
 		A = a.A;
 		sigma_T = a.sigma_T;
@@ -76,7 +83,8 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		dEdx = a.dEdx;
 		X0 = a.X0;
 		Z = a.Z;
-		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		delete extra;
+		extra = a.extra ? new map<string, double>(*a.extra) : nullptr;   //deep copy. deleted by dtor
 	}
 	return *this;
 }
@@ -111,6 +119,8 @@ void MaterialProperties::SetExtra(string props, ...)
 	va_start(arguments, props);
 	istringstream s(props);
 	string prop;
+	if(!extra)
+		extra = new map<string, double>;
 	while(s >> prop)
 	{
 		(*extra)[prop] = va_arg(arguments, double);
@@ -120,14 +130,12 @@ void MaterialProperties::SetExtra(string props, ...)
 
 double MaterialProperties::GetExtra(string prop)
 {
-	return (*extra)[prop];
+	return HaveExtra(prop) ? (*extra)[prop] : 0;
 }
 
 bool MaterialProperties::HaveExtra(string prop)
 {
-	map<string, double>::iterator it;
-	it = extra->find(prop);
-	return it != extra->end();
+	return extra && extra->find(prop) != extra->end();
 }
 
 MaterialProperties::~MaterialProperties()
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 3a7ddbc..07d19cb 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -55,7 +55,7 @@ public:
 	}
 	MaterialProperties()
 	{
-		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_T = Z = X0 = 0;
+		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_E = sigma_D = sigma_T = Z = X0 = 0;
 		extra = nullptr;
 	}
 	// keep child class happy
-- 
2.43.0


From 9b0820eb9d72e35d97818ad05b85094a2ac63cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 137/224] fix: SixTrack cross sections were given to the wrong
 materials

---
 Merlin++/MaterialData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 3548c92..4bcf004 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -69,7 +69,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 
 void StandardMaterialData::UseSixTrackValues()
 {
-	string names3[] = {"Be", "C", "Al", "Fe", "Cu", "W", "Pb"};
+	string names3[] = {"Be", "C", "Cu", "W", "Pb"};
 	double sixtracktotnu[] = {0.268, .331, 1.232, 2.767, 2.960};
 	for(int i = 0; i < int(sizeof(names3) / sizeof(string)); i++)
 		property[names3[i]]->sigma_T = sixtracktotnu[i];
@@ -88,6 +88,9 @@ void StandardMaterialData::UseSixTrackValues()
 	double sixtrackdedx[] = {0.68, 0.81, 2.69, 5.79, 0.68};
 	for(int i = 0; i < int(sizeof(names8) / sizeof(string)); i++)
 		property[names8[i]]->dEdx = sixtrackdedx[i];
+
+	for(map<string, MaterialProperties*>::iterator it = property.begin(); it != property.end(); it++)
+		it->second->Update();
 }
 
 void MaterialData::PrintTable()
-- 
2.43.0


From 9f43794589cead2f33967fbc5e3dd44cff8076e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 138/224] fix: no energy was lost to ionisation with the
 SixTrack scattering models

---
 Merlin++/MaterialData.cpp         | 3 +++
 Merlin++/ScatteringModel.cpp      | 5 ++++-
 Merlin++/ScatteringModelsMerlin.h | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 4bcf004..79bceb7 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -87,7 +87,10 @@ void StandardMaterialData::UseSixTrackValues()
 	string names8[] = {"C", "Al", "Cu", "W", "AC150K"};
 	double sixtrackdedx[] = {0.68, 0.81, 2.69, 5.79, 0.68};
 	for(int i = 0; i < int(sizeof(names8) / sizeof(string)); i++)
+	{
 		property[names8[i]]->dEdx = sixtrackdedx[i];
+		property[names8[i]]->SetExtra("SixtrackdEdx", sixtrackdedx[i]); // GeV per metre
+	}
 
 	for(map<string, MaterialProperties*>::iterator it = property.begin(); it != property.end(); it++)
 		it->second->Update();
diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 93b1321..f46b4eb 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -130,7 +130,10 @@ void ScatteringModel::EnergyLoss(PSvector& p, double x, MaterialProperties* mat,
 //Simple energy loss
 void ScatteringModel::EnergyLossSimple(PSvector& p, double x, MaterialProperties* mat, double E0)
 {
-	double dp = x * (mat->GetExtra("SixtrackdEdx"));
+	// materials without a SixTrack value lose energy as minimum ionising particles, dEdx is in MeV / (g cm^-2)
+	double loss = mat->HaveExtra("SixtrackdEdx") ? mat->GetExtra("SixtrackdEdx")
+		: mat->dEdx * (mat->density / (gram / cc)) * MeV / centimeter;
+	double dp = x * loss;
 	double E1 = E0 * (1 + p.dp());
 	p.dp() = ((E1 - dp) - E0) / E0;
 }
diff --git a/Merlin++/ScatteringModelsMerlin.h b/Merlin++/ScatteringModelsMerlin.h
index fcaef52..739025b 100644
--- a/Merlin++/ScatteringModelsMerlin.h
+++ b/Merlin++/ScatteringModelsMerlin.h
@@ -45,6 +45,7 @@ public:
 	ScatteringModelSixTrack() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -71,6 +72,7 @@ public:
 	ScatteringModelSixTrackElastic() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -84,6 +86,7 @@ public:
 	ScatteringModelSixTrackSD() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
-- 
2.43.0


From e54f5015ecc99cfbb388ee4d766426b47a1e0457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 139/224] fix: target nuclei of a mixture were chosen without
 regard to its proportions

---
 Merlin++/MaterialProperties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 4e4b072..bf070b9 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -184,10 +184,10 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		sum += proportions[i];
 		suma += proportions[i] * dict[names[i]]->A;
 		V_A.push_back(dict[names[i]]->A);
-		V_R.push_back(dict[names[i]]->sigma_R);
-		sumR += dict[names[i]]->sigma_R;
-		V_H.push_back(dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
-		sumH += dict[names[i]]->sigma_T;
+		V_R.push_back(dict[names[i]]->sigma_R * proportions[i]);
+		sumR += V_R[i];
+		V_H.push_back(dict[names[i]]->sigma_T * proportions[i]); // MUST CHECK. WANT NUCLEAR ELASTIC
+		sumH += V_H[i];
 	}
 	Z = A = sigma_T = sigma_I = sigma_R = dEdx = 0;
 	float RX0 = 0;
-- 
2.43.0


From 81cc8af1f000c3c62f445e9ecf962b1c3f50953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 140/224] fix: a material table written to a stream went to
 standard output

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 79bceb7..edad5a9 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -183,7 +183,7 @@ ostream& operator<<(ostream& s, MaterialData* M)
 {
 	s << "  Name    A    Z    sig T  sig I  sig R   dEdx  density Rad length\n";
 	for(map<string, MaterialProperties*>::iterator it = (M->property).begin(); it != M->property.end(); it++)
-		cout << setw(7) << it->first << " " << *(it->second) << endl;
+		s << setw(7) << it->first << " " << *(it->second) << endl;
 
 	return s;
 }
-- 
2.43.0


From 1c00c9ab3738343507660deec9a49959b5dd0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 141/224] fix: a new material at the address of an earlier one
 was taken for it

---
 Merlin++/ScatteringModel.cpp | 81 +++++++++++++-----------------------
 1 file changed, 30 insertions(+), 51 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index f46b4eb..47dff53 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -141,54 +141,41 @@ void ScatteringModel::EnergyLossSimple(PSvector& p, double x, MaterialProperties
 //Advanced energy loss
 void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties* mat, double E0)
 {
-	static MaterialProperties* oldmat = 0;
 	static const double xi1 = 2.0 * pi * pow(ElectronRadius, 2) * ElectronMass * pow(SpeedOfLight, 2);
-	static double C, C0, C1, I, edensity, xi0, plasmaEnergy;
-	if(mat != oldmat)      // new material so do the sums, otherwise they persist
+	const double I = mat->HaveExtra("MeanExcitationEnergy") ? mat->GetExtra("MeanExcitationEnergy") / eV
+		: 10 * mat->Z; // I is in eV
+	const double edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
+	const double xi0 = xi1 * edensity;
+	const double plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
+	const double C = 1 + 2 * log(I / plasmaEnergy);
+	double C0, C1;
+
+	if((I / eV) < 100)
 	{
-		cout << " New Material for energy loss full calculation";
-		if(mat->HaveExtra("MeanExcitationEnergy")) {
-                   I = mat->GetExtra("MeanExcitationEnergy") / eV;
-                   } else {
-                  I=10*mat->Z; // I is in eV
-}
-                cout<<" Excitation energy "<<I;
-		edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
-		xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
-		plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
-		cout << " plasma energy is " << plasmaEnergy << endl;
-		C = 1 + 2 * log(I / plasmaEnergy); 
-		C1 = 0;
-		C0 = 0;
-
-		if((I / eV) < 100)
+		if(C <= 3.681)
 		{
-			if(C <= 3.681)
-			{
-				C0 = 0.2;
-				C1 = 2.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.0;
-				C1 = 2.0;
-			}
+			C0 = 0.2;
+			C1 = 2.0;
 		}
-		else //I >= 100eV
+		else
 		{
-			if(C <= 5.215)
-			{
-				C0 = 0.2;
-				C1 = 3.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.5;
-				C1 = 3.0;
-			}
+			C0 = 0.326 * C - 1.0;
+			C1 = 2.0;
 		}
-		oldmat = mat;
-	}       // end of material setup stuff
+	}
+	else //I >= 100eV
+	{
+		if(C <= 5.215)
+		{
+			C0 = 0.2;
+			C1 = 3.0;
+		}
+		else
+		{
+			C0 = 0.326 * C - 1.5;
+			C1 = 3.0;
+		}
+	}
 
 	double E1 = E0 * (1 + p.dp());
 	double gamma = E1 / (ProtonMassMeV * MeV);
@@ -242,16 +229,8 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 //HR 29Aug13
 void ScatteringModel::Straggle(PSvector& p, double x, MaterialProperties* mat, double E1, double E2)
 {
-	static MaterialProperties* oldmat = 0;
-	static double X;     // radiation length in metres
 	static const double root12 = sqrt(12.0);
-	if(mat != oldmat)
-	{
-		X = centimeter * mat->X0 / (mat->density / (gram / cc));
-		cout << " New material in Straggle: radiation length "
-                   << setw(12) << setprecision(5) << X << " metres" << endl;
-		oldmat = mat;
-	}
+	const double X = centimeter * mat->X0 / (mat->density / (gram / cc)); // radiation length in metres
 	double scaledx = x / X;
 	double Eav = (E1 + E2) / 2.0;
 	double theta0 = 13.6 * MeV * sqrt(scaledx) * (1.0 + 0.038 * log(scaledx)) / Eav;
-- 
2.43.0


From 10018b4a2af6707858e087e782dc141d39ca93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 142/224] fix: ionisation loss was too large by the logarithm
 of a unit

---
 Merlin++/ScatteringModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 47dff53..b7c8971 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -150,7 +150,7 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 	const double C = 1 + 2 * log(I / plasmaEnergy);
 	double C0, C1;
 
-	if((I / eV) < 100)
+	if(I < 100)
 	{
 		if(C <= 3.681)
 		{
@@ -220,9 +220,9 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 	double L2 = -yL2 * yL2 * L2sum;
 
 	double F = G - S + 2 * (L1 + L2);
-	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * xi / pow(I / MeV, 2)) - (beta
+	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * (xi / MeV) / pow(I * eV / MeV, 2)) - (beta
 		* beta) - delta + F + 0.20);
-	double dp = ((xi * land) - deltaE); 
+	double dp = deltaE + xi * land;
 	p.dp() = ((E1 - dp) - E0) / E0;
 }
 
-- 
2.43.0


From 5f3dd95626bbc67a30efc74fe141cb143efd53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:01 +0000
Subject: [PATCH 143/224] fix: particles that had lost energy scattered as if
 they had lost it twice

---
 Merlin++/CollimateProtonProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 5a7fb44..610baa0 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -172,11 +172,11 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 			return ScatterOutcome::survived;
 		}
 
-		//Scattering - use E2
+		//Scattering - the energy of the particle is relative to E0
 
 		if(interacted)
 		{
-			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E2))
+			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E0))
 			{ // lost
 				p.ct() = z;
 
-- 
2.43.0


From 252c357ca8538a617c3ad4bb0f91b394e4696754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 144/224] fix: the list of configured apertures went to
 standard output instead of its stream

---
 Merlin++/ApertureConfiguration.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 09b2825..17fd709 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -327,17 +327,17 @@ void ApertureConfiguration::OutputConfiguredAperture(AcceleratorModel* Model, os
 	{
 		if(comp->GetAperture() != nullptr)
 		{
-			cout << number << "\t"
-				 << comp->GetIndex() << "\t"
-				 << comp->GetName() << "\t"
-				 << comp->GetQualifiedName() << "\t"
-				 << comp->GetEMField() << "\t"
-				 << comp->GetType() << "\t"
-				 << comp->GetComponentLatticePosition() << "\t"
-				 << comp->GetGeometry()->GetGeometryLength() << "\t"
-				 << comp->GetIndex() << "\t"
-				 << comp->GetMaterialProperties() << "\t"
-				 << endl;
+			os << number << "\t"
+			   << comp->GetIndex() << "\t"
+			   << comp->GetName() << "\t"
+			   << comp->GetQualifiedName() << "\t"
+			   << comp->GetEMField() << "\t"
+			   << comp->GetType() << "\t"
+			   << comp->GetComponentLatticePosition() << "\t"
+			   << comp->GetGeometry()->GetGeometryLength() << "\t"
+			   << comp->GetIndex() << "\t"
+			   << comp->GetMaterialProperties() << "\t"
+			   << endl;
 			++number;
 		}
 	}
-- 
2.43.0


From f9efadd0d560828bc592bdcee1ea4f9e3c76c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 145/224] fix: skew components of thick magnets acted with the
 wrong sign

---
 Merlin++/StdIntegrators.cpp        | 2 +-
 Merlin++/SymplecticIntegrators.cpp | 2 +-
 Merlin++/TransportIntegrators.cpp  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index e7dfe5b..f816467 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -309,7 +309,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		if(cK1.imag() != 0)
 		{
 			// Need to rotate the map
-			double a = arg(cK1) / 2;
+			double a = -arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
 			TransportMatrix::Srot(a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 2496ac5..1307f7e 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -992,7 +992,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		if(cK1.imag() != 0)
 		{
 			// Need to rotate the map
-			double a = arg(cK1) / 2;
+			double a = -arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
 			TransportMatrix::Srot(a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index ce8fa66..2850756 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -383,7 +383,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		else
 		{
 			K1 = abs(cK1);
-			phi = arg(cK1) / 2.0;
+			phi = -arg(cK1) / 2.0;
 		}
 
 		if(!fequal(phi, 0))
@@ -429,7 +429,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		else
 		{
 			K2 = abs(cK2);
-			phi = arg(cK2) / 3.0;
+			phi = -arg(cK2) / 3.0;
 		}
 
 		if(!fequal(phi, 0))
-- 
2.43.0


From 378b114605222ad2663fa9d39a64c99ca260bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 146/224] fix: skew gradients and the dipole kick with them
 turned the wrong way for macroparticles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..301d638 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -345,7 +345,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	else
 	{
 		K1 = abs(cK1);
-		phi = arg(cK1) / 2.0;
+		phi = -arg(cK1) / 2.0;
 	}
 
 	double tilt = /*Component().GetGeometry().GetTilt()*/ -phi;
@@ -356,7 +356,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= polar(1.0, phi);    // dipole kick in the rotated frame
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
-- 
2.43.0


From c8dc0c1fefb2be947c2d99e100b35e79219910a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:05 +0000
Subject: [PATCH 147/224] fix: thin quadrupoles acted on macroparticles with
 the wrong sign

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 301d638..49a0923 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
-- 
2.43.0


From ef28301a431586f77a3033346260b52ff2268558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:05 +0000
Subject: [PATCH 148/224] fix: rolled magnets and solenoids set time and
 momentum of macroparticles to zero

---
 Merlin++/TransportRMaps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index a24d54c..d91c348 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -29,6 +29,8 @@ void SROT(double cosphi, double sinphi, RMap& R)
 	R.AddTerm(2, 4, -sinphi);
 	R.AddTerm(3, 1, sinphi);
 	R.AddTerm(4, 2, sinphi);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void QR2(double length, double K1, int offset, RMap& R)
@@ -161,6 +163,9 @@ void SolR(double l, double ks, RMap& rs)
 
 	rs.AddTerm(2, 3) = -ks * s2 / 2;
 	rs.AddTerm(4, 1) = ks * s2 / 2;
+
+	rs.AddTerm(5, 5) = 1.0;
+	rs.AddTerm(6, 6) = 1.0;
 }
 
 // Class Utility TransportRMap
-- 
2.43.0


From fc81da67af82b1fa5c446d834d3c4dd03f2aba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:05 +0000
Subject: [PATCH 149/224] fix: cavities acted on macroparticles by a series
 which holds for small gain only

---
 Merlin++/TransportRMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d91c348..05333bd 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -16,7 +16,7 @@ namespace TransportRMap
 
 inline double LogOnePlusX(double x)
 {
-	return x * (1 - 0.5 * x);
+	return log1p(x);
 }
 
 void SROT(double cosphi, double sinphi, RMap& R)
-- 
2.43.0


From 5fea9d334c91414fe627d121f291aa4f870acf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:23 +0000
Subject: [PATCH 150/224] fix: tilted bends turned the wrong way for
 macroparticles, without their pole faces

---
 Merlin++/SMPStdIntegrators.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 49a0923..6088084 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -236,12 +236,6 @@ void SectorBendCI::TrackStep(double ds)
 	}
 
 	double h = (currentComponent->GetGeometry()).GetCurvature();
-	double tilt = (currentComponent->GetGeometry()).GetTilt();
-
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, tilt);
-	}
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -270,16 +264,17 @@ void SectorBendCI::TrackStep(double ds)
 		ApplyMap(M, *currentBunch);
 	}
 
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
-	}
-
 	return;
 }
 
 void SectorBendCI::TrackEntrance()
 {
+	// the tilt turns the bend with its pole faces
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, -tilt);
+	}
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -296,6 +291,11 @@ void SectorBendCI::TrackExit()
 		double h = (currentComponent->GetGeometry()).GetCurvature();
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, tilt);
+	}
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
-- 
2.43.0


From ec5087f2123e91039638e1dd8b986096c9f92cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:23 +0000
Subject: [PATCH 151/224] fix: monitors measured macroparticles again in every
 step behind their measurement point

---
 Merlin++/SMPStdIntegrators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 6088084..f0bdeff 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -405,8 +405,10 @@ void MonitorCI::TrackStep(double ds)
 	}
 	else
 	{
+		// measure once, in the step which reaches the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double tol = 1e-12 * len;
+		if(GetIntegratedLength() + ds > mpt - tol && (AtEntrance() || GetIntegratedLength() <= mpt - tol))
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(s1, *currentBunch);
-- 
2.43.0


From b163dfe57003194d963af3dbd4d967ff3218ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:23 +0000
Subject: [PATCH 152/224] fix: macroparticles ignored longitudinal
 displacements of elements

---
 Merlin++/SMPTransform3D.cpp | 6 ++++++
 Merlin++/SMPTransform3D.h   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPTransform3D.cpp b/Merlin++/SMPTransform3D.cpp
index d322404..4284f0b 100644
--- a/Merlin++/SMPTransform3D.cpp
+++ b/Merlin++/SMPTransform3D.cpp
@@ -81,6 +81,7 @@ SMPTransform3D::SMPTransform3D(const Transform3D& t) :
 	}
 	delta_x = t.X().x;
 	delta_y = t.X().y;
+	delta_z = t.X().z;
 }
 
 // Apply (approximate) transformation
@@ -89,6 +90,11 @@ SliceMacroParticle& SMPTransform3D::Apply(SliceMacroParticle& p) const
 	p.x() -= delta_x;
 	p.y() -= delta_y;
 
+	if(delta_z != 0)
+	{
+		ApplySimpleDrift(delta_z).Apply(p);
+	}
+
 	if(!bNoRot)
 	{
 		if(!nullRotation)
diff --git a/Merlin++/SMPTransform3D.h b/Merlin++/SMPTransform3D.h
index dea174a..c7c10f6 100644
--- a/Merlin++/SMPTransform3D.h
+++ b/Merlin++/SMPTransform3D.h
@@ -34,7 +34,7 @@ public:
 private:
 
 	R2Map R;
-	double delta_x, delta_y, theta_x, theta_y;
+	double delta_x, delta_y, delta_z, theta_x, theta_y;
 	bool bNoRot;
 	bool nullRotation;
 };
-- 
2.43.0


From 5a7f3bf3ea1b25c9fa2468d330db2c7f9788c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:13 +0000
Subject: [PATCH 153/224] fix: macroparticles ignored rolls of less than 1.4
 mrad

---
 Merlin++/RMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..839d32d 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -239,7 +239,7 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		return r11 == 1.0 && r22 == 1.0 && r12 == 0.0 && r21 == 0.0;
 	}
 
 	// matrix elements
-- 
2.43.0


From 2b312b5cb32d5eb120979712ee79d9d9894d0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 154/224] fix: bends whose gradient cancels their weak focusing
 had no dispersion

---
 Merlin++/TransportMatrix.cpp | 14 ++++++++++++--
 Merlin++/TransportRMaps.cpp  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 7ba3123..db6ee6e 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -109,9 +109,19 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	// dispesions terms (only included if matrix is 6D)
 	if(R.nrows() == 6)
 	{
-		if(h && Kx)
+		if(h)
 		{
-			if(Kx > 0)
+			const double u = Kx * length * length;
+			if(fabs(u) < 1.0e-6)
+			{
+				// the gradient cancels the weak focusing
+				R(0, 5) = h * length * length * (1 - u / 12) / 2;
+				R(1, 5) = h * length * (1 - u / 6);
+				R(4, 5) = -h * h * length * length * length * (1 - u / 20) / 6;
+				R(4, 0) = -h * length * (1 - u / 6);
+				R(4, 1) = -h * length * length * (1 - u / 12) / 2;
+			}
+			else if(Kx > 0)
 			{
 				double k = sqrt(Kx);
 				double phi = k * length;
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 05333bd..81138bb 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -85,9 +85,19 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx)
+	if(h)
 	{
-		if(Kx > 0)
+		const double u = Kx * length * length;
+		if(fabs(u) < 1.0e-6)
+		{
+			// the gradient cancels the weak focusing
+			R.AddTerm(1, 6) = h * length * length * (1 - u / 12) / 2;
+			R.AddTerm(2, 6) = h * length * (1 - u / 6);
+			R.AddTerm(5, 6) = -h * h * length * length * length * (1 - u / 20) / 6;
+			R.AddTerm(5, 1) = -h * length * (1 - u / 6);
+			R.AddTerm(5, 2) = -h * length * length * (1 - u / 12) / 2;
+		}
+		else if(Kx > 0)
 		{
 			double k = sqrt(Kx);
 			double phi = k * length;
-- 
2.43.0


From 4f0c926085cfd3e369eaccc6f966186035cae847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 155/224] fix: bends whose gradient cancels their weak focusing
 lost the time of particles

---
 Merlin++/SymplecticIntegrators.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 1307f7e..7bd8d21 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -275,12 +275,14 @@ public:
 			yc2 = cos(2 * wy * ds);
 		}
 
-		double x1, px1;
+		double x1, px1, ctx;
 
-		if((k1 + h * h) == 0)
+		// the gradient cancels the weak focusing
+		const bool parabolic = fabs(k1 + h * h) * ds * ds < 1e-9;
+		if(parabolic)
 		{
-			x1 = x0 + px0 * ds / (1.0 + dp) + dp * h * ds * ds / (1.0 + dp) / 2.0;
-			px1 = px0 * xc + dp * h * ds;
+			x1 = x0 + px0 * ds / dp1 + dp * h * ds * ds / dp1 / 2.0;
+			px1 = px0 + dp * h * ds;
 		}
 		else
 		{
@@ -304,10 +306,20 @@ public:
 		double c7 = -y0 * py0 / dp1;
 		double c8 = -y0 * y0 * k1 / dp1 / 2.0;
 
-		double ct1 = ct0
-			+ (2 * c0 + c3 + c5 + c6 - c8) * ds / 2.0
-			+ c1 * xs / wx + (c3 - c5) * xs2 / wx / 4.0
-			+ c2 * (1.0 - xc) + c4 * (1.0 - xc2) / 4.0
+		if(parabolic)
+		{
+			ctx = -h * ds * (x0 + px0 * ds / dp1 / 2.0 + dp * h * ds * ds / dp1 / 6.0)
+				- ds * (px0 * px0 + px0 * dp * h * ds + dp * dp * h * h * ds * ds / 3.0) / dp1 / dp1 / 2.0;
+		}
+		else
+		{
+			ctx = (2 * c0 + c3 + c5) * ds / 2.0
+				+ c1 * xs / wx + (c3 - c5) * xs2 / wx / 4.0
+				+ c2 * (1.0 - xc) + c4 * (1.0 - xc2) / 4.0;
+		}
+
+		double ct1 = ct0 + ctx
+			+ (c6 - c8) * ds / 2.0
 			+ (c6 + c8) * ys2 / wy / 4.0 - c7 * (1.0 - yc2) / 4.0;
 
 		x0 = x1;
-- 
2.43.0


From 4b6f953e58fb992b1fa8ac6c51506227be97a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 156/224] fix: wakefields of slices counted the first
 macroparticle twice

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..8527ad7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -252,7 +252,7 @@ void WakeFieldProcess::PrepSlices()
 	double zavg = (p->ct()) * (p->Q());
 	double qt = p->Q();
 
-	for(; p != currentBunch->end(); p++)
+	for(++p; p != currentBunch->end(); p++)
 	{
 		if(p->ct() >= z)
 		{
-- 
2.43.0


From 852856f59dc458c0d6a4f257de34af6b0702c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 157/224] fix: wakefields of slices were made from unsorted
 macroparticles behind bends

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 8527ad7..3640cbf 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -245,6 +245,7 @@ void WakeFieldProcess::PrepSlices()
 	tz.reserve(32);
 	tq.reserve(32);
 
+	currentBunch->SortByCT();
 	SMPBunch::iterator p = currentBunch->begin();
 	sb.push_back(p);
 
-- 
2.43.0


From 66188918e7f6703b98bb4337f5e60ebdcac2dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 158/224] fix: wakefields left the correlation of xp and y of
 macroparticles as it was

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 3640cbf..4675cdc 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -74,6 +74,7 @@ struct AWK
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
 		p(1, 1) *= Er2;
+		p(1, 2) *= Er;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
 		p(3, 3) *= Er2;
-- 
2.43.0


From 37861111a6e087179873fcc3435b9eccbc88aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 159/224] fix: wakefields of negative macroparticles
 accelerated them

---
 Merlin++/SMPWakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 4675cdc..6ace8b5 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -260,7 +260,7 @@ void WakeFieldProcess::PrepSlices()
 		{
 			sb.push_back(p);
 			tz.push_back(zavg / qt);
-			tq.push_back(qt);
+			tq.push_back(fabs(qt));
 			z = p->ct() + dz;
 			zavg = (p->ct()) * (p->Q());
 			qt = p->Q();
@@ -274,7 +274,7 @@ void WakeFieldProcess::PrepSlices()
 
 	sb.push_back(p); // end()
 	tz.push_back(zavg / qt);
-	tq.push_back(qt);
+	tq.push_back(fabs(qt));
 
 	sliceBoundaries.swap(sb);
 	slice_z.swap(tz);
-- 
2.43.0


From 0c221a1b199b4b948bcb25920b35dfa137d33e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 160/224] fix: longitudinal wakefields of collimators had the
 wrong sign in the skew modes

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index e62b2e9..ab608b6 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -217,7 +217,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 				wake_y *= a0;
 				double wzc = cos(currmode * theta) * (wake_cl[currmode][nslice] + g_cl * zz);
 				double wzs = sin(currmode * theta) * (wake_sl[currmode][nslice] + g_sl * zz);
-				wake_z = powd(r, currmode) * (wzc - wzs);
+				wake_z = powd(r, currmode) * (wzc + wzs);
 				wake_z *= a0;
 				double ddp = -wake_z / p0;
 				p->dp() += ddp;
-- 
2.43.0


From b6ba15b7e0f808b009e25c2c633a9881f971cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 161/224] fix: wakefields of collimators acted on negative
 particles with the wrong sign

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index ab608b6..394aef0 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -175,7 +175,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 	}
 
 	double wake_x, wake_y, wake_z;
-	double macrocharge = currentBunch->GetTotalCharge() / currentBunch->size();
+	double macrocharge = fabs(currentBunch->GetTotalCharge()) / currentBunch->size();
 	double a0 = macrocharge * ElectronCharge * Volt;
 	a0 /= 4 * pi * FreeSpacePermittivity;
 	double p0 = currentBunch->GetReferenceMomentum();
-- 
2.43.0


From 9f0222397e68c84026840c6f0b25adcec0126180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 162/224] fix: wakefields of collimators with more than 1000
 slices overran their tables

---
 Merlin++/CollimatorWakeProcess.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index 394aef0..2cd0539 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -61,12 +61,12 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 	wake_sl = new double*[modes + 1];
 	for(int i = 0; i <= nmodes; i++)
 	{
-		Cm[i] = new double[1000];
-		Sm[i] = new double[1000];
-		wake_ct[i] = new double[1000];
-		wake_st[i] = new double[1000];
-		wake_cl[i] = new double[1000];
-		wake_sl[i] = new double[1000];
+		Cm[i] = new double[nb + 1]();
+		Sm[i] = new double[nb + 1]();
+		wake_ct[i] = new double[nb + 1]();
+		wake_st[i] = new double[nb + 1]();
+		wake_cl[i] = new double[nb + 1]();
+		wake_sl[i] = new double[nb + 1]();
 	}
 }
 
@@ -74,7 +74,7 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 
 CollimatorWakeProcess::~CollimatorWakeProcess()
 {
-	for(int i = 0; i < nmodes; i++)
+	for(int i = 0; i <= nmodes; i++)
 	{
 		delete[] Cm[i];
 		delete[] Sm[i];
-- 
2.43.0


From 8eecf9415c84f7a307aba07820ab492a44a59c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 163/224] fix: wakefields were left out where the steps to the
 impulse did not add up to the last digit

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 Merlin++/WakeFieldProcess.cpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 6ace8b5..4d86bef 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -143,7 +143,7 @@ void WakeFieldProcess::SetCurrentComponent(AcceleratorComponent& component)
 void WakeFieldProcess::DoProcess(double ds)
 {
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(current_s > impulse_s - 1e-9)
 	{
 		ApplyWakefield(clen);
 		active = false;
diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..bbdcc6d 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -208,7 +208,7 @@ void WakeFieldProcess::DoProcess(double ds)
 	//Normal Code
 #ifndef ENABLE_MPI
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(current_s > impulse_s - 1e-9)
 	{
 		currentBunch->SortByCT();
 		Init();
@@ -219,7 +219,7 @@ void WakeFieldProcess::DoProcess(double ds)
 
 #ifdef ENABLE_MPI
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(current_s > impulse_s - 1e-9)
 	{
 		currentBunch->gather();
 		if(currentBunch->MPI_rank == 0)
-- 
2.43.0


From a349eb3891f3f307595134b475b83eb1f5225d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 164/224] fix: smoothing filters for wakefields overflowed for
 wide windows

---
 Merlin++/WakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index bbdcc6d..67b2a30 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -432,9 +432,9 @@ void WakeFieldProcess::InitialiseProcess(Bunch& bunch)
 // Adapted from Numerical Recipes in C
 // This routine need only be executed once,
 // when the WakeFieldProcess is initialized.
-int powi(int i, int j)
+double powi(int i, int j)
 {
-	int p = 1;
+	double p = 1;
 	for(int m = 0; m < j; m++)
 	{
 		p *= i;
-- 
2.43.0


From 6abe5f629ff8f2b369f527a4cf92aebd7274f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 165/224] fix: the RF kick of couplers died out across the last
 slice of bunches

---
 Merlin++/CouplerWakeFieldProcess.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Merlin++/CouplerWakeFieldProcess.cpp b/Merlin++/CouplerWakeFieldProcess.cpp
index 7e012ca..cfd58a2 100644
--- a/Merlin++/CouplerWakeFieldProcess.cpp
+++ b/Merlin++/CouplerWakeFieldProcess.cpp
@@ -138,17 +138,18 @@ void CouplerWakeFieldProcess::CalculateWakeT()
 			// coupler wake kick (const, independent of z) at x[m],y[m]
 			// cxy [V/m]
 			cxy  = currentWake->Wxy(xyc[i].x, xyc[i].y);
+		}
 
-			// RF kick independent of bunch charge
-			// x[m],y[m],V[m]=Vacc
-			// phase[rad]=phi+k*dz, dz[m]
-			// rfxy [1/cavity], V [GeV]
-			Vector2D rfxy
-				= currentWake->CouplerRFKick(xyc[i].x, xyc[i].y, fabs(phi) + k * (zmin + (i + 0.5) * dz));
+		// RF kick independent of bunch charge
+		// x[m],y[m],V[m]=Vacc
+		// phase[rad]=phi+k*dz, dz[m]
+		// rfxy [1/cavity], V [GeV]
+		Vector2D rfxy
+			= currentWake->CouplerRFKick(xyc[i].x, xyc[i].y, fabs(phi) + k * (zmin + (i + 0.5) * dz));
 //		  = currentWake->CouplerRFKick(xyc[i].x,xyc[i].y,fabs(phi));
-			wake_x[i] += rfxy.x * V / clen / a0;  // V[GeV] -> V[V]
-			wake_y[i] += rfxy.y * V / clen / a0;
-		}
+		wake_x[i] += rfxy.x * V / clen / a0;  // V[GeV] -> V[V]
+		wake_y[i] += rfxy.y * V / clen / a0;
+
 		for(size_t j = i; j < bunchSlices.size() - 1; j++)
 		{
 
-- 
2.43.0


From 9d7cb6d29b2d7c95d87c80e557374641584b07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 166/224] fix: wakefield processes could not be made, as the
 pivots of their filter had no room

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 9c420f6..1487883 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -235,6 +235,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 		throw DimensionError();
 	}
 	const int n = M.ncols();
+	pivot.resize(n);
 
 	std::vector<T> scale(n);
 
-- 
2.43.0


From dd98e3904e1d1ff51ecb19874aa923025fb056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:30 +0000
Subject: [PATCH 167/224] fix: wakefields truncated bunches twice

---
 Merlin++/WakeFieldProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 67b2a30..3251071 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -311,10 +311,11 @@ void WakeFieldProcess::Init()
 {
 	double Qt = currentBunch->GetTotalCharge();
 
+	size_t nloss = CalculateQdist();
+
 	//keep track of bunch length to be aware of modifications
 	oldBunchLen = currentBunch->size();
 
-	size_t nloss = CalculateQdist();
 	if(nloss != 0)
 	{
 		// Even though we have truncated particles, we still keep the
-- 
2.43.0


From 9fe11c93baac663c7202c9144bbe6034769916dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:30 +0000
Subject: [PATCH 168/224] fix: coherent synchrotron radiation was computed at
 wrapped round distances

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 3251071..93fde80 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -354,7 +354,7 @@ void WakeFieldProcess::CalculateWakeL()
 		{
 			for(size_t j = 1; j < i; j++)
 			{
-				wake_z[i] += Qdp[j] * (currentWake->Wlong((j - i + 0.5) * dz)) / dz;
+				wake_z[i] += Qdp[j] * (currentWake->Wlong((double(j) - double(i) + 0.5) * dz)) / dz;
 			}
 			wake_z[i] *= a0;
 		}
-- 
2.43.0


From f815fe92db6704575c12e6a3119203e623f7de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:48 +0000
Subject: [PATCH 169/224] fix: feedback with a pulse delay zeroed its actuators
 before the first correction

---
 Merlin++/LinearFBSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..dca2993 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -164,9 +164,10 @@ void LinearFBSystem::SetPulseDelay(int n)
 
 	actuatorQueue = new std::queue<RealVector>();
 
-	RealVector zeros(0.0, actuators.Size());
+	RealVector current(actuators.Size());
+	actuators.ReadAll(current);
 	while((--n) > 0)
 	{
-		actuatorQueue->push(zeros);
+		actuatorQueue->push(current);
 	}
 }
-- 
2.43.0


From 211eba5d36277e93a66b1ad0383f29316ba80f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 170/224] fix: spin tracking with more than one step in a
 component never ended

---
 Merlin++/SpinParticleProcess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..082b39f 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -388,7 +388,10 @@ void SpinParticleProcess::DoProcess(double ds)
 
 	}
 
-	intS += ds;
+	if(fequal(intS += ds, (nk1 + 1) * dL))
+	{
+		nk1++;
+	}
 
 }
 
-- 
2.43.0


From 105c06e6fbdcf4f47ed86fd14948530be6f81a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 171/224] fix: spins of negative particles precessed the wrong
 way

---
 Merlin++/SpinParticleProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 082b39f..2aa5ed8 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -288,6 +288,7 @@ void SpinParticleProcess::DoProcess(double ds)
 {
 	double P0 = currentBunch->GetReferenceMomentum();
 	double brho = P0 / eV / SpeedOfLight;
+	const double q = currentBunch->GetChargeSign();
 	bool isBend = sbend ? true : false;
 	bool isSolenoid = solnd ? true : false;
 
@@ -304,7 +305,7 @@ void SpinParticleProcess::DoProcess(double ds)
 	SpinVectorArray::iterator spin = spinbunch->beginSpinArray();
 	for(PSvectorArray::iterator p = spinbunch->begin(); p != spinbunch->end(); p++, spin++)
 	{
-		double norm = SpeedOfLight / brho / (1.0 + p->dp());
+		double norm = q * SpeedOfLight / brho / (1.0 + p->dp());
 		double gamma = P0 * (1.0 + p->dp()) / (ElectronMassMeV * MeV);
 
 		if(intS == 0)
-- 
2.43.0


From e2dc5751d1fbc0b415d982e52e9406feb12b29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 172/224] fix: sorting a bunch gave its spins to other
 particles

---
 Merlin++/SpinParticleProcess.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 2aa5ed8..8882576 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice: (c) 2004 Daniel A. Bates (LBNL) -- All Rights Reserved --
  */
 
+#include <algorithm>
+#include <numeric>
 #include "SpinParticleProcess.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
@@ -85,11 +87,24 @@ void SpinParticleBunch::push_back(const Particle& p)
 
 void SpinParticleBunch::SortByCT()
 {
-	// Not yet fully implemented!
-	// At present, only the list of phase space vectors is sorted;
-	// the correlation with the list of spin vectors is lost.
-
-	ParticleBunch::SortByCT();
+	std::vector<size_t> order(pArray.size());
+	std::iota(order.begin(), order.end(), 0);
+	std::stable_sort(order.begin(), order.end(), [this](size_t a, size_t b)
+	{
+		return pArray[a].ct() < pArray[b].ct();
+	});
+
+	PSvectorArray particles;
+	SpinVectorArray spins;
+	particles.reserve(order.size());
+	spins.reserve(order.size());
+	for(size_t n : order)
+	{
+		particles.push_back(pArray[n]);
+		spins.push_back(spinArray[n]);
+	}
+	pArray.swap(particles);
+	spinArray.swap(spins);
 }
 
 void SpinParticleBunch::Output(std::ostream& os) const
-- 
2.43.0


From 29f3abe2cb1dc521a92ed4b47aabd7624424c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 173/224] fix: spins stayed when their particles were
 collimated or culled

---
 Merlin++/CollimateParticleProcess.cpp |  3 +++
 Merlin++/NANCheckProcess.cpp          |  8 ++++++++
 Merlin++/ParticleBunch.h              | 11 +++++++++++
 Merlin++/SpinParticleProcess.cpp      | 19 +++++++++++++++++++
 Merlin++/SpinParticleProcess.h        |  5 +++++
 5 files changed, 46 insertions(+)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 59bada7..3f80ec9 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -244,6 +244,7 @@ void CollimateParticleProcess::DoCollimation()
 	//The array of lost particles
 	PSvectorArray lost;
 	list<size_t> lost_i;
+	vector<size_t> removed;
 
 	list<size_t>::iterator ip;
 	if(pindex != nullptr)
@@ -299,6 +300,7 @@ void CollimateParticleProcess::DoCollimation()
 				}
 
 				LostParticlePositions.push_back(particle_number);
+				removed.push_back(particle_number);
 			}
 			else
 			{
@@ -333,6 +335,7 @@ void CollimateParticleProcess::DoCollimation()
 
 	currentBunch->clear();
 	currentBunch->swap(*NewBunch);
+	currentBunch->ParticlesRemoved(removed);
 	delete NewBunch;
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..89b6286 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -96,15 +96,23 @@ void NANCheckProcess::DoCull()
 	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
 		/ currentBunch->size());
 	NewBunch->reserve(currentBunch->size());
+	std::vector<size_t> removed;
+	size_t n = 0;
 	for(auto &p : *currentBunch)
 	{
 		if(is_good(p))
 		{
 			NewBunch->AddParticle(p);
 		}
+		else
+		{
+			removed.push_back(n);
+		}
+		n++;
 	}
 	currentBunch->clear();
 	currentBunch->swap(*NewBunch);
+	currentBunch->ParticlesRemoved(removed);
 	delete NewBunch;
 }
 
diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..2d23ca3 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -145,6 +145,13 @@ public:
 	 */
 	void SetMacroParticleCharge(double q);
 
+	/**
+	 *	Called after the particles with the given indices (in ascending
+	 *	order) have been taken out other than by erase(), for bunches which
+	 *	hold more than the phase space vectors of their particles.
+	 */
+	virtual void ParticlesRemoved(const std::vector<size_t>& removed);
+
 	ParticleBunch::iterator begin();
 	ParticleBunch::iterator end();
 	ParticleBunch::const_iterator begin() const;
@@ -323,6 +330,10 @@ inline void ParticleBunch::swap(ParticleBunch newbunch)
 	//cout << "After " << size() << "\t" << newbunch.size() << endl;
 }
 
+inline void ParticleBunch::ParticlesRemoved(const std::vector<size_t>&)
+{
+}
+
 inline size_t ParticleBunch::AddParticle(const Particle& p)
 {
 	pArray.push_back(p);
diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 8882576..568e361 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -164,6 +164,25 @@ ParticleBunch::iterator SpinParticleBunch::erase(ParticleBunch::iterator p)
  * Apply transformation to the particle coordinates and apply
  * the required spin vector rotations
  */
+void SpinParticleBunch::ParticlesRemoved(const std::vector<size_t>& removed)
+{
+	SpinVectorArray spins;
+	spins.reserve(spinArray.size());
+	std::vector<size_t>::const_iterator r = removed.begin();
+	for(size_t n = 0; n < spinArray.size(); n++)
+	{
+		if(r != removed.end() && *r == n)
+		{
+			r++;
+		}
+		else
+		{
+			spins.push_back(spinArray[n]);
+		}
+	}
+	spinArray.swap(spins);
+}
+
 bool SpinParticleBunch::ApplyTransformation(const Transform3D& t)
 {
 	// First apply the transformation to the particle coordinates
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index a981761..d59efee 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -41,6 +41,11 @@ public:
 	size_t AddParticle(const Particle& p, const SpinVector& spin);
 	virtual void push_back(const Particle& p);
 	virtual void SortByCT();
+
+	/**
+	 *	Removes the spins of particles which have been removed.
+	 */
+	virtual void ParticlesRemoved(const std::vector<size_t>& removed);
 	SpinVectorArray::iterator beginSpinArray();
 	SpinVectorArray::iterator endSpinArray();
 	virtual void Output(std::ostream& os) const;
-- 
2.43.0


From 4fe96486a2323564c69bd270998bf36497eacc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 174/224] fix: spins stayed when bunches were cleared

---
 Merlin++/SpinParticleProcess.cpp | 6 ++++++
 Merlin++/SpinParticleProcess.h   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 568e361..1aa9607 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -85,6 +85,12 @@ void SpinParticleBunch::push_back(const Particle& p)
 	AddParticle(p);
 }
 
+void SpinParticleBunch::clear()
+{
+	spinArray.clear();
+	ParticleBunch::clear();
+}
+
 void SpinParticleBunch::SortByCT()
 {
 	std::vector<size_t> order(pArray.size());
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index d59efee..740aac7 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -40,6 +40,11 @@ public:
 	virtual size_t AddParticle(const Particle& p);
 	size_t AddParticle(const Particle& p, const SpinVector& spin);
 	virtual void push_back(const Particle& p);
+
+	/**
+	 *	Removes all particles and their spins.
+	 */
+	void clear();
 	virtual void SortByCT();
 
 	/**
-- 
2.43.0


From 074100897bd02404220cd45b98f23736e0c3a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:06 +0000
Subject: [PATCH 175/224] fix: fringe fields of solenoids hardly turned spins

---
 Merlin++/SpinParticleProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 1aa9607..239548a 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -373,8 +373,8 @@ void SpinParticleProcess::DoProcess(double ds)
 			if(isSolenoid)
 			{
 				double bz = solnd->GetBz();
-				b.x = -bz*p->x();
-				b.y = -bz*p->y();
+				b.x = -0.5 * bz * p->x() * norm;
+				b.y = -0.5 * bz * p->y() * norm;
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
@@ -417,8 +417,8 @@ void SpinParticleProcess::DoProcess(double ds)
 			if(isSolenoid)
 			{
 				double bz = solnd->GetBz();
-				b.x = bz * p->x();
-				b.y = bz * p->y();
+				b.x = 0.5 * bz * p->x() * norm;
+				b.y = 0.5 * bz * p->y() * norm;
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
-- 
2.43.0


From dbb1e5abb272b6cffb12cb6b76564ceb5ea88e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:06 +0000
Subject: [PATCH 176/224] fix: fringe fields of bends turned spins by half, and
 pole faces the wrong way

---
 Merlin++/SpinParticleProcess.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 239548a..2aa9fc1 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -356,10 +356,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().entrance;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = cos(theta) * intbz;
+				b.z = intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
@@ -402,10 +402,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().exit;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = -cos(theta) * intbz;
+				b.z = -intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
-- 
2.43.0


From ea27cbc4a98272470365bf019eb06a85e93d8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:06 +0000
Subject: [PATCH 177/224] fix: magnets of no length left spins as they were

---
 Merlin++/SpinParticleProcess.cpp | 6 +++++-
 Merlin++/SpinParticleProcess.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 2aa9fc1..ce28d01 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -10,6 +10,7 @@
 #include "SpinParticleProcess.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
+#include "RectMultipole.h"
 #include "Space3D.h"
 #include "PhysicalConstants.h"
 #include "utils.h"
@@ -244,6 +245,7 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 
 	//Determine if the component is a Solenoid
 	solnd = dynamic_cast<Solenoid*>(&component);
+	rectm = dynamic_cast<RectMultipole*>(&component);
 
 	//Determine if the present bunch has any spin information
 	SpinParticleBunch* spinbunch = dynamic_cast<SpinParticleBunch*>(currentBunch);
@@ -331,6 +333,7 @@ void SpinParticleProcess::DoProcess(double ds)
 	const double q = currentBunch->GetChargeSign();
 	bool isBend = sbend ? true : false;
 	bool isSolenoid = solnd ? true : false;
+	bool isThin = rectm && clength == 0;
 
 	if(pspin != 0)
 	{
@@ -391,7 +394,8 @@ void SpinParticleProcess::DoProcess(double ds)
 			b.x *= norm;
 			b.y *= norm;
 			b.z *= norm;
-			rot.RotateSpin(b, ds, *spin, gamma);
+			// the field of a multipole of no length is its integrated strength
+			rot.RotateSpin(b, isThin ? 1.0 : ds, *spin, gamma);
 		}
 
 		if(fequal(intS + ds, clength))
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index 740aac7..c2beded 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -100,6 +100,7 @@ private:
 	double intS;
 	const SectorBend* sbend;
 	const Solenoid* solnd;
+	const RectMultipole* rectm;
 	const EMField* currentField;
 	double clength;
 	double pspin;
-- 
2.43.0


From 0770db5010d986232da5788d78c4811b84b666c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:06 +0000
Subject: [PATCH 178/224] fix: spins precessed in tilted bends as in upright
 ones

---
 Merlin++/SpinParticleProcess.cpp | 43 ++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index ce28d01..d358093 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -321,6 +321,15 @@ public:
 
 };
 
+// The spin in coordinates rotated about the z axis
+static void TiltSpin(SpinVector& spin, double tilt)
+{
+	double x = spin.x();
+	double y = spin.y();
+	spin.x() = x * cos(tilt) + y * sin(tilt);
+	spin.y() = y * cos(tilt) - x * sin(tilt);
+}
+
 void SpinParticleProcess::SetSpinMomentum(double p_spin)
 {
 	pspin = p_spin;
@@ -340,6 +349,8 @@ void SpinParticleProcess::DoProcess(double ds)
 		P0 = pspin;
 	}
 
+	double tilt = sbend ? sbend->GetGeometry().GetTilt() : 0;
+
 	RotateSpinVector rot(isBend);
 
 	Vector3D b;
@@ -351,6 +362,20 @@ void SpinParticleProcess::DoProcess(double ds)
 		double norm = q * SpeedOfLight / brho / (1.0 + p->dp());
 		double gamma = P0 * (1.0 + p->dp()) / (ElectronMassMeV * MeV);
 
+		// The field of a tilted bend is that of its own frame, in which the
+		// particles are until the end of the bend
+		double x = p->x();
+		double y = p->y();
+		if(tilt != 0)
+		{
+			if(fequal(intS + ds, clength))
+			{
+				x = p->x() * cos(tilt) + p->y() * sin(tilt);
+				y = p->y() * cos(tilt) - p->x() * sin(tilt);
+			}
+			TiltSpin(*spin, tilt);
+		}
+
 		if(intS == 0)
 		{
 
@@ -359,7 +384,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().entrance;
 				double theta = pf ? pf->rot : 0;
-				double intbz = sbend->GetB0() * p->y() * norm;
+				double intbz = sbend->GetB0() * y * norm;
 				b.x = -tan(theta) * intbz;
 				b.y = 0;
 				b.z = intbz;
@@ -376,8 +401,8 @@ void SpinParticleProcess::DoProcess(double ds)
 			if(isSolenoid)
 			{
 				double bz = solnd->GetBz();
-				b.x = -0.5 * bz * p->x() * norm;
-				b.y = -0.5 * bz * p->y() * norm;
+				b.x = -0.5 * bz * x * norm;
+				b.y = -0.5 * bz * y * norm;
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
@@ -387,7 +412,7 @@ void SpinParticleProcess::DoProcess(double ds)
 		}
 
 		// Apply spin rotation from body of magnet
-		b = currentField->GetBFieldAt(Point3D(p->x(), p->y(), 0));
+		b = currentField->GetBFieldAt(Point3D(x, y, 0));
 
 		if(b.x != 0 || b.y != 0 || b.z != 0)
 		{
@@ -406,7 +431,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().exit;
 				double theta = pf ? pf->rot : 0;
-				double intbz = sbend->GetB0() * p->y() * norm;
+				double intbz = sbend->GetB0() * y * norm;
 				b.x = -tan(theta) * intbz;
 				b.y = 0;
 				b.z = -intbz;
@@ -421,8 +446,8 @@ void SpinParticleProcess::DoProcess(double ds)
 			if(isSolenoid)
 			{
 				double bz = solnd->GetBz();
-				b.x = 0.5 * bz * p->x() * norm;
-				b.y = 0.5 * bz * p->y() * norm;
+				b.x = 0.5 * bz * x * norm;
+				b.y = 0.5 * bz * y * norm;
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
@@ -431,6 +456,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			}
 		}
 
+		if(tilt != 0)
+		{
+			TiltSpin(*spin, -tilt);
+		}
 	}
 
 	if(fequal(intS += ds, (nk1 + 1) * dL))
-- 
2.43.0


From 7c2e221f7bf9d5eb000a54cf1b05fc02ad6691e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 179/224] fix: hollow electron lenses off axis kicked towards
 the axis of the element

---
 Merlin++/HollowELensProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..4bcbd64 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -100,7 +100,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 			if(theta != 0)
 			{
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				//~ // Particle phase space angle and amplitude (radius)
 				(*p).xp() += theta * cos(ParticleAngle);
 				(*p).yp() += theta * sin(ParticleAngle);
@@ -147,7 +147,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					double Phi = Multiplier * (Turn * OpTune * 2 * pi);
 					theta *= 0.5 * (1 + cos(Phi));
 
-					ParticleAngle = atan2((*p).y(), (*p).x());
+					ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 					// Particle phase space angle and amplitude (radius)
 					(*p).xp() += theta * cos(ParticleAngle);
 					(*p).yp() += theta * sin(ParticleAngle);
@@ -178,7 +178,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
@@ -212,7 +212,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
-- 
2.43.0


From b1a16472a9b5a12ddcb5f4771006e83f5c616b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 180/224] fix: hollow electron lenses acted again for every
 step made through them

---
 Merlin++/HollowELensProcess.cpp | 14 +++++++++++---
 Merlin++/HollowELensProcess.h   |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 4bcbd64..9318f45 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -22,7 +22,7 @@ namespace ParticleTracking
 {
 
 HollowELensProcess::HollowELensProcess(int priority) :
-	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr)
+	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr), ProtonBeta(0), s(0)
 {
 }
 
@@ -44,6 +44,7 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 	{
 		currentComponent = &component;
 		currentComponentHEL = aHollowELens;
+		s = 0;
 
 		double Gamma_p = LorentzGamma(currentBunch->GetReferenceMomentum(), ProtonMass);
 		ProtonBeta = LorentzBeta(Gamma_p);
@@ -54,8 +55,15 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 	}
 }
 
-void HollowELensProcess::DoProcess(double /*ds*/)
+void HollowELensProcess::DoProcess(double ds)
 {
+	// The lens acts once, at its end, however many steps are made through it
+	s += ds;
+	if(!fequal(s, currentComponent->GetLength()))
+	{
+		return;
+	}
+
 	// NB
 	// CalcThetaMax returns +ve theta
 	// CalcKick Radial and Simple return -ve theta
@@ -233,7 +241,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 double HollowELensProcess::GetMaxAllowedStepSize() const
 {
-	return currentComponent->GetLength();
+	return currentComponent->GetLength() - s;
 }
 
 double HollowELensProcess::CalcThetaMax(double r)
diff --git a/Merlin++/HollowELensProcess.h b/Merlin++/HollowELensProcess.h
index 3bcd349..1918504 100644
--- a/Merlin++/HollowELensProcess.h
+++ b/Merlin++/HollowELensProcess.h
@@ -80,6 +80,9 @@ private:
 	// Data Members for Class Attributes
 	HollowElectronLens* currentComponentHEL;
 	double ProtonBeta;
+
+	// distance from the start of the lens
+	double s;
 };
 
 } // end namespace ParticleTracking
-- 
2.43.0


From d40938dbdc908887dcc8f3d453718c15544c598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 181/224] fix: profiles of hollow electron lenses were written
 from the axis instead of their minimum

---
 Merlin++/HollowELensProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 9318f45..1390797 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -446,7 +446,7 @@ void HollowELensProcess::OutputProfile(std::ostream* os, double E, double min, d
 	cout << " ElectronBeta = " << ElectronBeta << endl;
 	cout << " ProtonBeta = " << ProtonBeta << endl;
 
-	double r = 0;
+	double r = min * Sigma_x;
 	int points = 1000;
 
 	(*os) << "#r\tkick_radial\tkick_simple\t|kick_r|\t|kick_s|" << endl;
-- 
2.43.0


From 9a4dd00ff7083b9d4cf48722d1008de2eeb68f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 182/224] fix: finding the tunes with a hollow electron lens
 deleted its process

---
 Merlin++/BetatronTunes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index 72c5dfb..3d401b6 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -104,6 +104,12 @@ void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 	dQx = Qx2 - Qx;
 	dQy = Qy2 - Qy;
 
+	if(myHELProcess != nullptr)
+	{
+		// it is not the tracker's to delete
+		tracker->RemoveProcess(myHELProcess);
+	}
+
 	delete ti;
 	delete tracker;
 	delete bunch;
-- 
2.43.0


From 3461cb004d730e827c7ffc8ea6bc375a4d86e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 183/224] fix: invalid particles with the number of one
 reported before were not culled

---
 Merlin++/NANCheckProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index 89b6286..e70fac9 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,6 +37,10 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
+		if(cull && !is_good(p))
+		{
+			do_cull = 1;
+		}
 		if(reported.count(p.id()))
 		{
 			continue;
@@ -47,10 +51,6 @@ void NANCheckProcess::DoProcess(const double ds)
 					  << currentComponent->GetQualifiedName() << std::endl;
 			Report(p.id());
 			reported.insert(p.id());
-			if(cull)
-			{
-				do_cull = 1;
-			}
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
-- 
2.43.0


From f0aa01af33c9c3ee9908cadf0dbe3cd1076cce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 184/224] fix: invalid particles were reported with the wrong
 index after others

---
 Merlin++/NANCheckProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index e70fac9..3310591 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -43,6 +43,7 @@ void NANCheckProcess::DoProcess(const double ds)
 		}
 		if(reported.count(p.id()))
 		{
+			count++;
 			continue;
 		}
 		if(!is_good(p))
-- 
2.43.0


From fb2d8789519723681796ceb01287f1bad8cb3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 185/224] fix: reports of invalid particles showed the first
 one of that number

---
 Merlin++/NANCheckProcess.cpp | 16 ++++++++--------
 Merlin++/NANCheckProcess.h   |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index 3310591..49810be 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -50,7 +50,7 @@ void NANCheckProcess::DoProcess(const double ds)
 		{
 			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
 					  << currentComponent->GetQualifiedName() << std::endl;
-			Report(p.id());
+			Report(p);
 			reported.insert(p.id());
 			if(halt)
 			{
@@ -66,8 +66,9 @@ void NANCheckProcess::DoProcess(const double ds)
 	}
 }
 
-void NANCheckProcess::Report(int id) const
+void NANCheckProcess::Report(const PSvector& particle) const
 {
+	const int64_t id = particle.id();
 	if(detailed)
 	{
 		auto p_prev = find_if(prev_coords.begin(), prev_coords.end(), [&id](const PSvector p)
@@ -82,14 +83,13 @@ void NANCheckProcess::Report(int id) const
 		{
 			std::cout << "prev     " << *p_prev << std::endl;
 		}
-		std::cout << "start    " << *p_start << std::endl;
+		if(p_start != start_coords.end())
+		{
+			std::cout << "start    " << *p_start << std::endl;
+		}
 	}
 
-	auto p_cur = find_if(currentBunch->begin(), currentBunch->end(), [&id](const PSvector p)
-	{
-		return p.id() == id;
-	});
-	std::cout << "current  " << *p_cur << std::endl;
+	std::cout << "current  " << particle << std::endl;
 }
 
 void NANCheckProcess::DoCull()
diff --git a/Merlin++/NANCheckProcess.h b/Merlin++/NANCheckProcess.h
index 42ec266..9390af3 100644
--- a/Merlin++/NANCheckProcess.h
+++ b/Merlin++/NANCheckProcess.h
@@ -63,7 +63,7 @@ private:
 	bool cull;
 	bool halt;
 
-	void Report(int id) const;
+	void Report(const PSvector& particle) const;
 	void DoCull();
 	PSvectorArray start_coords; // particles at start of element
 	PSvectorArray prev_coords; // particles at start of element
-- 
2.43.0


From e2e4a3445fd0cb25407042154e6c11f3e9aa9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 186/224] fix: the reference momentum given for an XTFF file
 was ignored

---
 Merlin++/XTFFInterface.cpp | 7 +++----
 Merlin++/XTFFInterface.h   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 965c22f..52e5328 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -616,8 +616,7 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::Parse(double P_ref)
 	}
 	beam0 = new BeamData();
 	int nelm = ParseHeader(beam0);
-	energy = P_ref;
-	Parse1(nelm, true);
+	Parse1(nelm, true, P_ref);
 	return GetModel();
 }
 
@@ -651,7 +650,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	Parse1(nelm, false);
 }
 
-void XTFFInterface::Parse1(int nelm, bool isNewModel)
+void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 {
 	if(mc == nullptr || isNewModel)
 	{
@@ -662,7 +661,7 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel)
 		mc = new AcceleratorModelConstructor();
 		z_total = 0;
 		beamload = 0;
-		energy = beam0->p0;
+		energy = P_ref != 0 ? P_ref : beam0->p0;
 	}
 
 	if(logos)
diff --git a/Merlin++/XTFFInterface.h b/Merlin++/XTFFInterface.h
index 3880d56..bc6a730 100644
--- a/Merlin++/XTFFInterface.h
+++ b/Merlin++/XTFFInterface.h
@@ -85,7 +85,7 @@ private:
 
 	void ConstructComponent(XTFF_Data&);
 	int ParseHeader(BeamData*);
-	void Parse1(int, bool);
+	void Parse1(int, bool, double P_ref = 0);
 
 	std::set<std::string> driftTypes;
 
-- 
2.43.0


From fc3842b2d4bdc887a01f6f7fc042c9cf661e4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 187/224] fix: wire scanners of XTFF files took their length as
 the angle of their third wire

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 52e5328..f792346 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -335,7 +335,7 @@ BPM* ConstructBPM(const Data& data)
 
 RMSProfileMonitor* ConstructProfileMonitor(const Data& data)
 {
-	return new RMSProfileMonitor(data.label, data[L]);
+	return new RMSProfileMonitor(data.label, pi / 4, data[L]);
 }
 
 Solenoid* ConstructSolenoid(const Data& data)
-- 
2.43.0


From 406e0a94a717b5cb3e1eda138b146d794bcef815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 188/224] fix: rectangular collimators of XTFF files were
 opened twice as far

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index f792346..63d0876 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -495,7 +495,7 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 		c = mc->AppendComponent(ConstructDrift(dat));
 		if(incApertures)
 		{
-			c->SetAperture(new RectangularAperture(2 * dat[XGAP], 2 * dat[YGAP]));
+			c->SetAperture(new RectangularAperture(dat[XGAP], dat[YGAP]));
 		}
 	}
 	else if(dat.keywrd == "SROT")
-- 
2.43.0


From 597c97840480667a9dcd7b98fd8b4d4a867bc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 189/224] fix: XTFF interfaces deleted their file twice when
 another could not be opened

---
 Merlin++/XTFFInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 63d0876..06c4bc5 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -632,6 +632,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	{
 		string msg = "cannot open file " + fname;
 		delete ifs;
+		ifs = nullptr;
 		throw runtime_error(msg);
 	}
 
-- 
2.43.0


From 456a095dacad09d57ac5708affee40a65fd7e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 190/224] fix: XTFF interfaces crashed when files were appended
 after their model was taken

---
 Merlin++/XTFFInterface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 06c4bc5..40c1dfb 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -695,7 +695,10 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
 
 	BeamData* beam = beam0;
 	beam0 = nullptr;
-	return make_pair(mc->GetModel(), beam);
+	AcceleratorModel* model = mc->GetModel();
+	delete mc;
+	mc = nullptr;
+	return make_pair(model, beam);
 }
 
 int XTFFInterface::ParseHeader(BeamData* bdat)
-- 
2.43.0


From 0088f823a580e89d0249b0bc78ff4599042bfb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 191/224] fix: XTFF interfaces went on from the energy another
 one had reached

---
 Merlin++/XTFFInterface.cpp | 15 +++++++++++++--
 Merlin++/XTFFInterface.h   |  7 +++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 40c1dfb..943e593 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -665,6 +665,13 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 		energy = P_ref != 0 ? P_ref : beam0->p0;
 	}
 
+	else
+	{
+		z_total = zReached;
+		beamload = loadReached;
+		energy = energyReached;
+	}
+
 	if(logos)
 	{
 		(*logos) << "Initial beam energy: " << energy << " GeV" << endl;
@@ -677,6 +684,10 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 		ConstructComponent(dat);
 		SkipLines((*ifs), 3);
 	}
+
+	zReached = z_total;
+	loadReached = beamload;
+	energyReached = energy;
 }
 
 pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
@@ -686,11 +697,11 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
 		(*logos) << endl;
 		mc->ReportStatistics(*logos);
 		(*logos) << "\nFinal ";
-		if(!fequal(Qt, 0.0))
+		if(!fequal(nb * ElectronCharge, 0.0))
 		{
 			(*logos) << "(loaded) ";
 		}
-		(*logos) << "beam energy: " << energy << " GeV" << endl;
+		(*logos) << "beam energy: " << energyReached << " GeV" << endl;
 	}
 
 	BeamData* beam = beam0;
diff --git a/Merlin++/XTFFInterface.h b/Merlin++/XTFFInterface.h
index bc6a730..2cc8647 100644
--- a/Merlin++/XTFFInterface.h
+++ b/Merlin++/XTFFInterface.h
@@ -96,6 +96,13 @@ private:
 	std::ostream* logos;
 	bool incApertures;
 
+	/**
+	 * length, beam loading and energy at the end of the last file
+	 */
+	double zReached;
+	double loadReached;
+	double energyReached;
+
 	/**
 	 * used for girder construction
 	 */
-- 
2.43.0


From e9d9caaf8980c7709d760a436d443beec78712b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 192/224] fix: monitors of one plane in XTFF files could not be
 treated as drifts

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 943e593..a784024 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -367,7 +367,7 @@ inline bool is_skewsext(double tilt)
 
 void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 {
-	if(TYPEIS(HMON) || TYPEIS(VMON))
+	if((TYPEIS(HMON) || TYPEIS(VMON)) && driftTypes.find(dat.keywrd) == driftTypes.end())
 	{
 		dat.keywrd = "MONI";
 	}
-- 
2.43.0


From d57c029816a9d217f9cdad95535b25f23ff9b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 193/224] fix: ATL motion of supports at the same place was not
 a number

---
 Merlin++/ATL2D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..3e67c5b 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -147,8 +147,9 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
-			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
+		// rounding can leave eigenvalues just below zero
+		const double variance = at * evals[n];
+		yy(n) = variance > 0 ? normal_distribution<>{0, sqrt(variance)} (*rg) : 0.0;
 	}
 
 	RealVector dy = evecsT * yy;
-- 
2.43.0


From bb9761019e0c287460cbd2e679f3abccc1bcbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 194/224] fix: absolute ATL offsets were those of the time
 before the step

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 3e67c5b..0cd4d7d 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -143,7 +143,7 @@ double ATL2D::DoStep(double dt)
 {
 	RealVector yy(theSupports.size());
 
-	double at = (atlMode == increment) ? A * dt : A * t;
+	double at = (atlMode == increment) ? A * dt : A * (t + dt);
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-- 
2.43.0


From aeb6f6ddd736e010e776014ba3b7c88a80c46692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 195/224] fix: the eigenvectors of ATL motion were written and
 read as a symmetric matrix

---
 Merlin++/ATL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 0cd4d7d..a74261b 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -103,10 +103,10 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
@@ -225,7 +225,7 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
 			(*evecTFile) << std::setw(14) << evecsT(row, col);
 		}
-- 
2.43.0


From 09a5b1580dd0700204eff3e99324558dea1c1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 196/224] fix: the eigensystem of ATL motion was written with
 six digits, in columns that could run together

---
 Merlin++/ATL2D.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index a74261b..827099f 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -222,20 +222,26 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 {
 	const int n = evals.size();
 	int row, col;
+	const int width = 26;
+	const std::streamsize evecPrec = evecTFile->precision(17);
+	const std::streamsize evalPrec = evalFile->precision(17);
 
 	for(row = 0; row < n; row++)
 	{
 		for(col = 0; col < n; col++)
 		{
-			(*evecTFile) << std::setw(14) << evecsT(row, col);
+			(*evecTFile) << std::setw(width) << evecsT(row, col);
 		}
 		(*evecTFile) << endl;
 	}
 
 	for(row = 0; row < n; row++)
 	{
-		(*evalFile) << std::setw(14) << evals(row) << endl;
+		(*evalFile) << std::setw(width) << evals(row) << endl;
 	}
+
+	evecTFile->precision(evecPrec);
+	evalFile->precision(evalPrec);
 }
 
 double ATL2D::Distance(const int n1, const int n2)
-- 
2.43.0


From efbee98bf58384bffa6b6488312dfe0f54713a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 197/224] fix: running from an initial bunch of electrons,
 protons, muons or spins tracked plain particles

---
 Merlin++/BunchConstructor.h    | 4 +++-
 Merlin++/ElectronBunch.h       | 9 +++++++++
 Merlin++/MuonBunch.h           | 9 +++++++++
 Merlin++/ParticleBunch.h       | 9 +++++++++
 Merlin++/ProtonBunch.h         | 9 +++++++++
 Merlin++/SMPBunch.h            | 9 +++++++++
 Merlin++/SpinParticleProcess.h | 9 +++++++++
 7 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BunchConstructor.h b/Merlin++/BunchConstructor.h
index b4b6f7d..4b9e19b 100644
--- a/Merlin++/BunchConstructor.h
+++ b/Merlin++/BunchConstructor.h
@@ -8,6 +8,7 @@
 #ifndef BunchConstructor_h
 #define BunchConstructor_h 1
 
+#include <typeinfo>
 #include "merlin_config.h"
 
 class Bunch;
@@ -92,7 +93,8 @@ StaticBunchCtor<B>::~StaticBunchCtor()
 template<class B>
 Bunch* StaticBunchCtor<B>::ConstructBunch(int bunchIndex) const
 {
-	return new B(*sourceBunch);
+	// the source can be of a type derived from B
+	return typeid(*sourceBunch) == typeid(B) ? new B(*sourceBunch) : sourceBunch->Clone();
 }
 
 template<class B>
diff --git a/Merlin++/ElectronBunch.h b/Merlin++/ElectronBunch.h
index 0244b1f..b29b4a7 100644
--- a/Merlin++/ElectronBunch.h
+++ b/Merlin++/ElectronBunch.h
@@ -55,6 +55,15 @@ public:
 	{
 	}
 
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual ElectronBunch* Clone() const
+	{
+		return new ElectronBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/MuonBunch.h b/Merlin++/MuonBunch.h
index 60b2df0..f9fa8e2 100644
--- a/Merlin++/MuonBunch.h
+++ b/Merlin++/MuonBunch.h
@@ -53,6 +53,15 @@ public:
 	{
 	}
 
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual MuonBunch* Clone() const
+	{
+		return new MuonBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index 2d23ca3..f1c4994 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -69,6 +69,15 @@ public:
 	ParticleBunch(size_t np, const ParticleDistributionGenerator & generator, const BeamData& beam,
 		ParticleBunchFilter* filter = nullptr);
 
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual ParticleBunch* Clone() const
+	{
+		return new ParticleBunch(*this);
+	}
+
 	/**
 	 *	Returns the total charge (in units of e).
 	 *	@return Total charge (e)
diff --git a/Merlin++/ProtonBunch.h b/Merlin++/ProtonBunch.h
index 50c5ba6..bdf1943 100644
--- a/Merlin++/ProtonBunch.h
+++ b/Merlin++/ProtonBunch.h
@@ -56,6 +56,15 @@ public:
 	{
 	}
 
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual ProtonBunch* Clone() const
+	{
+		return new ProtonBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/SMPBunch.h b/Merlin++/SMPBunch.h
index d13e375..d28836b 100644
--- a/Merlin++/SMPBunch.h
+++ b/Merlin++/SMPBunch.h
@@ -50,6 +50,15 @@ public:
 	 */
 	SMPBunch(const std::string& fname);
 
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual SMPBunch* Clone() const
+	{
+		return new SMPBunch(*this);
+	}
+
 	/**
 	 *	virtual destructor.
 	 */
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index c2beded..12f29c9 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -36,6 +36,15 @@ class SpinParticleBunch: public ParticleBunch
 {
 public:
 	SpinParticleBunch(double P0, double Qm = 1);
+	/**
+	 *	Makes a copy of the bunch, of its own type.
+	 *	@return New bunch, owned by the caller
+	 */
+	virtual SpinParticleBunch* Clone() const
+	{
+		return new SpinParticleBunch(*this);
+	}
+
 	virtual ParticleBunch::iterator erase(ParticleBunch::iterator p);
 	virtual size_t AddParticle(const Particle& p);
 	size_t AddParticle(const Particle& p, const SpinVector& spin);
-- 
2.43.0


From 404bcab83d771dbcc3da2689873c3cc9f71b2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:18 +0000
Subject: [PATCH 198/224] fix: closed orbits and transfer matrices with
 radiation were not numbers

---
 Merlin++/ClosedOrbit.cpp    | 3 ++-
 Merlin++/TransferMatrix.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 91ffbcb..d287ffa 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -9,6 +9,7 @@
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
+#include "ElectronBunch.h"
 #include "TLASimp.h"
 
 #ifdef DEBUG_CLOSED_ORBIT
@@ -91,7 +92,7 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 {
 	const int cpt = transverseOnly ? 4 : 6;
 
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation depends on the mass
 	int k = 0;
 	for(k = 0; k < cpt + 1; k++)
 	{
diff --git a/Merlin++/TransferMatrix.cpp b/Merlin++/TransferMatrix.cpp
index 95a7291..46ffec4 100644
--- a/Merlin++/TransferMatrix.cpp
+++ b/Merlin++/TransferMatrix.cpp
@@ -11,6 +11,7 @@
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
 #include "TransferMatrix.h"
+#include "ElectronBunch.h"
 #include "MatrixPrinter.h"
 
 using namespace ParticleTracking;
@@ -105,7 +106,7 @@ void TransferMatrix::FindClosedOrbitTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 {
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation depends on the mass
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
@@ -165,7 +166,7 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit, int n1, int n2)
 {
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation depends on the mass
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
-- 
2.43.0


From 90c726e5440054c9595b8238bbddfd2a25224a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 199/224] fix: with a maximum step size synchrotron radiation
 stopped in the middle of components

---
 Merlin++/SynchRadParticleProcess.cpp | 8 ++++----
 Merlin++/SynchRadParticleProcess.h   | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..d7b916a 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -122,7 +122,7 @@ bool SynchRadParticleProcess::sympVars = false;
 
 SynchRadParticleProcess::SynchRadParticleProcess(int prio, bool q)
 
-	: ParticleBunchProcess("SYNCHROTRON RADIATION", prio), ns(1), incQ(false), adjustEref(true), dsMax(0)
+	: ParticleBunchProcess("SYNCHROTRON RADIATION", prio), ns(1), incQ(false), adjustEref(true), nsteps(1), dsMax(0)
 
 {
 
@@ -155,8 +155,8 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 		currentField = nullptr;
 	}
 
-	int ns1 = (ns == 0) ? 1 + component.GetLength() / dsMax : ns;
-	dL = component.GetLength() / ns1;
+	nsteps = (ns == 0) ? 1 + component.GetLength() / dsMax : ns;
+	dL = component.GetLength() / nsteps;
 	nk1 = 0;
 	intS = 0;
 
@@ -185,7 +185,7 @@ void SynchRadParticleProcess::DoProcess(double ds)
 		}
 		nk1++;
 	}
-	active = nk1 != ns;
+	active = nk1 != nsteps;
 
 }
 
diff --git a/Merlin++/SynchRadParticleProcess.h b/Merlin++/SynchRadParticleProcess.h
index cab4f30..39b69e8 100644
--- a/Merlin++/SynchRadParticleProcess.h
+++ b/Merlin++/SynchRadParticleProcess.h
@@ -185,6 +185,8 @@ private:
 
 	int nk1;
 
+	int nsteps; ///< Number of steps in the current component
+
 	double intS;
 
 	// Data Members for Associations
-- 
2.43.0


From 7a1fd658459e9df8f41c00359f8a26b9d9f37f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 200/224] fix: the last radiation step of long components was
 lost to rounding

---
 Merlin++/SynchRadParticleProcess.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index d7b916a..d6d7709 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -167,7 +167,9 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 void SynchRadParticleProcess::DoProcess(double ds)
 {
 
-	if(fequal(intS += ds, (nk1 + 1) * dL))
+	// The sum of the steps reaches the end of a radiation step to within rounding
+	intS += ds;
+	if(intS >= (nk1 + 1 - 1.0e-9) * dL)
 	{
 		double E0 = currentBunch->GetReferenceMomentum();
 		double meanU = for_each(
-- 
2.43.0


From 4b4a16203a868a4f5b5eec2e13f6e3645f961f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 201/224] fix: synchrotron radiation made the momentum of empty
 bunches not a number

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index d6d7709..45b7410 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -55,7 +55,7 @@ struct ApplySR
 
 	double MeanEnergyLoss() const
 	{
-		return meanU / n;
+		return n ? meanU / n : 0;
 	}
 
 	void operator()(PSvector& v)
-- 
2.43.0


From f5acb5ca747745b9dc6cebb4d14980acc8df3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 202/224] fix: synchrotron radiation changed the angles of
 particles, doubling their damping

---
 Merlin++/SynchRadParticleProcess.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 45b7410..d3ea096 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -101,9 +101,8 @@ struct ApplySR
 
 		else
 		{
+			// photons leave along the trajectory: the angles do not change
 			dp -= u / P0;
-			px /= (1.0 + u / P0);
-			py /= (1.0 + u / P0);
 		}
 		n++;
 	}
-- 
2.43.0


From e48dc7e03b61756eef0bad194b1b9d17950dc809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 203/224] fix: canonical momenta were not scaled with the
 reference momentum when particles radiate

---
 Merlin++/SynchRadParticleProcess.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index d3ea096..d3d7b1d 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -183,6 +183,16 @@ void SynchRadParticleProcess::DoProcess(double ds)
 		if(adjustEref)
 		{
 			currentBunch->AdjustRefMomentum(-meanU / E0);
+			if(sympVars)
+			{
+				// canonical momenta are in units of the reference momentum
+				const double scale = currentBunch->GetReferenceMomentum() / E0;
+				for(auto& p : *currentBunch)
+				{
+					p.xp() /= scale;
+					p.yp() /= scale;
+				}
+			}
 		}
 		nk1++;
 	}
-- 
2.43.0


From 5a8c0433d5e233fde9ff09c3275404f4c2e3dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:16 +0000
Subject: [PATCH 204/224] fix: dividers missed the last boundary of components
 to rounding

---
 Merlin++/ComponentStepper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentStepper.cpp b/Merlin++/ComponentStepper.cpp
index ac8fb82..1fe202f 100644
--- a/Merlin++/ComponentStepper.cpp
+++ b/Merlin++/ComponentStepper.cpp
@@ -37,7 +37,8 @@ void ComponentDivider::SetComponent(AcceleratorComponent& cmp)
 bool ComponentDivider::Increment(double ds)
 {
 	s += ds;
-	if(fequal(s, next_s))
+	// The sum of the steps reaches the boundary to within rounding
+	if(s >= next_s - 1.0e-9 * delta_s)
 	{
 		next_s += delta_s;
 		return true;
-- 
2.43.0


From 2c7ac049c7415f2d17315352e753f96d6469cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 205/224] fix: calculating equilibrium emittances ended in a
 dimension error

---
 Merlin++/EquilibriumDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 412bf3e..f10e863 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -114,7 +114,7 @@ double IntegrateEigenvector::romberg(double a, double b)
 
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
 {
-	ek = Ek;
+	ek.copy(Ek);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
 	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
-- 
2.43.0


From 78a2367f71ddca4b5e6ed8389c823ffec58cf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 206/224] fix: the equilibrium emittance integral read
 uninitialised sums and could not be extrapolated

---
 Merlin++/EquilibriumDistribution.cpp | 34 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index f10e863..dd06682 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include <fstream>
 #include "ParticleBunch.h"
 #include "ParticleTracker.h"
@@ -14,7 +15,6 @@
 #include "PhysicalConstants.h"
 #include "PhysicalUnits.h"
 #include "MatrixPrinter.h"
-#include "Interpolation.h"
 
 // The following constants specify the integration precision
 #define EPS 1.0e-8
@@ -89,27 +89,27 @@ double IntegrateEigenvector::trapezium(double a, double b, int n)
 
 double IntegrateEigenvector::romberg(double a, double b)
 {
-	double value, error;
-	double s[MAXPOINTS + 1];
-	double h[MAXPOINTS + 2];
-	int j;
+	// extrapolate the last K trapezium sums to zero step size
+	double last[K];
+	double next[K];
 
-	h[1] = 1.0;
-	for(j = 1; j <= MAXPOINTS; j++)
+	for(int j = 1; j <= MAXPOINTS; j++)
 	{
-		s[j] = trapezium(a, b, j);
-		if(j >= K)
+		const int n = min(j, K);
+		double factor = 1.0;
+		next[0] = trapezium(a, b, j);
+		for(int m = 1; m < n; m++)
 		{
-			Interpolation I(h + j - K, s + j - K, K, K);
-			value = I.itsMethod->ValueAt(0.0, &error);
-			if(fabs(error) <= EPS * fabs(value))
-			{
-				return value;
-			}
+			factor *= 4.0;
+			next[m] = next[m - 1] + (next[m - 1] - last[m - 1]) / (factor - 1.0);
+		}
+		if(j > K && fabs(next[K - 1] - last[K - 1]) <= EPS * fabs(next[K - 1]))
+		{
+			return next[K - 1];
 		}
-		h[j + 1] = 0.25 * h[j];
+		copy(next, next + n, last);
 	}
-	return 0;
+	return last[K - 1];
 }
 
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
-- 
2.43.0


From 49e26fe5703c7359ea1fde8acf2e75b6d002f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 207/224] fix: equilibrium emittances ignored the tilt of bends

---
 Merlin++/EquilibriumDistribution.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index dd06682..ba96066 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -115,6 +115,11 @@ double IntegrateEigenvector::romberg(double a, double b)
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
 {
 	ek.copy(Ek);
+
+	// the plane the magnet bends in
+	const double tilt = sb->GetGeometry().GetTilt();
+	ek(0) = cos(tilt) * Ek(0) + sin(tilt) * Ek(2);
+	ek(1) = cos(tilt) * Ek(1) + sin(tilt) * Ek(3);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
 	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
-- 
2.43.0


From 3ea0b7e89327f394d286e18a9ce1b9c49957e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 208/224] fix: equilibrium emittances ignored the weak focusing
 of bends

---
 Merlin++/EquilibriumDistribution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index ba96066..25c0491 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -121,7 +121,7 @@ double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double
 	ek(0) = cos(tilt) * Ek(0) + sin(tilt) * Ek(2);
 	ek(1) = cos(tilt) * Ek(1) + sin(tilt) * Ek(3);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
-	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
+	k = sqrt(Complex(h * h + sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
 	SectorBend::PoleFace* pf = (sb->GetPoleFaceInfo()).entrance;
 	tanE1 = pf ? tan(pf->rot) : 0.0;
@@ -313,7 +313,8 @@ void EquilibriumDistribution::CalculateEmittance()
 
 				double intgrl = 0.0;
 
-				if(sb->GetB1() == 0)
+				const double brho = p0 / eV / SpeedOfLight;
+				if(pow(sb->GetB0() / brho, 2) + sb->GetB1() / brho == 0)
 				{
 					IntegrateZeroGradient integrator;
 					intgrl = integrator.Integral(newEigenvector, sb, p0);
-- 
2.43.0


From b36ae2d61e2fcf42e073a043156363fb0e00cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:12 +0000
Subject: [PATCH 209/224] fix: EigenSystem could not find stable modes whose
 block of the matrix looks unstable

---
 Merlin++/LinearAlgebra.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 1808a15..c2bf5a2 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -207,6 +207,15 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				b = y / sqrt(ynorm);
 				lambda += 1.0 / ydotb;
 				iter++;
+
+				if(iter == maxiter / 2 && imag(isin_mu) == 0 && prox > 1.0e-16)
+				{
+					// a real guess never leads to the complex eigenvalues of a stable mode
+					lambda = Complex(real(cos_mu) > 0 ? 1 : -1, 0.01);
+					b = ComplexVector(0.0, 6);
+					b(2 * pln) = Complex(1 / sqrt(2.0));
+					b(2 * pln + 1) = b(2 * pln);
+				}
 			}
 			if(iter == maxiter)
 			{
-- 
2.43.0


From 0517896a15ee9cb62daac2fe95d2bb8521f7f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 210/224] fix: the equilibrium emittance integral halved its
 steps for ever in modes that are excited by rounding only

---
 Merlin++/EquilibriumDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 25c0491..3a2c635 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -18,7 +18,7 @@
 
 // The following constants specify the integration precision
 #define EPS 1.0e-8
-#define MAXPOINTS 30
+#define MAXPOINTS 16
 #define K 5
 
 using namespace std;
-- 
2.43.0


From dc023917789c3603cc92268d23498f9ff4268f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 211/224] fix: RMap::Apply for single vectors was declared but
 never defined

---
 Merlin++/RMap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/RMap.cpp b/Merlin++/RMap.cpp
index ac39724..71c4303 100644
--- a/Merlin++/RMap.cpp
+++ b/Merlin++/RMap.cpp
@@ -52,6 +52,14 @@ void RMap::Apply(const PSvector& orig, PSvector& result) const
 	}
 }
 
+PSvector& RMap::Apply(PSvector& X) const
+{
+	PSvector Y(0);
+	Apply(X, Y);
+	Y.id() = X.id();
+	return X = Y;
+}
+
 RMap::itor RMap::FindTerm(int i, int j)
 {
 	itor ri = rterms.begin();
-- 
2.43.0


From d8ab4157a9ca97fa8b855efd848f313b2197bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 212/224] fix: copies of an RMap used the terms of the map they
 were copied from

---
 Merlin++/RMap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index 839d32d..958f096 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -68,6 +68,18 @@ public:
 		{
 			last = array;
 		}
+		LinearTermArray(const LinearTermArray& rhs)
+		{
+			last = std::copy(rhs.begin(), rhs.end(), array);
+		}
+		LinearTermArray& operator=(const LinearTermArray& rhs)
+		{
+			if(this != &rhs)
+			{
+				last = std::copy(rhs.begin(), rhs.end(), array);
+			}
+			return *this;
+		}
 		void push_back(const Rij& r)
 		{
 			*last = r;
-- 
2.43.0


From c4899288e360f0c636f6ed2eabf606251c8a94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 213/224] fix: rescaling moments to another momentum left the
 correlation of time and momentum as it was

---
 Merlin++/MatrixMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 7aef3fc..4350557 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -51,7 +51,7 @@ void RescaleMoments(double P0, double P1, PSmoments& S)
 	S[5] = ratio * (1 + S[5]) - 1.0;
 
 	// rescale momentum correlations
-	for(int i = 0; i < 4; i++)
+	for(int i = 0; i < 5; i++)
 	{
 		S(i, 5) *= ratio;
 	}
-- 
2.43.0


From 0fb1a45f8779e3318a7aa3ef534929fe3454c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 214/224] fix: maps of one or two degrees of freedom cleared
 the moments of the others

---
 Merlin++/MatrixMaps.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 4350557..27ce7a2 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -14,7 +14,7 @@ namespace
 
 PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 {
-	PSmoments result; // initialised to zero
+	PSmoments result = S; // the degrees of freedom R does not act on keep their moments
 	int i, j, k, l;
 	const int n = R.ncols();
 
@@ -31,6 +31,17 @@ PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 
 			result(i, j) = sij;
 		}
+		for(j = n; j < PS_LENGTH; j++)
+		{
+			double sij = 0.0;
+			for(k = 0; k < n; k++)
+			{
+				sij += R(i, k) * S(k, j);
+			}
+
+			result(i, j) = sij;
+		}
+		result[i] = 0;
 		for(j = 0; j < n; j++)
 		{
 			result[i] += R(i, j) * S[j];    // centroid tracking
-- 
2.43.0


From 4e089c721fdcf8b05c14f71cb9abaddee0492b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 215/224] fix: the RMaps of quadrupoles and cavities cleared
 time and momentum of what they were applied to

---
 Merlin++/TransportRMaps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 81138bb..071a5ab 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -199,6 +199,8 @@ void Quadrupole(double length, double Kx, RMap& R)
 {
 	QR2(length, Kx, 0, R);
 	QR2(length, -Kx, 2, R);
+	R.AddTerm(5, 5) = 1.0;
+	R.AddTerm(6, 6) = 1.0;
 }
 
 void Srot(double cosphi, double sinphi, RMap& R)
@@ -240,6 +242,7 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 	}
 	else
 	{
+		R.AddTerm(5, 5) = R.AddTerm(6, 6) = 1.0;
 		if(entr_field && !exit_field)
 		{
 			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
@@ -292,6 +295,7 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
 	R.AddTerm(1, 2) = R.AddTerm(3, 4) = root8 * E0 * sinAlpha / g;
 	R.AddTerm(2, 1) = R.AddTerm(4, 3) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
 	R.AddTerm(2, 2) = R.AddTerm(4, 4) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
+	R.AddTerm(5, 5) = R.AddTerm(6, 6) = 1.0;
 }
 
 // functions returning R2Map objects
-- 
2.43.0


From c053dda87735a9dfcdde9e61c61451a1b752d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 216/224] fix: the RMap of a travelling wave cavity had end
 fields that do not depend on the phase

---
 Merlin++/TransportRMaps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 071a5ab..6cd5a24 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -245,9 +245,9 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 		R.AddTerm(5, 5) = R.AddTerm(6, 6) = 1.0;
 		if(entr_field && !exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g / E1;
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g * cosphi / E1;
 			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
 		}
 		else if(!entr_field && exit_field)
@@ -255,14 +255,14 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
 			R.AddTerm(2, 1) = R.AddTerm(4, 3) = 0.5 * g * cosphi / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else if(entr_field && exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr / E1 / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr * cosphi / E1;
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else   //no fringe fields
 		{
-- 
2.43.0


From a96d1281e1c14ebe71f3a03beb41fe496d141096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 217/224] fix: TransportMatrix::TWRFCavity had its end fields
 when asked for none, and no damping otherwise

---
 Merlin++/TransportMatrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index db6ee6e..1299916 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -407,7 +407,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 	const double dEcosPhi = dE * cosphi;
 	const double E1 = E0 + dEcosPhi;
 	const double Er = E1 / E0;
-	const double logEr = log(Er);
+	const double logEr = log1p(dEcosPhi / E0);
 
 	// Condition for zero acceleration modified by A.Wolski, 5 November 2003
 	// Loss of numerical accuracy can lead to dEcosPhi of order 1e-20
@@ -418,7 +418,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 	}
 	else
 	{
-		if(!inc_end_fields)
+		if(inc_end_fields)
 		{
 			R(0, 0) = 1 - 0.5 * logEr;
 			R(0, 1) = E0 * length * logEr / dEcosPhi;
@@ -428,7 +428,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 		else
 		{
 			R(0, 1) = length * E0 * logEr / dEcosPhi;
-			R(1, 1) = Er;
+			R(1, 1) = 1 / Er;
 		}
 	}
 
-- 
2.43.0


From 128f538c93613743f35ec1590f6613cbc84025d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 218/224] fix: TransportMatrix::SWRFCavity left the vertical
 plane of 6x6 matrices a drift of no length

---
 Merlin++/TransportMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 1299916..687e421 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -473,7 +473,7 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	R(1, 0) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
 	R(1, 1) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
 
-	if(R.nrows() == 4)
+	if(R.nrows() > 2)
 	{
 		R(2, 2) = R(0, 0);
 		R(2, 3) = R(0, 1);
-- 
2.43.0


From 8af0912c9ef29ea9308b1b7b844c041af5dab0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 219/224] fix: TransportMatrix::Srot left the matrix as it was
 for rotations by zero

---
 Merlin++/TransportMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.h b/Merlin++/TransportMatrix.h
index bb4bcac..a5ba7ea 100644
--- a/Merlin++/TransportMatrix.h
+++ b/Merlin++/TransportMatrix.h
@@ -80,12 +80,12 @@ inline RealMatrix& TransportMatrix::Quadrupole(double length, double Kx, RealMat
 
 inline RealMatrix& TransportMatrix::Srot(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : Srot(cos(phi), sin(phi), R);
+	return Srot(cos(phi), sin(phi), R);
 }
 
 inline RealMatrix& TransportMatrix::SrotR4(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : SrotR4(cos(phi), sin(phi), R);
+	return SrotR4(cos(phi), sin(phi), R);
 }
 
 #endif
-- 
2.43.0


From a5dff47c7bf6c41def222531d66376af01a3b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:22 +0000
Subject: [PATCH 220/224] fix: the chromatic terms of horizontally defocusing
 bends were those of focusing ones

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 687e421..f3d358f 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -262,8 +262,8 @@ RealMatrix& TransportMatrix::SectorBendT(double l, double h, double K1, RealMatr
 	else   //defocusing
 	{
 		double phix = l * kx;
-		double coshphix = cos(phix);
-		double sinhphix = sin(phix);
+		double coshphix = cosh(phix);
+		double sinhphix = sinh(phix);
 		T(0, 0) = T(1, 1) = hk * l * sinhphix / kx / 2;
 		T(0, 1) = hk * (phix * coshphix - sinhphix) / (2 * kx * kx * kx);
 		T(1, 0) = hk * (phix * coshphix + sinhphix) / kx / 2;
-- 
2.43.0


From bfebe175cf93893e789798f4d6d846ad6338eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:22 +0000
Subject: [PATCH 221/224] fix: chromatic matrices had ones on the diagonal
 where there is no chromatic effect, and needed six rows

---
 Merlin++/TransportMatrix.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index f3d358f..5c1347d 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -225,7 +225,7 @@ RealMatrix& TransportMatrix::SectorBend(double length, double h, double Kx, Real
 RealMatrix& TransportMatrix::SectorBendT(double l, double h, double K1, RealMatrix& T)
 {
 	// Currently only the chromatic part of the 6x6 matrix is supported
-	InitR(T);
+	T = RealMatrix(T.nrows(), T.ncols(), 0.0);
 
 	if(l == 0 || (K1 == 0 && h == 0))
 	{
@@ -290,6 +290,10 @@ RealMatrix& TransportMatrix::SectorBendT(double l, double h, double K1, RealMatr
 	}
 
 	// Dispersion/time terms
+	if(T.nrows() != 6)
+	{
+		return T;
+	}
 	if(Kx == 0)
 	{
 		double phi = h * l;
@@ -330,7 +334,7 @@ RealMatrix& TransportMatrix::QuadrupoleR(double length, double Kx, RealMatrix& R
 
 RealMatrix& TransportMatrix::QuadrupoleT(double length, double Kx, RealMatrix& T)
 {
-	InitR(T);
+	T = RealMatrix(T.nrows(), T.ncols(), 0.0);
 
 	if(length == 0 || Kx == 0)
 	{
-- 
2.43.0


From cfbd5d26f697dc5ff5814d4c4d4c2ee4d007ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:22 +0000
Subject: [PATCH 222/224] fix: beamlines with particle maps could be tracked
 with the thin lens integrators only

---
 Merlin++/SymplecticIntegrators.cpp | 1 +
 Merlin++/TransportIntegrators.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 7bd8d21..1d93cf2 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -40,6 +40,7 @@ ADD_INTG(SectorBendCI)
 ADD_INTG(ParticleTracking::MarkerCI)
 ADD_INTG(ParticleTracking::MonitorCI)
 ADD_INTG(ParticleTracking::SolenoidCI)
+ADD_INTG(ParticleTracking::ParticleMapCI)
 END_INTG_SET
 
 #define CHK_ZERO(s) if(s == 0) return;
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 2850756..f3c53db 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -35,6 +35,7 @@ ADD_INTG(SolenoidCI)
 ADD_INTG(THIN_LENS::SWRFStructureCI)
 ADD_INTG(MarkerCI)
 ADD_INTG(MonitorCI)
+ADD_INTG(ParticleMapCI)
 END_INTG_SET
 
 } // end namespace TRANSPORT
-- 
2.43.0


From c733c88c74198c5e6b90a40b8d70d3bd40601c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:25 +0000
Subject: [PATCH 223/224] fix: the density of aluminium was that of air

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index edad5a9..2682c6b 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -32,7 +32,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	double SR[] = {0.00034, 0.000035, 0.000076, 0.00153, 0.00907, 0.00039, 0.00768, 0.0133766, -1, -1, -1};
 	double dE[] = {1.724, 1.594, 1.745, 1.403, 1.123, 1.664, 1.145, -1, -1, -1, -1};
 	double X[] = {24.01, 65.19, 42.7, 12.86, 6.37, 21.82, 6.76, -1, -1, -1, -1};
-	double rho[] = {1.204, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
+	double rho[] = {2.699, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
 	double Z[] = {13., 4., 6., 29., 82., 14., 74., 8, 26, 28, 42};
 	int n = sizeof(names) / sizeof(string);
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From 17bbcf521c6a14685bcbd4fcba888da9bed12a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:25 +0000
Subject: [PATCH 224/224] fix: the conductivity of tungsten was ten thousand
 times too low

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 2682c6b..ad435f1 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -41,7 +41,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	}
 
 	string names2[] = {"Al", "Be", "C", "Cu", "Pb", "Si", "W", "Fe", "Ni", "Mo"};
-	double conductivity[] = {3.564E7, 3.08E7, 71400, 5.98E7, 4.8077E6, 1, 1770, 1.04E7, 1.44E7, 1.87E7};
+	double conductivity[] = {3.564E7, 3.08E7, 71400, 5.98E7, 4.8077E6, 1, 1.77E7, 1.04E7, 1.44E7, 1.87E7};
 	for(int i = 0; i < int(sizeof(names2) / sizeof(string)); i++)
 		property[names2[i]]->SetExtra("conductivity", conductivity[i]);
 
-- 
2.43.0

