From 163253ff82dd0dd3d27957f4d24898781527a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 01/77] fix: image size of large images must not overflow int

The number of pixels is the product of two 16 bit counts and was computed in
int, overflowing for images of 2^31 pixels and more.
---
 msat/hrit/MSG_header_image_struct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_struct.cpp b/msat/hrit/MSG_header_image_struct.cpp
index 9097f13..6fa8ec9 100644
--- a/msat/hrit/MSG_header_image_struct.cpp
+++ b/msat/hrit/MSG_header_image_struct.cpp
@@ -46,7 +46,7 @@ void MSG_header_image_struct::read_from( unsigned const char_1 *buff )
   number_of_columns         = get_ui2(buff+4);
   number_of_lines           = get_ui2(buff+6);
   compression_flag          = (t_enum_MSG_image_compression) buff[8];
-  image_pixels              = number_of_columns * number_of_lines;
+  image_pixels              = (uint_8) number_of_columns * number_of_lines;
   image_size                = (image_pixels*number_of_bits_per_pixel) / 8;
   if ((image_pixels*number_of_bits_per_pixel) % 8) image_size ++;
   return;
-- 
2.43.0


From 0b3605a6225ba8429155f09c726dbe93a3264c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 02/77] fix: parse HRIT projection names within their 32 octets

The projection text is not terminated in the file and was searched past its
end, and every polar projection dereferenced a null pointer because the text
after the comma was looked for in the string already cut at the comma.
---
 msat/hrit/MSG_header_image_navig.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..3e59309 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -35,10 +35,17 @@
 MSG_header_image_navig::MSG_header_image_navig( )
 {
   satellite_h = 42164.0;
+  subsatellite_longitude = 0.0;
+  projection_plane = 0.0;
+  projection_longitude = 0.0;
 }
 
 MSG_header_image_navig::MSG_header_image_navig( unsigned const char_1 *buff )
 {
+  satellite_h = 42164.0;
+  subsatellite_longitude = 0.0;
+  projection_plane = 0.0;
+  projection_longitude = 0.0;
   read_from(buff);
 }
 
@@ -46,8 +53,9 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -70,10 +78,9 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     projection_name[5] = 0;
     pname = projection_name;
     tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
+    if (tmp != NULL) *tmp = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    if (tmp != NULL) sscanf(tmp+1, "%f", &projection_longitude);
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From 2d9e84028ce1d1411b5aa7bca6753d15e31ef0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 03/77] fix: refuse malformed HRIT headers with an exception

A bare throw outside of a handler terminated the process, record lengths
were not checked against the header, the line quality record was read
without an image structure or beyond its length, and the ancillary text was
printed without a terminator.
---
 msat/hrit/MSG_header.cpp                | 51 +++++++++++++------------
 msat/hrit/MSG_header_ancillary_text.cpp | 23 +++++------
 msat/hrit/MSG_header_image_datafunc.cpp | 18 +++------
 3 files changed, 41 insertions(+), 51 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..9d5f8a2 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
+#include <vector>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -74,50 +76,48 @@ MSG_header::~MSG_header( )
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
-  unsigned char_1 *hbuff;
 
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("cannot read HRIT primary header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file does not start with a primary header");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("HRIT primary header length mismatch");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+    throw std::runtime_error("HRIT total header length is too short");
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
-  if (!hbuff)
-  {
-    std::cerr << "Memory allocation error in MSG_header." << std::endl
-              << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
-  }
-  in.read((char_1 *) hbuff, hsize);
+  std::vector<unsigned char_1> hbuff(hsize);
+  in.read((char_1 *) hbuff.data( ), hsize);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("cannot read HRIT header body");
   }
-  unsigned char_1 *pnt = hbuff;
+  unsigned char_1 *pnt = hbuff.data( );
   size_t left = hsize;
   size_t hunk_size = 0;
   size_t hqlen = 0;
   while (left)
   {
+    // Every record starts with its type and length, and lies within the header
+    if (left < 3 || get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+      throw std::runtime_error("HRIT header record with invalid length");
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -125,7 +125,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
@@ -137,7 +137,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
@@ -156,7 +156,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
@@ -168,7 +168,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
@@ -187,7 +187,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         key = new MSG_header_key;
         key->read_from(pnt);
@@ -199,7 +199,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT header record length mismatch");
         }
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
@@ -207,21 +207,24 @@ void MSG_header::read_from( std::ifstream &in )
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        hqlen = get_ui2(pnt+1);
+        if (!image_structure)
+          throw std::runtime_error("HRIT line quality without image structure");
+        if (hqlen < 3 + (size_t) image_structure->number_of_lines * MSG_SEGMENT_QUALITY_RECORD_LEN)
+          throw std::runtime_error("HRIT line quality record is too short");
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
-        hqlen = get_ui2(pnt+1);
         pnt = pnt + hqlen;
         left = left - hqlen;
         break;
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("unknown HRIT header record type");
         break;
       }
    }
-   delete [ ] hbuff;
-   return;
+    return;
 }
 
 std::ostream& operator<< ( std::ostream& os, MSG_header &h )
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..1cf566c 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
 
@@ -51,21 +52,15 @@ MSG_header_ancillary_text::~MSG_header_ancillary_text( )
 
 void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
 {
-  size_t h_length = (size_t) get_ui2(buff+1) - 3;
-  if (h_length <= 0)
-  {
-    std::cerr << "Error: Data Function Header length invalid." << std::endl;
-    std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
-  }
-  ancillary_text = new char_1[h_length];
-  if (!ancillary_text)
-  {
-    std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
-    std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
-  }
+  size_t h_length = get_ui2(buff+1);
+  if (h_length < 3)
+    throw std::runtime_error("HRIT ancillary text header length invalid");
+  h_length -= 3;
+  delete [ ] ancillary_text;
+  ancillary_text = 0;
+  ancillary_text = new char_1[h_length + 1];
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..ba8670e 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
 MSG_header_image_datafunc::MSG_header_image_datafunc( )
@@ -44,20 +45,11 @@ MSG_header_image_datafunc::~MSG_header_image_datafunc( ) { }
 
 void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
 {
-  size_t h_length = (size_t) get_ui2(buff+1) - 2;
-  if (h_length <= 0)
-  {
-    std::cerr << "Error: Data Function Header length invalid." << std::endl;
-    std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
-  }
+  size_t h_length = get_ui2(buff+1);
+  if (h_length < 3)
+    throw std::runtime_error("HRIT data function header length invalid");
+  h_length -= 2;
   char_1 *tmpchar = new char_1[h_length];
-  if (!tmpchar)
-  {
-    std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
-    std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
-  }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
   data_definition_block = tmpchar;
-- 
2.43.0


From bcd229158ea9c44eb56763ad1e72db6cd90ff3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 04/77] fix: decode HRIT prologue, epilogue and key fields from
 their own octets

The resampling functions of all channels were read from the first one's
octet, the landmark spin rate started 2 octets late, the IMPF calibration
constants were read 8 octets apart, the DCR values were copied from the
start of the record past the end of the array, and key number and public
key were read one octet early.
---
 msat/hrit/MSG_data_GeometricProc.cpp     |  2 +-
 msat/hrit/MSG_data_IMPFConfiguration.cpp |  2 +-
 msat/hrit/MSG_data_NavigExtrResult.cpp   |  2 +-
 msat/hrit/MSG_data_RadiometricProc.cpp   | 10 ++++++++--
 msat/hrit/MSG_data_RadiometricProc.h     |  2 +-
 msat/hrit/MSG_data_key.cpp               |  6 +++---
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..2e130d5 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,7 +361,13 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  // 42 values of 12 bits, packed
+  for (int i = 0; i < 42; i ++)
+  {
+    const unsigned char_1 *p = buff+position+i*12/8;
+    DCRValues[i].Value = (i % 2) ? ((p[0] & 0x0f) << 8) | p[1]
+                                 : (p[0] << 4) | (p[1] >> 4);
+  }
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
@@ -442,7 +448,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_BlackBodyDataUsed &b )
   for (int i = 0; i < 15; i ++)
     os << "PU Bias " << std::setw(2) << std::setfill('0') << i+1
        << "         : " << b.PUBias[i] << std::endl;
-  for (int i = 0; i < 12; i ++)
+  for (int i = 0; i < 42; i ++)
     os << "DCR Values " << std::setw(2) << std::setfill('0') << i+1
        << "       : "
        << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i].Value
diff --git a/msat/hrit/MSG_data_RadiometricProc.h b/msat/hrit/MSG_data_RadiometricProc.h
index 72af7b7..9f3c204 100644
--- a/msat/hrit/MSG_data_RadiometricProc.h
+++ b/msat/hrit/MSG_data_RadiometricProc.h
@@ -131,7 +131,7 @@ class MSG_BlackBodyDataUsed {
     uint_2                               PUGain[42];
     uint_2                               PUOffset[27];
     uint_2                               PUBias[15];
-    t_MSG_DCR_Value                      DCRValues[12];
+    t_MSG_DCR_Value                      DCRValues[42];
     t_enum_MSG_DeepSpace_Window_Position XDeepSpaceWindowPosition;
     uint_2                               FCUNominalColdFocalPlaneTemp;
     uint_2                               FCURedundantColdFocalPlaneTemp;
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..a0a6f1c 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -60,8 +60,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
@@ -70,7 +70,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr(k.Public_key, strnlen(k.Public_key, sizeof(k.Public_key)));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
-- 
2.43.0


From 9a5447124092d47b9d668ca17a885af0cb303652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 05/77] fix: radiance_to_reflectance refused every channel and
 returned cos(80) in twilight

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 2e130d5..c8c882e 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <iomanip>
 #include <cmath>
+#include <stdexcept>
 #include <msat/facts.h>
 #include <msat/hrit/MSG_data_RadiometricProc.h>
 
@@ -670,11 +671,8 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
-  {
-    std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
-  }
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
+    throw std::runtime_error("wrong channel number for reflectance: " + std::to_string(chnum));
 
   int jd = msat::facts::jday(year, month, day);
   double esd = 1.0 - 0.0167 * cos( 2.0 * M_PI * (jd - 3) / 365.0);
@@ -686,6 +684,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From f5f78fb4b3e714ffbcc54b4e6700d70dea4cef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 06/77] fix: refuse HRIT data fields that are truncated or miss
 their header records

A short data field was decoded past its end, a read error or unknown file
type called std::terminate through a bare throw, records missing from the
header were dereferenced, and MSG_data(in, header) left its pointers
uninitialised. The IMPF configuration was printed but never read.
---
 msat/hrit/MSG_data.cpp       | 151 ++++++++++++++++++++---------------
 msat/hrit/MSG_data_gts.cpp   |   4 +-
 msat/hrit/MSG_data_image.cpp |   4 +-
 msat/hrit/MSG_data_key.cpp   |   4 +-
 msat/hrit/MSG_data_text.cpp  |   6 +-
 5 files changed, 94 insertions(+), 75 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..bdedc6a 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -29,6 +29,9 @@
 
 #include <string>
 #include <fstream>
+#include <cstring>
+#include <memory>
+#include <stdexcept>
 #include <msat/hrit/MSG_data.h>
 
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
@@ -65,6 +68,7 @@ MSG_data::MSG_data( )
 }
 
 MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
+  : MSG_data( )
 {
   read_from(in, header);
 }
@@ -80,10 +84,43 @@ MSG_data::~MSG_data( )
   if (sdsprologue) delete sdsprologue;
 }
 
+// Length of the parts of a SEVIRI prologue, without and with the IMPF
+// configuration, and of an epilogue with its version octet
+#define MSG_PROLOGUE_LEN (MSG_SATELLITE_STATUS_LEN + MSG_IMAGE_ACQUISITION_LEN \
+                        + MSG_CELESTIAL_EVENTS_LEN + MSG_IMAGE_DESCRIPTION_LEN \
+                        + MSG_DATA_RADIOMETRIC_PROC_LEN \
+                        + MSG_GEOMETRIC_PROCESSING_LEN)
+#define MSG_EPILOGUE_LEN (1 + MSG_IMAGE_PRODUCT_STATS_LEN \
+                        + MSG_NAVIGATION_EXTR_RESULT_LEN \
+                        + MSG_RADIOMETRIC_QUALITY_LEN \
+                        + MSG_GEOMETRIC_QUALITY_LEN \
+                        + MSG_TIMELINESS_COMPLETENESS_LEN)
+// Common header of a foreign satellite prologue, and the fixed part of its
+// product specific header
+#define MSG_SGS_COMMON_LEN   46
+#define MSG_SGS_SPECIFIC_LEN 8
+
+static std::unique_ptr<unsigned char_1[]> read_data_field( std::ifstream &in,
+                                                           size_t dsize )
+{
+  std::unique_ptr<unsigned char_1[]> res(new unsigned char_1[dsize]);
+  in.read((char *) res.get( ), dsize);
+  if (in.fail( ))
+    throw std::runtime_error("Read error from HRIT file: Data field.");
+  return res;
+}
+
+static void require( bool cond, const char *msg )
+{
+  if (! cond)
+    throw std::runtime_error(std::string("Invalid HRIT file: ") + msg);
+}
+
 void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
   size_t dpos;
+  std::unique_ptr<unsigned char_1[]> dfield;
   unsigned char_1 *dbuff = 0;
   unsigned char_1 *dpnt = 0;
 
@@ -91,17 +128,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
-      image = new MSG_data_image;
-
+      require(header.image_structure, "image data without image structure");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
 
+      image = new MSG_data_image;
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
         image->len = dsize;
@@ -110,6 +142,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       }
       else
       {
+        require(header.segment_id, "compressed image without segment identification");
         MSG_data_image_encoded encoded;
         encoded.data   = dbuff;
         encoded.len    = dsize;
@@ -123,14 +156,10 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_GTS_MESSAGE:
 
+      require(header.annotation, "GTS message without annotation");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
       {
@@ -145,13 +174,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ALPHANUMERIC_TEXT:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
 
@@ -161,34 +185,24 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
 
       break;
 
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
+      require(header.annotation, "prologue without annotation");
       dsize = header.data_field_length / 8;
-
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
-        prologue = new MSG_data_level_15_header;
-
+        require(dsize >= MSG_PROLOGUE_LEN, "prologue data field too short");
+        prologue = new MSG_data_level_15_header( );
 
         dpnt = dbuff;
         dpos = prologue->sat_status.read_from(dpnt);
@@ -203,6 +217,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         dpnt += dpos;
         dpos = prologue->geometric_proc.read_from(dpnt);
         dpnt += dpos;
+        // The IMPF configuration may be missing
+        if (dsize >= MSG_PROLOGUE_LEN + MSG_IMPF_CONFIGURATION_LEN)
+        {
+          dpos = prologue->IMPF_config.read_from(dpnt);
+          dpnt += dpos;
+        }
       }
       else if (header.annotation->product_id_1.find("GOES")
                       != std::string::npos ||
@@ -215,6 +235,14 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
                header.annotation->product_id_1.find("METOP")
                       != std::string::npos)
       {
+        require(dsize >= MSG_SGS_COMMON_LEN + MSG_SGS_SPECIFIC_LEN,
+                "foreign satellite prologue data field too short");
+        {
+          size_t speclen = get_ui4(dbuff + MSG_SGS_COMMON_LEN + 4);
+          require(speclen >= MSG_SGS_SPECIFIC_LEN
+                  && speclen <= dsize - MSG_SGS_COMMON_LEN,
+                  "foreign satellite product header does not fit the data field");
+        }
         dpnt = dbuff;
         sdsprologue = new MSG_data_SGS_header;
         dpos = sdsprologue->read_from(dpnt);
@@ -231,18 +259,15 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
 
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
+      require(header.annotation, "epilogue without annotation");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        require(dsize >= MSG_EPILOGUE_LEN, "epilogue data field too short");
         epilogue = new MSG_data_level_15_trailer;
 
         dpnt = dbuff+1;
@@ -268,14 +293,10 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_BINARY_MESSAGE:
 
+      require(header.annotation, "binary message without annotation");
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dfield = read_data_field(in, dsize);
+      dbuff = dfield.get( );
       {
         std::ofstream os;
         std::string outname;
@@ -283,20 +304,17 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error("Cannot write " + outname);
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
       break;
 
     default:
-      std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
-      break;
+      throw std::runtime_error("Unknown MSG file type "
+                               + std::to_string((int) header.f_typecode));
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
@@ -308,22 +326,23 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
   switch (h.typecode)
   {
     case MSG_FILE_IMAGE_DATA:
-      os << *(h.image);
+      if (h.image) os << *(h.image);
       break;
     case MSG_FILE_GTS_MESSAGE:
-      os << *(h.gts_message);
+      if (h.gts_message) os << *(h.gts_message);
       break;
     case MSG_FILE_ALPHANUMERIC_TEXT:
-      os << *(h.text_message);
+      if (h.text_message) os << *(h.text_message);
       break;
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
-      os << *(h.key_message);
+      if (h.key_message) os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      if (h.prologue) os << *(h.prologue);
+      if (h.sdsprologue) os << *(h.sdsprologue);
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue) os << *(h.epilogue);
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..2f36bb3 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_gts.h>
 
 MSG_data_gts::MSG_data_gts( )
@@ -52,8 +53,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   msize = datasize;
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
-    std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("Invalid GTS message(s) size.");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_image.cpp b/msat/hrit/MSG_data_image.cpp
index b642b75..0b9cad5 100644
--- a/msat/hrit/MSG_data_image.cpp
+++ b/msat/hrit/MSG_data_image.cpp
@@ -29,6 +29,7 @@
 
 #include <vector>
 #include <cstring>
+#include <stdexcept>
 
 #include <Compress.h>
 #include <CompressT4.h>
@@ -63,8 +64,7 @@ void MSG_data_image_encoded::decode( MSG_data_image *dec )
       COMP::DecompressT4(cdata, udata, QualityInfo);
       break;
     default:
-      std::cerr << "Unknown compression used." << std::endl;
-      throw;
+      throw std::runtime_error("Unknown compression used.");
   }
 
   COMP::CImage cimg(udata);
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index a0a6f1c..d7c8cf1 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_key.h>
 
 MSG_data_key::MSG_data_key( )
@@ -51,8 +52,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   nkeys = datasize / MSG_KEY_MESSAGE_LEN;
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
-    std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("Key message number or size invalid.");
   }
 
   keys = new MSG_encryption_key[nkeys];
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..e3f576b 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_text.h>
 
 MSG_data_text::MSG_data_text( )
@@ -52,8 +53,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   tsize = datasize;
   if (tsize == 0)
   {
-    std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("Invalid TEXT message size.");
   }
 
   tbuff = new unsigned char_1[tsize];
@@ -91,7 +91,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_text &t )
      << "-           MSG ALPHANUMERIC TEXT FILE               -" << std::endl
      << "------------------------------------------------------" << std::endl;
   os << "****************" << std::endl;
-  os << t.tbuff << std::endl;
+  os.write((const char *) t.tbuff, t.tsize) << std::endl;
   os << "****************" << std::endl;
   return os;
 }
-- 
2.43.0


From a405ef634047976119c072a382ceb1d11f0fb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 07/77] fix: parse generalized times within their 15 octets

---
 msat/hrit/MSG_time_cds.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..6c17073 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -338,7 +338,11 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
-  sscanf((char *) buff, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
+  // The 15 octets of the field are not terminated
+  char text[16];
+  memcpy(text, buff, 15);
+  text[15] = 0;
+  sscanf(text, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
          &generalized_time.tm_mon,  &generalized_time.tm_mday,
          &generalized_time.tm_hour, &generalized_time.tm_min,
          &generalized_time.tm_sec);
-- 
2.43.0


From abfa67b64549287c24e2accf4c440ef737279c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 08/77] fix: refuse xRIT segments without the records or pixels
 that reading them needs

---
 msat/xrit/dataaccess.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..34f1b2f 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -24,6 +24,7 @@
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
 #include <stdexcept>
+#include <memory>
 
 using namespace std;
 
@@ -66,6 +67,11 @@ void DataAccess::read_file(const std::string& file, MSG_header& head, MSG_data&
 
 void DataAccess::scanSegment(const MSG_header& header)
 {
+    if (!header.segment_id || !header.image_structure || !header.image_navigation)
+        throw std::runtime_error("segment header misses segment identification, image structure or image navigation");
+    if (header.image_structure->number_of_lines == 0)
+        throw std::runtime_error("segment has no lines");
+
     // Decoding information
     int totalsegs = header.segment_id->planned_end_segment_sequence_number;
     seglines = header.image_structure->number_of_lines;
@@ -101,6 +107,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id)
+            throw std::runtime_error(i + ": segment identification is missing");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
@@ -118,6 +126,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
 
     if (hrv)
     {
+        if (!epi.epilogue)
+            throw std::runtime_error("epilogue is missing or of an unsupported satellite");
         MSG_ActualL15CoverageHRV& cov = epi.epilogue->product_stats.ActualL15CoverageHRV;
         LowerEastColumnActual = cov.LowerEastColumnActual;
         LowerNorthLineActual = cov.LowerNorthLineActual;
@@ -179,10 +189,21 @@ MSG_data* DataAccess::segment(size_t idx) const
         // Load the segment
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
+        std::unique_ptr<MSG_data> data(new MSG_data);
+        read_file(segnames[idx].c_str(), header, *data);
+
+        // Make sure it has all the pixels that line_read is going to access
+        if (!data->image)
+            throw std::runtime_error(segnames[idx] + ": not an image segment");
+        size_t npixels = data->image->len;
+        if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
+            npixels /= sizeof(MSG_SAMPLE);
+        if (npixels < npixperseg)
+            throw std::runtime_error(segnames[idx] + ": segment is too small");
+
         scache new_scache;
-        new_scache.segment = new MSG_data;
+        new_scache.segment = data.release();
         new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
 
         // Put it in the front
         segcache.push_front(new_scache);
-- 
2.43.0


From 3a391894602140558a671390581dcff8efbbbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 09/77] fix: reading a second HRIT header must not keep records
 of the first

---
 msat/hrit/MSG_header.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 9d5f8a2..e649605 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -73,10 +73,27 @@ MSG_header::~MSG_header( )
   if (segment_quality) delete segment_quality;
 }
 
+template<typename T> static void discard( T *&record )
+{
+  delete record;
+  record = 0;
+}
+
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
 
+  // Do not keep records of a file that was read before
+  discard(image_structure);
+  discard(image_navigation);
+  discard(image_data_function);
+  discard(annotation);
+  discard(timestamp);
+  discard(ancillary_text);
+  discard(key);
+  discard(segment_id);
+  discard(segment_quality);
+
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
-- 
2.43.0


From f37f0ef8daa42b66f58166f35d76486c1c3e7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 10/77] fix: xRIT driver must refuse damaged products without
 exceptions or wild accesses

A product without a usable prologue, with a channel or a number of bits per
pixel out of range, or with segments wider than the image was dereferenced or
indexed out of bounds, and exceptions raised while opening or reading crossed
GDAL, which is not built to let them through.
---
 gdal/xrit/dataset.cpp    |  5 +++++
 gdal/xrit/rasterband.cpp | 36 ++++++++++++++++++++++++++++++++----
 gdal/xrit/rasterband.h   |  8 ++++++++
 gdal/xrit/xrit.cpp       | 22 +++++++++++++++++-----
 4 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/gdal/xrit/dataset.cpp b/gdal/xrit/dataset.cpp
index f013e7a..b025f59 100644
--- a/gdal/xrit/dataset.cpp
+++ b/gdal/xrit/dataset.cpp
@@ -36,6 +36,11 @@ bool XRITDataset::init()
     MSG_data EPI_data;
     MSG_header header;
     da.scan(fa, PRO_data, EPI_data, header);
+    if (!PRO_data.prologue)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "prologue is missing or of an unsupported satellite");
+        return false;
+    }
 
     if (da.hrv)
     {
diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..b98c0df 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -2,13 +2,14 @@
 #include "dataset.h"
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include <stdexcept>
 #include <stdint.h>
 
 namespace msat {
 namespace xrit {
 
 XRITRasterBand::XRITRasterBand(XRITDataset* ds, int idx)
-    : xds(ds), calibration(0)
+    : xds(ds), calibration(0), ncalibration(0)
 {
     poDS = ds;
     nBand = idx;
@@ -32,6 +33,11 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
 
     /// Channel
     channel_id = header.segment_id->spectral_channel_id;
+    if (channel_id < MSG_SEVIRI_1_5_VIS_0_6 || channel_id > MSG_SEVIRI_1_5_HRV)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Invalid spectral channel: %d", channel_id);
+        return false;
+    }
     char buf[25];
     snprintf(buf, 25, "%d", channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL_ID, buf, MD_DOMAIN_MSAT);
@@ -48,6 +54,12 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     if (!linear)
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
+        if (bpp < 1 || bpp > 16)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "Invalid number of bits per pixel: %d", bpp);
+            return false;
+        }
+        ncalibration = (size_t)1 << bpp;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
     }
 
@@ -77,7 +89,24 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (linestart > (size_t)nBlockXSize || xds->da.columns > nBlockXSize - linestart)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Image line does not fit the image");
+        return CE_Failure;
+    }
 
+    // Exceptions must not cross GDAL
+    try {
+        read_line(linestart, yblock, buf);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return CE_Failure;
+    }
+    return CE_None;
+}
+
+void XRITRasterBand::read_line(size_t linestart, int yblock, void* buf)
+{
     if (linear)
     {
         bzero(buf, nBlockXSize * sizeof(uint16_t));
@@ -90,15 +119,14 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
-            float res = calibration[rawbuf[i]];
+            // Samples outside of the calibration table are not valid
+            float res = rawbuf[i] < ncalibration ? calibration[rawbuf[i]] : 0;
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
         }
         for (size_t i = linestart + xds->da.columns; i < (size_t)nBlockXSize; ++i)
             fbuf[i] = 0.0;
     }
-
-    return CE_None;
 }
 
 double XRITRasterBand::GetOffset(int* pbSuccess)
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..72c0a9b 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,8 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    /// Number of items in calibration
+    size_t ncalibration;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
@@ -28,6 +30,12 @@ public:
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override;
 
+protected:
+    /// Read a scanline, placing its first pixel at column linestart
+    void read_line(size_t linestart, int yblock, void* buf);
+
+public:
+
     double GetOffset(int* pbSuccess=NULL) override;
     double GetScale(int* pbSuccess=NULL) override;
     double GetNoDataValue(int* pbSuccess=NULL) override;
diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..99a7404 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -6,6 +6,7 @@
 #include "gdal/utils.h"
 #include <string>
 #include <memory>
+#include <stdexcept>
 #include <cctype>
 
 using namespace std;
@@ -15,12 +16,8 @@ namespace xrit {
 
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
-GDALDataset* XRITOpen(GDALOpenInfo* info)
+static GDALDataset* open_product(GDALOpenInfo* info)
 {
-    // Se if it looks like a XRIT filename
-    if (!msat::xrit::isValid(info->pszFilename))
-        return NULL;
-
     // Check for a special product suffix referring to a computed version of
     // the channel
     bool do_reflectance = false;
@@ -77,6 +74,21 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
     }
 }
 
+GDALDataset* XRITOpen(GDALOpenInfo* info)
+{
+    // Se if it looks like a XRIT filename
+    if (!msat::xrit::isValid(info->pszFilename))
+        return NULL;
+
+    // Exceptions must not cross GDAL
+    try {
+        return open_product(info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
+}
+
 }
 }
 
-- 
2.43.0


From 6e20258e25c9086065424010b414a61596915d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 11/77] fix: MSG_native_linedata: copies of a line own their
 samples

The lines kept by MSG_native shared the buffer of the local line they were
copied from, which was freed when reading ended.
---
 msat/msg-native/MSG_native_line.cpp | 23 +++++++++++++++++++++++
 msat/msg-native/MSG_native_line.h   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..c4340df 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,8 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstring>
+#include <utility>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 
@@ -31,6 +33,25 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata(const MSG_native_linedata& o)
+{
+  datasize = o.data_10bit ? o.datasize : 0;
+  data_10bit = 0;
+  if (o.data_10bit)
+  {
+    data_10bit = new unsigned char[datasize];
+    memcpy(data_10bit, o.data_10bit, datasize);
+  }
+}
+
+MSG_native_linedata& MSG_native_linedata::operator=(const MSG_native_linedata& o)
+{
+  MSG_native_linedata copy(o);
+  std::swap(data_10bit, copy.data_10bit);
+  std::swap(datasize, copy.datasize);
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -200,6 +221,8 @@ void MSG_native_line::read( std::ifstream &in )
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw;
   }
+  if (data.data_10bit) delete [ ] data.data_10bit;
+  data.data_10bit = 0;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..4dfc132 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata(const MSG_native_linedata& o);
+    MSG_native_linedata& operator=(const MSG_native_linedata& o);
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From 0fee50b844a125a1f02b0ac174ed41280eaee55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 12/77] fix: MSG native readers: report bad files with an
 exception

A throw without a current exception terminates the process; the check of the
line packet size could not trigger as the size is unsigned.
---
 msat/msg-native/MSG_native_header.cpp  | 16 ++++++----------
 msat/msg-native/MSG_native_line.cpp    | 17 +++++++----------
 msat/msg-native/MSG_native_trailer.cpp | 16 +++++-----------
 3 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..71171ed 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
@@ -89,30 +90,26 @@ void MSG_native_header::read( std::ifstream &in )
   in.read((char *) ubuf, mph_sph_header.mph_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header");
   }
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -132,8 +129,7 @@ void MSG_native_header::read( std::ifstream &in )
   p += MSG_IMPF_CONFIGURATION_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index c4340df..1715ae7 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <utility>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
@@ -211,31 +212,27 @@ void MSG_native_line::read( std::ifstream &in )
   in.read((char *) lbuf, pkh.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < 15 + (unsigned long) header.lhlen)
   {
-    std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size");
   }
+  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   if (data.data_10bit) delete [ ] data.data_10bit;
   data.data_10bit = 0;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..d6c172e 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_trailer.h>
 
 void MSG_native_trailer::read( std::ifstream &in )
@@ -32,24 +33,19 @@ void MSG_native_trailer::read( std::ifstream &in )
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Trailer Size: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer Size: Read error from Native file: Level 1.5 Trailer");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Trailer: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer: Read error from Native file: Level 1.5 Trailer");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -65,9 +61,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   p += MSG_TIMELINESS_COMPLETENESS_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Trailer checksum: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer checksum: Read error from Native file: Level 1.5 Trailer");
   }
 
   return;
-- 
2.43.0


From 10107bd9f5c8795dcba5723b81a6d9c1cb14ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 13/77] fix: MSG_native_linedata: do not unpack beyond the end
 of the line

Lines whose size is not a multiple of five octets were read and written up to
the end of the group.
---
 msat/msg-native/MSG_native_line.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 1715ae7..adcde3d 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -188,7 +188,7 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
   unsigned int ipos = 0;
-  while (ipos < datasize)
+  while (ipos + 5 <= datasize)
   {
     ps[0] = (((unsigned short) pc[0]      ) << 2) |
             (((unsigned short) pc[1]      ) >> 6);
@@ -202,6 +202,10 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
     ipos += 5;
     ps   += 4;
   }
+  // samples of an incomplete group of five octets
+  for (long i = 0; i < *nsample % 4; i ++)
+    ps[i] = ((((unsigned short) pc[i]) << (2 + 2 * i)) |
+             (((unsigned short) pc[i + 1]) >> (6 - 2 * i))) & 1023;
   return;
 }
 
-- 
2.43.0


From 79f44c57a6c78efdad3bc95087b7783c2c799bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 14/77] fix: U_MARF_Header: read text fields up to their own
 width

Fields without a terminator continued into the following ones and past the
end of the buffer.
---
 msat/msg-native/MSG_native_header.cpp | 114 ++++++++++++++------------
 1 file changed, 61 insertions(+), 53 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index 71171ed..935f8af 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,64 +21,72 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <cstring>
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
+// text of a fixed width field, which may or may not be terminated
+static std::string text(const unsigned char *p, size_t width)
+{
+  const void *end = memchr(p, 0, width);
+  return std::string((const char *) p, end ? (const char *) end - (const char *) p : width);
+}
+
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
-  mphinfo[0]   = (char *) buf;
-  mphinfo[1]   = (char *) buf+80;
-  mphinfo[2]   = (char *) buf+160;
-  mphinfo[3]   = (char *) buf+240;
-  mphinfo[4]   = (char *) buf+320;
-  mphinfo[5]   = (char *) buf+400;
-  mphinfo[6]   = (char *) buf+480;
-  mphinfo[6]  += (char *) buf+526;
-  mphinfo[7]   = (char *) buf+542;
-  mphinfo[7]  += (char *) buf+588;
-  mphinfo[8]   = (char *) buf+604;
-  mphinfo[8]  += (char *) buf+650;
-  mphinfo[9]   = (char *) buf+666;
-  mphinfo[9]  += (char *) buf+712;
-  mphinfo[10]  = (char *) buf+728;
-  mphinfo[10] += (char *) buf+774;
-  mphinfo[11]  = (char *) buf+2154;
-  mphinfo[12]  = (char *) buf+2234;
-  mphinfo[13]  = (char *) buf+2314;
-  mphinfo[14]  = (char *) buf+2394;
-  mphinfo[15]  = (char *) buf+2474;
-  mphinfo[16]  = (char *) buf+2554;
-  mphinfo[17]  = (char *) buf+2634;
-  mphinfo[18]  = (char *) buf+2714;
-  mphinfo[19]  = (char *) buf+2794;
-  mphinfo[20]  = (char *) buf+2874;
-  mphinfo[21]  = (char *) buf+2954;
-  mphinfo[22]  = (char *) buf+3034;
-  mphinfo[23]  = (char *) buf+3114;
-  mphinfo[24]  = (char *) buf+3194;
-  mphinfo[25]  = (char *) buf+3274;
-  mphinfo[26]  = (char *) buf+3354;
-  mphinfo[27]  = (char *) buf+3434;
-  mphinfo[28]  = (char *) buf+3514;
-  mphinfo[29]  = (char *) buf+3594;
-  mphinfo[30]  = (char *) buf+3674;
-  mphinfo[31]  = (char *) buf+3754;
-  mphinfo[32]  = (char *) buf+3834;
-  mphinfo[33]  = (char *) buf+3914;
-  mphinfo[34]  = (char *) buf+3994;
-  mphinfo[35]  = (char *) buf+4074;
-  mphinfo[36]  = (char *) buf+4154;
-  mphinfo[37]  = (char *) buf+4234;
-  mphinfo[38]  = (char *) buf+4314;
-  mphinfo[39]  = (char *) buf+4394;
-  mphinfo[40]  = (char *) buf+4474;
-  mphinfo[41]  = (char *) buf+4554;
-  mphinfo[42]  = (char *) buf+4634;
-  mphinfo[43]  = (char *) buf+4714;
-  mphinfo[44]  = (char *) buf+4794;
-  mphinfo[45]  = (char *) buf+4874;
-  mphinfo[46]  = (char *) buf+4954;
-  mphinfo[47]  = (char *) buf+5034;
+  mphinfo[0]   = text(buf, 80);
+  mphinfo[1]   = text(buf+80, 80);
+  mphinfo[2]   = text(buf+160, 80);
+  mphinfo[3]   = text(buf+240, 80);
+  mphinfo[4]   = text(buf+320, 80);
+  mphinfo[5]   = text(buf+400, 80);
+  mphinfo[6]   = text(buf+480, 46);
+  mphinfo[6]  += text(buf+526, 16);
+  mphinfo[7]   = text(buf+542, 46);
+  mphinfo[7]  += text(buf+588, 16);
+  mphinfo[8]   = text(buf+604, 46);
+  mphinfo[8]  += text(buf+650, 16);
+  mphinfo[9]   = text(buf+666, 46);
+  mphinfo[9]  += text(buf+712, 16);
+  mphinfo[10]  = text(buf+728, 46);
+  mphinfo[10] += text(buf+774, 16);
+  mphinfo[11]  = text(buf+2154, 80);
+  mphinfo[12]  = text(buf+2234, 80);
+  mphinfo[13]  = text(buf+2314, 80);
+  mphinfo[14]  = text(buf+2394, 80);
+  mphinfo[15]  = text(buf+2474, 80);
+  mphinfo[16]  = text(buf+2554, 80);
+  mphinfo[17]  = text(buf+2634, 80);
+  mphinfo[18]  = text(buf+2714, 80);
+  mphinfo[19]  = text(buf+2794, 80);
+  mphinfo[20]  = text(buf+2874, 80);
+  mphinfo[21]  = text(buf+2954, 80);
+  mphinfo[22]  = text(buf+3034, 80);
+  mphinfo[23]  = text(buf+3114, 80);
+  mphinfo[24]  = text(buf+3194, 80);
+  mphinfo[25]  = text(buf+3274, 80);
+  mphinfo[26]  = text(buf+3354, 80);
+  mphinfo[27]  = text(buf+3434, 80);
+  mphinfo[28]  = text(buf+3514, 80);
+  mphinfo[29]  = text(buf+3594, 80);
+  mphinfo[30]  = text(buf+3674, 80);
+  mphinfo[31]  = text(buf+3754, 80);
+  mphinfo[32]  = text(buf+3834, 80);
+  mphinfo[33]  = text(buf+3914, 80);
+  mphinfo[34]  = text(buf+3994, 80);
+  mphinfo[35]  = text(buf+4074, 80);
+  mphinfo[36]  = text(buf+4154, 80);
+  mphinfo[37]  = text(buf+4234, 80);
+  mphinfo[38]  = text(buf+4314, 80);
+  mphinfo[39]  = text(buf+4394, 80);
+  mphinfo[40]  = text(buf+4474, 80);
+  mphinfo[41]  = text(buf+4554, 80);
+  mphinfo[42]  = text(buf+4634, 80);
+  mphinfo[43]  = text(buf+4714, 80);
+  mphinfo[44]  = text(buf+4794, 80);
+  mphinfo[45]  = text(buf+4874, 80);
+  mphinfo[46]  = text(buf+4954, 80);
+  mphinfo[47]  = text(buf+5034, 80);
   return;
 }
 
-- 
2.43.0


From 0212a3fbe5d645c64240ab488ba0694c6542d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 15/77] fix: MSG_native: check the text header, keep samples
 within the image

Missing numbers were used uninitialised, a long band selection overran its
buffer, and lines longer or more than announced were written past the image.
---
 msat/msg-native/MSG_native.cpp | 75 +++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..e9a15df 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -21,9 +21,14 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <climits>
 #include <iostream>
 #include <fstream>
+#include <algorithm>
+#include <cstdio>
 #include <cstring>
+#include <stdexcept>
+#include <string>
 #include <msat/msg-native/MSG_native.h>
 
 MSG_native::MSG_native( )
@@ -77,22 +82,32 @@ MSG_native::~MSG_native( )
   close( );
 }
 
+// a number of the text header
+static long header_number(const std::string &text, const char *format = "%*s : %ld")
+{
+  long value;
+  if (sscanf(text.c_str( ), format, &value) != 1 || value < 0 || value > INT_MAX)
+    throw std::runtime_error("Read error from Native file: U-MARF Header: " + text);
+  return value;
+}
+
 void MSG_native::read( )
 {
   header.read(in);
-  sscanf(header.mph_sph_header.mphinfo[8].c_str( ),
-          "%*s : %*d %ld\n", &headerpos);
-  sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
-          "%*s : %*d %ld\n", &datapos);
-  sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
-          "%*s : %*d %ld\n", &trailerpos);
+  headerpos = header_number(header.mph_sph_header.mphinfo[8],
+          "%*s : %*d %ld\n");
+  datapos = header_number(header.mph_sph_header.mphinfo[9],
+          "%*s : %*d %ld\n");
+  trailerpos = header_number(header.mph_sph_header.mphinfo[10],
+          "%*s : %*d %ld\n");
   in.seekg(trailerpos, std::ios::beg);
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
-  char bandsel[16];
-  sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+  char bandsel[16] = "";
+  if (sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
+             "%*s : %15s", bandsel) != 1)
+    throw std::runtime_error("Read error from Native file: Selected bands");
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -101,19 +116,13 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
-  sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
-         "%*s : %ld", &startl);
-  sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
-         "%*s : %ld", &stopl);
-  sscanf(header.mph_sph_header.mphinfo[44].c_str( ),
-         "%*s : %ld", &nlines);
-  sscanf(header.mph_sph_header.mphinfo[42].c_str( ),
-         "%*s : %ld", &startc);
-  sscanf(header.mph_sph_header.mphinfo[43].c_str( ),
-         "%*s : %ld", &stopc);
-  sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
-         "%*s : %ld", &ncols);
+  long nlines, ncols, startl, stopl, startc, stopc;
+  startl = header_number(header.mph_sph_header.mphinfo[40]);
+  stopl = header_number(header.mph_sph_header.mphinfo[41]);
+  nlines = header_number(header.mph_sph_header.mphinfo[44]);
+  startc = header_number(header.mph_sph_header.mphinfo[42]);
+  stopc = header_number(header.mph_sph_header.mphinfo[43]);
+  ncols = header_number(header.mph_sph_header.mphinfo[45]);
 
   MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
@@ -144,10 +153,8 @@ void MSG_native::read( )
   }
   if (selected_channel[HRV_CHANNEL])
   {
-    sscanf(header.mph_sph_header.mphinfo[46].c_str( ),
-           "%*s : %ld", &nlines);
-    sscanf(header.mph_sph_header.mphinfo[47].c_str( ),
-           "%*s : %ld", &ncols);
+    nlines = header_number(header.mph_sph_header.mphinfo[46]);
+    ncols = header_number(header.mph_sph_header.mphinfo[47]);
     numberlines[HRV_CHANNEL] = nlines;
     startline[HRV_CHANNEL] = startl;
     endline[HRV_CHANNEL] = stopl;
@@ -189,20 +196,19 @@ bool MSG_native::pgmdump(int ic, char *filename)
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
 
-  unsigned short *s = 0;
   long ns;
 
   std::list <MSG_native_line>::iterator p = line[ic].begin( );
   while (p != line[ic].end( ))
   {
+    unsigned short *s = 0;
     p->data.to_sample(&s, &ns);
     os.write((char *) s, ns*sizeof(short));
+    delete [ ] s;
     p ++;
   }
   os.close( );
 
-  delete [ ] s;
-
   return true;
 }
 
@@ -223,19 +229,20 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
   long px = numbercolumns[channel];
+  long size = numberlines[channel]*px;
 
-  unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
+  unsigned short *s = new unsigned short[size]( );
   long ns;
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
   int count = 0;
-  while (p != line[channel].end( ))
+  while (p != line[channel].end( ) && count < numberlines[channel])
   {
-    sp = s+count*px;
+    unsigned short *sp = 0;
     p->data.to_sample(&sp, &ns);
+    memcpy(s+count*px, sp, std::min(ns, px)*sizeof(short));
+    delete [ ] sp;
     p ++;
     count ++;
   }
-- 
2.43.0


From 753b4059a1d5d0f548b8fa11a8e2b0ecdba73fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 16/77] fix: HRI_machine: convert IBM floats from 32 and 64 bit
 words

---
 msat/hri/HRI_machine.cpp | 57 +++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..03d5c27 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_machine.h>
 #include <cstdint>
+#include <cstring>
 
 HRI_machine::HRI_machine()
 {
@@ -141,9 +142,9 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
+static inline void leftshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -159,9 +160,9 @@ static inline void leftshift(unsigned long *pnt, int n)
    return;
 }
 
-static inline void rightshift(unsigned long *pnt, int n)
+static inline void rightshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -183,26 +184,29 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
         uint32_t i;
         float f;
     } uval;
-    unsigned long *pnt, sign, fraction;
+    uint32_t pnt[1], sign, fraction;
     long exponent;
     unsigned char swp[4];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     memcpy(pnt, buff, 4);
    else
    {
      swp[3] = buff[0];
      swp[2] = buff[1];
      swp[1] = buff[2];
      swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
+     memcpy(pnt, swp, 4);
    }
 
-   if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
+   if ((pnt[0] & 0x00FFFFFF) == 0)
+   {
+      uval.i = pnt[0] & 0x80000000;
+      return uval.f;
+   }
 
    sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction =   pnt[0] & 0x00FFFFFF;
 
    if (exponent >= 0)
@@ -211,13 +215,10 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
       exponent = -((-exponent) << 2);
 
    exponent = exponent - 1;
-   if (fraction)
+   while ((fraction & 0x00800000) == 0)
    {
-      while ((fraction & 0x00800000) == 0)
-      {
-         fraction <<= 1;
-         exponent = exponent - 1;
-      }
+      fraction <<= 1;
+      exponent = exponent - 1;
    }
 
    fraction &= 0x007FFFFF;
@@ -234,7 +235,7 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
     int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
+    uint32_t sign, fraction[2], pnt[2];
     union {
         uint32_t i[2];
         double d;
@@ -243,7 +244,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
     unsigned char swp[8];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     memcpy(pnt, buff, 8);
    else
    {
      swp[3] = buff[0];
@@ -254,22 +255,21 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
      swp[6] = buff[5];
      swp[5] = buff[6];
      swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
+     memcpy(pnt, swp, 8);
    }
 
    if (isbig) { idxl = 0; idxh = 1; }
    else       { idxl = 1; idxh = 0; }
 
-   tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
+   if ((pnt[0] & 0x00FFFFFF) == 0 && pnt[1] == 0)
    {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
+     uval.i[idxl] = pnt[0] & 0x80000000;
+     uval.i[idxh] = 0;
      return uval.d;
    }
 
    sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent    = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction[0] = pnt[0] & 0x00FFFFFF;
    fraction[1] = pnt[1];
 
@@ -278,13 +278,10 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
    else
       exponent = -((-exponent) << 2);
 
-   if (fraction[0])
+   while ((fraction[0] & 0x01000000) == 0)
    {
-      while ((fraction[0] & 0x01000000) == 0)
-      {
-         leftshift(fraction, 1);
-         exponent -= 1;
-      }
+      leftshift(fraction, 1);
+      exponent -= 1;
    }
 
    rightshift(fraction, 4);
-- 
2.43.0


From a55c5e2fb275f48cbd6b0a8afe851b2e366cfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 17/77] fix: HRI readers report bad files with exceptions that
 can be caught

---
 msat/hri/HRI.cpp                         | 17 +++++++++--------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..4860e9e 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -30,6 +30,7 @@
 #include <fstream>
 #include <cstring>
 #include <ctime>
+#include <stdexcept>
 #include <msat/hri/HRI.h>
 
 Hri::Hri( char *hri_filename, bool IS_TECNAVIA )
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("cannot open HRI file");
   }
 
   if (IS_TECNAVIA)
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI format or image not disseminated");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI file too short");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI file too short");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("no HRI frame synchronisation");
   }
   return;
 }
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("no HRI frame synchronisation");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..1e7476e 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <string>
 #include <iostream>
+#include <stdexcept>
 
 typedef struct {
   long CFAC;
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("unknown or unsupported HRI format");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..c030c3c 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined HRI band");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined HRI band");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined HRI band");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("undefined HRI format");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI line out of range");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI half line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI line out of range");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI line out of range");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI line out of range");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("HRI pixel out of range");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..2e48201 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <ctime>
 #include <cstdio>
+#include <stdexcept>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 {
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("unknown HRI satellite id");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("unknown HRI satellite id");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..558d37d 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
+#include <stdexcept>
 #include <string>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("unknown HRI format code");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From 80bee1f35a6ddad1ba8ca959bc74539137106394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 18/77] fix: HRI interpretation data: snmxwp_ir has its own
 position

---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From 071f8d78b430ffa1f2da3cdd572d9d09ccae323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 19/77] fix: HRI: read the key slots of Tecnavia A format files

---
 msat/hri/HRI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 4860e9e..92d70f9 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -95,7 +95,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
         std::cerr << "Read failed." << std::endl;
         return;
       }
-      memcpy(keybuff, mod_framebuff, 1440-92);
+      memcpy(keybuff+92, mod_framebuff, 1440-92);
     }
     else
     {
@@ -107,8 +107,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       memcpy(keybuff+720, framebuff + 4, 360);
       getbuff(hri);
       memcpy(keybuff+1080, framebuff + 4, 360);
-      keys.readfrom(keybuff);
     }
+    keys.readfrom(keybuff);
   }
 
   if (false)
-- 
2.43.0


From 94c844244c2bf1b0749a50081cf0798d88ab71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 20/77] fix: HRI: a Tecnavia file that ends in its header is an
 error

---
 msat/hri/HRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 92d70f9..7ace8c4 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -93,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("HRI file too short");
       }
       memcpy(keybuff+92, mod_framebuff, 1440-92);
     }
-- 
2.43.0


From b1ff653a09989fb91f27d9ddc30fa6adf6522fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 21/77] fix: HRI: XW images take their calibration from the
 header

---
 msat/hri/HRI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 7ace8c4..e0a3df1 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -120,7 +120,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   }
 
   std::string format = label.format_code( );
-  calibration_coefficients coeff;
+  calibration_coefficients coeff = { 0.0, 0.0 };
 
   cout << "Format is : " << format << std::endl;
 
@@ -347,6 +347,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0


From 4a415c976e9959e3131fc4350f38db42c1797231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 22/77] fix: HRI_image: start from a known state, free the
 previous image

---
 msat/hri/HRI_image.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index c030c3c..56d2204 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -48,7 +48,7 @@ HRI_image::HRI_image( )
 
 HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
-		      HRI_image_band b )
+		      HRI_image_band b ) : HRI_image( )
 {
   set_format_band(s, f, b);
 }
@@ -231,6 +231,11 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw std::runtime_error("undefined HRI format");
   }
+  delete [ ] data;
+  delete [ ] aline;
+  data  = 0;
+  aline = 0;
+  calibrated = false;
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
   assert(data);
-- 
2.43.0


From c72096697bc7304a4f65b43a7a25ea4b421978a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 23/77] fix: HRI identification: give the date its day of the
 week

---
 msat/hri/HRI_subframe_identification.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 2e48201..ff6605a 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -99,6 +99,8 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_mday = day;
   tmtime.tm_hour = hour;
   tmtime.tm_min  = minute;
+  tmtime.tm_wday = tm1time->tm_wday;
+  tmtime.tm_yday = tm1time->tm_yday;
 
   datetime = asctime(&tmtime);
 
-- 
2.43.0


From d1d5f5837556e94a91cedd5f6f879d358eaf76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 24/77] fix: Hri::get_format returns a string that still exists

---
 msat/hri/HRI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index e0a3df1..c24cd6e 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -387,7 +387,9 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  static std::string format;
+  format = label.format_code( );
+  return (char *) format.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
-- 
2.43.0


From c44294e6f0889c8566bc1937141c0418f097a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 25/77] fix: OpenMTP_IDS::scanline: include the last scan line

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..ea5207d 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -175,7 +175,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From d63c221b8ae6fc42ea46318bdb82b885c36fe92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 26/77] fix: OpenMTP_IDS: no records beyond those that are
 there

---
 msat/omtp-ids/OpenMTP-IDS.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ea5207d..0d23f45 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -56,8 +56,7 @@ operator<<(std::ostream& os,
 	os << openmtp_ids.m_fileheader;
 
 	// the first record was just written..
-	const unsigned no_records =
-		openmtp_ids.m_fileheader.no_records() - 1;
+	const unsigned no_records = openmtp_ids.m_record.size();
 
 	for (unsigned i = 0; i < no_records; i++) {
 		os << openmtp_ids.m_record[i];
@@ -77,6 +76,10 @@ operator>>(std::istream& is,
 		throw "failure while reading file header\n";
 	}
 
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw "no records in file\n";
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
-- 
2.43.0


From 40ad98b9d90eb1bf8de2ce0959fd0b7aba079d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 27/77] fix: OpenMTP_IDS: throw messages that still exist when
 they are caught

---
 msat/omtp-ids/OpenMTP-IDS.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 0d23f45..4707776 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -102,8 +102,8 @@ OpenMTP_IDS::read(const char* filename)
 {
 	std::ifstream is(filename);
 	if (!is) {
-		std::string err;
-		err += "could not open ";
+		static std::string err;
+		err = "could not open ";
 		err += filename;
 		err += " for reading";
 		throw err.c_str();
@@ -112,8 +112,8 @@ OpenMTP_IDS::read(const char* filename)
 	is >> *this;
 
 	if (!is.good()) {
-		std::string err;
-		err += "error while reading ";
+		static std::string err;
+		err = "error while reading ";
 		err += filename;
 		throw err.c_str();
 	}
@@ -128,8 +128,8 @@ OpenMTP_IDS::write(const char* filename)
 {
 	std::ofstream os(filename);
 	if (!os) {
-		std::string err;
-		err += "could not open ";
+		static std::string err;
+		err = "could not open ";
 		err += filename;
 		err += " for writing";
 		throw err.c_str();
@@ -138,8 +138,8 @@ OpenMTP_IDS::write(const char* filename)
 	os << *this;
 
 	if (!os.good()) {
-		std::string err;
-		err += "error while writing ";
+		static std::string err;
+		err = "error while writing ";
 		err += filename;
 		throw err.c_str();
 	}
-- 
2.43.0


From b5a1fab60759f90a29d9bdc57002a518baa7eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 28/77] fix: omtp-ids FileHeader: a shorter satellite name
 replaces all of the old one

---
 msat/omtp-ids/FileHeader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..3977464 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -261,5 +261,6 @@ FileHeader::satellite(const char* satellite)
 		? len
 		: SATELLITE_LEN;
 
+	memset(m_satellite, 0, sizeof(m_satellite));
 	memcpy(m_satellite, satellite, copy_len);
 }
-- 
2.43.0


From 679852255d016b031ccc76ef5287fb1d923d2ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 29/77] fix: GRIB: do without the trace when its file cannot be
 opened

fprintf to a null FILE* crashed the driver for everyone but the owner of
/tmp/trace-gribapi.
---
 gdal/grib/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..c1e7c43 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -47,6 +47,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
-- 
2.43.0


From 5bdaf176ec077eb97703ffc1b99bdd0403c2786d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 30/77] fix: GRIB driver: report errors to GDAL instead of
 throwing through it

An unreadable data section, or a satellite or channel that msat::facts does
not know, sent an exception through GDAL and ended the program.
---
 gdal/grib/grib.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..64559b8 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -69,7 +69,11 @@ public:
 		}
 
 		size_t length = nRasterXSize * nRasterYSize;
-		grib.get_double_array("values", (double*)buf, &length);
+		try {
+			grib.get_double_array("values", (double*)buf, &length);
+		} catch (griberror& e) {
+			return CE_Failure;
+		}
 		if (length != (size_t)(nRasterXSize * nRasterYSize)) {
 			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
 			return CE_Failure;
@@ -123,6 +127,9 @@ public:
 			return true;
 		} catch (griberror& e) {
 			return false;
+		} catch (std::exception& e) {
+			CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+			return false;
 		}
 	}
 
@@ -866,6 +873,9 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
         return nullptr;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return nullptr;
     }
 }
 
-- 
2.43.0


From 07a5cc6fcd8a7c5baff3bf3444891305fd359653 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 31/77] fix: GRIB CreateCopy: refuse a source without bands or
 spatial reference

They were used without a check, and the program crashed.
---
 gdal/grib/grib.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 64559b8..780c4ba 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -845,6 +845,17 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
                               int bStrict, char** papszOptions,
                               GDALProgressFunc pfnProgress, void* pProgressData)
 {
+    if (src->GetRasterCount() < 1)
+    {
+        CPLError(CE_Failure, CPLE_NotSupported, "The source dataset has no bands");
+        return nullptr;
+    }
+    if (!src->GetSpatialRef())
+    {
+        CPLError(CE_Failure, CPLE_NotSupported, "The source dataset has no spatial reference");
+        return nullptr;
+    }
+
     try {
         const char* templateName = CSLFetchNameValue(papszOptions, "TEMPLATE");
         if (templateName == NULL)
-- 
2.43.0


From 66c4d5669657c9a227055e71aed04d92cdd92323 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 32/77] fix: GRIB CreateCopy: a failed write is a failed copy

Errors from writing the file were ignored, and whatever was at that name
before was opened and returned as the result.
---
 gdal/grib/grib.cpp | 2 +-
 gdal/grib/utils.h  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 780c4ba..36a80ad 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -879,7 +879,7 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None) return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c1e7c43..09e6dce 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -340,7 +340,11 @@ struct Grib
         }
         trace("written to file %s", filename.c_str());
 
-        fclose(out);
+        if (fclose(out) != 0)
+        {
+            CPLError(CE_Failure, CPLE_FileIO, "cannot write to file %s", filename.c_str());
+            return CE_Failure;
+        }
         trace("flushed");
         return CE_None;
     }
-- 
2.43.0


From 2fcd89f2fa9008fc420dfbe029dbfbbaf24dcddc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 33/77] fix: GRIB CreateCopy: stop when there is no sample to
 start from

It went on with a null handle.
---
 gdal/grib/grib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 36a80ad..d2259ff 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -615,7 +615,7 @@ struct CreateGRIB2 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB2");
+        if (grib.new_from_samples(NULL, "GRIB2") != CE_None) return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -789,7 +789,7 @@ struct CreateGRIB1 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB1");
+        if (grib.new_from_samples(NULL, "GRIB1") != CE_None) return false;
 
         if (!CreateGRIB::create())
             return false;
-- 
2.43.0


From cf0c7f89bacb7a312915dac98e36cab3e132f043 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 34/77] fix: GRIB: look for the signature in the whole header

The search stopped at the first zero byte.
---
 gdal/grib/grib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index d2259ff..dc8f575 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -217,7 +217,7 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
 		return NULL;
 
 	// Look for a grib signature in the header
-	string header((const char*)info->pabyHeader, 0, info->nHeaderBytes);
+	string header((const char*)info->pabyHeader, info->nHeaderBytes);
 	if (header.find("GRIB") == string::npos)
 		return NULL;
 
-- 
2.43.0


From 27cbbba5d631ff973fcfe5512e63e95173ffeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 35/77] fix: normpath: a leading .. has nothing before it

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..4e3ee34 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From 89f5997803faed6eb707fbd62b8162e94b814f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 36/77] fix: Split: text made of separators only and empty
 separators

---
 msat/utils/string.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 4e3ee34..e37efee 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -213,7 +213,12 @@ Split::const_iterator::const_iterator(const Split& split_)
     else
     {
         // Ignore leading separators if skip_end is true
-        if (split_.skip_empty) skip_separators();
+        if (split_.skip_empty)
+        {
+            skip_separators();
+            // There are only separators
+            if (end == split_.str.size()) split = nullptr;
+        }
         ++*this;
     }
 }
@@ -235,6 +240,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // Nothing to skip between single characters
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
@@ -276,7 +284,7 @@ Split::const_iterator& Split::const_iterator::operator++()
     size_t tok_end;
     if (sep.empty())
         /// If separator is empty, advance one character at a time
-        tok_end = end + 1;
+        tok_end = end + 1 < str.size() ? end + 1 : std::string::npos;
     else
     {
         /// The token ends at the next separator
-- 
2.43.0


From 137749b72f6d367b521f10e3acac6975b80e4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 37/77] fix: decode_cstring: read \x escapes as hexadecimal

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index e37efee..531dbd2 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -397,7 +397,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 1a0015482208c0a7682248353bf67e276c5f4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 38/77] fix: decode_url: texts shorter than an escape

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 531dbd2..5e3c20e 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -439,7 +439,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From 6a786b20602d6e5a4b4d5ebd07daf0d1473247f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 39/77] fix: decode_base64: characters just past the alphabet

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 5e3c20e..55a0c0b 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -457,7 +457,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 01e1499e46a21635045613892df22376288cd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 40/77] fix: GDALTranslate: keep the configured metadata and
 GCPs until destroyed

---
 msat/gdal/gdaltranslate.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..c79ff7b 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -90,6 +90,12 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
+    if( pasGCPs != NULL )
+    {
+        GDALDeinitGCPs( nGCPCount, pasGCPs );
+        CPLFree( pasGCPs );
+    }
 }
 
 /************************************************************************/
@@ -392,9 +398,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
@@ -579,8 +582,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From 5b9f98fc2497b15b4968d53255fee8e80961e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 41/77] fix: GDALTranslate: translate does not change the
 configuration

---
 msat/gdal/gdaltranslate.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index c79ff7b..3b753b5 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,7 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <ostream>
+#include <vector>
 
 using namespace std;
 
@@ -111,6 +112,13 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     double              adfGeoTransform[6];
     int                 nOXSize = 0, nOYSize = 0;
     const char          *pszProjection;
+    // Work on copies, so that the same structure can translate other datasets
+    int                 anSrcWin[4];
+    double              dfScaleSrcMin = this->dfScaleSrcMin, dfScaleSrcMax = this->dfScaleSrcMax;
+    double              dfScaleDstMin = this->dfScaleDstMin, dfScaleDstMax = this->dfScaleDstMax;
+    int                 bDefBands = this->bDefBands;
+    std::vector<int>    panBandList(this->panBandList, this->panBandList + this->nBandCount);
+    int                 nBandCount = this->nBandCount;
     // int                 bQuiet = FALSE;
     // GDALProgressFunc    pfnProgress = GDALTermProgress;
     // int                 iSrcFileArg = -1, iDstFileArg = -1;
@@ -192,6 +200,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
         printf( "Input file size is %d, %d\n", nRasterXSize, nRasterYSize );
 #endif
 
+    for( i = 0; i < 4; i++ )
+        anSrcWin[i] = this->anSrcWin[i];
     if( anSrcWin[2] == 0 && anSrcWin[3] == 0 )
     {
         anSrcWin[2] = nRasterXSize;
@@ -210,7 +220,7 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        panBandList = (int *) CPLMalloc(sizeof(int)*nBandCount);
+        panBandList.resize(nBandCount);
         for( i = 0; i < nBandCount; i++ )
             panBandList[i] = i+1;
     }
-- 
2.43.0


From 628ec9f26e3564546a06aeb3551b790cffa6c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 42/77] fix: GDALTranslate: expanding colors read past the end
 of the band list

---
 msat/gdal/gdaltranslate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 3b753b5..10224b7 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -478,8 +478,9 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             }
         }
         else
+            // The first band expands to nRGBExpand bands
             poSrcBand = ((GDALDataset *) 
-                        hDataset)->GetRasterBand(panBandList[i]);
+                        hDataset)->GetRasterBand(panBandList[nRGBExpand != 0 ? i - nRGBExpand + 1 : i]);
 
 /* -------------------------------------------------------------------- */
 /*      Select output data type to match source.                        */
-- 
2.43.0


From 647ada1379c7875eb8db1ee7383139ecd3b02e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 43/77] fix: GDALTranslate: overflow checking the source window

---
 msat/gdal/gdaltranslate.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 10224b7..ed40903 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -263,13 +263,24 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        anSrcWin[0] = (int) 
-            ((dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001);
-        anSrcWin[1] = (int) 
-            ((dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001);
-
-        anSrcWin[2] = (int) ((dfLRX - dfULX) / adfGeoTransform[1] + 0.5);
-        anSrcWin[3] = (int) ((dfLRY - dfULY) / adfGeoTransform[5] + 0.5);
+        double dfWin[4];
+        dfWin[0] = (dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001;
+        dfWin[1] = (dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001;
+        dfWin[2] = (dfLRX - dfULX) / adfGeoTransform[1] + 0.5;
+        dfWin[3] = (dfLRY - dfULY) / adfGeoTransform[5] + 0.5;
+        for( i = 0; i < 4; i++ )
+        {
+            // Also catches what is not a number
+            if( !(dfWin[i] > -1e9 && dfWin[i] < 1e9) )
+            {
+                CPLError(CE_Failure, CPLE_AppDefined, 
+                         "Computed -srcwin falls outside raster size of %dx%d.",
+                         GDALGetRasterXSize(hDataset), 
+                         GDALGetRasterYSize(hDataset) );
+                return NULL;
+            }
+            anSrcWin[i] = (int) dfWin[i];
+        }
 
 #if 0
         if( !bQuiet )
@@ -298,8 +309,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
         || anSrcWin[2] <= 0 || anSrcWin[3] <= 0
-        || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-        || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        || anSrcWin[2] > GDALGetRasterXSize(hDataset) - anSrcWin[0]
+        || anSrcWin[3] > GDALGetRasterYSize(hDataset) - anSrcWin[1] )
     {
         CPLError(CE_Failure, CPLE_AppDefined, 
                  "-srcwin %d %d %d %d falls outside raster size of %dx%d "
-- 
2.43.0


From 9b0a1dcb4d69bdeae5150726d468bff9527157fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 44/77] fix: GDALTranslate: refuse output sizes of no pixels

---
 msat/gdal/gdaltranslate.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index ed40903..43a7916 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -45,6 +45,7 @@ using namespace std;
 CPL_CVSID("$Id: gdal_translate.cpp 15640 2008-10-29 20:19:56Z rouault $");
 
 static void AttachMetadata( GDALDatasetH, char ** );
+static int OutputSize( const char *, int );
 // static int bSubCall = FALSE;
 
 GDALTranslate::GDALTranslate()
@@ -351,10 +352,15 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     }
     else
     {
-        nOXSize = (int) ((pszOXSize[strlen(pszOXSize)-1]=='%' 
-                          ? atof(pszOXSize)/100*anSrcWin[2] : atoi(pszOXSize)));
-        nOYSize = (int) ((pszOYSize[strlen(pszOYSize)-1]=='%' 
-                          ? atof(pszOYSize)/100*anSrcWin[3] : atoi(pszOYSize)));
+        nOXSize = OutputSize( pszOXSize, anSrcWin[2] );
+        nOYSize = OutputSize( pszOYSize, anSrcWin[3] );
+        if( nOXSize < 1 || nOYSize < 1 )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, 
+                     "Output size %s %s is illegal.",
+                     pszOXSize, pszOYSize ? pszOYSize : "(not set)" );
+            return NULL;
+        }
     }
     
 /* ==================================================================== */
@@ -606,6 +612,25 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
     }
 }
 
+/************************************************************************/
+/*                             OutputSize()                             */
+/*                                                                      */
+/*      Output size in pixels, or as a percentage of the source size.   */
+/*      Returns 0 if it is not a valid size.                            */
+/************************************************************************/
+
+static int OutputSize( const char *pszSize, int nSrcSize )
+
+{
+    if( pszSize == NULL || *pszSize == 0 )
+        return 0;
+    if( pszSize[strlen(pszSize)-1] != '%' )
+        return atoi(pszSize);
+
+    double dfSize = atof(pszSize)/100*nSrcSize;
+    return dfSize >= 1 && dfSize < 1e9 ? (int) dfSize : 0;
+}
+
 void GDALTranslate::dump(std::ostream& out)
 {
     // gdal_translate -ot
-- 
2.43.0


From 3356d776b8da2bf396281334cc908483b28f8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 45/77] fix: recode: scale to the target size, report failures

---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..012a7fc 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -124,7 +124,16 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	const std::string osx = std::to_string(sx);
+	const std::string osy = std::to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = osx.c_str();
+		translate.pszOYSize = osy.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (!vds) return NULL;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
-- 
2.43.0


From 7ccfba4e388e9e765721e7bb7fb828b57ac0a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 46/77] fix: GeoReferencer: report projections that cannot be
 transformed

---
 msat/gdal/dataset.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 012a7fc..7555cf5 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -218,15 +218,27 @@ CPLErr GeoReferencer::init(GDALDataset* ds)
 		return CE_Failure;
 	}
 
+    delete toLatLon; toLatLon = 0;
+    delete fromLatLon; fromLatLon = 0;
+
     proj = osr->Clone();
     proj->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     latlon = proj->CloneGeogCS();
-    latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
-    toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
-    fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
+    if (latlon)
+    {
+        latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
+        toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+        fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
+    }
 
 	delete proj; proj = 0;
 	delete latlon; latlon = 0;
+
+	if (!toLatLon || !fromLatLon)
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "cannot convert between the projection of the input dataset and lat,lon");
+		return CE_Failure;
+	}
 	return CE_None;
 }
 
-- 
2.43.0


From 1c4a4b62c160dd69e65de70112ccbce0e7f2ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 47/77] fix: CalibratedRasterBand: do not read blocks on the
 stack

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 7555cf5..4bc8028 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <vector>
 
 using namespace std;
 
@@ -407,8 +408,8 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    std::vector<uint16_t> raw((size_t)nBlockXSize * nBlockYSize);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Compute reflectances
-- 
2.43.0


From ff3a3da8602e24ff7e2bf1ca657183d27bead0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 48/77] fix: CalibratedRasterBand: missing pixels stay missing

---
 msat/gdal/dataset.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 4bc8028..f2d583b 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -412,12 +412,19 @@ CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
+    // What is missing in the source is missing here too
+    int has_nodata = FALSE;
+    double nodata = rb.GetNoDataValue(&has_nodata);
+
     // Compute reflectances
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
         // Calibrate from counts to radiance
-        dest[i] = raw[i] * scale + ofs;
+        if (has_nodata && raw[i] == nodata)
+            dest[i] = 0.0;
+        else
+            dest[i] = raw[i] * scale + ofs;
     }
 
     return CE_None;
-- 
2.43.0


From ff77531f6ee0d54a9709c19783a49fb2f6d330cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 49/77] fix: ProxyDataset: pass on the spatial reference of
 GCPs

---
 msat/gdal/dataset.cpp | 3 +++
 msat/gdal/dataset.h   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index f2d583b..27f87b0 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -311,6 +311,9 @@ GDALDriver* ProxyDataset::GetDriver(void) { return ds.GetDriver(); }
 char** ProxyDataset::GetFileList(void) { return ds.GetFileList(); }
 int ProxyDataset::GetGCPCount() { return ds.GetGCPCount(); }
 const char* ProxyDataset::GetGCPProjection() { return ds.GetGCPProjection(); }
+#if GDAL_VERSION_MAJOR >= 3
+const OGRSpatialReference* ProxyDataset::GetGCPSpatialRef() const { return ds.GetGCPSpatialRef(); }
+#endif
 const GDAL_GCP* ProxyDataset::GetGCPs() { return ds.GetGCPs(); }
 
 ProxyRasterBand::ProxyRasterBand(GDALDataset& ds, GDALRasterBand& rb, int idx)
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index 10eae01..f727094 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -135,6 +135,9 @@ public:
     char** GetFileList(void) override;
     int GetGCPCount() override;
     virtual const char* GetGCPProjection();
+#if GDAL_VERSION_MAJOR >= 3
+    const OGRSpatialReference* GetGCPSpatialRef() const override;
+#endif
     const GDAL_GCP* GetGCPs() override;
 };
 
-- 
2.43.0


From 21dc3cc733abc0f9d7b0d8cce5262f9c75626e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:19 +0000
Subject: [PATCH 50/77] fix: GDALTranslate: projected windows that start just
 outside the image

Truncating moved them back inside, up to a pixel away from what was asked.
---
 msat/gdal/gdaltranslate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 43a7916..3b2bac3 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,7 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <ostream>
+#include <cmath>
 #include <vector>
 
 using namespace std;
@@ -280,7 +281,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
                          GDALGetRasterYSize(hDataset) );
                 return NULL;
             }
-            anSrcWin[i] = (int) dfWin[i];
+            // Truncating would move windows that start just outside back inside
+            anSrcWin[i] = (int) floor( dfWin[i] );
         }
 
 #if 0
-- 
2.43.0


From 2dd541b734f15a3a1f1b9d627b003561dfe327da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 51/77] fix: msat: pictures of bands that cannot be read

---
 tools/image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/image.cpp b/tools/image.cpp
index 4a0e0b9..2dbb1f1 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -157,6 +157,8 @@ bool export_image(GDALRasterBand* band, const std::string& fileName, Stretch& s)
 
     unique_ptr<Magick::Image> image = imageToMagick(*band, s);
 
+    if (image.get() == 0) return false;
+
     // p.activity("Writing image to file");
     image->write(fileName);
     return true;
-- 
2.43.0


From bf1087f5bc34a1ce9bf0f51767bf667089a1881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 52/77] fix: msat: stretch missing, infinite and equal values
 to gray

Values that pixels cannot have were cast to the type of the pixels, what is
not a number to octets, and the only value of an image to its last 8 bits.
---
 tools/image.cpp | 48 +++++++++++++++++++++++++++++++-----------------
 tools/image.h   |  4 ++--
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 2dbb1f1..ca3ba83 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -1,6 +1,8 @@
 #include "msat/gdal/clean_gdal_priv.h"
 #include "image.h"
+#include <cmath>
 #include <cstdint>
+#include <limits>
 #include "config.h"
 #include <Magick++.h>
 
@@ -9,7 +11,7 @@ using namespace std;
 namespace msat {
 
 template<typename T>
-void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax)
+void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax)
 {
   if (!compute)
   {
@@ -20,18 +22,27 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
-  T missing = (T)band.GetNoDataValue();
+  int has_missing = FALSE;
+  double nodata = band.GetNoDataValue(&has_missing);
+  T missing = 0;
+  // A value that pixels cannot have is never found
+  if (has_missing && nodata >= numeric_limits<T>::lowest() && nodata <= numeric_limits<T>::max())
+    missing = (T)nodata;
+  else
+    has_missing = FALSE;
 
   // Compute min and max values
-  vmin = missing;
-  vmax = missing;
+  bool found = false;
+  vmin = vmax = 0;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (vals[i] == missing) continue;
-    if (vmin == missing)
+    if (has_missing && vals[i] == missing) continue;
+    if (!isfinite((double)vals[i])) continue;
+    if (!found)
     {
       // First time we find a good value, init min and max with it
       vmin = vmax = vals[i];
+      found = true;
       continue;
     }
     if (vals[i] < vmin) vmin = vals[i];
@@ -40,26 +51,29 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 }
 
 template<typename T>
-uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
+uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax)
 {
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
   uint8_t* res8 = new uint8_t[sx * sy];
   if (vmax == vmin)
   {
+      // There is nothing to stretch: show the value, as far as it fits
+      uint8_t val = vmin > 255 ? 255 : vmin > 0 ? (uint8_t)vmin : 0;
       for (size_t i = 0; i < sx * sy; ++i)
-          res8[i] = vmin;
+          res8[i] = val;
   }
   else
   {
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        // What is not a number is black
+        if (!(vals[i] > vmin))
           res8[i] = 0;
-        else if (vals[i] > vmax)
+        else if (!(vals[i] < vmax))
           res8[i] = 255;
         else
-          res8[i] = (vals[i] - vmin) * 255 / (vmax - vmin);
+          res8[i] = (uint8_t)((vals[i] - vmin) * 255 / (vmax - vmin));
       }
   }
   return res8;
@@ -85,8 +99,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint8_t vmin;
-            uint8_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -106,8 +120,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint16_t vmin;
-            uint16_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -127,8 +141,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            float vmin = 0;
-            float vmax = 0;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
diff --git a/tools/image.h b/tools/image.h
index b017af3..7e4b942 100644
--- a/tools/image.h
+++ b/tools/image.h
@@ -39,10 +39,10 @@ struct Stretch
     Stretch() : compute(true) {}
 
     template<typename T>
-    void compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax);
+    void compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax);
 
     template<typename T>
-    uint8_t* rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax);
+    uint8_t* rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax);
 };
 
 /// Export data from an ImageData to an image file
-- 
2.43.0


From 11b0a613e9f9ce50aa8ef1549d064274e64172ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 53/77] fix: msat: --around is in degrees

As the help says. It was used as projected coordinates.
---
 tools/msat.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..c3779e3 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -446,17 +446,18 @@ void Msat::parse_cmdline(int argc, char* argv[])
                             has_size = true;
                             break;
                     case 'C': { // --around
-                            double lat, lon, h, w;
-                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &lat,&lon,&h,&w) != 4)
+                            double clat, clon, h, w;
+                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &clat,&clon,&h,&w) != 4)
                             {
                                     cerr << "around value should be in the format lat,lon,lath,lonw" << endl;
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
-                            translate.dfLRY = lat - h/2;
-                            translate.dfULY = lat + h/2;
-                            translate.dfULX = lon - w/2;
-                            translate.dfLRX = lon + w/2;
+                            // Resolved to pixels like --Area
+                            lat[0] = clat - h/2;
+                            lat[1] = clat + h/2;
+                            lon[0] = clon - w/2;
+                            lon[1] = clon + w/2;
                             has_size = true;
                             break;
                     }
-- 
2.43.0


From ddf11992b86ac49abc0a036522ceea9fd8ad6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 54/77] fix: msat: forget the reduced size of the previous
 image

---
 tools/msat.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index c3779e3..da9a19a 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -336,6 +336,13 @@ struct Msat
 
     void scale_if_needed(GDALDataset& ds)
     {
+        // Without a cap, sizes are those of the command line
+        if (maxx == 0 && maxy == 0) return;
+
+        // Forget the size of the previous image
+        translate.pszOXSize = NULL;
+        translate.pszOYSize = NULL;
+
         // Scale down image to fit in maxx x maxy
         size_t sx = ds.GetRasterXSize();
         size_t sy = ds.GetRasterYSize();
@@ -351,7 +358,9 @@ struct Msat
                 tx = tx * maxy / ty;
                 ty = maxy;
         }
-        if (tx != sx && ty != sy)
+        if (tx == 0) tx = 1;
+        if (ty == 0) ty = 1;
+        if (tx != sx || ty != sy)
         {
             cerr << "Note: image scaled down to " << tx << "x" << ty << " to prevent excessive memory usage." << endl;
             cerr << "      you can set one of --area, --Area, --around, or --resize to prevent this." << endl;
-- 
2.43.0


From 888546248a9083b1e0c03e8db8714e69a71acfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 55/77] fix: msat: band numbers that do not fit

---
 tools/msat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index da9a19a..67b4498 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <iomanip>
 
+#include <climits>
 #include <cstdlib>
 #include <getopt.h>
 
@@ -602,7 +603,8 @@ int Msat::main()
                     if (endptr - sptr == (signed)bi->size())
                     {
                         // If it is an integer, use it literally
-                        bands[band_count++] = idx;
+                        // (0 is not a band, and is refused)
+                        bands[band_count++] = idx <= INT_MAX ? (int)idx : 0;
                     } else {
                         // If it is a string, remove leading bang (if any)
                         // and lookup in raster band descriptions
-- 
2.43.0


From 7332cdc3e2cdd7ebb3774f6460baa61722ebfd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 56/77] fix: msat: report images that cannot be cut and missing
 metadata files

---
 tools/msat.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 67b4498..d93bbd5 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -676,11 +676,21 @@ int Msat::main()
             scale_if_needed(*dataset);
 
             GDALDataset* vds = translate.translate(dataset.get());
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
             //translate.dump(cerr);
 
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From 6907b2ccaeb73d676adce992378528f9827d643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 57/77] fix: msat: viewing images without georeferencing

The geotransform shown was what was in memory.
---
 tools/msat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index d93bbd5..93bb1d0 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -172,8 +172,8 @@ static bool printDataset(GDALDataset* ds, bool withContents=false)
         cout << "Projection: " << ds->GetProjectionRef() << endl;
 
         double geoTransform[6];
-        ds->GetGeoTransform(geoTransform);
-        cout << "Geotransform matrix: " << endl
+        if (ds->GetGeoTransform(geoTransform) == CE_None)
+            cout << "Geotransform matrix: " << endl
                  << "  "
                  << setw(10) << geoTransform[0] << ",\t" << setw(10) << geoTransform[1] << ",\t" << setw(10) << geoTransform[2]
                  << endl
-- 
2.43.0


From c2d0ea930df1fa7392babb5ddffe82f454ece508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 58/77] fix: OpenMTP-IDS_sector: report files that cannot be
 read or written

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..2dc6257 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -171,12 +171,17 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
+	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
 
-	if (!openmtp_ids_sector(omtp_ids)) {
+	try {
+		if (!openmtp_ids_sector(omtp_ids)) {
+			return EXIT_FAILURE;
+		}
+	} catch (const char* err) {
+		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 10fcf14c90915e6f5617a48d81c136d726f04ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 59/77] fix: OpenMTP-IDS_sector: refuse images that do not
 cover the sector

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 2dc6257..8f28672 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -54,9 +54,9 @@ static const unsigned PIXEL_1 = (1604 / 2);
 static int
 record_lines(const int lines, const int pixels)
 {
-	return static_cast<int>
+	return std::max(1, static_cast<int>
 		(rint(sqrt((8 * lines)
-			   / static_cast<double>(pixels))));
+			   / static_cast<double>(pixels)))));
 }
 
 static int
@@ -126,6 +126,15 @@ sector(const OpenMTP_IDS& omtp_ids)
 {
 	std::vector<ScanLine> lines = omtp_ids.scanline(LINE_0, LINE_1);
 
+	if (lines.empty()) {
+		throw "the image has no lines in the sector";
+	}
+	for (unsigned i = 0; i < lines.size(); ++i) {
+		if (lines[i].linepixel().size() < PIXEL_1) {
+			throw "the lines of the image do not cover the sector";
+		}
+	}
+
 	for_each(lines.begin(), lines.end(), sector_line);
 	return repack(lines);
 }
-- 
2.43.0


From 510320bab4b4ad7d00be0bcd8cbecd918975c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 60/77] fix: OpenMTP-IDS_to_pgm: no picture of lines of
 different widths

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..127d40f 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -80,6 +80,12 @@ write_pgm(const char* filename,
 		return false;
 	}
 
+	for (unsigned x = 0; x < size_x; ++x) {
+		if (image[x].size() != size_y_0) {
+			return false;
+		}
+	}
+
 	std::ofstream os(filename);
 	if (!os.good()) {
 		return false;
@@ -93,16 +99,14 @@ write_pgm(const char* filename,
 		<< "255" << std::endl;
 
 	for (int x = 0; x < (int) size_x; ++x) {
-		const unsigned size_y = image[x].size();
-		if (size_y != size_y_0) {
-			os.close();
-			return false;
-		}
-		for (int y = 0; y < (int) size_y; ++y) {
+		for (int y = 0; y < (int) size_y_0; ++y) {
 			os.put(image[x][y]);
 		}
 	}
 	os.close();
+	if (!os.good()) {
+		return false;
+	}
 	std::cout << "wrote " << filename << std::endl;
 	return true;
 }
-- 
2.43.0


From 8dd8935d5e0d97c0cc59734b93839f036015f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 61/77] fix: OpenMTP-IDS_to_pgm: success is a written picture

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 127d40f..3416f3c 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -154,11 +154,11 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 
 	bool ret = false;
 
-	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.vis_id(), omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From e3c1402bec14042968c44db52499c30d36424484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 62/77] fix: XRIT2Image: refuse files that are not segments of
 one image

---
 tools/hrit/XRIT2Image.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..5b3532a 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -186,6 +186,15 @@ int main(int argc, char *argv[ ])
 
   globfree(&globbuf);
 
+  for (int i = 0; i < nsegments; i ++)
+  {
+    if (!header[i].segment_id || !header[i].image_structure)
+    {
+      std::cerr << "Not an image segment." << std::endl;
+      return 1;
+    }
+  }
+
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
     std::cout << "Product dumped in binary format." << std::endl;
@@ -199,7 +208,16 @@ int main(int argc, char *argv[ ])
     segsindexes[i] = -1;
 
   for (int i = 0; i < nsegments; i ++)
-    segsindexes[header[i].segment_id->sequence_number-1] = i;
+  {
+    int seqnum = header[i].segment_id->sequence_number;
+    if (seqnum < 1 || seqnum > totalsegs)
+    {
+      std::cerr << "Segment " << seqnum << " is not one of the "
+                << totalsegs << " segments of the image." << std::endl;
+      return 1;
+    }
+    segsindexes[seqnum-1] = i;
+  }
 
   filename = resolution;
   filename = filename + "-" + productid1 + "-" + productid2 + "-" +
@@ -211,7 +229,20 @@ int main(int argc, char *argv[ ])
 
   int npix = header[0].image_structure->number_of_columns;
   int nlin = header[0].image_structure->number_of_lines;
-  size_t npixperseg = npix*nlin;
+  size_t npixperseg = (size_t) npix*nlin;
+
+  for (int i = 0; i < nsegments; i ++)
+  {
+    size_t npixels = msgdat[i].image ? msgdat[i].image->len : 0;
+    if (header[i].image_structure->compression_flag == MSG_NO_COMPRESSION)
+      npixels /= sizeof(MSG_SAMPLE);
+    if (npixels < npixperseg)
+    {
+      std::cerr << "Segment " << header[i].segment_id->sequence_number
+                << " is too small." << std::endl;
+      return 1;
+    }
+  }
 
   size_t total_size = totalsegs*npixperseg;
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
-- 
2.43.0


From 685b535ada7e56b5663be456d0e9de4d3284cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 63/77] fix: XRIT2Image: report unreadable files instead of
 aborting

---
 tools/hrit/XRIT2Image.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 5b3532a..1b19848 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <exception>
 
 #include <msat/hrit/MSG_HRIT.h>
 
@@ -45,9 +46,23 @@
 // For windows use #define PATH_SEPARATOR "\"
 
 void usage(char *pname);
+int convert(int argc, char *argv[ ]);
 std::string underscoreit(std::string base, int final_len);
 
 int main(int argc, char *argv[ ])
+{
+  try
+  {
+    return convert(argc, argv);
+  }
+  catch (std::exception& e)
+  {
+    std::cerr << e.what( ) << std::endl;
+    return 1;
+  }
+}
+
+int convert(int argc, char *argv[ ])
 {
   char *directory = NULL;
   char *overlay_image = NULL;
-- 
2.43.0


From c09f89fbba47618aaba2df0b47bbcb130049f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 64/77] fix: xritdump: draw images of constant or extreme
 brightness

---
 tools/hrit/xritdump.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..4fd1139 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -48,6 +48,15 @@ static void do_help(const char* argv0, ostream& out)
             << "  --help           Print this help message" << endl;
 }
 
+// Character to draw a sample with, from darkest to brightest
+static char shade(MSG_SAMPLE s, MSG_SAMPLE min, MSG_SAMPLE max)
+{
+        static const string aachars = " .,-:=$#";
+        if (s <= min) return aachars[0];
+        if (s >= max) return aachars[aachars.size() - 1];
+        return aachars[(s-min) * aachars.size() / (max-min)];
+}
+
 static void do_dump(const char* name)
 {
         FileAccess fa(name);
@@ -83,7 +92,6 @@ static void do_dump(const char* name)
                      << "WestColumnActual: " << da.WestColumnActual << endl;
         }
 
-        string aachars = " .,-:=$#";
         MSG_SAMPLE compmin = 0xffff, compmax = 0;
         for (size_t i = 0; i < da.segnames.size(); ++i)
         {
@@ -106,6 +114,7 @@ static void do_dump(const char* name)
                 if (max > compmax) compmax = max;
                 // Size of the ascii-art rendition of the segment
                 size_t charx = 50, chary = 3;
+                if (da.npixperseg == 0) continue;
                 for (size_t y = 0; y < chary; ++y)
                 {
                         cout << setw(2) << setfill('0') << i << " ";
@@ -114,7 +123,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
+                                char c = shade(s, min, max);
                                 cout << c;
                         }
                         cout << endl;
@@ -141,7 +150,7 @@ static void do_dump(const char* name)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
+                        char c = shade(s, compmin, compmax);
                         cout << c;
                 }
                 cout << endl;
-- 
2.43.0


From 64e2a5afc50b370dff2f2b94713514f71328d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 65/77] fix: native2Image: report errors, scale before writing

---
 tools/msg-native/native2Image.cpp | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..7e84450 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <exception>
 #include <limits.h>
 #include <msat/msg-native/MSG_native.h>
 
@@ -73,21 +74,39 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  native.read( );
+  try
+  {
+    native.read( );
+
+    unsigned short *samples = native.data(ichn);
+    if (! samples)
+    {
+      std::cerr << "Exit: No data for channel " << argv[2] << std::endl;
+      return -1;
+    }
+
+    Magick::Image *image = new Magick::Image(native.pixels(ichn),
+                           native.lines(ichn), "I", Magick::ShortPixel,
+                           samples);
+    delete [ ] samples;
+    char outname[PATH_MAX];
+    snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
 
-  Magick::Image *image = new Magick::Image(native.pixels(ichn),
-                         native.lines(ichn), "I", Magick::ShortPixel,
-                         native.data(ichn)); 
-  char outname[PATH_MAX];
-  snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
+    image->normalize( );
+    image->rotate(180.0);
 
-  image->normalize( );
-  image->rotate(180.0);
-  image->write(outname);
+    Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
+                          (int) ((float) native.lines(ichn) *gfactor));
+    image->scale(geom);
 
-  Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
-                        (int) ((float) native.lines(ichn) *gfactor));
-  image->scale(geom);
+    image->write(outname);
+    delete image;
+  }
+  catch (std::exception& e)
+  {
+    std::cerr << "Exit: " << e.what( ) << std::endl;
+    return -1;
+  }
 
   native.close( );
   return 0;
-- 
2.43.0


From 6017b9005b73b4cb7e253a392b21db694208fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 66/77] fix: nativedump: report unreadable files instead of
 aborting

---
 tools/msg-native/nativedump.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..52a88c5 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //---------------------------------------------------------------------------
+#include <exception>
 #include <iostream>
 #include <msat/msg-native/MSG_native.h>
 
@@ -31,7 +32,15 @@ int main(int argc, char **argv)
   if (argc < 2) return 1;
   if (! native.open(argv[1])) return 1;
 
-  native.read( );
+  try
+  {
+    native.read( );
+  }
+  catch (std::exception& e)
+  {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
 
   std::cout << native;
 
-- 
2.43.0


From 74ffe476d4493c584da83c47420cca367c029475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 67/77] fix: xritdump: room for images wider than the full disk

---
 tools/hrit/xritdump.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index 4fd1139..26bc908 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -33,6 +33,7 @@
 #include <stdexcept>
 #include <iostream>
 #include <iomanip>
+#include <algorithm>
 #include <cstdio>
 
 #include <getopt.h>
@@ -143,9 +144,8 @@ static void do_dump(const char* name)
         for (size_t y = 0; y < chary; ++y)
         {
                 size_t py = y * comp_sy / chary;
-                MSG_SAMPLE buf[comp_sx];
-                bzero(buf, comp_sx * sizeof(MSG_SAMPLE));
-                da.line_read(py, buf);
+                vector<MSG_SAMPLE> buf(max(comp_sx, da.columns));
+                da.line_read(py, buf.data());
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
-- 
2.43.0


From 9ad0e9447baac3b8f007297ae9c190d33e471544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 68/77] fix: report an OpenMTP file that cannot be read with an
 exception instead of terminating, and refuse lines longer than the line
 buffer

---
 msat/openmtp/OpenMTP.cpp               |  4 +++-
 msat/openmtp/OpenMTP_ascii_header.cpp  |  3 ++-
 msat/openmtp/OpenMTP_binary_header.cpp | 11 ++++++-----
 msat/openmtp/OpenMTP_image_line.cpp    |  6 +++++-
 tools/openmtp/OpenMTP_info.cc          | 10 +++++++++-
 5 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 15a70e9..5b67272 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -30,6 +30,8 @@
 #include <fstream>
 #include <time.h>
 #include <stdlib.h>
+#include <stdexcept>
+#include <string>
 #include "OpenMTP_ascii_header.h"
 #include "OpenMTP_binary_header.h"
 #include "OpenMTP_image.h"
@@ -44,7 +46,7 @@ void OpenMTP::open( char *inname )
   if (infile.fail())
   {
     cerr << "Cannot open input OpenMTP file " << inname << endl;
-    throw;
+    throw std::runtime_error(std::string("cannot open input OpenMTP file ") + inname);
   }
   read(infile);
   return;
diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index 742491a..e3d4e69 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
 OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
@@ -45,7 +46,7 @@ void OpenMTP_ascii_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: ASCII Header." << std::endl;
-    throw;
+    throw std::runtime_error("read error from OpenMTP file: ASCII Header");
   }
   header[ASCII_HEADER_LENGTH] = 0;
   return;
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index e62456b..087ad5d 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
@@ -50,7 +51,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error : BINARY Header, first section." << std::endl;
-    throw;
+    throw std::runtime_error("read error from OpenMTP file: BINARY Header, first section");
   }
 
   pnt = header + BINARY_HEADER_FIRST_SECTION_LENGTH;
@@ -61,7 +62,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("read error from OpenMTP file: BINARY Header, second section");
     }
   }
   else
@@ -70,7 +71,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("read error from OpenMTP file: BINARY Header, second section");
     }
   }
 
@@ -81,7 +82,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("read error from OpenMTP file: BINARY Header, third section");
     }
   }
   else
@@ -90,7 +91,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("read error from OpenMTP file: BINARY Header, third section");
     }
   }
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 9c88faa..e227614 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image_line.h"
 
 OpenMTP_image_line::OpenMTP_image_line( ) { }
@@ -41,12 +42,15 @@ OpenMTP_image_line::~OpenMTP_image_line( ) { }
 
 void OpenMTP_image_line::read( std::ifstream &file, int npixels)
 {
+  if (npixels < 0 || npixels > MAX_PIXELS)
+    throw std::runtime_error("OpenMTP image line length is out of range");
+
   npix = npixels;
   file.read((char *) line, npixels+32);
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: Image Line." << std::endl;
-    throw;
+    throw std::runtime_error("read error from OpenMTP file: Image Line");
   }
   return;
 }
diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index da5dc6f..59b4060 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -37,7 +37,15 @@ static bool
 OpenMTP_info( char *inpath )
 {
   OpenMTP omtp;
-  omtp.open(inpath);
+  try
+  {
+    omtp.open(inpath);
+  }
+  catch (std::exception& e)
+  {
+    std::cerr << inpath << ": " << e.what() << std::endl;
+    return false;
+  }
   std::cout << omtp;
   return true;
 }
-- 
2.43.0


From 223738bc2b79c56c1daeae2a0da5eb38149871a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 69/77] fix: OpenMTP images in format A or B are not subwindows

---
 msat/openmtp/OpenMTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 5b67272..c0f642e 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -135,7 +135,7 @@ bool OpenMTP::is_B_format( )
 
 bool OpenMTP::is_subwindow( )
 {
-  return (!is_A_format( ) || !is_B_format( ));
+  return (!is_A_format( ) && !is_B_format( ));
 }
 
 int OpenMTP::nlines( ) { return binary_header.nlines( ); }
-- 
2.43.0


From 97e100738776a778afa08130c3b9f1a5c4edb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 70/77] fix: read all 256 counts of the OpenMTP raw image
 histograms

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 087ad5d..6c3cded 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -476,7 +476,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
   return tmp;
 }
@@ -484,7 +484,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
   return tmp;
 }
-- 
2.43.0


From c2c86a48178ad3a37d29260eb8ba0429d4f2c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 71/77] fix: the OpenMTP attitude vectors have three components

---
 msat/openmtp/OpenMTP_binary_header.cpp | 6 ++----
 msat/openmtp/OpenMTP_binary_header.h   | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 6c3cded..15fb8ac 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -512,20 +512,18 @@ double *OpenMTP_binary_header::urec_orbit_coord_in_geoframe_end( )
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_start( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7479);
   tmp[1] = m.float4(header+7479+4);
   tmp[2] = m.float4(header+7479+8);
-  tmp[3] = m.float4(header+7479+12);
   return tmp;
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_end( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7491);
   tmp[1] = m.float4(header+7491+4);
   tmp[2] = m.float4(header+7491+8);
-  tmp[3] = m.float4(header+7491+12);
   return tmp;
 }
 short *OpenMTP_binary_header::urec_horizon_information( )
diff --git a/msat/openmtp/OpenMTP_binary_header.h b/msat/openmtp/OpenMTP_binary_header.h
index 607d78f..8a1f2bb 100644
--- a/msat/openmtp/OpenMTP_binary_header.h
+++ b/msat/openmtp/OpenMTP_binary_header.h
@@ -269,10 +269,10 @@ class OpenMTP_binary_header {
         for (i = 0; i < 6; i ++)
           os << "Orbl " << i << "\t\t" << dtmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_start( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attf " << i << "\t\t" << ftmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_end( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attl " << i << "\t\t" << ftmp[i] << std::endl;
         stmp = h.urec_horizon_information( );
         for (j = 0; j < 4; j ++)
-- 
2.43.0


From 289f4d4e621eefa23e89d89f40351041533eb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 72/77] fix: read the OpenMTP times of the horizon scan lines
 after the horizon limits

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 15fb8ac..6b8054f 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -606,8 +606,8 @@ short *OpenMTP_binary_header::urec_horizon_limit_information( )
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
   static double tmp[2];
-  tmp[0] = m.float8(header+7579);
-  tmp[1] = m.float8(header+7579+8);
+  tmp[0] = m.float8(header+7603);
+  tmp[1] = m.float8(header+7603+8);
   return tmp;
 }
 short OpenMTP_binary_header::urec_radiometer_step_south( )
-- 
2.43.0


From 7f65bc8c85f228126a396cfd460a12a3d97315c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 73/77] fix: release the OpenMTP image with delete[]

---
 msat/openmtp/OpenMTP_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index a794924..6af39ab 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -39,7 +39,7 @@ OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
   image = 0;
   read(file, h);
 }
-OpenMTP_image::~OpenMTP_image( ) { if (image) delete image; }
+OpenMTP_image::~OpenMTP_image( ) { if (image) delete[] image; }
 
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
-- 
2.43.0


From b26c96f76523354f57e317ff1ce698d5d22145d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 74/77] fix: check the size of an OpenMTP image, and do not
 reuse the buffer of a previous image of another size

---
 msat/openmtp/OpenMTP_image.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index 6af39ab..83bde8c 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -31,6 +31,7 @@
 #include <cmath>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image.h"
 
 OpenMTP_image::OpenMTP_image( ) { image = 0; }
@@ -49,8 +50,14 @@ void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
   nlines = h.nlines( );
   npixels = h.npixels( );
 
-  if (!image)
-    image = new unsigned char[nlines*npixels];
+  // The full disk of the visible composite is the largest image
+  if (nlines < 1 || nlines > 5000 || npixels < 1 || npixels > 5000)
+    throw std::runtime_error("OpenMTP image size is out of range");
+
+  // A previous image may have been of another size
+  if (image) delete[] image;
+  image = 0;
+  image = new unsigned char[nlines*npixels];
 
   for (int i = 0; i < nlines; i ++)
   {
-- 
2.43.0


From a3c61b5be6e562fd16651b81bf7f48df9b5a79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 75/77] fix: INI files: sections and empty names looked up as
 values crashed, and empty quoted values kept their quotes

---
 msat/iniparser.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 9625def..aaf61e9 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -339,7 +339,7 @@ static char * dictionary_get(dictionary * d, char * key, char * def)
 
     hash = dictionary_hash(key);
     for (i=0 ; i<d->size ; i++) {
-        if (d->key==NULL)
+        if (d->key[i]==NULL)
             continue ;
         /* Compare hash */
         if (hash==d->hash[i]) {
@@ -755,7 +755,8 @@ int iniparser_getint(dictionary * d, char * key, int notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    /* Sections are entries without a value */
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atoi(str);
 }
 
@@ -778,7 +779,8 @@ double iniparser_getdouble(dictionary * d, char * key, double notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    /* Sections are entries without a value */
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atof(str);
 }
 
@@ -822,7 +824,8 @@ int iniparser_getboolean(dictionary * d, char * key, int notfound)
     int         ret ;
 
     c = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (c==INI_INVALID_KEY) return notfound ;
+    /* Sections are entries without a value */
+    if (c==INI_INVALID_KEY || c==NULL) return notfound ;
     if (c[0]=='y' || c[0]=='Y' || c[0]=='1' || c[0]=='t' || c[0]=='T') {
         ret = 1 ;
     } else if (c[0]=='n' || c[0]=='N' || c[0]=='0' || c[0]=='f' || c[0]=='F') {
@@ -952,10 +955,9 @@ dictionary * iniparser_new(char *ininame)
                  * sscanf cannot handle "" or '' as empty value,
                  * this is done here
                  */
+                strcpy(val, strcrop(val));
                 if (!strcmp(val, "\"\"") || !strcmp(val, "''")) {
                     val[0] = (char)0;
-                } else {
-                    strcpy(val, strcrop(val));
                 }
                 iniparser_add_entry(d, sec, key, val);
             }
-- 
2.43.0


From bf5608e0b6e3e221915e33826f2dd181e93fe03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:07 +0000
Subject: [PATCH 76/77] fix: a DB1 channel that is missing, or whose image has
 impossible bits per pixel, is not data; release the previous channel and
 directory

---
 msat/thornsds_db1/thornsds_db1.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5aaec70..05997f7 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -61,6 +61,7 @@ void MSG_db1_data::close( )
 void MSG_db1_data::open( char *directory )
 {
   char iname[PATH_MAX];
+  this->close( );
   this->dirname = strdup(directory);
   snprintf(iname, PATH_MAX, "%s/%s", directory, "AoI");
   AoI = iniparser_new(iname);
@@ -81,7 +82,7 @@ bool MSG_db1_data::has_channel(char *chname)
     return false;
   }
   char chfname[PATH_MAX];
-  sprintf(chfname, "%s/%s.RAW", dirname, chname);
+  snprintf(chfname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   if (stat(chfname, &chfstat) == 0)
     return true;
   return false;
@@ -89,35 +90,52 @@ bool MSG_db1_data::has_channel(char *chname)
 
 void MSG_db1_data::set_channel(char *chname)
 {
+  // Forget the previous channel
+  if (Calibration) { iniparser_free(Calibration); Calibration = 0; }
+  if (rawdata) { delete [ ] rawdata; rawdata = 0; }
+  if (cal_values) { delete [ ] cal_values; cal_values = 0; }
+  chnum = 0;
+  ncalval = -1;
+
   if (! this->has_channel(chname))
   {
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
+    return;
   }
   char iname[PATH_MAX];
-  sprintf(iname, "%s/%s.Calibration", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.Calibration", dirname, chname);
   Calibration = iniparser_new(iname);
   if (Calibration == 0)
   {
     std::cerr << "No such file: " << iname << std::endl;
     std::cerr << "No Calibration performed for " << chname << std::endl;
   }
-  sprintf(iname, "%s/%s.RAW", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   FILE *fp = fopen(iname, "r");
   if (! fp)
   {
     std::cerr << "Cannot open file: " << iname << std::endl;
     return;
   }
-  rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
+  rawdata = new unsigned short[(chfstat.st_size + 1) / sizeof(short)];
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
     std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
     return;
   }
   fclose(fp);
   this->chnum = get_channel_number(chname);
-  ncalval = (int) (pow(2.0, (double) get_INFO_image_bitsperpixel( )));
+  if (! is_data_ok( )) return;
+  int bpp = get_INFO_image_bitsperpixel( );
+  if (bpp < 1 || bpp > 16)
+  {
+    std::cerr << "Cannot use data of " << bpp << " bits per pixel" << std::endl;
+    this->chnum = 0;
+    return;
+  }
+  ncalval = (int) (pow(2.0, (double) bpp));
   cal_values = new float[ncalval];
 
   for (int i = 0; i < ncalval; i ++)
@@ -405,7 +423,7 @@ float MSG_db1_data::get_channel_Calibration_B( )
 float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
-  if (count < 0 && count >= ncalval) return 0.0;
+  if (count < 0 || count >= ncalval) return 0.0;
   snprintf(infochuse, INFOCHLEN, "%s:%s(%d)", get_channel_INFO_variable( ),
            get_channel_INFO_variable_code( ), count);
   return (float) iniparser_getdouble(Calibration, infochuse, 0.0);
-- 
2.43.0


From e94b96b76355c4765847188df007279dc5c68c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:12 +0000
Subject: [PATCH 77/77] fix: db1_to_image draws the overlay it is given,
 refuses images larger than their data and reports failures

---
 tools/thornsds_db1/db1_to_image.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 720a081..0de88a5 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -80,6 +80,15 @@ int main (int argc, char *argv[])
     return -1;
   }
 
+  int npixels = db1.get_INFO_image_pixels( );
+  int nlines = db1.get_INFO_image_lines( );
+  if (npixels < 1 || nlines < 1
+      || (long) npixels * nlines > db1.get_raw_data_nvals( ))
+  {
+    std::cerr << "Exit: there is less data than the image needs." << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.%s", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ),
@@ -91,6 +100,8 @@ int main (int argc, char *argv[])
     if (outname[i] == ':') outname[i] = '-';
   }
 
+  try
+  {
   Magick::Image *image = new Magick::Image(db1.get_INFO_image_pixels( ),
                                            db1.get_INFO_image_lines( ),
                                            "I", Magick::ShortPixel,
@@ -102,7 +113,7 @@ int main (int argc, char *argv[])
   if (image_overlay)
   {
     Magick::Image overlay;
-    overlay.read("SEVIRI_OVERLAY.pgm");
+    overlay.read(image_overlay);
     image->composite(overlay, 0, 0, Magick::PlusCompositeOp);
   }
 
@@ -111,6 +122,12 @@ int main (int argc, char *argv[])
   image->scale(geom);
 
   image->write(outname);
+  }
+  catch (std::exception& e)
+  {
+    std::cerr << "Exit: " << e.what() << std::endl;
+    return -1;
+  }
 
   db1.close( );
   return 0;
-- 
2.43.0

