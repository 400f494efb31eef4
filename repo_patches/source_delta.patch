From 2f6cb0466fac72bcf65b6d16ba3e866566ab4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 01/61] fix: SplitString by blanks repeated the last word of
 text ending with a blank

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..ce8f227 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 27bee52af311cd42860a8d146a93f8e5044ae001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 02/61] fix: IsDouble and IsNumber accepted an empty text as a
 number

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index ce8f227..510f2b5 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -303,14 +303,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From 0155a44185cfaaac036bf8901038b4f3aca190d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 03/61] fix: wtoa and atow overran a zero-length buffer for
 inconvertible text

---
 src/utils_string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index 510f2b5..daa1be1 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -218,6 +218,7 @@ vint _wtoa(const wchar_t* w, char* a, vint chars) {
 
 string wtoa(const wstring& wstr) {
     vint len = _wtoa(wstr.c_str(), 0, 0);
+    if (len <= 0) { return string(); } // cannot be converted in the current locale
     char* buffer = new char[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _wtoa(wstr.c_str(), buffer, int(len));
@@ -236,6 +237,7 @@ vint _atow(const char* a, wchar_t* w, vint chars) {
 
 wstring atow(const string& astr) {
     vint len = _atow(astr.c_str(), 0, 0);
+    if (len <= 0) { return wstring(); } // cannot be converted in the current locale
     wchar_t* buffer = new wchar_t[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _atow(astr.c_str(), buffer, int(len));
-- 
2.43.0


From 6ba4a1a693075071586997424c376b13043274da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 04/61] fix: Initialize1DArray from data left an array behind
 when it failed and accepted non-positive sizes

---
 src/utils_array.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..6aa699b 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,19 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
-    data = new(nothrow) T[row];
-    if (nullptr == data) {
-        delete[] data;
-        cout << "Bad memory allocated during 1D array initialization!" << endl;
+    if (row <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
         return false;
     }
     if (nullptr == init_data) {
         cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
         return false;
     }
+    data = new(nothrow) T[row];
+    if (nullptr == data) {
+        cout << "Bad memory allocated during 1D array initialization!" << endl;
+        return false;
+    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
-- 
2.43.0


From 1bfe94dfceea2cc50885e85271e934801dae53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 05/61] fix: Initialize2DArray overflowed, leaked or
 dereferenced null for bad sizes or missing data

---
 src/utils_array.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 6aa699b..51a4e46 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -387,23 +387,28 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
-        delete[] data;
         cout << "Bad memory allocated during initialize rows of the 2D array!" << endl;
         return false;
     }
+    const vint64_t length = static_cast<vint64_t>(row) * col;
     T* pool = nullptr;
-    pool = new(nothrow) T[row * col];
+    pool = new(nothrow) T[length];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
     // Initialize the data pool
     T init = static_cast<T>(init_value);
 #pragma omp parallel for
-    for (int i = 0; i < row * col; i++) {
+    for (vint64_t i = 0; i < length; i++) {
         pool[i] = init;
     }
     // Now point the row pointers to the appropriate positions in the data pool
@@ -416,6 +421,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (nullptr == init_data || row <= 0 || col <= 0) {
+        cout << "The init_data MUST NOT be nullptr, rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
@@ -429,11 +438,14 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 
 template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
+    if (nullptr != data || nullptr == init_data || CVT_INT(init_data[0]) <= 0) {
+        cout << "The 2D array MUST be nullptr, init_data MUST NOT be nullptr, and rows MUST be greater than 0!" << endl;
+        return false;
+    }
     int idx = 0;
     rows = CVT_INT(init_data[idx++]);
     data = new(nothrow) T2* [rows];
     if (nullptr == data) {
-        delete[] data;
         cout << "Bad memory allocated during initialize rows of the 2D array!" << endl;
         return false;
     }
-- 
2.43.0


From d090b67fbe10da2f7bcb395e61adcf48f72dd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 06/61] fix: BatchRelease2DArray could not be instantiated

---
 src/utils_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 51a4e46..254f9a3 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -438,8 +438,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 
 template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
-    if (nullptr != data || nullptr == init_data || CVT_INT(init_data[0]) <= 0) {
-        cout << "The 2D array MUST be nullptr, init_data MUST NOT be nullptr, and rows MUST be greater than 0!" << endl;
+    if (nullptr == init_data || CVT_INT(init_data[0]) <= 0) {
+        cout << "The init_data MUST NOT be nullptr, and rows MUST be greater than 0!" << endl;
         return false;
     }
     int idx = 0;
@@ -506,10 +506,10 @@ template <typename T>
 void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From f7aaff6a10cef6b1506aee10ba3f6b5edb135140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 07/61] fix: ApprExp shifted by more than the word size for
 large arguments

---
 src/utils_math.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index b6885ba..26d1cfc 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -13,6 +13,7 @@
 #define CCGL_UTILS_MATH_H
 
 #include <cmath>
+#include <limits>
 
 #include "basic.h"
 #include "utils_array.h"
@@ -265,13 +266,11 @@ static inline T __p_exp_ln2(const T x) {
  */
 template <typename T>
 static inline T __p_exp_pos(const T x) {
-    long int k, twok;
     static const T ln2 = static_cast<T>(M_LN2);
-    T x_;
-    k = x / ln2;
-    twok = 1ULL << k;
-    x_ = x - static_cast<T>(k) * ln2;
-    return static_cast<T>(twok) * __p_exp_ln2(x_);
+    if (!(x < static_cast<T>(1024.0) * ln2)) return x * std::numeric_limits<T>::infinity(); // too large, or NaN
+    const int k = static_cast<int>(x / ln2);
+    const T x_ = x - static_cast<T>(k) * ln2;
+    return static_cast<T>(ldexp(__p_exp_ln2(x_), k));
 }
 
 template <typename T>
-- 
2.43.0


From 41c7160ee854de11343d02c2ae24749b2e391e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 08/61] fix: ApprPow converted out-of-range exponents to
 unsigned, giving garbage for very small or large powers

---
 src/utils_math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils_math.cpp b/src/utils_math.cpp
index c894331..7bbb050 100644
--- a/src/utils_math.cpp
+++ b/src/utils_math.cpp
@@ -358,7 +358,10 @@ float pow_lookup(const float exp, const float log_base) {
         float f;
         vuint32_t x;
     } u;
-    const vuint32_t i = static_cast<vuint32_t>(exp * M_2POW23 * log_base * CVT_FLT(M_LOG2E) + 127.0f * M_2POW23);
+    const float e = exp * M_2POW23 * log_base * CVT_FLT(M_LOG2E) + 127.0f * M_2POW23;
+    if (!(e > 0.0f)) return 0.0f; // underflow
+    if (e >= 255.0f * M_2POW23) return std::numeric_limits<float>::infinity(); // overflow
+    const vuint32_t i = static_cast<vuint32_t>(e);
     u.x = (i & 0xFF800000) | pow_mantissa_table[(i & 0x7FFFFF) >> (23 - pow_mantissa_table_shift)];
     return u.f;
 }
-- 
2.43.0


From 612195e9fab1dd164edc5843e93d1dba415687aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 09/61] fix: BasicStatistics reported wrong extremes for values
 beyond the float range

---
 src/utils_math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index 26d1cfc..177a1d2 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -388,8 +388,8 @@ void BasicStatistics(const T* values, const int num, double** derivedvalues,
     double std = 0.;
     for (int i = 0; i < num; i++) {
         if (FloatEqual(values[i], exclude)) continue;
-        if (maxv < values[i]) maxv = values[i];
-        if (minv > values[i]) minv = values[i];
+        if (validnum == 0 || maxv < values[i]) maxv = values[i];
+        if (validnum == 0 || minv > values[i]) minv = values[i];
         validnum += 1;
         sumv += values[i];
     }
@@ -430,8 +430,8 @@ void BasicStatistics(const T*const * values, const int num, const int lyrs,
     for (int i = 0; i < num; i++) {
         for (int j = 0; j < lyrs; j++) {
             if (FloatEqual(values[i][j], exclude)) continue;
-            if (tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
-            if (tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
+            if (tmpstats[0][j] < 1. || tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
+            if (tmpstats[0][j] < 1. || tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
             tmpstats[0][j] += 1;
             sumv[j] += values[i][j];
         }
-- 
2.43.0


From d74915a52428f2fe23aaae1e161ab65c51f2879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 10/61] fix: local date text was wrong around midnight while
 daylight saving is in effect

---
 src/utils_time.cpp | 77 ++++++++++++----------------------------------
 1 file changed, 20 insertions(+), 57 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..c06e95f 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -27,12 +27,26 @@ double TimeCounting() {
 #endif /* WINDOWS */
 }
 
+/*!
+ * \brief Express the local time \a t of \a date as standard time of the time zone, i.e., without daylight saving
+ */
+static void ToStandardTime(const time_t date, struct tm* t) {
+    if (t->tm_isdst <= 0) { return; }
+    struct tm std_time = *t;
+    std_time.tm_isdst = 0;
+    const time_t saving = mktime(&std_time) - date;
+    std_time = *t;
+#ifdef WINDOWS
+    UTCTime(_mkgmtime(&std_time) - saving, t);
+#else
+    UTCTime(timegm(&std_time) - saving, t);
+#endif
+}
+
 string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    ToStandardTime(date, date_info);
     char date_string[11];
     strftime(date_string, 11, "%Y-%m-%d", date_info);
     delete date_info;
@@ -40,32 +54,9 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
 }
 
 string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
-    static int month_days[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        if (date_info->tm_hour != 0) {
-            date_info->tm_hour -= 1;
-        } else {
-            date_info->tm_hour = 23;
-            date_info->tm_mday -= 1;
-            if (date_info->tm_mday == 0) {
-                date_info->tm_mon -= 1;
-
-                if (date_info->tm_mon == 0) {
-                    date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
-                    date_info->tm_mday = 31;
-                } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-                    } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
-                    }
-                }
-            }
-        }
-    }
+    ToStandardTime(date, date_info);
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
     string s(date_string);
@@ -74,35 +65,9 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
 }
 /// format: 2022_11_17_092000
 string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
-	static int month_days[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
 	struct tm* date_info = new tm();
 	GetDateTime(date, date_info, utc_time);
-	if (date_info->tm_isdst > 0) {
-		if (date_info->tm_hour != 0) {
-			date_info->tm_hour -= 1;
-		}
-		else {
-			date_info->tm_hour = 23;
-			date_info->tm_mday -= 1;
-			if (date_info->tm_mday == 0) {
-				date_info->tm_mon -= 1;
-
-				if (date_info->tm_mon == 0) {
-					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
-					date_info->tm_mday = 31;
-				}
-				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-					}
-					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
-					}
-				}
-			}
-		}
-	}
+	ToStandardTime(date, date_info);
 	char date_string[30];
 	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
@@ -182,9 +147,7 @@ time_t ConvertYMDToTime(int& year, int& month, int& day, const bool utc_time /*
 int GetDateInfoFromTimet(const time_t t, int* year, int* month, int* day, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(t, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    ToStandardTime(t, date_info);
 
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
-- 
2.43.0


From e0068674c31b5bb5b3c7667e2ed7677bf8054830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 11/61] fix: ConvertToTime computed with uninitialized fields
 for malformed text

---
 src/utils_time.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index c06e95f..ccd871c 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -81,18 +81,23 @@ time_t ConvertToTime(const string& str_date, string const& format, const bool in
     if (utils_string::StringMatch(str_date, "")) {
         return t;
     }
-    int yr;
-    int mn;
-    int dy;
+    int yr = 0;
+    int mn = 0;
+    int dy = 0;
     int hr = 0;
     int min = 0;
     int sec = 0;
 
     try {
+        int nfields = 0;
         if (include_hour) {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
+            nfields = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
         } else {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+            nfields = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+        }
+        if (nfields < 3) {
+            cout << "Error occurred when convert " + str_date + " to time_t!" << endl;
+            return t;
         }
         struct tm* time_info = new tm();
         time_info->tm_year = yr - 1900;
-- 
2.43.0


From ea4958a590a261cb30d216c14fca60c98ac9c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 12/61] fix: DateTime Forward and Backward ignored the given
 amount

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index ccd871c..2407015 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -455,17 +455,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + imilliseconds * 10000LL);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - imilliseconds * 10000LL);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From e6a822c69e7b5ddc2797beff931bbc108dccc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 13/61] fix: DateTime in UTC was an hour off while daylight
 saving is in effect, and ToUTCTime leaked

---
 src/utils_time.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 2407015..e34900a 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -299,6 +299,24 @@ DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds) {
     return dt;
 }
 
+/*!
+ * \brief Convert UTC time to DateTime, whose fields must not be adjusted to the daylight saving of the local zone
+ */
+static DateTime ConvertUTCTMToDateTime(const tm* time_info, vint milliseconds) {
+    struct tm local_info = *time_info;
+    local_info.tm_isdst = -1;
+    DateTime dt = ConvertTMToDateTime(&local_info, milliseconds);
+    dt.year = time_info->tm_year + 1900;
+    dt.month = time_info->tm_mon + 1;
+    dt.day = time_info->tm_mday;
+    dt.day_of_week = time_info->tm_wday;
+    dt.day_of_year = time_info->tm_yday;
+    dt.hour = time_info->tm_hour;
+    dt.minute = time_info->tm_min;
+    dt.second = time_info->tm_sec;
+    return dt;
+}
+
 vint GetCurrentMilliseconds() {
     struct timeval tv;
     gettimeofday(&tv, nullptr);
@@ -338,7 +356,7 @@ DateTime DateTime::UTCTime() {
 #else
     gmtime_r(&timer, time_info);
 #endif
-    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds());
+    DateTime dt = ConvertUTCTMToDateTime(time_info, GetCurrentMilliseconds());
     delete time_info;
     return dt;
 #endif /* CPP_MSVC */
@@ -447,8 +465,8 @@ DateTime DateTime::ToUTCTime() {
     gmtime_r(&timer, time_info);
 #endif
 
-    DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    DateTime dt = ConvertUTCTMToDateTime(time_info, milliseconds);
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 33e632be2810cbcddedc823e1882c7e24b5bf9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 14/61] fix: DateTime ToLocalTime applied today's UTC offset to
 every date and leaked

---
 src/utils_time.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index e34900a..280aa6b 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -435,17 +435,25 @@ DateTime DateTime::ToLocalTime() {
     SystemTimeToTzSpecificLocalTime(nullptr, &utc_time, &local_time);
     return SystemTimeToDateTime(local_time);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    time_t local_timer = time(nullptr);
-    time_t utc_timer = mktime(gmtime(&local_timer));
-    time_t timer = static_cast<time_t>(filetime / 1000) + local_timer - utc_timer;
     struct tm* time_info = new tm();
+    time_info->tm_year = year - 1900;
+    time_info->tm_mon = month - 1;
+    time_info->tm_mday = day;
+    time_info->tm_hour = hour;
+    time_info->tm_min = minute;
+    time_info->tm_sec = second;
+#if defined MINGW
+    time_t timer = _mkgmtime(time_info);
+#else
+    time_t timer = timegm(time_info);
+#endif
 #if defined MINGW
     localtime_s(time_info, &timer);
 #else
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 7f9079b9741cde10c7450d6ca8d52fc1b16ba731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 15/61] fix: core name and suffix of a file were taken from a
 dot in its directory name

---
 src/utils_filesystem.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..e524bb7 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -302,7 +302,7 @@ string GetCoreFileName(string const& full_filename) {
         start += 1;
     }
     string::size_type end = abspath.find_last_of('.');
-    if (end == string::npos) {
+    if (end == string::npos || end < start) {
         end = abspath.length();
     }
     return abspath.substr(start, end - start);
@@ -310,11 +310,12 @@ string GetCoreFileName(string const& full_filename) {
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
+    string::size_type sep = abspath.find_last_of(SEP);
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos || (sep != string::npos && dot < sep)) {
+        return "";
     }
-    return "";
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From 249b3ef842a38e9e6904e27d9ed9a65ba86a1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 16/61] fix: LoadPlainTextFile never returned for a directory
 and kept the previous contents of its result

---
 src/utils_filesystem.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index e524bb7..481d32a 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -375,22 +375,20 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
     bool b_status = false;
     std::ifstream myfile;
     string line;
+    content_strs.clear();
     try {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = !myfile.bad(); // e.g., a directory can be opened but not be read
+            if (!b_status) { content_strs.clear(); }
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From df206a0462f9e7e0ad471ee01b3f9246cba0bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 17/61] fix: DeleteExistedFile of a symbolic link deleted the
 linked file and left the link

---
 src/utils_filesystem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 481d32a..638debd 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -55,9 +55,8 @@ bool PathExists(string const& fullpath) {
 }
 
 int DeleteExistedFile(const string& filepath) {
-    string abspath = GetAbsolutePath(filepath);
-    if (FileExists(abspath)) {
-        return remove(abspath.c_str());
+    if (FileExists(filepath)) {
+        return remove(filepath.c_str()); // do not resolve a symbolic link, which would delete its target
     }
     return -1;
 }
-- 
2.43.0


From 55cf5db0671cdbab049431da9e6a2446486738f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 18/61] fix: FindFiles listed directories and files of other or
 no suffix, and reported success for a missing directory

---
 src/utils_filesystem.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 638debd..e79e18a 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -100,20 +100,31 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             if (h_file->d_name[0] == '.') continue;
 
             string filename(h_file->d_name);
-            // cout << filename<<endl;
-            string ext = GetSuffix(filename);
-            // cout << ext << "\t" << expression << endl;
-            string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
-                || utils_string::StringMatch(expression, ".*")
-                || utils_string::StringMatch(expression, "*.*")) {
-                std::ostringstream oss;
-                oss << newlp_path << SEP << filename;
-                cout << oss.str() << endl;
-                vec_files.emplace_back(oss.str());
+            string fullname = abspath + SEP + filename;
+            if (DirectoryExists(fullname)) continue;
+
+            bool matched = utils_string::StringMatch(expression, ".*")
+                    || utils_string::StringMatch(expression, "*.*");
+            string::size_type dot = filename.find_last_of('.');
+            string ext = dot == string::npos ? "" : filename.substr(dot + 1);
+            if (!matched && !ext.empty()) {
+                // the suffix must be one of the suffixes in the expression, e.g., "tif", ".tif", or "*.tif"
+                string exts(expression);
+                string::size_type begin = exts.find_first_not_of("*.,;| ");
+                while (!matched && begin != string::npos) {
+                    string::size_type end = exts.find_first_of("*.,;| ", begin);
+                    matched = utils_string::StringMatch(ext, exts.substr(begin, end - begin));
+                    begin = end == string::npos ? end : exts.find_first_not_of("*.,;| ", end);
+                }
+            }
+            if (matched) {
+                cout << fullname << endl;
+                vec_files.emplace_back(fullname);
             }
         }
         closedir(dir);
+    } else {
+        return -1;
     }
 #endif /* WINDOWS */
     return 0;
-- 
2.43.0


From b7d00cc99681f325beeef9dfd7daf2129c358c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 19/61] fix: CleanDirectory left hidden files behind and
 reported success

---
 src/utils_filesystem.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index e79e18a..047c03f 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -162,12 +162,23 @@ bool CleanDirectory(const string& dirpath) {
     try {
         if (DirectoryExists(abspath)) {
             /// empty the directory
+            int err_count = 0;
+#ifdef WINDOWS
             vector<string> existed_files;
             FindFiles(abspath.c_str(), "*.*", existed_files);
-            int err_count = 0;
             for (auto it = existed_files.begin(); it != existed_files.end(); ++it) {
                 if (remove((*it).c_str()) < 0) { err_count += 1; }
             }
+#else
+            DIR *dir = opendir(abspath.c_str());
+            if (dir == nullptr) { return false; }
+            struct dirent *entry;
+            while ((entry = readdir(dir)) != nullptr) {
+                if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, "..")) continue;
+                if (remove((abspath + SEP + entry->d_name).c_str()) < 0) { err_count += 1; }
+            }
+            closedir(dir);
+#endif /* WINDOWS */
             return err_count == 0;
         }
         return MakeDirectory(abspath);
-- 
2.43.0


From 317a5c59bb0630976acf31226326e45409570fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 20/61] fix: DeleteDirectory reported success although the
 directory could not be deleted

---
 src/utils_filesystem.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 047c03f..f878297 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -248,23 +248,24 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     dir = opendir(abspath.c_str());
     if (dir == nullptr) {
         perror("Error opendir()");
-        return true;
+        return false;
     }
 
     while ((entry = readdir(dir)) != nullptr) {
         if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
             snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
+            struct stat entry_stat; // d_type is not available on every file system
+            if (del_subdirs && lstat(path, &entry_stat) == 0 && S_ISDIR(entry_stat.st_mode)) {
                 DeleteDirectory(path, del_subdirs);
+            } else {
+                printf("Deleting: %s\n", path);
+                remove(path);
             }
-            printf("Deleting: %s\n", path);
-            remove(path);
         }
     }
     closedir(dir);
     printf("Deleting: %s\n", abspath.c_str());
-    remove(abspath.c_str());
-    return true;
+    return remove(abspath.c_str()) == 0;
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From fac747a0ae40242fdb6b607462d57057bca40659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 21/61] fix: ReadAscFile accepted incomplete grids,
 non-positive sizes and illegal cell values

---
 src/data_raster.hpp | 68 ++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..e53288f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -37,6 +37,9 @@
 #include <set>
 #include <fstream>
 #include <iomanip>
+#include <climits>
+#include <cmath>
+#include <limits>
 #include <typeinfo>
 #include <cassert>
 // include openmp if supported
@@ -204,6 +207,18 @@ RasterDataType RasterDataTypeInOptionals(const STRING_MAP& opts);
  */
 void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d);
 
+/*!
+ * \brief Check if a value can be converted to a cell data type without overflow
+ */
+template <typename T>
+bool RepresentableAs(const double v) {
+    if (std::numeric_limits<T>::is_integer) { // any fraction will be truncated
+        return std::trunc(v) >= CVT_DBL((std::numeric_limits<T>::min)())
+                && v < std::ldexp(1., std::numeric_limits<T>::digits);
+    }
+    return std::isinf(v) || !(std::fabs(v) > CVT_DBL((std::numeric_limits<T>::max)()));
+}
+
 /*!
  * \brief Read raster data from ASC file, the simply usage
  * \param[in] filename Full path of ASC raster file
@@ -216,45 +231,45 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     StatusMessage(("Read " + filename + "...").c_str());
     vector<string> content_strs;
     if (!LoadPlainTextFile(filename, content_strs)) { return false; }
-    if (content_strs.size() < 7) {
-        StatusMessage("Error: ASCII raster data requires at least 7 lines!");
-        return false;
-    }
     double cellsize = -1.;
     double xll = MISSINGFLOAT;
     double yll = MISSINGFLOAT;
     double nodata = MISSINGFLOAT;
+    bool xll_defined = false;
+    bool yll_defined = false;
     bool xllcorner = false;
     bool yllcorner = false;
-    int rows = -1;
-    int cols = -1;
-    int vidx = 0;
+    vint rows = -1; // in 64-bit to detect values that exceed the range of int
+    vint cols = -1;
+    vector<T> tmpvalues; // handed over to `values` only if the whole file is valid
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
         bool str2value = false;
         if (StringMatch(tokens[0], HEADER_RS_NCOLS)) {
             if (tokens.size() < 2) { return false; }
-            cols = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            cols = IsInt(tokens[1], str2value);
+            if (!str2value || !tmpvalues.empty()) { return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_NROWS)) {
             if (tokens.size() < 2) { return false; }
-            rows = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            rows = IsInt(tokens[1], str2value);
+            if (!str2value || !tmpvalues.empty()) { return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_XLL) ||
             StringMatch(tokens[0], HEADER_RS_XLLCOR)) {
             if (tokens.size() < 2) { return false; }
             xll = IsDouble(tokens[1], str2value);
-            if (StringMatch(tokens[0], HEADER_RS_XLLCOR)) { xllcorner = true; }
+            xll_defined = true;
+            xllcorner = StringMatch(tokens[0], HEADER_RS_XLLCOR);
             if (!str2value) { return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_YLL) ||
             StringMatch(tokens[0], HEADER_RS_YLLCOR)) {
             if (tokens.size() < 2) { return false; }
             yll = IsDouble(tokens[1], str2value);
-            if (StringMatch(tokens[0], HEADER_RS_YLLCOR)) { yllcorner = true; }
+            yll_defined = true;
+            yllcorner = StringMatch(tokens[0], HEADER_RS_YLLCOR);
             if (!str2value) { return false; }
         }
         else if (StringMatch(tokens[0], HEADER_RS_CELLSIZE)) {
@@ -268,28 +283,29 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (!str2value) { return false; }
         }
         else {
-            if (rows < 0 || cols < 0) {
-                StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+            if (rows <= 0 || cols <= 0 || rows > INT_MAX || cols > INT_MAX || rows * cols > INT_MAX) {
+                StatusMessage("Error: Valid NCOLS and NROWS MUST be defined before values!");
+                return false;
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
-                if (!str2value) {
-                    StatusMessage("Error: No value occurred in Raster data matrix!");
-                    if (nullptr != values) { Release1DArray(values); }
+                if (!str2value || !RepresentableAs<T>(tmpv)) {
+                    StatusMessage("Error: No or illegal value occurred in Raster data matrix!");
                     return false;
                 }
-                if (vidx == rows * cols) {
+                if (CVT_VINT(tmpvalues.size()) == rows * cols) {
                     StatusMessage("Error: Count of values MUST equal to rows * cols!");
-                    if (nullptr != values) { Release1DArray(values); }
                     return false;
                 }
-                values[vidx++] = static_cast<T>(tmpv);
+                tmpvalues.emplace_back(static_cast<T>(tmpv));
             }
         }
     }
-    if (rows < 0 || cols < 0 || cellsize < 0 ||
-        FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
+    if (tmpvalues.empty() || CVT_VINT(tmpvalues.size()) != rows * cols) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        return false;
+    }
+    if (!(cellsize > 0) || !xll_defined || !yll_defined) {
         StatusMessage("Error: Header information incomplete!");
         return false;
     }
@@ -304,8 +320,8 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     UpdateHeader(header, HEADER_RS_NODATA, nodata);
     UpdateHeader(header, HEADER_RS_LAYERS, 1);
     UpdateHeader(header, HEADER_RS_CELLSNUM, cols * rows);
-
-    return true;
+    Release1DArray(values);
+    return Initialize1DArray(CVT_INT(rows * cols), values, &tmpvalues[0]);
 }
 
 /*!
-- 
2.43.0


From c7b632228d9619b9ad976904e5138d191f728843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 22/61] fix: output type conversion of GeoTIFF wrapped values
 and mixed valid cells with NoData

---
 src/data_raster.hpp | 212 +++++++++++++-------------------------------
 1 file changed, 62 insertions(+), 150 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e53288f..6e48bf0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -589,6 +589,54 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Convert cell values to another data type for output
+ *
+ * NoData will be changed to \a default_nodata if it cannot be represented by the output data type.
+ *
+ * \param[in] n Number of cells
+ * \param[in] values Original cell values
+ * \param[in] old_nodata Original NoData
+ * \param[in] default_nodata Default NoData of the output data type
+ * \param[out] new_nodata NoData of the converted values
+ * \return Array allocated by VSIMalloc, nullptr if any valid value cannot be represented,
+ *         or cannot be distinguished from the new NoData.
+ */
+template <typename O, typename T>
+O* ConvertCellValues(const int n, const T* values, const double old_nodata, const O default_nodata, double& new_nodata) {
+    O* new_values = static_cast<O*>(VSIMalloc2(sizeof(O), n));
+    if (nullptr == new_values) { return nullptr; }
+    const bool both_integer = std::numeric_limits<T>::is_integer && std::numeric_limits<O>::is_integer;
+    O nodata = default_nodata;
+    if (RepresentableAs<O>(old_nodata)) {
+        O tmp = static_cast<O>(old_nodata);
+        if (!std::numeric_limits<O>::is_integer || FloatEqual(tmp, old_nodata)) { nodata = tmp; }
+    }
+    int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+    for (int i = 0; i < n; i++) {
+        if (FloatEqual(values[i], old_nodata)) {
+            new_values[i] = nodata;
+            continue;
+        }
+        if (!both_integer && !RepresentableAs<O>(CVT_DBL(values[i]))) {
+            illegal_count += 1;
+            continue;
+        }
+        new_values[i] = static_cast<O>(values[i]);
+        if ((both_integer && (static_cast<T>(new_values[i]) != values[i] || (new_values[i] < 0) != (values[i] < 0)))
+            || FloatEqual(new_values[i], nodata)) {
+            illegal_count += 1;
+        }
+    }
+    if (illegal_count > 0) {
+        VSIFree(new_values);
+        return nullptr;
+    }
+    new_nodata = CVT_DBL(nodata);
+    return new_values;
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -606,9 +654,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     void* new_values = nullptr;
     bool recreate_flag = true; // recreate data array because inconsistent of datatypes
     double old_nodata = header.at(HEADER_RS_NODATA);
-    bool change_nodata = false;
-    double new_nodata = old_nodata; // change nodata when convert signed datatype to unsigned
-    bool convert_permit = true; // DO NOT allow negative cell values be converted to unsigned datatype
+    double new_nodata = old_nodata; // may be changed when converted to another data type
     RasterDataType tmptype = TypeToRasterDataType(typeid(T));
     RasterDataType outtype = RasterDataTypeInOptionals(opts);
     if (outtype == RDT_Unknown) {
@@ -620,178 +666,44 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     else {
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
-            new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
-            unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
-                new_nodata = UINT8_MAX;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_uchar[i] = UINT8_MAX;
-                    continue;
-                }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
-                values_uchar[i] = static_cast<unsigned char>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<unsigned char>(n_cols * n_rows, values, old_nodata, UINT8_MAX, new_nodata);
         }
         else if (outtype == RDT_Int8) { // [-128, 127]
             // https://gdal.org/drivers/raster/gtiff.html
 #if GDAL_VERSION_MAJOR < 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR < 7)
             papsz_options = CSLSetNameValue(papsz_options, "PIXELTYPE", "SIGNEDBYTE");
 #endif
-            new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
-            signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
-                new_nodata = INT8_MIN;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_char[i] = INT8_MIN;
-                    continue;
-                }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
-                values_char[i] = static_cast<signed char>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<signed char>(n_cols * n_rows, values, old_nodata, INT8_MIN, new_nodata);
         }
         else if (outtype == RDT_UInt16) { // [0, 65535]
-            new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
-            vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
-                new_nodata = UINT16_MAX;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_uint16[i] = UINT16_MAX;
-                    continue;
-                }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
-                values_uint16[i] = static_cast<vuint16_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<vuint16_t>(n_cols * n_rows, values, old_nodata, UINT16_MAX, new_nodata);
         }
         else if (outtype == RDT_Int16) { // [-32768, 32767]
-            new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
-            vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
-                new_nodata = INT16_MIN;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_int16[i] = INT16_MIN;
-                    continue;
-                }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
-                values_int16[i] = static_cast<vint16_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<vint16_t>(n_cols * n_rows, values, old_nodata, INT16_MIN, new_nodata);
         }
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
-            new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
-            vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
-                new_nodata = UINT32_MAX;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_uint32[i] = UINT32_MAX;
-                    continue;
-                }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
-                values_uint32[i] = static_cast<vuint32_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<vuint32_t>(n_cols * n_rows, values, old_nodata, UINT32_MAX, new_nodata);
         }
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
-            new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
-            vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
-                new_nodata = INT32_MIN;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_int32[i] = INT32_MIN;
-                    continue;
-                }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
-                values_int32[i] = static_cast<vint32_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<vint32_t>(n_cols * n_rows, values, old_nodata, INT32_MIN, new_nodata);
         }
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >=5
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
-            new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
-            vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
-                new_nodata = UINT64_MAX;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_uint64[i] = UINT64_MAX;
-                    continue;
-                }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
-                values_uint64[i] = static_cast<vuint64_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+            new_values = ConvertCellValues<vuint64_t>(n_cols * n_rows, values, old_nodata, UINT64_MAX, new_nodata);
         }
-        else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
-            new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
-            vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
-                new_nodata = INT64_MIN;
-                change_nodata = true;
-            }
-            int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-            for (int i = 0; i < n_cols * n_rows; i++) {
-                if (FloatEqual(values[i], old_nodata) && change_nodata) {
-                    values_int64[i] = INT64_MIN;
-                    continue;
-                }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
-                values_int64[i] = static_cast<vint64_t>(values[i]);
-            }
-            if (illegal_count > 0) convert_permit = false;
+        else if (outtype == RDT_Int64) { // [-9223372036854775808, 9223372036854775807]
+            new_values = ConvertCellValues<vint64_t>(n_cols * n_rows, values, old_nodata, INT64_MIN, new_nodata);
         }
 #endif
         else if (outtype == RDT_Float) {
-            new_values = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
-            float* values_float = static_cast<float*>(new_values);
-#pragma omp parallel for
-            for (int i = 0; i < n_cols * n_rows; i++) values_float[i] = static_cast<float>(values[i]);
+            new_values = ConvertCellValues<float>(n_cols * n_rows, values, old_nodata,
+                                                  static_cast<float>(MISSINGFLOAT), new_nodata);
         }
         else if (outtype == RDT_Double) {
-            new_values = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-            double* values_double = static_cast<double*>(new_values);
-#pragma omp parallel for
-            for (int i = 0; i < n_cols * n_rows; i++) values_double[i] = static_cast<double>(values[i]);
+            new_values = ConvertCellValues<double>(n_cols * n_rows, values, old_nodata, MISSINGFLOAT, new_nodata);
         }
     }
-    if ((outtype == RDT_Unknown || (recreate_flag && nullptr == new_values))
-        || (!convert_permit)) {
+    if (outtype == RDT_Unknown || (recreate_flag && nullptr == new_values)) {
         cout << "Error: The specific raster output data type is not allowed!\n";
         if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
         if (new_values != nullptr) { CPLFree(new_values); }
-- 
2.43.0


From 3405067f464d89fd1fd4579da1bec914d471cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 23/61] fix: NoData of 64-bit integers was written wrongly to
 GeoTIFF, and failures when completing the file were ignored

---
 src/data_raster.hpp | 49 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6e48bf0..8adc65d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -219,6 +219,23 @@ bool RepresentableAs(const double v) {
     return std::isinf(v) || !(std::fabs(v) > CVT_DBL((std::numeric_limits<T>::max)()));
 }
 
+/*!
+ * \brief Convert a value, e.g., NoData, to a cell value. The maximum of a 64-bit integer is rounded up in double.
+ * \return false if the value cannot be represented by the cell data type
+ */
+template <typename T>
+bool CvtToCellValue(const double v, T& cell) {
+    if (RepresentableAs<T>(v)) {
+        cell = static_cast<T>(v);
+        return true;
+    }
+    if (std::numeric_limits<T>::digits > 53 && FloatEqual(v, std::ldexp(1., std::numeric_limits<T>::digits))) {
+        cell = (std::numeric_limits<T>::max)();
+        return true;
+    }
+    return false;
+}
+
 /*!
  * \brief Read raster data from ASC file, the simply usage
  * \param[in] filename Full path of ASC raster file
@@ -710,12 +727,16 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALDriver* po_driver = GetGDALDriverManager()->GetDriverByName("GTiff");
-    if (nullptr == po_driver) { return false; }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
-    GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
-                                               CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    GDALDataset* po_dst_ds = nullptr == po_driver ? nullptr
+                                 : po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
+                                                     CvtToGDALDataType(outtype), papsz_options);
+    if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+    if (nullptr == po_dst_ds) {
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
     if (!recreate_flag) {
@@ -728,12 +749,22 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (result != CE_None || nullptr == po_dst_band) {
         StatusMessage("RaterIO Error: " + string(CPLGetLastErrorMsg()));
-        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
         if (new_values != nullptr) { CPLFree(new_values); }
         GDALClose(po_dst_ds);
         return false;
     }
-    po_dst_band->SetNoDataValue(new_nodata);
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    if (outtype == RDT_Int64) { // GDAL writes NoData in double of 64-bit integers as an unreadable text
+        vint64_t nodata_int64 = 0;
+        if (CvtToCellValue(new_nodata, nodata_int64)) { po_dst_band->SetNoDataValueAsInt64(nodata_int64); }
+    }
+    else if (outtype == RDT_UInt64) {
+        vuint64_t nodata_uint64 = 0;
+        if (CvtToCellValue(new_nodata, nodata_uint64)) { po_dst_band->SetNoDataValueAsUInt64(nodata_uint64); }
+    }
+    else
+#endif
+    { po_dst_band->SetNoDataValue(new_nodata); }
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
@@ -748,9 +779,13 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     } else {
         po_dst_ds->SetProjection(opts.at(HEADER_RS_SRS).c_str());
     }
-    if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
+    CPLErrorReset(); // data may be written as late as the dataset is closed
     GDALClose(po_dst_ds);
+    if (CPLGetLastErrorType() == CE_Failure) {
+        StatusMessage("Write " + filename + " failed: " + string(CPLGetLastErrorMsg()));
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 76eb1d5cbf6eefe825c88a339bf37de55c8ca065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 24/61] fix: reading by GDAL leaked on errors, used
 uninitialized extremes and overflowed on huge sizes

---
 src/data_raster.hpp | 168 +++++++++++++-------------------------------
 1 file changed, 50 insertions(+), 118 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8adc65d..ab97a6a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -379,6 +379,31 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
 }
 
 #ifdef USE_GDAL
+/*!
+ * \brief Read all values of a raster band in type of \a B, and convert to \a T
+ */
+template <typename B, typename T>
+bool ReadGdalBandAs(GDALRasterBand* po_band, const GDALDataType gdal_type, T*& values) {
+    const int n_rows = po_band->GetYSize();
+    const int n_cols = po_band->GetXSize();
+    if (n_rows <= 0 || n_cols <= 0 || n_rows > INT_MAX / n_cols) {
+        StatusMessage("Error: Unsupported raster size!");
+        return false;
+    }
+    B* band_data = static_cast<B*>(VSIMalloc3(sizeof(B), n_cols, n_rows));
+    if (nullptr == band_data) {
+        StatusMessage("Error: Bad memory allocated for raster data!");
+        return false;
+    }
+    CPLErr result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, band_data,
+                                      n_cols, n_rows, gdal_type, 0, 0);
+    bool flag = result == CE_None;
+    if (!flag) { StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg())); }
+    else { flag = Initialize1DArray(n_rows * n_cols, values, band_data); }
+    VSIFree(band_data);
+    return flag;
+}
+
 /*!
  * \brief Read single raster file by GDAL
  * \param[in] filename Full path of raster data
@@ -399,25 +424,20 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
     GDALRasterBand* po_band = po_dataset->GetRasterBand(1);
+    if (nullptr == po_band) {
+        StatusMessage("No raster band in " + filename + ".");
+        GDALClose(po_dataset);
+        return false;
+    }
     int n_rows = po_band->GetYSize();
     int n_cols = po_band->GetXSize();
     int get_value_flag = false;
     double nodata = po_band->GetNoDataValue(&get_value_flag);
     int approx_minmax = false;
-    double minmax[2];
+    double minmax[2] = {0., 0.}; // remain unchanged if there is no valid value
     T* tmprasterdata = nullptr;
     bool read_as_signedbyte = false;
-    unsigned char* uchar_data = nullptr;
-    signed char* char_data = nullptr; // DO NOT use char*
-    vuint16_t* uint16_data = nullptr; // 16-bit unsigned integer
-    vint16_t* int16_data = nullptr;   // 16-bit signed integer
-    vuint32_t* uint32_data = nullptr; // 32-bit unsigned integer
-    vint32_t* int32_data = nullptr;   // 32-bit signed integer
-    vuint64_t* uint64_data = nullptr; // 64-bit unsigned integer
-    vint64_t* int64_data = nullptr;   // 64-bit signed integer
-    float* float_data = nullptr;
-    double* double_data = nullptr;
-    CPLErr result;
+    bool read_flag = false;
     switch (po_band->GetRasterDataType()) {
     case GDT_Byte:
         // In GDAL, GDT_Byte is an 8-bit unsigned integer (unsigned char), ranges from 0 to 255.
@@ -436,150 +456,61 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
             || (minmax[1] <= 127 && minmax[0] >= 0 && (!get_value_flag || (get_value_flag && nodata < 0)))) {
             read_as_signedbyte = true;
         }
-        uchar_data = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uchar_data,
-                                   n_cols, n_rows, GDT_Byte, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
         if (read_as_signedbyte) {
             StatusMessage("Read GDT_Byte raster as signed char!");
-            Initialize1DArray(n_rows * n_cols, char_data, uchar_data);
-            Initialize1DArray(n_rows * n_cols, tmprasterdata, char_data);
-            Release1DArray(char_data);
+            read_flag = ReadGdalBandAs<signed char>(po_band, GDT_Byte, tmprasterdata); // DO NOT use char
             in_type = RDT_Int8;
         } else {
             StatusMessage("Read GDT_Byte raster as unsigned char!");
-            Initialize1DArray(n_rows * n_cols, tmprasterdata, uchar_data);
+            read_flag = ReadGdalBandAs<unsigned char>(po_band, GDT_Byte, tmprasterdata);
             in_type = RDT_UInt8;
         }
-        CPLFree(uchar_data);
         break;
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 7
     case GDT_Int8:
-            char_data = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
-            result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, char_data,
-                                       n_cols, n_rows, GDT_Int8, 0, 0);
-            if (result != CE_None) {
-                StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-                GDALClose(po_dataset);
-                return false;
-            }
-            Initialize1DArray(n_rows * n_cols, tmprasterdata, char_data);
-            CPLFree(char_data);
-            in_type = RDT_Int8;
-            break;
+        read_flag = ReadGdalBandAs<signed char>(po_band, GDT_Int8, tmprasterdata);
+        in_type = RDT_Int8;
+        break;
 #endif
     case GDT_UInt16:
-        uint16_data = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint16_data,
-                                   n_cols, n_rows, GDT_UInt16, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, uint16_data);
-        CPLFree(uint16_data);
+        read_flag = ReadGdalBandAs<vuint16_t>(po_band, GDT_UInt16, tmprasterdata);
         in_type = RDT_UInt16;
         break;
     case GDT_Int16:
-        int16_data = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int16_data,
-                                   n_cols, n_rows, GDT_Int16, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, int16_data);
-        CPLFree(int16_data);
+        read_flag = ReadGdalBandAs<vint16_t>(po_band, GDT_Int16, tmprasterdata);
         in_type = RDT_Int16;
         break;
     case GDT_UInt32:
-        uint32_data = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint32_data,
-                                   n_cols, n_rows, GDT_UInt32, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, uint32_data);
-        CPLFree(uint32_data);
+        read_flag = ReadGdalBandAs<vuint32_t>(po_band, GDT_UInt32, tmprasterdata);
         in_type = RDT_UInt32;
         break;
     case GDT_Int32:
-        int32_data = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int32_data,
-                                   n_cols, n_rows, GDT_Int32, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, int32_data);
-        CPLFree(int32_data);
+        read_flag = ReadGdalBandAs<vint32_t>(po_band, GDT_Int32, tmprasterdata);
         in_type = RDT_Int32;
         break;
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
     case GDT_UInt64:
-        uint64_data = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint64_data,
-                                   n_cols, n_rows, GDT_UInt64, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, uint64_data);
-        CPLFree(uint64_data);
+        read_flag = ReadGdalBandAs<vuint64_t>(po_band, GDT_UInt64, tmprasterdata);
         in_type = RDT_UInt64;
         break;
     case GDT_Int64:
-        int64_data = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int64_data,
-                                   n_cols, n_rows, GDT_Int64, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, int64_data);
-        CPLFree(int64_data);
+        read_flag = ReadGdalBandAs<vint64_t>(po_band, GDT_Int64, tmprasterdata);
         in_type = RDT_Int64;
         break;
 #endif
     case GDT_Float32:
-        float_data = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, float_data,
-                                   n_cols, n_rows, GDT_Float32, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, float_data);
-        CPLFree(float_data);
+        read_flag = ReadGdalBandAs<float>(po_band, GDT_Float32, tmprasterdata);
         in_type = RDT_Float;
         break;
     case GDT_Float64:
-        double_data = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, double_data,
-                                   n_cols, n_rows, GDT_Float64, 0, 0);
-        if (result != CE_None) {
-            StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
-            GDALClose(po_dataset);
-            return false;
-        }
-        Initialize1DArray(n_rows * n_cols, tmprasterdata, double_data);
-        CPLFree(double_data);
+        read_flag = ReadGdalBandAs<double>(po_band, GDT_Float64, tmprasterdata);
         in_type = RDT_Double;
         break;
     default:
-        StatusMessage("Unexpected GDALDataType: " + string(RasterDataTypeToString(in_type)));
+        StatusMessage("Unexpected GDALDataType: " + string(GDALGetDataTypeName(po_band->GetRasterDataType())));
+        break;
+    }
+    if (!read_flag) {
         GDALClose(po_dataset);
         return false;
     }
@@ -602,6 +533,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
 
     GDALClose(po_dataset);
 
+    Release1DArray(values);
     values = tmprasterdata;
     return true;
 }
-- 
2.43.0


From b3939539d3a71ff3f17b5d1aeac629b924715dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 25/61] fix: DeleteExistedFile removed an empty directory

---
 src/utils_filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index f878297..277d2d0 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -56,7 +56,11 @@ bool PathExists(string const& fullpath) {
 
 int DeleteExistedFile(const string& filepath) {
     if (FileExists(filepath)) {
+#ifdef WINDOWS
         return remove(filepath.c_str()); // do not resolve a symbolic link, which would delete its target
+#else
+        return unlink(filepath.c_str()); // the same, but remove() would delete an empty directory
+#endif
     }
     return -1;
 }
-- 
2.43.0


From c2ea87752212202fba3c0d47fa2b8666aa0374e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 26/61] fix: ASC output lost header digits, wrote 8-bit
 integers as characters, mismatched NoData and ignored write errors

---
 src/data_raster.cpp |  23 +++++++---
 src/data_raster.hpp | 107 +++++++++++++++-----------------------------
 2 files changed, 54 insertions(+), 76 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..59bcafd 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -11,6 +11,9 @@
 
 #include "data_raster.hpp"
 
+#include <cstdlib>
+#include <sstream>
+
 namespace ccgl {
 namespace data_raster {
 string RasterDataTypeToString(const int type) {
@@ -186,6 +189,16 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
     }
 }
 
+string AscNumber(const double v) {
+    std::ostringstream oss;
+    for (int digits = 6; digits <= 17; digits++) {
+        oss.str("");
+        oss << setprecision(digits) << v;
+        if (strtod(oss.str().c_str(), nullptr) == v) { break; }
+    }
+    return oss.str();
+}
+
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
@@ -198,12 +211,12 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
-    raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
-    raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
-    raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_XLL << " " << AscNumber(header.at(HEADER_RS_XLL)) << endl;
+    raster_file << HEADER_RS_YLL << " " << AscNumber(header.at(HEADER_RS_YLL)) << endl;
+    raster_file << HEADER_RS_CELLSIZE << " " << AscNumber(header.at(HEADER_RS_CELLSIZE)) << endl;
+    raster_file << HEADER_RS_NODATA << " " << AscNumber(header.at(HEADER_RS_NODATA)) << endl;
     raster_file.close();
-    return true;
+    return !raster_file.fail();
 }
 
 /* Start SubsetPositions */
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ab97a6a..90e8ca3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -37,6 +37,7 @@
 #include <set>
 #include <fstream>
 #include <iomanip>
+#include <sstream>
 #include <climits>
 #include <cmath>
 #include <limits>
@@ -341,6 +342,11 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     return Initialize1DArray(CVT_INT(rows * cols), values, &tmpvalues[0]);
 }
 
+/*!
+ * \brief Text of a number with at least six significant digits, as many as required to be read exactly
+ */
+string AscNumber(double v);
+
 /*!
  * \brief Write raster header information into a ASC file. If the file exists, delete it first.
  * \param[in] filename ASC full file path
@@ -367,15 +373,29 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
+    double nodata = header.at(HEADER_RS_NODATA);
+    string nodata_str = AscNumber(nodata); // the same as in the header
+    std::ostringstream oss;
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            T value = values[i * cols + j];
+            if (FloatEqual(value, nodata)) {
+                raster_file << nodata_str << " ";
+                continue;
+            }
+            oss.str("");
+            oss << setprecision(6) << +value; // 8-bit integers are numbers rather than characters
+            if (!std::numeric_limits<T>::is_integer && FloatEqual(strtod(oss.str().c_str(), nullptr), nodata)) {
+                oss.str(""); // avoid a valid value becoming NoData
+                oss << setprecision(17) << value;
+            }
+            raster_file << oss.str() << " ";
         }
         raster_file << endl;
     }
     raster_file << endl;
     raster_file.close();
-    return true;
+    return !raster_file.fail();
 }
 
 #ifdef USE_GDAL
@@ -3031,77 +3051,22 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
     string abs_filename = GetAbsolutePath(filename);
-    // Is there need to calculate valid position index?
-    int count;
-    int** position = nullptr;
-    int* position_idx = nullptr;
-    bool outputdirectly = true;
-    if ((nullptr != pos_data_ || nullptr != pos_idx_)) {
-        GetRasterPositionData(&count, &position);
-        GetRasterPositionData(&count, &position_idx);
-        outputdirectly = false;
-        assert(nullptr != position);
-        assert(nullptr != position_idx);
-    }
-    // Begin to write raster data
-    int rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-    int cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
-    if (is_2draster) { // 3.1 2D raster data
-        string pre_path = GetPathFromFullName(abs_filename);
-        if (StringMatch(pre_path, "")) { return false; }
-        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
-            string tmpfilename = AppendCoreFileName(abs_filename, itoa(CVT_VINT(lyr)));
-            if (!WriteAscHeaders(tmpfilename, headers_)) { return false; }
-            std::ofstream raster_file(tmpfilename.c_str(), std::ios::app | std::ios::out);
-            if (!raster_file.is_open()) {
-                StatusMessage("Error opening file: " + tmpfilename);
-                return false;
-            }
-            int index = 0;
-            for (int i = 0; i < rows; ++i) {
-                for (int j = 0; j < cols; ++j) {
-                    if (outputdirectly) {
-                        index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
-                        continue;
-                    }
-                    if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
-                        index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
-                }
-                raster_file << endl;
-            }
-            raster_file.close();
-        }
-    } else { // 1D raster data
-        if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
-        std::ofstream raster_file(filename.c_str(), std::ios::app | std::ios::out);
-        if (!raster_file.is_open()) {
-            StatusMessage("Error opening file: " + abs_filename);
-            return false;
-        }
-        int index = 0;
-        for (int i = 0; i < rows; ++i) {
-            for (int j = 0; j < cols; ++j) {
-                if (outputdirectly) {
-                    index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
-                    continue;
-                }
-                if (index < n_cells_) {
-                    if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
-                        index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-            }
-            raster_file << endl;
+    bool outputdirectly = (nullptr == pos_data_ || nullptr == pos_idx_);
+    if (outputdirectly && !is_2draster) { return WriteSingleAsc(abs_filename, headers_, raster_); }
+    if (is_2draster && GetPathFromFullName(abs_filename).empty()) { return false; }
+    int fullsize = CVT_INT(headers_.at(HEADER_RS_NROWS)) * CVT_INT(headers_.at(HEADER_RS_NCOLS));
+    T* data_1d = nullptr;
+    if (!Initialize1DArray(fullsize, data_1d, no_data_value_)) { return false; }
+    bool outflag = true;
+    for (int lyr = 0; outflag && lyr < (is_2draster ? n_lyrs_ : 1); lyr++) {
+        for (int i = 0; i < (outputdirectly ? fullsize : n_cells_); i++) {
+            data_1d[outputdirectly ? i : pos_idx_[i]] = is_2draster ? raster_2d_[i][lyr] : raster_[i];
         }
-        raster_file.close();
+        outflag = WriteSingleAsc(is_2draster ? AppendCoreFileName(abs_filename, lyr + 1) : abs_filename,
+                                 headers_, data_1d);
     }
-    position = nullptr;
-    return true;
+    Release1DArray(data_1d);
+    return outflag;
 }
 
 #ifdef USE_GDAL
-- 
2.43.0


From f7023681900512fa7373cf5c7fac4c90a88a345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 27/61] fix: deprecated constructors of clsRasterData built a
 temporary and left the object uninitialized

---
 src/data_raster.hpp | 59 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 90e8ca3..a241ea9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1769,6 +1769,11 @@ private:
      */
     void InitializeRasterClass(bool is_2d = false);
 
+    /*!
+     * \brief Set header information of a full-sized grid
+     */
+    void SetGridHeader(int cols, int rows, int nlayers, T nodata, double dx, double xll, double yll);
+
     /*!
      * \brief Initialize read function for ASC, GDAL, and MongoDB
      */
@@ -1985,6 +1990,22 @@ void clsRasterData<T, MASK_T>::InitializeReadFunction(const string& filename, co
     CopyStringMap(opts, options_);
 }
 
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::SetGridHeader(const int cols, const int rows, const int nlayers, T nodata,
+                                             const double dx, const double xll, const double yll) {
+    no_data_value_ = nodata;
+    n_cells_ = cols * rows;
+    n_lyrs_ = nlayers;
+    UpdateHeader(headers_, HEADER_RS_NCOLS, cols);
+    UpdateHeader(headers_, HEADER_RS_NROWS, rows);
+    UpdateHeader(headers_, HEADER_RS_XLL, xll);
+    UpdateHeader(headers_, HEADER_RS_YLL, yll);
+    UpdateHeader(headers_, HEADER_RS_CELLSIZE, dx);
+    UpdateHeader(headers_, HEADER_RS_NODATA, nodata);
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
+    UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
+}
+
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
     InitializeRasterClass(is_2d);
@@ -1994,9 +2015,10 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
                                         const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+    InitializeRasterClass(false);
+    raster_ = data;
+    SetGridHeader(cols, rows, 1, nodata, dx, xll, yll);
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2006,27 +2028,18 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     raster_ = data;
-    no_data_value_ = nodata;
     CopyStringMap(opts, options_);
-    n_cells_ = cols * rows;
-    n_lyrs_ = 1;
-    UpdateHeader(headers_, HEADER_RS_NCOLS, cols);
-    UpdateHeader(headers_, HEADER_RS_NROWS, rows);
-    UpdateHeader(headers_, HEADER_RS_XLL, xll);
-    UpdateHeader(headers_, HEADER_RS_YLL, yll);
-    UpdateHeader(headers_, HEADER_RS_CELLSIZE, dx);
-    UpdateHeader(headers_, HEADER_RS_NODATA, nodata);
-    UpdateHeader(headers_, HEADER_RS_LAYERS, 1);
-    UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
+    SetGridHeader(cols, rows, 1, nodata, dx, xll, yll);
 }
 
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
                                         const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+    InitializeRasterClass(true);
+    raster_2d_ = data2d;
+    SetGridHeader(cols, rows, nlayers, nodata, dx, xll, yll);
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2036,18 +2049,8 @@ clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int ro
     InitializeRasterClass(true);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     raster_2d_ = data2d;
-    no_data_value_ = nodata;
     CopyStringMap(opts, options_);
-    n_cells_ = cols * rows;
-    n_lyrs_ = nlayers;
-    headers_[HEADER_RS_NCOLS] = cols;
-    headers_[HEADER_RS_NROWS] = rows;
-    headers_[HEADER_RS_XLL] = xll;
-    headers_[HEADER_RS_YLL] = yll;
-    headers_[HEADER_RS_CELLSIZE] = dx;
-    headers_[HEADER_RS_NODATA] = no_data_value_;
-    headers_[HEADER_RS_LAYERS] = n_lyrs_;
-    headers_[HEADER_RS_CELLSNUM] = n_cells_;
+    SetGridHeader(cols, rows, nlayers, nodata, dx, xll, yll);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From f47a76bba62c75c60f93b14e97e18590a5669a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 28/61] fix: constructor of clsRasterData from files left
 members uninitialized and read a single file twice

---
 src/data_raster.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a241ea9..67ce1dc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2088,14 +2088,11 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
     }
-    if (filenames.size() == 1) {
-        ReadFromFile(filenames[0], calc_pos, mask,
-                     use_mask_ext, default_value, opts);
-    }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
 }
-- 
2.43.0


From 95eb9855fcace8399f663e6b36e8cea7083fe91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 29/61] fix: statistics of all layers were never available, and
 became stale or dangling once released

---
 src/data_raster.hpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 67ce1dc..a96fb28 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2245,7 +2245,7 @@ clsRasterData<T, MASK_T>::~clsRasterData() {
     if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
     if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
     if (nullptr != raster_2d_ && is_2draster) { Release2DArray(raster_2d_); }
-    if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
+    ReleaseStatsMap2D();
     ReleaseSubset();
 }
 
@@ -2352,7 +2352,7 @@ void clsRasterData<T, MASK_T>::SetOutDataType(const string& strtype) {
 /************* Get information functions ***************/
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::CalculateStatistics() {
-    if (stats_calculated_) { return; }
+    if (stats_calculated_ || !ValidateRasterData()) { return; }
     if (stats_.empty() || stats_2d_.empty()) { InitialStatsMap(stats_, stats_2d_); }
     if (is_2draster && nullptr != raster_2d_) {
         double** derivedvs = nullptr;
@@ -2387,6 +2387,7 @@ void clsRasterData<T, MASK_T>::ReleaseStatsMap2D() {
         }
     }
     stats_2d_.clear();
+    stats_calculated_ = false;
 }
 
 template <typename T, typename MASK_T>
@@ -2403,15 +2404,12 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
         StatusMessage("No available raster statistics!");
         return CVT_DBL(default_value_);
     }
+    CalculateStatistics();
     if (is_2draster && nullptr != raster_2d_) {
         // for 2D raster data
         auto it = stats_2d_.find(sindex);
         if (it != stats_2d_.end()) {
-            if (nullptr == it->second) {
-                stats_calculated_ = false;
-                CalculateStatistics();
-            }
-            return stats_2d_.at(sindex)[lyr - 1];
+            return it->second[lyr - 1];
         }
         StatusMessage("WARNING: " + ValueToString(sindex) + " is not supported currently.");
         return CVT_DBL(default_value_);
@@ -2419,10 +2417,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
     // Else, for 1D raster data
     auto it = stats_.find(sindex);
     if (it != stats_.end()) {
-        if (FloatEqual(it->second, CVT_DBL(NODATA_VALUE)) || !stats_calculated_) {
-            CalculateStatistics();
-        }
-        return stats_.at(sindex);
+        return it->second;
     }
     StatusMessage("WARNING: " + ValueToString(sindex) + " is not supported currently.");
     return CVT_DBL(default_value_);
@@ -2430,26 +2425,20 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
     }
     sindex = GetUpper(sindex);
     *lyrnum = n_lyrs_;
+    CalculateStatistics();
     auto it = stats_2d_.find(sindex);
-    if (!Is2DRaster()) {
-        *values = nullptr;
-        return;
-    }
     if (it == stats_2d_.end()) {
         *values = nullptr;
         StatusMessage("WARNING: " + ValueToString(sindex) + " is not supported currently.");
         return;
     }
-    if (nullptr == it->second || !stats_calculated_) {
-        CalculateStatistics();
-    }
     *values = it->second;
 }
 
-- 
2.43.0


From 75d1bd33375b1a16b4a8c62a7acd0b4e80866cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 30/61] fix: Copy of a raster destroyed itself or shared
 positions, and lost or kept stale members

---
 src/data_raster.hpp | 53 +++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a96fb28..0222143 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1858,6 +1858,11 @@ private:
         }
     }
 
+    /*!
+     * \brief Release all data owned by the raster, i.e., values, positions, statistics, and subsets
+     */
+    void ReleaseData();
+
     /*!
      * \brief Operator= without implementation
      */
@@ -2241,10 +2246,19 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::~clsRasterData() {
     if (!core_name_.empty()) { StatusMessage(("Release raster: " + core_name_).c_str()); }
+    ReleaseData();
+}
+
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::ReleaseData() {
     if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
     if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
     if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
-    if (nullptr != raster_2d_ && is_2draster) { Release2DArray(raster_2d_); }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+    n_cells_ = -1;
     ReleaseStatsMap2D();
     ReleaseSubset();
 }
@@ -3494,49 +3508,40 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (nullptr == orgraster || this == orgraster) { return; }
     // Release current data
-    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
-        Release2DArray(raster_2d_);
-    }
-    if (!is_2draster && nullptr != raster_) {
-        Release1DArray(raster_);
-    }
-    if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
-    }
-    if (stats_calculated_) {
-        ReleaseStatsMap2D();
-        stats_calculated_ = false;
-    }
-    if (!subset_.empty()) {
-        ReleaseSubset();
-    }
+    ReleaseData();
     // Initialize now Raster and copy data
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
                            orgraster->GetDefaultValue(), orgraster->GetOptions());
+    core_name_ = orgraster->core_name_;
+    options_ = orgraster->options_;
+    use_mask_ext_ = orgraster->use_mask_ext_;
+    initialized_ = orgraster->initialized_;
     n_cells_ = orgraster->GetCellNumber();
     n_lyrs_ = orgraster->GetLayers();
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
         Initialize1DArray(n_cells_, raster_, orgraster->GetRasterDataPointer());
     }
-    if (calc_pos_) {
+    if (nullptr != orgraster->pos_data_) {
         store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, orgraster->GetRasterPositionDataPointer());
+    }
+    if (nullptr != orgraster->pos_idx_) {
+        store_pos_ = true;
         Initialize1DArray(n_cells_, pos_idx_, orgraster->GetRasterPositionIndexPointer());
     }
     stats_calculated_ = orgraster->StatisticsCalculated();
     if (stats_calculated_) {
+        InitialStatsMap(stats_, stats_2d_);
         if (is_2draster) {
             map<string, double *> stats2D = orgraster->GetStatistics2D();
             for (auto iter = stats2D.begin(); iter != stats2D.end(); ++iter) {
@@ -3551,7 +3556,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
             }
         }
     }
-    CopyHeader(orgraster->GetRasterHeader(), headers_);
+    headers_ = orgraster->headers_;
     // deep copy subset
     if (!orgraster->GetSubset().empty()) {
         for (auto it = orgraster->GetSubset().begin(); it != orgraster->GetSubset().end(); ++it) {
-- 
2.43.0


From 30551a678086049afea48bd907afa6c419946b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 31/61] fix: rasters constructed from a mask ignored its
 positions, and kept them when construction failed

---
 src/data_raster.hpp | 73 +++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0222143..3bc8333 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1858,6 +1858,17 @@ private:
         }
     }
 
+    /*!
+     * \brief Use the valid positions of mask, i.e., the pointers, for data of the same length
+     */
+    bool SharePositionsOfMask(clsRasterData<MASK_T>* mask, int len);
+
+    /*!
+     * \brief Set NoData value in the object and header. The default NoData of the data type
+     *        will be used if the value cannot be represented.
+     */
+    void SetNoDataValue(double nodata);
+
     /*!
      * \brief Release all data owned by the raster, i.e., values, positions, statistics, and subsets
      */
@@ -2126,26 +2137,51 @@ clsRasterData<T, MASK_T>* clsRasterData<T, MASK_T>::Init(vector<string>& filenam
     return rs2d;
 }
 
+template <typename T, typename MASK_T>
+bool clsRasterData<T, MASK_T>::SharePositionsOfMask(clsRasterData<MASK_T>* mask, const int len) {
+    int** mask_pos = nullptr;
+    int* mask_idx = nullptr;
+    int mask_len = -1;
+    if (nullptr != mask) {
+        if (!mask->PositionsCalculated()) { mask->SetCalcPositions(); }
+        mask->GetRasterPositionData(&mask_len, &mask_pos);
+        mask->GetRasterPositionData(&mask_len, &mask_idx);
+    }
+    if (mask_len < 1 || mask_len != len) {
+        StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
+        initialized_ = false;
+        return false;
+    }
+    calc_pos_ = true;
+    store_pos_ = false;
+    mask_ = mask;
+    use_mask_ext_ = true;
+    n_cells_ = mask_len;
+    pos_data_ = mask_pos;
+    pos_idx_ = mask_idx;
+    return true;
+}
+
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::SetNoDataValue(const double nodata) {
+    if (!CvtToCellValue(nodata, no_data_value_)) {
+        no_data_value_ = DefaultNoDataByType(TypeToRasterDataType(typeid(T)));
+    }
+    UpdateHeader(headers_, HEADER_RS_NODATA, no_data_value_);
+}
+
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const values, const int len,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
-    mask_ = mask;
-    use_mask_ext_ = true;
+    if (!SharePositionsOfMask(mask, len)) { return; }
     n_lyrs_ = 1;
-    mask->GetRasterPositionData(&n_cells_, &pos_data_);
-    mask->GetRasterPositionData(&n_cells_, &pos_idx_);
-    if (n_cells_ != len) {
-        StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
-        initialized_ = false;
-        return;
-    }
     Initialize1DArray(n_cells_, raster_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
-    no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    SetNoDataValue(CVT_DBL(mask_->GetNoDataValue()));
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
 }
@@ -2154,20 +2190,13 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
-    mask_ = mask;
-    use_mask_ext_ = true;
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
+    if (!SharePositionsOfMask(mask, len)) { return; }
     n_lyrs_ = lyrs;
-    mask->GetRasterPositionData(&n_cells_, &pos_data_);
-    mask->GetRasterPositionData(&n_cells_, &pos_idx_);
-    if (n_cells_ != len) {
-        StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
-        initialized_ = false;
-        return;
-    }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
-    no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    SetNoDataValue(CVT_DBL(mask_->GetNoDataValue()));
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     CopyStringMap(opts, options_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
-- 
2.43.0


From 064aa9fafc06c4cd84bfa4a32cf56ecc389066c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 32/61] fix: reading rasters of several layers used layers that
 failed to be read, and repeated reading kept stale data

---
 src/data_raster.hpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3bc8333..6064046 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1967,7 +1967,8 @@ void clsRasterData<T, MASK_T>::InitializeRasterClass(bool is_2d /* = false */) {
     n_cells_ = -1;
     rs_type_ = RDT_Unknown;
     rs_type_out_ = RDT_Unknown;
-    no_data_value_ = DefaultNoDataByType(TypeToRasterDataType(typeid(T)));
+    no_data_value_ = T();
+    CvtToCellValue(CVT_DBL(DefaultNoDataByType(TypeToRasterDataType(typeid(T)))), no_data_value_);
     //no_data_value_ = static_cast<T>(NODATA_VALUE); // Be careful of unsigned data type!
     default_value_ = NODATA_VALUE;
     raster_ = nullptr;
@@ -2165,7 +2166,7 @@ bool clsRasterData<T, MASK_T>::SharePositionsOfMask(clsRasterData<MASK_T>* mask,
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::SetNoDataValue(const double nodata) {
     if (!CvtToCellValue(nodata, no_data_value_)) {
-        no_data_value_ = DefaultNoDataByType(TypeToRasterDataType(typeid(T)));
+        CvtToCellValue(CVT_DBL(DefaultNoDataByType(TypeToRasterDataType(typeid(T)))), no_data_value_);
     }
     UpdateHeader(headers_, HEADER_RS_NODATA, no_data_value_);
 }
@@ -2242,6 +2243,8 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        double default_value /* NODATA_VALUE */,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    ReleaseData(); // in case of the raster has been read before
+    is_2draster = false;
 
     bool readflag = false;
     string srs = string();
@@ -2256,7 +2259,8 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 #endif /* USE_GDAL */
     }
     // After read raster data from ASCII file or GeoTiff.
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    if (!readflag) { return false; }
+    SetNoDataValue(headers_.at(HEADER_RS_NODATA));
     UpdateStrHeader(options_, HEADER_RS_SRS, srs);
     // if not specified, set output data type the same as input
     if (rs_type_out_ == 0) {
@@ -2264,12 +2268,12 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(rs_type_out_));
     }
     CheckDefaultValue();
-    if (readflag) {
-        if (n_lyrs_ < 0) { n_lyrs_ = 1; }
-        if (is_2draster) { is_2draster = false; }
-        return MaskAndCalculateValidPosition() >= 0;
+    if (n_lyrs_ < 0) { n_lyrs_ = 1; }
+    if (MaskAndCalculateValidPosition() < 0) {
+        ReleaseData();
+        return false;
     }
-    return false;
+    return true;
 }
 
 template <typename T, typename MASK_T>
@@ -2725,7 +2729,7 @@ void clsRasterData<T, MASK_T>::SetHeader(const STRDBL_MAP& refers) {
     it = headers_.find(HEADER_RS_LAYERS);
     if (it != headers_.end()) { n_lyrs_ = CVT_INT(it->second); }
     it = headers_.find(HEADER_RS_NODATA);
-    if (it != headers_.end()) { no_data_value_ = static_cast<T>(it->second); }
+    if (it != headers_.end()) { SetNoDataValue(it->second); }
 }
 
 
@@ -3316,6 +3320,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFile(const string& filename, const bool c
     if (!FileExists(filename)) { return false; }
     if (!initialized_) { InitializeRasterClass(); }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
+    n_lyrs_ = 1;
     return ConstructFromSingleFile(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 }
 
@@ -3325,7 +3330,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
                                              const bool use_mask_ext /* = true */,
                                              double default_value /* NODATA_VALUE */,
                                              const STRING_MAP& opts /* = STRING_MAP() */) {
-    if (!FilesExist(filenames)) { return false; }
+    if (filenames.empty() || !FilesExist(filenames)) { return false; }
     n_lyrs_ = CVT_INT(filenames.size());
     if (n_lyrs_ == 1) { return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts); }
     if (!initialized_) { InitializeRasterClass(true); }
@@ -3357,19 +3362,25 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool lyrflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            lyrflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            lyrflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
-            return false;
 #endif
         }
+        if (!lyrflag) {
+            Release1DArray(tmplyrdata);
+            ReleaseData();
+            is_2draster = false;
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
-- 
2.43.0


From b156e6d519f6342086133a61386f1070d5ee4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 33/61] fix: coordinates in the outer half of the first column
 and last row were regarded as outside of the raster

---
 src/data_raster.hpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6064046..058c3fd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2532,7 +2532,6 @@ int clsRasterData<T, MASK_T>::GetPosition(const double x, const double y) {
     double xll_center = GetXllCenter();
     double yll_center = GetYllCenter();
     double dx = GetCellWidth();
-    double dy = GetCellWidth();
     int n_rows = GetRows();
     int n_cols = GetCols();
 
@@ -2544,22 +2543,10 @@ int clsRasterData<T, MASK_T>::GetPosition(const double x, const double y) {
         return -2;
     }
 
-    double x_min = xll_center - dx / 2.;
-    double x_max = x_min + dx * n_cols;
-    if (x > x_max || x < x_min) {
-        return -2;
-    }
-
-    double y_min = yll_center - dy / 2.;
-    double y_max = y_min + dy * n_rows;
-    if (y > y_max || y < y_min) {
-        return -2;
-    }
-
-    int n_row = CVT_INT((y_max - y) / dy); //calculate from ymax
-    int n_col = CVT_INT((x - x_min) / dx); //calculate from xmin
+    ROW_COL row_col = GetPositionByCoordinate(x, y);
+    if (row_col.first < 0 || row_col.second < 0) { return -2; }
 
-    return GetPosition(n_row, n_col);
+    return GetPosition(row_col.first, row_col.second);
 }
 
 template <typename T, typename MASK_T>
@@ -3686,10 +3673,10 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if (!(x >= x_min && x < x_max && y > y_min && y <= y_max)) { // including NaN
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    return ROW_COL(Min(CVT_INT((y_max - y) / dy), n_rows - 1), Min(CVT_INT((x - x_min) / dx), n_cols - 1));
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 5e63eb18dc068cdc1d72f1373c1e0388dc53c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 34/61] fix: masking released positions of the mask, altered or
 shifted values, and dropped default values with mask extent

---
 src/data_raster.hpp | 190 +++++++++++++++++++-------------------------
 1 file changed, 81 insertions(+), 109 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 058c3fd..f37993f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3751,7 +3751,6 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
 
 template <typename T, typename MASK_T>
 int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
-    int old_fullsize = GetRows() * GetCols();
     if (nullptr == mask_) {
         if (calc_pos_) {
             if (nullptr == pos_data_ || nullptr == pos_idx_) {
@@ -3760,7 +3759,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
             return 0;
         }
-        n_cells_ = old_fullsize;
+        n_cells_ = GetRows() * GetCols();
         UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
         // do nothing
         return 0;
@@ -3774,6 +3773,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (mask_ncells < 1 || nullptr == valid_pos) { return -1; } // mask has no valid cell
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
@@ -3786,31 +3786,25 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     int min_col = mask_cols;
     int masked_count = 0; // position matched count
     int matched_count = 0; // valid value matched count
+    // Default value of the locations where mask is valid and the raster data is NoData
+    T default_cell = no_data_value_;
+    if (!FloatEqual(default_value_, no_data_value_)) { CvtToCellValue(default_value_, default_cell); }
     // Get the valid data according to coordinate
+    int valid_count = 0; // count of values except NoData, including default values
     for (int i = 0; i < mask_ncells; i++) {
         int tmp_row = valid_pos[i][0];
         int tmp_col = valid_pos[i][1];
+        pos_rows[i] = tmp_row;
+        pos_cols[i] = tmp_col;
+        values[i] = no_data_value_; // location may exceed the extent of raster data
+        if (is_2draster && n_lyrs_ > 1) { values_2d[i].assign(n_lyrs_ - 1, no_data_value_); }
         XY_COOR tmp_xy = mask_->GetCoordinateByRowCol(tmp_row, tmp_col);
         ROW_COL tmp_pos = GetPositionByCoordinate(tmp_xy.first, tmp_xy.second);
-        T tmp_value;
-        if (tmp_pos.first == -1 || tmp_pos.second == -1) {
-            tmp_value = no_data_value_; // location exceeds the extent of raster data
-            if (is_2draster && n_lyrs_ > 1) {
-                vector<T> tmp_values(n_lyrs_ - 1);
-                for (int lyr = 1; lyr < n_lyrs_; lyr++) { tmp_values[lyr - 1] = no_data_value_; }
-                values_2d[i] = tmp_values;
-            }
-            values[i] = tmp_value;
-            pos_rows[i] = tmp_row;
-            pos_cols[i] = tmp_col;
-            continue;
-        }
-        tmp_value = GetValue(tmp_pos.first, tmp_pos.second, 1);
-        if (FloatEqual(tmp_value, no_data_value_)) {
-            if (!FloatEqual(default_value_, no_data_value_)) {
-                tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
-            }
+        if (tmp_pos.first == -1 || tmp_pos.second == -1) { continue; }
+        masked_count++;
+        values[i] = GetValue(tmp_pos.first, tmp_pos.second, 1);
+        if (FloatEqual(values[i], no_data_value_)) {
+            values[i] = default_cell;
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
             if (max_row < tmp_row) max_row = tmp_row;
@@ -3818,25 +3812,18 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             if (max_col < tmp_col) max_col = tmp_col;
             if (min_col > tmp_col) min_col = tmp_col;
         }
+        if (!FloatEqual(values[i], no_data_value_)) { valid_count++; }
         if (is_2draster && n_lyrs_ > 1) {
-            vector<T> tmp_values(n_lyrs_ - 1);
             for (int lyr = 1; lyr < n_lyrs_; lyr++) {
-                tmp_values[lyr - 1] = GetValue(tmp_pos.first, tmp_pos.second, lyr + 1);
-                if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
-                    && !FloatEqual(default_value_, no_data_value_)) {
-                    tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
-                }
+                T tmp_value = GetValue(tmp_pos.first, tmp_pos.second, lyr + 1);
+                values_2d[i][lyr - 1] = FloatEqual(tmp_value, no_data_value_) ? default_cell : tmp_value;
             }
-            values_2d[i] = tmp_values;
         }
-        values[i] = tmp_value;
-        pos_rows[i] = tmp_row;
-        pos_cols[i] = tmp_col;
-        masked_count++;
     }
     if (masked_count == 0) { return -1; }
-    n_cells_ = masked_count;
+    // Nothing would be left if the extent or valid cells are determined by the raster data
+    if (valid_count == 0 && calc_pos_) { return -1; }
+    if (matched_count == 0 && !use_mask_ext_) { return -1; }
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
     CopyHeader(mask_->GetRasterHeader(), headers_);
@@ -3851,6 +3838,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
+            // data of mask's subset is not the data of current raster
+            if (nullptr != tmp->data_) { Release1DArray(tmp->data_); }
+            if (nullptr != tmp->data2d_) { Release2DArray(tmp->data2d_); }
             tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
@@ -3939,7 +3929,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
+    if (mask_has_subset && (upd_header_rowcol || recalc_pos)) {
         recalc_subset = true;
     }
     // Update row and col counts in header information firstly.
@@ -3951,44 +3941,38 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         headers_.at(HEADER_RS_CELLSIZE) = mask_->GetCellWidth();
     }
 
+    // Release position data of the original raster, which may be pointed to mask's
+    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
     // ReCalculate valid position
     if (recalc_pos) {
         // clean redundant values (i.e., NODATA)
-        auto rit = pos_rows.begin();
-        auto cit = pos_cols.begin();
-        auto vit = values.begin();
-        auto data2dit = values_2d.begin();
-        for (auto it = values.begin(); it != values.end();) {
-            size_t idx = distance(vit, it);
-            int tmpr = pos_rows.at(idx);
-            int tmpc = pos_cols.at(idx);
-            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col
-                || FloatEqual(static_cast<T>(*it), no_data_value_)) {
-                it = values.erase(it);
-                if (is_2draster && n_lyrs_ > 1) {
-                    values_2d.erase(data2dit + idx);
-                    data2dit = values_2d.begin();
-                }
-                pos_cols.erase(cit + idx);
-                pos_rows.erase(rit + idx);
-                rit = pos_rows.begin(); // reset the iterators
-                cit = pos_cols.begin();
-                vit = values.begin();
-            } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
-                ++it;
+        size_t kept = 0;
+        for (size_t idx = 0; idx < values.size(); idx++) {
+            int tmpr = pos_rows[idx];
+            int tmpc = pos_cols[idx];
+            if (FloatEqual(values[idx], no_data_value_)) { continue; }
+            if (upd_header_rowcol) { // get new column and row number
+                if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col) { continue; }
+                tmpr -= min_row;
+                tmpc -= min_col;
             }
+            values[kept] = values[idx];
+            if (is_2draster && n_lyrs_ > 1) { values_2d[kept] = values_2d[idx]; }
+            pos_rows[kept] = tmpr;
+            pos_cols[kept] = tmpc;
+            kept++;
         }
-        vector<T>(values).swap(values);
-        if (is_2draster && n_lyrs_ > 1) { vector<vector<T> >(values_2d).swap(values_2d); }
-        vector<int>(pos_rows).swap(pos_rows);
-        vector<int>(pos_cols).swap(pos_cols);
+        values.resize(kept);
+        if (is_2draster && n_lyrs_ > 1) { values_2d.resize(kept); }
+        pos_rows.resize(kept);
+        pos_cols.resize(kept);
 
         store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4000,14 +3984,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 pos_idx_[k] = pos_rows.at(k) * mask_cols + pos_cols.at(k);
             }
         }
-    } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
-        if (calc_pos_) {
-            mask_->GetRasterPositionData(&n_cells_, &pos_data_);
-            mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-        }
-        store_pos_ = false;
+    } else if (calc_pos_) {
+        mask_->GetRasterPositionData(&n_cells_, &pos_data_);
+        mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
     }
 
     // Release the original raster values, and create new
@@ -4018,45 +3997,41 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (store_fullsize) {
         n_cells_ = ncols * nrows;
     }
-    bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
+    if (is_2draster && nullptr != raster_2d_) { // multiple layers
+        Release2DArray(raster_2d_);
+        Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    } else { // single layer
+        Release1DArray(raster_);
+        Initialize1DArray(n_cells_, raster_, no_data_value_);
     }
-    if (release_origin) {
-        if (is_2draster && nullptr != raster_2d_) { // multiple layers
-            Release2DArray(raster_2d_);
-            Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
-        } else { // single layer
-            Release1DArray(raster_);
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
-        }
-        // Loop the masked raster values
-        size_t synthesis_idx = 0;
-        for (size_t k = 0; k < pos_rows.size(); ++k) {
-            synthesis_idx = k;
-            int tmpr = pos_rows.at(k);
-            int tmpc = pos_cols.at(k);
-            if (store_fullsize) {
-                if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col) {
-                    continue;
-                }
-                synthesis_idx = (tmpr - min_row) * ncols + tmpc - min_col;
-                if (synthesis_idx > n_cells_ - 1) {
-                    continue; // error may occurred!
-                }
+    // Loop the masked raster values
+    size_t synthesis_idx = 0;
+    for (size_t k = 0; k < pos_rows.size(); ++k) {
+        synthesis_idx = k;
+        int tmpr = pos_rows.at(k);
+        int tmpc = pos_cols.at(k);
+        if (store_fullsize) {
+            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col) {
+                continue;
             }
-            if (is_2draster) { // multiple layers
-                raster_2d_[synthesis_idx][0] = values.at(k);
-                if (n_lyrs_ > 1) {
-                    for (int lyr = 1; lyr < n_lyrs_; lyr++) {
-                        raster_2d_[synthesis_idx][lyr] = values_2d[k][lyr - 1];
-                    }
+            synthesis_idx = (tmpr - min_row) * ncols + tmpc - min_col;
+            if (synthesis_idx > n_cells_ - 1) {
+                continue; // error may occurred!
+            }
+        }
+        if (is_2draster) { // multiple layers
+            raster_2d_[synthesis_idx][0] = values.at(k);
+            if (n_lyrs_ > 1) {
+                for (int lyr = 1; lyr < n_lyrs_; lyr++) {
+                    raster_2d_[synthesis_idx][lyr] = values_2d[k][lyr - 1];
                 }
-            } else { // single layer
-                raster_[synthesis_idx] = values.at(k);
             }
+        } else { // single layer
+            raster_[synthesis_idx] = values.at(k);
         }
     }
+    // Statistics of the original raster are outdated
+    if (stats_calculated_) { ReleaseStatsMap2D(); }
 
     if (upd_header_valid_num) {
         UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
@@ -4127,9 +4102,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
-                it->second->alloc_ = true;
             }
             ++it;
         }
-- 
2.43.0


From f0a9cd3b15cf766d3e257869b3737513d445ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 35/61] fix: calculating valid positions of a raster without
 valid cells discarded it, or left outdated subsets

---
 src/data_raster.hpp | 67 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f37993f..2ed6884 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -32,6 +32,7 @@
 #define CCGL_DATA_RASTER_H
 
 // include base headers
+#include <algorithm>
 #include <string>
 #include <map>
 #include <set>
@@ -1811,7 +1812,7 @@ private:
      * To use this function, mask should be nullptr.
      *
      */
-    void CalculateValidPositionsFromGridData();
+    bool CalculateValidPositionsFromGridData();
 
     /*!
      * \brief Prepare combination data array of subsets for output
@@ -2582,12 +2583,11 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int*** pos
         *positiondata = pos_data_;
     } else {
         // reCalculate position data
-        if (!ValidateRasterData()) {
+        if (!ValidateRasterData() || !CalculateValidPositionsFromGridData()) {
             *datalength = -1;
             *positiondata = nullptr;
             return;
         }
-        CalculateValidPositionsFromGridData();
         *datalength = n_cells_;
         *positiondata = pos_data_;
     }
@@ -2600,12 +2600,11 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
         *positiondata = pos_idx_;
     } else {
         // reCalculate position data
-        if (!ValidateRasterData()) {
+        if (!ValidateRasterData() || !CalculateValidPositionsFromGridData()) {
             *datalength = -1;
             *positiondata = nullptr;
             return;
         }
-        CalculateValidPositionsFromGridData();
         *datalength = n_cells_;
         *positiondata = pos_idx_;
     }
@@ -2747,14 +2746,21 @@ bool clsRasterData<T, MASK_T>::SetCalcPositions() {
         return false;
     }
     calc_pos_ = true;
-    return MaskAndCalculateValidPosition() >= 0;
+    if (MaskAndCalculateValidPosition() < 0) {
+        calc_pos_ = false;
+        return false;
+    }
+    return true;
 }
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
     if (nullptr != pos_data_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release2DArray(pos_data_);
+        if (store_pos_) {
+            Release2DArray(pos_data_);
+            if (nullptr != pos_idx_) { Release1DArray(pos_idx_); } // both should be set
+        }
     }
     pos_data_ = pdata;
     calc_pos_ = true;
@@ -2766,7 +2772,10 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
     if (nullptr != pos_idx_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release1DArray(pos_idx_);
+        if (store_pos_) {
+            Release1DArray(pos_idx_);
+            if (nullptr != pos_data_) { Release2DArray(pos_data_); } // both should be set
+        }
     }
     pos_idx_ = pdata;
     calc_pos_ = true;
@@ -2780,7 +2789,11 @@ bool clsRasterData<T, MASK_T>::SetUseMaskExt() {
     if (nullptr == mask_) return false;
     if (use_mask_ext_) return false; // already set as True, no need to recalculate.
     use_mask_ext_ = true;
-    return MaskAndCalculateValidPosition() >= 0;
+    if (MaskAndCalculateValidPosition() < 0) {
+        use_mask_ext_ = false;
+        return false;
+    }
+    return true;
 }
 
 /************* Output to file functions ***************/
@@ -3680,7 +3693,8 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 }
 
 template <typename T, typename MASK_T>
-void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
+bool clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
+    if (nullptr != pos_data_ || nullptr != pos_idx_) { return false; } // not grid data any more
     vector<T> values; // store 1st layer for both Rater1D and Raster2D
     vector<vector<T> > values_2d; // store layer 2~n
     vector<int> pos_rows;
@@ -3716,6 +3730,10 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
     }
     vector<int>(pos_rows).swap(pos_rows);
     vector<int>(pos_cols).swap(pos_cols);
+    if (values.empty()) {
+        StatusMessage("Error: There are no valid cells!");
+        return false;
+    }
     // reCreate raster data array
     n_cells_ = CVT_INT(values.size());
     UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
@@ -3747,6 +3765,32 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    // Global indexes of subsets (if exist) refer to grid data, update them to indexes of valid cells
+    for (auto it = subset_.begin(); it != subset_.end();) {
+        SubsetPositions* sub = it->second;
+        int kept = 0;
+        for (int i = 0; i < sub->n_cells; i++) {
+            int* found = std::lower_bound(pos_idx_, pos_idx_ + n_cells_, sub->global_[i]);
+            if (found == pos_idx_ + n_cells_ || *found != sub->global_[i]) { continue; }
+            sub->global_[kept] = CVT_INT(found - pos_idx_);
+            sub->local_pos_[kept][0] = sub->local_pos_[i][0];
+            sub->local_pos_[kept][1] = sub->local_pos_[i][1];
+            sub->local_posidx_[kept] = sub->local_posidx_[i];
+            if (nullptr != sub->data_) { sub->data_[kept] = sub->data_[i]; }
+            for (int lyr = 0; nullptr != sub->data2d_ && lyr < sub->n_lyrs; lyr++) {
+                sub->data2d_[kept][lyr] = sub->data2d_[i][lyr];
+            }
+            kept++;
+        }
+        sub->n_cells = kept;
+        if (kept == 0) {
+            delete sub;
+            subset_.erase(it++);
+        } else {
+            ++it;
+        }
+    }
+    return true;
 }
 
 template <typename T, typename MASK_T>
@@ -3754,8 +3798,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (nullptr == mask_) {
         if (calc_pos_) {
             if (nullptr == pos_data_ || nullptr == pos_idx_) {
-                CalculateValidPositionsFromGridData();
-                return 1;
+                return CalculateValidPositionsFromGridData() ? 1 : -1;
             }
             return 0;
         }
-- 
2.43.0


From 13ab541fc89bb311a5f5ebdcb1ebfb2e98d5288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 36/61] fix: Reclassify threw for values without
 reclassification and mapped NoData

---
 src/data_raster.hpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2ed6884..f854d58 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3633,31 +3633,17 @@ void clsRasterData<T, MASK_T>::ReplaceNoData(T replacedv) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
-    map<int, T> recls;
-    for(auto it = reclass_map.begin(); it != reclass_map.end(); ++it) {
-#ifdef HAS_VARIADIC_TEMPLATES
-        recls.emplace(it->first, it->second);
-#else
-        recls.insert(make_pair(it->first, it->second));
-#endif
-    }
+    if (!ValidateRasterData()) { return; }
     for (int i = 0; i < n_cells_; i++) {
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
-            T curv = is_2draster && nullptr != raster_2d_
-                         ? CVT_INT(raster_2d_[i][lyr])
-                         : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
-#ifdef HAS_VARIADIC_TEMPLATES
-                recls.emplace(curv, no_data_value_);
-#else
-                recls.insert(make_pair(curv, no_data_value_));
-#endif
-            }
-            if (is_2draster && nullptr != raster_2d_) {
-                raster_2d_[i][lyr] = recls.at(curv);
-            } else if (nullptr != raster_) {
-                raster_[i] = recls.at(curv);
+            T& curv = is_2draster && nullptr != raster_2d_ ? raster_2d_[i][lyr] : raster_[i];
+            if (FloatEqual(curv, no_data_value_)) { continue; }
+            T newv = no_data_value_; // values without reclassification
+            if (RepresentableAs<int>(CVT_DBL(curv))) {
+                auto it = reclass_map.find(CVT_INT(curv));
+                if (it != reclass_map.end()) { newv = it->second; }
             }
+            curv = newv;
         }
     }
 }
-- 
2.43.0


From a1815dfd875b6fbc3e734f285f030cbc2c86b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 37/61] fix: GetSrs returned a dangling pointer

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f854d58..32c761b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2612,7 +2612,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    auto it = options_.find(HEADER_RS_SRS);
+    return it == options_.end() ? "" : it->second.c_str();
 }
 
 template <typename T, typename MASK_T>
@@ -2726,7 +2727,7 @@ void clsRasterData<T, MASK_T>::SetValue(const int row, const int col, T value, c
         return;
     }
     int idx = GetPosition(row, col);
-    if (idx == -1) {
+    if (idx < 0) {
         // the origin value is NODATA, and positions of valid values are calculated
         StatusMessage("Current version do not support to setting value to NoDATA location!");
     } else {
-- 
2.43.0


From 77a34f04c4aeb0fd54a0d68ddaa0af5fc93da78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 38/61] fix: data of subsets was released twice when shallow
 copied, and overrun when the layer count changes

---
 src/data_raster.cpp | 16 ++++++++--------
 src/data_raster.hpp |  9 +++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 59bcafd..125aca4 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -263,20 +263,19 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         Initialize1DArray(n_cells, global_, src->global_);
         Initialize2DArray(n_cells, 2, local_pos_, src->local_pos_);
         Initialize1DArray(n_cells, local_posidx_, src->local_posidx_);
-        if (nullptr != src->data_) {
-            Initialize1DArray(n_cells, data_, src->data_);
-        }
-        if (nullptr != src->data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
-        }
     }
     else {
         alloc_ = false;
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+    }
+    // data is always owned by the object itself
+    if (nullptr != src->data_) {
+        Initialize1DArray(n_cells, data_, src->data_);
+    }
+    if (nullptr != src->data2d_) {
+        Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
     }
 }
 
@@ -312,6 +311,7 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
+    if (nullptr != data2d_ && n_lyrs != db_nlyrs) { Release2DArray(data2d_); }
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 32c761b..c124e7d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1015,6 +1015,7 @@ public:
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
+        if (nullptr != data2d_) { Release2DArray(data2d_); }
         if (1 != n_lyrs) { n_lyrs = 1; }
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
@@ -1028,8 +1029,12 @@ public:
     template <typename T>
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
-        if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (nullptr == data2d || lyr < 1) { return false; }
+        if (nullptr != data_) { Release1DArray(data_); }
+        if (lyr != n_lyrs) {
+            if (nullptr != data2d_) { Release2DArray(data2d_); }
+            n_lyrs = lyr;
+        }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
-- 
2.43.0


From 4407bfe89196592c7d814daeab84642c5995919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 39/61] fix: subsets of full size rasters or original values
 could not be output, and failures were reported as success

---
 src/data_raster.hpp | 68 ++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c124e7d..7182ac7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1875,6 +1875,15 @@ private:
      */
     void SetNoDataValue(double nodata);
 
+    /*!
+     * \brief Convert to cell value, return NoData if the value cannot be represented
+     */
+    T CellValueOrNoData(const double v) const {
+        T cell = no_data_value_;
+        CvtToCellValue(v, cell);
+        return cell;
+    }
+
     /*!
      * \brief Release all data owned by the raster, i.e., values, positions, statistics, and subsets
      */
@@ -2865,13 +2874,14 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, true, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
-        flag = flag && OutputFullsizeToFiles(tmpdata1d, tmpdatalen / tmplyrs, tmplyrs,
-                                             PrefixCoreFileName(outpathact, it->first),
-                                             subheader, options_);
+        flag = OutputFullsizeToFiles(tmpdata1d, tmpdatalen / tmplyrs, tmplyrs,
+                                     PrefixCoreFileName(outpathact, it->first),
+                                     subheader, options_) && flag;
         Release1DArray(tmpdata1d);
     }
     return flag;
@@ -2897,7 +2907,8 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs_subset = -1;
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         if (!it->second->usable) { continue; }
-        if (!(nullptr != it->second->data_    // Only if all subset have data_
+        if (!(out_origin                      // Only if origin values are output, or
+            || nullptr != it->second->data_   // all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
             || !recls.empty())) {             // or reclassification map specified
             return false;
@@ -2913,12 +2924,9 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
-        lyrs = lyrs_subset;
-        if (lyrs < 0 && lyr_recls > 0) {
-            lyrs = lyr_recls;
-        }
+        lyrs = lyr_recls > 0 ? lyr_recls : lyrs_subset;
     }
-    if (lyrs < 0) {
+    if (lyrs < 1 || (out_origin && is_2draster && lyrs > n_lyrs_)) {
         StatusMessage("Error: Cannot determine valid layer count!");
         return false;
     }
@@ -2946,7 +2954,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
+                int tmprc = nullptr == pos_idx_ ? gidx : pos_idx_[gidx];
                 if (!include_nodata) { tmprc = gidx; }
                 if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
@@ -2960,16 +2968,22 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
                         uniqe_value = recls.at(recls_key).at(ilyr);
                     }
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(uniqe_value);
+                    data1d[tmprc * lyrs + ilyr] = CellValueOrNoData(uniqe_value);
                 }
                 else if (use_defaultv_directly) {
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
+                    data1d[tmprc * lyrs + ilyr] = CellValueOrNoData(default_value);
                 }
-                else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
+                else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
+                    data1d[tmprc * lyrs + ilyr] = CellValueOrNoData(it->second->data2d_[vi][ilyr]);
                 }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data_[vi]);
+                    data1d[tmprc * lyrs + ilyr] = CellValueOrNoData(it->second->data_[vi]);
                 }
                 else { // Will not happen
                     StatusMessage("Error: No subset or reclassification map can be output!");
@@ -3008,9 +3022,9 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
-        lyrs = sub->n_lyrs;
+        lyrs = lyr_recls > 0 ? lyr_recls : sub->n_lyrs;
     }
-    if (lyrs < 0) {
+    if (lyrs < 1 || (out_origin && is_2draster && lyrs > n_lyrs_)) {
         StatusMessage("Error: Cannot determine valid layer count!");
         return false;
     }
@@ -3040,19 +3054,19 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
                     uniqe_value = recls.at(recls_key).at(ilyr);
                 }
-                data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
+                data1d[j * lyrs + ilyr] = CellValueOrNoData(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
-            else if (out_origin && lyrs == 1 && nullptr != raster_) {
+            else if (out_origin && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
-            else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
-                data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
+            else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
+                data1d[j * lyrs + ilyr] = CellValueOrNoData(sub->data2d_[vi][ilyr]);
             }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
-                data1d[j * lyrs + ilyr] = static_cast<T>(sub->data_[vi]);
+                data1d[j * lyrs + ilyr] = CellValueOrNoData(sub->data_[vi]);
             }
             else { // Will not happen
                 StatusMessage("Error: No subset or reclassification map can be output!");
@@ -3077,7 +3091,7 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
         return WriteRasterToFile(fullfilename, header, opts, fullsizedata);
     }
     T* tmpdata1d = nullptr;
-    Initialize1DArray(fsize, tmpdata1d, NODATA_VALUE);
+    if (!Initialize1DArray(fsize, tmpdata1d, no_data_value_)) { return false; }
     bool flag = true;
     for (int ilyr = 0; ilyr < datalyrs; ilyr++) {
         for (int gi = 0; gi < fsize; gi++) {
@@ -3282,6 +3296,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int sublen;
         bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
                                           out_origin, include_nodata, recls, default_value);
+        if (!flag) { return false; }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
@@ -3303,15 +3318,16 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, include_nodata, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_) && flag;
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From e8930e5927cd3b7e65f928c199bdbbc13e74f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 40/61] fix: typed values of BSON were inverted (bool),
 truncated (double), overflowed (date and integer), or misread

---
 src/db_mongoc.cpp | 44 +++++++++++++++++++++++------------------
 src/db_mongoc.h   | 50 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 67 insertions(+), 27 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..3180500 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,9 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <cstdint>
+#include <cstdio>
+#include <cstdlib>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -491,7 +494,7 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0 && dbl_value >= INT32_MIN && dbl_value <= INT32_MAX) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
@@ -503,7 +506,10 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
 string GetStringFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_UTF8) {
-        return vv->value.v_utf8.str;
+        return string(vv->value.v_utf8.str, vv->value.v_utf8.len);
+    }
+    if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool ? "TRUE" : "FALSE";
     }
     if (vv->value_type == BSON_TYPE_INT32) {
         return ValueToString(vv->value.v_int32);
@@ -512,7 +518,13 @@ string GetStringFromBsonIterator(bson_iter_t* iter) {
         return ValueToString(vv->value.v_int64);
     }
     if (vv->value_type == BSON_TYPE_DOUBLE) {
-        return ValueToString(vv->value.v_double);
+        // Keep all significant digits
+        char text[32];
+        snprintf(text, sizeof(text), "%.15g", vv->value.v_double);
+        if (strtod(text, nullptr) != vv->value.v_double) {
+            snprintf(text, sizeof(text), "%.17g", vv->value.v_double);
+        }
+        return text;
     }
     StatusMessage("bson iterator did not contain or can not convert to string.");
     return "";
@@ -529,21 +541,16 @@ string GetStringFromBson(bson_t* bmeta, const char* key) {
 
 bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
-    float fltvalue;
-    if (vv->value_type == BSON_TYPE_INT32) {
-        fltvalue = CVT_FLT(vv->value.v_int32);
-    } else if (vv->value_type == BSON_TYPE_INT64) {
-        fltvalue = CVT_FLT(vv->value.v_int64);
-    } else if (vv->value_type == BSON_TYPE_DOUBLE) {
-        fltvalue = CVT_FLT(vv->value.v_double);
-    } else if (vv->value_type == BSON_TYPE_UTF8) {
+    if (vv->value_type == BSON_TYPE_BOOL) { return vv->value.v_bool; }
+    if (vv->value_type == BSON_TYPE_INT32) { return vv->value.v_int32 != 0; }
+    if (vv->value_type == BSON_TYPE_INT64) { return vv->value.v_int64 != 0; }
+    if (vv->value_type == BSON_TYPE_DOUBLE) { return !utils_math::FloatEqual(vv->value.v_double, 0.); }
+    if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
-    } else {
-        StatusMessage("Failed in get Boolean value.");
-        return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    StatusMessage("Failed in get Boolean value.");
+    return false;
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
@@ -558,10 +565,9 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        int64_t seconds = vv->value.v_datetime / 1000;
+        if (vv->value.v_datetime % 1000 < 0) { seconds -= 1; } // before 1970-01-01
+        return CVT_TIMET(seconds);
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 1f8134b..5545f42 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -16,6 +16,9 @@
 #define CCGL_DB_MONGOC_H
 #ifdef USE_MONGODB
 
+#include <cmath>
+#include <cstdint>
+#include <limits>
 #include <vector>
 #include <map>
 #include <iostream>
@@ -181,6 +184,34 @@ private:
 void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
                                const string& prefix = string());
 
+/*!
+ * \brief Convert integer, and leave the numeric value unchanged if it cannot be represented by T
+ */
+template <typename T>
+bool CvtIntegerToNumeric(const int64_t value, T& numericvalue) {
+    T converted = static_cast<T>(value);
+    if (std::numeric_limits<T>::is_integer
+        && (static_cast<int64_t>(converted) != value || (converted < T(0)) != (value < 0))) {
+        return false;
+    }
+    numericvalue = converted;
+    return true;
+}
+
+/*!
+ * \brief Convert double, and leave the numeric value unchanged if it cannot be represented by T
+ */
+template <typename T>
+bool CvtDoubleToNumeric(const double value, T& numericvalue) {
+    if (std::numeric_limits<T>::is_integer
+        && !(std::trunc(value) >= static_cast<double>((std::numeric_limits<T>::min)())
+             && value < std::ldexp(1., std::numeric_limits<T>::digits))) {
+        return false;
+    }
+    numericvalue = static_cast<T>(value);
+    return true;
+}
+
 /*!
  * \brief Get numeric value from the iterator (`bson_iter_t`) of `bson_t`according to a given key
  * \param[in] iter Iterator of an instance of `bson_t`
@@ -191,11 +222,11 @@ template <typename T>
 bool GetNumericFromBsonIterator(bson_iter_t* iter, T& numericvalue) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_INT32) {
-        numericvalue = static_cast<T>(vv->value.v_int32);
+        return CvtIntegerToNumeric(vv->value.v_int32, numericvalue);
     } else if (vv->value_type == BSON_TYPE_INT64) {
-        numericvalue = static_cast<T>(vv->value.v_int64);
+        return CvtIntegerToNumeric(vv->value.v_int64, numericvalue);
     } else if (vv->value_type == BSON_TYPE_DOUBLE) {
-        numericvalue = static_cast<T>(vv->value.v_double);
+        return CvtDoubleToNumeric(vv->value.v_double, numericvalue);
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         if (tmp.find_first_of("0123456789") == string::npos) {
@@ -203,12 +234,15 @@ bool GetNumericFromBsonIterator(bson_iter_t* iter, T& numericvalue) {
             return false;
         }
         char* end = nullptr;
-        numericvalue = static_cast<T>(strtod(tmp.c_str(), &end));
-    } else {
-        cout << "bson iterator isn't or not contains a numeric value." << endl;
-        return false;
+        double value = strtod(tmp.c_str(), &end);
+        if (end == tmp.c_str()) {
+            cout << "bson iterator isn't or not contains a numeric value." << endl;
+            return false;
+        }
+        return CvtDoubleToNumeric(value, numericvalue);
     }
-    return true;
+    cout << "bson iterator isn't or not contains a numeric value." << endl;
+    return false;
 }
 
 /*!
-- 
2.43.0


From d80f77f7e292e67cf3adb65db2659839f882136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 41/61] fix: leaks of MongoDB objects, and wrong GridFS name
 with dots in collection names

---
 src/db_mongoc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 3180500..e1c30fb 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -155,10 +155,11 @@ mongoc_database_t* MongoClient::GetDatabase(string const& dbname) {
 
 mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string const& collectionname) {
     mongoc_database_t* db = mongoc_client_get_database(conn_, dbname.c_str());
-    bson_error_t err;
+    bson_error_t err = {0};
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
@@ -241,7 +242,9 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
                 string realname;
                 // Refers to https://stackoverflow.com/a/18703743/4837280
                 std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
+                              [&](const std::string &piece){
+                                  realname += realname.empty() ? piece : "." + piece;
+                              });
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
@@ -282,7 +285,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -290,6 +293,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From 95aee7b303a811874f4d9ec6975f6c450fec9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 42/61] fix: GridFS operations reported success for failed or
 incomplete reading, writing, and removing

---
 src/db_mongoc.cpp | 48 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index e1c30fb..b53c712 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -355,43 +355,50 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     // if (mongoc_gridfs_remove_by_filename(gfs, gfilename.c_str(), &err)) {
     //     return true;
     // }
+    bool removed = true;
     mongoc_gridfs_file_list_t* filelist;
     mongoc_gridfs_file_t* gfile = NULL;
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
     while ((gfile = mongoc_gridfs_file_list_next(filelist))) {
         const bson_value_t* tmpid = mongoc_gridfs_file_get_id(gfile);
-        char charid[25];
-        bson_oid_to_string(&tmpid->value.v_oid, charid);
+        char charid[25] = {0};
+        if (tmpid->value_type == BSON_TYPE_OID) { bson_oid_to_string(&tmpid->value.v_oid, charid); }
         string strid = charid;
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+            removed = false;
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
         }
         mongoc_gridfs_file_destroy(gfile);
     }
 
+    if (mongoc_gridfs_file_list_error(filelist, &err)) {
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+        removed = false;
+    }
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
-    bson_t* query = bson_new();
-    bson_init(query);
-    mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
+    bson_t query = BSON_INITIALIZER;
+    mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, &query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-        files_existed.emplace_back(string(mongoc_gridfs_file_get_filename(file)));
+        const char* name = mongoc_gridfs_file_get_filename(file); // filename is optional
+        if (NULL != name) { files_existed.emplace_back(string(name)); }
         mongoc_gridfs_file_destroy(file);
     }
     mongoc_gridfs_file_list_destroy(glist);
-    bson_destroy(query);
+    bson_destroy(&query);
     vector<string>(files_existed).swap(files_existed);
 }
 
@@ -410,7 +417,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = NULL == bmata ? NULL : bson_copy(bmata); // metadata is optional
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
@@ -434,16 +441,22 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         return false;
     }
     datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    databuf = new char[datalength];
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
     mongoc_stream_t* stream = mongoc_stream_gridfs_new(gfile);
     // Set 10 milliseconds for timeout
-    vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
+    vint flag = datalength > 0 ? mongoc_stream_readv(stream, &iov, 1, -1, 10) : 0;
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (flag != datalength) { // failed or incomplete
+        delete[] databuf;
+        databuf = NULL;
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
+        return false;
+    }
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
@@ -455,21 +468,26 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
         return false;
     }
     mongoc_gridfs_file_t* gfile = NULL;
-    bson_error_t gfileerr;
+    bson_error_t gfileerr = {0};
     mongoc_gridfs_file_opt_t gopt = {0};
     gopt.filename = gfilename.c_str();
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
+    if (NULL == gfile) {
+        StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!").c_str());
+        return false;
+    }
     mongoc_iovec_t ovec;
     ovec.iov_base = buf;
     ovec.iov_len = static_cast<u_long>(length);
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+    bool gfilestatus = writesize == static_cast<ssize_t>(length) &&
+            mongoc_gridfs_file_save(gfile) && // Returns true if successful
             !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
-    if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
+    if (!gfilestatus) { // Failed to save GridFS file data
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
                           ". ERROR: " + gfileerr.message).c_str());
     }
-- 
2.43.0


From 98c50eddfba2b9ed871fef85bd2e37e177bd19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 43/61] fix: GridFS raster of 64-bit types could not be
 written, and values were converted without checks or read beyond the data

---
 src/data_raster.hpp | 278 ++++++++++++++++++++++++--------------------
 1 file changed, 154 insertions(+), 124 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7182ac7..ab7d5bd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -238,6 +238,52 @@ bool CvtToCellValue(const double v, T& cell) {
     return false;
 }
 
+/*!
+ * \brief Convert cell values to another data type for output
+ *
+ * NoData will be changed to \a default_nodata if it cannot be represented by the output data type.
+ *
+ * \param[in] n Number of cells
+ * \param[in] values Original cell values
+ * \param[in] old_nodata Original NoData
+ * \param[in] default_nodata Default NoData of the output data type
+ * \param[out] new_nodata NoData of the converted values
+ * \param[out] new_values Converted values, an array of \a n cells
+ * \return false if any valid value cannot be represented,
+ *         or cannot be distinguished from the new NoData.
+ */
+template <typename O, typename T>
+bool ConvertCellValues(const int n, const T* values, const double old_nodata, const O default_nodata,
+                       double& new_nodata, O* new_values) {
+    if (nullptr == new_values) { return false; }
+    const bool both_integer = std::numeric_limits<T>::is_integer && std::numeric_limits<O>::is_integer;
+    O nodata = default_nodata;
+    if (RepresentableAs<O>(old_nodata)) {
+        O tmp = static_cast<O>(old_nodata);
+        if (!std::numeric_limits<O>::is_integer || FloatEqual(tmp, old_nodata)) { nodata = tmp; }
+    }
+    int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+    for (int i = 0; i < n; i++) {
+        if (FloatEqual(values[i], old_nodata)) {
+            new_values[i] = nodata;
+            continue;
+        }
+        if (!both_integer && !RepresentableAs<O>(CVT_DBL(values[i]))) {
+            illegal_count += 1;
+            continue;
+        }
+        new_values[i] = static_cast<O>(values[i]);
+        if ((both_integer && (static_cast<T>(new_values[i]) != values[i] || (new_values[i] < 0) != (values[i] < 0)))
+            || FloatEqual(new_values[i], nodata)) {
+            illegal_count += 1;
+        }
+    }
+    if (illegal_count > 0) { return false; }
+    new_nodata = CVT_DBL(nodata);
+    return true;
+}
+
 /*!
  * \brief Read raster data from ASC file, the simply usage
  * \param[in] filename Full path of ASC raster file
@@ -560,50 +606,16 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
 }
 
 /*!
- * \brief Convert cell values to another data type for output
- *
- * NoData will be changed to \a default_nodata if it cannot be represented by the output data type.
- *
- * \param[in] n Number of cells
- * \param[in] values Original cell values
- * \param[in] old_nodata Original NoData
- * \param[in] default_nodata Default NoData of the output data type
- * \param[out] new_nodata NoData of the converted values
- * \return Array allocated by VSIMalloc, nullptr if any valid value cannot be represented,
- *         or cannot be distinguished from the new NoData.
+ * \brief Convert cell values to another data type for output, nullptr will be returned if failed.
+ *        The array is allocated by VSIMalloc.
  */
 template <typename O, typename T>
 O* ConvertCellValues(const int n, const T* values, const double old_nodata, const O default_nodata, double& new_nodata) {
     O* new_values = static_cast<O*>(VSIMalloc2(sizeof(O), n));
-    if (nullptr == new_values) { return nullptr; }
-    const bool both_integer = std::numeric_limits<T>::is_integer && std::numeric_limits<O>::is_integer;
-    O nodata = default_nodata;
-    if (RepresentableAs<O>(old_nodata)) {
-        O tmp = static_cast<O>(old_nodata);
-        if (!std::numeric_limits<O>::is_integer || FloatEqual(tmp, old_nodata)) { nodata = tmp; }
-    }
-    int illegal_count = 0;
-#pragma omp parallel for reduction(+:illegal_count)
-    for (int i = 0; i < n; i++) {
-        if (FloatEqual(values[i], old_nodata)) {
-            new_values[i] = nodata;
-            continue;
-        }
-        if (!both_integer && !RepresentableAs<O>(CVT_DBL(values[i]))) {
-            illegal_count += 1;
-            continue;
-        }
-        new_values[i] = static_cast<O>(values[i]);
-        if ((both_integer && (static_cast<T>(new_values[i]) != values[i] || (new_values[i] < 0) != (values[i] < 0)))
-            || FloatEqual(new_values[i], nodata)) {
-            illegal_count += 1;
-        }
-    }
-    if (illegal_count > 0) {
+    if (!ConvertCellValues(n, values, old_nodata, default_nodata, new_nodata, new_values)) {
         VSIFree(new_values);
         return nullptr;
     }
-    new_nodata = CVT_DBL(nodata);
     return new_values;
 }
 
@@ -773,6 +785,30 @@ bool WriteRasterToFile(const string& filename, const STRDBL_MAP& header,
 }
 
 #ifdef USE_MONGODB
+/*!
+ * \brief Convert stream data of a specific data type to cell values, and update NoData in header if changed
+ * \return false if any valid value cannot be represented by the data type of cell
+ */
+template <typename I, typename T>
+bool CvtStreamData(const int n, const char* buf, STRDBL_MAP& header, T*& data) {
+    const I* values = reinterpret_cast<const I*>(buf);
+    if (!Initialize1DArray(n, data, T())) { return false; }
+    if (TypeToRasterDataType(typeid(T)) == TypeToRasterDataType(typeid(I))) {
+        for (int i = 0; i < n; i++) { data[i] = static_cast<T>(values[i]); }
+        return true;
+    }
+    T default_nodata = T();
+    CvtToCellValue(CVT_DBL(DefaultNoDataByType(TypeToRasterDataType(typeid(T)))), default_nodata);
+    double new_nodata = header.at(HEADER_RS_NODATA);
+    if (!ConvertCellValues(n, values, header.at(HEADER_RS_NODATA), default_nodata, new_nodata, data)) {
+        StatusMessage("The data type in MongoDB GridFS cannot be converted without loss!");
+        Release1DArray(data);
+        return false;
+    }
+    header.at(HEADER_RS_NODATA) = new_nodata;
+    return true;
+}
+
 /*!
  * \brief Read GridFs file from MongoDB
  * \param[in] gfs MongoGridFs pointer
@@ -815,12 +851,13 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
     int n_cells = CVT_INT(header.at(HEADER_RS_CELLSNUM));
-    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0) { // missing essential metadata
+    if (n_rows < 1 || n_cols < 1 || n_lyrs < 1 || n_cells < 1 // missing essential metadata
+        || CVT_VINT(n_rows) * n_cols > INT_MAX || CVT_VINT(n_cells) * n_lyrs > INT_MAX) {
         delete[] buf;
         return false;
     }
     int value_count = n_cells * n_lyrs;
-    size_t size_dtype = length / value_count;
+    size_t size_dtype = length % value_count == 0 ? length / value_count : 0;
 
     RasterDataType rstype = RDT_Unknown;
     if (header_str.find(HEADER_RSOUT_DATATYPE) != header_str.end()) {
@@ -832,55 +869,36 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
 
+    bool converted = false;
     if (rstype == RDT_Double && size_dtype == sizeof(double)) {
-        double* data_dbl = reinterpret_cast<double*>(buf);
-        Initialize1DArray(value_count, data, data_dbl);
-        //Release1DArray(data_dbl);
+        converted = CvtStreamData<double>(value_count, buf, header, data);
     }
     else if (rstype == RDT_Float && size_dtype == sizeof(float)) {
-        float* data_flt = reinterpret_cast<float*>(buf);
-        Initialize1DArray(value_count, data, data_flt);
-        //Release1DArray(data_flt);
+        converted = CvtStreamData<float>(value_count, buf, header, data);
     }
     else if (rstype == RDT_Int32 && size_dtype == sizeof(vint32_t)) {
-        vint32_t* data_int32 = reinterpret_cast<vint32_t*>(buf);
-        Initialize1DArray(value_count, data, data_int32);
-        //Release1DArray(data_int32);
+        converted = CvtStreamData<vint32_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_UInt32 && size_dtype == sizeof(vuint32_t)) {
-        vuint32_t* data_uint32 = reinterpret_cast<vuint32_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint32);
-        //Release1DArray(data_uint32);
+        converted = CvtStreamData<vuint32_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_Int64 && size_dtype == sizeof(vint64_t)) {
-        vint64_t* data_int64 = reinterpret_cast<vint64_t*>(buf);
-        Initialize1DArray(value_count, data, data_int64);
-        //Release1DArray(data_int64);
+        converted = CvtStreamData<vint64_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_UInt64 && size_dtype == sizeof(vuint64_t)) {
-        vuint64_t* data_uint64 = reinterpret_cast<vuint64_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint64);
-        //Release1DArray(data_uint64);
+        converted = CvtStreamData<vuint64_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_Int16 && size_dtype == sizeof(vint16_t)) {
-        vint16_t* data_int16 = reinterpret_cast<vint16_t*>(buf);
-        Initialize1DArray(value_count, data, data_int16);
-        //Release1DArray(data_int16);
+        converted = CvtStreamData<vint16_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_UInt16 && size_dtype == sizeof(vuint16_t)) {
-        vuint16_t* data_uint16 = reinterpret_cast<vuint16_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint16);
-        //Release1DArray(data_uint16);
+        converted = CvtStreamData<vuint16_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_Int8 && size_dtype == sizeof(vint8_t)) {
-        vint8_t* data_int8 = reinterpret_cast<vint8_t*>(buf);
-        Initialize1DArray(value_count, data, data_int8);
-        //Release1DArray(data_int8);
+        converted = CvtStreamData<vint8_t>(value_count, buf, header, data);
     }
     else if (rstype == RDT_UInt8 && size_dtype == sizeof(vuint8_t)) {
-        vuint8_t* data_uint8 = reinterpret_cast<vuint8_t*>(buf);
-        Initialize1DArray(value_count, data, data_uint8);
-        //Release1DArray(data_uint8);
+        converted = CvtStreamData<vuint8_t>(value_count, buf, header, data);
     }
     else {
         StatusMessage("Unconsistent of data type and size!");
@@ -888,7 +906,24 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
     delete[] buf;
-    return true;
+    return converted;
+}
+
+/*!
+ * \brief Convert cell values to stream data of a specific data type
+ * \return Newly allocated stream data, nullptr if any valid value cannot be represented
+ */
+template <typename O, typename T>
+char* CvtToStreamData(const int n, const T* values, double& nodata, const O default_nodata, vint& length) {
+    length = CVT_VINT(n) * sizeof(O);
+    char* buf = new char[length];
+    double new_nodata = nodata;
+    if (!ConvertCellValues(n, values, nodata, default_nodata, new_nodata, reinterpret_cast<O*>(buf))) {
+        delete[] buf;
+        return nullptr;
+    }
+    nodata = new_nodata;
+    return buf;
 }
 
 /*!
@@ -911,70 +946,65 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
+    // Check DATATYPE in metadata is consistent with T, transform if necessary
+    char* buf = nullptr;
+    vint buflength = -1;
+    bool transformed = true;
+    double nodata = header.at(HEADER_RS_NODATA); // may be changed when converted to another data type
+    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
+    if (opt_type == temp_type) {
+        buf = reinterpret_cast<char*>(values);
+        buflength = CVT_VINT(datalength) * sizeof(T);
+        transformed = false;
+    }
+    else if (opt_type == RDT_UInt8) {
+        buf = CvtToStreamData<vuint8_t>(datalength, values, nodata, UINT8_MAX, buflength);
+    }
+    else if (opt_type == RDT_Int8) {
+        buf = CvtToStreamData<vint8_t>(datalength, values, nodata, INT8_MIN, buflength);
+    }
+    else if (opt_type == RDT_UInt16) {
+        buf = CvtToStreamData<vuint16_t>(datalength, values, nodata, UINT16_MAX, buflength);
+    }
+    else if (opt_type == RDT_Int16) {
+        buf = CvtToStreamData<vint16_t>(datalength, values, nodata, INT16_MIN, buflength);
+    }
+    else if (opt_type == RDT_UInt32) {
+        buf = CvtToStreamData<vuint32_t>(datalength, values, nodata, UINT32_MAX, buflength);
+    }
+    else if (opt_type == RDT_Int32) {
+        buf = CvtToStreamData<vint32_t>(datalength, values, nodata, INT32_MIN, buflength);
+    }
+    else if (opt_type == RDT_UInt64) {
+        buf = CvtToStreamData<vuint64_t>(datalength, values, nodata, UINT64_MAX, buflength);
+    }
+    else if (opt_type == RDT_Int64) {
+        buf = CvtToStreamData<vint64_t>(datalength, values, nodata, INT64_MIN, buflength);
+    }
+    else if (opt_type == RDT_Float) {
+        buf = CvtToStreamData<float>(datalength, values, nodata, static_cast<float>(MISSINGFLOAT), buflength);
+    }
+    else if (opt_type == RDT_Double) {
+        buf = CvtToStreamData<double>(datalength, values, nodata, MISSINGFLOAT, buflength);
+    }
+    if (nullptr == buf) {
+        StatusMessage(("Failed to convert data type of " + filename).c_str());
+        return false;
+    }
     gfs->RemoveFile(filename, nullptr, curopts);
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+            && std::modf(iter->second, &intpart) == 0.0
+            && iter->second >= INT_MIN && iter->second <= INT_MAX) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
         }
         else {
-            BSON_APPEND_DOUBLE(&p, iter->first.c_str(), iter->second);
-        }
-    }
-    // Check DATATYPE in metadata is consistent with T, transform if necessary
-    char* buf = nullptr;
-    vint buflength = -1;
-    bool transformed = true;
-    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
-    if (opt_type == temp_type) {
-        buf = reinterpret_cast<char*>(values);
-        buflength = datalength * sizeof(T);
-        transformed = false;
-    } else {
-        if (opt_type == RDT_UInt8) {
-            vuint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint8_t);
-        } else if (opt_type == RDT_Int8) {
-            vint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint8_t);
-        } else if (opt_type == RDT_UInt16) {
-            vuint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint16_t);
-        } else if (opt_type == RDT_Int16) {
-            vint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint16_t);
-        } else if (opt_type == RDT_UInt32) {
-            vuint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint32_t);
-        } else if (opt_type == RDT_Int32) {
-            vint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint32_t);
-        } else if (opt_type == RDT_Float) {
-            float* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(float);
-        } else if (opt_type == RDT_Double) {
-            double* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(double);
+            BSON_APPEND_DOUBLE(&p, iter->first.c_str(),
+                               StringMatch(HEADER_RS_NODATA, iter->first) ? nodata : iter->second);
         }
     }
     // Add user-specific key-values into metadata
-- 
2.43.0


From 8f7c75c28c95e2ea5bc4463be9b8636d51bb5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 44/61] fix: raster in GridFS was read with positions of a mask
 of another size, and leaked on failures

---
 src/data_raster.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ab7d5bd..592a9bf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3216,7 +3216,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
                                                const STRING_MAP& opts /* = STRING_MAP() */,
                                                bool include_nodata /* = true */,
                                                bool out_origin /* true */) {
-    if (nullptr == gfs) { return false; }
+    if (nullptr == gfs || !ValidateRasterData()) { return false; }
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
@@ -3238,7 +3238,9 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     if ((nullptr == pos_data_ || nullptr == pos_idx_) && !include_nodata) {
         SetCalcPositions();
         GetRasterPositionData(&cnt, &pos);
+        if (nullptr == pos) { return false; } // no valid cells
     }
+    if (!outputdirectly && nullptr == pos) { return false; }
     int n_rows = GetRows();
     int n_cols = GetCols();
     int n_fullsize = n_rows * n_cols;
@@ -3280,7 +3282,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     STRDBL_MAP tmpheader;
     CopyHeader(headers_, tmpheader);
-    if (include_nodata) { UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, n_fullsize); }
+    UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, include_nodata ? n_fullsize : n_cells_);
     bool saved = WriteStreamDataAsGridfs(gfs, core_name, tmpheader,
                                          data_1d, datalength, options_);
     if (outputdirectly) {
@@ -3474,6 +3476,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
                                                double default_value /* NODATA_VALUE */,
                                                const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    if (nullptr == gfs) { return false; }
     T* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
@@ -3499,22 +3502,35 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     }
     CopyStringMap(header_str, options_);
 
-    bool include_nodata = !StringMatch(options_.at(HEADER_INC_NODATA), "FALSE");
+    bool include_nodata = !StringMatch(GetOption(HEADER_INC_NODATA), "FALSE");
 
     int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
     n_lyrs_ = CVT_INT(headers_.at(HEADER_RS_LAYERS));
     // if (n_rows < 0 || n_cols < 0 || n_lyrs_ < 0) { return false; } // Needless
     int fullsize = n_rows * n_cols;
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    SetNoDataValue(header_dbl.at(HEADER_RS_NODATA));
+    // Release data read before. Positions may have been preassigned for data excluding NoData.
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    ReleaseStatsMap2D();
+    if (include_nodata) { ReleaseData(); }
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
-    if (include_nodata && n_cells_ != fullsize) { return false; }
+    if (include_nodata && n_cells_ != fullsize) {
+        Release1DArray(dbdata);
+        return false;
+    }
     if (n_cells_ != fullsize) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    if (nullptr != mask_ && calc_pos_ && use_mask_ext_
+        && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()
+        && n_cells_ == (mask_->PositionsCalculated() ? mask_->GetCellNumber() : mask_->GetValidNumber())) {
+        if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+        ReleaseSubset();
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
@@ -3533,7 +3549,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
+    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) {
+        Release1DArray(dbdata);
+        return false;
+    }
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
-- 
2.43.0


From 5a9cfe705101da29b7d6e4b7a5e2b23e8d79a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 45/61] fix: mask_rasterio ignored the single configuration
 file and read beyond the arguments

---
 apps/mask_rasterio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..8ca54a5 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -85,6 +85,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty()) { return false; }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
@@ -97,6 +98,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
             if (tmpfmt == GFS || tmpfmt == SFILE) {
                 // 7: {"file"} or {"gfs"}
                 fmt = tmpfmt;
+                return true;
             }
             else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
@@ -206,7 +208,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && idx + 1 < argc && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
@@ -217,7 +219,7 @@ int main(const int argc, const char** argv) {
     arg_sep.push_back(argc);
 
     map<string, vector<string> > key_args;
-    if (arg_sep.empty()) {
+    if (arg_sep.size() == 1) { // only has the end of arguments
         if (config_path.empty()) {
             if (argc >= 2 && argv[1][0] != '-') {
                 config_path = argv[1];
@@ -296,7 +298,7 @@ int main(const int argc, const char** argv) {
         else if (itkv->first == "MASK") {
             vector<string> tmppaths;
             if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)
-                && tmppaths.empty()) {
+                || tmppaths.empty()) {
                 return 2;
             }
             mask_path = tmppaths[0];
-- 
2.43.0


From 022b5b8c45a2d88b1df2cc666fe7a4ef4c5c189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 46/61] fix: mask_rasterio ignored missing or unreadable inputs
 and masks, crashed on them, never decomposed to files, and returned success
 on failures

---
 apps/mask_rasterio.cpp | 82 +++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 8ca54a5..1b2f0d4 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -162,6 +162,7 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
  *   1. Format error of input arguments
  *   2. File specified but not existed, including configuration file and input data files
  *   3. File content loaded failed or wrong format
+ *   4. Output failed
  *
  */
 int main(const int argc, const char** argv) {
@@ -416,6 +417,7 @@ int main(const int argc, const char** argv) {
         if (!reclass_data.empty()) { vector<bool>().swap(reclass_data); }
         if (!reclass_keyvalues.empty()) { vector<map<vint, vector<double> > >().swap(reclass_keyvalues); }
     }
+    bool missing_input = false;
     // Parse input and output settings in configuration file
     for (auto ioit = io_strs.begin(); ioit != io_strs.end(); ++ioit) {
         size_t item_count = (*ioit).size(); // item_count has been checked to be sure >=1
@@ -474,6 +476,10 @@ int main(const int argc, const char** argv) {
             reclass_data.push_back(do_recls);
             reclass_keyvalues.emplace_back(tmp_recls);
         }
+        else {
+            cout << "Error: Input data of item " << (*ioit).at(inidx) << " does not exist!\n";
+            missing_input = true;
+        }
     }
 
 #ifdef USE_GDAL
@@ -488,17 +494,21 @@ int main(const int argc, const char** argv) {
         if (mask_fmt == SFILE && FileExists(mask_path)) {
             mask_layer = DblRaster::Init(mask_path);
             if (nullptr == mask_layer) { return 3; }
+        } else if (mask_fmt == SFILE || !use_mongo) {
+            cout << "Error: The mask " << mask_path << " does not exist!\n";
+            return 2;
         } else if (mask_fmt == GFS && use_mongo) {
 #ifdef USE_MONGODB
             mask_layer = DblRaster::Init(gfs, mask_path.c_str());
             if (nullptr == mask_layer) { return 3; }
 #endif
         } else {
-            // No mask layer
+            return 2;
         }
     }
 
     // Load input raster
+    int exit_code = missing_input ? 2 : 0;
     STRING_MAP opts; // Additional options, e.g., output data type
     bool output_all = false;
     bool output_subset = false;
@@ -532,7 +542,7 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
@@ -543,9 +553,16 @@ int main(const int argc, const char** argv) {
 #endif
             }
             else {
+                cout << "Error: Input data of " << out_paths.at(in_idx) << " does not exist!\n";
+                exit_code = 2;
+                continue;
+            }
+            if (nullptr == rs) {
+                cout << "Error: Input data of " << out_paths.at(in_idx) << " cannot be loaded!\n";
+                exit_code = 3;
                 continue;
             }
-            if (nullptr == rs) { continue; }
+            bool output_flag = true;
 
             if (update_nodata.at(in_idx)) { rs->ReplaceNoData(nodata_values.at(in_idx)); }
 
@@ -556,51 +573,58 @@ int main(const int argc, const char** argv) {
             if (out_fmts.at(in_idx) == SFILE) {
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToFile(true, false,
+                        output_flag = rs->OutputSubsetToFile(true, false,
                                                out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                                               default_values.at(in_idx)) && output_flag;
                     }
                     if (output_all) {
-                        rs->OutputSubsetToFile(true, true,
+                        output_flag = rs->OutputSubsetToFile(true, true,
                                                out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                                               default_values.at(in_idx)) && output_flag;
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
-                    if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
+                    if (output_subset) {
+                        if (nullptr == mask_layer) { rs->BuildSubSet(); }
+                        output_flag = rs->OutputSubsetToFile(true, false, out_paths.at(in_idx)) && output_flag;
+                    }
+                    if (output_all) { output_flag = rs->OutputToFile(out_paths.at(in_idx), true) && output_flag; }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                        output_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
                                                   inc_nodata, true, false, 
                                                   reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                                                  default_values.at(in_idx)) && output_flag;
                     }
                     if (output_all) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                        output_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
                                                   inc_nodata, true, true, 
                                                   reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                                                  default_values.at(in_idx)) && output_flag;
                     }
                 } else {
                     if (output_subset) {
                         if (nullptr == mask_layer) {
                             rs->BuildSubSet();
                         }
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false);
+                        output_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                  inc_nodata, true, false) && output_flag;
                     }
                     if (output_all) {
-                        rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
-                                            inc_nodata, true);
+                        output_flag = rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
+                                            inc_nodata, true) && output_flag;
                     }
                 }
 #endif
             } else {
                 // Nothing to do
             }
+            if (!output_flag) {
+                cout << "Error: " << out_paths.at(in_idx) << " cannot be output!\n";
+                exit_code = 4;
+            }
             delete rs;
         } else if (mode == COM) {
             if (nullptr == mask_layer) {
@@ -623,29 +647,37 @@ int main(const int argc, const char** argv) {
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
                     tmpsubrs = DblRaster::Init(*inf_it, true);
-                    if (nullptr == tmpsubrs) { continue; }
+                    if (nullptr == tmpsubrs) {
+                        cout << "Error: " << *inf_it << " cannot be loaded!\n";
+                        exit_code = 3;
+                        continue;
+                    }
                     int tmpsublen;
                     double* tmpsubdata = nullptr;
                     tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    if (!subset.at(subid)->SetData(tmpsublen, tmpsubdata)) {
+                        cout << "Error: " << *inf_it << " does not match the subset of mask!\n";
+                        exit_code = 3;
+                    }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
+                    if (!subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts)) { exit_code = 3; }
 #endif
                 } else {
-                    // Nothing to do
+                    cout << "Error: " << *inf_it << " does not exist!\n";
+                    exit_code = 2;
                 }
             }
             mask_layer->SetOutDataType(out_types.at(in_idx));
             if (out_fmts.at(in_idx) == SFILE) {
-                mask_layer->OutputToFile(out_paths.at(in_idx), false);
+                if (!mask_layer->OutputToFile(out_paths.at(in_idx), false)) { exit_code = 4; }
             }
             else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                            inc_nodata, false);
+                if (!mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                 inc_nodata, false)) { exit_code = 4; }
 #endif
             }
             else {
@@ -663,5 +695,5 @@ int main(const int argc, const char** argv) {
         delete client;
     }
 #endif
-    return 0;
+    return exit_code;
 }
-- 
2.43.0


From 42c038efa5db526ba728d11b057366b7c39ad61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 47/61] fix: valid cells of zero became NoData in GeoTIFF when
 GDAL regards a block of zeros as empty

---
 src/data_raster.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 592a9bf..aa101bc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -703,6 +703,19 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
+    // NoData must be set before values, otherwise GDAL may regard a block of zeros as empty and fill it with NoData
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    if (outtype == RDT_Int64) { // GDAL writes NoData in double of 64-bit integers as an unreadable text
+        vint64_t nodata_int64 = 0;
+        if (CvtToCellValue(new_nodata, nodata_int64)) { po_dst_band->SetNoDataValueAsInt64(nodata_int64); }
+    }
+    else if (outtype == RDT_UInt64) {
+        vuint64_t nodata_uint64 = 0;
+        if (CvtToCellValue(new_nodata, nodata_uint64)) { po_dst_band->SetNoDataValueAsUInt64(nodata_uint64); }
+    }
+    else
+#endif
+    { po_dst_band->SetNoDataValue(new_nodata); }
     CPLErr result = CE_None;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
@@ -718,19 +731,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
-    if (outtype == RDT_Int64) { // GDAL writes NoData in double of 64-bit integers as an unreadable text
-        vint64_t nodata_int64 = 0;
-        if (CvtToCellValue(new_nodata, nodata_int64)) { po_dst_band->SetNoDataValueAsInt64(nodata_int64); }
-    }
-    else if (outtype == RDT_UInt64) {
-        vuint64_t nodata_uint64 = 0;
-        if (CvtToCellValue(new_nodata, nodata_uint64)) { po_dst_band->SetNoDataValueAsUInt64(nodata_uint64); }
-    }
-    else
-#endif
-    { po_dst_band->SetNoDataValue(new_nodata); }
-
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
     geo_trans[1] = header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From 2ef545f75a004deaa2e7cae94b14dceb4d563264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 48/61] fix: writing a raster without data by OutputAscFile or
 OutputFileByGdal must fail, not crash

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index aa101bc..f7b06b6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3136,6 +3136,7 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     bool outputdirectly = (nullptr == pos_data_ || nullptr == pos_idx_);
     if (outputdirectly && !is_2draster) { return WriteSingleAsc(abs_filename, headers_, raster_); }
@@ -3158,6 +3159,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
 #ifdef USE_GDAL
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputFileByGdal(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     bool outputdirectly = (nullptr == pos_data_ || nullptr == pos_idx_);
     int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-- 
2.43.0


From c582dd28bd31854304920651d2aacd97d8db1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 49/61] fix: coordinates of extreme row numbers overflow an
 integer

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f7b06b6..6fba16d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3726,7 +3726,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
 template <typename T, typename MASK_T>
 XY_COOR clsRasterData<T, MASK_T>::GetCoordinateByRowCol(const int row, const int col) {
     return XY_COOR(GetXllCenter() + col * GetCellWidth(),
-                   GetYllCenter() + (GetRows() - row - 1) * GetCellWidth());
+                   GetYllCenter() + (GetRows() - 1. - row) * GetCellWidth());
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 908984c2b863e5954bd43472d86654289c2cbd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 50/61] fix: reading several layers into a raster whose
 construction failed overflows its array

---
 src/data_raster.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6fba16d..2204e7f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3387,9 +3387,11 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
                                              double default_value /* NODATA_VALUE */,
                                              const STRING_MAP& opts /* = STRING_MAP() */) {
     if (filenames.empty() || !FilesExist(filenames)) { return false; }
-    n_lyrs_ = CVT_INT(filenames.size());
-    if (n_lyrs_ == 1) { return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts); }
+    if (filenames.size() == 1) {
+        return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts);
+    }
     if (!initialized_) { InitializeRasterClass(true); }
+    n_lyrs_ = CVT_INT(filenames.size());
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     // 1. firstly, take the first layer as the main input, to calculate position index or extract by mask.
     if (!ConstructFromSingleFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts)) {
-- 
2.43.0


From ad049b0810625d27e8435c5ac0fc0b0429b54b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 51/61] fix: an ASCII file read after another raster inherits
 that raster's data type

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2204e7f..95e2ed1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2289,6 +2289,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
     ReleaseData(); // in case of the raster has been read before
+    rs_type_ = RDT_Unknown; // an ASCII file does not tell its data type
     is_2draster = false;
 
     bool readflag = false;
-- 
2.43.0


From 3fdc0491fcc2fe04bd794235bc4c8e1c0a40f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 52/61] fix: combining zone files writes -9999 as a value where
 no default is requested

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 95e2ed1..f519d61 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1442,7 +1442,7 @@ public:
     void SetOutDataType(const string& strtype);
 
     /// Set default value
-    void SetDefaultValue(const double defaultv) { default_value_ = defaultv; }
+    void SetDefaultValue(const double defaultv) { default_value_ = defaultv; CheckDefaultValue(); }
 
     /*!
      * \brief Build subsets by given groups (cell value->group ID) or by discrete values (default)
-- 
2.43.0


From b1e016833038abee93295c2fd173b8ae84b5d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 53/61] fix: mask_rasterio ignored -outdatatype for data items
 that end before their own data type

---
 apps/mask_rasterio.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 1b2f0d4..88f7c63 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -453,10 +453,8 @@ int main(const int argc, const char** argv) {
             else { upd_nodata = true; }
         }
         RasterDataType tmpouttype = RDT_Unknown;
-        if (outtypeidx > 0) {
-            tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx));
-            if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
-        }
+        if (outtypeidx > 0) { tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx)); }
+        if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
         bool do_recls = false;
         map<vint, vector<double> > tmp_recls = map<vint, vector<double> >();
         if (reclsidx > 0) {
-- 
2.43.0


From afad81513546100250ab16775bb89f89506ee5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 54/61] fix: Incomplete or outdated GridFS file may be kept and
 read later when saving raster

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f519d61..64a956c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -991,7 +991,6 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
         StatusMessage(("Failed to convert data type of " + filename).c_str());
         return false;
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
@@ -1013,7 +1012,9 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     int try_times = 0;
     bool gstatus = false;
     while (try_times <= 3) { // Try 3 times
-        gstatus = gfs->WriteStreamData(filename, buf, buflength, &p);
+        // The old file and those incomplete ones left by failed tries MUST be removed, since they may be read later
+        gstatus = gfs->RemoveFile(filename, nullptr, curopts)
+                && gfs->WriteStreamData(filename, buf, buflength, &p);
         if (gstatus) { break; }
         SleepMs(2); // Sleep 0.002 sec and retry
         try_times++;
-- 
2.43.0


From 247fdd428f485557da37c464df07b08880253ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 55/61] fix: Undefined conversion when output subset data of
 Int64 and UInt64 raster

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 64a956c..9473d20 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1097,10 +1097,10 @@ public:
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
                 if (n_lyrs > 1 && nullptr != data2d_) {
-                    tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
+                    CvtToCellValue(data2d_[vi][ilyr], tmpdata[j]); // NoData, if cannot be represented
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
-                    tmpdata[j] = static_cast<T>(data_[vi]);
+                    CvtToCellValue(data_[vi], tmpdata[j]);
                 }
             }
             fulldata.emplace_back(tmpdata);
-- 
2.43.0


From e8e70759eb6e10cb7693c92752139efe389472b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 56/61] fix: Raster created from array cannot be saved to
 MongoDB without data type specified

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9473d20..4c56bd9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3226,6 +3226,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     CopyStringMap(opts, options_); // Update metadata
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+        || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
@@ -3317,6 +3318,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+        || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
-- 
2.43.0


From a1d07954b13b2930358eb3fc2cca21f6c8e6fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 57/61] fix: Data excluding NoData cannot be loaded from
 MongoDB if no NoData exists

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4c56bd9..3ff568c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3529,7 +3529,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         Release1DArray(dbdata);
         return false;
     }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    if (!include_nodata || n_cells_ != fullsize) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-- 
2.43.0


From bee056c66445aecb45dde4be0332b885efc6f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 58/61] fix: Location of mask is ignored when loading raster
 from MongoDB

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3ff568c..22c3f2e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3535,6 +3535,9 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     bool mask_pos_subset = true;
     if (nullptr != mask_ && calc_pos_ && use_mask_ext_
         && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()
+        && (!include_nodata || (FloatEqual(headers_.at(HEADER_RS_XLL), mask_->GetXllCenter())
+            && FloatEqual(headers_.at(HEADER_RS_YLL), mask_->GetYllCenter())
+            && FloatEqual(headers_.at(HEADER_RS_CELLSIZE), mask_->GetCellWidth())))
         && n_cells_ == (mask_->PositionsCalculated() ? mask_->GetCellNumber() : mask_->GetValidNumber())) {
         if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
         if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
-- 
2.43.0


From 18e058e92f519e43078e1028b00dd92d35ead22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 59/61] fix: Default value is ignored and failed data is kept
 when loading raster from MongoDB

---
 src/data_raster.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 22c3f2e..9a88ca0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3565,6 +3565,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         return false;
     }
 
+    CheckDefaultValue();
+    // Default value of the locations where mask is valid and the raster data is NoData
+    T default_cell = no_data_value_;
+    if (!FloatEqual(default_value_, no_data_value_)) { CvtToCellValue(default_value_, default_cell); }
     if (n_lyrs_ == 1) {
         is_2draster = false;
         if (include_nodata && !mask_pos_subset) {
@@ -3573,7 +3577,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             for (int i = 0; i < n_cells_; i++) {
                 //int tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
                 int tmpidx = pos_idx_[i];
-                raster_[i] = static_cast<T>(dbdata[tmpidx]);
+                raster_[i] = FloatEqual(dbdata[tmpidx], no_data_value_) ? default_cell : dbdata[tmpidx];
             }
             Release1DArray(dbdata);
         } else {
@@ -3590,15 +3594,16 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             }
             for (int j = 0; j < n_lyrs_; j++) {
                 int idx = tmpidx * n_lyrs_ + j;
-                raster_2d_[i][j] = dbdata[idx];
+                raster_2d_[i][j] = include_nodata && !mask_pos_subset && FloatEqual(dbdata[idx], no_data_value_)
+                                       ? default_cell : dbdata[idx];
             }
         }
         is_2draster = true;
         Release1DArray(dbdata);
     }
-    CheckDefaultValue();
-    if (include_nodata && mask_pos_subset) {
-        return MaskAndCalculateValidPosition() >= 0;
+    if (include_nodata && mask_pos_subset && MaskAndCalculateValidPosition() < 0) {
+        ReleaseData();
+        return false;
     }
     return true;
 }
-- 
2.43.0


From f0c8a8d4485b3fb36178961a8d5712b6d07bd1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 60/61] fix: IsIpAddress accepted trailing numbers and
 overflowed values

---
 src/basic.cpp | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..1343f08 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -48,31 +48,18 @@ const char* ModelException::what() const NOEXCEPT {
 }
 
 bool IsIpAddress(const char* ip) {
-    bool rv = true;
-    int tmp1, tmp2, tmp3, tmp4;
-    while (true) {
-        int i = stringscanf(ip, "%d.%d.%d.%d", &tmp1, &tmp2, &tmp3, &tmp4);
-        if (i != 4) {
-            rv = false;
-            //cout << "IP Address format is not correct!" << endl;
-            break;
+    if (nullptr == ip) { return false; }
+    // Exactly four numbers in the range of 0 to 255 which are separated by dots
+    for (int i = 0; i < 4; i++) {
+        if (i > 0 && *ip++ != '.') { return false; }
+        if (*ip < '0' || *ip > '9') { return false; }
+        int value = 0;
+        for (; *ip >= '0' && *ip <= '9'; ip++) {
+            value = value * 10 + (*ip - '0');
+            if (value > 255) { return false; }
         }
-        if (tmp1 > 255 || tmp2 > 255 || tmp3 > 255 || tmp4 > 255 ||
-            tmp1 < 0 || tmp2 < 0 || tmp3 < 0 || tmp4 < 0) {
-            rv = false;
-            //cout << "IP Address format is not correct!" << endl;
-            break;
-        }
-        for (const char* p_char = ip; *p_char != 0; p_char++) {
-            if (*p_char != '.' && (*p_char < '0' || *p_char > '9')) {
-                rv = false;
-                //cout << "IP Address format is not correct!" << endl;
-                break;
-            }
-        }
-        break;
     }
-    return rv;
+    return *ip == '\0';
 }
 
 void Log(const string& msg, const string& logpath /* = "debugInfo.log" */) {
-- 
2.43.0


From 8a012832fb57bbba0b231d4e7eb3dc4af52bd684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:46 +0000
Subject: [PATCH 61/61] fix: NoData of subset data loaded from MongoDB taken as
 valid value when merged to the mask

---
 apps/mask_rasterio.cpp |  3 ++-
 src/data_raster.cpp    |  9 ++++++++-
 src/data_raster.hpp    | 10 +++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 88f7c63..1e11f3a 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -661,7 +661,8 @@ int main(const int argc, const char** argv) {
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    if (!subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts)) { exit_code = 3; }
+                    double mask_nodata = mask_layer->GetNoDataValue();
+                    if (!subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts, &mask_nodata)) { exit_code = 3; }
 #endif
                 } else {
                     cout << "Error: " << *inf_it << " does not exist!\n";
diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 125aca4..c91ea37 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -297,7 +297,8 @@ SubsetPositions::~SubsetPositions() {
 }
 
 #ifdef USE_MONGODB
-bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, const STRING_MAP& opts) {
+bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, const STRING_MAP& opts,
+                                      const double* nodata /* = nullptr */) {
     double* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
@@ -311,6 +312,12 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
+    if (nullptr != nodata) {
+        double db_nodata = header_dbl.at(HEADER_RS_NODATA);
+        for (int i = 0; i < db_ncells * db_nlyrs; i++) {
+            if (FloatEqual(dbdata[i], db_nodata)) { dbdata[i] = *nodata; }
+        }
+    }
     if (nullptr != data2d_ && n_lyrs != db_nlyrs) { Release2DArray(data2d_); }
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9a88ca0..3ec6603 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1079,8 +1079,16 @@ public:
         return true;
     }
 #ifdef USE_MONGODB
+    /*!
+     * \brief Read data of the subset from MongoDB
+     * \param[in] gfs MongoGridFs
+     * \param[in] fname File name
+     * \param[in] opts (Optional) Metadata used to identify the file
+     * \param[in] nodata (Optional) Value that substitutes the NoData value of the stored subset
+     */
     bool ReadFromMongoDB(MongoGridFs* gfs, const string& fname,
-                         const STRING_MAP& opts = STRING_MAP());
+                         const STRING_MAP& opts = STRING_MAP(),
+                         const double* nodata = nullptr);
 #endif
     void GetHeader(double gxll, double gyll, int gnrows, double cellsize,
                    double nodata, STRDBL_MAP& subheader);
-- 
2.43.0

