From 9079065e4b3270e9d73a7bd7f464536ac0fa52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 01/92] fix: report read errors when loading a text file

A stream in the bad state never reaches end of file, so loading looped
forever on a read error or a directory, and a partly read file was
returned as success.
---
 src/utils_filesystem.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..cafa84e 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -378,18 +378,16 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            // success only if reading stopped at the end of the file rather than at a read error
+            b_status = myfile.eof() && !myfile.bad();
+            if (!b_status) { content_strs.clear(); }
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
@@ -397,6 +395,7 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
     } catch (...) {
         myfile.close();
         cout << "Load plain text file: " << filepath << " failed!" << endl;
+        content_strs.clear();
         b_status = false;
     }
     return b_status;
-- 
2.43.0


From 0e5fa87db9c147229ccd24752cef9b0d576d6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 02/92] fix: file search reports listing errors and only
 matching files

A directory that could not be opened or read gave an empty or partial
list with the success code. Directories were returned as files, names
without extension matched every expression, partial extensions matched,
and the extension was taken from a same-named entry of the current
directory when that is a link.
---
 src/utils_filesystem.cpp | 65 ++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index cafa84e..b6eab0e 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -1,5 +1,6 @@
 #include "utils_filesystem.h"
 
+#include <cctype>
 #include <cstdio>
 #include <sstream>
 #include <iostream>
@@ -89,33 +90,53 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
     } while (::FindNextFile(h_find, &find_file_data));
 #else
     DIR *dir = opendir(newlp_path);
+    if (nullptr == dir) { return -1; }
     //cout<<"Find existed files ..."<<endl;
-    if (dir) {
-        struct dirent *h_file;
+    const string strexpression(expression);
+    const bool match_all = utils_string::StringMatch(expression, ".*") || utils_string::StringMatch(expression, "*.*");
+    vector<string> found_files;
+    int err = 0;
+    while (true) {
         errno = 0;
-        while ((h_file = readdir(dir)) != nullptr) {
-            if (!strcmp(h_file->d_name, ".")) continue;
-            if (!strcmp(h_file->d_name, "..")) continue;
-
-            // in linux hidden files all start with '.'
-            if (h_file->d_name[0] == '.') continue;
-
-            string filename(h_file->d_name);
-            // cout << filename<<endl;
-            string ext = GetSuffix(filename);
-            // cout << ext << "\t" << expression << endl;
-            string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
-                || utils_string::StringMatch(expression, ".*")
-                || utils_string::StringMatch(expression, "*.*")) {
-                std::ostringstream oss;
-                oss << newlp_path << SEP << filename;
-                cout << oss.str() << endl;
-                vec_files.emplace_back(oss.str());
+        struct dirent *h_file = readdir(dir);
+        if (nullptr == h_file) {
+            err = errno; // 0 at the end of the directory
+            break;
+        }
+        // in linux hidden files all start with '.', including "." and ".."
+        if (h_file->d_name[0] == '.') continue;
+
+        string filename(h_file->d_name);
+        string fullpath = abspath + SEP + filename;
+        struct stat file_stat;
+        if (stat(fullpath.c_str(), &file_stat) == 0) {
+            if (S_ISDIR(file_stat.st_mode)) continue;
+        } else if (errno != ENOENT) { // the type of this entry is unknown
+            err = errno;
+            break;
+        }
+        bool matched = match_all;
+        string::size_type dot = filename.find_last_of('.');
+        string ext = dot == string::npos ? "" : filename.substr(dot + 1);
+        if (!matched && !ext.empty()) {
+            matched = utils_string::StringMatch(ext.c_str(), expression);
+            // the expression may list several extensions, e.g., ".tif,.asc"
+            string::size_type pos = strexpression.find(ext);
+            while (!matched && pos != string::npos) {
+                string::size_type end = pos + ext.length();
+                matched = (pos == 0 || !isalnum(static_cast<unsigned char>(strexpression[pos - 1])))
+                        && (end == strexpression.length() || !isalnum(static_cast<unsigned char>(strexpression[end])));
+                pos = strexpression.find(ext, pos + 1);
             }
         }
-        closedir(dir);
+        if (matched) {
+            cout << fullpath << endl;
+            found_files.emplace_back(fullpath);
+        }
     }
+    closedir(dir);
+    if (err != 0) { return -1; }
+    vec_files.insert(vec_files.end(), found_files.begin(), found_files.end());
 #endif /* WINDOWS */
     return 0;
 }
-- 
2.43.0


From 433006085134488923e5f071a16118e9471e3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 03/92] fix: creating a directory that appears concurrently
 succeeds

---
 src/utils_filesystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index b6eab0e..def0ee3 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -164,7 +164,9 @@ bool MakeDirectory(const string& dirpath) {
     LPSECURITY_ATTRIBUTES att = nullptr;
     return ::CreateDirectory(abspath.c_str(), att);
 #else
-    return mkdir(abspath.c_str(), 0777) == 0;
+    if (mkdir(abspath.c_str(), 0777) == 0) { return true; }
+    // another process may have created the directory in the meantime
+    return errno == EEXIST && DirectoryExists(abspath);
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From 4bbbcf39c9479e3fcc64f25c4ac984ae5663e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 04/92] fix: cleaning a directory fails if its files cannot be
 listed

The result of the file search was ignored, and a directory that could
not be inspected at first was taken for a new one and left uncleaned.
---
 src/utils_filesystem.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index def0ee3..94a7ea7 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -173,17 +173,15 @@ bool MakeDirectory(const string& dirpath) {
 bool CleanDirectory(const string& dirpath) {
     string abspath = GetAbsolutePath(dirpath);
     try {
-        if (DirectoryExists(abspath)) {
-            /// empty the directory
-            vector<string> existed_files;
-            FindFiles(abspath.c_str(), "*.*", existed_files);
-            int err_count = 0;
-            for (auto it = existed_files.begin(); it != existed_files.end(); ++it) {
-                if (remove((*it).c_str()) < 0) { err_count += 1; }
-            }
-            return err_count == 0;
+        if (!MakeDirectory(abspath)) { return false; }
+        /// empty the directory
+        vector<string> existed_files;
+        if (FindFiles(abspath.c_str(), "*.*", existed_files) != 0) { return false; }
+        int err_count = 0;
+        for (auto it = existed_files.begin(); it != existed_files.end(); ++it) {
+            if (remove((*it).c_str()) < 0) { err_count += 1; }
         }
-        return MakeDirectory(abspath);
+        return err_count == 0;
     } catch (...) {
         cout << "Create or clean directory: " << abspath << " failed!" << endl;
         return false;
-- 
2.43.0


From 6d564b60246a1a2759cf8bd67709a5822b7785cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 05/92] fix: deleting a directory is honest and does not
 truncate paths

Entries that could not be listed, inspected or removed were reported as
success, sub-directories were missed where the file system does not
provide entry types, and entry paths were cut at PATH_MAX.
---
 src/utils_filesystem.cpp | 49 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 94a7ea7..ab5cc72 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -190,8 +190,8 @@ bool CleanDirectory(const string& dirpath) {
 
 bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     string abspath = GetAbsolutePath(dirpath);
-    if (!DirectoryExists(abspath)) return true;
 #ifdef WINDOWS
+    if (!DirectoryExists(abspath)) return true;
     bool b_subdirectory = false;      // Flag, indicating whether subdirectories have been found
     string str_file_path;             // Filepath
     WIN32_FIND_DATA file_information; // File information
@@ -241,30 +241,45 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     }
     return true;
 #else
-    DIR *dir;
-    struct dirent *entry;
-    char path[PATH_MAX];
-
-    dir = opendir(abspath.c_str());
+    struct stat dir_stat;
+    if (lstat(abspath.c_str(), &dir_stat) != 0) { return errno == ENOENT || errno == ENOTDIR; }
+    if (!DirectoryExists(abspath)) { return !S_ISDIR(dir_stat.st_mode); }
+    DIR *dir = opendir(abspath.c_str());
     if (dir == nullptr) {
         perror("Error opendir()");
-        return true;
+        return false;
     }
-
-    while ((entry = readdir(dir)) != nullptr) {
-        if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
-            snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
-                DeleteDirectory(path, del_subdirs);
+    bool success = true;
+    bool b_subdirectory = false;
+    while (true) {
+        errno = 0;
+        struct dirent *entry = readdir(dir);
+        if (nullptr == entry) {
+            if (errno != 0) { success = false; }
+            break;
+        }
+        if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, "..")) continue;
+        string path = abspath + SEP + entry->d_name;
+        // d_type is optional and links must not be followed, so ask for the type of the entry itself
+        struct stat entry_stat;
+        if (lstat(path.c_str(), &entry_stat) != 0) {
+            success = false;
+        } else if (S_ISDIR(entry_stat.st_mode)) {
+            if (!del_subdirs) {
+                b_subdirectory = true;
+            } else if (!DeleteDirectory(path, del_subdirs)) {
+                success = false;
             }
-            printf("Deleting: %s\n", path);
-            remove(path);
+        } else {
+            printf("Deleting: %s\n", path.c_str());
+            if (remove(path.c_str()) != 0) { success = false; }
         }
     }
     closedir(dir);
+    if (!success) { return false; }
+    if (b_subdirectory) { return true; }
     printf("Deleting: %s\n", abspath.c_str());
-    remove(abspath.c_str());
-    return true;
+    return remove(abspath.c_str()) == 0;
 #endif /* WINDOWS */
 }
 
-- 
2.43.0


From 4ee265fc984fdaca5a60b816e50c050d1b34448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 06/92] fix: ASCII raster writes report write errors and
 replace the old file in one step

---
 src/data_raster.cpp      |  6 ++++-
 src/data_raster.hpp      | 47 ++++++++++++++++++++++++++++++++++------
 src/utils_filesystem.cpp | 10 +++++++++
 src/utils_filesystem.h   |  8 +++++++
 4 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..a711881 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -189,7 +189,7 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
-    std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
+    std::ofstream raster_file(abs_filename.c_str(), std::ios::trunc | std::ios::out);
     if (!raster_file.is_open()) {
         StatusMessage("Error opening file: " + abs_filename);
         return false;
@@ -203,6 +203,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
     raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
+    if (raster_file.fail()) {
+        StatusMessage("Error writing file: " + abs_filename);
+        return false;
+    }
     return true;
 }
 
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..ff0ba5e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -326,10 +326,16 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     string abs_filename = GetAbsolutePath(filename);
     string dirname = GetPathFromFullName(abs_filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
-    if (!WriteAscHeaders(abs_filename, header)) { return false; }
-    std::ofstream raster_file(abs_filename.c_str(), std::ios::app | std::ios::out);
+    // Write completely to a temporary file first, then replace the existed file
+    string part_filename = abs_filename + ".part";
+    if (!WriteAscHeaders(part_filename, header)) {
+        DeleteExistedFile(part_filename);
+        return false;
+    }
+    std::ofstream raster_file(part_filename.c_str(), std::ios::app | std::ios::out);
     if (!raster_file.is_open()) {
         StatusMessage("Error opening file: " + abs_filename);
+        DeleteExistedFile(part_filename);
         return false;
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
@@ -342,7 +348,12 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     raster_file << endl;
     raster_file.close();
-    return true;
+    if (raster_file.fail()) {
+        StatusMessage("Error writing file: " + abs_filename);
+        DeleteExistedFile(part_filename);
+        return false;
+    }
+    return ReplaceExistedFile(part_filename, abs_filename);
 }
 
 #ifdef USE_GDAL
@@ -3156,10 +3167,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
         if (StringMatch(pre_path, "")) { return false; }
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
             string tmpfilename = AppendCoreFileName(abs_filename, itoa(CVT_VINT(lyr)));
-            if (!WriteAscHeaders(tmpfilename, headers_)) { return false; }
-            std::ofstream raster_file(tmpfilename.c_str(), std::ios::app | std::ios::out);
+            string partfilename = tmpfilename + ".part";
+            if (!WriteAscHeaders(partfilename, headers_)) {
+                DeleteExistedFile(partfilename);
+                return false;
+            }
+            std::ofstream raster_file(partfilename.c_str(), std::ios::app | std::ios::out);
             if (!raster_file.is_open()) {
                 StatusMessage("Error opening file: " + tmpfilename);
+                DeleteExistedFile(partfilename);
                 return false;
             }
             int index = 0;
@@ -3178,12 +3194,23 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 raster_file << endl;
             }
             raster_file.close();
+            if (raster_file.fail()) {
+                StatusMessage("Error writing file: " + tmpfilename);
+                DeleteExistedFile(partfilename);
+                return false;
+            }
+            if (!ReplaceExistedFile(partfilename, tmpfilename)) { return false; }
         }
     } else { // 1D raster data
-        if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
-        std::ofstream raster_file(filename.c_str(), std::ios::app | std::ios::out);
+        string partfilename = abs_filename + ".part";
+        if (!WriteAscHeaders(partfilename, headers_)) {
+            DeleteExistedFile(partfilename);
+            return false;
+        }
+        std::ofstream raster_file(partfilename.c_str(), std::ios::app | std::ios::out);
         if (!raster_file.is_open()) {
             StatusMessage("Error opening file: " + abs_filename);
+            DeleteExistedFile(partfilename);
             return false;
         }
         int index = 0;
@@ -3204,6 +3231,12 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             raster_file << endl;
         }
         raster_file.close();
+        if (raster_file.fail()) {
+            StatusMessage("Error writing file: " + abs_filename);
+            DeleteExistedFile(partfilename);
+            return false;
+        }
+        if (!ReplaceExistedFile(partfilename, abs_filename)) { return false; }
     }
     position = nullptr;
     return true;
diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index ab5cc72..6f5bfad 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -63,6 +63,16 @@ int DeleteExistedFile(const string& filepath) {
     return -1;
 }
 
+bool ReplaceExistedFile(const string& tmpfile, const string& filepath) {
+#ifdef WINDOWS
+    bool moved = MoveFileEx(tmpfile.c_str(), filepath.c_str(), MOVEFILE_REPLACE_EXISTING) != 0;
+#else
+    bool moved = rename(tmpfile.c_str(), filepath.c_str()) == 0;
+#endif /* WINDOWS */
+    if (!moved) { DeleteExistedFile(tmpfile); }
+    return moved;
+}
+
 int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_files) {
     string abspath = GetAbsolutePath(lp_path);
     const char* newlp_path = abspath.c_str();
diff --git a/src/utils_filesystem.h b/src/utils_filesystem.h
index 4a70d28..fa1d312 100644
--- a/src/utils_filesystem.h
+++ b/src/utils_filesystem.h
@@ -149,6 +149,14 @@ bool PathExists(string const& path);
  */
 int DeleteExistedFile(const string& filepath);
 
+/*!
+ * \brief Move a completely written file to its final name, replacing an existing file in one step.
+ * \param[in] tmpfile \a string Path of the new file, which is deleted if it cannot be moved
+ * \param[in] filepath \a string Final path
+ * \return true if the final path now is the new file
+ */
+bool ReplaceExistedFile(const string& tmpfile, const string& filepath);
+
 /*!
  * \brief Find files in given paths
  * \param[in] lp_path Directory path
-- 
2.43.0


From f0f3fb12013749997e29e34de3bc201bb2aa03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 07/92] fix: multi-layer ASCII output writes the raster's own
 no-data value

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ff0ba5e..0ca8cfb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3189,7 +3189,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
                         raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
-- 
2.43.0


From 82288715fda1f9d29c89c6d51fe312ba1d19f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 08/92] fix: ASCII output writes 8-bit cells as numbers, not
 characters

---
 src/data_raster.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0ca8cfb..f409b76 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -342,7 +342,7 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            raster_file << setprecision(6) << +values[i * cols + j] << " ";
         }
         raster_file << endl;
     }
@@ -3183,13 +3183,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(6) << +raster_2d_[index][lyr] << " ";
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        raster_file << setprecision(6) << +raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
@@ -3218,15 +3218,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    raster_file << setprecision(6) << +raster_[index] << " ";
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        raster_file << setprecision(6) << +raster_[index] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
+                } else { raster_file << setprecision(6) << +no_data_value_ << " "; }
             }
             raster_file << endl;
         }
-- 
2.43.0


From eb09df44a305262f5fa70811b2a482670e712016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 09/92] fix: GeoTIFF output keeps cells of value zero

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f409b76..cd7f646 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -800,6 +800,8 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                                                CvtToGDALDataType(outtype), papsz_options);
     if (nullptr == po_dst_ds) { return false; }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
+    // NoData must be known before writing, otherwise GDAL stores a block of zeros as NoData
+    po_dst_band->SetNoDataValue(new_nodata);
     CPLErr result = CE_None;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
@@ -816,7 +818,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-    po_dst_band->SetNoDataValue(new_nodata);
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From 45a40ba981d8ee6218f210b46a4d2001811ea1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 10/92] fix: GeoTIFF writes report write errors and replace the
 old file in one step

---
 src/data_raster.hpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index cd7f646..a28693a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -796,9 +796,16 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (nullptr == po_driver) { return false; }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
-    GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
+    // Write completely to a temporary file first, then replace the existed file
+    string part_filename = filename + ".part";
+    GDALDataset* po_dst_ds = po_driver->Create(part_filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    if (nullptr == po_dst_ds) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        DeleteExistedFile(part_filename);
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     // NoData must be known before writing, otherwise GDAL stores a block of zeros as NoData
     po_dst_band->SetNoDataValue(new_nodata);
@@ -816,6 +823,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
         if (new_values != nullptr) { CPLFree(new_values); }
         GDALClose(po_dst_ds);
+        DeleteExistedFile(part_filename);
         return false;
     }
 
@@ -826,7 +834,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     geo_trans[3] = header.at(HEADER_RS_YLL) + (n_rows - 0.5) * header.at(HEADER_RS_CELLSIZE);
     geo_trans[4] = 0.;
     geo_trans[5] = -header.at(HEADER_RS_CELLSIZE);
-    po_dst_ds->SetGeoTransform(geo_trans);
+    result = po_dst_ds->SetGeoTransform(geo_trans);
     if (opts.find(HEADER_RS_SRS) == opts.end()) {
         po_dst_ds->SetProjection("");
     } else {
@@ -834,9 +842,27 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
+    // Cached blocks and the file directory are written at the latest on closing
+    CPLErrorReset();
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 7)
+    if (GDALClose(po_dst_ds) != CE_None) { result = CE_Failure; }
+#else
     GDALClose(po_dst_ds);
-
-    return true;
+#endif
+    if (CPLGetLastErrorType() >= CE_Failure) { result = CE_Failure; }
+    if (result != CE_None) {
+        StatusMessage("Error writing file: " + filename);
+        DeleteExistedFile(part_filename);
+        return false;
+    }
+    // Auxiliary information belongs to the file which has been replaced
+    DeleteExistedFile(filename + ".aux.xml");
+    if (FileExists(part_filename + ".aux.xml")
+        && !ReplaceExistedFile(part_filename + ".aux.xml", filename + ".aux.xml")) {
+        DeleteExistedFile(part_filename);
+        return false;
+    }
+    return ReplaceExistedFile(part_filename, filename);
 }
 #endif /* USE_GDAL */
 
-- 
2.43.0


From 8f3cf5dafcb92e78f4a896dfc5a43c8bcbae1872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 11/92] fix: two-dimensional arrays of no rows or columns are
 refused

---
 src/utils_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..cef649d 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -384,6 +384,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The row and column count MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
-- 
2.43.0


From 58b992d687b9c7fc5a8ef6ffe48b709fab313bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 12/92] fix: GeoTIFF writes report errors while the file is
 created

---
 src/data_raster.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a28693a..ffa0f26 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -798,6 +798,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     // Write completely to a temporary file first, then replace the existed file
     string part_filename = filename + ".part";
+    CPLErrorReset(); // GDAL may report write errors without failing the call
     GDALDataset* po_dst_ds = po_driver->Create(part_filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
     if (nullptr == po_dst_ds) {
@@ -806,6 +807,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         DeleteExistedFile(part_filename);
         return false;
     }
+    bool io_failed = CPLGetLastErrorType() >= CE_Failure;
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     // NoData must be known before writing, otherwise GDAL stores a block of zeros as NoData
     po_dst_band->SetNoDataValue(new_nodata);
@@ -842,15 +844,15 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
+    io_failed = io_failed || CPLGetLastErrorType() >= CE_Failure;
     // Cached blocks and the file directory are written at the latest on closing
-    CPLErrorReset();
 #if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 7)
     if (GDALClose(po_dst_ds) != CE_None) { result = CE_Failure; }
 #else
     GDALClose(po_dst_ds);
 #endif
-    if (CPLGetLastErrorType() >= CE_Failure) { result = CE_Failure; }
-    if (result != CE_None) {
+    io_failed = io_failed || CPLGetLastErrorType() >= CE_Failure;
+    if (result != CE_None || io_failed) {
         StatusMessage("Error writing file: " + filename);
         DeleteExistedFile(part_filename);
         return false;
-- 
2.43.0


From b0de3d7e6ad068561054a066eb68aed9a3b60508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 13/92] fix: masking without any valid cell in common fails
 instead of giving a negative extent

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ffa0f26..7c077ad 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4017,6 +4017,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    // there is no extent to shrink to if none of the masked cells has a valid value
+    if (matched_count == 0 && !use_mask_ext_) { return -1; }
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From 589b6f9412a5d1eea767c50430f3f9cb7d56f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 14/92] fix: coordinates in the outer halves of border cells
 are located correctly

---
 src/data_raster.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7c077ad..ce7846f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3854,10 +3854,14 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    // the right and lower edges do not belong to any cell
+    if (row >= n_rows || col >= n_cols) { return ROW_COL(-1, -1); }
+    return ROW_COL(row, col);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 9928b7b8bfb786b2c465358e96077dbcb779af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 15/92] fix: masked cells keep their place when the mask's
 extent is used

---
 src/data_raster.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ce7846f..2714212 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4149,8 +4149,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             size_t idx = distance(vit, it);
             int tmpr = pos_rows.at(idx);
             int tmpc = pos_cols.at(idx);
-            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col
-                || FloatEqual(static_cast<T>(*it), no_data_value_)) {
+            // positions stay relative to the mask's extent if this is the raster's extent
+            bool out_of_ext = upd_header_rowcol
+                    && (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col);
+            if (out_of_ext || FloatEqual(static_cast<T>(*it), no_data_value_)) {
                 it = values.erase(it);
                 if (is_2draster && n_lyrs_ > 1) {
                     values_2d.erase(data2dit + idx);
@@ -4162,8 +4164,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 cit = pos_cols.begin();
                 vit = values.begin();
             } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
+                if (upd_header_rowcol) {
+                    pos_rows[idx] -= min_row; // get new column and row number
+                    pos_cols[idx] -= min_col;
+                }
                 ++it;
             }
         }
-- 
2.43.0


From 12a896075417a335c4f124c77e8798b957332a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 16/92] fix: masking is applied also if the cell count does not
 change

---
 src/data_raster.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2714212..cc7cf2e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4209,11 +4209,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (store_fullsize) {
         n_cells_ = ncols * nrows;
     }
-    bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
-    }
-    if (release_origin) {
+    {
         if (is_2draster && nullptr != raster_2d_) { // multiple layers
             Release2DArray(raster_2d_);
             Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
-- 
2.43.0


From 88992f58fa35d450bd3082712b7a2a810a20956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 17/92] fix: default values of masked cells do not overwrite
 other layers or count as valid values

---
 src/data_raster.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index cc7cf2e..368c922 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3993,8 +3993,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         tmp_value = GetValue(tmp_pos.first, tmp_pos.second, 1);
         if (FloatEqual(tmp_value, no_data_value_)) {
             if (!FloatEqual(default_value_, no_data_value_)) {
+                // the source cell stays NODATA, it may belong to several cells of a finer mask
                 tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
             }
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
@@ -4010,7 +4010,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From 72cf1f694f647e0f6c17f83377419540f6a68592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 18/92] fix: position data borrowed from a mask is never
 released by its users

---
 src/data_raster.hpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 368c922..5487f42 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1933,6 +1933,11 @@ private:
      */
     void CalculateValidPositionsFromGridData();
 
+    /*!
+     * \brief Release position data if owned by the current raster
+     */
+    void ReleasePositions();
+
     /*!
      * \brief Prepare combination data array of subsets for output
      */
@@ -2367,8 +2372,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::~clsRasterData() {
     if (!core_name_.empty()) { StatusMessage(("Release raster: " + core_name_).c_str()); }
     if (nullptr != raster_) { Release1DArray(raster_); }
-    if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
-    if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+    ReleasePositions();
     if (nullptr != raster_2d_ && is_2draster) { Release2DArray(raster_2d_); }
     if (is_2draster && stats_calculated_) { ReleaseStatsMap2D(); }
     ReleaseSubset();
@@ -2455,6 +2459,17 @@ bool clsRasterData<T, MASK_T>::ReleaseSubset() {
     return true;
 }
 
+template <typename T, typename MASK_T>
+void clsRasterData<T, MASK_T>::ReleasePositions() {
+    if (store_pos_) { // otherwise, owned by the mask or by the caller of SetPositions()
+        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+    }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+}
+
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::RebuildSubSet(const map<int, int> groups /* = map<int, int>() */) {
     return ReleaseSubset() && BuildSubSet(groups);
@@ -2856,7 +2871,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
     if (nullptr != pos_data_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release2DArray(pos_data_);
+        if (store_pos_) { Release2DArray(pos_data_); }
     }
     pos_data_ = pdata;
     calc_pos_ = true;
@@ -2868,7 +2883,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
     if (nullptr != pos_idx_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release1DArray(pos_idx_);
+        if (store_pos_) { Release1DArray(pos_idx_); }
     }
     pos_idx_ = pdata;
     calc_pos_ = true;
@@ -3714,12 +3729,7 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!is_2draster && nullptr != raster_) {
         Release1DArray(raster_);
     }
-    if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
-    }
+    ReleasePositions();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
@@ -4175,10 +4185,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         vector<int>(pos_rows).swap(pos_rows);
         vector<int>(pos_cols).swap(pos_cols);
 
-        store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        ReleasePositions();
+        store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4191,8 +4200,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        ReleasePositions();
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From 8e6fb7d6899b3906373ecc9a17ae3c7b5f837db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 19/92] fix: ASCII grids that are incomplete or whose header is
 impossible are refused

---
 src/data_raster.hpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5487f42..b6a1105 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -229,10 +229,20 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     int rows = -1;
     int cols = -1;
     int vidx = 0;
+    int ncells = 0;
+    T* tmpvalues = nullptr;
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
         bool str2value = false;
+        if (nullptr != tmpvalues && isalpha(static_cast<unsigned char>(tokens[0][0]))) {
+            IsDouble(tokens[0], str2value); // e.g., nan and inf
+            if (!str2value) {
+                StatusMessage("Error: Header information MUST precede the values!");
+                Release1DArray(tmpvalues);
+                return false;
+            }
+        }
         if (StringMatch(tokens[0], HEADER_RS_NCOLS)) {
             if (tokens.size() < 2) { return false; }
             cols = CVT_INT(IsInt(tokens[1], str2value));
@@ -268,31 +278,43 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (!str2value) { return false; }
         }
         else {
-            if (rows < 0 || cols < 0) {
-                StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+            if (nullptr == tmpvalues) {
+                if (rows <= 0 || cols <= 0 || rows > INT32_MAX / cols) {
+                    StatusMessage("Error: NCOLS and NROWS should be defined first and be valid!");
+                    return false;
+                }
+                ncells = rows * cols;
+                if (!Initialize1DArray(ncells, tmpvalues, nodata)) { return false; }
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
                 if (!str2value) {
                     StatusMessage("Error: No value occurred in Raster data matrix!");
-                    if (nullptr != values) { Release1DArray(values); }
+                    Release1DArray(tmpvalues);
                     return false;
                 }
-                if (vidx == rows * cols) {
+                if (vidx == ncells) {
                     StatusMessage("Error: Count of values MUST equal to rows * cols!");
-                    if (nullptr != values) { Release1DArray(values); }
+                    Release1DArray(tmpvalues);
                     return false;
                 }
-                values[vidx++] = static_cast<T>(tmpv);
+                tmpvalues[vidx++] = static_cast<T>(tmpv);
             }
         }
     }
-    if (rows < 0 || cols < 0 || cellsize < 0 ||
+    if (nullptr == tmpvalues || rows < 0 || cols < 0 || cellsize <= 0 ||
         FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
+        if (nullptr != tmpvalues) { Release1DArray(tmpvalues); }
+        return false;
+    }
+    if (vidx != ncells) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        Release1DArray(tmpvalues);
         return false;
     }
+    if (nullptr != values) { Release1DArray(values); }
+    values = tmpvalues;
     // default is center, if corner, then:
     if (xllcorner) { xll += 0.5 * cellsize; }
     if (yllcorner) { yll += 0.5 * cellsize; }
-- 
2.43.0


From ce435ac23d55948d7eb450a7149b0224dfd81b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 20/92] fix: GDAL reads fail cleanly if memory, bands or cells
 are not available

---
 src/data_raster.hpp | 116 +++++++++++++++++++++++++++++---------------
 1 file changed, 78 insertions(+), 38 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b6a1105..a1fc3e0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -399,8 +399,18 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
     GDALRasterBand* po_band = po_dataset->GetRasterBand(1);
+    if (nullptr == po_band) {
+        StatusMessage("No raster band in file " + filename);
+        GDALClose(po_dataset);
+        return false;
+    }
     int n_rows = po_band->GetYSize();
     int n_cols = po_band->GetXSize();
+    if (n_rows <= 0 || n_cols <= 0 || n_rows > INT32_MAX / n_cols) {
+        StatusMessage("Unsupported raster size of file " + filename);
+        GDALClose(po_dataset);
+        return false;
+    }
     int get_value_flag = false;
     double nodata = po_band->GetNoDataValue(&get_value_flag);
     int approx_minmax = false;
@@ -431,24 +441,30 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         //
         // Update (08/09/2023): GDAL>=3.7 added the support of GDT_Int8. Keep this code for compatibility!
         //
-        po_band->ComputeRasterMinMax(approx_minmax, minmax);
-        if ((minmax[1] <= 127 && minmax[0] < 0)
-            || (minmax[1] <= 127 && minmax[0] >= 0 && (!get_value_flag || (get_value_flag && nodata < 0)))) {
-            read_as_signedbyte = true;
-        }
-        uchar_data = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uchar_data,
-                                   n_cols, n_rows, GDT_Byte, 0, 0);
+        uchar_data = static_cast<unsigned char*>(VSIMalloc3(sizeof(unsigned char), n_cols, n_rows));
+        result = nullptr == uchar_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uchar_data,
+                                       n_cols, n_rows, GDT_Byte, 0, 0);
         if (result != CE_None) {
+            CPLFree(uchar_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
         }
+        if (po_band->ComputeRasterMinMax(approx_minmax, minmax) != CE_None) {
+            minmax[0] = 0.; // there are only NODATA cells
+            minmax[1] = UINT8_MAX;
+        }
+        if ((minmax[1] <= 127 && minmax[0] < 0)
+            || (minmax[1] <= 127 && minmax[0] >= 0 && (!get_value_flag || (get_value_flag && nodata < 0)))) {
+            read_as_signedbyte = true;
+        }
         if (read_as_signedbyte) {
             StatusMessage("Read GDT_Byte raster as signed char!");
-            Initialize1DArray(n_rows * n_cols, char_data, uchar_data);
-            Initialize1DArray(n_rows * n_cols, tmprasterdata, char_data);
-            Release1DArray(char_data);
+            if (Initialize1DArray(n_rows * n_cols, char_data, uchar_data)) {
+                Initialize1DArray(n_rows * n_cols, tmprasterdata, char_data);
+                Release1DArray(char_data);
+            }
             in_type = RDT_Int8;
         } else {
             StatusMessage("Read GDT_Byte raster as unsigned char!");
@@ -459,10 +475,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         break;
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 7
     case GDT_Int8:
-            char_data = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
-            result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, char_data,
-                                       n_cols, n_rows, GDT_Int8, 0, 0);
+            char_data = static_cast<signed char*>(VSIMalloc3(sizeof(signed char), n_cols, n_rows));
+            result = nullptr == char_data ? CE_Failure
+                         : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, char_data,
+                                           n_cols, n_rows, GDT_Int8, 0, 0);
             if (result != CE_None) {
+                CPLFree(char_data);
                 StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
                 GDALClose(po_dataset);
                 return false;
@@ -473,10 +491,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
             break;
 #endif
     case GDT_UInt16:
-        uint16_data = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint16_data,
-                                   n_cols, n_rows, GDT_UInt16, 0, 0);
+        uint16_data = static_cast<vuint16_t*>(VSIMalloc3(sizeof(vuint16_t), n_cols, n_rows));
+        result = nullptr == uint16_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint16_data,
+                                       n_cols, n_rows, GDT_UInt16, 0, 0);
         if (result != CE_None) {
+            CPLFree(uint16_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -486,10 +506,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_UInt16;
         break;
     case GDT_Int16:
-        int16_data = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int16_data,
-                                   n_cols, n_rows, GDT_Int16, 0, 0);
+        int16_data = static_cast<vint16_t*>(VSIMalloc3(sizeof(vint16_t), n_cols, n_rows));
+        result = nullptr == int16_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int16_data,
+                                       n_cols, n_rows, GDT_Int16, 0, 0);
         if (result != CE_None) {
+            CPLFree(int16_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -499,10 +521,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_Int16;
         break;
     case GDT_UInt32:
-        uint32_data = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint32_data,
-                                   n_cols, n_rows, GDT_UInt32, 0, 0);
+        uint32_data = static_cast<vuint32_t*>(VSIMalloc3(sizeof(vuint32_t), n_cols, n_rows));
+        result = nullptr == uint32_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint32_data,
+                                       n_cols, n_rows, GDT_UInt32, 0, 0);
         if (result != CE_None) {
+            CPLFree(uint32_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -512,10 +536,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_UInt32;
         break;
     case GDT_Int32:
-        int32_data = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int32_data,
-                                   n_cols, n_rows, GDT_Int32, 0, 0);
+        int32_data = static_cast<vint32_t*>(VSIMalloc3(sizeof(vint32_t), n_cols, n_rows));
+        result = nullptr == int32_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int32_data,
+                                       n_cols, n_rows, GDT_Int32, 0, 0);
         if (result != CE_None) {
+            CPLFree(int32_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -526,10 +552,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         break;
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
     case GDT_UInt64:
-        uint64_data = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint64_data,
-                                   n_cols, n_rows, GDT_UInt64, 0, 0);
+        uint64_data = static_cast<vuint64_t*>(VSIMalloc3(sizeof(vuint64_t), n_cols, n_rows));
+        result = nullptr == uint64_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint64_data,
+                                       n_cols, n_rows, GDT_UInt64, 0, 0);
         if (result != CE_None) {
+            CPLFree(uint64_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -539,10 +567,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_UInt64;
         break;
     case GDT_Int64:
-        int64_data = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int64_data,
-                                   n_cols, n_rows, GDT_Int64, 0, 0);
+        int64_data = static_cast<vint64_t*>(VSIMalloc3(sizeof(vint64_t), n_cols, n_rows));
+        result = nullptr == int64_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, int64_data,
+                                       n_cols, n_rows, GDT_Int64, 0, 0);
         if (result != CE_None) {
+            CPLFree(int64_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -553,10 +583,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         break;
 #endif
     case GDT_Float32:
-        float_data = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, float_data,
-                                   n_cols, n_rows, GDT_Float32, 0, 0);
+        float_data = static_cast<float*>(VSIMalloc3(sizeof(float), n_cols, n_rows));
+        result = nullptr == float_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, float_data,
+                                       n_cols, n_rows, GDT_Float32, 0, 0);
         if (result != CE_None) {
+            CPLFree(float_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -566,10 +598,12 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         in_type = RDT_Float;
         break;
     case GDT_Float64:
-        double_data = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, double_data,
-                                   n_cols, n_rows, GDT_Float64, 0, 0);
+        double_data = static_cast<double*>(VSIMalloc3(sizeof(double), n_cols, n_rows));
+        result = nullptr == double_data ? CE_Failure
+                     : po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, double_data,
+                                       n_cols, n_rows, GDT_Float64, 0, 0);
         if (result != CE_None) {
+            CPLFree(double_data);
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
             GDALClose(po_dataset);
             return false;
@@ -584,6 +618,11 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
 
+    if (nullptr == tmprasterdata) {
+        StatusMessage("Not enough memory to read " + filename);
+        GDALClose(po_dataset);
+        return false;
+    }
     if (!get_value_flag) { // NoData value is not defined!
         nodata = DefaultNoDataByType(in_type);
     }
@@ -602,6 +641,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
 
     GDALClose(po_dataset);
 
+    if (nullptr != values) { Release1DArray(values); }
     values = tmprasterdata;
     return true;
 }
-- 
2.43.0


From 4c2eec64a320aafd8a04a18c7f26dd1c08a0ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 21/92] fix: multi-layer reads fail if any layer cannot be read

---
 src/data_raster.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a1fc3e0..3c81a32 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3581,6 +3581,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     if (!ConstructFromSingleFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts)) {
         return false;
     }
+    if (nullptr == raster_) { return false; } // no valid cell
     // 2. change corename and filepath template which format is: `<file dir>/CoreName_%d.<suffix>`
     //    support "corename.tif or corename_1.tif", "corename_2.tif", and "corename_3.tif", etc.
     string::size_type last_underline = core_name_.find_last_of('_');
@@ -3591,7 +3592,8 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     full_path_ = GetPathFromFullName(filenames[0]) + core_name_ + "_%d." + GetSuffix(filenames[0]);
     // 3. initialize raster_2d_ and read the other layers according to position data if stated,
     //     or just read by row and col
-    Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) { return false; }
+    is_2draster = true;
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
         raster_2d_[i][0] = raster_[i];
@@ -3604,19 +3606,23 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool readflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            readflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            readflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
-            return false;
 #endif
         }
+        if (!readflag) { // All or nothing
+            Release2DArray(raster_2d_);
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
@@ -3642,7 +3648,6 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         }
         Release1DArray(tmplyrdata);
     }
-    if(!is_2draster) is_2draster = true;
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_); // repair layers count in headers
     return true;
 }
-- 
2.43.0


From 51ef533c1835771ec53b826aed85afbadaaaf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 22/92] fix: raster constructed from files is initialised
 before anything is read

---
 src/data_raster.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3c81a32..d14dd98 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2277,14 +2277,11 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass(filenames.size() > 1);
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
     }
-    if (filenames.size() == 1) {
-        ReadFromFile(filenames[0], calc_pos, mask,
-                     use_mask_ext, default_value, opts);
-    }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
 }
-- 
2.43.0


From 55841b34202ca8e2dba48019db298a0be1f3a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 23/92] fix: rasters constructed with a coordinate system
 string are initialised

---
 src/data_raster.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d14dd98..141207f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2185,10 +2185,9 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data, cols, rows, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2215,10 +2214,9 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 32e42b54145dd015ec0010113067701fc12e5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 24/92] fix: GetSrs does not return the buffer of a temporary
 string

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 141207f..eef0065 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2787,7 +2787,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    auto it = options_.find(HEADER_RS_SRS);
+    return it == options_.end() ? "" : it->second.c_str();
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 6ff505d740adc59800cc7c754ca08549f3ffc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 25/92] fix: statistics of all layers are available for
 multi-layer rasters

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index eef0065..26633f9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2627,7 +2627,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
@@ -2645,6 +2645,7 @@ void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double*
         return;
     }
     if (nullptr == it->second || !stats_calculated_) {
+        stats_calculated_ = false;
         CalculateStatistics();
     }
     *values = it->second;
-- 
2.43.0


From fd3da5c0db702388792c212ba7ce298b9cd4da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 26/92] fix: reclassification sets values that are not listed
 to no-data

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 26633f9..d94c52c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3888,7 +3888,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.find(CVT_INT(curv)) == recls.end()) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From f3008f5810ba6ee05c77993591f2e447d35fb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 27/92] fix: copying replaces a raster of another shape
 completely

---
 src/data_raster.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d94c52c..12904ab 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3787,12 +3787,8 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     // Release current data
-    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
-        Release2DArray(raster_2d_);
-    }
-    if (!is_2draster && nullptr != raster_) {
-        Release1DArray(raster_);
-    }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    if (nullptr != raster_) { Release1DArray(raster_); }
     ReleasePositions();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
@@ -3801,6 +3797,8 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!subset_.empty()) {
         ReleaseSubset();
     }
+    is_2draster = false;
+    InitialStatsMap(stats_, stats_2d_); // may have been released
     // Initialize now Raster and copy data
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
-- 
2.43.0


From c81aea29a2d52d8c7c51f7189ceb6fdd25fab6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 28/92] fix: rasters built from a mask and values are located
 by the mask's positions

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 12904ab..a26418d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2313,7 +2313,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // the positions are the mask's
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2336,7 +2336,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    calc_pos_ = true; // the positions are the mask's
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
-- 
2.43.0


From 76f78828bf5a98f517b6420a1fe8e019158840be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 29/92] fix: subsets taken from a mask follow every change of
 extent and positions

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a26418d..d44cef8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4197,7 +4197,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
+    // subsets refer to the mask's extent and positions
+    if (mask_has_subset && (upd_header_rowcol || recalc_pos)) {
         recalc_subset = true;
     }
     // Update row and col counts in header information firstly.
-- 
2.43.0


From 8598ddd7d989f62cc0a23f542b75fec6abd206f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 30/92] fix: GeoTIFF writes are verified before they replace
 the old file

---
 src/data_raster.cpp | 33 +++++++++++++++++++++++++++++++++
 src/data_raster.hpp | 27 ++++++++++++++++++++++++---
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index a711881..66a4bdc 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -210,6 +210,39 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     return true;
 }
 
+#ifdef USE_GDAL
+bool VerifySingleGeotiff(const string& filename, const int n_rows, const int n_cols, const double* geo_trans,
+                         const double nodata, const GDALDataType type, const void* values) {
+    GDALDataset* po_dataset = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
+    if (nullptr == po_dataset) { return false; }
+    GDALRasterBand* po_band = po_dataset->GetRasterBand(1);
+    int has_nodata = false;
+    double geo_written[6];
+    bool same = nullptr != po_band && po_band->GetYSize() == n_rows && po_band->GetXSize() == n_cols
+            && po_band->GetRasterDataType() == type
+            && po_dataset->GetGeoTransform(geo_written) == CE_None;
+    double nodata_written = same ? po_band->GetNoDataValue(&has_nodata) : nodata;
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    if (same && type == GDT_Int64) { nodata_written = CVT_DBL(po_band->GetNoDataValueAsInt64(&has_nodata)); }
+    if (same && type == GDT_UInt64) { nodata_written = CVT_DBL(po_band->GetNoDataValueAsUInt64(&has_nodata)); }
+#endif
+    same = same && has_nodata
+            && (FloatEqual(nodata_written, nodata) || nodata != nodata
+                || (type == GDT_Float32 && static_cast<float>(nodata_written) == static_cast<float>(nodata)));
+    for (int i = 0; same && i < 6; i++) { same = FloatEqual(geo_written[i], geo_trans[i]); }
+    size_t line_size = static_cast<size_t>(GDALGetDataTypeSize(type) / 8) * n_cols;
+    void* line = same ? VSIMalloc(line_size) : nullptr;
+    same = same && nullptr != line;
+    for (int i = 0; same && i < n_rows; i++) {
+        same = po_band->RasterIO(GF_Read, 0, i, n_cols, 1, line, n_cols, 1, type, 0, 0) == CE_None
+                && memcmp(line, static_cast<const char*>(values) + i * line_size, line_size) == 0;
+    }
+    if (nullptr != line) { VSIFree(line); }
+    GDALClose(po_dataset);
+    return same;
+}
+#endif
+
 /* Start SubsetPositions */
 bool SubsetPositions::Initialization() {
     usable = true;
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d44cef8..593f8c2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -646,6 +646,19 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Check that a single geotiff file holds exactly the given data
+ * \param[in] filename \a string, file path
+ * \param[in] n_rows Rows count
+ * \param[in] n_cols Columns count
+ * \param[in] geo_trans Geographic transformation
+ * \param[in] nodata NoData value
+ * \param[in] type Data type
+ * \param[in] values raster data array of the data type
+ */
+bool VerifySingleGeotiff(const string& filename, int n_rows, int n_cols, const double* geo_trans,
+                         double nodata, GDALDataType type, const void* values);
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -860,6 +873,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     // Write completely to a temporary file first, then replace the existed file
     string part_filename = filename + ".part";
+    DeleteExistedFile(part_filename); // may be left by an interrupted write
     CPLErrorReset(); // GDAL may report write errors without failing the call
     GDALDataset* po_dst_ds = po_driver->Create(part_filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
@@ -872,8 +886,8 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     bool io_failed = CPLGetLastErrorType() >= CE_Failure;
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     // NoData must be known before writing, otherwise GDAL stores a block of zeros as NoData
-    po_dst_band->SetNoDataValue(new_nodata);
-    CPLErr result = CE_None;
+    CPLErr result = po_dst_band->SetNoDataValue(new_nodata);
+    io_failed = io_failed || result != CE_None || CPLGetLastErrorType() >= CE_Failure;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
@@ -891,6 +905,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
 
+    io_failed = io_failed || CPLGetLastErrorType() >= CE_Failure;
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
     geo_trans[1] = header.at(HEADER_RS_CELLSIZE);
@@ -905,7 +920,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         po_dst_ds->SetProjection(opts.at(HEADER_RS_SRS).c_str());
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
-    if (new_values != nullptr) { CPLFree(new_values); }
     io_failed = io_failed || CPLGetLastErrorType() >= CE_Failure;
     // Cached blocks and the file directory are written at the latest on closing
 #if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 7)
@@ -914,6 +928,13 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     GDALClose(po_dst_ds);
 #endif
     io_failed = io_failed || CPLGetLastErrorType() >= CE_Failure;
+    if (result == CE_None && !io_failed) {
+        // buffered writes may get lost without any error reported by GDAL
+        io_failed = !VerifySingleGeotiff(part_filename, n_rows, n_cols, geo_trans, new_nodata,
+                                         CvtToGDALDataType(outtype),
+                                         recreate_flag ? new_values : static_cast<void*>(values));
+    }
+    if (new_values != nullptr) { CPLFree(new_values); }
     if (result != CE_None || io_failed) {
         StatusMessage("Error writing file: " + filename);
         DeleteExistedFile(part_filename);
-- 
2.43.0


From ff27a91f97b645eb7c896b3a73eaa4aa18a9c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 31/92] fix: a failed raster load leaves no data, a repeated
 load no stale state

---
 src/data_raster.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 593f8c2..282c0c1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2416,6 +2416,16 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
                                                        double default_value /* NODATA_VALUE */,
                                                        const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    // the object may have been loaded before
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    ReleasePositions();
+    ReleaseSubset();
+    if (stats_calculated_) {
+        ReleaseStatsMap2D();
+        stats_calculated_ = false;
+    }
+    n_cells_ = -1;
 
     bool readflag = false;
     string srs = string();
@@ -2441,7 +2451,10 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
     if (readflag) {
         if (n_lyrs_ < 0) { n_lyrs_ = 1; }
         if (is_2draster) { is_2draster = false; }
-        return MaskAndCalculateValidPosition() >= 0;
+        if (MaskAndCalculateValidPosition() >= 0) { return true; }
+        Release1DArray(raster_); // unmasked data
+        ReleasePositions();
+        n_cells_ = -1;
     }
     return false;
 }
@@ -3580,6 +3593,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFile(const string& filename, const bool c
                                             const STRING_MAP& opts /* = STRING_MAP() */) {
     if (!FileExists(filename)) { return false; }
     if (!initialized_) { InitializeRasterClass(); }
+    n_lyrs_ = 1;
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     return ConstructFromSingleFile(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 }
-- 
2.43.0


From 9508518bf86275e029d02f0bec0614a7870eb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 32/92] fix: I/O errors GDAL only mentions while reading
 GeoTIFF metadata fail the load

---
 src/data_raster.cpp | 28 ++++++++++++++++++++++++++++
 src/data_raster.hpp | 25 +++++++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 66a4bdc..97f26c9 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -211,6 +211,34 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
 }
 
 #ifdef USE_GDAL
+static void CPL_STDCALL NoticeIOError(CPLErr err_class, CPLErrorNum err_no, const char* msg) {
+    if (err_class >= CE_Warning && nullptr != msg && nullptr != strstr(msg, "IO error")) {
+        *static_cast<bool*>(CPLGetErrorHandlerUserData()) = true;
+    }
+#if GDAL_VERSION_NUM >= GDAL_COMPUTE_VERSION(3, 8, 0)
+    CPLCallPreviousHandler(err_class, err_no, msg);
+#else
+    CPLDefaultErrorHandler(err_class, err_no, msg);
+#endif
+}
+
+GdalIOErrorGuard::GdalIOErrorGuard(): occurred_(false), defer_set_(false) {
+    CPLPushErrorHandlerEx(NoticeIOError, &occurred_);
+    // I/O errors are not reported at all if the locations of data blocks are loaded afterwards
+    const char* defer = CPLGetThreadLocalConfigOption("GTIFF_USE_DEFER_STRILE_LOADING", nullptr);
+    if (nullptr != defer) {
+        defer_set_ = true;
+        defer_option_ = defer;
+    }
+    CPLSetThreadLocalConfigOption("GTIFF_USE_DEFER_STRILE_LOADING", "NO");
+}
+
+GdalIOErrorGuard::~GdalIOErrorGuard() {
+    CPLSetThreadLocalConfigOption("GTIFF_USE_DEFER_STRILE_LOADING",
+                                  defer_set_ ? defer_option_.c_str() : nullptr);
+    CPLPopErrorHandler();
+}
+
 bool VerifySingleGeotiff(const string& filename, const int n_rows, const int n_cols, const double* geo_trans,
                          const double nodata, const GDALDataType type, const void* values) {
     GDALDataset* po_dataset = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 282c0c1..2a828ce 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -379,6 +379,25 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
 }
 
 #ifdef USE_GDAL
+/*!
+ * \class GdalIOErrorGuard
+ * \brief Notice the I/O errors while reading file metadata (e.g., georeference, NoData, and
+ *        locations of data blocks), which GDAL reports as messages only and otherwise ignores
+ */
+class GdalIOErrorGuard: NotCopyable {
+public:
+    GdalIOErrorGuard();
+
+    ~GdalIOErrorGuard();
+
+    bool Occurred() const { return occurred_; }
+
+private:
+    bool occurred_;
+    bool defer_set_;      ///< is GTIFF_USE_DEFER_STRILE_LOADING set by the user in this thread?
+    string defer_option_; ///< its value
+};
+
 /*!
  * \brief Read single raster file by GDAL
  * \param[in] filename Full path of raster data
@@ -392,6 +411,7 @@ template <typename T>
 bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values,
                           RasterDataType& in_type, string& srs) {
     StatusMessage(("Read " + filename + "...").c_str());
+    GdalIOErrorGuard io_guard;
     GDALDataset* po_dataset = static_cast<GDALDataset*>(GDALOpen(filename.c_str(),
                                                                  GA_ReadOnly));
     if (nullptr == po_dataset) {
@@ -640,6 +660,11 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     srs = string(po_dataset->GetProjectionRef());
 
     GDALClose(po_dataset);
+    if (io_guard.Occurred()) {
+        StatusMessage("I/O error when reading " + filename);
+        Release1DArray(tmprasterdata);
+        return false;
+    }
 
     if (nullptr != values) { Release1DArray(values); }
     values = tmprasterdata;
-- 
2.43.0


From 5108a75f1a802ec113f76e8ceb54ac6564dd0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 33/92] fix: rasters with undefined georeference are refused,
 coordinate lookups stay in bounds

---
 src/data_raster.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2a828ce..03c0742 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -302,7 +302,10 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             }
         }
     }
-    if (nullptr == tmpvalues || rows < 0 || cols < 0 || cellsize <= 0 ||
+    // neither nan nor infinite
+    bool valid_loc = cellsize > 0 && cellsize * rows <= DBL_MAX && cellsize * cols <= DBL_MAX
+            && xll >= -DBL_MAX && xll <= DBL_MAX && yll >= -DBL_MAX && yll <= DBL_MAX;
+    if (nullptr == tmpvalues || rows < 0 || cols < 0 || !valid_loc ||
         FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
         if (nullptr != tmpvalues) { Release1DArray(tmpvalues); }
@@ -3986,14 +3989,14 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
+    if (!(x <= x_max && x >= x_min && y <= y_max && y >= y_min)) {
         return ROW_COL(-1, -1);
     }
-    int row = CVT_INT((y_max - y) / dy);
-    int col = CVT_INT((x - x_min) / dx);
-    // the right and lower edges do not belong to any cell
-    if (row >= n_rows || col >= n_cols) { return ROW_COL(-1, -1); }
-    return ROW_COL(row, col);
+    double row = (y_max - y) / dy;
+    double col = (x - x_min) / dx;
+    // the right and lower edges do not belong to any cell, nor do undefined results
+    if (!(row < n_rows && col < n_cols)) { return ROW_COL(-1, -1); }
+    return ROW_COL(CVT_INT(row), CVT_INT(col));
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 69dcee982d4064babd16fddd047927643b1a4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 34/92] fix: masking by a mask without valid cells fails and
 does not throw

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 03c0742..86d5ac6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4094,6 +4094,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (mask_ncells <= 0 || nullptr == valid_pos) { return -1; } // no valid cell in the mask
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
-- 
2.43.0


From 9405765ab3cf3679be8ea248cd38d92625d28c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 35/92] fix: a failed array creation releases everything and
 leaves no pointer

---
 src/utils_array.h | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index cef649d..2b9107a 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,15 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     data = new(nothrow) T[row];
     if (nullptr == data) {
-        delete[] data;
         cout << "Bad memory allocated during 1D array initialization!" << endl;
         return false;
     }
-    if (nullptr == init_data) {
-        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
-        return false;
-    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
@@ -395,9 +394,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         return false;
     }
     T* pool = nullptr;
-    pool = new(nothrow) T[row * col];
+    pool = new(nothrow) T[static_cast<size_t>(row) * col];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data; // row pointers
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
@@ -417,6 +417,14 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
+    if (row <= 0 || col <= 0) {
+        cout << "The row and column count MUST be greater than 0!" << endl;
+        return false;
+    }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
@@ -432,15 +440,25 @@ template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     int idx = 0;
     rows = CVT_INT(init_data[idx++]);
+    if (rows <= 0) {
+        cout << "The row count MUST be greater than 0!" << endl;
+        data = nullptr;
+        return false;
+    }
     data = new(nothrow) T2* [rows];
     if (nullptr == data) {
-        delete[] data;
         cout << "Bad memory allocated during initialize rows of the 2D array!" << endl;
         return false;
     }
     T2* pool = nullptr;
     // Get actual data length of init_data, excluding the first element which is 'rows'
-    int* cols = new int[rows];
+    int* cols = new(nothrow) int[rows];
+    if (nullptr == cols) {
+        delete[] data;
+        data = nullptr;
+        cout << "Bad memory allocated during initialize rows of the 2D array!" << endl;
+        return false;
+    }
     max_cols = -1;
     for (int i = 0; i < rows; i++) {
         cols[i] = CVT_INT(init_data[idx]);
@@ -449,7 +467,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     int length = idx - 1;
     // New a 1d array to store data
-    Initialize1DArray(length, pool, init_data + 1);
+    if (!Initialize1DArray(length, pool, init_data + 1)) {
+        delete[] cols;
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     // Now point the row pointers to the appropriate positions in the data pool
     int pos = 0;
     for (int i = 0; i < rows; ++i) {
-- 
2.43.0


From 67b6eb8e7ae69e3752ef1e8d53b01ae9343a73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 36/92] fix: UTC date-times are not shifted by the local
 daylight saving time

---
 src/utils_time.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..2a5799d 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -312,8 +312,10 @@ SYSTEMTIME DateTimeToSystemTime(const DateTime& date_time) {
  *        TMT is 5 hours ahead of UTC time.
  *        This time zone is in use during standard time in Asia.
  */
-DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds) {
-    time_t timer = mktime(time_info);
+DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds, const bool is_utc = false) {
+    // mktime() adjusts its argument to the daylight saving time of the local time zone, which UTC does not have
+    struct tm utc_info = *time_info;
+    time_t timer = is_utc ? mktime(&utc_info) : mktime(time_info);
     DateTime dt;
     dt.year = time_info->tm_year + 1900;
     dt.month = time_info->tm_mon + 1;
@@ -370,7 +372,7 @@ DateTime DateTime::UTCTime() {
 #else
     gmtime_r(&timer, time_info);
 #endif
-    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds());
+    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds(), true);
     delete time_info;
     return dt;
 #endif /* CPP_MSVC */
@@ -479,7 +481,7 @@ DateTime DateTime::ToUTCTime() {
     gmtime_r(&timer, time_info);
 #endif
 
-    DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
+    DateTime dt = ConvertTMToDateTime(time_info, milliseconds, true);
     //delete &time_info;
     return dt;
 #endif
-- 
2.43.0


From 6812430784b39e064785fb327afdab47850ddbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 37/92] fix: the current date-time is read from the clock in
 one step

---
 src/utils_time.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 2a5799d..000c61e 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -333,10 +333,14 @@ DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds, const bool is_utc
     return dt;
 }
 
-vint GetCurrentMilliseconds() {
+/*!
+ * \brief Read the clock once, seconds and milliseconds thus belong to the same instant
+ */
+time_t GetCurrentTime(vint& milliseconds) {
     struct timeval tv;
     gettimeofday(&tv, nullptr);
-    return tv.tv_usec / 1000;
+    milliseconds = tv.tv_usec / 1000;
+    return tv.tv_sec;
 }
 #endif /* CPP_MSVC */
 
@@ -346,14 +350,15 @@ DateTime DateTime::LocalTime() {
     GetLocalTime(&sys_time);
     return SystemTimeToDateTime(sys_time);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    time_t timer = time(nullptr);
+    vint milliseconds = 0;
+    time_t timer = GetCurrentTime(milliseconds);
     struct tm* time_info = new tm();
 #if defined MINGW
     localtime_s(time_info, &timer);
 #else
     localtime_r(&timer, time_info);
 #endif
-    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds());
+    DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
     delete time_info;
     return dt;
 #endif /* CPP_MSVC */
@@ -365,14 +370,15 @@ DateTime DateTime::UTCTime() {
     GetSystemTime(&utc_time);
     return SystemTimeToDateTime(utc_time);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    time_t timer = time(nullptr);
+    vint milliseconds = 0;
+    time_t timer = GetCurrentTime(milliseconds);
     struct tm* time_info = new tm();
 #if defined MINGW
     gmtime_s(time_info, &timer);
 #else
     gmtime_r(&timer, time_info);
 #endif
-    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds(), true);
+    DateTime dt = ConvertTMToDateTime(time_info, milliseconds, true);
     delete time_info;
     return dt;
 #endif /* CPP_MSVC */
-- 
2.43.0


From 3cb45c0026d1132508a8fc4447075673b8f5f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 38/92] fix: date-times move by the given number of
 milliseconds

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 000c61e..98f1dc5 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -495,17 +495,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + static_cast<vint64_t>(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - static_cast<vint64_t>(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 6a19d65ee8aab3ac2d6e1c0d8e87e824114c8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 39/92] fix: elapsed time is measured by the monotonic clock

---
 src/utils_time.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 98f1dc5..34a2671 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -21,6 +21,10 @@ double TimeCounting() {
     }
     return CVT_DBL(clock()) / CLK_TCK;
 #else
+    struct timespec ts; // not affected by changes of the wall clock
+    if (clock_gettime(CLOCK_MONOTONIC, &ts) == 0) {
+        return CVT_DBL(ts.tv_sec) + CVT_DBL(ts.tv_nsec) / 1000000000.;
+    }
     struct timeval tv;
     gettimeofday(&tv, nullptr);
     return CVT_DBL(tv.tv_sec) + CVT_DBL(tv.tv_usec) / 1000000.;
-- 
2.43.0


From f36256742ae23890377922df815f055ec0164781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 40/92] fix: time zone conversions are reentrant and release
 their memory

---
 src/utils_time.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 34a2671..4880dc4 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -462,16 +462,21 @@ DateTime DateTime::ToLocalTime() {
     return SystemTimeToDateTime(local_time);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
     time_t local_timer = time(nullptr);
-    time_t utc_timer = mktime(gmtime(&local_timer));
-    time_t timer = static_cast<time_t>(filetime / 1000) + local_timer - utc_timer;
     struct tm* time_info = new tm();
+#if defined MINGW
+    gmtime_s(time_info, &local_timer);
+#else
+    gmtime_r(&local_timer, time_info);
+#endif
+    time_t utc_timer = mktime(time_info);
+    time_t timer = static_cast<time_t>(filetime / 1000) + local_timer - utc_timer;
 #if defined MINGW
     localtime_s(time_info, &timer);
 #else
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -492,7 +497,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds, true);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 4dfa104d42839057c7e9292fb59163431da8e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 41/92] fix: data of subsets follows changes of the layer count
 and has one owner

---
 src/data_raster.cpp | 17 +++++++++++++++--
 src/data_raster.hpp | 15 +++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 97f26c9..636283a 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -286,9 +286,21 @@ bool SubsetPositions::Initialization() {
     global_ = nullptr;
     data_ = nullptr;
     data2d_ = nullptr;
+    share_data_ = false;
     return true;
 }
 
+void SubsetPositions::ReleaseData() {
+    if (share_data_) { // owned by the source of the shallow copy
+        data_ = nullptr;
+        data2d_ = nullptr;
+        share_data_ = false;
+        return;
+    }
+    if (nullptr != data_) { Release1DArray(data_); }
+    if (nullptr != data2d_) { Release2DArray(data2d_); }
+}
+
 SubsetPositions::SubsetPositions() {
     Initialization();
 }
@@ -329,6 +341,7 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         local_posidx_ = src->local_posidx_;
         if (nullptr != src->data_) { data_ = src->data_; }
         if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+        share_data_ = true;
     }
 }
 
@@ -345,8 +358,7 @@ SubsetPositions::~SubsetPositions() {
         if (alloc_) { Release1DArray(global_); }
         else { global_ = nullptr; }
     }
-    if (nullptr != data_) { Release1DArray(data_); }
-    if (nullptr != data2d_) { Release2DArray(data2d_); }
+    ReleaseData();
 }
 
 #ifdef USE_MONGODB
@@ -364,6 +376,7 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
+    if (db_nlyrs != n_lyrs || share_data_) { ReleaseData(); }
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 86d5ac6..8c93fa0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1246,11 +1246,15 @@ public:
 
     bool Initialization();
 
+    //! Release data_ and data2d_, must be called before the layer count changes
+    void ReleaseData();
+
     template <typename T>
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
-        if (1 != n_lyrs) { n_lyrs = 1; }
+        if (1 != n_lyrs || share_data_) { ReleaseData(); }
+        n_lyrs = 1;
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
         } else {
@@ -1264,7 +1268,8 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (lyr != n_lyrs || share_data_) { ReleaseData(); }
+        n_lyrs = lyr;
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
@@ -1319,6 +1324,7 @@ public:
     int* global_; ///< global position index
     double* data_; ///< valid data array
     double** data2d_; ///< valid 2d data array
+    bool share_data_; ///< data_ and data2d_ belong to the source of a shallow copy?
 };
 
 /*!
@@ -3771,6 +3777,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
             for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
                 SubsetPositions* tmp = new SubsetPositions(it->second, true);
+                if (tmp->n_lyrs != n_lyrs_) { tmp->ReleaseData(); }
                 tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
                 subset_.emplace(it->first, tmp);
@@ -4173,6 +4180,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
+            if (tmp->n_lyrs != n_lyrs_) { tmp->ReleaseData(); }
             tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
@@ -4448,8 +4456,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
+                it->second->ReleaseData();
                 it->second->alloc_ = true;
             }
             ++it;
-- 
2.43.0


From 30afc2716d8b444ff1701c15f529fef0401525dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 42/92] fix: subsets that cannot be written are reported,
 reclassification needs no subset data

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8c93fa0..a56f0b8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3090,6 +3090,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, true, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
@@ -3234,6 +3235,9 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
+        if (lyrs < 0 && lyr_recls > 0) {
+            lyrs = lyr_recls;
+        }
     }
     if (lyrs < 0) {
         StatusMessage("Error: Cannot determine valid layer count!");
-- 
2.43.0


From a53a83c468ce10b3049f6a1ad424239899e95ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 43/92] fix: subset output stays within the layers and
 positions of the raster

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a56f0b8..6d8ed16 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3172,15 +3172,15 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
-                if (!include_nodata) { tmprc = gidx; }
+                int tmprc = gidx; // full-size raster data has no positions
+                if (include_nodata && nullptr != pos_idx_) { tmprc = pos_idx_[gidx]; }
                 if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
                     int recls_key = it->first; // default reclassification key is subset's ID
                     if (out_origin) {
                         if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                         else if (nullptr != raster_2d_) {
-                            recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                            recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                         }
                     }
                     if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3263,7 +3263,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 if (out_origin) {
                     if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                     else if (nullptr != raster_2d_) {
-                        recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                        recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                     }
                 }
                 if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
-- 
2.43.0


From 6f5e5ca08f7080f66f77d1faec400459ad843b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 44/92] fix: subsets can be combined with the original data of
 the raster

---
 src/data_raster.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d8ed16..90b555f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3123,6 +3123,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs_subset = -1;
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         if (!it->second->usable) { continue; }
+        if (out_origin) { continue; }         // data of the raster will be used
         if (!(nullptr != it->second->data_    // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
             || !recls.empty())) {             // or reclassification map specified
@@ -3191,6 +3192,12 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
                 else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
-- 
2.43.0


From 4fe4f845865b6c5b92ebb41a29f66ac53a43cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 45/92] fix: subsets of two-dimensional rasters with one layer
 can be written

---
 src/data_raster.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 90b555f..6eb13cf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1300,7 +1300,7 @@ public:
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-                if (n_lyrs > 1 && nullptr != data2d_) {
+                if (nullptr != data2d_) {
                     tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
@@ -3201,6 +3201,9 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
+                else if (!out_origin && lyrs == 1 && nullptr != it->second->data2d_) { // raster 2D of one layer
+                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][0]);
+                }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data_[vi]);
                 }
@@ -3278,15 +3281,18 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
-            else if (out_origin && lyrs == 1 && nullptr != raster_) {
+            else if (out_origin && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
             else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
             }
+            else if (!out_origin && lyrs == 1 && nullptr != sub->data2d_) { // raster 2D of one layer
+                data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][0]);
+            }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data_[vi]);
             }
-- 
2.43.0


From f203a0ecbedc3c51aa88130a233c7f85ae740d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 46/92] fix: newly assigned data of a subset replaces all older
 data

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6eb13cf..a6b743d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1253,7 +1253,7 @@ public:
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
-        if (1 != n_lyrs || share_data_) { ReleaseData(); }
+        if (1 != n_lyrs || nullptr != data2d_ || share_data_) { ReleaseData(); }
         n_lyrs = 1;
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
@@ -1268,7 +1268,7 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs || share_data_) { ReleaseData(); }
+        if (lyr != n_lyrs || nullptr != data_ || share_data_) { ReleaseData(); }
         n_lyrs = lyr;
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
-- 
2.43.0


From 2bd3741deb4a69f4efdf3306dda153a3dca43fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 47/92] fix: layers read into a raster whose construction was
 refused are counted

---
 src/data_raster.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a6b743d..3bc0de2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3656,9 +3656,11 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
                                              double default_value /* NODATA_VALUE */,
                                              const STRING_MAP& opts /* = STRING_MAP() */) {
     if (!FilesExist(filenames)) { return false; }
-    n_lyrs_ = CVT_INT(filenames.size());
-    if (n_lyrs_ == 1) { return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts); }
+    if (filenames.size() == 1) {
+        return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts);
+    }
     if (!initialized_) { InitializeRasterClass(true); }
+    n_lyrs_ = CVT_INT(filenames.size());
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     // 1. firstly, take the first layer as the main input, to calculate position index or extract by mask.
     if (!ConstructFromSingleFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts)) {
-- 
2.43.0


From f58feb6d9e9fa02a08cd57802fea999e0653bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 48/92] fix: the header of a raster built from a mask describes
 the raster

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3bc0de2..a77db8d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2383,6 +2383,8 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    UpdateHeader(headers_, HEADER_RS_NODATA, no_data_value_);
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_); // the mask may have several layers
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
 }
@@ -2405,6 +2407,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    UpdateHeader(headers_, HEADER_RS_NODATA, no_data_value_);
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     CopyStringMap(opts, options_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
-- 
2.43.0


From 066ad833e69c294e27156eb60579ebf3a96345d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 49/92] fix: copying a raster onto itself keeps its data

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a77db8d..2f480d7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3878,6 +3878,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (orgraster == this) { return; }
     // Release current data
     if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
     if (nullptr != raster_) { Release1DArray(raster_); }
-- 
2.43.0


From d3f246b0966fc76fffcd864345d34bf51daa52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 50/92] fix: a copied raster has the name, options, header and
 flags of its source

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2f480d7..e47daea 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3896,6 +3896,10 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
                            orgraster->GetDefaultValue(), orgraster->GetOptions());
+    options_ = orgraster->GetOptions(); // nothing is left of the former content
+    headers_ = orgraster->GetRasterHeader();
+    core_name_ = orgraster->GetCoreName();
+    use_mask_ext_ = orgraster->MaskExtented(); // even if the mask is not referred to any more
     n_cells_ = orgraster->GetCellNumber();
     n_lyrs_ = orgraster->GetLayers();
     rs_type_ = orgraster->GetDataType();
@@ -3929,7 +3933,6 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
             }
         }
     }
-    CopyHeader(orgraster->GetRasterHeader(), headers_);
     // deep copy subset
     if (!orgraster->GetSubset().empty()) {
         for (auto it = orgraster->GetSubset().begin(); it != orgraster->GetSubset().end(); ++it) {
-- 
2.43.0


From 63f7228c4ef3d741e15390f1a12f18b6f1a8d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 51/92] fix: statistics are available for a raster that is read
 again

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e47daea..b7ae7ab 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2462,6 +2462,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
         ReleaseStatsMap2D();
         stats_calculated_ = false;
     }
+    InitialStatsMap(stats_, stats_2d_); // may have been released
     n_cells_ = -1;
 
     bool readflag = false;
-- 
2.43.0


From c78683a58249dea8ac1dd86aaab1fdf9d65426fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 52/92] fix: subsets do not outlive the positions they refer to

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b7ae7ab..59fe976 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4203,8 +4203,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Priority DEEP Copy subset of mask data
     map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
     bool mask_has_subset = !mask_subset.empty(); // if mask data has subsets
+    ReleaseSubset(); // refer to the former positions
     if (mask_has_subset) {
-        ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
             if (tmp->n_lyrs != n_lyrs_) { tmp->ReleaseData(); }
-- 
2.43.0


From f2c7b768e76c7694e7cca4cb34ad637d3b19e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 53/92] fix: rasters cannot be copied member by member, which
 released their arrays twice

---
 src/data_raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 59fe976..c75a3cf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2103,7 +2103,9 @@ private:
     /*!
      * \brief Operator= without implementation
      */
-    clsRasterData& operator=(const clsRasterData&) { }
+    clsRasterData(const clsRasterData&);
+
+    clsRasterData& operator=(const clsRasterData&);
 
     /*! cell number of raster data, i.e. the data length of \sa raster_data_ or \sa raster_2d_
      * 1. all grid cell number, i.e., ncols * nrows, when m_calcPositions is False
-- 
2.43.0


From 69136922ba17918c79d1205c1c56a3403d609b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 54/92] fix: a stream read from GridFS is complete or the read
 fails

The number of bytes read was not compared with the length of the file, a failed
read handed out a half filled buffer, and the buffer came from malloc while its
users release it with delete[].
---
 src/db_mongoc.cpp | 27 ++++++++++++++++++++-------
 src/db_mongoc.h   |  2 +-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..2a6607d 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -420,23 +420,36 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     if (nullptr == opts) {
         opts = &opts_temp;
     }
+    databuf = NULL;
+    datalength = 0;
     mongoc_gridfs_file_t* gfile = GetFile(gfilename, gfs, *opts);
     if (NULL == gfile) {
-        databuf = NULL;
         StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
         return false;
     }
-    datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    vint length = mongoc_gridfs_file_get_length(gfile);
+    char* buf = length < 0 ? nullptr : new(std::nothrow) char[length];
+    if (nullptr == buf) {
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed! Invalid length.").c_str());
+        mongoc_gridfs_file_destroy(gfile);
+        return false;
+    }
     mongoc_iovec_t iov;
-    iov.iov_base = databuf;
-    iov.iov_len = static_cast<u_long>(datalength);
+    iov.iov_base = buf;
+    iov.iov_len = static_cast<u_long>(length);
     mongoc_stream_t* stream = mongoc_stream_gridfs_new(gfile);
     // Set 10 milliseconds for timeout
-    vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
+    vint readsize = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (readsize != length) { // The stream is incomplete
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed! Incomplete data.").c_str());
+        delete[] buf;
+        return false;
+    }
+    databuf = buf;
+    datalength = length;
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 1f8134b..33e1b65 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -164,7 +164,7 @@ public:
     bson_t* GetFileMetadata(string const& gfilename, mongoc_gridfs_t* gfs = NULL,
                             STRING_MAP opts = STRING_MAP());
 
-    /*! Get stream data of a given GridFS file name */
+    /*! Get stream data of a given GridFS file name, `delete[]` the buffer after use */
     bool GetStreamData(string const& gfilename, char*& databuf, vint& datalength,
                        mongoc_gridfs_t* gfs = NULL,
                        const STRING_MAP* opts = nullptr);
-- 
2.43.0


From 5a38d7dd0973c9b2adcd9da76a4534d1ad2114a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 55/92] fix: a stream of which only a part could be written to
 GridFS is not reported as stored

---
 src/db_mongoc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2a6607d..91d31d0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -460,22 +460,26 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
         return false;
     }
+    if (length < 0 || (NULL == buf && length > 0)) { return false; }
     mongoc_gridfs_file_t* gfile = NULL;
-    bson_error_t gfileerr;
+    bson_error_t gfileerr = {0};
     mongoc_gridfs_file_opt_t gopt = {0};
     gopt.filename = gfilename.c_str();
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
+    if (NULL == gfile) { return false; }
     mongoc_iovec_t ovec;
     ovec.iov_base = buf;
     ovec.iov_len = static_cast<u_long>(length);
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+    bool gfilestatus = writesize == length &&   // All data has been written
+            mongoc_gridfs_file_save(gfile) &&   // Returns true if successful
             !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
-    if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
+    if (!gfilestatus) { // Failed to save GridFS file data
+        mongoc_gridfs_file_error(gfile, &gfileerr);
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
                           ". ERROR: " + gfileerr.message).c_str());
     }
-- 
2.43.0


From 9d4e476c91d6a4a1dbe40c0d7f8563951ec96c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 56/92] fix: a GridFS file that could not be removed is
 reported

---
 src/db_mongoc.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 91d31d0..ee286ec 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -350,23 +350,32 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     // }
     mongoc_gridfs_file_list_t* filelist;
     mongoc_gridfs_file_t* gfile = NULL;
+    bool removed = true;
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
     while ((gfile = mongoc_gridfs_file_list_next(filelist))) {
         const bson_value_t* tmpid = mongoc_gridfs_file_get_id(gfile);
-        char charid[25];
-        bson_oid_to_string(&tmpid->value.v_oid, charid);
-        string strid = charid;
+        string strid;
+        if (tmpid->value_type == BSON_TYPE_OID) {
+            char charid[25];
+            bson_oid_to_string(&tmpid->value.v_oid, charid);
+            strid = charid;
+        }
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+            removed = false;
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
         }
         mongoc_gridfs_file_destroy(gfile);
     }
+    if (mongoc_gridfs_file_list_error(filelist, &err)) { // Not all matching files could be listed
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+        removed = false;
+    }
 
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
-- 
2.43.0


From fa05b4365aa8f8c4d41acc08846d24b4220b09c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 57/92] fix: listing GridFS files needs a GridFS, says when it
 failed, and tolerates files without a name

---
 src/db_mongoc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ee286ec..40800f4 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -382,16 +382,21 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-        files_existed.emplace_back(string(mongoc_gridfs_file_get_filename(file)));
+        const char* gfilename = mongoc_gridfs_file_get_filename(file);
+        if (NULL != gfilename) { files_existed.emplace_back(string(gfilename)); }
         mongoc_gridfs_file_destroy(file);
     }
+    bson_error_t err;
+    if (mongoc_gridfs_file_list_error(glist, &err)) {
+        StatusMessage((string("MongoGridFs::GetFileNames failed: ") + err.message).c_str());
+    }
     mongoc_gridfs_file_list_destroy(glist);
     bson_destroy(query);
     vector<string>(files_existed).swap(files_existed);
-- 
2.43.0


From 5f2cee6ee3b473e50b1600b154d5a2865d48b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 58/92] fix: looking up a missing collection and counting
 records do not leak

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 40800f4..079682f 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -156,6 +156,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
@@ -279,7 +280,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -287,6 +288,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From b3be50af163ead04a34c430e792d2d40ba451dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 59/92] fix: the name of a GridFS may contain dots

---
 src/db_mongoc.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 079682f..7e72fe3 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -236,10 +236,7 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
         for (auto it = collnames.begin(); it != collnames.end(); ++it) {
             vector<string> splitstrs = SplitString((*it), '.');
             if (splitstrs.back() == "files" || splitstrs.back() == "chunks") {
-                string realname;
-                // Refers to https://stackoverflow.com/a/18703743/4837280
-                std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
+                string realname = (*it).substr(0, (*it).length() - splitstrs.back().length() - 1);
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
-- 
2.43.0


From 0bec6f5d658eadc7c5cb8dfbfa79f987465d550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 60/92] fix: a GridFS file may have no metadata

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7e72fe3..2a69968 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -416,7 +416,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = NULL == bmata ? bson_new() : bson_copy(bmata); // A file may have no metadata
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
-- 
2.43.0


From f089b4105dafdc23cd149bea86c7151c6b45c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 61/92] fix: a client made from a connection has no host of its
 own

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 2a69968..8f1b15b 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -53,7 +53,7 @@ MongoClient::MongoClient(const char* host, const vuint16_t port) : host_(host),
     mongoc_uri_destroy(uri);
 }
 
-MongoClient::MongoClient(mongoc_client_t* conn): conn_(conn) {
+MongoClient::MongoClient(mongoc_client_t* conn): host_(nullptr), port_(0), conn_(conn) {
     // Do nothing
 }
 
-- 
2.43.0


From 79d9e897e106f22164f36fa81e4850be4eb20956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 62/92] fix: a collection named files is not a GridFS

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 8f1b15b..d310ef7 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -235,7 +235,7 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
         vector<string> realnames; // e.g., SPATIAL.files and SPATIAL.chunks has the real GridFS name: SPATIAL
         for (auto it = collnames.begin(); it != collnames.end(); ++it) {
             vector<string> splitstrs = SplitString((*it), '.');
-            if (splitstrs.back() == "files" || splitstrs.back() == "chunks") {
+            if (splitstrs.size() > 1 && (splitstrs.back() == "files" || splitstrs.back() == "chunks")) {
                 string realname = (*it).substr(0, (*it).length() - splitstrs.back().length() - 1);
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
-- 
2.43.0


From 3e05f231ad3cf60dc68a98f5f094b743352ea45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 63/92] fix: a GridFS file is not visible under its name before
 all its data is stored

The driver saves the file document with every chunk, so a writer that fails or
dies between two chunks left a shorter file that reads like a complete one.
---
 src/db_mongoc.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index d310ef7..71c8e2c 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -477,7 +477,8 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     mongoc_gridfs_file_t* gfile = NULL;
     bson_error_t gfileerr = {0};
     mongoc_gridfs_file_opt_t gopt = {0};
-    gopt.filename = gfilename.c_str();
+    // The file gets its name when all data has been written, since mongo-c-driver saves the
+    //   file document together with every chunk and a file being written must not be found.
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
@@ -488,11 +489,15 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = writesize == length &&   // All data has been written
-            mongoc_gridfs_file_save(gfile) &&   // Returns true if successful
-            !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
+    bool gfilestatus = false;
+    if (writesize == length) { // All data has been written
+        mongoc_gridfs_file_set_filename(gfile, gfilename.c_str());
+        gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+                !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
+    }
     if (!gfilestatus) { // Failed to save GridFS file data
         mongoc_gridfs_file_error(gfile, &gfileerr);
+        mongoc_gridfs_file_remove(gfile, NULL); // Leave nothing behind, if possible
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
                           ". ERROR: " + gfileerr.message).c_str());
     }
-- 
2.43.0


From 5cb4c863310777e9b841954f4a4d07723a56850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 64/92] fix: data and metadata of a raster are read from the
 same GridFS file

They were looked up one after the other, so that an overwrite in between gave the
data of one version with the metadata of another.
---
 src/data_raster.hpp | 6 +++---
 src/db_mongoc.cpp   | 7 ++++++-
 src/db_mongoc.h     | 6 ++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c75a3cf..23ec781 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1025,11 +1025,11 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     // Get stream data and metadata by file name
     vint length;
     char* buf = nullptr;
-    if (!gfs->GetStreamData(filename, buf, length, nullptr, &opts) ||
+    bson_t* bmeta = nullptr;
+    if (!gfs->GetStreamData(filename, buf, length, nullptr, &opts, &bmeta) ||
         nullptr == buf) {
         return false;
     }
-    bson_t* bmeta = gfs->GetFileMetadata(filename, nullptr, opts);
 
     // Retrieve raster header values
     bson_iter_t iter; // Loop the metadata, add to `header_str` or `header`
@@ -1044,7 +1044,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
             }
         }
     }
-    bson_destroy(bmeta); // Destroy bson of metadata immediately after use
+    if (nullptr != bmeta) { bson_destroy(bmeta); } // Destroy bson of metadata immediately after use
 
     int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 71c8e2c..f3ce7fd 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -423,7 +423,8 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
 
 bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
                                 vint& datalength, mongoc_gridfs_t* gfs /* = NULL */,
-                                const STRING_MAP* opts /* = nullptr */) {
+                                const STRING_MAP* opts /* = nullptr */,
+                                bson_t** metadata /* = nullptr */) {
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
@@ -454,6 +455,10 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     // Set 10 milliseconds for timeout
     vint readsize = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
+    if (readsize == length && nullptr != metadata) {
+        const bson_t* bmeta = mongoc_gridfs_file_get_metadata(gfile);
+        *metadata = NULL == bmeta ? bson_new() : bson_copy(bmeta);
+    }
     mongoc_gridfs_file_destroy(gfile);
     if (readsize != length) { // The stream is incomplete
         StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed! Incomplete data.").c_str());
diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 33e1b65..5bf4e4c 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -164,10 +164,12 @@ public:
     bson_t* GetFileMetadata(string const& gfilename, mongoc_gridfs_t* gfs = NULL,
                             STRING_MAP opts = STRING_MAP());
 
-    /*! Get stream data of a given GridFS file name, `delete[]` the buffer after use */
+    /*! Get stream data of a given GridFS file name, `delete[]` the buffer after use.
+     *  If stated, metadata of the same file is returned, remember to destroy bson_t after use */
     bool GetStreamData(string const& gfilename, char*& databuf, vint& datalength,
                        mongoc_gridfs_t* gfs = NULL,
-                       const STRING_MAP* opts = nullptr);
+                       const STRING_MAP* opts = nullptr,
+                       bson_t** metadata = nullptr);
 
     /*! Write stream data to a GridFS file */
     bool WriteStreamData(const string& gfilename, char*& buf, vint length,
-- 
2.43.0


From 93f149e47760412f3c1f7795efc2cf8d3a15045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 65/92] fix: a raster in GridFS whose data does not match its
 metadata is refused

Missing or zero counts divided by zero, and a stream that is a few bytes too long
or too short for its metadata was accepted.
---
 src/data_raster.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 23ec781..5b4c1d4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1046,16 +1046,20 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     if (nullptr != bmeta) { bson_destroy(bmeta); } // Destroy bson of metadata immediately after use
 
-    int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
-    int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
-    int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
-    int n_cells = CVT_INT(header.at(HEADER_RS_CELLSNUM));
-    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0) { // missing essential metadata
+    // missing or invalid essential metadata
+    double max_count = static_cast<double>((std::numeric_limits<int>::max)());
+    double n_rows = header.at(HEADER_RS_NROWS);
+    double n_cols = header.at(HEADER_RS_NCOLS);
+    double n_lyrs = header.at(HEADER_RS_LAYERS);
+    double n_cells = header.at(HEADER_RS_CELLSNUM);
+    if (!(n_rows >= 1. && n_cols >= 1. && n_lyrs >= 1. && n_cells >= 1. && n_rows * n_cols <= max_count &&
+        n_cells * n_lyrs <= max_count && n_cells <= n_rows * n_cols && header.at(HEADER_RS_CELLSIZE) > 0.)) {
+        StatusMessage("Incomplete metadata of raster data in MongoDB GridFS!");
         delete[] buf;
         return false;
     }
-    int value_count = n_cells * n_lyrs;
-    size_t size_dtype = length / value_count;
+    int value_count = CVT_INT(n_cells) * CVT_INT(n_lyrs);
+    size_t size_dtype = length % value_count == 0 ? length / value_count : 0; // 0 means incomplete data
 
     RasterDataType rstype = RDT_Unknown;
     if (header_str.find(HEADER_RSOUT_DATATYPE) != header_str.end()) {
-- 
2.43.0


From 49896a3a316537d5d1c0628f8a3020d9553d3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 66/92] fix: storing a raster in GridFS replaces the version
 that is there

The version to remove was looked up by everything known about the new one, its data
type and spatial reference included, so a version of another type stayed and was
found first; a failed removal was ignored; and a try that failed after the data had
been stored left a second version when repeated.
---
 src/data_raster.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5b4c1d4..20e2a6e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1150,7 +1150,14 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
+    // Versions to be replaced are identified by the file name and the user-specific key-values,
+    //   whatever data type, spatial reference, etc. they have.
+    STRING_MAP keyopts;
+    CopyStringMap(curopts, keyopts);
+    keyopts.erase(HEADER_RS_SRS);
+    keyopts.erase(HEADER_RS_DATATYPE);
+    keyopts.erase(HEADER_RSOUT_DATATYPE);
+    keyopts.erase(HEADER_MASK_NAME);
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
@@ -1222,7 +1229,9 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     int try_times = 0;
     bool gstatus = false;
     while (try_times <= 3) { // Try 3 times
-        gstatus = gfs->WriteStreamData(filename, buf, buflength, &p);
+        // Existing versions, including the remains of the last try, must be removed first
+        gstatus = gfs->RemoveFile(filename, nullptr, keyopts) &&
+                gfs->WriteStreamData(filename, buf, buflength, &p);
         if (gstatus) { break; }
         SleepMs(2); // Sleep 0.002 sec and retry
         try_times++;
-- 
2.43.0


From 3a6410358bf7b76f6e14da05eb9a689dd7486ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 67/92] fix: rasters can be stored in GridFS as 64-bit
 integers, and not as an unknown type

---
 src/data_raster.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 20e2a6e..6cf1240 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1176,6 +1176,10 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     vint buflength = -1;
     bool transformed = true;
     RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
+    if (opt_type == RDT_Unknown) {
+        bson_destroy(&p);
+        return false;
+    }
     if (opt_type == temp_type) {
         buf = reinterpret_cast<char*>(values);
         buflength = datalength * sizeof(T);
@@ -1211,6 +1215,16 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             Initialize1DArray(datalength, newdata, values);
             buf = reinterpret_cast<char*>(newdata);
             buflength = datalength * sizeof(vint32_t);
+        } else if (opt_type == RDT_UInt64) {
+            vuint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vuint64_t);
+        } else if (opt_type == RDT_Int64) {
+            vint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vint64_t);
         } else if (opt_type == RDT_Float) {
             float* newdata = nullptr;
             Initialize1DArray(datalength, newdata, values);
-- 
2.43.0


From 25830af57a89d8e2fc45efeaa8e66bd27945d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 68/92] fix: reading a raster from MongoDB refuses mismatched
 positions, and replaces former data only then

---
 src/data_raster.hpp | 146 +++++++++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 63 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6cf1240..a471852 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3780,7 +3780,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
                                                const bool use_mask_ext /* = true */,
                                                double default_value /* NODATA_VALUE */,
                                                const STRING_MAP& opts /* = STRING_MAP() */) {
-    InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    if (!initialized_) { InitializeRasterClass(); }
     T* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
@@ -3789,94 +3789,114 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     if (opts.empty() || opts.count(HEADER_INC_NODATA) < 1) { // GFS file include nodata by default
         UpdateStringMap(opts_upd, HEADER_INC_NODATA, "TRUE");
     }
-    if (!ReadGridFsFile(gfs, filename, dbdata, header_dbl, header_str, opts_upd)) { return false; }
-
-    if (headers_.at(HEADER_RS_NROWS) > 0 && headers_.at(HEADER_RS_NCOLS) > 0
-        && headers_.at(HEADER_RS_LAYERS) > 0 && headers_.at(HEADER_RS_CELLSNUM) > 0) {
-        // means the raster is preassigned header information, and this function is used for read data only
-        if (!FloatEqual(headers_.at(HEADER_RS_NROWS), header_dbl.at(HEADER_RS_NROWS))
-            || !FloatEqual(headers_.at(HEADER_RS_NCOLS), header_dbl.at(HEADER_RS_NCOLS))
-            || !FloatEqual(headers_.at(HEADER_RS_LAYERS), header_dbl.at(HEADER_RS_LAYERS))
-            || !FloatEqual(headers_.at(HEADER_RS_CELLSNUM), header_dbl.at(HEADER_RS_CELLSNUM))) {
-            Release1DArray(dbdata);
-            return false;
+    if (nullptr == gfs || !ReadGridFsFile(gfs, filename, dbdata, header_dbl, header_str, opts_upd)) {
+        return false; // the object is untouched
+    }
+    int n_rows = CVT_INT(header_dbl.at(HEADER_RS_NROWS));
+    int n_cols = CVT_INT(header_dbl.at(HEADER_RS_NCOLS));
+    int n_lyrs = CVT_INT(header_dbl.at(HEADER_RS_LAYERS));
+    int n_cells = CVT_INT(header_dbl.at(HEADER_RS_CELLSNUM));
+    bool include_nodata = !StringMatch(header_str.at(HEADER_INC_NODATA), "FALSE");
+    bool accepted = !include_nodata || n_cells == n_rows * n_cols;
+
+    bool same_extent = FloatEqual(headers_.at(HEADER_RS_NROWS), header_dbl.at(HEADER_RS_NROWS))
+            && FloatEqual(headers_.at(HEADER_RS_NCOLS), header_dbl.at(HEADER_RS_NCOLS))
+            && FloatEqual(headers_.at(HEADER_RS_CELLSNUM), header_dbl.at(HEADER_RS_CELLSNUM));
+    bool loaded = nullptr != raster_ || nullptr != raster_2d_;
+    bool preassigned = !loaded && headers_.at(HEADER_RS_NROWS) > 0 && headers_.at(HEADER_RS_NCOLS) > 0
+            && headers_.at(HEADER_RS_LAYERS) > 0 && headers_.at(HEADER_RS_CELLSNUM) > 0;
+    if (preassigned && (!same_extent
+        || !FloatEqual(headers_.at(HEADER_RS_LAYERS), header_dbl.at(HEADER_RS_LAYERS)))) {
+        // the raster is preassigned header information, and this function is used for read data only
+        accepted = false;
+    }
+    // Valid values only, whose positions are those of the mask's valid cells, or known already
+    bool use_mask_pos = false;
+    if (accepted && !include_nodata) {
+        int mask_ncells = -1;
+        int* mask_pos = nullptr;
+        if (nullptr != mask && use_mask_ext) {
+            if (!mask->PositionsCalculated()) { mask->SetCalcPositions(); }
+            mask->GetRasterPositionData(&mask_ncells, &mask_pos);
+        }
+        if (nullptr != mask_pos && n_cells == mask_ncells) {
+            double tolerance = header_dbl.at(HEADER_RS_CELLSIZE) * 0.01;
+            use_mask_pos = n_rows == mask->GetRows() && n_cols == mask->GetCols()
+                    && fabs(mask->GetCellWidth() - header_dbl.at(HEADER_RS_CELLSIZE)) < tolerance
+                    && fabs(mask->GetXllCenter() - header_dbl.at(HEADER_RS_XLL)) < tolerance
+                    && fabs(mask->GetYllCenter() - header_dbl.at(HEADER_RS_YLL)) < tolerance;
         }
+        accepted = use_mask_pos || (nullptr != pos_data_ && nullptr != pos_idx_
+            && (!loaded || (same_extent && n_cells_ == n_cells)));
+    }
+    if (!accepted) {
+        Release1DArray(dbdata);
+        return false;
+    }
+
+    InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    // the object may have been loaded before
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    if (include_nodata || use_mask_pos) { ReleasePositions(); }
+    ReleaseSubset();
+    if (stats_calculated_) {
+        ReleaseStatsMap2D();
+        stats_calculated_ = false;
+    }
+    InitialStatsMap(stats_, stats_2d_); // may have been released
+
+    if (preassigned) {
+        UpdateHeader(headers_, HEADER_RS_NODATA, header_dbl.at(HEADER_RS_NODATA));
     } else {
         CopyHeader(header_dbl, headers_);
     }
     CopyStringMap(header_str, options_);
-
-    bool include_nodata = !StringMatch(options_.at(HEADER_INC_NODATA), "FALSE");
-
-    int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-    int n_cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
-    n_lyrs_ = CVT_INT(headers_.at(HEADER_RS_LAYERS));
-    // if (n_rows < 0 || n_cols < 0 || n_lyrs_ < 0) { return false; } // Needless
-    int fullsize = n_rows * n_cols;
+    n_lyrs_ = n_lyrs;
+    n_cells_ = n_cells;
     no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
-    n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
-
-    if (include_nodata && n_cells_ != fullsize) { return false; }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    if (!include_nodata) { calc_pos_ = true; }
 
-    // check the valid values count and determine whether we can read directly.
-    bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    if (use_mask_pos) {
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-        if (!mask->GetSubset().empty()) {
-            map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
-            for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
-                SubsetPositions* tmp = new SubsetPositions(it->second, true);
-                if (tmp->n_lyrs != n_lyrs_) { tmp->ReleaseData(); }
-                tmp->n_lyrs = n_lyrs_;
+        map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
+        for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
+            SubsetPositions* tmp = new SubsetPositions(it->second, true);
+            if (tmp->n_lyrs != n_lyrs_) { tmp->ReleaseData(); }
+            tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
-                subset_.emplace(it->first, tmp);
+            subset_.emplace(it->first, tmp);
 #else
-                subset_.insert(make_pair(it->first, tmp));
+            subset_.insert(make_pair(it->first, tmp));
 #endif
-            }
         }
-        mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
-
-    if (n_lyrs_ == 1) {
-        is_2draster = false;
-        if (include_nodata && !mask_pos_subset) {
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
-#pragma omp parallel for
-            for (int i = 0; i < n_cells_; i++) {
-                //int tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                int tmpidx = pos_idx_[i];
-                raster_[i] = static_cast<T>(dbdata[tmpidx]);
-            }
-            Release1DArray(dbdata);
-        } else {
-            raster_ = dbdata;
-        }
+    is_2draster = n_lyrs_ > 1;
+    if (!is_2draster) {
+        raster_ = dbdata;
     } else {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
 #pragma omp parallel for
         for (int i = 0; i < n_cells_; i++) {
-            int tmpidx = i;
-            if (include_nodata && !mask_pos_subset) {
-                //tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                tmpidx = pos_idx_[i];
-            }
             for (int j = 0; j < n_lyrs_; j++) {
-                int idx = tmpidx * n_lyrs_ + j;
-                raster_2d_[i][j] = dbdata[idx];
+                raster_2d_[i][j] = dbdata[i * n_lyrs_ + j];
             }
         }
-        is_2draster = true;
         Release1DArray(dbdata);
     }
     CheckDefaultValue();
-    if (include_nodata && mask_pos_subset) {
-        return MaskAndCalculateValidPosition() >= 0;
+    if (include_nodata && MaskAndCalculateValidPosition() < 0) {
+        if (is_2draster) {
+            Release2DArray(raster_2d_); // unmasked data
+        } else {
+            Release1DArray(raster_);
+        }
+        ReleasePositions();
+        n_cells_ = -1;
+        return false;
     }
     return true;
 }
-- 
2.43.0


From 852ea80641528ff6b3c094ea69599cc74550f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 69/92] fix: a raster without data, type, or valid cells is not
 stored in MongoDB with a wrong header

---
 src/data_raster.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a471852..47f827b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3528,8 +3528,9 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
+    if (!ValidateRasterData()) { return false; }
     CopyStringMap(opts, options_); // Update metadata
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end() || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
@@ -3546,7 +3547,9 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     if ((nullptr == pos_data_ || nullptr == pos_idx_) && !include_nodata) {
         SetCalcPositions();
         GetRasterPositionData(&cnt, &pos);
+        if (!ValidateRasterData()) { return false; } // no valid cell
     }
+    if (!outputdirectly && nullptr == pos) { return false; }
     int n_rows = GetRows();
     int n_cols = GetCols();
     int n_fullsize = n_rows * n_cols;
@@ -3588,7 +3591,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     STRDBL_MAP tmpheader;
     CopyHeader(headers_, tmpheader);
-    if (include_nodata) { UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, n_fullsize); }
+    UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, include_nodata ? n_fullsize : n_cells_);
     bool saved = WriteStreamDataAsGridfs(gfs, core_name, tmpheader,
                                          data_1d, datalength, options_);
     if (outputdirectly) {
@@ -3618,7 +3621,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
     else {
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
-    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+    if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end() || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
-- 
2.43.0


From 59ec5975f116a6d6d0c6bd95e9888f7b3d9c616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 70/92] fix: subsets that could not be stored in MongoDB are
 reported, and only read from data of their extent

---
 src/data_raster.cpp |  9 ++++++---
 src/data_raster.hpp | 17 +++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 636283a..0e2ddbc 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -366,13 +366,16 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
     double* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
-    if (!ReadGridFsFile(gfs, fname, dbdata, header_dbl, header_str, opts)) { return false; }
+    if (nullptr == gfs || !ReadGridFsFile(gfs, fname, dbdata, header_dbl, header_str, opts)) { return false; }
     int nrows = g_erow - g_srow + 1;
     int ncols = g_ecol - g_scol + 1;
     int nfull = nrows * ncols;
     int db_ncells = CVT_INT(header_dbl.at(HEADER_RS_CELLSNUM));
     int db_nlyrs = CVT_INT(header_dbl.at(HEADER_RS_LAYERS));
-    if ((nfull != db_ncells && n_cells != db_ncells) || db_nlyrs < 0) {
+    if ((nfull != db_ncells && n_cells != db_ncells) || db_nlyrs < 1 || n_cells < 1
+        || nrows != CVT_INT(header_dbl.at(HEADER_RS_NROWS)) // data of another subset
+        || ncols != CVT_INT(header_dbl.at(HEADER_RS_NCOLS))
+        || (n_cells != db_ncells && nullptr == local_posidx_)) {
         Release1DArray(dbdata);
         return false;
     }
@@ -398,7 +401,7 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         }
         for (int i = 0; i < n_cells; i++) {
             for (int j = 0; j < n_lyrs; j++) {
-                if (nfull == db_ncells) { // consider data from MongoDB is fullsize data
+                if (n_cells != db_ncells) { // consider data from MongoDB is fullsize data
                     //data2d_[i][j] = dbdata[(local_pos_[i][0] * ncols + local_pos_[i][1]) * n_lyrs + j];
                     data2d_[i][j] = dbdata[local_posidx_[i] * n_lyrs + j];
                 }
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 47f827b..00e770b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3635,14 +3635,17 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         T* data1d = nullptr;
         int sublyrs;
         int sublen;
-        bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
-                                          out_origin, include_nodata, recls, default_value);
+        if (!PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
+                                   out_origin, include_nodata, recls, default_value)) {
+            if (nullptr != data1d) { Release1DArray(data1d); }
+            return false;
+        }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
         UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, sublen / sublyrs);
-        flag = flag && WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
-                                               tmpheader, data1d, sublen, options_);
+        bool flag = WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
+                                            tmpheader, data1d, sublen, options_);
         Release1DArray(data1d);
         return flag;
     }
@@ -3658,15 +3661,17 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, include_nodata, recls, default_value)) {
+            flag = false;
+            if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        if (!WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_)) { flag = false; }
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From 4c774ba6e720f2440d9912b14e295e9886bc2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 71/92] fix: whole numbers beyond 32 bits are stored in MongoDB
 as they are

---
 src/data_raster.hpp | 5 ++++-
 src/db_mongoc.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 00e770b..3136cbf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -39,6 +39,8 @@
 #include <iomanip>
 #include <typeinfo>
 #include <cassert>
+#include <cmath>
+#include <limits>
 // include openmp if supported
 #ifdef SUPPORT_OMP
 #include <omp.h>
@@ -1162,7 +1164,8 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+            && std::modf(iter->second, &intpart) == 0.0
+            && fabs(iter->second) <= static_cast<double>((std::numeric_limits<int>::max)())) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index f3ce7fd..80aa9e2 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,8 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <cmath>
+#include <limits>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -531,7 +533,8 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0
+                && std::fabs(dbl_value) <= static_cast<double>((std::numeric_limits<int>::max)())) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From f6e0d807ac65ea5594e4ae31844f8aad4c097390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 72/92] fix: Boolean and date time values of BSON documents

---
 src/db_mongoc.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 80aa9e2..5032141 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -573,6 +573,7 @@ string GetStringFromBson(bson_t* bmeta, const char* key) {
 bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     float fltvalue;
+    if (vv->value_type == BSON_TYPE_BOOL) { return vv->value.v_bool; }
     if (vv->value_type == BSON_TYPE_INT32) {
         fltvalue = CVT_FLT(vv->value.v_int32);
     } else if (vv->value_type == BSON_TYPE_INT64) {
@@ -586,7 +587,7 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
         StatusMessage("Failed in get Boolean value.");
         return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    return !utils_math::FloatEqual(fltvalue, 0.f);
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
@@ -601,10 +602,10 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        vint64_t milliseconds = vv->value.v_datetime;
+        vint64_t seconds = milliseconds / 1000;
+        if (milliseconds % 1000 < 0) { seconds -= 1; } // before 1970
+        return CVT_TIMET(seconds);
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From eca5b1a78549215118916a27179323a1552a71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 73/92] fix: rasters stored in MongoDB in another type keep
 their no-data cells, and are refused if values do not fit

---
 src/data_raster.hpp | 131 ++++++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 58 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3136cbf..a811a1d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -39,6 +39,7 @@
 #include <iomanip>
 #include <typeinfo>
 #include <cassert>
+#include <cfloat>
 #include <cmath>
 #include <limits>
 // include openmp if supported
@@ -1132,6 +1133,49 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     return true;
 }
 
+/*!
+ * \brief Convert raster values to another data type for output.
+ *        NoData that the data type cannot hold is replaced by the maximum of an unsigned type
+ *        or the minimum of a signed type.
+ * \param[in] datalength Length of data
+ * \param[in] values raster data array
+ * \param[in,out] nodata NoData value, as the output data type holds it afterwards
+ * \param[out] buf Converted data array, should be released by the caller
+ * \param[out] buflength Length of converted data in bytes
+ * \return false if the data type cannot hold any of the other values
+ */
+template <typename T, typename OUT_T>
+bool ConvertRasterValues(const int datalength, T* values, double& nodata, char*& buf, vint& buflength) {
+    bool integral = std::numeric_limits<OUT_T>::is_integer;
+    double upper = static_cast<double>((std::numeric_limits<OUT_T>::max)());
+    double lower = integral ? static_cast<double>((std::numeric_limits<OUT_T>::min)()) : -upper;
+    double old_nodata = nodata;
+    bool change_nodata = integral ? !(old_nodata > lower - 1. && old_nodata < upper + 1.)
+                                  : old_nodata < lower || old_nodata > upper;
+    OUT_T new_nodata = std::numeric_limits<OUT_T>::is_signed ? static_cast<OUT_T>(lower)
+                                                             : (std::numeric_limits<OUT_T>::max)();
+    if (!change_nodata) { new_nodata = static_cast<OUT_T>(old_nodata); }
+    OUT_T* newdata = nullptr;
+    if (!Initialize1DArray(datalength, newdata, static_cast<OUT_T>(0))) { return false; }
+    for (int i = 0; i < datalength; i++) {
+        double value = static_cast<double>(values[i]);
+        if (change_nodata && FloatEqual(value, old_nodata)) {
+            newdata[i] = new_nodata;
+        } else if (integral ? !(value > lower - 1. && value < upper + 1.)
+                            : fabs(value) <= DBL_MAX && (value < lower || value > upper)) {
+            StatusMessage("Raster values are out of the range of the output data type!");
+            Release1DArray(newdata);
+            return false;
+        } else {
+            newdata[i] = static_cast<OUT_T>(values[i]);
+        }
+    }
+    nodata = static_cast<double>(new_nodata);
+    buf = reinterpret_cast<char*>(newdata);
+    buflength = datalength * sizeof(OUT_T);
+    return true;
+}
+
 /*!
  * \brief Write array data (both valid and full-sized raster data) as GridFS file.
  *        If the file exists, delete it first.
@@ -1160,84 +1204,55 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     keyopts.erase(HEADER_RS_DATATYPE);
     keyopts.erase(HEADER_RSOUT_DATATYPE);
     keyopts.erase(HEADER_MASK_NAME);
-    bson_t p = BSON_INITIALIZER;
-    double intpart; // https://stackoverflow.com/a/1521682/4837280
-    for (auto iter = header.begin(); iter != header.end(); ++iter) {
-        if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0
-            && fabs(iter->second) <= static_cast<double>((std::numeric_limits<int>::max)())) {
-            // std::modf consider inf as an integer,
-            // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
-            BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
-        }
-        else {
-            BSON_APPEND_DOUBLE(&p, iter->first.c_str(), iter->second);
-        }
-    }
     // Check DATATYPE in metadata is consistent with T, transform if necessary
     char* buf = nullptr;
     vint buflength = -1;
     bool transformed = true;
+    double nodata = header.find(HEADER_RS_NODATA) != header.end() ? header.at(HEADER_RS_NODATA) : NODATA_VALUE;
     RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
-    if (opt_type == RDT_Unknown) {
-        bson_destroy(&p);
-        return false;
-    }
+    if (opt_type == RDT_Unknown) { return false; }
     if (opt_type == temp_type) {
         buf = reinterpret_cast<char*>(values);
         buflength = datalength * sizeof(T);
         transformed = false;
     } else {
+        bool converted = false;
         if (opt_type == RDT_UInt8) {
-            vuint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint8_t);
+            converted = ConvertRasterValues<T, vuint8_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Int8) {
-            vint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint8_t);
+            converted = ConvertRasterValues<T, vint8_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_UInt16) {
-            vuint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint16_t);
+            converted = ConvertRasterValues<T, vuint16_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Int16) {
-            vint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint16_t);
+            converted = ConvertRasterValues<T, vint16_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_UInt32) {
-            vuint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint32_t);
+            converted = ConvertRasterValues<T, vuint32_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Int32) {
-            vint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint32_t);
+            converted = ConvertRasterValues<T, vint32_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_UInt64) {
-            vuint64_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint64_t);
+            converted = ConvertRasterValues<T, vuint64_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Int64) {
-            vint64_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint64_t);
+            converted = ConvertRasterValues<T, vint64_t>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Float) {
-            float* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(float);
+            converted = ConvertRasterValues<T, float>(datalength, values, nodata, buf, buflength);
         } else if (opt_type == RDT_Double) {
-            double* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(double);
+            converted = ConvertRasterValues<T, double>(datalength, values, nodata, buf, buflength);
+        }
+        if (!converted) { return false; }
+    }
+    bson_t p = BSON_INITIALIZER;
+    double intpart; // https://stackoverflow.com/a/1521682/4837280
+    for (auto iter = header.begin(); iter != header.end(); ++iter) {
+        if (!StringMatch(HEADER_RS_NODATA, iter->first)
+            && std::modf(iter->second, &intpart) == 0.0
+            && fabs(iter->second) <= static_cast<double>((std::numeric_limits<int>::max)())) {
+            // std::modf consider inf as an integer,
+            // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
+            BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
+        }
+        else {
+            BSON_APPEND_DOUBLE(&p, iter->first.c_str(),
+                               StringMatch(HEADER_RS_NODATA, iter->first) ? nodata : iter->second);
         }
     }
     // Add user-specific key-values into metadata
-- 
2.43.0


From 9b8762653888e618e04a687d1015173d97911005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 74/92] fix: reading a stream with a short chunk from GridFS
 ends

---
 src/db_mongoc.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 5032141..ee4bc25 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -12,6 +12,7 @@
  */
 #include "db_mongoc.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <limits>
@@ -450,13 +451,19 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         mongoc_gridfs_file_destroy(gfile);
         return false;
     }
-    mongoc_iovec_t iov;
-    iov.iov_base = buf;
-    iov.iov_len = static_cast<u_long>(length);
-    mongoc_stream_t* stream = mongoc_stream_gridfs_new(gfile);
-    // Set 10 milliseconds for timeout
-    vint readsize = mongoc_stream_readv(stream, &iov, 1, -1, 10);
-    mongoc_stream_destroy(stream);
+    // Read chunk by chunk, since the stream of mongo-c-driver never ends if a chunk has too few data
+    vint chunksize = mongoc_gridfs_file_get_chunk_size(gfile);
+    vint readsize = 0;
+    while (readsize < length && chunksize > 0) {
+        mongoc_iovec_t iov;
+        iov.iov_base = buf + readsize;
+        iov.iov_len = static_cast<u_long>((std::min)(length - readsize, chunksize - readsize % chunksize));
+        if (mongoc_gridfs_file_seek(gfile, readsize, SEEK_SET) != 0) { break; }
+        // Set 10 milliseconds for timeout
+        ssize_t partsize = mongoc_gridfs_file_readv(gfile, &iov, 1, 0, 10);
+        if (partsize <= 0) { break; }
+        readsize += static_cast<vint>(partsize);
+    }
     if (readsize == length && nullptr != metadata) {
         const bson_t* bmeta = mongoc_gridfs_file_get_metadata(gfile);
         *metadata = NULL == bmeta ? bson_new() : bson_copy(bmeta);
-- 
2.43.0


From b86056d05c2987215af388bac9e1d072c971b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 75/92] fix: full-sized raster data in GridFS has as many cells
 as its rows and columns

---
 src/data_raster.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a811a1d..cdbee82 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1061,6 +1061,12 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         delete[] buf;
         return false;
     }
+    if (header_str.find(HEADER_INC_NODATA) != header_str.end()
+        && StringMatch("TRUE", header_str.at(HEADER_INC_NODATA)) && n_cells != n_rows * n_cols) {
+        StatusMessage("Inconsistent dimensions of raster data in MongoDB GridFS!");
+        delete[] buf;
+        return false;
+    }
     int value_count = CVT_INT(n_cells) * CVT_INT(n_lyrs);
     size_t size_dtype = length % value_count == 0 ? length / value_count : 0; // 0 means incomplete data
 
-- 
2.43.0


From b799f0ad8e0254395e000f81e628f353be2f7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 76/92] fix: reading rasters from GridFS reports that memory is
 exhausted

---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index cdbee82..d3de5dc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1136,7 +1136,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         return false;
     }
     delete[] buf;
-    return true;
+    return nullptr != data; // may be out of memory
 }
 
 /*!
@@ -3910,7 +3910,12 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     if (!is_2draster) {
         raster_ = dbdata;
     } else {
-        Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+        if (!Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_)) {
+            Release1DArray(dbdata);
+            ReleasePositions();
+            n_cells_ = -1;
+            return false;
+        }
 #pragma omp parallel for
         for (int i = 0; i < n_cells_; i++) {
             for (int j = 0; j < n_lyrs_; j++) {
-- 
2.43.0


From 3d64e6c3f026f52349e41c23c8cf8f38d89d506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 77/92] fix: data of a subset read from MongoDB replaces its
 one-layer 2D data

---
 src/data_raster.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 0e2ddbc..a0effa8 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -379,7 +379,9 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
-    if (db_nlyrs != n_lyrs || share_data_) { ReleaseData(); }
+    if (db_nlyrs != n_lyrs || share_data_ || nullptr != (db_nlyrs == 1 ? static_cast<void*>(data2d_) : data_)) {
+        ReleaseData(); // including data of one layer kept in the other kind of array
+    }
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
-- 
2.43.0


From 569c6156e50757f692fee804c98fadd023f44335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 78/92] fix: mask_rasterio accepts a single configuration file,
 and -configfile without a value

---
 apps/mask_rasterio.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..0c532e2 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
@@ -214,12 +214,13 @@ int main(const int argc, const char** argv) {
         if (tmp_dbl_flag) { continue; }
         arg_sep.push_back(idx);
     }
+    bool no_keys = arg_sep.empty();
     arg_sep.push_back(argc);
 
     map<string, vector<string> > key_args;
-    if (arg_sep.empty()) {
+    if (no_keys) {
         if (config_path.empty()) {
-            if (argc >= 2 && argv[1][0] != '-') {
+            if (argv[1] != nullptr && argv[1][0] != '\0' && argv[1][0] != '-') {
                 config_path = argv[1];
             }
             else {
-- 
2.43.0


From 637f588ee7bf874ae7268efe77861f0d8644f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 79/92] fix: mask_rasterio reports illegal arguments instead of
 ignoring them

---
 apps/mask_rasterio.cpp | 83 ++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 0c532e2..9239fdf 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -84,7 +84,12 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     size_t tmpcount = strs.size();
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
+    if (tmpcount == 1 && tmpfmt != UNKNOWNFMT && !FileExists(strs[0])) {
+        fmt = tmpfmt; // 7: {"file"} or {"gfs"}
+        return true;
+    }
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty()) { return false; }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
@@ -94,11 +99,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
         fmt = SFILE;
     } else {
         if (tmpcount == 1) {
-            if (tmpfmt == GFS || tmpfmt == SFILE) {
-                // 7: {"file"} or {"gfs"}
-                fmt = tmpfmt;
-            }
-            else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
+            if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
             }
             else {
@@ -123,7 +124,6 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
 }
 
 bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
-    if (kvstrs.empty()) { return false; }
     bool valid_kv = true;
     bool str2num_flag = false;
     vector<string> tmpkvlist = SplitString(kvstrs, ',');
@@ -131,9 +131,9 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
     for (auto it_kvlist = tmpkvlist.begin(); it_kvlist != tmpkvlist.end(); ++it_kvlist) {
         if ((*it_kvlist).empty()) { continue; }
         vector<string> tmpkv = SplitString(*it_kvlist, ':');
-        if (tmpkv.size() != 2) { continue; }
+        if (tmpkv.size() != 2) { return false; }
         vint tmp_key = IsInt(tmpkv.at(0), str2num_flag);
-        if (!str2num_flag) { continue; }
+        if (!str2num_flag) { return false; }
         vector<string> tmpvalues = SplitString(tmpkv.at(1), '|');
         vector<double> v;
         for (auto it = tmpvalues.begin(); it != tmpvalues.end(); ++it) {
@@ -151,7 +151,7 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
             valid_kv = false;
         }
     }
-    return valid_kv;
+    return valid_kv && !kv.empty();
 }
 
 /*!
@@ -232,8 +232,11 @@ int main(const int argc, const char** argv) {
     else {
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
-            if (tmpargs.empty()) { continue; }
             string key(argv[*arg_idx]);
+            if (tmpargs.empty()) {
+                Usage(argv[0], "No value is specified for " + key);
+                return 1;
+            }
             if (StringMatch(key, "-configfile")) { continue; }
             key_args.insert(std::make_pair(GetUpper(key.substr(1, string::npos)), tmpargs));
         }
@@ -261,7 +264,7 @@ int main(const int argc, const char** argv) {
             vector<string> tmpconfig = SplitString(tmpstr, '\t'); // Only support \t!!!
             if (tmpconfig.empty() || tmpconfig.size() < 2) {
                 cout << tmpstr << " contains invalid configuration!" << endl;
-                continue;
+                return 1;
             }
             string tmpkey = GetUpper(tmpconfig[0].substr(1, string::npos));
             if (key_args.find(tmpkey) != key_args.end()) { continue; }
@@ -297,35 +300,48 @@ int main(const int argc, const char** argv) {
         else if (itkv->first == "MASK") {
             vector<string> tmppaths;
             if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)
-                && tmppaths.empty()) {
+                || tmppaths.empty()) {
                 return 2;
             }
             mask_path = tmppaths[0];
         }
         else if (itkv->first == "OUT" || itkv->first == "OUTPUT") {
             vector<string> tmppaths;
-            if (parse_fmt_paths("OUT", itkv->second, global_outfmt, tmppaths)) {
-                if (!tmppaths.empty()) {
-                    out_paths.emplace_back(tmppaths[0]);
-                    out_fmts.emplace_back(global_outfmt);
-                }
+            if (!parse_fmt_paths("OUT", itkv->second, global_outfmt, tmppaths)) { return 1; }
+            if (!tmppaths.empty()) {
+                out_paths.emplace_back(tmppaths[0]);
+                out_fmts.emplace_back(global_outfmt);
             }
         }
         else if (itkv->first == "OUTDATATYPE") {
             global_outtype = StringToRasterDataType(itkv->second.at(0));
+            if (global_outtype == RDT_Unknown) {
+                cout << "Error: Illegal output data type!\n";
+                return 1;
+            }
         }
         else if (itkv->first == "DEFAULT" || itkv->first == "DEFAULTVALUE") {
             global_defaultv = IsDouble(itkv->second.at(0), str2num_flag);
-            if (!str2num_flag) { global_defaultv = NODATA_VALUE; }
+            if (!str2num_flag) {
+                cout << "Error: Illegal default value!\n";
+                return 1;
+            }
         }
         else if (itkv->first == "NODATA" || itkv->first == "NODATAVALUE") {
             global_nodata = IsDouble(itkv->second.at(0), str2num_flag);
             global_updnodata = true;
-            if (!str2num_flag) { global_nodata = NODATA_VALUE; }
+            if (!str2num_flag) {
+                cout << "Error: Illegal nodata value!\n";
+                return 1;
+            }
         }
         else if (itkv->first == "RECLASS") {
             map<vint, vector<double> > tmp_recls = map<vint, vector<double> >();
             global_recls = parse_key_values(itkv->second.at(0), tmp_recls);
+            if (!global_recls) {
+                cout << "Error: Illegal reclassify list!\n";
+                return 1;
+            }
             reclass_keyvalues.emplace_back(tmp_recls);
         }
         else if (itkv->first == "MONGO" || itkv->first == "MONGODB") {
@@ -357,7 +373,7 @@ int main(const int argc, const char** argv) {
         }
         else if (itkv->first == "THREAD") {
             thread_num = CVT_INT(IsInt(itkv->second.at(0), str2num_flag));
-            if (!str2num_flag) {
+            if (!str2num_flag || thread_num < 1) {
                 cout << "Warning: Illegal thread number, use thread = 1 instead!\n";
                 thread_num = 1;
             }
@@ -440,24 +456,37 @@ int main(const int argc, const char** argv) {
         double tmp_defv = NODATA_VALUE;
         if (dvidx > 0 && !(*ioit).at(dvidx).empty()) {
             tmp_defv = IsDouble((*ioit).at(dvidx), str2num_flag);
-            if (!str2num_flag) { tmp_defv = NODATA_VALUE; }
+            if (!str2num_flag) {
+                cout << "Error: Illegal default value of data item!\n";
+                return 1;
+            }
         }
         bool upd_nodata = false;
         double tmp_nodata = NODATA_VALUE;
         if (nodataidx > 0 && !(*ioit).at(nodataidx).empty()) {
             tmp_nodata = IsDouble((*ioit).at(nodataidx), str2num_flag);
-            if (!str2num_flag) { tmp_nodata = NODATA_VALUE; }
-            else { upd_nodata = true; }
+            if (!str2num_flag) {
+                cout << "Error: Illegal nodata value of data item!\n";
+                return 1;
+            }
+            upd_nodata = true;
         }
-        RasterDataType tmpouttype = RDT_Unknown;
-        if (outtypeidx > 0) {
+        RasterDataType tmpouttype = global_outtype;
+        if (outtypeidx > 0 && !(*ioit).at(outtypeidx).empty()) {
             tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx));
-            if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
+            if (tmpouttype == RDT_Unknown) {
+                cout << "Error: Illegal output data type of data item!\n";
+                return 1;
+            }
         }
         bool do_recls = false;
         map<vint, vector<double> > tmp_recls = map<vint, vector<double> >();
-        if (reclsidx > 0) {
+        if (reclsidx > 0 && !(*ioit).at(reclsidx).empty()) {
             do_recls = parse_key_values((*ioit).at(reclsidx), tmp_recls);
+            if (!do_recls) {
+                cout << "Error: Illegal reclassify list of data item!\n";
+                return 1;
+            }
         }
         if ((!FilesExist(tmpin) && do_recls)
             || (global_infmt == SFILE && FilesExist(tmpin))
-- 
2.43.0


From 3a1e3a5da03bf6efe7a84e67a762ccaea89346d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 80/92] fix: exit status of mask_rasterio tells whether all
 inputs were read and all outputs written

---
 apps/mask_rasterio.cpp | 134 ++++++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 54 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 9239fdf..e2b4e68 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -160,6 +160,8 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
  *   1. Format error of input arguments
  *   2. File specified but not existed, including configuration file and input data files
  *   3. File content loaded failed or wrong format
+ *   4. MongoDB specified but not available
+ *   5. Output failed
  *
  */
 int main(const int argc, const char** argv) {
@@ -357,18 +359,18 @@ int main(const int argc, const char** argv) {
             gfsname = itkv->second.at(3);
             client = MongoClient::Init(mongo_host.c_str(), mongo_port);
             if (nullptr == client) {
-                cout << "Warning: Illegal arguments for MongoDB!\n";
+                cout << "Error: Illegal arguments for MongoDB!\n";
+                return 4;
             }
-            else {
-                gfs = client->GridFs(dbname, gfsname);
-                if (nullptr == gfs) {
-                    cout << "Warning: Get or create GridFS failed!\n";
-                    use_mongo = false;
-                }
-                else { use_mongo = true; }
+            gfs = client->GridFs(dbname, gfsname);
+            if (nullptr == gfs) {
+                cout << "Error: Get or create GridFS failed!\n";
+                return 4;
             }
+            use_mongo = true;
 #else
-            cout << "Warning: MongoDB is not supported\n";
+            cout << "Error: MongoDB is not supported\n";
+            return 4;
 #endif
         }
         else if (itkv->first == "THREAD") {
@@ -446,7 +448,11 @@ int main(const int argc, const char** argv) {
         vector<string> tmpin = SplitString((*ioit).at(inidx), ','); // could be ""
         string tmpout = outidx > 0 ? (*ioit).at(outidx) : "";
 
-        if (tmpin.size() == 1 && tmpin.at(0).empty() && tmpout.empty()) { continue; }
+        if ((tmpin.empty() || (tmpin.size() == 1 && tmpin.at(0).empty())) && tmpout.empty()) { continue; }
+        if (tmpin.empty() || tmpout.empty()) {
+            cout << "Error: Both input and output of data item are needed!\n";
+            return 1;
+        }
 
         if (global_infmt == UNKNOWNFMT && FilesExist(tmpin)) { global_infmt = SFILE; }
         if (global_infmt == UNKNOWNFMT && !tmpin.empty() && use_mongo) { global_infmt = GFS; }
@@ -501,8 +507,15 @@ int main(const int argc, const char** argv) {
             out_types.emplace_back(tmpouttype);
             reclass_data.push_back(do_recls);
             reclass_keyvalues.emplace_back(tmp_recls);
+        } else {
+            cout << "Error: Input data of data item not existed!\n";
+            return 2;
         }
     }
+    if (in_paths.empty()) {
+        Usage(argv[0], "No input data is specified!");
+        return 1;
+    }
 
 #ifdef USE_GDAL
     GDALAllRegister();
@@ -522,7 +535,8 @@ int main(const int argc, const char** argv) {
             if (nullptr == mask_layer) { return 3; }
 #endif
         } else {
-            // No mask layer
+            cout << "Error: Mask layer not existed!\n";
+            return 2;
         }
     }
 
@@ -545,6 +559,7 @@ int main(const int argc, const char** argv) {
     } else {
         UpdateStringMap(opts, HEADER_INC_NODATA, "FALSE");
     }
+    int status = 0; // first failure
     for (auto in_it = in_paths.begin(); in_it != in_paths.end(); ++in_it) {
         size_t in_idx = in_it - in_paths.begin();
         if (out_types.at(in_idx) == RDT_Unknown) {
@@ -560,7 +575,9 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) {
+                    rs->SetOutDataType(out_types.at(in_idx));
+                }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
@@ -571,9 +588,14 @@ int main(const int argc, const char** argv) {
 #endif
             }
             else {
+                if (status == 0) { status = 2; }
+                continue;
+            }
+            if (nullptr == rs) {
+                if (status == 0) { status = 3; }
                 continue;
             }
-            if (nullptr == rs) { continue; }
+            bool out_flag = true;
 
             if (update_nodata.at(in_idx)) { rs->ReplaceNoData(nodata_values.at(in_idx)); }
 
@@ -584,55 +606,56 @@ int main(const int argc, const char** argv) {
             if (out_fmts.at(in_idx) == SFILE) {
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToFile(true, false,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToFile(true, false,
+                                                          out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                          default_values.at(in_idx)) && out_flag;
                     }
                     if (output_all) {
-                        rs->OutputSubsetToFile(true, true,
-                                               out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
-                                               default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToFile(true, true,
+                                                          out_paths.at(in_idx), reclass_keyvalues.at(in_idx),
+                                                          default_values.at(in_idx)) && out_flag;
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
-                    if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
+                    if (output_subset) { out_flag = rs->OutputToFile(out_paths.at(in_idx), false) && out_flag; }
+                    if (output_all) { out_flag = rs->OutputToFile(out_paths.at(in_idx), true) && out_flag; }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
                 if (reclass_data.at(in_idx)) {
                     if (output_subset) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, false, 
+                                                             reclass_keyvalues.at(in_idx),
+                                                             default_values.at(in_idx)) && out_flag;
                     }
                     if (output_all) {
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, true, 
-                                                  reclass_keyvalues.at(in_idx),
-                                                  default_values.at(in_idx));
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, true, 
+                                                             reclass_keyvalues.at(in_idx),
+                                                             default_values.at(in_idx)) && out_flag;
                     }
                 } else {
                     if (output_subset) {
                         if (nullptr == mask_layer) {
                             rs->BuildSubSet();
                         }
-                        rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                                  inc_nodata, true, false);
+                        out_flag = rs->OutputSubsetToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                             inc_nodata, true, false) && out_flag;
                     }
                     if (output_all) {
-                        rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
-                                            inc_nodata, true);
+                        out_flag = rs->OutputToMongoDB(gfs, "0_" + out_paths.at(in_idx), opts,
+                                                       inc_nodata, true) && out_flag;
                     }
                 }
 #endif
             } else {
-                // Nothing to do
+                out_flag = false;
             }
+            if (!out_flag && status == 0) { status = 5; }
             delete rs;
         } else if (mode == COM) {
             if (nullptr == mask_layer) {
-                cout << "Error: The COMBINE mode MUST based on a mask layer!";
+                cout << "Error: The COMBINE mode MUST based on a mask layer!\n";
                 return 1;
             }
             mask_layer->SetDefaultValue(default_values.at(in_idx));
@@ -643,42 +666,45 @@ int main(const int argc, const char** argv) {
             for (auto inf_it = (*in_it).begin(); inf_it != (*in_it).end(); ++inf_it) {
                 string tmpcname = GetCoreFileName(*inf_it);
                 vector<string> cname_strs = SplitString(tmpcname, '_');
-                if (cname_strs.empty()) { continue; }
+                if (cname_strs.empty()) { status = status == 0 ? 3 : status; continue; }
                 int subid = CVT_INT(IsInt(cname_strs[0], str2num_flag));
-                if (!str2num_flag) { continue; }
-                if (subset.find(subid) == subset.end()) { continue; }
+                if (!str2num_flag || subset.find(subid) == subset.end()) {
+                    cout << "Error: " << *inf_it << " belongs to no subset of the mask layer!\n";
+                    if (status == 0) { status = 3; }
+                    continue;
+                }
+                bool in_flag = false;
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
                     tmpsubrs = DblRaster::Init(*inf_it, true);
-                    if (nullptr == tmpsubrs) { continue; }
-                    int tmpsublen;
-                    double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
-                    delete tmpsubrs;
+                    if (nullptr != tmpsubrs) {
+                        int tmpsublen;
+                        double* tmpsubdata = nullptr;
+                        in_flag = tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata)
+                                && subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                        delete tmpsubrs;
+                    }
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
+                    in_flag = subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
 #endif
-                } else {
-                    // Nothing to do
                 }
+                if (!in_flag && status == 0) { status = FileExists(*inf_it) || in_fmts.at(in_idx) == GFS ? 3 : 2; }
             }
+            bool com_flag = false;
             mask_layer->SetOutDataType(out_types.at(in_idx));
             if (out_fmts.at(in_idx) == SFILE) {
-                mask_layer->OutputToFile(out_paths.at(in_idx), false);
+                com_flag = mask_layer->OutputToFile(out_paths.at(in_idx), false);
             }
             else if (out_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
-                                            inc_nodata, false);
+                com_flag = mask_layer->OutputToMongoDB(gfs, out_paths.at(in_idx), opts,
+                                                       inc_nodata, false);
 #endif
             }
-            else {
-                // Nothing to do
-            }
+            if (!com_flag && status == 0) { status = 5; }
         } else {
             // Nothing to do
         }
@@ -691,5 +717,5 @@ int main(const int argc, const char** argv) {
         delete client;
     }
 #endif
-    return 0;
+    return status;
 }
-- 
2.43.0


From ededbb1af0b714bc4f0f9dba9a91e4b5a08cfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 81/92] fix: mask_rasterio writes the subsets of decomposed
 rasters to files

---
 apps/mask_rasterio.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index e2b4e68..ea18f85 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -616,7 +616,12 @@ int main(const int argc, const char** argv) {
                                                           default_values.at(in_idx)) && out_flag;
                     }
                 } else {
-                    if (output_subset) { out_flag = rs->OutputToFile(out_paths.at(in_idx), false) && out_flag; }
+                    if (output_subset) {
+                        if (nullptr == mask_layer) {
+                            rs->BuildSubSet();
+                        }
+                        out_flag = rs->OutputSubsetToFile(true, false, out_paths.at(in_idx)) && out_flag;
+                    }
                     if (output_all) { out_flag = rs->OutputToFile(out_paths.at(in_idx), true) && out_flag; }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 37fcd056cfc4cab50abb065d9ddccf71eee08856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 82/92] fix: mask_rasterio combines subsets which have nodata
 cells

---
 apps/mask_rasterio.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index ea18f85..5dd0c39 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -682,12 +682,23 @@ int main(const int argc, const char** argv) {
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
-                    tmpsubrs = DblRaster::Init(*inf_it, true);
+                    tmpsubrs = DblRaster::Init(*inf_it, false);
                     if (nullptr != tmpsubrs) {
+                        SubsetPositions* cursub = subset.at(subid);
                         int tmpsublen;
                         double* tmpsubdata = nullptr;
-                        in_flag = tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata)
-                                && subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                        // cells of the subset, which may be nodata, within its rectangular extent
+                        if (tmpsubrs->GetRows() == cursub->g_erow - cursub->g_srow + 1
+                            && tmpsubrs->GetCols() == cursub->g_ecol - cursub->g_scol + 1
+                            && tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata)) {
+                            vector<double> celldata;
+                            for (int i = 0; i < cursub->n_cells; i++) {
+                                double v = tmpsubdata[cursub->local_posidx_[i]];
+                                celldata.emplace_back(FloatEqual(v, tmpsubrs->GetNoDataValue())
+                                                          ? mask_layer->GetNoDataValue() : v);
+                            }
+                            in_flag = cursub->SetData(cursub->n_cells, celldata.data());
+                        }
                         delete tmpsubrs;
                     }
                 }
-- 
2.43.0


From 5ab9087cd34bf7f5cbabc5465d42267e0ffaec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 83/92] fix: mask_rasterio writes data items in the output
 format asked for

---
 apps/mask_rasterio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 5dd0c39..7961e1f 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -185,6 +185,7 @@ int main(const int argc, const char** argv) {
     vector<DATAFMT> in_fmts;
     vector<vector<string> > in_paths;
     DATAFMT global_outfmt = UNKNOWNFMT;
+    bool outfmt_given = false;
     vector<DATAFMT> out_fmts;
     vector<string> out_paths;
     double global_defaultv = NODATA_VALUE;
@@ -310,6 +311,7 @@ int main(const int argc, const char** argv) {
         else if (itkv->first == "OUT" || itkv->first == "OUTPUT") {
             vector<string> tmppaths;
             if (!parse_fmt_paths("OUT", itkv->second, global_outfmt, tmppaths)) { return 1; }
+            outfmt_given = true;
             if (!tmppaths.empty()) {
                 out_paths.emplace_back(tmppaths[0]);
                 out_fmts.emplace_back(global_outfmt);
@@ -456,7 +458,7 @@ int main(const int argc, const char** argv) {
 
         if (global_infmt == UNKNOWNFMT && FilesExist(tmpin)) { global_infmt = SFILE; }
         if (global_infmt == UNKNOWNFMT && !tmpin.empty() && use_mongo) { global_infmt = GFS; }
-        if (global_outfmt != GFS && use_mongo) { global_outfmt = GFS; }
+        if (!outfmt_given && use_mongo) { global_outfmt = GFS; }
         if (global_outfmt == UNKNOWNFMT) { global_outfmt = SFILE; }
 
         double tmp_defv = NODATA_VALUE;
-- 
2.43.0


From e52a3a95df1604ee6978353e2f772640e7f1e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 84/92] fix: mask_rasterio leaves nodata in cells of missing
 subsets if no default value is given

---
 apps/mask_rasterio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 7961e1f..f8a2d89 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -665,7 +665,9 @@ int main(const int argc, const char** argv) {
                 cout << "Error: The COMBINE mode MUST based on a mask layer!\n";
                 return 1;
             }
-            mask_layer->SetDefaultValue(default_values.at(in_idx));
+            mask_layer->SetDefaultValue(FloatEqual(default_values.at(in_idx), NODATA_VALUE)
+                                            ? mask_layer->GetNoDataValue() // no default value is specified
+                                            : default_values.at(in_idx));
             map<int, SubsetPositions*>& subset = mask_layer->GetSubset();
             for (auto it = subset.begin(); it != subset.end(); ++it) {
                 it->second->usable = false;
-- 
2.43.0


From 65be313069b52f8708e6be662082719954d6d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 85/92] fix: mask_rasterio reads GridFS files of any data type
 whatever the output data type is

---
 apps/mask_rasterio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index f8a2d89..160ccd2 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -561,6 +561,7 @@ int main(const int argc, const char** argv) {
     } else {
         UpdateStringMap(opts, HEADER_INC_NODATA, "FALSE");
     }
+    STRING_MAP in_opts = opts; // the output data type does not select the input data
     int status = 0; // first failure
     for (auto in_it = in_paths.begin(); in_it != in_paths.end(); ++in_it) {
         size_t in_idx = in_it - in_paths.begin();
@@ -586,7 +587,10 @@ int main(const int argc, const char** argv) {
                 rs = DblRaster::Init(gfs, (*in_it).at(0).c_str(),
                                      false,
                                      mask_layer, true,
-                                     default_values.at(in_idx), opts);
+                                     default_values.at(in_idx), in_opts);
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) {
+                    rs->SetOutDataType(out_types.at(in_idx));
+                }
 #endif
             }
             else {
@@ -708,7 +712,7 @@ int main(const int argc, const char** argv) {
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-                    in_flag = subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, opts);
+                    in_flag = subset.at(subid)->ReadFromMongoDB(gfs, *inf_it, in_opts);
 #endif
                 }
                 if (!in_flag && status == 0) { status = FileExists(*inf_it) || in_fmts.at(in_idx) == GFS ? 3 : 2; }
-- 
2.43.0


From 5ddc1cb31e0ace6f548d6b9016c65dd5506d9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 86/92] fix: MongoClient::Init returns nullptr for an illegal
 host or port, and accepts host names

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ee4bc25..8d03b46 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -48,7 +48,7 @@ namespace db_mongoc {
  * \sa MongoClient::Init()
  */
 MongoClient::MongoClient(const char* host, const vuint16_t port) : host_(host), port_(port) {
-    assert(IsIpAddress(host));
+    // mongo host not only limit to IP address
     // mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host_, port_);
     conn_ = mongoc_client_new_from_uri(uri);
@@ -84,8 +84,10 @@ MongoClient* MongoClient::Init(const char* host, const vuint16_t port) {
     //     cout << "IP address: " + string(host) + " is invalid, Please check!" << endl;
     //     return nullptr;
     // }
+    if (nullptr == host || port == 0) { return nullptr; }
     mongoc_init();
     mongoc_uri_t* uri = mongoc_uri_new_for_host_port(host, port);
+    if (nullptr == uri) { return nullptr; }
     mongoc_client_t* conn = mongoc_client_new_from_uri(uri);
     if (!conn) {
         mongoc_uri_destroy(uri);
-- 
2.43.0


From 10e78a5f39e73539c75a3b3ea8363200a257f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 87/92] fix: mask_rasterio reports an illegal port number

---
 apps/mask_rasterio.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 160ccd2..7d096fe 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -172,7 +172,7 @@ int main(const int argc, const char** argv) {
     bool use_mongo = false;
 #ifdef USE_MONGODB
     string mongo_host;
-    vint16_t mongo_port;
+    vuint16_t mongo_port;
     string dbname;
     string gfsname;
     MongoClient* client = nullptr;
@@ -355,8 +355,12 @@ int main(const int argc, const char** argv) {
                 return 1;
             }
             mongo_host = itkv->second.at(0);
-            mongo_port = static_cast<vint16_t>(strtol(itkv->second.at(1).c_str(),
-                                                      &strend, 10));
+            vint tmp_port = strtol(itkv->second.at(1).c_str(), &strend, 10);
+            if (*strend != '\0' || tmp_port < 1 || tmp_port > UINT16_MAX) {
+                cout << "Error: Illegal port number of MongoDB!\n";
+                return 1;
+            }
+            mongo_port = static_cast<vuint16_t>(tmp_port);
             dbname = itkv->second.at(2);
             gfsname = itkv->second.at(3);
             client = MongoClient::Init(mongo_host.c_str(), mongo_port);
-- 
2.43.0


From 55baf2a89909832d284630e22946b7029dbaa9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 88/92] fix: subsets refer to the right cells after the
 positions of their raster are calculated

---
 src/data_raster.hpp | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d3de5dc..54bc4cd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4187,6 +4187,47 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    // Subsets refer to cells of the full grid till now, NODATA cells have no position any more
+    if (subset_.empty()) { return; }
+    vector<int> new_pos(static_cast<size_t>(nrows) * ncols, -1);
+    for (int i = 0; i < n_cells_; ++i) { new_pos[pos_idx_[i]] = i; }
+    for (auto it = subset_.begin(); it != subset_.end();) {
+        SubsetPositions* sub = it->second;
+        vector<int> kept; // index in the subset
+        for (int k = 0; k < sub->n_cells; ++k) {
+            if (new_pos[sub->global_[k]] >= 0) { kept.emplace_back(k); }
+        }
+        int count = CVT_INT(kept.size());
+        if (count == 0) {
+            delete sub;
+            subset_.erase(it++);
+            continue;
+        }
+        if (count < sub->n_cells) { sub->ReleaseData(); }
+        int* global = nullptr;
+        int** local_pos = nullptr;
+        int* local_posidx = nullptr;
+        Initialize1DArray(count, global, -1);
+        Initialize2DArray(count, 2, local_pos, -1);
+        Initialize1DArray(count, local_posidx, -1);
+        for (int k = 0; k < count; ++k) {
+            global[k] = new_pos[sub->global_[kept[k]]];
+            local_pos[k][0] = sub->local_pos_[kept[k]][0];
+            local_pos[k][1] = sub->local_pos_[kept[k]][1];
+            local_posidx[k] = sub->local_posidx_[kept[k]];
+        }
+        if (sub->alloc_) {
+            Release1DArray(sub->global_);
+            Release2DArray(sub->local_pos_);
+            Release1DArray(sub->local_posidx_);
+        }
+        sub->global_ = global;
+        sub->local_pos_ = local_pos;
+        sub->local_posidx_ = local_posidx;
+        sub->alloc_ = true;
+        sub->n_cells = count;
+        ++it;
+    }
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From c5dc86270da110b58a84114570053780c27451a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 89/92] fix: GetAppPath can be called by several threads at the
 same time

---
 src/utils_filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 6f5bfad..d010102 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -314,7 +314,7 @@ string GetAppPath() {
     }
     root_path = pathbuf;
 #else /* other linux/unix-like OS */
-    static char buf[PATH_MAX];
+    char buf[PATH_MAX];
     int rslt = readlink("/proc/self/exe", buf, PATH_MAX);
     if (rslt < 0 || rslt >= PATH_MAX) {
         buf[0] = '\0';
-- 
2.43.0


From da0122972e67aa8976beb64ac506fa0073a7a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 90/92] fix: no-data values at the maximum of 64-bit integer
 types are written to GeoTIFF

---
 src/data_raster.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 54bc4cd..d3fb75f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -917,7 +917,19 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     bool io_failed = CPLGetLastErrorType() >= CE_Failure;
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     // NoData must be known before writing, otherwise GDAL stores a block of zeros as NoData
-    CPLErr result = po_dst_band->SetNoDataValue(new_nodata);
+    CPLErr result = CE_None;
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    // The maximums of 64-bit integers are rounded up when represented as double
+    if (outtype == RDT_UInt64 && new_nodata >= CVT_DBL(UINT64_MAX)) {
+        result = po_dst_band->SetNoDataValueAsUInt64(UINT64_MAX);
+    }
+    else if (outtype == RDT_Int64 && new_nodata >= CVT_DBL(INT64_MAX)) {
+        result = po_dst_band->SetNoDataValueAsInt64(INT64_MAX);
+    }
+    else { result = po_dst_band->SetNoDataValue(new_nodata); }
+#else
+    result = po_dst_band->SetNoDataValue(new_nodata);
+#endif
     io_failed = io_failed || result != CE_None || CPLGetLastErrorType() >= CE_Failure;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
-- 
2.43.0


From 9d2fe59ae6ec0dc2b2799728a4da802b20c99477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:23 +0000
Subject: [PATCH 91/92] fix: date-time strings in daylight saving time are
 correct around midnight and for any saving

---
 src/utils_time.cpp | 68 +++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 52 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 4880dc4..8246793 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -43,33 +43,24 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     return string(date_string);
 }
 
-string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
-    static int month_days[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-    struct tm* date_info = new tm();
+/// Get the date time of which daylight saving time is converted to standard time
+static void GetStandardDateTime(const time_t date, struct tm* date_info, const bool utc_time) {
     GetDateTime(date, date_info, utc_time);
     if (date_info->tm_isdst > 0) {
-        if (date_info->tm_hour != 0) {
-            date_info->tm_hour -= 1;
-        } else {
-            date_info->tm_hour = 23;
-            date_info->tm_mday -= 1;
-            if (date_info->tm_mday == 0) {
-                date_info->tm_mon -= 1;
-
-                if (date_info->tm_mon == 0) {
-                    date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
-                    date_info->tm_mday = 31;
-                } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-                    } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
-                    }
-                }
-            }
-        }
+        struct tm standard = *date_info;
+        standard.tm_isdst = 0;
+        time_t saving = mktime(&standard) - date; // the same date time without daylight saving is later
+#ifdef WINDOWS
+        UTCTime(_mkgmtime(date_info) - saving, date_info);
+#else
+        UTCTime(timegm(date_info) - saving, date_info);
+#endif
     }
+}
+
+string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
+    struct tm* date_info = new tm();
+    GetStandardDateTime(date, date_info, utc_time);
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
     string s(date_string);
@@ -78,35 +69,8 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
 }
 /// format: 2022_11_17_092000
 string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
-	static int month_days[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
 	struct tm* date_info = new tm();
-	GetDateTime(date, date_info, utc_time);
-	if (date_info->tm_isdst > 0) {
-		if (date_info->tm_hour != 0) {
-			date_info->tm_hour -= 1;
-		}
-		else {
-			date_info->tm_hour = 23;
-			date_info->tm_mday -= 1;
-			if (date_info->tm_mday == 0) {
-				date_info->tm_mon -= 1;
-
-				if (date_info->tm_mon == 0) {
-					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
-					date_info->tm_mday = 31;
-				}
-				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-					}
-					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
-					}
-				}
-			}
-		}
-	}
+	GetStandardDateTime(date, date_info, utc_time);
 	char date_string[30];
 	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
-- 
2.43.0


From 9c6a06d174de6c90b2ca466487cce4731c689bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 92/92] fix: values out of the range of wide integer types are
 refused by GeoTIFF output

---
 src/data_raster.hpp | 50 ++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d3fb75f..82da9bd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -690,6 +690,24 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
 bool VerifySingleGeotiff(const string& filename, int n_rows, int n_cols, const double* geo_trans,
                          double nodata, GDALDataType type, const void* values);
 
+/*!
+ * \brief Check if an integer type is able to hold a value. The limits of wide integer types
+ *        are rounded when compared with floating-point values, and unsigned when compared with unsigned.
+ * \param[in] value Value of any numeric type
+ */
+template <typename INT_T, typename T>
+bool InRangeOfType(const T value) {
+    if (std::numeric_limits<T>::is_integer) {
+        if (value < 0) { return static_cast<vint64_t>(value) >= static_cast<vint64_t>((std::numeric_limits<INT_T>::min)())
+                                && std::numeric_limits<INT_T>::is_signed; }
+        return static_cast<vuint64_t>(value) <= static_cast<vuint64_t>((std::numeric_limits<INT_T>::max)());
+    }
+    const double v = static_cast<double>(value);
+    return v >= static_cast<double>((std::numeric_limits<INT_T>::min)())
+            && v <= static_cast<double>((std::numeric_limits<INT_T>::max)())
+            && v < std::ldexp(1., std::numeric_limits<INT_T>::digits);
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -723,7 +741,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
             new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
             unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
+            if (!InRangeOfType<unsigned char>(old_nodata)) {
                 new_nodata = UINT8_MAX;
                 change_nodata = true;
             }
@@ -734,7 +752,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
+                if (!InRangeOfType<unsigned char>(values[i])) illegal_count += 1;
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -746,7 +764,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
 #endif
             new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
             signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
+            if (!InRangeOfType<signed char>(old_nodata)) {
                 new_nodata = INT8_MIN;
                 change_nodata = true;
             }
@@ -757,7 +775,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if (!InRangeOfType<signed char>(values[i])) { illegal_count += 1; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -765,7 +783,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt16) { // [0, 65535]
             new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
             vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
+            if (!InRangeOfType<vuint16_t>(old_nodata)) {
                 new_nodata = UINT16_MAX;
                 change_nodata = true;
             }
@@ -776,7 +794,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
+                if (!InRangeOfType<vuint16_t>(values[i])) illegal_count += 1;
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -784,7 +802,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int16) { // [-32768, 32767]
             new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
             vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
+            if (!InRangeOfType<vint16_t>(old_nodata)) {
                 new_nodata = INT16_MIN;
                 change_nodata = true;
             }
@@ -795,7 +813,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if (!InRangeOfType<vint16_t>(values[i])) illegal_count += 1;
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -803,7 +821,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
             new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
             vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
+            if (!InRangeOfType<vuint32_t>(old_nodata)) {
                 new_nodata = UINT32_MAX;
                 change_nodata = true;
             }
@@ -814,7 +832,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (!InRangeOfType<vuint32_t>(values[i])) illegal_count += 1;
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -822,7 +840,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
             new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
             vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
+            if (!InRangeOfType<vint32_t>(old_nodata)) {
                 new_nodata = INT32_MIN;
                 change_nodata = true;
             }
@@ -833,7 +851,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if (!InRangeOfType<vint32_t>(values[i])) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -842,7 +860,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (!InRangeOfType<vuint64_t>(old_nodata)) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -853,7 +871,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (!InRangeOfType<vuint64_t>(values[i])) illegal_count += 1;
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -861,7 +879,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (!InRangeOfType<vint64_t>(old_nodata)) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
@@ -872,7 +890,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if (!InRangeOfType<vint64_t>(values[i])) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0

