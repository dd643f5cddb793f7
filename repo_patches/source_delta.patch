From c2c21b397da5814abf971eb75e999cceef2c90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 01/33] fix: read a file whose read() calls return short counts
 or an early end

ReadFile stored every chunk at the start of the buffer, so any short read
left the rest of the text missing, and a file that shrank between fstat
and read made the loop spin for ever because read() == 0 was not seen.
---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..0df6c2d 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -374,7 +374,7 @@ namespace C4
 
                 BOOL ok = ::ReadFile( fileHandle, p, end - p, &numberOfBytesRead, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesRead == 0 )
                 {
                     return kFileReadError;
                 }
@@ -400,9 +400,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From 7f3cc4a31042d3eca52af6295c9e473ffde0e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:09 +0000
Subject: [PATCH 02/33] fix: truncate the file that Write replaces and leave it
 alone without a document

Writing over a longer file kept its old tail behind the new document.
Write without a document created an empty file before reporting failure.
---
 Code/Json4C4/C4Json.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0df6c2d..2e478a5 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
@@ -1809,6 +1809,10 @@ namespace C4
 
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
 
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
@@ -1818,16 +1822,11 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
-
-                file.CloseFile();
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                return status;
-            }
+            file.CloseFile();
 
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From bfec03d536afab0367895dfbae01c76f44d0078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 03/33] fix: give KFileTooLarge its description

The description table lacked the entry, so every later status was
described as its neighbour and the last one was read out of bounds.
---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 2e478a5..6cf6b6f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From bc03e361354c9cf28cf8b71692ddd66a37a31576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:19 +0000
Subject: [PATCH 04/33] fix: report failing writes and closes from
 StructuredData::Write

The results of WriteFile and close were ignored, so a full disk or an I/O
error still gave kOk. The first failure now stops further output and is
reported as KFileWriteError.
---
 Code/Json4C4/C4Json.cpp | 43 ++++++++++++++++++++++++++++++++---------
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6cf6b6f..80fa6c0 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -199,7 +199,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool IsReadOnly  = false;
+        bool writeFailed = false;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -248,7 +249,8 @@ namespace C4
             }
 
             this->fileHandle = handle;
-            this->IsReadOnly = false;
+            this->IsReadOnly  = false;
+            this->writeFailed = false;
 
             return kFileOkay;
 
@@ -278,19 +280,23 @@ namespace C4
 
             this->fileDescriptor = fd;
             this->IsReadOnly     = false;
+            this->writeFailed    = false;
 
             return kFileOkay;
 
 #    endif
         }
 
-        void CloseFile()
+        FileStatus CloseFile()
         {
 #    if defined( JSON4C4_WINDOWS )
 
             if ( fileHandle != nullptr )
             {
-                CloseHandle( fileHandle );
+                if ( !CloseHandle( fileHandle ) )
+                {
+                    writeFailed = true;
+                }
 
                 fileHandle = nullptr;
             }
@@ -299,12 +305,17 @@ namespace C4
 
             if ( this->fileDescriptor != -1 )
             {
-                close( this->fileDescriptor );
+                if ( close( this->fileDescriptor ) != 0 )
+                {
+                    writeFailed = true;
+                }
 
                 fileDescriptor = -1;
             }
 
 #    endif
+
+            return ( !IsReadOnly && writeFailed ) ? kFileWriteError : kFileOkay;
         }
 
         Terathon::uint64 GetFileSize()
@@ -417,7 +428,7 @@ namespace C4
 
         FileStatus WriteFile( const char* buffer, Terathon::uint64 size )
         {
-            if ( IsReadOnly )
+            if ( IsReadOnly || writeFailed )
             {
                 return kFileWriteError;
             }
@@ -439,8 +450,9 @@ namespace C4
 
                 BOOL ok = ::WriteFile( fileHandle, p, end - p, &numberOfBytesWritten, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesWritten == 0 )
                 {
+                    writeFailed = true;
                     return kFileWriteError;
                 }
 
@@ -462,8 +474,9 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
+                    writeFailed = true;
                     return kFileWriteError;
                 }
 
@@ -525,7 +538,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1825,8 +1839,19 @@ namespace C4
 
             Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
+#ifdef C4_ENGINE_MODULE
+
             file.CloseFile();
 
+#else
+
+            if ( file.CloseFile() != kFileOkay && status == Status::kOk )
+            {
+                status = Status::KFileWriteError;
+            }
+
+#endif
+
             return status;
         }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..4b11607 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From 8df211352b4d52d05f02d07410a697e5c062b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 05/33] fix: report a failing fstat as a read error

GetFileSize turned the failure into size 0, which was then reported as
invalid JSON text.
---
 Code/Json4C4/C4Json.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 80fa6c0..0c9abba 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -318,14 +318,14 @@ namespace C4
             return ( !IsReadOnly && writeFailed ) ? kFileWriteError : kFileOkay;
         }
 
-        Terathon::uint64 GetFileSize()
+        FileStatus GetFileSize( Terathon::uint64& size )
         {
 
 #    if defined( JSON4C4_WINDOWS )
 
             if ( fileHandle == nullptr )
             {
-                return 0;
+                return kFileNotOpen;
             }
 
             FILE_STANDARD_INFO fileInfo { 0 };
@@ -334,16 +334,16 @@ namespace C4
 
             if ( !result )
             {
-                return 0;
+                return kFileReadError;
             }
 
-            return fileInfo.EndOfFile.QuadPart;
+            size = fileInfo.EndOfFile.QuadPart;
 
 #    elif defined( JSON4C4_LINUX )
 
             if ( this->fileDescriptor == -1 )
             {
-                return 0;
+                return kFileNotOpen;
             }
 
             struct stat statBuffer;
@@ -352,12 +352,14 @@ namespace C4
 
             if ( result != 0 )
             {
-                return 0;
+                return kFileReadError;
             }
 
-            return statBuffer.st_size;
+            size = statBuffer.st_size;
 
 #    endif
+
+            return kFileOkay;
         }
 
         FileStatus ReadFile( char* buffer, Terathon::uint64 size )
@@ -1766,7 +1768,20 @@ namespace C4
                 return ParseResult { Status::KFileOpenError, 0, 0 };
             }
 
-            Terathon::uint64 fileSize = file.GetFileSize();
+            Terathon::uint64 fileSize = 0;
+
+#ifdef C4_ENGINE_MODULE
+
+            fileSize = file.GetFileSize();
+
+#else
+
+            if ( file.GetFileSize( fileSize ) != kFileOkay )
+            {
+                return ParseResult { Status::KFileReadError, 0, 0 };
+            }
+
+#endif
 
             if ( fileSize > MAX_FILE_SIZE )
             {
-- 
2.43.0


From 26bd9389a9209d54b47a9078b6eaf6b463e3ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 06/33] fix: keep a String valid when its allocation fails

The sizes were updated and the old buffer freed before the new one was
allocated, so a failing allocation left a dangling pointer that was freed
again, or a length beyond the buffer.
---
 Code/Terathon/TSString.cpp | 63 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..89dff48 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -443,8 +447,8 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -452,6 +456,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
@@ -470,8 +475,8 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -479,6 +484,7 @@ String<0>& String<0>::operator +=(const char *s)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
@@ -494,8 +500,8 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -503,6 +509,7 @@ String<0>& String<0>::operator +=(char k)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -517,8 +524,8 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -526,6 +533,7 @@ String<0>& String<0>::operator +=(int32 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -538,8 +546,8 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -547,6 +555,7 @@ String<0>& String<0>::operator +=(uint32 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -559,8 +568,8 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -568,6 +577,7 @@ String<0>& String<0>::operator +=(int64 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -580,8 +590,8 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -589,6 +599,7 @@ String<0>& String<0>::operator +=(uint64 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -611,14 +622,13 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -626,6 +636,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 						delete[] stringPointer;
 					}
 
+					physicalSize = newSize;
 					stringPointer = newPointer;
 				}
 			}
@@ -637,6 +648,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			}
 
 			stringPointer[length] = 0;
+			logicalSize = size;
 		}
 	}
 	else
@@ -659,8 +671,8 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -668,6 +680,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
@@ -783,9 +796,11 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
+		int32 encodedPhysicalSize = GetPhysicalSize(encodedLength);
+		char *encodedString = new char[encodedPhysicalSize];
+
 		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
-		char *encodedString = new char[physicalSize];
+		physicalSize = encodedPhysicalSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From e969879dec07b1c5192329c22770963ee4fc54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 07/33] fix: record the right sizes after shrinking or escaping
 a String

SetStringLength moved the text back to the local buffer but kept the
capacity of the freed one, so later appends overran the local buffer.
EncodeEscapeSequences forgot the terminator in the logical size.
---
 Code/Terathon/TSString.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 89dff48..64dc8c5 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -644,6 +644,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
@@ -799,7 +800,7 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 		int32 encodedPhysicalSize = GetPhysicalSize(encodedLength);
 		char *encodedString = new char[encodedPhysicalSize];
 
-		logicalSize = encodedLength;
+		logicalSize = encodedLength + 1;
 		physicalSize = encodedPhysicalSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
-- 
2.43.0


From dfbdb401a99f53b253d239809ae73d9eadd08d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:30 +0000
Subject: [PATCH 08/33] fix: keep an Array valid when growing or copying it
 fails

The capacity was raised before the allocation that backs it, copies that
threw leaked their storage, and an element constructor that threw in the
middle left elements destroyed or lost.
---
 Code/Terathon/TSArray.h | 88 ++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 53 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..7324b87 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,17 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
-
-		if (elementCount > baseCount)
-		{
-			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
+		int32 count = array.elementCount;
+		if (count > baseCount)
 		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
+			SetReservedCount(count);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		for (; elementCount < count; elementCount++)
 		{
-			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			new(&arrayPointer[elementCount]) type(array.arrayPointer[elementCount]);
 		}
 	}
 
@@ -477,8 +470,9 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -516,10 +510,9 @@ namespace Terathon
 
 		if (count > elementCount)
 		{
-			type *pointer = arrayPointer + (elementCount - 1);
-			for (machine a = elementCount; a < count; a++)
+			for (; elementCount < count; elementCount++)
 			{
-				new(++pointer) type;
+				new(&arrayPointer[elementCount]) type;
 			}
 		}
 		else if (count < elementCount)
@@ -544,10 +537,9 @@ namespace Terathon
 
 		if (count > elementCount)
 		{
-			type *pointer = arrayPointer + (elementCount - 1);
-			for (machine a = elementCount; a < count; a++)
+			for (; elementCount < count; elementCount++)
 			{
-				new(++pointer) type(init);
+				new(&arrayPointer[elementCount]) type(init);
 			}
 		}
 		else if (count < elementCount)
@@ -605,17 +597,18 @@ namespace Terathon
 				SetReservedCount(count);
 			}
 
-			type *pointer = &arrayPointer[elementCount - 1];
-			for (machine a = elementCount; a < index; a++)
+			for (; elementCount < index; elementCount++)
 			{
-				new(++pointer) type;
+				new(&arrayPointer[elementCount]) type;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<T&&>(element));
 			elementCount = count;
 		}
 		else
 		{
+			type value(static_cast<T&&>(element));
+
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
@@ -629,7 +622,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 	}
@@ -713,22 +706,11 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
-
-		if (reservedCount > 0)
+		for (int32 count = array.elementCount; elementCount < count; elementCount++)
 		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
-		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[elementCount]) type(array.arrayPointer[elementCount]);
 		}
 	}
 
@@ -787,8 +769,9 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		if (pointer)
@@ -825,10 +808,9 @@ namespace Terathon
 
 		if (count > elementCount)
 		{
-			type *pointer = arrayPointer + (elementCount - 1);
-			for (machine a = elementCount; a < count; a++)
+			for (; elementCount < count; elementCount++)
 			{
-				new(++pointer) type;
+				new(&arrayPointer[elementCount]) type;
 			}
 		}
 		else if (count < elementCount)
@@ -853,10 +835,9 @@ namespace Terathon
 
 		if (count > elementCount)
 		{
-			type *pointer = arrayPointer + (elementCount - 1);
-			for (machine a = elementCount; a < count; a++)
+			for (; elementCount < count; elementCount++)
 			{
-				new(++pointer) type(init);
+				new(&arrayPointer[elementCount]) type(init);
 			}
 		}
 		else if (count < elementCount)
@@ -914,17 +895,18 @@ namespace Terathon
 				SetReservedCount(count);
 			}
 
-			type *pointer = &arrayPointer[elementCount - 1];
-			for (machine a = elementCount; a < index; a++)
+			for (; elementCount < index; elementCount++)
 			{
-				new(++pointer) type;
+				new(&arrayPointer[elementCount]) type;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<T&&>(element));
 			elementCount = count;
 		}
 		else
 		{
+			type value(static_cast<T&&>(element));
+
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
@@ -938,7 +920,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From ee059acbff216e145eb136b0414f36b388de1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:57 +0000
Subject: [PATCH 09/33] fix: escape strings and names when writing

Quotes, backslashes and control characters were written as they are, which
gives text that is not JSON or denotes another string.
---
 Code/Json4C4/C4Json.cpp | 42 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0c9abba..9dd628f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -617,6 +617,43 @@ namespace C4
         class NullValue;
         class ArrayValue;
 
+        void WriteStringLiteral( File& file, const char* string )
+        {
+            constexpr char hexDigits[] = "0123456789ABCDEF";
+
+            file << '\"';
+
+            const char* run = string;
+
+            for ( ; *string != 0; string++ )
+            {
+                const uint8 c = uint8( *string );
+
+                if ( c >= 32U && c != 127U && c != '\"' && c != '\\' )
+                {
+                    continue;
+                }
+
+                file.WriteFile( run, string - run );
+                run = string + 1;
+
+                if ( c == '\"' || c == '\\' )
+                {
+                    const char escape[ 3 ] = { '\\', char( c ), 0 };
+                    file << escape;
+                }
+                else
+                {
+                    const char escape[ 7 ] = { '\\', 'u', '0', '0', hexDigits[ c >> 4 ], hexDigits[ c & 15 ], 0 };
+                    file << escape;
+                }
+            }
+
+            file.WriteFile( run, string - run );
+
+            file << '\"';
+        }
+
         void ExpandArray( Array<char>& array, const char c, const uint32 n )
         {
             for ( uint32 a = 0; a != n; a++ )
@@ -1170,7 +1207,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1688,7 +1725,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From 25dcb48520d95911cea841edf77cf662665bdf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:02 +0000
Subject: [PATCH 10/33] fix: refuse to write infinite and not-a-number values

They were written as inf and nan, which no JSON parser accepts.
---
 Code/Json4C4/C4Json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 9dd628f..4f63c0c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1264,6 +1264,10 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
+                if ( data - data != 0.0 ) // infinite or not a number
+                {
+                    return Status::kFloatInvalid;
+                }
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
-- 
2.43.0


From 00dcb50cd251afa2c1d4e2b871762cfc7a35af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:07 +0000
Subject: [PATCH 11/33] fix: report a failing allocation while writing

The indentation array may throw inside the noexcept Write, which ended the
process.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4f63c0c..99688ca 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1894,7 +1894,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
 #ifdef C4_ENGINE_MODULE
 
-- 
2.43.0


From d4c91c63a8503f1fcaca54eff7891a79d5f4d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:12 +0000
Subject: [PATCH 12/33] fix: read numbers by the JSON grammar

+1, - 1, 1., 1e, 1-2 and 1.5.3 were accepted with some value, 0e1 was
refused.
---
 Code/Json4C4/C4Json.cpp | 70 +++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 99688ca..da233c8 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -676,15 +676,51 @@ namespace C4
 
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
-            const uint8* byte = reinterpret_cast<const uint8*>( text );
+            const char* c = text;
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            auto skipDigits = [ &c ]()
             {
-                byte++;
+                const char* start = c;
+
+                while ( c[ 0 ] >= '0' && c[ 0 ] <= '9' )
+                {
+                    c++;
+                }
+
+                return c != start;
+            };
+
+            if ( !skipDigits() )
+            {
+                return 0;
             }
 
-            return int32( reinterpret_cast<const char*>( byte ) - text );
+            if ( c[ 0 ] == '.' )
+            {
+                c++;
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
+            }
+
+            if ( c[ 0 ] == 'e' || c[ 0 ] == 'E' )
+            {
+                c++;
+
+                if ( c[ 0 ] == '+' || c[ 0 ] == '-' )
+                {
+                    c++;
+                }
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
+            }
+
+            return int32( c - text );
         }
 
         int32 ReadEscapeChar( const char* text, uint32* value ) noexcept
@@ -859,6 +895,11 @@ namespace C4
         Status ReadDoubleLiteral( const char* text, int32* textLength, double* value )
         {
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
+            if ( text[ 0 ] == '0' && text[ 1 ] >= '0' && text[ 1 ] <= '9' )
+            {
+                return ( Status::kNumbersCannotHaveLeadingZeros );
+            }
+
             *textLength = ComputeFloatLiteralLength( text );
 
             if ( *textLength == 0 )
@@ -866,14 +907,6 @@ namespace C4
                 return ( Status::kFloatInvalid );
             }
 
-            if ( text[ 0 ] == '0' )
-            {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
-                {
-                    return ( Status::kNumbersCannotHaveLeadingZeros );
-                }
-            }
-
             char* str = new char[ ( *textLength ) + 1 ];
 
             Text::CopyText( text, str, *textLength );
@@ -1045,21 +1078,12 @@ namespace C4
 
         bool ParseSign( const char*& text ) noexcept
         {
-            char c = text[ 0 ];
-
-            if ( c == '-' )
+            if ( text[ 0 ] == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 709abafa2485e57d21cd1ad75cd60a00e3f1f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:17 +0000
Subject: [PATCH 13/33] fix: convert numbers independently of the locale

With a decimal comma in LC_NUMERIC 1.5 was read as 1 and written as 1,5.
---
 Code/Json4C4/C4Json.cpp | 53 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index da233c8..84d61f3 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -892,6 +892,29 @@ namespace C4
             return ( Status::kOk );
         }
 
+#ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
+
+        // strtod and snprintf use the decimal point of the current locale, which may be more than one byte long
+
+        int32 GetLocaleDecimalPoint( char ( &decimalPoint )[ 16 ] ) noexcept
+        {
+            snprintf( decimalPoint, sizeof( decimalPoint ), "%.1f", 0.0 );
+
+            int32 length = 0;
+
+            while ( decimalPoint[ length + 1 ] != 0 && decimalPoint[ length + 1 ] != '0' )
+            {
+                decimalPoint[ length ] = decimalPoint[ length + 1 ];
+                length++;
+            }
+
+            decimalPoint[ length ] = 0;
+
+            return length;
+        }
+
+#endif
+
         Status ReadDoubleLiteral( const char* text, int32* textLength, double* value )
         {
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
@@ -907,11 +930,26 @@ namespace C4
                 return ( Status::kFloatInvalid );
             }
 
-            char* str = new char[ ( *textLength ) + 1 ];
+            char        decimalPoint[ 16 ];
+            const int32 decimalPointLength = GetLocaleDecimalPoint( decimalPoint );
 
-            Text::CopyText( text, str, *textLength );
+            char* str = new char[ ( *textLength ) + decimalPointLength + 1 ];
+            char* c   = str;
 
-            str[ *textLength ] = 0;
+            for ( int32 a = 0; a < *textLength; a++ )
+            {
+                if ( text[ a ] != '.' )
+                {
+                    *c++ = text[ a ];
+                }
+                else
+                {
+                    Text::CopyText( decimalPoint, c );
+                    c += decimalPointLength;
+                }
+            }
+
+            *c = 0;
 
             char*  end = nullptr;
             double v   = strtod( str, &end );
@@ -1300,6 +1338,15 @@ namespace C4
 
                 snprintf( output, maxDoubleDigits, "%.17g", data );
 
+                char        decimalPoint[ 16 ];
+                const int32 decimalPointLength = GetLocaleDecimalPoint( decimalPoint );
+
+                if ( char* point = ( decimalPointLength > 0 ) ? strstr( output, decimalPoint ) : nullptr )
+                {
+                    *point = '.';
+                    Text::CopyText( point + decimalPointLength, point + 1 );
+                }
+
                 file << output;
 
 #else
-- 
2.43.0


From 26f35ecc988472281bed33438ca96e33f86f77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:22 +0000
Subject: [PATCH 14/33] fix: report a failing allocation inside a number,
 boolean or null as such

It was taken for a value of another type and ended in a syntax error.
---
 Code/Json4C4/C4Json.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 84d61f3..4bac64d 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1168,21 +1168,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-- 
2.43.0


From 6256d57fd4bd5b4a4e93812281c18409db8dbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 15/33] fix: own parsed values that cannot be stored

A value whose name was repeated, or whose insertion threw, was leaked, and
a repeated name made Write emit the first value twice.
---
 Code/Json4C4/C4Json.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4bac64d..9dd48cc 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1527,6 +1527,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
@@ -1602,6 +1603,11 @@ namespace C4
 
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
+            if ( this->FindMapElement( element->name ) )
+            {
+                return false;
+            }
+
             insertionOrder.AppendArrayElement( element->name );
 
             return this->InsertMapElement( element );
@@ -1658,15 +1664,22 @@ namespace C4
                     return status;
                 }
 
+                bool inserted = false;
+
                 status = MayThrow(
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+                        inserted        = jsonObject->InsertAccountedMapElement( jsonValue );
 
                         return Status::kOk;
                     } );
 
+                if ( !inserted )
+                {
+                    delete jsonValue; // the first value of a repeated name is kept
+                }
+
                 if ( status != Status::kOk )
                 {
                     return status;
-- 
2.43.0


From 38fc99145d3e35d0b67be9d20ed8484621fb1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 16/33] fix: check the end, the error position and the result
 of a parse

Bytes behind a NUL were ignored, one-character documents were refused,
leading white space was left out of the reported line and column, and a
document with trailing text stayed visible after the failure.
---
 Code/Json4C4/C4Json.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 9dd48cc..7b6cbea 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1837,7 +1837,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1847,17 +1847,24 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
+            const char* start = &nullTerminatedCharArray[ 0 ];
 
-            const char* start = text;
+            const char* text = start;
+            text += ComputeWhitespaceLength( text );
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                if ( text != nullTerminatedCharArray.end() - 1 )
+                {
+                    status = Status::kExpectedEndOfFile;
+
+                    delete jsonRoot;
+                    jsonRoot = nullptr;
+                }
             }
 
             if ( status != Status::kOk )
@@ -1943,7 +1950,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From cffe2b3d6bdb3943dd0b82b4cccd6419d471cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:35 +0000
Subject: [PATCH 17/33] fix: combine surrogate pairs in string escapes

Each half was stored as a three-byte sequence of its own, which is not
UTF-8.
---
 Code/Json4C4/C4Json.cpp | 52 +++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7b6cbea..3c07b6e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -762,6 +762,32 @@ namespace C4
             return ( 0 );
         }
 
+        bool ReadHexadecimalCode( const uint8* byte, uint32* value ) noexcept
+        {
+            uint32 code = 0;
+
+            for ( machine a = 0; a < 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( false );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( false );
+                }
+
+                code = ( code << 4 ) | x;
+            }
+
+            *value = code;
+
+            return ( true );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -769,23 +795,25 @@ namespace C4
 
             if ( c == 'u' )
             {
-                uint32 code = 0;
+                uint32 code       = 0;
+                int32  textLength = 5;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( !ReadHexadecimalCode( byte + 1, &code ) )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
+                    return ( 0 );
+                }
 
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
+                if ( code >= 0x00D800 && code <= 0x00DFFF )
+                {
+                    uint32 low = 0;
+
+                    if ( code >= 0x00DC00 || byte[ 5 ] != '\\' || byte[ 6 ] != 'u' || !ReadHexadecimalCode( byte + 7, &low ) || low < 0x00DC00 || low > 0x00DFFF )
                     {
                         return ( 0 );
                     }
 
-                    code = ( code << 4 ) | x;
+                    code       = 0x010000 + ( ( code - 0x00D800 ) << 10 ) + ( low - 0x00DC00 );
+                    textLength = 11;
                 }
 
                 if ( code != 0 )
@@ -796,10 +824,10 @@ namespace C4
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = Text::GetUnicodeCharByteCount( code );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From 4dfb8e23a4eef306aa6742ac013922a2c35785bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:39 +0000
Subject: [PATCH 18/33] fix: limit the nesting depth of parsed text

The recursive parser ran out of stack on deeply nested text well below the
file size limit.
---
 Code/Json4C4/C4Json.cpp | 36 ++++++++++++++++++++++++------------
 Code/Json4C4/C4Json.h   |  7 ++++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 3c07b6e..22a47e6 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -95,6 +95,7 @@
 #define JSON4C4VERSION STR( JSON4C4VERSIONMAJOR ) "." STR( JSON4C4VERSIONMINOR ) "." STR( JSON4C4VERSIONPATCH )
 
 #define MAX_FILE_SIZE 0xffff - 1
+#define MAX_NESTING_DEPTH 1000
 
 namespace C4
 {
@@ -541,7 +542,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Could not write file" };
+                                                    "Could not write file",
+                                                    "Arrays and objects are nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1153,8 +1155,8 @@ namespace C4
             return ( false );
         }
 
-        template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        template <class T, class... Depth>
+        Status ParseValue( Value*& value, const char*& text, Depth... depth ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1170,7 +1172,7 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text, depth... ); } );
 
             if ( status == Status::kOk )
             {
@@ -1184,7 +1186,7 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, int32 depth ) noexcept
         {
             const char* start = text;
 
@@ -1216,13 +1218,13 @@ namespace C4
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1513,13 +1515,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1540,7 +1547,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1641,13 +1648,18 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1686,7 +1698,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1880,7 +1892,7 @@ namespace C4
             const char* text = start;
             text += ComputeWhitespaceLength( text );
 
-            Status status = ParseAnyValue( jsonRoot, text );
+            Status status = ParseAnyValue( jsonRoot, text, 0 );
 
             if ( status == Status::kOk )
             {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 4b11607..9b14557 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            KFileWriteError
+            KFileWriteError,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -472,7 +473,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -499,7 +500,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From a86709a2ba1a1ac379fff3f51e2e1da11adb717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 19/33] fix: look up names without allocating

The noexcept lookups built a String from the name; a failing allocation
ended the process.
---
 Code/Json4C4/C4Json.cpp | 23 +++++++++++++++++++++++
 Code/Json4C4/C4Json.h   |  4 ++++
 2 files changed, 27 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 22a47e6..ec9f6c6 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1636,6 +1636,29 @@ namespace C4
         {
         }
 
+        Value* ObjectValue::FindMapElement( const char* name ) const noexcept
+        {
+            Value* value = GetRootMapElement();
+
+            while ( value )
+            {
+                if ( Text::CompareTextLessThan( name, value->name ) )
+                {
+                    value = value->GetLeftSubnode();
+                }
+                else if ( Text::CompareTextLessThan( value->name, name ) )
+                {
+                    value = value->GetRightSubnode();
+                }
+                else
+                {
+                    break;
+                }
+            }
+
+            return value;
+        }
+
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
             if ( this->FindMapElement( element->name ) )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 9b14557..5d0418e 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -515,6 +515,10 @@ namespace C4
             TERATHON_API const Array<Value*>* FindJsonValueArray( const char* name ) const noexcept;
             TERATHON_API const ObjectValue*   FindJsonObjectValue( const char* name ) const noexcept;
 
+            using Map<Value>::FindMapElement;
+
+            TERATHON_API Value* FindMapElement( const char* name ) const noexcept;
+
             TERATHON_API bool InsertAccountedMapElement( Value* element );
 
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
-- 
2.43.0


From a62e36977dece39912eba0b067f4bf9e8a66bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:53 +0000
Subject: [PATCH 20/33] fix: keep the names and own the elements of serialized
 maps

---
 Code/Json4C4/C4Json.cpp | 12 ++++++
 Code/Json4C4/C4Json.h   | 90 +++++++++++++++++++++++++++++------------
 2 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ec9f6c6..fcd8906 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1671,6 +1671,18 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
+        void ObjectValue::RemoveAllMapElements() noexcept
+        {
+            Map<Value>::RemoveAllMapElements();
+            insertionOrder.PurgeArray();
+        }
+
+        void ObjectValue::PurgeMap() noexcept
+        {
+            Map<Value>::PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5d0418e..f889b76 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -495,7 +495,6 @@ namespace C4
             Array<String<>> insertionOrder;
 
         public:
-            using Map<Value>::RemoveAllMapElements;
             using Map<Value>::begin;
             using Map<Value>::end;
 
@@ -521,6 +520,9 @@ namespace C4
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
 
+            TERATHON_API void RemoveAllMapElements() noexcept;
+            TERATHON_API void PurgeMap() noexcept;
+
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
 
@@ -1075,32 +1077,50 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
 
                     for ( const auto* dataMapElement : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
+                        Value* elem     = nullptr;
+                        bool   inserted = false;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem       = Detail::CreateValueFor( temp );
+                                elem->name = dataMapElement->name;
+
+                                Status elemStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elemStatus = dataMapElement->data.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elemStatus = Serialize( elem, dataMapElement->data );
+                                }
+
+                                if ( elemStatus == Status::kOk )
+                                {
+                                    inserted = objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elemStatus;
+                            } );
+
+                        if ( !inserted )
                         {
-                            status = Serialize( elem, dataMapElement->data );
+                            delete elem;
                         }
 
                         if ( status != Status::kOk )
                         {
-                            delete elem;
                             return status;
                         }
-
-                        objectValue->InsertMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1351,32 +1371,50 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
 
-                    for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
+                    for ( const auto& dataMapElement : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
+                        Value* elem     = nullptr;
+                        bool   inserted = false;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem       = Detail::CreateValueFor( temp );
+                                elem->name = dataMapElement.first.c_str();
+
+                                Status elemStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elemStatus = dataMapElement.second.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elemStatus = Serialize( elem, dataMapElement.second );
+                                }
+
+                                if ( elemStatus == Status::kOk )
+                                {
+                                    inserted = objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elemStatus;
+                            } );
+
+                        if ( !inserted )
                         {
-                            status = Serialize( elem, dataMapElementData );
+                            delete elem;
                         }
 
                         if ( status != Status::kOk )
                         {
-                            delete elem;
                             return status;
                         }
-
-                        objectValue->InsertMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From 727369681d5dd2af2c8cb41d0477518ae1c8ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:03 +0000
Subject: [PATCH 21/33] fix: serialize std::vector members and deserialize
 vectors of member types

---
 Code/Json4C4/C4Json.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index f889b76..54c3a83 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -541,6 +541,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
@@ -1209,7 +1219,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From 9b8c5a77dc3c0ddd667d7c384249757dac8e6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:59 +0000
Subject: [PATCH 22/33] fix: report and undo a failing named Serialize and
 replace a repeated name

---
 Code/Json4C4/C4Json.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 54c3a83..37db6fe 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -713,11 +713,15 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        Status dataStatus = Serialize( associateValue, data );
 
-                        return Status::kOk;
+                        if ( dataStatus == Status::kOk && !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete objectValue->InsertReplaceMapElement( associateValue );
+                        }
+
+                        return dataStatus;
                     } );
 
                 if ( status != Status::kOk )
@@ -741,8 +745,15 @@ namespace C4
                     [ & ]()
                     {
                         element = Detail::CreateValueFor( data );
-                        valueArray->AppendArrayElement( element );
-                        return Status::kOk;
+
+                        Status dataStatus = Serialize( element, data );
+
+                        if ( dataStatus == Status::kOk )
+                        {
+                            valueArray->AppendArrayElement( element );
+                        }
+
+                        return dataStatus;
                     } );
 
                 if ( status != Status::kOk )
@@ -754,7 +765,7 @@ namespace C4
                     return status;
                 }
 
-                return MayThrow( [ & ]() { return Serialize( element, data ); } );
+                return Status::kOk;
             }
 
             return Status::kInvalidValueType;
-- 
2.43.0


From c5bc1208dc2388cc7854dc6b823233e5d8586b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:05 +0000
Subject: [PATCH 23/33] fix: refuse to read from structured data without a
 document

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 37db6fe..f132106 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -590,6 +590,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -642,6 +647,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From 889b6c5db593c3e5920c82cffeb362c7303b4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:09 +0000
Subject: [PATCH 24/33] fix: keep the document when SerializeFrom fails

---
 Code/Json4C4/C4Json.h | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index f132106..7e85a44 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -612,35 +612,33 @@ namespace C4
             template <class T>
             Status SerializeFrom( const T& data ) noexcept
             {
-                if ( rootJsonValue != nullptr )
-                {
-                    delete rootJsonValue;
-                }
+                Value* newRootJsonValue = nullptr;
 
                 Status status = MayThrow(
                     [ & ]()
                     {
-                        rootJsonValue = Detail::CreateValueFor( data );
-                        return Status::kOk;
-                    } );
-
-                if ( status != Status::kOk )
-                {
-                    return status;
-                }
+                        newRootJsonValue = Detail::CreateValueFor( data );
 
-                return MayThrow(
-                    [ & ]()
-                    {
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
                         {
-                            return data.Serialize( this->GetRootJsonValue() );
+                            return data.Serialize( newRootJsonValue );
                         }
                         else
                         {
-                            return Serialize( this->GetRootJsonValue(), data );
+                            return Serialize( newRootJsonValue, data );
                         }
                     } );
+
+                if ( status != Status::kOk )
+                {
+                    delete newRootJsonValue;
+                    return status;
+                }
+
+                delete rootJsonValue;
+                rootJsonValue = newRootJsonValue;
+
+                return Status::kOk;
             }
         };
 
-- 
2.43.0


From 56a74ea0615f8e5d6bb304359865962a9022bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 25/33] fix: let a map keep its root when that element is
 replaced

---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From f1caccedabc94f09e10164b49cdc49dc90c9b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:28 +0000
Subject: [PATCH 26/33] fix: free a map element whose name cannot be copied

---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 7e85a44..e30cf51 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1041,16 +1041,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
-- 
2.43.0


From 654bff8e12135d972c44b37391ae1e1bec4d8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 27/33] fix: do not cut off the column of a described parse
 result

---
 Code/Json4C4/C4Json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index fcd8906..c0fc99e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2096,7 +2096,10 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += ". Line: ";
+                string += String<24>( parseResult.errorLine );
+                string += ", column: ";
+                string += String<24>( parseResult.errorColumn );
             }
 
             return string;
-- 
2.43.0


From f34b20674f3decdbc21475d22697f9f541d4c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 28/33] fix: refuse an optional value that lacks a required
 name

---
 Code/Json4C4/C4Json.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index e30cf51..db77622 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1486,11 +1486,17 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // Only this name may be missing: a name missing inside of a present value is an error
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Validate( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return ValidateProto( value, Detail::Forward<Args>( args )... );
@@ -1530,11 +1536,17 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, Detail::Optional, const char* name, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // Only this name may be missing: a name missing inside of a present value is an error
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Deserialize( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return DeserializeProto( value, Detail::Forward<Args>( args )... );
-- 
2.43.0


From d699a62327832d72c3cf8b8db1dbdf28e19564c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 29/33] fix: accept a named member of a type with member
 functions

---
 Code/Json4C4/C4Json.h | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index db77622..71880ad 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -780,23 +780,23 @@ namespace C4
         }
 
         template <class T>
-        Status Validate( const Value* value, const T& /*data*/ ) noexcept
+        Status Validate( const Value* value, [[maybe_unused]] const T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
+            if constexpr ( Detail::HasValidateMember<T>::Value )
+            {
+                return data.Validate( value );
+            }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return valueData ? Status::kOk : Status::kInvalidValueType;
+                return valueData ? Status::kOk : Status::kInvalidValueType;
+            }
         }
 
         template <class T>
         Status Deserialize( const Value* value, T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -806,6 +806,13 @@ namespace C4
                     }
                     else
                     {
+                        const T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         data = *valueData;
                         return Status::kOk;
                     }
@@ -815,13 +822,6 @@ namespace C4
         template <class T>
         Status Serialize( Value* value, const T& data ) noexcept
         {
-            T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -831,6 +831,13 @@ namespace C4
                     }
                     else
                     {
+                        T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         *valueData = data;
 
                         return Status::kOk;
-- 
2.43.0


From 16cee6099cf04207f7663b6a7760046f7844ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:53 +0000
Subject: [PATCH 30/33] fix: do not leak heap storage when moving from a
 shrunken inline Array

---
 Code/Terathon/TSArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 7324b87..c066134 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -396,7 +396,7 @@ namespace Terathon
 	{
 		elementCount = array.elementCount;
 
-		if (elementCount > baseCount)
+		if (array.reservedCount > baseCount)
 		{
 			reservedCount = array.reservedCount;
 			arrayPointer = array.arrayPointer;
-- 
2.43.0


From 728f2042953c5f8a5fe0993af6a3aaec37c30ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:52 +0000
Subject: [PATCH 31/33] fix: write objects whose members were removed, replaced
 or inserted through the map

Removing a member (RemoveMapElement, Detach or delete) left its name in the
insertion order, so that Write failed, or wrote a member twice that was
inserted again. Members inserted by InsertMapElement or
InsertReplaceMapElement were left out of the written text.
---
 Code/Json4C4/C4Json.cpp | 32 ++++++++++++++++++++++++++++----
 Code/Json4C4/C4Json.h   |  8 +++++++-
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index c0fc99e..df995ea 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1667,8 +1667,26 @@ namespace C4
             }
 
             insertionOrder.AppendArrayElement( element->name );
+            element->insertionIndex = insertionOrder.GetArrayElementCount() - 1;
 
-            return this->InsertMapElement( element );
+            return Map<Value>::InsertMapElement( element );
+        }
+
+        bool ObjectValue::InsertMapElement( Value* element )
+        {
+            return this->InsertAccountedMapElement( element );
+        }
+
+        Value* ObjectValue::InsertReplaceMapElement( Value* element )
+        {
+            if ( this->InsertAccountedMapElement( element ) )
+            {
+                return nullptr;
+            }
+
+            element->insertionIndex = this->FindMapElement( element->name )->insertionIndex;
+
+            return Map<Value>::InsertReplaceMapElement( element );
         }
 
         void ObjectValue::RemoveAllMapElements() noexcept
@@ -1878,16 +1896,21 @@ namespace C4
 
             ExpandArray( indentationCharArray, indentationChar, indentationLength );
 
+            bool isFirst = true;
+
             for ( int32 a = 0; a != insertionOrder.GetArrayElementCount(); a++ )
             {
 
                 Value* value = this->FindMapElement( insertionOrder[ a ] );
 
-                if ( !value )
+                if ( !value || value->insertionIndex != a )
                 {
-                    return Status::kMissingObjectElement;
+                    continue; // Removed since, or removed and inserted again later
                 }
 
+                file << ( isFirst ? "" : ",\n" );
+                isFirst = false;
+
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
                 WriteStringLiteral( file, value->name );
@@ -1899,9 +1922,10 @@ namespace C4
                     return status;
                 }
 
-                file << ( a < insertionOrder.GetArrayElementCount() - 1 ? "," : "" ) << '\n';
             }
 
+            file << ( isFirst ? "" : "\n" );
+
             indentationCharArray.SetArrayElementCount( indentationCharArray.GetArrayElementCount() - indentationLength );
 
             file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 71880ad..ebcfc3f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -234,7 +234,11 @@ namespace C4
 
         class Value : public Terathon::MapElement<Value>
         {
+            friend class ObjectValue;
+
         private:
+            int32 insertionIndex = -1; // Place in the insertion order of the owning object
+
             inline virtual String<>* GetStringData() noexcept
             {
                 return nullptr;
@@ -518,7 +522,9 @@ namespace C4
 
             TERATHON_API Value* FindMapElement( const char* name ) const noexcept;
 
-            TERATHON_API bool InsertAccountedMapElement( Value* element );
+            TERATHON_API bool   InsertAccountedMapElement( Value* element );
+            TERATHON_API bool   InsertMapElement( Value* element );
+            TERATHON_API Value* InsertReplaceMapElement( Value* element );
 
             TERATHON_API void RemoveAllMapElements() noexcept;
             TERATHON_API void PurgeMap() noexcept;
-- 
2.43.0


From 77d9881eae33fa2308b320135e9cf6734528776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 32/33] fix: refuse standard strings that hold a null character

---
 Code/Json4C4/C4Json.cpp | 5 +++++
 Code/Json4C4/C4Json.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index df995ea..86e7207 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2182,6 +2182,11 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
+            if ( data.find( '\0' ) != std::string::npos )
+            {
+                return Status::kStringIllegalChar;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ebcfc3f..956aa8a 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1420,6 +1420,11 @@ namespace C4
 
                     for ( const auto& dataMapElement : data )
                     {
+                        if ( dataMapElement.first.find( '\0' ) != std::string::npos )
+                        {
+                            return Status::kStringIllegalChar;
+                        }
+
                         Value* elem     = nullptr;
                         bool   inserted = false;
 
-- 
2.43.0


From 6be5cbd7178f6407e2a69a8b21cdfc754500a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 33/33] fix: Report failed allocation while the file name is
 converted for Windows

---
 Code/Json4C4/C4Json.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 86e7207..24b919a 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1997,9 +1997,11 @@ namespace C4
 
             File file;
 
-            if ( file.OpenFile( fileName, kFileReadOnly ) != kFileOkay )
+            Status status = MayThrow( [ & ]() { return file.OpenFile( fileName, kFileReadOnly ) == kFileOkay ? Status::kOk : Status::KFileOpenError; } );
+
+            if ( status != Status::kOk )
             {
-                return ParseResult { Status::KFileOpenError, 0, 0 };
+                return ParseResult { status, 0, 0 };
             }
 
             Terathon::uint64 fileSize = 0;
@@ -2024,7 +2026,7 @@ namespace C4
 
             Array<char> nullTerminatedText;
 
-            Status status = MayThrow(
+            status = MayThrow(
                 [ & ]()
                 {
                     nullTerminatedText.SetArrayElementCount( fileSize + 1, 0 );
@@ -2079,14 +2081,17 @@ namespace C4
             }
 
             File file;
-            if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
+
+            Status status = MayThrow( [ & ]() { return file.OpenFile( fileName, kFileCreate ) == kFileOkay ? Status::kOk : Status::KFileOpenError; } );
+
+            if ( status != Status::kOk )
             {
-                return Status::KFileOpenError;
+                return status;
             }
 
             Array<char> indentCharArray;
 
-            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
+            status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
 #ifdef C4_ENGINE_MODULE
 
-- 
2.43.0

