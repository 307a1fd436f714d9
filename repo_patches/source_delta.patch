From 34c092eea38046506a2275e214e874972f4821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/74] fix: integer parsing accepted any text after trailing
 white space

---
 DotNetLibrary/src/UInt64Value.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..9e2da49 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -141,7 +141,11 @@ namespace DotnetLibrary
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
 		return (gotNumber);
 	}
-- 
2.43.0


From 03de2d2688307ef2df88f5d0f6cf89092eb81735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 02/74] fix: integer parsing wrapped digit strings longer than
 64 bits

---
 DotNetLibrary/include/UInt64Value.h |  6 ++++--
 DotNetLibrary/src/UInt64Value.cpp   | 27 +++++++++++++++++++--------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..659e476 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -156,18 +156,20 @@ namespace DotnetLibrary
 		 * @param source of text
 		 * @param result of parse
 		 * @param sign sign of value
+		 * @param overflow optional, set to true if the digits do not fit. The result is MaxValue in that case.
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Try parse internal
 		 * @param source of text
 		 * @param sourceLength length of text
 		 * @param result of parse
 		 * @param sign sign of value
+		 * @param overflow optional, set to true if the digits do not fit. The result is MaxValue in that case.
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 9e2da49..c603a26 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -90,9 +90,10 @@ namespace DotnetLibrary
 	UInt64 UInt64Value::Parse(String* stringToParse) {
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -100,22 +101,24 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if (sign < 0 || overflow)
 			goodNumber = false;
 		result = (UInt64) value;
 		return (goodNumber);
 	}
-	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
 		if (source == nullptr)
 			throw new ArgumentNullException();
-		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign));
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign, overflow));
 	}
-	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow) {
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
+		Boolean tooBig = false;
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
@@ -136,7 +139,13 @@ namespace DotnetLibrary
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = *source - L'0';
+			if (result > (MaxValue - digit) / 10) {
+				result = MaxValue;
+				tooBig = true;
+			}
+			if (!tooBig)
+				result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
@@ -147,6 +156,8 @@ namespace DotnetLibrary
 		}
 		if (sourceLength > 0)
 			gotNumber = false;
+		if (overflow != nullptr)
+			*overflow = tooBig;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 5f8a04dd190c14b9b5687b2a7bf35ebe4ee52945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 03/74] fix: signed integer parsing wrapped numbers outside the
 range of the type

---
 DotNetLibrary/src/Int16Value.cpp | 8 ++++----
 DotNetLibrary/src/Int32Value.cpp | 8 ++++----
 DotNetLibrary/src/Int64Value.cpp | 8 ++++++--
 DotNetLibrary/src/SByteValue.cpp | 8 ++++----
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..473199f 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -93,9 +93,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int16) value * sign);
+		return ((Int16) ((Int64) value * sign));
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
@@ -105,9 +105,9 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		result = (Int16) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..8791fcf 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -94,9 +94,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) ((Int64) value * sign));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
@@ -106,9 +106,9 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		result = (Int32) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..b790fdb 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,7 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (value > (UInt64) MaxValue + (sign < 0 ? 1 : 0))
+			throw new OverflowException();
+		return ((Int64) (sign < 0 ? 0 - value : value));
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
@@ -100,7 +102,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		result = (Int64) value * sign;
+		if (value > (UInt64) MaxValue + (sign < 0 ? 1 : 0))
+			goodNumber = false;
+		result = (Int64) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..cceb5d9 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -94,9 +94,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((SByte) value * sign);
+		return ((SByte) ((Int64) value * sign));
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
@@ -106,9 +106,9 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		result = (SByte) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
-- 
2.43.0


From a19aa66d57b705075ce1ec186049ec514b88b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 04/74] fix: unsigned integer parsing accepted negative numbers
 and refused -0

---
 DotNetLibrary/src/ByteValue.cpp   | 4 ++--
 DotNetLibrary/src/UInt16Value.cpp | 6 +++---
 DotNetLibrary/src/UInt32Value.cpp | 6 +++---
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..4949d3d 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -90,7 +90,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return (value);
 	}
@@ -100,7 +100,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (Byte) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..413c0e4 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) value);
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
@@ -102,7 +102,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (UInt16) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..2f13b31 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) value);
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
@@ -102,7 +102,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (UInt32) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index c603a26..1c810b2 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -93,7 +93,7 @@ namespace DotnetLibrary
 		Boolean overflow = false;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (overflow)
+		if ((sign < 0 && value != 0) || overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -104,7 +104,7 @@ namespace DotnetLibrary
 		Boolean overflow = false;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || overflow)
+		if ((sign < 0 && value != 0) || overflow)
 			goodNumber = false;
 		result = (UInt64) value;
 		return (goodNumber);
-- 
2.43.0


From 9d891b9abc85373f0147189b77a44d828f2a4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 05/74] fix: string comparison ignored the second length, nulls
 and ranges and was not an order

---
 DotNetLibrary/include/StringDotNet.h | 10 +++++
 DotNetLibrary/src/StringDotNet.cpp   | 65 +++++++++++++++++-----------
 2 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index 277ae76..e8960c8 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -33,6 +33,16 @@ namespace DotnetLibrary
 		Char* characterData;
 		Int32 length;
 		Boolean allocate;
+		/*!
+		 * Compare characters then lengths
+		 */
+		static Int32 CompareChars(const Char* s1, Int32 length1, const Char* s2, Int32 length2, Boolean ignoreCase,
+		                          Boolean doOrdinal);
+		/*!
+		 * Compare at most length characters of two strings starting at the indexes. Either string can be null.
+		 */
+		static Int32 CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length,
+		                          Boolean ignoreCase, Boolean doOrdinal);
 	public:
 		String(const Char* string);
 		String(const Char* string, Int32 startIndex, Int32 length = -1);
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..ef9c79c 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -108,49 +108,62 @@ namespace DotnetLibrary
 	                      Boolean doOrdinal) {
 		Char* str1 = s1 + s1Index;
 		Char* str2 = s2 + s2Index;
-		Char c1 = 0;
-		Char c2 = 0;
-		while (length > 0) {
-			if (ignoreCase) {
-				c1 = towlower(*str1++);
-				c2 = towlower(*str2++);
+		if (length <= 0)
+			return (0);
+		return (CompareChars(str1, (Int32) wcsnlen(str1, length), str2, (Int32) wcsnlen(str2, length), ignoreCase, doOrdinal));
+	}
+	Int32 String::CompareChars(const Char* s1, Int32 length1, const Char* s2, Int32 length2, Boolean ignoreCase, Boolean doOrdinal) {
+		Int32 length = length1 < length2 ? length1 : length2;
+		Int32 caseDifference = 0;
+		for (Int32 i = 0; i < length; ++i) {
+			Char c1 = s1[i];
+			Char c2 = s2[i];
+			if (c1 == c2)
+				continue;
+			if (!doOrdinal) {
+				// Case only matters if there is no other difference, lower case is before upper case.
+				if (!ignoreCase && caseDifference == 0)
+					caseDifference = CharValue::IsUpper(c1) ? 1 : -1;
+				c1 = towlower(c1);
+				c2 = towlower(c2);
+				if (c1 == c2)
+					continue;
 			}
-			else {
-				c1 = *str1++;
-				c2 = *str2++;
-				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
-				}
-			}
-			if (c1 == L'\0' || c1 != c2)
-				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
-			--length;
+			return (c1 > c2 ? 1 : -1);
 		}
-		return 0;
+		if (length1 != length2)
+			return (length1 > length2 ? 1 : -1);
+		return (caseDifference);
+	}
+	Int32 String::CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length,
+	                           Boolean ignoreCase, Boolean doOrdinal) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1));
+		if (length < 0 || index1 < 0 || index2 < 0 || index1 > s1->length || index2 > s2->length)
+			throw new ArgumentOutOfRangeException();
+		Int32 length1 = Math::Min(length, s1->length - index1);
+		Int32 length2 = Math::Min(length, s2->length - index2);
+		return (CompareChars(s1->characterData + index1, length1, s2->characterData + index2, length2, ignoreCase, doOrdinal));
 	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareRange(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareRange(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return (CompareTo((String*) value));
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From 4908ef975c2076aeeb687a597690a73b0a007a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 06/74] fix: string and builder equality stopped at an embedded
 NUL character

---
 DotNetLibrary/src/StringBuilder.cpp | 4 +++-
 DotNetLibrary/src/StringDotNet.cpp  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..86be9fe 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -327,7 +327,9 @@ namespace DotnetLibrary
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
 		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		if (sb->currentLength != currentLength)
+			return (false);
+		return wmemcmp(sb->chunkChars, chunkChars, currentLength) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ef9c79c..5ce1c1a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -255,7 +255,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return wmemcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length()) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
-- 
2.43.0


From 4e14a4e3a48b4401ce9dda78528ddd229163ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 07/74] fix: string built from the tail of a text read past its
 end

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 5ce1c1a..3ce4fa4 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
 		if (startIndex < 0 || startIndex > wcslen(string))
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string) - startIndex;
 
 		allocate = true;
 		this->length = length;
-- 
2.43.0


From 7c81d5545e95f79dac175a299acd8aff7b562777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 08/74] fix: substring and trim refused to start after an
 embedded NUL character

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 3ce4fa4..71369d6 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -551,7 +551,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -653,7 +653,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From 046ab83168103b7d2a24fb82824e241c7f8e9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 09/74] fix: string built from a null array crashed and bad
 start indexes were ignored

---
 DotNetLibrary/src/StringDotNet.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 71369d6..1f11a46 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -52,18 +52,16 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
-			length = values->get_Length();
-		}
-		if (values == nullptr || length == 0) {
+		if (values == nullptr) {
 			this->length = 0;
 			characterData = new Char[1];
+			characterData[0] = 0;
 			return;
 		}
-		if (startIndex < 0) {
-			startIndex = 0;
+		if (length < 0) {
+			length = values->get_Length();
 		}
-		if (length > values->get_Length() - startIndex) {
+		if (startIndex < 0 || length > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (values->GetElementType() != CharType) {
-- 
2.43.0


From a82f6c4f2894e5ffe729ca20353c215d7b356820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 10/74] fix: string builder could not be created from an empty
 or null string

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 86be9fe..cab691c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
 		currentLength = length;
 	}
-- 
2.43.0


From 4b722b63a8a21bcbcdf553eb86fc3025276a216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 11/74] fix: inserting an empty or null string failed and a
 repeated insert could stop half way

---
 DotNetLibrary/src/StringBuilder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index cab691c..546f6c9 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -398,11 +398,20 @@ namespace DotnetLibrary
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
-		return (Insert(index, value->ToString()));
+		return (Insert(index, value == nullptr ? nullptr : value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		if (count < 0 || index < 0 || index > currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (value == nullptr || value->get_Length() == 0) {
+			return (this);
+		}
+		if (count > (maxCapacity - currentLength) / value->get_Length()) {
+			throw new ArgumentOutOfRangeException();
+		}
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
-- 
2.43.0


From 58795502404a9aa64f99a690191c6fc1622ffc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 12/74] fix: appending a repeated character overflowed the
 builder's buffer

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 546f6c9..880ab96 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
@@ -313,6 +313,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount < 0 || amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From b5480234f48ecdf37d99c916c99d848f49c69a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 13/74] fix: inserting at a negative index appended or wrote
 before the builder's buffer

---
 DotNetLibrary/include/StringBuilder.h |  7 ++++++
 DotNetLibrary/src/StringBuilder.cpp   | 35 +++++++++++++++++----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..2690746 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -36,6 +36,13 @@ namespace DotnetLibrary
 		Int32 currentCapacity;	// total size of the array
 		Int32 currentLength;	// current offset into array for next insert
 		Int32 maxCapacity;		// max capacity for this builder
+		/*!
+		 * Insert value type after checking the index
+		 * @param index where to insert
+		 * @param value to insert
+		 * @return StringBuilder
+		 */
+		StringBuilder* InsertValue(Int32 index, ValueType& value);
 	public:
 		StringBuilder();
 		StringBuilder(Int32 capacity);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 880ab96..6372f3c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -189,7 +189,7 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
@@ -350,19 +350,28 @@ namespace DotnetLibrary
 		chunkChars[currentLength] = 0;
 		return this;
 	}
+	StringBuilder* StringBuilder::InsertValue(Int32 index, ValueType& value) {
+		if (index < 0 || index > currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
+		return (Append(value, index));
+	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
 		BooleanValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
 		ByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
 		CharValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
+		if (index < 0 || index > currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (values == nullptr) {
 			return (this);
 		}
@@ -386,19 +395,19 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
 		DoubleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
 		Int16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
 		Int32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
 		Int64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
 		return (Insert(index, value == nullptr ? nullptr : value->ToString()));
@@ -420,23 +429,23 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
 		SByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
 		SingleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
 		UInt16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
 		UInt32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
 		UInt64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Replace(const Char oldChar, const Char newChar) {
 		return Replace(oldChar, newChar, 0, currentLength);
-- 
2.43.0


From ac0b4ed946cc0b5c1f107161e0b3f580caab078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 14/74] fix: appending a null object or string crashed

---
 DotNetLibrary/src/StringBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6372f3c..8fc2107 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -253,6 +253,9 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -270,6 +273,12 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr) {
+			if (startIndex == 0 && charCount <= 0) {
+				return (this);
+			}
+			throw new ArgumentNullException();
+		}
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
-- 
2.43.0


From 131e63365263be7af1c54956948708b5d5bfd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 15/74] fix: a line append that did not fit left a part of the
 line behind

---
 DotNetLibrary/src/StringBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 8fc2107..9186ba3 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -310,10 +310,15 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
+		EnsureRoomFor(2);
 		Append(L'\r');
 		return (Append(L'\n'));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		Int32 length = value == nullptr ? 0 : value->get_Length();
+		if (length > maxCapacity - currentLength - 2) {
+			throw new ArgumentOutOfRangeException();
+		}
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From 68f7c5b7b1c1ec805c7c67d71065a7f10b1958ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 16/74] fix: removing characters copied between overlapping
 ranges

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9186ba3..80658a8 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -359,7 +359,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From 19239da82c9176de5ccf7a5b835d2ca7908022fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 17/74] fix: extending a builder's length exposed removed
 characters or uninitialised memory

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 80658a8..1c33f15 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -108,6 +108,9 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, (delta + 1) * sizeof(Char));
+		}
 		currentLength = newLength;
 	}
 	Int32 StringBuilder::get_Capacity() {
-- 
2.43.0


From a9970eaf31e03f05cca0f7179b135e1d2bf4fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 18/74] fix: a builder's capacity could be set below its length

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 1c33f15..b32c712 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -123,6 +123,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From c74b7060b2926af6cf6f2c9fd906793dcf55a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 19/74] fix: rounding up a builder's capacity exceeded its
 maximum capacity

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index b32c712..1c8b40b 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -136,9 +136,8 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
+				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
 			newArray = new Char[capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
-- 
2.43.0


From 728318f91cc0a468eff1dfea50273688821a4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 20/74] fix: a builder's heap buffer was not terminated, so
 taking its text read past the end

---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 1c8b40b..f34a763 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -71,6 +71,7 @@ namespace DotnetLibrary
 		set_Capacity(Math::Max(capacity, length));
 		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
+		chunkChars[length] = 0;
 		currentLength = length;
 	}
 	StringBuilder::~StringBuilder() {
@@ -140,6 +141,7 @@ namespace DotnetLibrary
 				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
 			newArray = new Char[capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
+			newArray[currentLength] = 0;
 			if (chunkChars != internalMemory)
 				delete chunkChars;
 		}
-- 
2.43.0


From 50b7557ea5c6145a6e13a0babaae12cb03df81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 21/74] fix: builder text of a negative or overflowing length
 was not rejected and an empty tail was

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index f34a763..2609faf 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -180,9 +180,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From c4e3c946e383fcf63f8d81ff04059f3cc90350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 22/74] fix: concatenating or joining read non-object arrays as
 objects and refused a leading null

---
 DotNetLibrary/src/StringDotNet.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 1f11a46..681e10d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -172,7 +172,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -180,10 +180,9 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	String* String::Concat(Object* o1, Object* o2, Object* o3, Object* o4, Object* o5, Object* o6, Object* o7) {
-		if (nullptr == o1)
-			throw new ArgumentNullException();
 		StringBuilder sb;
-		sb.Append(o1);
+		if (o1 != nullptr)
+			sb.Append(o1);
 		if (o2 != nullptr)
 			sb.Append(o2);
 		if (o3 != nullptr)
@@ -379,7 +378,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
@@ -406,7 +405,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
-- 
2.43.0


From e75c3002ca22daf507aa31c20a9e261fde01d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 23/74] fix: text searches found matches reaching outside the
 range, stopped at NUL, hung on empty or read outside

---
 DotNetLibrary/src/StringBuilder.cpp |  9 +++++++++
 DotNetLibrary/src/StringDotNet.cpp  | 27 +++++++++++++++------------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 2609faf..2b3137d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -157,6 +157,15 @@ namespace DotnetLibrary
 		return (&chunkChars[index1]);
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
+		if (subString == nullptr) {
+			throw new ArgumentNullException();
+		}
+		if (subString->get_Length() == 0) {
+			throw new ArgumentException();
+		}
+		if (startIndex < 0 || length < 0 || startIndex > currentLength - length) {
+			throw new ArgumentOutOfRangeException();
+		}
 		Int32 amount = 0;
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
 		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 681e10d..f159d79 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -198,8 +198,7 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(substring, 0, length) != 0);
+		return (IndexOf(substring) >= 0);
 	}
 	String* String::Copy(String* str) {
 		if (nullptr == str)
@@ -236,8 +235,10 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
+		if (what->length > length) {
+			return false;
+		}
+		return (wmemcmp(characterData + length - what->length, what->characterData, what->length) == 0);
 	}
 	Boolean String::EndsWith(Char what) {
 		int lastPos = get_Length() - 1;
@@ -311,12 +312,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		Int32 endIndex = startIndex + count - value->length;
+		for (Int32 index = startIndex; index <= endIndex; ++index) {
+			if (wmemcmp(characterData + index, value->characterData, value->length) == 0)
+				return (index);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
@@ -526,8 +527,10 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
-		StringBuilder sb(this);
-		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
+		if (what->length > length) {
+			return false;
+		}
+		return (wmemcmp(characterData, what->characterData, what->length) == 0);
 	}
 	String* String::Substring(const Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
-- 
2.43.0


From 7af9e651806b84295ce5463a3a0e71f1e5811d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 24/74] fix: character search did not reject a negative start
 or count

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index f159d79..eac2003 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -286,6 +286,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
-- 
2.43.0


From d3612356e9faf29e4cac07b03463aa8d00ca4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 25/74] fix: backward searches accepted ranges outside the
 string and matches reaching outside the range

---
 DotNetLibrary/include/StringDotNet.h |  4 ++++
 DotNetLibrary/src/StringDotNet.cpp   | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index e8960c8..66afdc4 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -43,6 +43,10 @@ namespace DotnetLibrary
 		 */
 		static Int32 CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length,
 		                          Boolean ignoreCase, Boolean doOrdinal);
+		/*!
+		 * Make sure the count characters ending at the index are inside the string
+		 */
+		void VerifyBackwardRange(Int32 startIndex, Int32 count);
 	public:
 		String(const Char* string);
 		String(const Char* string, Int32 startIndex, Int32 length = -1);
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index eac2003..df7fbcf 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -427,11 +427,16 @@ namespace DotnetLibrary
 		}
 		return (sb.ToString());
 	}
+	void String::VerifyBackwardRange(Int32 startIndex, Int32 count) {
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
+	}
 	Int32 String::LastIndexOf(const Char value, Int32 startIndex, Int32 count) {
 		if (startIndex < 0)
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		VerifyBackwardRange(startIndex, count);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -446,16 +451,13 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		VerifyBackwardRange(startIndex, count);
 		Int32 endIndex = startIndex - count;
-		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+		for (Int32 i = startIndex + 1 - value->length; i > endIndex; --i) {
+			if (wmemcmp(characterData + i, value->characterData, value->length) == 0)
+				return (i);
 		}
-		return -1;
+		return (value->length == 0 ? startIndex + 1 : -1);
 	}
 	Int32 String::LastIndexOfAny(Array* arr, Int32 startIndex, Int32 count) {
 		if (arr == nullptr)
@@ -467,6 +469,7 @@ namespace DotnetLibrary
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
+		VerifyBackwardRange(startIndex, count);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From c33a66c4f4b9236d47630c928a685e14ac336499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 26/74] fix: copying no characters at the end of a string or
 array was refused

---
 DotNetLibrary/src/StringDotNet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index df7fbcf..72a8ed3 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,7 +37,7 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (startIndex < 0 || startIndex > wcslen(string))
+		if (startIndex < 0 || (startIndex > 0 && startIndex > wcslen(string)))
 			throw new ArgumentOutOfRangeException();
 		if (length < 0)
 			length = (Int32) wcslen(string) - startIndex;
@@ -219,6 +219,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From d21b8fd3ca79488f0d22f3667c8342270961d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 27/74] fix: formatting wrote the terminator past a buffer of
 the text's size or left it out

---
 DotNetLibrary/src/CharValue.cpp     | 3 ++-
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..d19247e 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -79,7 +79,8 @@ namespace DotnetLibrary
 	Int32 CharValue::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize < 2)
 			throw new IndexOutOfRangeException();
-		*where = value;
+		where[0] = value;
+		where[1] = 0;
 		return 1;
 	}
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 2b3137d..7b82ab9 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -196,7 +196,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 72a8ed3..8f6b81f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -670,13 +670,15 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (whereSize <= 0)
+			return;
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From aafb3c765b92b315d1ff098d418fd019e3b88682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 28/74] fix: comparing 32 and 64 bit integers gave the wrong
 sign when the difference overflowed

---
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 8791fcf..2659c10 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index b790fdb..05a503a 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 2f13b31..8da46f1 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 1c810b2..a4cbcfa 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From dcd0a318191dcd3c4f1992cd9071ef14fd5c96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 29/74] fix: integer and character equality with null crashed

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 4949d3d..841ae04 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index d19247e..777db53 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 473199f..91ca403 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 2659c10..7d8a7e0 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 05a503a..502c7e7 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index cceb5d9..76be17b 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 413c0e4..fa2046a 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 8da46f1..07a1983 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index a4cbcfa..21d545c 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From dfca9af189450c8a1777c1c6fda6fb147cdc7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 30/74] fix: largest and smallest double constants were not the
 limits of the type

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..81faad0 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = DBL_MAX;
+	DLL_EXPORT Double DoubleValue::MinValue = -DBL_MAX;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From c1adc1fd6a2e2b2f13dd36c1f72102a2157270a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 31/74] fix: floating parsing accepted any text, crashed on
 null and returned undefined values

---
 DotNetLibrary/include/DoubleValue.h |  7 ++++
 DotNetLibrary/src/DoubleValue.cpp   | 55 ++++++++++++++++++++++-------
 DotNetLibrary/src/SingleValue.cpp   | 19 ++++------
 3 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/DotNetLibrary/include/DoubleValue.h b/DotNetLibrary/include/DoubleValue.h
index dafe94e..d982cd7 100644
--- a/DotNetLibrary/include/DoubleValue.h
+++ b/DotNetLibrary/include/DoubleValue.h
@@ -184,6 +184,13 @@ namespace DotnetLibrary
 		 * @return true if good parse
 		 */
 		static Boolean TryParseInternal(String* source, Double& result);
+		/*!
+		 * Is the whole text a number, apart from surrounding white space
+		 * @param source of characters
+		 * @param sourceLength length of characters
+		 * @return true if it is
+		 */
+		static Boolean IsNumberText(const Char* source, Int32 sourceLength);
 		/*!
 		 * Try parse value from string
 		 * @param source of characters
diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 81faad0..f369be7 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,12 +137,14 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -154,18 +156,47 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result));
 	}
-	Boolean DoubleValue::TryParseInternal(Char* source, Int32 sourceLength, Double& result) {
-		result = 0;
-		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
-			if (!CharValue::IsWhiteSpace(*source))
-				break;
-			++source;
+	Boolean DoubleValue::IsNumberText(const Char* source, Int32 sourceLength) {
+		static const Char* const words[] = { L"nan", L"inf", L"infinity" };
+		Int32 index = 0;
+		while (index < sourceLength && CharValue::IsWhiteSpace(source[index]))
+			++index;
+		while (sourceLength > index && CharValue::IsWhiteSpace(source[sourceLength - 1]))
 			--sourceLength;
+		if (index < sourceLength && (source[index] == L'+' || source[index] == L'-'))
+			++index;
+		for (const Char* word : words) {
+			Int32 matched = 0;
+			while (word[matched] != 0 && index + matched < sourceLength && CharValue::ToLower(source[index + matched]) == word[matched])
+				++matched;
+			if (word[matched] == 0 && index + matched == sourceLength)
+				return (true);
 		}
-		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
-		return (gotNumber);
+		Int32 digits = 0;
+		for (; index < sourceLength && CharValue::IsDigit(source[index]); ++index)
+			++digits;
+		if (index < sourceLength && source[index] == L'.') {
+			for (++index; index < sourceLength && CharValue::IsDigit(source[index]); ++index)
+				++digits;
+		}
+		if (digits == 0)
+			return (false);
+		if (index < sourceLength && (source[index] == L'e' || source[index] == L'E')) {
+			++index;
+			if (index < sourceLength && (source[index] == L'+' || source[index] == L'-'))
+				++index;
+			if (index == sourceLength)
+				return (false);
+			while (index < sourceLength && CharValue::IsDigit(source[index]))
+				++index;
+		}
+		return (index == sourceLength);
+	}
+	Boolean DoubleValue::TryParseInternal(Char* source, Int32 sourceLength, Double& result) {
+		result = 0;
+		if (!IsNumberText(source, sourceLength))
+			return (false);
+		result = wcstod(source, nullptr);
+		return (true);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..9344a72 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,12 +144,14 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -163,17 +165,10 @@ namespace DotnetLibrary
 	}
 	Boolean SingleValue::TryParseInternal(Char* source, Int32 sourceLength, Single& result) {
 		result = 0;
-		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
-			if (!CharValue::IsWhiteSpace(*source))
-				break;
-			++source;
-			--sourceLength;
-		}
-		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
-		return (gotNumber);
+		if (!DoubleValue::IsNumberText(source, sourceLength))
+			return (false);
+		result = wcstof(source, nullptr);
+		return (true);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
 		union
-- 
2.43.0


From 8f77900531d97e28069235ad2ebdd6c052186706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 32/74] fix: PI and E were cut to fifteen digits

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..cf85ff6 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -19,8 +19,8 @@
 #include <math.h>
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double Math::PI = 3.14159265358979;
-	DLL_EXPORT Double Math::E = 2.71828182845905;
+	DLL_EXPORT Double Math::PI = 3.14159265358979323846;
+	DLL_EXPORT Double Math::E = 2.71828182845904523536;
 	const UInt64 ExponentMask = 0x7FF0000000000000;
 	const Int32 ExponentShift = 52;
 	const Int32 ShiftedExponentMask = (Int32) (ExponentMask >> ExponentShift);
-- 
2.43.0


From 5a806f86690fe5a1ab29da253b2601512ff1dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 33/74] fix: magnitude of integers lost digits and did not
 report the smallest value

---
 DotNetLibrary/include/DotNetMath.h |  8 ++++----
 DotNetLibrary/src/DotNetMath.cpp   | 30 +++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index 7a68592..cdccdea 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -48,25 +48,25 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int16 v1);
+		static Int16 Abs(Int16 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int32 v1);
+		static Int32 Abs(Int32 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int64 v1);
+		static Int64 Abs(Int64 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(SByte v1);
+		static SByte Abs(SByte v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index cf85ff6..dfdf125 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -33,17 +33,25 @@ namespace DotnetLibrary
 	Double Math::Abs(Double v1) {
 		return fabs(v1);
 	}
-	Double Math::Abs(Int16 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int32 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int64 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(SByte v1) {
-		return abs(v1);
+	Int16 Math::Abs(Int16 v1) {
+		if (v1 == Int16Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int32 Math::Abs(Int32 v1) {
+		if (v1 == Int32Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int64 Math::Abs(Int64 v1) {
+		if (v1 == Int64Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	SByte Math::Abs(SByte v1) {
+		if (v1 == SByteValue::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
 	Double Math::Abs(Single v1) {
 		return fabs(v1);
-- 
2.43.0


From 25333d297c7f3e93e4bf9f7670f5de184335ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 34/74] fix: dividing a negative or undefined double by zero
 gave positive infinity

---
 DotNetLibrary/src/DotNetMath.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index dfdf125..2c3ee47 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -267,11 +267,6 @@ namespace DotnetLibrary
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
-		if (v2 == 0) {
-			if (v1 == 0)
-				return (DoubleValue::NaN);
-			return (DoubleValue::PositiveInfinity);
-		}
 		return v1 / v2;
 	}
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
-- 
2.43.0


From a2edd433d8225ce7ab81f38266295eae9788afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 35/74] fix: integer quotients were cut to 32 bits and an
 unrepresentable one crashed

---
 DotNetLibrary/src/DotNetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 2c3ee47..72b3a6a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -264,6 +264,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v1 == Int64Value::MinValue && v2 == -1)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -272,6 +274,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (a == Int32Value::MinValue && b == -1)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -279,7 +283,9 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		if (a == Int64Value::MinValue && b == -1)
+			throw new OverflowException();
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 7668df519ee81e1de87624299f9aaff3dc5817c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 36/74] fix: exponent of zero, infinity and NaN was undefined

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 72b3a6a..541b57e 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -308,7 +308,7 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		return DoubleValue::IsNaN(x) ? Int32Value::MaxValue : ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From b8fbce917f61f9d69ea91090ffce2cce481882ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 37/74] fix: fused multiply-add rounded twice

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 541b57e..df19587 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -302,7 +302,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From 9c6b3c8a3aecfad7132d7627a4c9ef761dfcc027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 38/74] fix: characters from 0x8000 up did not come back from
 their bytes

---
 DotNetLibrary/src/BitConverter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..63e87bd 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
-		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		UInt16 ret;
+		// treat Char as UInt16 because on some systems Char is 4 bytes but .Net isn't
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 9ec7359b6adba3155c0b6aadb7fdad34df8ea1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 39/74] fix: block copy refused to copy nothing between empty
 arrays and overflowed its range check

---
 DotNetLibrary/src/Buffer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..abeb199 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -36,10 +36,12 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			throw new ArgumentOutOfRangeException();
-		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
-		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		Int32 sourceLength = ByteLength(src);
+		Int32 destinationLength = ByteLength(dst);
+		if ((count > sourceLength - srcOffset) || (count > destinationLength - dstOffset))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From 04bdd78a54855fb881919891ee7afdc795e9b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 40/74] fix: byte access to a buffer at a negative index
 touched memory before it

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index abeb199..4b31adf 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -59,13 +59,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From 5a4a9f3138c7e5c96f612d520e7238b029037311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 41/74] fix: destroying an array released the platform memory
 it wraps

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..fa9614e 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		Boolean ownsData;				// is the data storage allocated by this array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..b80d6ce 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
@@ -65,7 +67,7 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
+		if (ownsData && data != nullptr)
 			delete data;
 		data = nullptr;
 	}
-- 
2.43.0


From 244a1de8553a5d3be85d5a863fa704a12f61d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 42/74] fix: negative or overflowing array dimensions were
 accepted

---
 DotNetLibrary/src/Array.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index b80d6ce..5b04621 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -56,15 +56,25 @@ namespace DotnetLibrary
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1) {
+			throw new ArgumentOutOfRangeException();
+		}
+		Int64 total = dimension1Size;
 		if (dimension2Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
+			total *= dimension2Size;
+		}
+		if (total > Int32Value::MaxValue) {
+			throw new OverflowException();
 		}
 		if (dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
+			total *= dimension3Size;
+		}
+		if (total > Int32Value::MaxValue || total * DataTypeSize[dataType] > Int32Value::MaxValue) {
+			throw new OverflowException();
 		}
+		totalElementCount = (Int32) total;
 	}
 	Array::~Array() {
 		if (ownsData && data != nullptr)
-- 
2.43.0


From 79d994d2218e7c615f473f78edbb8ac4c66e93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 43/74] fix: clearing elements outside an array was not
 rejected

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 5b04621..6470874 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -350,13 +350,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
+		if (amountOfElements > array->dimension1Size - startingIndex)
+			throw new ArgumentOutOfRangeException();
 	}
 }
-- 
2.43.0


From 5e74b06f6722ed6dc136c5f2ebe9e68e34f6daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 44/74] fix: array copy overflowed its range check and copied
 overlapping ranges wrongly

---
 DotNetLibrary/src/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 6470874..cf07a49 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (length > sourceArray->totalElementCount - sourceIndex || length > destinationArray->totalElementCount - destinationIndex)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
@@ -115,7 +115,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From c40aaf74881e852c10d3dc6be7fb664780f3aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 45/74] fix: rank queries outside the array were answered

---
 DotNetLibrary/src/Array.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index cf07a49..b1213f5 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -122,7 +122,7 @@ namespace DotnetLibrary
 			throw new ArgumentNullException;
 		array->EnsureSingleDimension();
 		VerifyIndexWithinRangeOfArray(array, index, get_Length());
-		Copy(this, 0, array, index, dimension1Size);
+		Copy(this, 0, array, index, get_Length());
 	}
 	Int32 Array::ComputeIndex(Int32 index1, Int32 index2, Int32 index3) {
 		Int32 index = 0;
@@ -157,7 +157,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -168,12 +168,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From 96d5668cc0b3cfd31fd9dd2281239b87a519c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 46/74] fix: element access by index array ignored the number
 and type of the indexes

---
 DotNetLibrary/src/Array.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index b1213f5..b640a42 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -182,10 +182,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
 		Int32 arraySize = indexes->dimension1Size;
-		if (arraySize > 3)
-			throw new NotImplementedException();
-		if (arraySize == 0)
-			return (nullptr);
+		if (arraySize != dimensionCount || indexes->GetElementType() != Int32Type)
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
@@ -339,10 +337,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
 		Int32 arraySize = indexes->dimension1Size;
-		if (arraySize > 3)
-			throw new NotImplementedException();
-		if (arraySize == 0)
-			return;
+		if (arraySize != dimensionCount || indexes->GetElementType() != Int32Type)
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
-- 
2.43.0


From 6c17b56e94e8028ebff034c416b97a855ce1ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 47/74] fix: storing a boxed value in an array truncated it or
 accepted another type, and null was refused

---
 DotNetLibrary/include/Array.h |  6 ++++++
 DotNetLibrary/src/Array.cpp   | 40 ++++++++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index fa9614e..1066fcc 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -43,6 +43,12 @@ namespace DotnetLibrary
 		 * @return index into 1d array
 		 */
 		Int32 ComputeIndex(Int32 index1, Int32 index2 = -1, Int32 index3 = -1);
+		/*!
+		 * Can a boxed value of this type be stored as an element
+		 * @param valueType type of the boxed value
+		 * @return true if it can
+		 */
+		Boolean CanStore(DataType valueType);
 		/*!
 		 * Make sure range of indexes fits in the 1d array.
 		 * @param array to check
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index b640a42..3d4416e 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -273,10 +273,44 @@ namespace DotnetLibrary
 		memcpy(data, initialData, amountToCopy);
 		return (this);
 	}
+	Boolean Array::CanStore(DataType valueType) {
+		if (valueType == dataType || dataType == ObjectType)
+			return (true);
+		// Otherwise only numbers that every value of the other type converts to without loss of range
+		switch (valueType)
+			{
+			case ByteType:
+				return (dataType != SByteType && dataType >= CharType && dataType <= DoubleType);
+			case SByteType:
+				return (dataType == Int16Type || dataType == Int32Type || dataType == Int64Type || dataType == SingleType || dataType == DoubleType);
+			case Int16Type:
+				return (dataType == Int32Type || dataType == Int64Type || dataType == SingleType || dataType == DoubleType);
+			case CharType:
+			case UInt16Type:
+				return (dataType == CharType || (dataType >= UInt16Type && dataType <= DoubleType));
+			case Int32Type:
+				return (dataType == Int64Type || dataType == SingleType || dataType == DoubleType);
+			case UInt32Type:
+				return (dataType >= Int64Type && dataType <= DoubleType);
+			case Int64Type:
+			case UInt64Type:
+				return (dataType == SingleType || dataType == DoubleType);
+			case SingleType:
+				return (dataType == DoubleType);
+			default:
+				return (false);
+			}
+	}
 	void Array::SetValue(Object* value, Int32 index1, Int32 index2, Int32 index3) {
-		if (value == nullptr)
-			throw new ArgumentNullException();
 		void* addr = Address(index1, index2, index3);
+		if (value == nullptr) {
+			if (IsPrimitiveType(dataType))
+				throw new ArgumentNullException();
+			*((Object**) addr) = nullptr;
+			return;
+		}
+		if (!CanStore(value->GetRawDataType()))
+			throw new InvalidCastException();
 		switch (dataType)
 			{
 			case ObjectType:
@@ -313,7 +347,7 @@ namespace DotnetLibrary
 				*((Int64*) addr) = value->get_AsInt64();
 				break;
 			case UInt64Type:
-				*((UInt64*) addr) = value->get_AsInt64();
+				*((UInt64*) addr) = value->get_AsUInt64();
 				break;
 			case SingleType:
 				*((Single*) addr) = value->get_AsSingle();
-- 
2.43.0


From ba78c2948eee349c6405cfeb67070f5e6f1c286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 48/74] fix: a DateTime with 1000 milliseconds is rejected

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..e815622 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= MillisPerSecond)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
-- 
2.43.0


From 8b093ed78c357d1a1202031df8845b6c740159d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 49/74] fix: a DateTime with a negative hour is rejected
 instead of becoming midnight

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index e815622..d8c4d0f 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 699d28a2323d1b188017b175959b94c5e1f4f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 50/74] fix: adding NaN days to milliseconds to a DateTime is
 rejected

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index d8c4d0f..ecf2fd4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		if (!(millis_double > (Double) -MaxMillis && millis_double < (Double) MaxMillis))
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 512521fb8c830128c4e9360e87310509eab4d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 51/74] fix: DateTime text shows the noon hour as PM

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index ecf2fd4..99d53a5 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -271,9 +271,10 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12) {
 			isPm = true;
+			if (hour > 12)
+				hour -= 12;
 		}
 		Char dateTime[128];
 #ifdef __MINGW32__
-- 
2.43.0


From 4daf6589ab21131c973501e82745016f7ffb2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 52/74] fix: DateTime formatting uses the size of its own
 buffer, not the caller's

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 99d53a5..e2c440b 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -280,7 +280,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From 8b75195551c3b4af1d4fe409dbb732b907d24158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 53/74] fix: the time zone offset includes minutes and the
 change of day

---
 DotNetLibrary/src/DateTimeValue.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index e2c440b..ee6a206 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -311,11 +311,14 @@ namespace DotnetLibrary
 		tzset();
 #endif
 		time_t rawTime = time(nullptr);
-		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
-		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
+		// gmtime and localtime share their result, so keep copies
+		struct tm utcInfo = *gmtime(&rawTime);
+		struct tm localInfo = *localtime(&rawTime);
+		Int32 days = localInfo.tm_yday - utcInfo.tm_yday;
+		if (localInfo.tm_year != utcInfo.tm_year)
+			days = localInfo.tm_year > utcInfo.tm_year ? 1 : -1;
+		TimeSpan ts = TimeSpan(days, localInfo.tm_hour - utcInfo.tm_hour, localInfo.tm_min - utcInfo.tm_min,
+			localInfo.tm_sec - utcInfo.tm_sec);
 		return ts;
 	}
 
-- 
2.43.0


From f1d9bbf48e60a922b7fb51969c6ad5fe4690fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 54/74] fix: time zone conversions stop at the ends of the
 DateTime range unless told to throw

---
 DotNetLibrary/src/DateTimeValue.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index ee6a206..c88b74f 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -324,13 +324,20 @@ namespace DotnetLibrary
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
 		TimeSpan ts = GetTimeZone();
-		DateTime rtn = Add(ts);
-		return (rtn.value);
+		Int64 ticks = (Int64) value.value + ts.value;
+		if (ticks < MinTicks || ticks > MaxTicks) {
+			if (throwOnOverflow)
+				throw new ArgumentException();
+			return (ticks < MinTicks ? MinValue : MaxValue);
+		}
+		return DateTime((UInt64) ticks);
 	}
 	DateTime DateTimeValue::ToUniversalTime() {
 		TimeSpan ts = GetTimeZone();
-		DateTime rtn = Subtract(ts);
-		return (rtn.value);
+		Int64 ticks = (Int64) value.value - ts.value;
+		if (ticks < MinTicks || ticks > MaxTicks)
+			return (ticks < MinTicks ? MinValue : MaxValue);
+		return DateTime((UInt64) ticks);
 	}
 	DateTime DateTimeValue::get_Now() {
 #ifdef	WIN32
-- 
2.43.0


From e4d68af0b152553742592648b8ad548a6a861b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 55/74] fix: TimeSpan MaxValue and MinValue are the ends of the
 signed range

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..2f7410c 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(Int64Value::MaxValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(Int64Value::MinValue);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From 04bb452ac84446a62dc60cd9d1399bdaa77aa5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 56/74] fix: TimeSpan subtraction detects overflow

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 2f7410c..a54ffd7 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -242,7 +242,7 @@ namespace DotnetLibrary
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
 		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From 0176030bdba94f559de638e749bcde809bdd371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 57/74] fix: TimeSpan fraction is padded with leading zeros

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index a54ffd7..59ea707 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -185,8 +185,8 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From 7254a2730d18a34a3e6389e8e32da5ad1f62a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 58/74] fix: TimeSpan built from a double never wraps at the
 end of the range or for NaN

---
 DotNetLibrary/src/TimeSpanValue.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 59ea707..bc52d15 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -37,6 +37,14 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		return totalSeconds * TicksPerSecond;
 	}
+	// Converts only what fits; the maximum itself is not a double, the value above it means the maximum.
+	static TimeSpan DoubleToTicks(Double ticks) {
+		if (ticks > (Double) Int64Value::MaxValue || ticks < (Double) Int64Value::MinValue || DoubleValue::IsNaN(ticks))
+			throw new OverflowException();
+		if (ticks == (Double) Int64Value::MaxValue)
+			return TimeSpan(Int64Value::MaxValue);
+		return TimeSpan((Int64) ticks);
+	}
 	TimeSpan::TimeSpan(Int32 hours, Int32 minutes, Int32 seconds) {
 		value = TimeToTicks(hours, minutes, seconds);
 	}
@@ -129,10 +137,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
-			throw new OverflowException();
-		}
-		return FromTicks((Int64) ticks);
+		return DoubleToTicks(ticks);
 	}
 	TimeSpan TimeSpanValue::Duration() {
 		if (value.value == TimeSpanValue::MinValue.value)
@@ -212,19 +217,14 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
-			throw new OverflowException();
-		return (Int64) ticks;
+		return DoubleToTicks(ticks);
 	}
 	TimeSpan TimeSpanValue::Multiply(Double factor) {
 		if (DoubleValue::IsNaN(factor)) {
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
-			throw new OverflowException();
-		}
-		return FromTicks((Int64) ticks);
+		return DoubleToTicks(ticks);
 	}
 	TimeSpan TimeSpanValue::Negate() {
 		if (value.value == TimeSpanValue::MinValue.value)
-- 
2.43.0


From 2a6ffed6d92a32f9d7411c9b32953746e0df1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 59/74] fix: allocation of any size is refused safely when the
 memory is used up

---
 PlatformSupport/PlatformSupport.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..ac69f79 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,12 +35,16 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
+	// compare before rounding up so that no size can wrap around
+	if (size > memorySize - memoryUsed)
+		return(nullptr);
 	uint32_t required = (uint32_t)size;
 	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	if (required > memorySize - memoryUsed)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From 5834bd2dc0084ba47e728881e2e60a79ad706c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 60/74] fix: daylight saving test does not depend on
 uninitialised data

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index c88b74f..9afaf9f 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -246,7 +246,8 @@ namespace DotnetLibrary
 	}
 	Boolean DateTimeValue::IsDaylightSavingTime() {
 		time_t rawtime;
-		struct tm timeinfo;
+		struct tm timeinfo = {};
+		timeinfo.tm_isdst = -1;
 		timeinfo.tm_hour = get_Hour();
 		timeinfo.tm_mday = get_Day();
 		timeinfo.tm_min = get_Minute();
@@ -254,7 +255,7 @@ namespace DotnetLibrary
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 45bd95974d6d4ea2c02de7d6eb26f20ed4581791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 61/74] fix: TimeSpan parsing accepts only the documented texts
 and reads them exactly

---
 DotNetLibrary/src/TimeSpanValue.cpp | 102 ++++++++++++++++------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index bc52d15..3589999 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -246,59 +246,77 @@ namespace DotnetLibrary
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
+	// Reads up to maxDigits decimal digits; false when there is none.
+	static Boolean ScanDigits(const Char*& chars, const Char* end, Int32 maxDigits, Int64& number, Int32& digits) {
+		number = 0;
+		for (digits = 0; chars < end && *chars >= L'0' && *chars <= L'9'; ++digits, ++chars) {
+			if (digits == maxDigits)
+				return false;
+			number = number * 10 + (*chars - L'0');
+		}
+		return digits != 0;
+	}
+	// [white space][-]{days | [days{.|:}]hours:minutes[:seconds[.fraction]]}[white space]
 	Boolean TimeSpanValue::TryParse(String* s, TimeSpan& result) {
+		const Int32 maxDigits = 8;
 		Int64 numbers[] = { 0, 0, 0, 0 };
 		Int32 amount = 0;
 		Int64 fractional = 0;
-		Char* chars = s->get_Buffer();
-		Int32 length = s->get_Length();
-		Int32 sign;
 		Boolean negate = false;
-		if (*chars == L'-') {
+		Boolean haveDays = false;
+		Int32 digits;
+		result = TimeSpan(0);
+		if (s == nullptr)
+			return false;
+		const Char* chars = s->get_Buffer();
+		const Char* end = chars + s->get_Length();
+		while (chars < end && CharValue::IsWhiteSpace(*chars))
+			++chars;
+		while (end > chars && CharValue::IsWhiteSpace(end[-1]))
+			--end;
+		if (chars < end && *chars == L'-') {
 			negate = true;
 			++chars;
-			--length;
 		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
+		while (true) {
+			if (!ScanDigits(chars, end, maxDigits, numbers[amount++], digits))
+				return false;
+			if (chars == end)
 				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
-				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
-		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
-			++chars;
-			--length;
+			Char separator = *chars++;
+			if (separator == L':' && amount < 4)
+				continue;
+			if (separator != L'.')
+				return false;
+			if (amount == 1) {
+				haveDays = true;
+				continue;
+			}
+			if (amount < (haveDays ? 4 : 3))
+				return false;
+			if (!ScanDigits(chars, end, 7, fractional, digits) || chars != end)
+				return false;
+			for (; digits < 7; ++digits)
+				fractional *= 10;
+			break;
 		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
+		if (haveDays && amount < 3)
+			return false;
 		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
+		Int32 index = 0;
+		if (haveDays || amount == 4 || amount == 1)
+			days = numbers[index++];
+		Int64 hours = index < amount ? numbers[index++] : 0;
+		Int64 minutes = index < amount ? numbers[index++] : 0;
+		Int64 seconds = index < amount ? numbers[index++] : 0;
+		if (days > Int64Value::MaxValue / TicksPerDay || hours > 23 || minutes > 59 || seconds > 59)
+			return false;
+		UInt64 ticks = (UInt64) fractional + (UInt64) days * TicksPerDay + hours * TicksPerHour + minutes * TicksPerMinute
+			+ seconds * TicksPerSecond;
+		UInt64 limit = (UInt64) Int64Value::MaxValue + (negate ? 1 : 0);
+		if (ticks > limit)
+			return false;
+		result = TimeSpan((Int64) (negate ? 0 - ticks : ticks));
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From 90b7d0b0c592f4b039196cf0cbe31beb9b347bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 62/74] fix: symbol characters are not punctuation

---
 DotNetLibrary/src/CharValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 777db53..a176522 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -17,6 +17,7 @@
 // DEALINGS IN THE SOFTWARE.
 #include "DotnetTypes.h"
 #include <wctype.h>
+#include <wchar.h>
 
 namespace DotnetLibrary
 {
@@ -152,7 +153,8 @@ namespace DotnetLibrary
 		return IsDigit(v, index);
 	}
 	Boolean CharValue::IsPunctuation(Char v) {
-		return (iswpunct(v));
+		// .Net counts these as symbols, not as punctuation
+		return (iswpunct(v) && (v == 0 || wcschr(L"$+<=>^`|~", v) == nullptr));
 	}
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From 0408c436f60cbc96783c323374436967cfbd2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 63/74] fix: control characters such as tab are not separators

---
 DotNetLibrary/src/CharValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index a176522..c8fe095 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -164,7 +164,7 @@ namespace DotnetLibrary
 		return (IsPunctuation(v->get_Chars(index)));
 	}
 	Boolean CharValue::IsSeparator(Char v) {
-		return IsWhiteSpace(v);
+		return IsWhiteSpace(v) && !IsControl(v);
 	}
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From ed64c4ffbbb4d72a2f4ee6399a6c8a5e21f4971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 64/74] fix: joining from a start outside the array returned an
 empty text

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8f6b81f..e959e7d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -385,7 +385,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -412,7 +412,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 86ed754354a1a2f03fe534eaa4cdfcd61e0f9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 65/74] fix: joining a range outside an empty array returned an
 empty text

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e959e7d..200e7a7 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -379,7 +379,7 @@ namespace DotnetLibrary
 		if (values == nullptr) {
 			throw new ArgumentNullException();
 		}
-		if (values->get_Length() == 0) {
+		if (values->get_Length() == 0 && startIndex == 0 && count <= 0) {
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
@@ -406,7 +406,7 @@ namespace DotnetLibrary
 		if (values == nullptr) {
 			throw new ArgumentNullException();
 		}
-		if (values->get_Length() == 0) {
+		if (values->get_Length() == 0 && startIndex == 0 && count <= 0) {
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-- 
2.43.0


From dc8c08ed691c0b72a6975e46d335a0016e8238db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 66/74] fix: appending or inserting no characters from outside
 an array was not rejected

---
 DotNetLibrary/src/StringBuilder.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 7b82ab9..d752344 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -227,9 +227,6 @@ namespace DotnetLibrary
 		if (charCount < 0) {
 			charCount = values->get_Length();
 		}
-		if (charCount == 0) {
-			return (this);
-		}
 		if (charCount > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -237,6 +234,9 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		values->EnsureSingleDimension();
+		if (charCount == 0) {
+			return (this);
+		}
 		return (Append((Char*) values->Address(startIndex), charCount, currentLength));
 	}
 	StringBuilder* StringBuilder::Append(ValueType& value, Int32 index) {
@@ -411,9 +411,6 @@ namespace DotnetLibrary
 		if (charCount < 0) {
 			charCount = values->get_Length();
 		}
-		if (charCount == 0) {
-			return (this);
-		}
 		if (charCount > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -421,6 +418,9 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		values->EnsureSingleDimension();
+		if (charCount == 0) {
+			return (this);
+		}
 		return (Append((Char*) values->Address(startIndex), charCount, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
-- 
2.43.0


From a5d55ea33484ecdc3eb35e3fb70a32f9f282b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 67/74] fix: hexadecimal text of more bytes than an empty array
 has was not rejected

---
 DotNetLibrary/src/BitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 63e87bd..185465a 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -140,7 +140,7 @@ namespace DotnetLibrary
 			length = value->get_Length() - startIndex;
 		if (startIndex < 0 || startIndex >= value->get_Length()) {
 			// special (but valid) case (e.g. new byte [0])
-			if ((startIndex == 0) && (value->get_Length() == 0))
+			if ((startIndex == 0) && (value->get_Length() == 0) && (length == 0))
 				return String::Empty;
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From db93fd446d57450bf40b1435f34719165602b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 68/74] fix: an exception without a message no longer crashes
 the run that reports it

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..1b83539 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -26,7 +26,8 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	// a null string prints an empty line, as the .Net Console does
+	printf("%ls\n", message != nullptr ? message->get_Buffer() : L"");
 }
 
 /*!
-- 
2.43.0


From 3e555dca408ae4b6b16285333c09e9cd317051aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 69/74] fix: an array with a third dimension but no second one
 is refused, as its elements can not be addressed

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 3d4416e..e33496b 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -56,7 +56,7 @@ namespace DotnetLibrary
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1) {
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1 || (dimension2Size == -1 && dimension3Size != -1)) {
 			throw new ArgumentOutOfRangeException();
 		}
 		Int64 total = dimension1Size;
-- 
2.43.0


From d5aad39288a8c0b4343b77edfa54f53afb8f874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 70/74] fix: GetBaseException gives the innermost exception, as
 in .Net

---
 DotNetLibrary/include/Exception.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..27c84a6 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -70,10 +70,13 @@ namespace DotnetLibrary
 		}
 		/*!
 		 * get base exception
-		 * @return base exception
+		 * @return innermost exception, which is this one if there is no inner exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr)
+				base = base->innerException;
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From c7b3838827de0bfb83a576a3ae116684a813d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 71/74] fix: specific argument and arithmetic exceptions can be
 caught by their general type

---
 DotNetLibrary/include/Exception.h | 52 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 27c84a6..fdcfdb1 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -96,39 +96,42 @@ namespace DotnetLibrary
 		}
 	};
 	/*!
-	 * Null argument exception
+	 * Bad Argument
 	 */
-	struct DLL_EXPORT ArgumentNullException: public Exception
+	struct DLL_EXPORT ArgumentException: public Exception
 	{
 	public:
-		ArgumentNullException() : Exception(new String(L"Arguement is null")) {
+		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		}
+	protected:
+		ArgumentException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * rank exception
+	 * Null argument exception
 	 */
-	struct DLL_EXPORT RankException: public Exception
+	struct DLL_EXPORT ArgumentNullException: public ArgumentException
 	{
 	public:
-		RankException() : Exception(new String(L"Rank exception")) {
+		ArgumentNullException() : ArgumentException(new String(L"Arguement is null")) {
 		}
 	};
 	/*!
-	 * Argument out of range
+	 * rank exception
 	 */
-	struct DLL_EXPORT ArgumentOutOfRangeException: public Exception
+	struct DLL_EXPORT RankException: public Exception
 	{
 	public:
-		ArgumentOutOfRangeException() : Exception(new String(L"Arguement out of range")) {
+		RankException() : Exception(new String(L"Rank exception")) {
 		}
 	};
 	/*!
-	 * Bad Argument
+	 * Argument out of range
 	 */
-	struct DLL_EXPORT ArgumentException: public Exception
+	struct DLL_EXPORT ArgumentOutOfRangeException: public ArgumentException
 	{
 	public:
-		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		ArgumentOutOfRangeException() : ArgumentException(new String(L"Arguement out of range")) {
 		}
 	};
 	/*!
@@ -168,39 +171,42 @@ namespace DotnetLibrary
 		}
 	};
 	/*!
-	 * Overflow
+	 * Arithmetic exception
 	 */
-	struct DLL_EXPORT OverflowException: public Exception
+	struct DLL_EXPORT ArithmeticException: public Exception
 	{
 	public:
-		OverflowException() : Exception(new String(L"Overflow")) {
+		ArithmeticException() : Exception(new String(L"Overflow")) {
+		}
+	protected:
+		ArithmeticException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * Max min exception
+	 * Overflow
 	 */
-	struct DLL_EXPORT ThrowMinMaxException: public Exception
+	struct DLL_EXPORT OverflowException: public ArithmeticException
 	{
 	public:
-		ThrowMinMaxException() : Exception(new String(L"Overflow")) {
+		OverflowException() : ArithmeticException(new String(L"Overflow")) {
 		}
 	};
 	/*!
-	 * Arithmetic exception
+	 * Max min exception
 	 */
-	struct DLL_EXPORT ArithmeticException: public Exception
+	struct DLL_EXPORT ThrowMinMaxException: public ArgumentException
 	{
 	public:
-		ArithmeticException() : Exception(new String(L"Overflow")) {
+		ThrowMinMaxException() : ArgumentException(new String(L"Overflow")) {
 		}
 	};
 	/*!
 	 * Divide by Zero
 	 */
-	struct DLL_EXPORT DivideByZeroException: public Exception
+	struct DLL_EXPORT DivideByZeroException: public ArithmeticException
 	{
 	public:
-		DivideByZeroException() : Exception(new String(L"Divide by Zero")) {
+		DivideByZeroException() : ArithmeticException(new String(L"Divide by Zero")) {
 		}
 	};
 }
-- 
2.43.0


From 95263840c93ca2ed8e829f238ec6fe7e26a1cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 72/74] fix: reject a Replace whose growth does not fit in 32
 bits

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d752344..4a33fee 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -522,6 +522,9 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if (howMany > (maxCapacity - currentLength) / delta) {
+				throw new ArgumentOutOfRangeException();
+			}
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0


From e730049b0a4c6b272ae8e2afa3d7394a6d61b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 73/74] fix: the IEEE remainder's zero has the sign of the
 dividend also where the C library's has not

---
 DotNetLibrary/src/DotNetMath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index df19587..94b54a5 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -305,7 +305,8 @@ namespace DotnetLibrary
 		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
-		return remainder(x, y);
+		Double result = remainder(x, y);
+		return result == 0 ? copysign(result, x) : result; // some C libraries return a zero of the wrong sign
 	}
 	Int32 Math::ILogB(Double x) {
 		return DoubleValue::IsNaN(x) ? Int32Value::MaxValue : ilogb(x);
-- 
2.43.0


From f2ee99b341dbdfd1c39076cdaff08273e6116c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 74/74] fix: the IEEE remainder of an exact tie follows the
 even quotient whatever the C library's remainder does

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 94b54a5..043493d 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -305,8 +305,8 @@ namespace DotnetLibrary
 		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
-		Double result = remainder(x, y);
-		return result == 0 ? copysign(result, x) : result; // some C libraries return a zero of the wrong sign
+		int quotient;
+		return remquo(x, y, &quotient); // exact also where remainder of some C libraries rounds ties wrongly or returns a zero of the wrong sign
 	}
 	Int32 Math::ILogB(Double x) {
 		return DoubleValue::IsNaN(x) ? Int32Value::MaxValue : ilogb(x);
-- 
2.43.0

