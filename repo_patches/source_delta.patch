From bc933a8ce4a115d3d57be7a5ccd92b7cfea3b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 01/18] fix: gather element bounds from the element's offset
 within the vertex

---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 5eee3a1425f0a734b2c9945eb1ffa05b0a0bb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 02/18] fix: remove only the duplicate vertex data when copying
 a vertex to a new index buffer

---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..3177cc2 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -243,7 +243,7 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(insertPair.first->index < ref.index);
 		// Remove the added vertex data.
 		for (std::size_t i = 0; i < vertices.size(); ++i)
-			vertices.resize(vertices[i].size() - vertexFormat[i].stride());
+			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
 		return insertPair.first->index;
 	}
 
-- 
2.43.0


From 4ab66428f743adaadd5745f7302665e60edf3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 03/18] fix: preserve triangle strip geometry and winding when
 splitting index buffers

---
 lib/src/Converter.cpp | 63 +++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 3177cc2..77b5dfb 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -330,7 +330,8 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 	const std::vector<VertexFormat>& vertexFormat, VertexSet& vertexSet,
 	std::vector<std::uint8_t>& indices, IndexType indexType, unsigned int sizeofIndex,
 	std::int32_t baseVertex, PrimitiveType primitiveType, std::uint32_t lastRestartIndex,
-	std::uint32_t& prevIndexCount, std::int32_t prevBaseVertex, std::uint32_t& curIndexCount)
+	bool lastTriangle, std::uint32_t& prevIndexCount, std::int32_t prevBaseVertex,
+	std::uint32_t& curIndexCount)
 {
 #if VFC_DEBUG
 	for (std::size_t i = 0; i < vertices.size(); ++i)
@@ -350,9 +351,10 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			break;
 		case PrimitiveType::TriangleStrip:
 		{
+			// Copy the last two vertices of the strip, or all of them if there's fewer.
 			std::uint32_t firstIndex = lastRestartIndex + 1;
-			std::uint32_t stripIndexCount = indexCount - firstIndex + 1;
-			if (stripIndexCount <= 2)
+			std::uint32_t stripIndexCount = indexCount - firstIndex;
+			if (stripIndexCount < 2)
 			{
 				for (std::uint32_t k = firstIndex; k < indexCount; ++k)
 				{
@@ -363,23 +365,31 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			}
 			else
 			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 2, prevBaseVertex);
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 1, prevBaseVertex);
+				curIndexCount += 2;
+
+				// Every other triangle is reversed. If the first triangle of the new strip is one of
+				// them, preserve its winding by swapping its first two indices if it's the only
+				// triangle left, otherwise by adding a degenerate triangle in front of it.
+				if (stripIndexCount & 1)
 				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
+					std::uint32_t first = getIndexValue(indexType, indices.data(), indexCount);
+					std::uint32_t second = getIndexValue(indexType, indices.data(), indexCount + 1);
+					if (lastTriangle)
+					{
+						setIndexValue(indexType, indices.data(), indexCount, second);
+						setIndexValue(indexType, indices.data(), indexCount + 1, first);
+					}
+					else
+					{
+						setIndexValue(indexType, indices.data(), indexCount + 1, first);
+						addIndex(indices, indexType, sizeofIndex, second);
+						++curIndexCount;
+					}
 				}
-				curIndexCount += 2;
 			}
 			break;
 		}
@@ -406,7 +416,7 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 	// If we had to copy all of the vertices since the last restart, there wasn't a full primitive
 	// and the number of indices for the last index buffer must be reduced.
 	auto addedIndices = static_cast<std::uint32_t>(indices.size()/sizeofIndex) - indexCount;
-	if (lastRestartIndex + 1 == indexCount - addedIndices)
+	if (indexCount - (lastRestartIndex + 1) < primitiveMinIndexCount(primitiveType, 0))
 		prevIndexCount -= addedIndices;
 }
 
@@ -713,6 +723,19 @@ bool Converter::convert()
 		indexData = &m_indexData.back();
 	}
 
+	auto endsStrip = [this](std::uint32_t index)
+	{
+		if (index >= m_indexCount)
+			return true;
+		return std::any_of(m_vertexStreams.begin(), m_vertexStreams.end(),
+			[this, index](const VertexStream& stream)
+			{
+				return isPrimitiveRestart(
+					getIndexValue(stream.indexType, stream.indexData, index, index),
+					primitiveRestartIndexValue(stream.indexType), m_primitiveType);
+			});
+	};
+
 	unsigned int indexStride = primitiveIndexStride(m_primitiveType, m_patchPoints);
 	for (std::uint32_t i = 0; i < m_indexCount; i += indexStride)
 	{
@@ -734,7 +757,7 @@ bool Converter::convert()
 			auto indexCount = static_cast<std::uint32_t>(m_indices.size()/sizeofIndex);
 			copyConnectedVertices(m_vertices, m_vertexFormat, vertexSet, m_indices,
 				m_indexType, sizeofIndex, baseVertex, m_primitiveType, lastRestartIndex,
-				lastIndexData.count, lastIndexData.baseVertex, indexData->count);
+				endsStrip(i + 1), lastIndexData.count, lastIndexData.baseVertex, indexData->count);
 			// Count this as a the first index after a primitive restart.
 			lastRestartIndex = indexCount - 1;
 		}
-- 
2.43.0


From 15d5582de2bdc2add7bf20737435294053e3d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 04/18] fix: detect mismatching index counts after an empty or
 rejected vertex stream

---
 lib/include/VFC/Converter.h | 1 +
 lib/src/Converter.cpp       | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/VFC/Converter.h b/lib/include/VFC/Converter.h
index 8e164ae..6e83a03 100644
--- a/lib/include/VFC/Converter.h
+++ b/lib/include/VFC/Converter.h
@@ -419,6 +419,7 @@ private:
 	std::vector<std::uint8_t> m_indices;
 	std::vector<IndexData> m_indexData;
 	std::uint32_t m_indexCount;
+	bool m_hasIndexCount;
 };
 
 } // namespace vfc
diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 77b5dfb..9d70703 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -458,6 +458,7 @@ Converter::Converter(std::vector<VertexFormat> vertexFormat, IndexType indexType
 	, m_maxIndexValue(maxIndexValue)
 	, m_errorFunction(std::move(errorFunction))
 	, m_indexCount(0)
+	, m_hasIndexCount(false)
 {
 	bool error = false;
 	if (m_vertexFormat.empty())
@@ -526,7 +527,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if (m_hasIndexCount && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
@@ -568,10 +569,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 		}
 	}
 
-	m_indexCount = finalIndexCount;
 	if (duplicateElements)
 		return false;
-	else if (!hasElements)
+
+	m_indexCount = finalIndexCount;
+	m_hasIndexCount = true;
+	if (!hasElements)
 		return true;
 
 	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
-- 
2.43.0


From 1d59e26472717d53f1e57deec7e6fc6ffc4325a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 05/18] fix: refuse vertex streams for an invalid converter

---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 9d70703..480d081 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -519,6 +519,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From 74ec80ff37dcd65dde74c60add73d925258b67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 06/18] fix: don't accept the primitive restart value as the
 maximum index value

---
 lib/src/Converter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 480d081..6cee6af 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -495,7 +495,9 @@ Converter::Converter(std::vector<VertexFormat> vertexFormat, IndexType indexType
 			logError("Max index value is too small to hold any primitives.");
 			error = true;
 		}
-		else if (m_maxIndexValue > primitiveRestartIndexValue(indexType))
+		else if (m_maxIndexValue > primitiveRestartIndexValue(indexType) ||
+			isPrimitiveRestart(m_maxIndexValue, primitiveRestartIndexValue(indexType),
+				primitiveType))
 		{
 			logError("Max index value is higher than the maximum for the type.");
 			error = true;
-- 
2.43.0


From 4ea7a65c5a3cad3167ed640a4dea87f4ba7aa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 07/18] fix: saturate values above the range of 64-bit integers

---
 lib/src/VertexValue.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..bffe4fd 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,8 +220,11 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
+	// The maximum of 64-bit integers isn't exactly representable as a double, and rounds to a value
+	// that's out of range.
+	if (value >= static_cast<double>(maxVal))
+		return maxVal;
+	return static_cast<T>(std::round(std::max(value, static_cast<double>(minVal))));
 }
 
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
-- 
2.43.0


From fe5eaabea3ea54d17d38786b1ef61b3d71f02549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 08/18] fix: ignore NaN values when expanding bounds instead of
 restarting from them

---
 lib/include/VFC/VertexValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..bfcd392 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,8 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From e1974e276a172b7aedcf440cad4a284b6b8d2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 09/18] fix: encode and decode 10 and 11 bit floats by their
 definition

Values below 2^-14 and above the maximum wrapped around to unrelated values, infinities were decoded
as -1 and denormals as normal numbers.
---
 lib/src/VertexValue.cpp | 50 +++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index bffe4fd..4036232 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -18,6 +18,7 @@
 
 #include "HalfFloat.h"
 #include <VFC/VertexFormat.h>
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdint>
@@ -258,6 +259,42 @@ inline void packIntegers(T* data, const double* values, unsigned int count)
 	std::memcpy(data, alignedData, sizeof(T)*count);
 }
 
+// Small unsigned floats have 5 exponent bits, no sign bit, and follow the IEEE conventions.
+inline double unpackSmallFloat(std::uint32_t data, unsigned int mantissaBits)
+{
+	std::uint32_t mantissa = data & ((1U << mantissaBits) - 1);
+	std::uint32_t exponent = (data >> mantissaBits) & 0x1F;
+	if (exponent == 0x1F)
+	{
+		return mantissa ? std::numeric_limits<double>::quiet_NaN() :
+			std::numeric_limits<double>::infinity();
+	}
+
+	double fraction = std::ldexp(static_cast<double>(mantissa), -static_cast<int>(mantissaBits));
+	return exponent == 0 ? std::ldexp(fraction, -14) :
+		std::ldexp(1.0 + fraction, static_cast<int>(exponent) - 15);
+}
+
+inline std::uint32_t packSmallFloat(double value, unsigned int mantissaBits)
+{
+	std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | ((1U << mantissaBits) - 1);
+	else if (std::isinf(value))
+		return value > 0 ? infinity : 0;
+	else if (value <= 0)
+		return 0;
+
+	// Rounding up to the next power of two carries into the exponent. Saturate to the largest
+	// finite value.
+	int exponent = std::min(std::max(std::ilogb(value), -14), 16);
+	double mantissa = std::round(std::ldexp(value, static_cast<int>(mantissaBits) - exponent));
+	mantissa = std::min(mantissa, static_cast<double>(infinity));
+	auto packed = (static_cast<std::uint32_t>(exponent + 14) << mantissaBits) +
+		static_cast<std::uint32_t>(mantissa);
+	return std::min(packed, infinity - 1);
+}
+
 template <typename T>
 inline void packDirect(T* data, const double* values, unsigned int count)
 {
@@ -748,10 +785,9 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				m_values[0] = unpackSmallFloat(dataValue, 6);
+				m_values[1] = unpackSmallFloat(dataValue >> 11, 6);
+				m_values[2] = unpackSmallFloat(dataValue >> 22, 5);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1208,9 +1244,9 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSmallFloat(m_values[0], 6) |
+					(packSmallFloat(m_values[1], 6) << 11) |
+					(packSmallFloat(m_values[2], 5) << 22);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From d97670c07d36c3c5ef7d7f769b6456ffe67771fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 10/18] fix: use the full range of shared exponent floats

Values above 32768 saturated although the format can represent values up to 65408.
---
 lib/src/VertexValue.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 4036232..af45fe0 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -295,6 +295,29 @@ inline std::uint32_t packSmallFloat(double value, unsigned int mantissaBits)
 	return std::min(packed, infinity - 1);
 }
 
+// 9 bit mantissas without an implicit leading bit that share a 5 bit exponent.
+inline std::uint32_t packSharedExponent(const double* values)
+{
+	constexpr double maxValue = 65408.0; // 0x1FF*2^(31 - 15 - 9)
+	double clamped[3];
+	for (unsigned int i = 0; i < 3; ++i)
+		clamped[i] = std::min(std::max(0.0, values[i]), maxValue);
+
+	double largest = std::max(std::max(clamped[0], clamped[1]), clamped[2]);
+	int exponent = largest > 0 ? std::max(std::ilogb(largest), -16) + 16 : 0;
+	// May round up to the next power of two.
+	if (std::round(std::ldexp(largest, 24 - exponent)) > 0x1FF)
+		++exponent;
+
+	std::uint32_t packed = static_cast<std::uint32_t>(exponent) << 27;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		packed |= static_cast<std::uint32_t>(std::round(std::ldexp(clamped[i], 24 - exponent))) <<
+			(9*i);
+	}
+	return packed;
+}
+
 template <typename T>
 inline void packDirect(T* data, const double* values, unsigned int count)
 {
@@ -1256,9 +1279,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::E5Z9Y9X9_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSharedExponent(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 8938d9151d3342aa070d47976cab4cd49522bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 11/18] fix: don't reference moved strings for the index data
 of the tool's output

---
 tool/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..c26ffa3 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,8 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	// The strings are referenced by indexFileData, so they may not be re-allocated.
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +330,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +353,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From 29522ce45d97943694fcd2ce9c16ccae1ecf9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 12/18] fix: report failures to write the tool's output

---
 tool/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index c26ffa3..64bdabf 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,8 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	// Closing flushes the remaining data, which may fail as well.
+	stream.close();
 	return stream.good();
 }
 
@@ -443,6 +445,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write the result to stdout.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From 00291941d13a898e1d8a1c9cd0242a83c14bb80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 13/18] fix: don't overflow the stack on deeply nested
 configuration documents

---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..c9b32eb 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -564,7 +564,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	// Parse iteratively so deeply nested documents don't overflow the stack.
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From c15d144e8549c6e0f52d06ffc6ae08a64aa970ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 14/18] fix: report unreadable input files instead of
 terminating with an exception

---
 tool/ConfigFile.cpp | 19 ++++++++++++++++++-
 tool/main.cpp       | 11 +++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index c9b32eb..dc3a43d 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,24 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	// Stream iterators would throw exceptions for read errors, such as for directories.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream);
+
+	if (stream.bad())
+	{
+		std::string message = "error: Couldn't read config file '";
+		message += fileName;
+		message += "'.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index 64bdabf..ed2e480 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,15 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Stream iterators would throw exceptions for read errors, such as for directories.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream);
+
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From d5ba926caa5f4d12a18aab0a8cd50a647c795994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 15/18] fix: fail instead of printing a truncated result for
 bounds that aren't finite

---
 tool/ResultFile.cpp | 4 +++-
 tool/main.cpp       | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..d57a470 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -111,6 +111,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 
 	rapidjson::StringBuffer buffer;
 	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
-	document.Accept(writer);
+	// Infinite and NaN bounds can't be represented in JSON and stop writing.
+	if (!document.Accept(writer))
+		return "";
 	return buffer.GetString();
 }
diff --git a/tool/main.cpp b/tool/main.cpp
index ed2e480..7779a91 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -368,8 +368,11 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	return resultFile(converter.getVertexFormat(), bounds, vertexData, converter.getVertexCount(),
-		converter.getIndexType(), indexFileData);
+	std::string result = resultFile(converter.getVertexFormat(), bounds, vertexData,
+		converter.getVertexCount(), converter.getIndexType(), indexFileData);
+	if (result.empty())
+		std::fprintf(stderr, "error: The bounds of the vertex data aren't finite.\n");
+	return result;
 }
 
 int main(int argc, const char** argv)
-- 
2.43.0


From 63beef2ab6c28d1eb0434baaedacca666d3eb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 16/18] fix: normalize to bounds smaller than the epsilon of
 doubles

The epsilon is relative to 1, so elements with small values were all replaced by the default value.
---
 lib/src/VertexValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index af45fe0..d0a8bd1 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -1302,7 +1302,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type,
 			for (unsigned int i = 0; i < count; ++i)
 			{
 				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
-				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
+				if (!(range > 0))
 					continue;
 
 				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
@@ -1315,7 +1315,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type,
 			for (unsigned int i = 0; i < count; ++i)
 			{
 				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
-				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
+				if (!(range > 0))
 					continue;
 
 				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
-- 
2.43.0


From 9d71b0dc959cfe13ce0a94235b62dd5646436759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 17/18] fix: let infinite values set the bounds

Bounds that had no value yet started at the largest finite values, so an element with only infinite
values got a finite minimum or maximum.
---
 lib/include/VFC/VertexValue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index bfcd392..0f71e70 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,6 +117,9 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
+			// The first value may be outside of the range of the initial bounds if it's infinite.
+			if (minVal.m_values[i] > maxVal.m_values[i] && m_values[i] == m_values[i])
+				minVal.m_values[i] = maxVal.m_values[i] = m_values[i];
 			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
 			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
-- 
2.43.0


From b752f500d8608cccb90270cae7181c6254d5cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:36 +0000
Subject: [PATCH 18/18] fix: don't let a failed conversion leave bounds behind

A conversion that stopped at an invalid index kept the bounds gathered up to there, so a later
successful one reported, and scaled to, bounds that were too wide.
---
 lib/src/Converter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 6cee6af..b8d3e7f 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -678,7 +678,9 @@ bool Converter::convert()
 		return false;
 
 	// First need to gather the bounds. Loop over the streams first for better cache efficiency.
-	for (std::vector<VertexElementRef>& curElementMapping : m_elementMapping)
+	// Only keep them if all indices are valid, since a failed conversion may be tried again.
+	std::vector<std::vector<VertexElementRef>> elementMapping = m_elementMapping;
+	for (std::vector<VertexElementRef>& curElementMapping : elementMapping)
 	{
 		for (VertexElementRef& elementRef : curElementMapping)
 		{
@@ -716,6 +718,7 @@ bool Converter::convert()
 			}
 		}
 	}
+	m_elementMapping = std::move(elementMapping);
 
 	// Create the combined vertex stream.
 	std::vector<std::vector<std::uint8_t>> vertexData(m_vertexFormat.size());
-- 
2.43.0

