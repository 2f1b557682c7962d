From 80ce50c863701410f68585a883201c57e6536a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/63] fix: CBufferQueue two-part push computes the total
 length in 64 bits

len1 + len2 was a 32-bit sum: two parts of together 4 GiB or more were
accepted by any ring and copied past its end.
---
 include/CBufferQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBufferQueue.h b/include/CBufferQueue.h
index 096e563..ea179c1 100644
--- a/include/CBufferQueue.h
+++ b/include/CBufferQueue.h
@@ -348,7 +348,7 @@ namespace lce
 
         void push(const char *buffer1, unsigned len1, const char *buffer2, unsigned len2) throw(runtime_error)
         {
-            unsigned long len = len1 + len2;
+            unsigned long len = (unsigned long)len1 + len2;
             if (len == 0)
                 return;
             unsigned long iBegin = _header->iBegin;
-- 
2.43.0


From e068d4e40488eeb1859b420e2f768bfd413f9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 02/63] fix: CBitmap rejects the index equal to the bitmap size

Index n of an n-cell bitmap was accepted; with n a multiple of 8 it lies
outside the shared segment.
---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..20a5a14 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -65,7 +65,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -167,7 +167,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -184,7 +184,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -267,7 +267,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -283,7 +283,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -366,7 +366,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -383,7 +383,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -466,7 +466,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -482,7 +482,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -565,7 +565,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -581,7 +581,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -663,7 +663,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +673,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From 2c6dc01e6397debd2e5f9c5bd1a75111c52329f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 03/63] fix: CBitmap<3> and CBitmap<6> keep the neighbouring
 cells on set

The 32-bit clear masks were zero-extended and wiped the upper half of the
64-bit word, i.e. the cells of the following groups.
---
 include/CBitMap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 20a5a14..8ef0e96 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -280,7 +280,7 @@ namespace lce
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
 			int iIndexBitPos;
-			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
+			static unsigned long caUinFlag[] = {0xFFFFFFFFFFFFFFF8UL, 0xFFFFFFFFFFFFFFC7UL, 0xFFFFFFFFFFFFFE3FUL, 0xFFFFFFFFFFFFF1FFUL, 0xFFFFFFFFFFFF8FFFUL, 0xFFFFFFFFFFFC7FFFUL, 0xFFFFFFFFFFE3FFFFUL, 0xFFFFFFFFFF1FFFFFUL};
 			unsigned long dwFlag = ucVal;
 
 			if (dwIndex >= m_dwMaxIndex)
@@ -578,7 +578,7 @@ namespace lce
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
 			int iIndexBitPos;
-			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
+			static unsigned long caUinFlag[] = {0xFFFFFFFFFFFFFFC0UL, 0xFFFFFFFFFFFFF03FUL, 0xFFFFFFFFFFFC0FFFUL, 0xFFFFFFFFFF03FFFFUL};
 			unsigned long dwFlag = ucVal;
 
 			if (dwIndex >= m_dwMaxIndex)
-- 
2.43.0


From 5114ba6cd82c87d7e5e4462eba35ffc46e4e388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 04/63] fix: CBitmap<3>,<5>,<6> access only the bytes of the
 cell's group

---
 include/CBitMap.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8ef0e96..0321ab5 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -272,7 +272,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3); // only the group's own bytes
+			dwTmpValue >>= (dwIndex % 8 * 3);
 			dwTmpValue = dwTmpValue & 0x7;
 			return dwTmpValue;
 		}
@@ -292,8 +294,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwGroup = 0;
+			memcpy(&dwGroup, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwGroup &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwGroup |= dwFlag;				   //
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwGroup, 3);
 
 			return true;
 		}
@@ -471,7 +476,9 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5); // only the group's own bytes
+			ui64TmpValue >>= (dwIndex % 8 * 5);
 			ui64TmpValue = ui64TmpValue & 0x1F;
 			return (int)ui64TmpValue;
 		}
@@ -491,8 +498,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64Group = 0;
+			memcpy(&ui64Group, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64Group &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64Group |= ui64Flag;				  //
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64Group, 5);
 
 			return true;
 		}
@@ -570,7 +580,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3); // only the group's own bytes
+			dwTmpValue >>= (dwIndex % 4 * 6);
 			dwTmpValue = dwTmpValue & 0x3F;
 			return dwTmpValue;
 		}
@@ -590,8 +602,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwGroup = 0;
+			memcpy(&dwGroup, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwGroup &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwGroup |= dwFlag;				   //
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwGroup, 3);
 
 			return true;
 		}
-- 
2.43.0


From e1a6aef5631833eaadd6eb6ef198997b4dafa5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 05/63] fix: CSocketBuf default constructor initialises the
 buffer size

---
 include/CSocketBuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 93c0233..73d5ed9 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -17,7 +17,7 @@ namespace lce
 		}
 
 		CSocketBuf()
-			: m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
+			: m_iBufSize(0), m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
 		{
 			m_pszBuf = NULL;
 		}
-- 
2.43.0


From 1943f8d8579b83da7a2c3c831b0559cdfc9ee605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 06/63] fix: CSocketBuf growth does not overflow int for
 buffers of 1 GiB and more

---
 include/CSocketBuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 73d5ed9..db4842c 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -165,7 +165,7 @@ namespace lce
 
 		void incBuf()
 		{
-			if (m_iBufSize * 2 < m_iDataAllowMaxSize)
+			if (m_iBufSize <= (m_iDataAllowMaxSize - 1) / 2)
 			{
 				reSize(m_iBufSize * 2);
 			}
-- 
2.43.0


From c18d2f8aa793a982e858c96cee6204680cff3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 07/63] fix: CPackage assignment operator copies the package

---
 include/CPackage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..7025ca9 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
-- 
2.43.0


From aa6e9a59a94209704dae15a872da2e983e2044c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 08/63] fix: CPackage refuses data shorter than its head in
 every constructor and setter

---
 include/CPackage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index 7025ca9..857f6eb 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
-- 
2.43.0


From b2e78b592576e4de2b98be8b4503ed257d4910f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 09/63] fix: CPackage reads that fail leave the read position
 unchanged, and no read passes the end of the body

---
 include/CPackage.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 857f6eb..6f4242f 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -548,7 +548,7 @@ namespace lce
 
 		void read(char *pszBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				memcpy(pszBuf, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -561,7 +561,7 @@ namespace lce
 
 		void read(std::string &sBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				sBuf.assign(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -577,7 +577,11 @@ namespace lce
 			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
 			int iStrLen = strlen(pData);
 			sData = pData;
-			m_iPos += iStrLen + 1;
+			m_iPos += iStrLen;
+			if (m_iPos < getPkgBodyLen())
+			{
+				++m_iPos; // skip the terminator, which the last string may lack
+			}
 		}
 
 		void readString1(std::string &sData)
@@ -585,6 +589,10 @@ namespace lce
 			if (1 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				unsigned char ucLen = *(unsigned char *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos);
+				if (ucLen > m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos - 1)
+				{
+					throw Error("data error:no enough buf.");
+				}
 				++m_iPos;
 				read(sData, ucLen);
 			}
@@ -599,6 +607,10 @@ namespace lce
 			if (2 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				unsigned short wLen = ntohs(*(unsigned short *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos));
+				if (wLen > m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos - 2)
+				{
+					throw Error("data error:no enough buf.");
+				}
 				m_iPos += 2;
 				read(sData, wLen);
 			}
@@ -614,6 +626,10 @@ namespace lce
 			if (4 <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				unsigned int dwLen = ntohl(*(unsigned int *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos));
+				if (dwLen > m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos - 4)
+				{
+					throw Error("data error:no enough buf.");
+				}
 				m_iPos += 4;
 				read(sData, dwLen);
 			}
-- 
2.43.0


From d27801031ce483e825f8b842bbb0c979f38d30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 10/63] fix: CPackage seek keeps the read position inside the
 body

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 6f4242f..92f8e09 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -658,14 +658,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (static_cast<long long>(m_iPos) + iOffPos <= getPkgBodyLen() && static_cast<long long>(m_iPos) + iOffPos >= 0)
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && getPkgBodyLen() >= -static_cast<long long>(iOffPos))
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
-- 
2.43.0


From c5bca53eb63aae99ce204ca7ebde1fb132e7bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 11/63] fix: CPackage << of a single byte compiles

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 92f8e09..509f93f 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -290,12 +290,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From 73b46f022b73d8d56571f2b469bbba4ad314816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 12/63] fix: HTTP filter searches only the received bytes,
 waits for the blank line and refuses impossible Content-Length values

---
 include/CHttpPackageFilter.h | 46 +++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..7d21111 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,11 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <limits.h>
+#include <stdlib.h>
+#include <string.h>
+#include <string>
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -15,36 +20,43 @@ namespace lce
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
 			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
+			if (iDataSize <= 0)
+			{
+				return iRe;
+			}
+			const char *pFirstLine = (const char *)::memmem(pszData, iDataSize, "\r\n", 2);
 			if (NULL != pFirstLine)
 			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
+				const char *pEnd = (const char *)::memmem(pszData, iDataSize, "\r\n\r\n", sizeof("\r\n\r\n") - 1);
 				if (NULL != pEnd)
 				{
+					pEnd += sizeof("\r\n\r\n") - 1;
 
+					int iHeadLen = (int)(pEnd - pszData);
 					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
+					const char *pHTTP = (const char *)::memmem(pszData, iHeadLen, "HTTP", 4);
 					if (pHTTP == pszData)
 					{
 						bRecvData = true;
 					}
 
-					int iHeadLen = (int)(pEnd - pszData);
 					int iHTMLLen = iHeadLen;
 
 					if (bRecvData)
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = (const char *)::memmem(pszData, iHeadLen, "\r\nContent-Length: ", sizeof("\r\nContent-Length: ") - 1);
 						if (NULL != pContentLenPos)
 						{
-							if (pEnd > pContentLenPos)
+							pContentLenPos += sizeof("\r\nContent-Length: ") - 1;
+							const char *pContentLenEndPos = (const char *)::memmem(pContentLenPos, pEnd - pContentLenPos, "\r\n", 2);
+							if (NULL != pContentLenEndPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
+								long lContentLen = ::strtol(std::string(pContentLenPos, pContentLenEndPos).c_str(), NULL, 10);
+								if (lContentLen < 0 || lContentLen > INT_MAX - iHeadLen)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
+									return -2;
 								}
+								iHTMLLen += (int)lContentLen;
 							}
 
 							if (iHTMLLen <= iDataSize && iHTMLLen > iHeadLen)
@@ -61,17 +73,19 @@ namespace lce
 					}
 					else
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = (const char *)::memmem(pszData, iHeadLen, "\r\nContent-Length: ", sizeof("\r\nContent-Length: ") - 1);
 						if (NULL != pContentLenPos)
 						{
-							if (pEnd > pContentLenPos)
+							pContentLenPos += sizeof("\r\nContent-Length: ") - 1;
+							const char *pContentLenEndPos = (const char *)::memmem(pContentLenPos, pEnd - pContentLenPos, "\r\n", 2);
+							if (NULL != pContentLenEndPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
+								long lContentLen = ::strtol(std::string(pContentLenPos, pContentLenEndPos).c_str(), NULL, 10);
+								if (lContentLen < 0 || lContentLen > INT_MAX - iHeadLen)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
+									return -2;
 								}
+								iHTMLLen += (int)lContentLen;
 							}
 						}
 						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-- 
2.43.0


From 61af5066ff636386eaa0396842ceff95d4957d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 13/63] fix: FormUrlDecode keeps a '%' that starts no escape
 instead of throwing or yielding NUL

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..39c092d 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -530,7 +530,7 @@ namespace lce
             {
                 sResult += ' ';
             }
-            else if (ch == '%')
+            else if (ch == '%' && iLen - j > 2 && isxdigit((unsigned char)sSrc[j + 1]) && isxdigit((unsigned char)sSrc[j + 2]))
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
-- 
2.43.0


From 0409181910de5cfb223d9c61bc5096e5352207da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 14/63] fix: SplitStr skips the whole separator (and splits
 nothing at an empty one)

---
 include/StringHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..00b5422 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -50,10 +50,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From 1cbbc5deb2678a0c9e42e7d049753568c137382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 15/63] fix: ReplaceStr with an empty search string returns
 instead of looping forever

---
 include/StringHelper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index 00b5422..16c704f 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -26,6 +26,9 @@ namespace lce
 		string::size_type dwLen1 = sFind.size();
 		string::size_type dwLen2 = sReplace.size();
 
+		if (dwLen1 == 0)
+			return;
+
 		while ((pos = str.find(sFind, pos)) != string::npos)
 		{
 			str.replace(pos, dwLen1, sReplace);
-- 
2.43.0


From c15f3a1d9c7af08a39e58e3d8bb02f896d3202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 16/63] fix: CBlockQueue front returns the oldest element, not
 the slot before it

---
 include/CBlockQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..a48e2c9 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -88,7 +88,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
-- 
2.43.0


From 0148491dd86f48cb2ffdac6164138fb5a37d8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 17/63] fix: CBlockQueue pop keeps the lock while it waits for
 an element

---
 include/CBlockQueue.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index a48e2c9..bc57310 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -155,7 +155,6 @@ namespace lce
                 if (m_dwSize <= 0)
                 {
                     pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
                     continue;
                 }
                 else
-- 
2.43.0


From 6b467f0a9307c14ddd976b6daece71bd4eeff73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 18/63] fix: CBlockQueue timed pop waits the requested
 milliseconds and fails only when the queue is still empty

---
 include/CBlockQueue.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index bc57310..6a8be2d 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -177,14 +177,18 @@ namespace lce
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            t.tv_sec = now.tv_sec + timeout / 1000;
+            t.tv_nsec = now.tv_usec * 1000 + (timeout % 1000) * 1000000L;
+            if (t.tv_nsec >= 1000000000L)
+            {
+                t.tv_sec++;
+                t.tv_nsec -= 1000000000L;
+            }
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 6f1199273b62daa46cc82ff82bf77f399900f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 19/63] fix: CLogBuffer refuses a length whose sum with the
 held size wraps around

---
 include/CLogBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CLogBuffer.h b/include/CLogBuffer.h
index 225de1f..2e6a2b6 100644
--- a/include/CLogBuffer.h
+++ b/include/CLogBuffer.h
@@ -58,7 +58,7 @@ namespace lce
 				return false;
 			}
 
-			if (m_dwSize + dwLen > m_dwMaxSize)
+			if (dwLen > m_dwMaxSize - m_dwSize)
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "buffer is full now=%u,data=%u", (unsigned int)m_dwSize, (unsigned int)dwLen);
 				m_bFull = true;
-- 
2.43.0


From 531e84159c0c40a37ac8c7469b343790ad3ca41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 20/63] fix: AnyHeader carries the whole 64-bit uid and the
 client ip in network byte order

---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 6c8e5b754e1c99f94350ed836bdf16db2fa1e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 21/63] fix: CAnyValuePackage decodes the body only up to the
 end of the data given

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..c98a929 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2057,7 +2057,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2080,7 +2080,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From 60610930739ecee4c2fb317f384f2681efdfe4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 22/63] fix: CAnyValue asInt64, asUInt and asUInt64 return the
 whole value

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index c98a929..6df91c6 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
-- 
2.43.0


From 0216a7a447f9596bb6d95b82a96e9784d64a7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 23/63] fix: CAnyValue text forms hold all 20 digits of a
 64-bit integer

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 6df91c6..3fccd05 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -828,14 +828,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -981,14 +981,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From f262ab3a9e49c920faf467d8d5109013f053ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 24/63] fix: CAnyValue encodes 255 in its one-byte form

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 3fccd05..e1ed736 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1664,7 +1664,7 @@ namespace lce
         static void encode_integer(std::string &sBuf, const ValueHolder &value)
         {
 
-            if (value.integer < 0xFF)
+            if (value.integer <= 0xFF)
             {
                 sBuf.push_back((char)DType::Integer1);
                 sBuf.push_back((char)value.integer);
-- 
2.43.0


From 18566eb097966e193513d22192011adf7a36c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 25/63] fix: CAnyValue encodes positive signed integers in a
 form that holds them

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e1ed736..5dbe5be 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1694,18 +1694,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue > -129 && iValue < 128)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue > -32769 && iValue < 32768)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue > -2147483649LL && iValue < 2147483648LL)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From 6d02022d3de228d1e6ffad11015545b5c77e3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 26/63] fix: CAnyValue decode refuses a vector with more
 elements than bytes before it allocates them

---
 include/CAnyValue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 5dbe5be..329e7eb 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1167,6 +1167,7 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            check(dwDecodePos + dwSize, dwDataSize); // every element takes at least one byte
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
-- 
2.43.0


From 384293e190ddf3a42bc7230b5066e658d53a837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 27/63] fix: CAnyValue decode replaces the value held instead
 of reinterpreting it

---
 include/CAnyValue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 329e7eb..a5515eb 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1797,6 +1797,7 @@ namespace lce
 
             };
             check(dwDecodePos + 1, dwDataSize);
+            clear(); // whatever was held (a repeated key, a second decode) is replaced
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
 
-- 
2.43.0


From 6f9a650fc298a35dd5d2983a82c2bc555d6bb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 28/63] fix: CAnyValue decode bounds the nesting depth of
 untrusted data

---
 include/CAnyValue.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a5515eb..83b82a7 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -72,6 +72,11 @@ namespace lce
         typedef std::deque<CAnyValue> VecType;
         typedef std::runtime_error Error;
 
+        enum
+        {
+            MAX_DEPTH = 1000 // nesting accepted from encoded data
+        };
+
         union ValueHolder
         {
             uint64_t integer;
@@ -1796,6 +1801,20 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            static __thread int s_dwDepth = 0;
+            struct DepthGuard
+            {
+                DepthGuard()
+                {
+                    if (s_dwDepth >= MAX_DEPTH)
+                    {
+                        throw Error("decode data error: nested too deep.");
+                    }
+                    ++s_dwDepth;
+                }
+                ~DepthGuard() { --s_dwDepth; }
+            } stGuard;
+
             check(dwDecodePos + 1, dwDataSize);
             clear(); // whatever was held (a repeated key, a second decode) is replaced
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0


From b1ff56b8058a8e8600b137572337f13901f4688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 29/63] fix: CAnyValue copy constructor starts from a null
 value

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 83b82a7..56ab381 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -238,7 +238,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_ucSubType(DType::Null), m_bInit(false), m_bHasData(false)
         {
             init();
             assign(rhs);
-- 
2.43.0


From 4a024a33a2ee2ec2617b1d93d251f2a0a30fcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 30/63] fix: CAnyValue assignment copies before it frees and
 leaves no freed pointer in a null value

---
 include/CAnyValue.h | 51 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 56ab381..f4b9220 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1947,49 +1947,52 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
+            // copy first: rhs may be held inside this value
+            ValueHolder stValue;
+            memset(&stValue, 0, sizeof(stValue));
+            unsigned char ucType = rhs.m_ucType;
+            unsigned char ucSubType = rhs.m_ucSubType;
+            bool bHasData = rhs.m_bHasData;
 
-            if (rhs.m_ucType == DType::Integer)
+            if (ucType == DType::Integer)
             {
-                m_value.integer = rhs.m_value.integer;
+                stValue.integer = rhs.m_value.integer;
             }
 
-            if (rhs.m_ucType == DType::SInteger)
+            if (ucType == DType::SInteger)
             {
-                m_value.integer = rhs.m_value.integer;
+                stValue.integer = rhs.m_value.integer;
             }
 
-            if (rhs.m_ucType == DType::Bool)
+            if (ucType == DType::Bool)
             {
-                m_value.integer = rhs.m_value.integer;
+                stValue.integer = rhs.m_value.integer;
             }
 
-            if (rhs.m_ucType == DType::Float)
+            if (ucType == DType::Float)
             {
-                m_value.flValue = rhs.m_value.flValue;
+                stValue.flValue = rhs.m_value.flValue;
             }
 
-            else if (rhs.m_ucType == DType::Map)
+            else if (ucType == DType::Map)
             {
-                m_value.map = new MapType(*(rhs.m_value.map));
+                stValue.map = new MapType(*(rhs.m_value.map));
             }
-            else if (DType::Vector == rhs.m_ucType)
+            else if (DType::Vector == ucType)
             {
-                m_value.vec = new VecType(*rhs.m_value.vec);
+                stValue.vec = new VecType(*rhs.m_value.vec);
             }
-            else if (DType::String == rhs.m_ucType)
+            else if (DType::String == ucType)
             {
-                m_value.buf = new BufType((*rhs.m_value.buf));
+                stValue.buf = new BufType((*rhs.m_value.buf));
             }
-            m_ucType = rhs.m_ucType;
-            m_ucSubType = rhs.m_ucSubType;
-            m_bHasData = rhs.m_bHasData;
-            m_bInit = rhs.m_bInit;
+
+            clear();
+            m_value = stValue;
+            m_ucType = ucType;
+            m_ucSubType = ucSubType;
+            m_bHasData = bHasData;
+            m_bInit = true;
         }
 
     private:
-- 
2.43.0


From cc09cad2a5ad32477f800abab971ccaee9db6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 31/63] fix: CAnyValue refuses negative indexes

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f4b9220..50e7bfc 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -428,7 +428,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -440,7 +440,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
-- 
2.43.0


From f4ab5c224a622f51030449fe97bc3c7f0534d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 32/63] fix: CAnyValue pop on an empty vector throws

---
 include/CAnyValue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 50e7bfc..296d323 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -560,6 +560,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
+                if (m_value.vec->empty())
+                    throw Error("pop_back: vector is empty");
                 m_value.vec->pop_back();
             }
         }
@@ -578,6 +580,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
+                if (m_value.vec->empty())
+                    throw Error("pop_front: vector is empty");
                 m_value.vec->pop_front();
             }
         }
-- 
2.43.0


From f2e58b33769b1bafc3fde7d1f7102cb4aaee3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 33/63] fix: CAnyValue lookup by C string and erase truncate
 the key as insert does

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 296d323..4ed3ba4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -467,7 +467,7 @@ namespace lce
             // std::string sName(pszName);
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(pszName);
+                MapType::iterator it = m_value.map->find(std::string(pszName).substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -590,7 +590,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                m_value.map->erase(sName);
+                m_value.map->erase(sName.substr(0, 255));
             }
         }
 
-- 
2.43.0


From f3d446acf73ff5db178ee96cf1191b374816256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 34/63] fix: CAnyValue lookup and hasKey truncate the key as
 insert does

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4ed3ba4..8edd615 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -454,7 +454,7 @@ namespace lce
             static CAnyValue m_null;
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -508,7 +508,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return true;
             }
-- 
2.43.0


From 5a4d9128572792d900a94d83e4e56b3ed50ed76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 35/63] fix: decodeJSON no longer reads past the end of its
 text

---
 include/CAnyValue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8edd615..13c1abb 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -694,6 +694,9 @@ namespace lce
 
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
+            // terminated copy: the parser looks one character ahead
+            const string sText(szBuf, iSize);
+            szBuf = sText.c_str();
             int dwPos = 0;
             skipSpaces(dwPos, szBuf, iSize);
 
-- 
2.43.0


From 27076b7dc4f793d6c3cc55f7b2c91f9af86dd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 36/63] fix: decodeJSON replaces the old value instead of
 leaking or refusing it

---
 include/CAnyValue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 13c1abb..891a210 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -697,6 +697,7 @@ namespace lce
             // terminated copy: the parser looks one character ahead
             const string sText(szBuf, iSize);
             szBuf = sText.c_str();
+            clear();
             int dwPos = 0;
             skipSpaces(dwPos, szBuf, iSize);
 
-- 
2.43.0


From 6d13242d980fd9fb66037551ad80f24603c97796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 37/63] fix: decodeJSON keeps the text of a top-level string

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 891a210..13c26d4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -719,7 +719,7 @@ namespace lce
                 dwPos++;
 
                 this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                this->m_value.buf->assign(sValue.data(), sValue.size());
             }
             else if (szBuf[dwPos] == 't')
             {
-- 
2.43.0


From 98f04d89c0775ff1ffdbbbc5f4d2a857cc8ac9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 38/63] fix: decodeJSON refuses text nested too deep instead of
 exhausting the stack

---
 include/CAnyValue.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 13c26d4..1a901f3 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -74,7 +74,7 @@ namespace lce
 
         enum
         {
-            MAX_DEPTH = 1000 // nesting accepted from encoded data
+            MAX_DEPTH = 1000 // nesting accepted from encoded data and JSON text
         };
 
         union ValueHolder
@@ -1401,8 +1401,12 @@ namespace lce
             }
         }
 
-        static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
+        static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize, int iDepth = 0)
         {
+            if (iDepth >= MAX_DEPTH)
+            {
+                throw runtime_error("nested too deep");
+            }
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1417,13 +1421,13 @@ namespace lce
                 {
                     dwPos++;
                     oValue.push_back(CAnyValue());
-                    readObj(dwPos, oValue[oValue.size() - 1], szBuf, iSize);
+                    readObj(dwPos, oValue[oValue.size() - 1], szBuf, iSize, iDepth + 1);
                 }
                 else if (szBuf[dwPos] == '[')
                 {
                     dwPos++;
                     oValue.push_back(CAnyValue());
-                    readArray(dwPos, oValue[oValue.size() - 1], szBuf, iSize);
+                    readArray(dwPos, oValue[oValue.size() - 1], szBuf, iSize, iDepth + 1);
                 }
                 else if (szBuf[dwPos] == '"')
                 {
@@ -1520,8 +1524,12 @@ namespace lce
             }
         }
 
-        static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
+        static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize, int iDepth = 0)
         {
+            if (iDepth >= MAX_DEPTH)
+            {
+                throw runtime_error("nested too deep");
+            }
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1562,13 +1570,13 @@ namespace lce
                     {
                         dwPos++;
                         CAnyValue &objValue = oValue[sKey];
-                        readObj(dwPos, objValue, szBuf, iSize);
+                        readObj(dwPos, objValue, szBuf, iSize, iDepth + 1);
                     }
                     else if (szBuf[dwPos] == '[')
                     {
                         dwPos++;
                         CAnyValue &arrayValue = oValue[sKey];
-                        readArray(dwPos, arrayValue, szBuf, iSize);
+                        readArray(dwPos, arrayValue, szBuf, iSize, iDepth + 1);
                     }
                     else if (szBuf[dwPos] == 't')
                     {
-- 
2.43.0


From 7528b69aade793d67f5e991ba6fc0a0704bb0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 39/63] fix: encodeJSON writes enough digits to read the same
 float back

---
 include/CAnyValue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 1a901f3..504a7b2 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1010,6 +1010,10 @@ namespace lce
             {
                 char buffer[32];
                 snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
+                if (strtod(buffer, NULL) != m_value.flValue)
+                {
+                    snprintf(buffer, sizeof(buffer), "%#.17g", m_value.flValue);
+                }
                 sBuf += buffer;
             }
             break;
-- 
2.43.0


From 993f8e4806b8d3012ef3ae2bc552c050b6619fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 40/63] fix: decodeJSON reads a number with an exponent as a
 float

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 504a7b2..bc7b1b3 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -769,7 +769,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
+                if (sValue.find_first_of(".eE") != string::npos)
                 {
                     double flValue = atof(sValue.c_str());
                     this->m_ucType = DType::Float;
@@ -1489,7 +1489,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
+                    if (sValue.find_first_of(".eE") != string::npos)
                     {
                         double flValue = atof(sValue.c_str());
                         oValue.push_back(flValue);
@@ -1636,7 +1636,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
+                        if (sValue.find_first_of(".eE") != string::npos)
                         {
                             double flValue = atof(sValue.c_str());
                             oValue[sKey] = flValue;
-- 
2.43.0


From 6a7495ae09c346a1c9df49519008feeb237a135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 41/63] fix: encodeJSON and encodeXML write every true boolean
 as true

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index bc7b1b3..5427976 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -833,7 +833,7 @@ namespace lce
             {
             case DType::Bool:
             {
-                if (m_value.integer == 1)
+                if (m_value.integer != 0)
                     sBuf += "true";
                 else
                     sBuf += "false";
@@ -986,7 +986,7 @@ namespace lce
 
             case DType::Bool:
             {
-                if (m_value.integer == 1)
+                if (m_value.integer != 0)
                     sBuf += "true";
                 else
                     sBuf += "false";
-- 
2.43.0


From 9a36f03527603033f9101091de894214c787956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 42/63] fix: CTcpConnector() leaves the message, port and
 timeout uninitialised

---
 include/CTcpConnector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CTcpConnector.h b/include/CTcpConnector.h
index 64d8ffd..b19268f 100644
--- a/include/CTcpConnector.h
+++ b/include/CTcpConnector.h
@@ -10,8 +10,9 @@ namespace lce
 	{
 	public:
 		CTcpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0), m_dwTimeout(3000)
 		{
+			m_szErrMsg[0] = '\0';
 		}
 		~CTcpConnector()
 		{
-- 
2.43.0


From a6c4511f07bff8804061f1a44fe7a619beb19aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 43/63] fix: a connection established at once is remembered as
 connected

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..066eccd 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From 27ac46fa4d88beb88d3ae367c847aef8754b9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 44/63] fix: connecting with a descriptor beyond FD_SETSIZE
 writes outside the fd_set

---
 src/CTcpConnector.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 066eccd..7a108b3 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -4,6 +4,7 @@
 #include <errno.h>
 #include <netinet/in.h>
 #include <arpa/inet.h>
+#include <poll.h>
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
@@ -69,21 +70,15 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			struct pollfd stPoll;
+			stPoll.fd = m_iFd;
+			stPoll.events = POLLIN | POLLOUT;
+			stPoll.revents = 0;
+			ret = poll(&stPoll, 1, (int)m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From 2a9526635296580ea61802721fa0cf46429cd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 45/63] fix: CTcpConnector::write sends the rest after a
 partial or interrupted send and survives a closed peer

---
 src/CTcpConnector.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 7a108b3..03fe843 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -116,9 +116,9 @@ namespace lce
 
 	int CTcpConnector::write(const char *pData, const int iSize, const time_t dwTimeout)
 	{
-		if (!m_bConnect)
+		if (!m_bConnect && !_imp_connect())
 		{
-			_imp_connect();
+			return -1;
 		}
 
 		struct timeval tv;
@@ -126,13 +126,19 @@ namespace lce
 		tv.tv_usec = (dwTimeout % 1000) * 1000;
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
-		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
-		if (iSendLen < 0)
+		int iSendLen = 0;
+		while (iSendLen < iSize)
 		{
-			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
-			close();
-			return -1;
+			int n = ::send(m_iFd, pData + iSendLen, iSize - iSendLen, MSG_NOSIGNAL);
+			if (n < 0)
+			{
+				if (errno == EINTR)
+					continue;
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
+				close();
+				return -1;
+			}
+			iSendLen += n;
 		}
 
 		return iSendLen;
-- 
2.43.0


From 7dd3e33d9ef723053cc53880722dca30265c8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 46/63] fix: CTcpConnector::readn goes on after an interrupted
 recv

---
 src/CTcpConnector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 03fe843..a296636 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -163,6 +163,8 @@ namespace lce
 			int n = ::recv(m_iFd, pBuf + iReadSize, iSize - iReadSize, 0);
 			if (n < 0)
 			{
+				if (errno == EINTR)
+					continue;
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Read: recv error(%d):%s", errno, strerror(errno));
 				return -1;
 			}
-- 
2.43.0


From 451f00ff43e65027c2088661695bc9353e6bb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 47/63] fix: evicting the last entry of a CLruCache leaves the
 head pointing to freed memory

---
 include/CLruCache.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..ffccbf3 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -81,6 +81,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
-- 
2.43.0


From bd383927e85b09ee4dd061b582c53fbd12f4b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 48/63] fix: CLruCache ignores the maximum size it is given

---
 include/CLruCache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index ffccbf3..89d8857 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
-- 
2.43.0


From 193a492cf55190c3cf32d94b704a5bceaa8ebf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 49/63] fix: CLruCache::getSize reads the index without the
 lock

---
 include/CLruCache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 89d8857..49c0731 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -48,7 +48,11 @@ namespace lce
             clearList();
         }
 
-        size_t getSize() { return m_mapCache.size(); }
+        size_t getSize()
+        {
+            CAutoLock lock(m_oMutex);
+            return m_mapCache.size();
+        }
         size_t getMaxSize() { return m_dwMaxSize; }
 
     private:
-- 
2.43.0


From cb4f946764f2cf29ff91abbede5b04326a82a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 50/63] fix: CHttpWriter() leaves the status code and the
 expiry time uninitialised

---
 include/CHttpWriter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..8b3140c 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,10 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
+			m_iStatusCode = 200;
 			m_dwSetBodyLen = 0;
 			m_dwLastModified = 0;
+			m_dwExpiresTime = 0;
 		}
 		~CHttpWriter(void)
 		{
-- 
2.43.0


From 7d97e63d526ebdfd6a3f62037b588dff3fcf0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 51/63] fix: CHttpWriter::begin keeps the headers of the
 previous response

---
 src/CHttpWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..fb315cc 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -106,6 +106,7 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From 42b80e430ce5dfa16ff4b8aa009953f65b1adfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 52/63] fix: CHttpWriter cuts a header line after 1023 bytes
 and loses its line end

---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index fb315cc..9742df5 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From f7a95fde3ca94ae88b17abbeffba9efa13f3a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 53/63] fix: CHttpWriter announces a wrong length for a body of
 2 GiB or more

---
 src/CHttpWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 9742df5..08ea8d9 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -65,7 +65,7 @@ namespace lce
 		{
 			if (!m_sBodyContent.empty())
 			{
-				snprintf(szTmp, sizeof(szTmp), "Content-Length: %d\r\n", (uint32_t)m_sBodyContent.size());
+				snprintf(szTmp, sizeof(szTmp), "Content-Length: %lu\r\n", (unsigned long)m_sBodyContent.size());
 				m_sSendData += szTmp;
 			}
 		}
-- 
2.43.0


From 77b3460dcdbfedf749cae9a2aab77774d33f42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 54/63] fix: CHttpWriter announces no length for an empty body

---
 src/CHttpWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 08ea8d9..6b1b646 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -63,7 +63,9 @@ namespace lce
 		}
 		else
 		{
-			if (!m_sBodyContent.empty())
+			// these never have a body
+			bool bNoBody = m_iStatusCode / 100 == 1 || m_iStatusCode == 204 || m_iStatusCode == 304;
+			if (!m_sBodyContent.empty() || !bNoBody)
 			{
 				snprintf(szTmp, sizeof(szTmp), "Content-Length: %lu\r\n", (unsigned long)m_sBodyContent.size());
 				m_sSendData += szTmp;
-- 
2.43.0


From 5b6cdf0d57e29c271aea536231b9b978f34cf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 55/63] fix: CConfig does not skip the blanks in front of a
 comment or section

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..a53adf1 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,7 +37,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
-- 
2.43.0


From bb876629471c2a1323d3587e0a6072dc5991ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 56/63] fix: CConfig stores a line without '=' as a key

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index a53adf1..391c656 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -67,7 +67,7 @@ namespace lce
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (j != std::string::npos && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From 7a0ca5298977dabfd752f6187ee2a094c99e8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 57/63] fix: CConfig reads a section line with '=' as a key too

---
 src/CConfig.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 391c656..c2e42a6 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -55,15 +55,8 @@ namespace lce
 				{
 					sApp = sLine.substr(i + 1, j - i - 1);
 					lce::TrimStr(sApp);
-					if (sApp.empty())
-					{
-						break;
-					}
-				}
-				else
-				{
-					break;
 				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-- 
2.43.0


From 1078c6bbbac5d074a6f7e5ca227fec6d690eba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 58/63] fix: CConfig() leaves the error message uninitialised

---
 src/CConfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index c2e42a6..e5865f0 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -7,6 +7,7 @@ namespace lce
 
 	CConfig::CConfig(void)
 	{
+		m_szErrMsg[0] = '\0';
 	}
 
 	CConfig::~CConfig(void)
-- 
2.43.0


From 32be3a6705f0d7c729b9635a940f9d6dfd455561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 59/63] fix: CConfig reads an unsigned long of 2^63 or more as
 2^63-1

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index e5865f0..3584696 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -169,7 +169,7 @@ namespace lce
 			if (subIt != it->second.end())
 			{
 
-				dwValue = static_cast<unsigned long>(atoll(subIt->second.c_str()));
+				dwValue = strtoul(subIt->second.c_str(), NULL, 10);
 			}
 		}
 		return dwValue;
-- 
2.43.0


From ca59714b523c18e466061a67f37e633fafa19f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 60/63] fix: a write whose rest does not fit the send buffer
 loses bytes in the middle of the stream

---
 src/CCommMgr.cpp   | 2 ++
 src/CNetWorker.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..77fe29e 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -560,6 +560,7 @@ namespace lce
                     if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
+                        close(stSession.iFd);
                         return -1;
                     }
 
@@ -651,6 +652,7 @@ namespace lce
                         if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
+                            close(stSession.iFd);
                             return -1;
                         }
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..a6e487e 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -449,6 +449,7 @@ namespace lce
 					if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
+						close(stSession.iFd);
 						return -1;
 					}
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -537,6 +538,7 @@ namespace lce
 						if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
+							close(stSession.iFd);
 							return -1;
 						}
 
-- 
2.43.0


From 02427a84ca0b92a510372b41832c20dccc25f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 61/63] fix: a write that reports failure keeps its bytes
 queued when the descriptor can not be watched

---
 src/CCommMgr.cpp   | 5 +++++
 src/CNetWorker.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 77fe29e..c91d0c4 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -567,6 +567,7 @@ namespace lce
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                        close(stSession.iFd);
                         return -1;
                     }
                 }
@@ -600,6 +601,7 @@ namespace lce
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                        close(stSession.iFd);
                         return -1;
                     }
                 }
@@ -639,6 +641,7 @@ namespace lce
                 if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                    close(stSession.iFd);
                     return -1;
                 }
             }
@@ -659,6 +662,7 @@ namespace lce
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                            close(stSession.iFd);
                             return -1;
                         }
                     }
@@ -687,6 +691,7 @@ namespace lce
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                            close(stSession.iFd);
                             return -1;
                         }
                     }
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index a6e487e..0525f00 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -455,6 +455,7 @@ namespace lce
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+						close(stSession.iFd);
 						return -1;
 					}
 				}
@@ -486,6 +487,7 @@ namespace lce
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+						close(stSession.iFd);
 						return -1;
 					}
 				}
@@ -525,6 +527,7 @@ namespace lce
 				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					close(stSession.iFd);
 					return -1;
 				}
 			}
@@ -545,6 +548,7 @@ namespace lce
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+							close(stSession.iFd);
 							return -1;
 						}
 					}
@@ -573,6 +577,7 @@ namespace lce
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+							close(stSession.iFd);
 							return -1;
 						}
 					}
-- 
2.43.0


From b1924a267e5fce5f8ec81a06442760f2ce4910eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 62/63] fix: an empty write looks at a stale errno and does not
 close

---
 src/CCommMgr.cpp   | 4 ++--
 src/CNetWorker.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index c91d0c4..5945018 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -548,7 +548,7 @@ namespace lce
         {
             iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-            if (iSendSize > 0)
+            if (iSendSize >= 0)
             {
                 if (iSendSize < iSize)
                 {
@@ -648,7 +648,7 @@ namespace lce
             else
             {
                 int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-                if (iSendSize > 0)
+                if (iSendSize >= 0)
                 {
                     if (iSendSize < iSize)
                     {
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 0525f00..446ecfc 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -438,7 +438,7 @@ namespace lce
 		{
 			iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-			if (iSendSize > 0)
+			if (iSendSize >= 0)
 			{
 				if (iSendSize < iSize)
 				{
@@ -534,7 +534,7 @@ namespace lce
 			else
 			{
 				int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-				if (iSendSize > 0)
+				if (iSendSize >= 0)
 				{
 					if (iSendSize < iSize)
 					{
-- 
2.43.0


From 0e62ac4a21ba18789ee67634cc259951becf177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 63/63] fix: the read loop continues on the next connection
 when the handler closed this one and the descriptor was reused

---
 src/CCommMgr.cpp   | 2 +-
 src/CNetWorker.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 5945018..dfd4b92 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -362,7 +362,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
+                if (isClose(iFd) || pstClientInfo->pSocketRecvBuf == NULL)
                     break;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 446ecfc..eb370a9 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -363,7 +363,7 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
+				if (isClose(iFd) || m_vecClients[iFd] != pstClientInfo || pstClientInfo->pSocketRecvBuf == NULL)
 					break;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
-- 
2.43.0

